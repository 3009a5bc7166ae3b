class Point(object):
    def __init__(self, longitude, latitude, depth=0.0):
        self.longitude = longitude
        self.latitude = latitude
        self.depth = depth


class Line(object):
    def __init__(self, points):
        self.points = points

    def __iter__(self):
        return iter(self.points)

    def __len__(self):
        return len(self.points)

    def __getitem__(self, i):
        return self.points[i]


class Mesh(object):
    def __init__(self, lons, lats):
        self.lons = lons
        self.lats = lats

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        for lon, lat in zip(self.lons, self.lats):
            yield Point(lon, lat)


class Polygon(object):
    mesh = None          # the harness says which mesh to use
    asked = None         # the discretization asked for

    def __init__(self, points):
        self.points = points

    def discretize(self, mesh_spacing):
        self.asked = mesh_spacing
        return self.mesh


class NodalPlane(object):
    def __init__(self, strike, dip, rake):
        self.strike = strike
        self.dip = dip
        self.rake = rake


class SimpleFaultSurface(object):
    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth,
                        lower_seismogenic_depth, dip, mesh_spacing):
        self = cls()
        self.fault_trace = fault_trace
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.dip = dip
        self.mesh_spacing = mesh_spacing
        return self


class ComplexFaultSurface(object):
    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        self = cls()
        self.edges = edges
        self.mesh_spacing = mesh_spacing
        return self


class PlanarSurface(object):
    def __init__(self, mesh_spacing, strike, dip,
                 top_left, top_right, bottom_right, bottom_left):
        self.mesh_spacing = mesh_spacing
        self.strike = strike
        self.dip = dip
        self.top_left = top_left
        self.top_right = top_right
        self.bottom_right = bottom_right
        self.bottom_left = bottom_left


class MultiSurface(object):
    def __init__(self, surfaces):
        self.surfaces = surfaces
