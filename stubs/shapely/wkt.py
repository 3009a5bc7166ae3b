"""Stand-in for shapely.wkt: the harness registers the geometries."""
GEOMETRIES = {}      # text -> coordinates


class Ring(object):
    def __init__(self, coords):
        self.coords = coords


class Geometry(object):
    def __init__(self, coords):
        self.coords = coords
        self.x = coords[0][0]
        self.y = coords[0][1]
        self.exterior = Ring(coords)


def loads(text):
    return Geometry(GEOMETRIES[text])
