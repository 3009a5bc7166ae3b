CHECK = [None]       # called with every new source, may raise
COUNT = [None]       # function: source -> number of ruptures


class BaseSeismicSource(object):
    def _check(self):
        if CHECK[0] is not None:
            CHECK[0](self)

    def count_ruptures(self):
        return COUNT[0](self)


class PointSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 location, nodal_plane_distribution, hypocenter_distribution,
                 temporal_occurrence_model):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.location = location
        self.nodal_plane_distribution = nodal_plane_distribution
        self.hypocenter_distribution = hypocenter_distribution
        self.temporal_occurrence_model = temporal_occurrence_model
        self._check()


class AreaSource(PointSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 nodal_plane_distribution, hypocenter_distribution,
                 polygon, area_discretization, temporal_occurrence_model):
        self.polygon = polygon
        self.area_discretization = area_discretization
        PointSource.__init__(
            self, source_id, name, tectonic_region_type, mfd,
            rupture_mesh_spacing, magnitude_scaling_relationship,
            rupture_aspect_ratio, upper_seismogenic_depth,
            lower_seismogenic_depth, None, nodal_plane_distribution,
            hypocenter_distribution, temporal_occurrence_model)


class SimpleFaultSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 fault_trace, dip, rake, temporal_occurrence_model):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.fault_trace = fault_trace
        self.dip = dip
        self.rake = rake
        self.temporal_occurrence_model = temporal_occurrence_model
        self._check()


class ComplexFaultSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 edges, rake, temporal_occurrence_model):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.edges = edges
        self.rake = rake
        self.temporal_occurrence_model = temporal_occurrence_model
        self._check()


class CharacteristicFaultSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, surface, rake, temporal_occurrence_model):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type
        self.mfd = mfd
        self.surface = surface
        self.rake = rake
        self.temporal_occurrence_model = temporal_occurrence_model
        self._check()
