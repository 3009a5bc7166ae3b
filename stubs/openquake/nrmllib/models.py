"""Stand-in for openquake.nrmllib.models: classes of plain objects."""


class Model(object):
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])


class SourceModel(Model):
    pass


class SeismicSource(Model):
    pass


class PointSource(SeismicSource):
    pass


class AreaSource(PointSource):
    pass


class SimpleFaultSource(SeismicSource):
    pass


class ComplexFaultSource(SimpleFaultSource):
    pass


class CharacteristicSource(SeismicSource):
    pass


class PointGeometry(Model):
    pass


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultGeometry(Model):
    pass


class ComplexFaultGeometry(Model):
    pass


class PlanarSurface(Model):
    pass


class Point(Model):
    pass


class IncrementalMFD(Model):
    pass


class TGRMFD(Model):
    pass


class NodalPlane(Model):
    pass


class HypocentralDepth(Model):
    pass


class SimpleFaultRuptureModel(Model):
    pass


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass
