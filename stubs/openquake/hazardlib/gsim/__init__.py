from openquake.hazardlib.gsim.base import GroundShakingIntensityModel


class SadighEtAl1997(GroundShakingIntensityModel):
    pass


class ChiouYoungs2008(GroundShakingIntensityModel):
    pass


class ToroEtAl2002(GroundShakingIntensityModel):
    pass


def get_available_gsims():
    return dict((c.__name__, c) for c in (
        SadighEtAl1997, ChiouYoungs2008, ToroEtAl2002))
