class GroundShakingIntensityModel(object):
    pass
