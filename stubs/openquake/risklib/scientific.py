"""Stand-in for openquake.risklib.scientific: keeps what it is given"""
REFUSE = [None]      # function: object -> message or None


class Base(object):
    def _check(self):
        if REFUSE[0] is not None:
            msg = REFUSE[0](self)
            if msg is not None:
                raise ValueError(msg)


class VulnerabilityFunction(Base):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution="LN"):
        self.imt = imt
        self.imls = imls
        self.mean_loss_ratios = mean_loss_ratios
        self.covs = covs
        self.distribution_name = distribution
        self._check()


class FragilityFunctionDiscrete(Base):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls = imls
        self.poes = poes
        self.no_damage_limit = no_damage_limit
        self._check()


class FragilityFunctionContinuous(Base):
    def __init__(self, mean, stddev):
        self.mean = mean
        self.stddev = stddev
        self._check()
