"""Stand-in for openquake.nrmllib.risk.parsers"""
MODELS = {}      # pathname -> records


class VulnerabilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        for rec in MODELS[self.source]:
            yield rec


class FragilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        for rec in MODELS[self.source]:
            yield rec
