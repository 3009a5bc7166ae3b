"""Stand-in for openquake.nrmllib.hazard.parsers"""
MODELS = {}      # pathname -> NRML sources


class SourceModelParser(object):
    def __init__(self, source):
        self.source = source

    def parse(self):
        return iter(MODELS[self.source])
