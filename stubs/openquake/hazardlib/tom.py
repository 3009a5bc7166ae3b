class PoissonTOM(object):
    def __init__(self, time_span):
        self.time_span = time_span
