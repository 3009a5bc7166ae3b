class PMF(object):
    def __init__(self, data):
        self.data = data
