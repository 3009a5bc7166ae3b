# Stand-in for random: the draws come from the test.
DRAW = [None]        # function: generator object -> number in [0, 1)
CREATED = []         # every generator, in order of creation


class Random(object):
    def __init__(self, x=None):
        self.seeds = [x]
        self.draws = []
        CREATED.append(self)

    def seed(self, a=None):
        self.seeds.append(a)

    def random(self):
        u = DRAW[0](self)
        self.draws.append(u)
        return u

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + int(self.random() * (b - a + 1))

    def choice(self, seq):
        return seq[int(self.random() * len(seq))]

_inst = Random()
random = _inst.random
seed = _inst.seed
uniform = _inst.uniform
randint = _inst.randint
choice = _inst.choice
