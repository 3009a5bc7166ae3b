from decimal import Decimal
import random
from openquake.commonlib import logictree
from openquake.commonlib.logictree import Branch, BranchSet, sample
import ltdoc

BOUNDS = ('branch sets with up to 4 branches of arbitrary non-negative exact '
          'decimal weights summing to one and arbitrary draws in [0,1); '
          'trees of up to 3 levels, up to 3 samples, arbitrary seeds')
OUTSIDE = 'larger trees; the quality of the random generator of the library'
ASSUMES = ['the generator is replaced by arbitrary draws in [0,1)']


def jobs(tier):
    out = []
    top = 5 if tier == 'quick' else 8
    for n in range(1, top + 1):
        out.append(('one', dict(n=n), ['done']))
    for n in (1, 2, 3):
        for k in (0, 1, 2, 3):
            out.append(('several', dict(n=n, k=k), ['done']))
    shapes = [[[2]], [[3]], [[2], [2]], [[2], [1, 2]], [[1], [2], [2]]]
    for shape in shapes:
        for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            out.append(('path', dict(shape=shape, k=k), ['done']))
    return out


class Draws(object):
    def __init__(self, h):
        self.h = h
        self.made = []

    def __call__(self, gen):
        u = self.h.real('u', 0, 1)
        self.h.assume(u < 1)
        self.made.append((gen, u))
        return u

    def random(self):
        return self(self)


def chosen(h, weights, i, u):
    """The draw falls in the interval of branch i."""
    before = h.total(weights[:i])
    if i == 0:
        return u <= weights[0]
    return h.And(before < u, u <= before + weights[i])


def weighted(h, n, prefix):
    ws = [h.dec('%s%d' % (prefix, i), 0, 1, den=1000) for i in range(n)]
    h.assume(h.total(ws) == 1)
    return ws


def one(h, n):
    ws = weighted(h, n, 'w')
    objs = [Branch('b%d' % i, w, i) for i, w in zip(range(n), ws)]
    rnd = Draws(h)
    got = logictree.sample_one(objs, rnd)
    h.reach('done')
    h.check(len(rnd.made) == 1, 'one draw')
    u = rnd.made[0][1]
    i = got.value
    h.observe('chosen', i)
    h.check(got is objs[i], 'one of the branches')
    h.check(chosen(h, ws, i, u), 'the interval of the draw')
    h.check(h.Or(u == 0, ws[i] > 0), 'no zero weights')


def several(h, n, k):
    ws = weighted(h, n, 'w')
    objs = [Branch('b%d' % i, w, i) for i, w in zip(range(n), ws)]
    rnd = Draws(h)
    got = sample(objs, k, rnd)
    h.reach('done')
    h.check(len(got) == k, 'number of samples')
    h.check(len(rnd.made) == k, 'one draw per sample')
    for g, (gen, u) in zip(got, rnd.made):
        h.check(chosen(h, ws, g.value, u), 'the interval of the draw')


def path(h, shape, k):
    levels = []
    n = 0
    for depth, sizes in zip(range(len(shape)), shape):
        bsets = []
        for size in sizes:
            ws = weighted(h, size, 'w%d_' % n)
            brs = []
            for w in ws:
                brs.append(('b%d' % n, 'file%d' % n if depth == 0 else
                            '0.%d' % n, w))
                n += 1
            bsets.append(brs)
        levels.append(bsets)
    doc = []
    prev = None
    children = {}      # branch id -> branches of the child
    for depth, bsets in zip(range(len(levels)), levels):
        nodes = []
        taken = []
        for j, brs in zip(range(len(bsets)), bsets):
            attrs = {}
            if depth:
                # the last set gets the rest, except a branch left open
                ids = [b for b in prev if b not in taken]
                ids = ids[:1] if j < len(bsets) - 1 else ids
                if j and len(ids) > 1:
                    ids = ids[:-1]
                taken.extend(ids)
                for b in ids:
                    children[b] = brs
                attrs['applyToBranches'] = ' '.join(ids)
            nodes.append(ltdoc.branchset(
                'bGRRelative' if depth else 'sourceModel', attrs,
                [ltdoc.branch(b, v, h.numtext(w)) for b, v, w in brs]))
        prev = [b for brs in bsets for b, v, w in brs]
        doc.append(nodes)
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    seed = h.int('seed')
    lt = logictree.SourceModelLogicTree(
        '<lt/>', '/base', 'lt.xml', validate=False, seed=seed, num_samples=k)
    draws = Draws(h)
    random.DRAW[0] = draws
    got = list(lt)
    h.reach('done')
    h.observe('paths', [p for v, w, p in got])
    h.check(len(got) == k, 'number of samples')
    seeds = []
    for gen in random.CREATED:
        if any(g is gen for g, u in draws.made):
            seeds.append(gen.seeds)
    h.check(h.same(seeds, [[seed]]), 'one generator, seeded')
    it = iter(draws.made)
    count = 0
    for value, weight, ids in got:
        h.check(weight is None, 'no weight')
        h.check(isinstance(ids, tuple), 'a tuple of ids')
        brs = levels[0][0]
        for i, bid in zip(range(len(ids)), ids):
            h.check(brs is not None, 'the path ends with the tree')
            gen, u = it.next()
            count += 1
            names = [b[0] for b in brs]
            h.check(bid in names, 'a branch of the set')
            j = names.index(bid)
            h.check(chosen(h, [b[2] for b in brs], j, u),
                    'the interval of the draw')
            if i == 0:
                h.check(value == brs[j][1], 'value of the root branch')
            brs = children.get(bid)
        h.check(brs is None, 'the path goes on until the end')
    h.check(count == len(draws.made), 'one draw per branch set')
