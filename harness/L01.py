from openquake.commonlib.logictree import Branch, BranchSet

BOUNDS = ('trees of up to 3 levels of branch sets with up to 3 branches each '
          '(some with 4 levels), each branch with or without a child, '
          'branch sets shared between branches; arbitrary exact decimal '
          'weights; arbitrary, possibly equal branch ids')
OUTSIDE = ('larger trees; products of weights with more than 28 significant '
           'digits, which the decimal module rounds')
ASSUMES = ['products of weights are exact']

# sizes of the branch sets, level by level; every branch is attached to one
# of the branch sets of the next level or to none
SHAPES = [[[1]], [[3]], [[2], [2]], [[2], [1, 2]], [[3], [2]],
          [[2], [2], [2]], [[2], [1, 1], [2]], [[1], [2], [1, 2]],
          [[3], [3], [2]], [[2], [2, 2], [2]], [[2], [2], [2], [2]]]
DEEP = [[[2], [1, 2], [2, 1], [1]], [[3], [2, 2], [1, 2]],
        [[3], [3], [3]], [[2], [2, 2], [2, 1]]]


def jobs(tier):
    out = []
    shapes = SHAPES if tier == 'quick' else SHAPES + DEEP
    for shape in shapes:
        out.append(('enumerate', dict(shape=shape), ['done']))
    for shape in SHAPES[:5] + [[[2], [1], [2]]]:
        out.append(('sums', dict(shape=shape), ['done']))
    for n in range(6):
        out.append(('byid', dict(n=n), ['done'] if n else []))
    return out


def build(h, shape, weight):
    """The levels of branch sets; the children are picked."""
    levels = []
    k = 0
    for sizes in shape:
        level = []
        for size in sizes:
            bs = BranchSet('x', {})
            for i in range(size):
                bs.branches.append(Branch('b%d' % k, weight(k), k))
                k += 1
            level.append(bs)
        levels.append(level)
    for level, below in zip(levels, levels[1:]):
        for bs in level:
            for br in bs.branches:
                j = h.size('child of %s' % br.branch_id, -1, len(below) - 1)
                if j >= 0:
                    br.child_branchset = below[j]
    return levels


def paths(bs):
    """The expected paths, in order."""
    out = []
    for br in bs.branches:
        if br.child_branchset is None:
            out.append([br])
        else:
            for p in paths(br.child_branchset):
                out.append([br] + p)
    return out


def enumerate(h, shape):
    levels = build(h, shape, lambda k: h.dec('w%d' % k, den=1000))
    root = levels[0][0]
    expected = paths(root)
    got = list(root.enumerate_paths())
    h.reach('done')
    h.observe('paths', [[b.branch_id for b in p] for w, p in got])
    h.check(len(got) == len(expected), 'every path once')
    for (weight, path), exp in zip(got, expected):
        h.check(len(path) == len(exp) and all(
            x is y for x, y in zip(path, exp)), 'paths in order')
        prod = 1
        for br in exp:
            prod = prod * br.weight
        h.check(weight == prod, 'weight of a path')
    again = list(root.enumerate_paths())
    h.check([[b.branch_id for b in p] for w, p in again] ==
            [[b.branch_id for b in p] for w, p in got],
            'the enumeration can be repeated')


def sums(h, shape):
    levels = build(h, shape, lambda k: h.dec('w%d' % k))
    for level in levels:
        for bs in level:
            h.assume(h.total([b.weight for b in bs.branches]) == 1)
    got = list(levels[0][0].enumerate_paths())
    h.reach('done')
    h.check(h.total([w for w, p in got]) == 1, 'the weights sum to one')


def byid(h, n):
    bs = BranchSet('x', {})
    ids = [h.tok('id%d' % i) for i in range(n)]
    for i, bid in zip(range(n), ids):
        bs.branches.append(Branch(bid, 1, i))
    want = h.tok('want')
    o = h.outcome(bs.get_branch_by_id, want)
    if o[0] == 'ok':
        h.reach('done')
        h.check(o[1].branch_id == want, 'the branch with that id')
        h.check(h.Or(*[b is o[1] for b in bs.branches]), 'a branch of the set')
    else:
        h.check(h.Not(h.Or(*[i == want for i in ids])), 'a branch is found')
