import math
from openquake.commonlib import general

BOUNDS = ('up to 4 items (thorough 5) of arbitrary kinds with arbitrary '
          'weights (integers or exact reals), block hints 1..4; up to 8 '
          '(thorough 16) items of weight one with every positive hint')
OUTSIDE = 'longer sequences; rounding of sums which are not exact doubles'
ASSUMES = ['weights are exact numbers', 'weights are not negative']


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for n in range(top + 1):
        for w in ('int', 'real'):
            out.append(('blocks', dict(n=n, w=w), ['done']))
    for n in range(9 if tier == 'quick' else 17):
        out.append(('units', dict(n=n), ['done']))
    out.append(('bad_hint', {}, ['refused']))
    return out


def run(items, hint, *funcs):
    return list(general.split_in_blocks(items, hint, *funcs))


def blocks(h, n, w):
    num = h.int if w == 'int' else h.real
    weights = [num('w%d' % i, 0) for i in range(n)]
    kinds = [h.tok('k%d' % i) for i in range(n)]
    hint = h.size('hint', 1, 4)
    total = h.total(weights)
    mx = math.ceil(total / float(hint))
    items = range(n)
    fresh = iter(items) if h.flag('iterator') else items
    o = h.outcome(run, fresh, hint, lambda i: weights[i],
                  lambda i: kinds[i])
    h.check(o[0] == 'ok', 'splitting does not fail', o[1])
    res = [list(b) for b in o[1]]
    h.observe('blocks', res)
    flat = [i for b in res for i in b]
    for i in items:
        h.check(h.Iff(flat.count(i) == 1, weights[i] != 0) and
                flat.count(i) <= 1, 'items are kept')
    h.check(flat == sorted(flat), 'order is kept')
    if total == 0:
        h.check(res == [], 'no blocks from nothing')
    else:
        # reference grouping, from the meaning of the maximum weight
        ref, acc = [], 0
        for i in flat:
            if ref and h.And(kinds[ref[-1][-1]] == kinds[i],
                             acc + weights[i] <= mx):
                ref[-1].append(i)
                acc = acc + weights[i]
            else:
                ref.append([i])
                acc = weights[i]
        h.check(res == ref, 'the grouping is the one for the weight '
                'ceil(total / hint)', res, ref)
    h.reach('done')


def units(h, n):
    hint = h.int('hint', 1)
    items = [h.tok('i%d' % i) for i in range(n)]
    o = h.outcome(run, items, hint)
    h.check(o[0] == 'ok', 'splitting does not fail', o[1])
    h.check(len(o[1]) <= hint, 'no more blocks than the hint')
    h.check([x for b in o[1] for x in b] == items, 'items are kept')
    for b in o[1]:
        h.check(b.weight == len(b) and len(b) > 0, 'blocks weigh')
    h.reach('done')


def bad_hint(h):
    hint = h.int('hint', None, 0)
    o = h.outcome(run, ['a'], hint)
    h.check(o[0] == 'exc', 'a non positive hint is refused')
    h.reach('refused')
