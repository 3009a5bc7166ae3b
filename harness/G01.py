from openquake.commonlib import general

BOUNDS = ('up to 5 items (quick 4); weights arbitrary integers or exact '
          'reals; kinds arbitrary; max weight arbitrary')
OUTSIDE = 'longer sequences; rounding of non-representable float sums'
ASSUMES = ['weights and the maximum are exact numbers']


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for n in range(top + 1):
        for w in ('int', 'real'):
            out.append(('blocks', dict(n=n, w=w), ['done']))
    return out


def blocks(h, n, w):
    num = h.int if w == 'int' else h.real
    weights = [num('w%d' % i) for i in range(n)]
    kinds = [h.tok('k%d' % i) for i in range(n)]
    mx = num('max')
    items = range(n)
    o = h.outcome(lambda: list(general.block_splitter(
        items, mx, lambda i: weights[i], lambda i: kinds[i])))
    bad = h.Or(mx <= 0, *[x < 0 for x in weights])
    if o[0] == 'exc':
        h.check(isinstance(o[1], ValueError), 'errors are ValueErrors')
        h.check(bad, 'valid input is not refused')
        h.reach('refused')
        return
    h.check(h.Not(bad), 'invalid input is refused')
    res = o[1]
    h.reach('done')
    h.observe('blocks', [list(b) for b in res])
    flat = []
    for b in res:
        h.check(len(b) > 0, 'blocks are not empty')
        flat.extend(list(b))
    # exactly the items with non zero weight in order
    h.check(flat == sorted(flat) and len(set(flat)) == len(flat),
            'order is kept')
    for i in items:
        h.check(h.Iff(i in flat, weights[i] != 0), 'items are kept')
    for b in res:
        ws = [weights[i] for i in b]
        h.check(b.weight == h.total(ws), 'block weight is the sum')
        h.check(h.Or(len(b) == 1, h.total(ws) <= mx), 'blocks are bounded')
        for i in b:
            h.check(kinds[i] == kinds[b[0]], 'blocks are homogeneous')
    for a, b in zip(res, res[1:]):
        h.check(h.Or(kinds[a[0]] != kinds[b[0]],
                     a.weight + weights[b[0]] > mx),
                'blocks are not closed early')
