from openquake.commonlib.general import WeightedSequence

BOUNDS = ('histories of up to 3 operations (thorough 4) on two sequences '
          'with insertions at every position from -4 to 4, extensions and '
          'merges by up to 2 items; comparisons of sequences up to length 3')
OUTSIDE = 'longer histories'
ASSUMES = ['weights are exact numbers']


def jobs(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for first in ('insert', 'append', 'extend', 'add', 'merge'):
        for w in ('int', 'real'):
            out.append(('history', dict(k=k, first=first, w=w), ['done']))
    for n in range(4):
        for m in range(4):
            out.append(('equality', dict(n=n, m=m), ['compared']))
    out.append(('order', {}, ['ordered']))
    for n in range(3):
        out.append(('merges', dict(n=n), ['merged']))
    out.append(('sources', {}, ['built']))
    return out


class Model(object):
    def __init__(self):
        self.items = []
        self.weights = []


def agree(h, ws, model):
    h.check(list(ws) == model.items, 'the items are those of a list')
    h.check(len(ws) == len(model.items), 'the length is that of a list')
    h.check(ws.weight == h.total(model.weights),
            'the weight is the sum of the weights of the inserted items')


def history(h, k, first, w):
    num = h.int if w == 'int' else h.real
    counter = [0]

    def pair():
        i = counter[0]
        counter[0] += 1
        return h.int('item%d' % i), num('weight%d' % i)

    def fill(name, top):
        pairs = [pair() for _ in range(h.size(name, 0, top))]
        m = Model()
        m.items = [p[0] for p in pairs]
        m.weights = [p[1] for p in pairs]
        return pairs, m
    pairs, model = fill('n', 2)
    ws = WeightedSequence(pairs)
    agree(h, ws, model)
    ops = ['insert', 'append', 'extend', 'add', 'merge']
    for step in range(k):
        op = first if step == 0 else h.pick('op%d' % step, ops)
        if op == 'insert':
            pos = h.size('pos%d' % step, -2, 4)
            item, weight = pair()
            ws.insert(pos, (item, weight))
            model.items.insert(pos, item)
            model.weights.append(weight)
        elif op == 'append':
            item, weight = pair()
            ws.append((item, weight))
            model.items.append(item)
            model.weights.append(weight)
        elif op == 'extend':
            pairs, m = fill('ext%d' % step, 2)
            ws.extend(pairs)
            model.items.extend(m.items)
            model.weights.extend(m.weights)
        else:
            pairs, m = fill('other%d' % step, 2)
            other = WeightedSequence(pairs)
            old = Model()
            old.items = list(model.items)
            old.weights = list(model.weights)
            if op == 'add':
                new = ws + other
                model.items = old.items + m.items
                model.weights = old.weights + m.weights
            else:
                new = WeightedSequence.merge([ws, other, ws])
                model.items = old.items + m.items + old.items
                model.weights = old.weights + m.weights + old.weights
            new.append((1, 2))
            agree(h, ws, old)
            agree(h, other, m)
            model.items = model.items + [1]
            model.weights = model.weights + [2]
            ws = new
        agree(h, ws, model)
    h.reach('done')


def equality(h, n, m):
    xs = [h.int('x%d' % i) for i in range(n)]
    ys = [h.int('y%d' % i) for i in range(m)]
    a = WeightedSequence([(x, h.int('u')) for x in xs])
    b = WeightedSequence([(y, h.int('v')) for y in ys])
    expected = h.And(n == m, *[x == y for x, y in zip(xs, ys)])
    h.check(h.Iff(bool(a == b), expected),
            'equality is equality of the items', xs, ys)
    h.check(h.Iff(bool(a != b), h.Not(expected)),
            'different is the negation of equal', xs, ys)
    h.reach('compared')


def order(h):
    ws = [WeightedSequence([('i', h.int('u%d.%d' % (i, j)))
                            for j in range(h.size('n%d' % i, 0, 2))])
          for i in range(3)]
    a, b = ws[:2]
    h.check(h.Iff(bool(a < b), a.weight < b.weight), 'ordered by weight')
    h.check(h.Iff(bool(a > b), a.weight > b.weight), 'ordered by weight')
    s = sorted(ws)
    h.check(h.And(s[0].weight <= s[1].weight, s[1].weight <= s[2].weight),
            'sorted by weight')
    h.reach('ordered')


def merges(h, n):
    """Merging no sequence, one or more, from a list or an iterator."""
    seqs, models = [], []
    for i in range(n):
        m = Model()
        for j in range(h.size('n%d' % i, 0, 2)):
            m.items.append(h.int('item%d.%d' % (i, j)))
            m.weights.append(h.int('weight%d.%d' % (i, j)))
        seqs.append(WeightedSequence(zip(m.items, m.weights)))
        models.append(m)
    o = h.outcome(WeightedSequence.merge,
                  iter(seqs) if h.flag('iterator') else list(seqs))
    h.check(o[0] == 'ok', 'sequences can be merged', n)
    new = o[1]
    h.check(isinstance(new, WeightedSequence), 'the merge is a sequence')
    total = Model()
    for m in models:
        total.items = total.items + m.items
        total.weights = total.weights + m.weights
    agree(h, new, total)
    new.insert(0, (7, 3))
    for ws, m in zip(seqs, models):
        agree(h, ws, m)
    h.reach('merged')


def sources(h):
    """The pairs may come from any finite iterable."""
    m = Model()
    for j in range(h.size('n', 0, 3)):
        m.items.append(h.int('item%d' % j))
        m.weights.append(h.int('weight%d' % j))
    pairs = zip(m.items, m.weights)
    kind = h.pick('kind', ['list', 'tuple', 'iterator', 'generator'])
    source = (list(pairs) if kind == 'list' else tuple(pairs)
              if kind == 'tuple' else iter(pairs) if kind == 'iterator'
              else (p for p in pairs))
    if h.flag('extend'):
        ws = WeightedSequence()
        ws.extend(source)
    else:
        ws = WeightedSequence(source)
    agree(h, ws, m)
    h.reach('built')
