from openquake.commonlib.record import Record, Field, Unique, Table

BOUNDS = ('pairs of records of 1 to 3 fields, possibly of different types '
          'and lengths, records against lists and tuples up to length 4, '
          'tables of up to 2 records (thorough 3) of equal or different '
          'types and lengths, tables against lists; arbitrary texts (for '
          'separators within texts: up to 3 characters)')
OUTSIDE = 'longer records and tables; objects which are not sequences'
ASSUMES = []
NAMES = ['a', 'b', 'c']


def make(h, name, n):
    dic = dict((x, Field(str)) for x in NAMES[:n])
    dic['pkey'] = Unique('a')
    return h.newtype(type(Record), name, (Record,), dic)


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out.append(('records', dict(n=n, m=m), ['compared']))
        for m in range(5):
            out.append(('sequences', dict(n=n, m=m), ['compared']))
    for n in (1, 2, 3):
        out.append(('texts', dict(n=n, table=n == 2), ['compared']))
    top = 2 if tier == 'quick' else 3
    for n in range(top + 1):
        for m in range(top + 1):
            for w in (1, 2):
                out.append(('tables', dict(n=n, m=m, w=w), ['compared']))
    return out


def compare(h, a, b, equal):
    o = h.outcome(lambda: a == b)
    h.check(o[0] == 'ok', 'comparing does not raise', o[1])
    h.check(h.Iff(bool(o[1]), equal), 'equal when the contents are equal')
    o = h.outcome(lambda: a != b)
    h.check(o[0] == 'ok', 'comparing does not raise', o[1])
    h.check(h.Iff(bool(o[1]), h.Not(equal)),
            'different is the negation of equal')


def toks(h, name, n):
    return [h.tok('%s%d' % (name, i)) for i in range(n)]


def alike(h, xs, ys):
    if len(xs) != len(ys):
        return False
    return h.And(*[h.same(x, y) for x, y in zip(xs, ys)])


def records(h, n, m):
    one = make(h, 'One', n)
    two = one if n == m and h.flag('same type') else make(h, 'Two', m)
    xs, ys = toks(h, 'x', n), toks(h, 'y', m)
    a, b = one(*xs), two(*ys)
    compare(h, a, b, alike(h, xs, ys))
    compare(h, b, a, alike(h, xs, ys))
    compare(h, a, a, True)
    h.reach('compared')


def texts(h, n, table):
    # separators, blanks and quotes in the fields
    rt = make(h, 'One', n)
    size = 3 if n == 2 else 2
    xs = [h.text('x%d' % i, size, 0, 'a ,"\n') for i in range(n)]
    ys = [h.text('y%d' % i, size, 0, 'a ,"\n') for i in range(n)]
    equal = alike(h, xs, ys)
    a, b = rt(*xs), rt(*ys)
    if table:
        a, b = Table(rt, [a]), Table(rt, [b])
    compare(h, a, b, equal)
    h.reach('compared')


def sequences(h, n, m):
    rt = make(h, 'One', n)
    xs, ys = toks(h, 'x', n), toks(h, 'y', m)
    seq = h.pick('kind', [list, tuple])(ys)
    compare(h, rt(*xs), seq, alike(h, xs, ys))
    h.reach('compared')


def tables(h, n, m, w):
    one = make(h, 'One', w)
    two = one if h.flag('same type') else make(h, 'Two', w)
    xs = [toks(h, 'x%d' % i, w) for i in range(n)]
    ys = [toks(h, 'y%d' % i, w) for i in range(m)]
    for rows in (xs, ys):
        for i, r in enumerate(rows):
            for s in rows[:i]:
                h.assume(h.Not(h.same(r[0], s[0])))
    equal = n == m and h.And(*[alike(h, x, y) for x, y in zip(xs, ys)])
    a = Table(one, [one(*x) for x in xs])
    b = Table(two, [two(*y) for y in ys])
    compare(h, a, b, equal)
    compare(h, a, [two(*y) for y in ys], equal)
    compare(h, a, a, True)
    h.reach('compared')
