# Differential test of the translator: each snippet is executed symbolically
# and its paths are replayed on the real interpreter, comparing the results.
import itertools
import functools
import operator
import collections
import math
import copy
import os
import re
import decimal

BOUNDS = OUTSIDE = ''
ASSUMES = []
SNIPS = {}


def snip(f):
    SNIPS[f.__name__] = f
    return f


def jobs(tier):
    return [('run', dict(name=n), []) for n in sorted(SNIPS)]


def run(h, name):
    o = h.outcome(SNIPS[name], h)
    h.observe('result', list(o))


def ints(h, n=3, lo=-2, hi=3):
    return [h.int('x%d' % i, lo, hi) for i in range(n)]


def txt(h, n=3, al='ab ,.1', name='s'):
    return h.text(name, n, 0, al)


# ------------------------------------------------------------- texts
@snip
def str_methods1(h):
    s = txt(h)
    return [s.split(','), s.split(), s.split(',', 1), s.rsplit(',', 1),
            s.partition(','), s.rpartition('.'), s.strip(), s.lstrip(),
            s.rstrip(' ,'), s.upper(), s.lower(), s.title(), s.capitalize()]


@snip
def str_methods2(h):
    s = txt(h)
    return [s.startswith('a'), s.endswith(('b', 'a')), s.find('b'),
            s.rfind('a'), s.count('a'), s.replace('a', 'xy'),
            s.replace('a', 'b', 1), s.isdigit(), s.isalpha(), s.isalnum(),
            s.isspace(), s.islower(), s.isupper(), s.swapcase()]


@snip
def str_methods3(h):
    s = txt(h)
    return [s.zfill(5), s.ljust(5), s.rjust(5, '*'), s.center(6),
            s.splitlines(), s.expandtabs(), '%r' % s, repr(s), s[::-1],
            s[1:], s[:-1], s[-1:], s * 2, len(s), list(s), tuple(s),
            s + 'x', 'x' + s, sorted(s)]


@snip
def str_index(h):
    s = txt(h)
    return s.index('b')


@snip
def str_rindex(h):
    s = txt(h)
    return s.rindex('b')


@snip
def str_cmp(h):
    s = txt(h)
    t = txt(h, 2, name='t')
    return [s == t, s != t, s < t, s <= t, s > t, s >= t, t in s, s in t,
            cmp(s, t), t not in s, max(s, t), min(s, t),
            s.startswith(t), s.endswith(t), bool(s)]


@snip
def str_translate(h):
    s = txt(h)
    return [s.translate(None, 'a,'), ''.join(c for c in s if c != 'a'),
            ','.join(s), ' '.join(s.split()), filter(str.isdigit, s),
            s.encode('utf8'), s.decode('utf8') == s]


@snip
def str_format(h):
    s = txt(h, 2)
    x = h.int('x', 0, 12)
    return ['%s=%d' % (s, x), '%(a)s' % {'a': s}, '{0}-{1}'.format(s, x),
            '{}:{}'.format(x, s), '{a}'.format(a=s), '%03d' % x, '%5s|' % s,
            '%-5s|' % s, '%x' % x, '%i%%' % x, '{0!r}'.format(s),
            '{0[0]}'.format([x]), str(x), repr(x), '%s' % [x, s],
            '%s' % (x,), '%r' % ((s,),), format(x, 'd'), '{0:03d}'.format(x)]


@snip
def str_chars(h):
    s = txt(h)
    out = []
    for i, c in enumerate(s):
        if c in 'ab':
            out.append((i, c))
        elif c.isdigit():
            out.append(int(c))
        else:
            out.append(ord(c))
    return out


@snip
def str_re(h):
    s = txt(h)
    m = re.match(r'([ab]+)(,?)(1*)$', s)
    if m:
        return [m.group(0), m.group(1), m.groups(), m.start(2), m.end(),
                m.span(1), m.group(1, 3)]
    m = re.search(r'[,.]', s)
    if m:
        return ['search', m.start(), m.group()]
    return None


@snip
def str_re2(h):
    s = txt(h)
    return [re.sub('a', 'x', s), re.split(',', s), re.findall('[ab]', s),
            bool(re.compile('^a', re.I).match(s)),
            [m.group() for m in re.finditer('a.', s)]]


@snip
def str_rename(h):
    s = txt(h, 4, 'ab_')
    a, sep, b = s.partition('_')
    if not sep:
        return a
    return '_'.join([b, a])


@snip
def str_num(h):
    s = h.text('s', 3, 0, '01-+. e')
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError as e:
            return 'no'


@snip
def str_iter(h):
    s = txt(h)
    it = iter(s)
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            break
    return out, ''.join(reversed(s)), zip(s, s[1:]), dict(enumerate(s))


@snip
def tok_ops(h):
    s, t = h.tok('s'), h.tok('t')
    return [s == t, s < t, s + '/' + t, s in [t, 'z'], {s: 1}.get(t),
            sorted([s, t, 'k']), s or t, [x for x in (s, t) if x == 'abc'],
            os.path.join(s, t), set([s, t]), '%s,%s' % (s, t),
            ','.join([s, t]).split(','), str(s), len(set([s, t])),
            s.strip(), s != t, cmp(s, t)]


# ------------------------------------------------------------- numbers
@snip
def num_ops(h):
    x, y, z = ints(h)
    return [x + y, x - y, x * y, x & 3, x | 1, x ^ 2, -x, +x, ~x, abs(x),
            x << 1, x >> 1, x == y, x != y, x < y <= z, cmp(x, y), bool(x),
            not x, x and y, x or y, (x if y else z), max(x, y, z),
            min([x, y, z]), sum([x, y, z]), x ** 2, int(x), float(x), str(x),
            x is None, isinstance(x, int), isinstance(x, (str, float)),
            hash(x) == hash(y), divmod(x, 2), x % 3, x // 3, x / 3.,
            x // -2, x % -2, pow(x, 2), round(x / 2.), coerce(x, 1.)]


@snip
def num_div(h):
    x, y = ints(h, 2)
    return [x / y, x % y, divmod(x, y), x // y]


@snip
def num_aug(h):
    x, y, z = ints(h)
    x += y
    y -= z
    z *= x
    x //= 2
    y %= 3
    z /= 2
    x |= 1
    y &= 3
    z ^= 1
    x <<= 1
    y >>= 1
    return x, y, z


@snip
def real_ops(h):
    x = h.real('x', -4, 4)
    y = h.real('y', -4, 4)
    return [x + y, x - y, x * 2, x / 2, x < y, x == y, max(x, y), abs(x),
            int(x), math.floor(x), math.ceil(x), round(x), x // 1, x % 1,
            bool(x), -x, sorted([x, y]), sum([x, y]), float(x), x >= 0 or y]


@snip
def num_math(h):
    x = h.int('x', 0, 9)
    return [math.sqrt(x), math.ceil(x / 2.), math.floor(x / 2.),
            math.fabs(x), math.trunc(x / 2.), math.fsum([x, 1]),
            math.isnan(x), math.modf(x / 2.), math.hypot(x, 0)]


@snip
def num_dec(h):
    x = h.dec('x', 0, 1)
    D = decimal.Decimal
    return [x + D('0.5'), x * 2, x == D(1), x < D('0.3'), sum([x, x]),
            float(x), max(x, D('0.25')), abs(x - 1), bool(x),
            D('1.0') - x == 0, -x, x != 1, int(x)]


@snip
def num_bool(h):
    b, c = h.bool('b'), h.bool('c')
    return [b and c, b or c, not b, b == c, b != c, b & c, b | c, b ^ c,
            int(b), b + c, sum([b, c]), [1, 2][b], 'x' * b, str(b), repr(c),
            any([b, c]), all([b, c]), bool(b), b is True, {True: 1}.get(b),
            isinstance(b, bool), sorted([b, c]), b < c, (b and 1) or 2]


# ------------------------------------------------------------- lists
@snip
def list_ops(h):
    x, y, z = ints(h)
    a = [x, y, z]
    out = [a[:], a[::-1], a[1:], a + [1], a * 2, x in a[1:], a.count(x),
           len(a), sorted(a), sorted(a, reverse=True),
           sorted(a, key=lambda v: -v), sorted(a, cmp=lambda p, q: cmp(q, p)),
           list(reversed(a)), max(a), min(a), sum(a), a == [1, 2, 3],
           a < [1, 2], a != [x, y, z], list(enumerate(a)),
           list(enumerate(a, 1)), zip(a, 'abc'), map(None, a, [1]),
           map(lambda p, q: p + q, a, a), filter(None, a), reduce(
               operator.add, a), reduce(lambda p, q: p * q, a, 1)]
    a.sort()
    out.append(a[:])
    a.reverse()
    out.append(a[:])
    a.append(5)
    a.insert(1, 7)
    a.insert(-1, 8)
    a.extend([x, y])
    a.remove(7)
    out.append(a.pop())
    out.append(a.pop(0))
    del a[1]
    a[0:1] = [9, 9]
    a[-1] = 4
    a += (1, 2)
    del a[2:3]
    out.append(a)
    out.append(a[::2])
    return out


@snip
def list_index(h):
    x, y, z = ints(h)
    a = [x, y]
    return [a.index(z), a.remove(z), a]


@snip
def list_symidx(h):
    x, y = ints(h, 2)
    a = [10, 11, 12]
    return a[x], a[:y], a[x:y], a[y:]


@snip
def list_symset(h):
    x, y = ints(h, 2)
    a = [10, 11, 12]
    a[x] = 5
    a.insert(y, 6)
    a.pop(y)
    del a[x]
    return a


@snip
def list_comp(h):
    a = ints(h)
    return [[v for v in a if v > 0], [v * w for v in a for w in a if v < w],
            [[v] * 2 for v in a], {v: i for i, v in enumerate(a)},
            {v for v in a}, sum(v for v in a if v), list(
                v for v in a if not v % 2), [(i, j) for i, j in zip(a, a[1:])],
            any(v > 2 for v in a), all(v > -2 for v in a),
            max(v for v in a), dict((v, 1) for v in a),
            [w for v in [a, a[1:]] for w in v],
            next((v for v in a if v == 2), None)]


@snip
def list_loops(h):
    a = ints(h)
    out = []
    for v in a:
        if v == 0:
            break
        if v < 0:
            continue
        out.append(v)
    else:
        out.append('else')
    i = 0
    while i < len(a):
        if a[i] == 3:
            break
        i += 1
    else:
        out.append('welse')
    n = len(a)
    while n:
        n -= 1
        out.append(a[n])
    for i in xrange(len(a) - 1, -1, -1):
        out.append(a[i])
    for i in range(0, len(a), 2):
        out.append(i)
    return out


@snip
def tuple_ops(h):
    x, y, z = ints(h)
    t = (x, y)
    a, (b, c) = x, t
    t2 = t + (z,)
    d = {}
    d[t] = 1
    return [t == (y, x), t < (z, z), t[0], t[-1], len(t2), z in t2, t2[1:],
            t2.index(z), t2.count(z), hash(t) == hash((x, y)), d.get((y, x)),
            a, b, c, sorted([t, (y, x)]), max(t, (z, z)), tuple([x, y]),
            (x, y) in d, t * 2, cmp(t, (z, z))]


@snip
def range_sym(h):
    n = h.int('n', -1, 3)
    out = [range(n), list(xrange(n)), range(1, n), [0] * n, 'a' * n]
    for i in range(n):
        out.append(i)
    for i in xrange(n, 0, -1):
        out.append(i)
    return out


# ------------------------------------------------------------- dicts, sets
@snip
def dict_ops(h):
    x, y, z = ints(h)
    d = {x: 'a', y: 'b'}
    out = [d.get(z), d.get(z, 0), z in d, d.has_key(z), len(d),
           sorted(d), sorted(d.items()), sorted(d.keys()),
           sorted(d.values()), sorted(d.iteritems()), d == {x: 'a', y: 'b'},
           d.setdefault(z, 'c'), sorted(d), d.pop(z), d.pop(7, None),
           z not in d, d.copy() == d, dict(d, k=1)['k'], bool(d)]
    d.update({z: 'e'}, w='f')
    d.update([(x, 'n')])
    out.append(sorted(d.items()))
    for k in list(d):
        if k == x:
            del d[k]
    out.append(sorted(d.items()))
    d.clear()
    out.append(d)
    return out


@snip
def dict_missing(h):
    x, y, z = ints(h)
    d = {x: 1}
    try:
        v = d[y]
    except KeyError as e:
        v = e.args[0]
    del d[z]
    return v, d


@snip
def dict_more(h):
    x, y, z = ints(h)
    d = collections.defaultdict(list)
    for i, k in enumerate([x, y, z]):
        d[k].append(i)
    o = collections.OrderedDict()
    for i, k in enumerate([x, y, z]):
        o[k] = o.get(k, 0) + i
    c = collections.defaultdict(int)
    for k in (x, y, z):
        c[k] += 1
    e = dict.fromkeys([x, y], 0)
    f = dict(zip([x, y, z], 'abc'))
    return [sorted(d.items()), o.items(), list(o), sorted(c.items()),
            sorted(e.items()), sorted(f.items()), max(c.values()),
            o.values(), dict(a=1, b=x),
            min(c, key=lambda k: (c[k], k)), o.popitem(), len(o)]


@snip
def dict_counter(h):
    x, y, z = ints(h)
    c = collections.Counter([x, y, z])
    return [sorted(c.items()), c[9], c[x], c.most_common(1)[0][1],
            len(c), sum(c.values())]


@snip
def set_ops(h):
    x, y, z = ints(h)
    s, t = set([x, y]), frozenset([y, z])
    out = [s | t, s & t, s - t, s ^ t, s <= t, s < t, s >= t, s == t,
           len(s), z in s, s.union([z]), s.intersection([z]),
           s.difference([z]), s.symmetric_difference([z]), s.issubset(t),
           s.issuperset(t), s.isdisjoint(t), sorted(s), bool(s), set(),
           set([x]) == set([y]), max(s), hash(t) == hash(frozenset([z, y]))]
    s.add(z)
    s.discard(x)
    s.update([5])
    out.append(s.copy())
    s |= set([6])
    s -= t
    s &= set([5, 6, x])
    s ^= set([5])
    out.append(s)
    return out


@snip
def set_remove(h):
    x, y, z = ints(h)
    s = set([x, y])
    s.remove(z)
    return s


@snip
def deque_ops(h):
    x, y, z = ints(h)
    d = collections.deque([x, y])
    d.append(z)
    d.appendleft(1)
    out = [list(d), d.popleft(), d.pop(), len(d), d[0], bool(d), x in d]
    d.extend([3, 4])
    d.rotate(1)
    out.append(list(d))
    return out


# ------------------------------------------------------------- itertools
@snip
def iter_tools(h):
    a = ints(h)
    it = itertools
    return [list(it.chain(a, [9])), list(it.chain.from_iterable([a, a])),
            list(it.islice(a, 2)), list(it.islice(it.count(a[0]), 1, 3)),
            list(it.izip(a, 'xy')), list(it.imap(abs, a)),
            list(it.ifilter(None, a)), list(it.ifilterfalse(None, a)),
            list(it.takewhile(lambda v: v > 0, a)),
            list(it.dropwhile(lambda v: v > 0, a)),
            list(it.product(a[:2], 'xy')), list(it.repeat(a[0], 2)),
            [(k, list(g)) for k, g in it.groupby(a)],
            [(k, len(list(g))) for k, g in it.groupby(
                sorted(a), key=lambda v: v > 0)],
            list(it.permutations(a, 2)), list(it.combinations(a, 2)),
            list(it.starmap(max, [(a[0], a[1])])),
            list(it.izip_longest(a, [1], fillvalue=0)),
            list(it.islice(it.cycle(a), 5)), [list(t) for t in it.tee(a)],
            list(it.compress(a, [1, 0, 1]))]


@snip
def func_tools(h):
    x, y, z = ints(h)
    f = functools.partial(max, x)
    g = functools.partial(dict, k=y)

    def deco(fn):
        @functools.wraps(fn)
        def inner(*a, **k):
            return [fn.__name__, fn(*a, **k)]
        return inner

    @deco
    def add(p, q=1, *r, **k):
        return p + q + len(r) + len(k)

    return [f(y), g(a=1)['k'], functools.reduce(operator.mul, [x, y, z]),
            add(x), add(x, y), add(x, y, z, z, m=1), add.__name__,
            apply(add, (x,)), add(*[x, y], **{'w': 1}), add(q=z, p=x)]


@snip
def oper(h):
    x, y, z = ints(h)
    o = operator
    g = o.itemgetter(1)
    g2 = o.itemgetter(0, 2)
    a = [(1, x), (2, y), (3, z)]

    class P(object):
        def __init__(self, v):
            self.v = v

        def get(self, d=0):
            return self.v + d
    p = [P(x), P(y)]
    return [sorted(a, key=g), g2([x, y, z]), max(a, key=g),
            map(o.attrgetter('v'), p), o.add(x, y), o.mul(x, y), o.lt(x, y),
            o.eq(x, y), o.not_(x), o.neg(x), o.methodcaller('get', 2)(p[0]),
            o.contains([x], y), o.sub(x, y), o.le(x, y), o.truth(x),
            o.getitem([x], 0), [q.v for q in sorted(
                p, key=o.attrgetter('v'))], o.and_(x, y), o.ne(x, y)]


# ------------------------------------------------------------- generators
@snip
def gens(h):
    a = ints(h)

    def g(seq):
        n = 0
        for v in seq:
            if v < 0:
                return
            n += 1
            yield n, v
        yield 'end', n

    def co():
        tot = 0
        while True:
            v = yield tot
            if v is None:
                break
            tot += v

    def fin():
        try:
            yield 1
            yield 2
        finally:
            a.append(9)
    c = co()
    out = [list(g(a)), dict(g(a[:2])), next(c)]
    for v in a:
        out.append(c.send(v))
    try:
        c.send(None)
    except StopIteration:
        out.append('stop')
    f = fin()
    out.append(next(f))
    f.close()
    out.append(a[-1])
    out.append(next(iter([]), 'none'))
    out.append(list(iter(iter([1, 2, 0, 3]).next, 0)))
    return out


# ------------------------------------------------------------- control flow
@snip
def excs(h):
    x, y, z = ints(h)
    out = []

    class MyErr(ValueError):
        def __init__(self, v):
            ValueError.__init__(self, 'my %s' % v)
            self.v = v

    def f(v):
        if v == 0:
            raise MyErr(v)
        if v == 1:
            raise KeyError(v)
        if v == 2:
            raise RuntimeError, 'two'
        if v == 3:
            return [][v]
        return v

    for v in (x, y):
        try:
            try:
                out.append(f(v))
            except MyErr as e:
                out.append((e.v, str(e)))
            except (KeyError, IndexError), e:
                out.append(type(e).__name__)
                raise
            else:
                out.append('else')
            finally:
                out.append('fin')
        except LookupError as e:
            out.append(isinstance(e, KeyError))
        except Exception as e:
            out.append([str(e), e.args, e.__class__.__name__])
    return out


@snip
def finals(h):
    x, y, z = ints(h)

    def f(v):
        try:
            if v < 0:
                return 'neg'
            for i in range(3):
                try:
                    if i == v:
                        continue
                    if i == y:
                        break
                finally:
                    out.append(i)
        finally:
            out.append('f')
        return 'end'
    out = []
    out.append(f(x))
    return out


@snip
def withs(h):
    x, y, z = ints(h)
    log = []

    class Ctx(object):
        def __init__(self, n, swallow=False):
            self.n = n
            self.swallow = swallow

        def __enter__(self):
            log.append(('in', self.n))
            return self

        def __exit__(self, et, ev, tb):
            log.append(('out', self.n, et and et.__name__))
            return self.swallow

    with Ctx(1, True), Ctx(2) as c:
        log.append(c.n)
        if x > y:
            raise ValueError(x)
        log.append('done')
    with Ctx(3):
        if y == 0:
            return log
    return log, 'end'


@snip
def asserts(h):
    x, y, z = ints(h)
    assert x < y, (x, y)
    assert z
    return x


@snip
def nested(h):
    x, y, z = ints(h)

    def outer(a):
        box = [a]

        def inner(b, c=y):
            box[0] += b + c
            return box[0]
        return inner
    f = outer(x)
    g = lambda v, w=z: (v, w)
    fs = [lambda: i for i in range(3)]
    return [f(1), f(2), f(z, z), g(x), g(x, y), [k() for k in fs],
            (lambda *a, **k: (a, k))(x, m=y)]


# ------------------------------------------------------------- classes
class Base(object):
    count = 0
    __slots__ = ('v', 'w')

    def __init__(self, v, w=0):
        self.v = v
        self.w = w

    def __eq__(self, other):
        return isinstance(other, Base) and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.v)

    def __lt__(self, other):
        return self.v < other.v

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, self.v)


class Derived(Base):
    def __init__(self, v):
        super(Derived, self).__init__(v, w=v + 1)
        self.__class__.count += 1

    @property
    def double(self):
        return self.v * 2

    @double.setter
    def double(self, value):
        self.v = value / 2

    @staticmethod
    def stat(a):
        return a + 1

    @classmethod
    def make(cls, a):
        return cls(a)

    def __getitem__(self, i):
        if i >= self.v:
            raise IndexError(i)
        return i * 10

    def __len__(self):
        return max(0, self.v)

    def __call__(self, z):
        return self.v + z

    def __contains__(self, z):
        return z == self.v

    def __add__(self, other):
        return Derived(self.v + other)

    __radd__ = __add__

    def __getattr__(self, name):
        if name.startswith('dyn'):
            return name, self.v
        raise AttributeError(name)


@snip
def classes(h):
    x, y, z = ints(h)
    a, b = Base(x), Derived(y)
    m = Derived.make(z)
    out = [a == b, a != b, a == m, a < b, repr(a), str(b), b.double,
           Derived.stat(x), m.v, list(b), len(b), bool(b), b(x), x in b,
           (b + 1).v, (1 + b).v, b.dynx, getattr(b, 'nope', None),
           hasattr(b, 'nope'), isinstance(b, Base), issubclass(Derived, Base),
           type(b) is Derived, b.__class__.__name__, sorted([a, b, m])[0].v,
           len(set([a, b, m])), {a: 1}.get(b), a in [b, m], b in (a,),
           max([a, b, m], key=lambda o: o.v).v, [a, b].index(b),
           callable(b), callable(a), a is b, b[0:1] if 0 else 0]
    b.double = 6
    setattr(b, 'w', x)
    out.extend([b.v, b.w])
    return out


class Old:
    attr = 3

    def __init__(self, v):
        self.v = v

    def __cmp__(self, other):
        return cmp(self.v, other.v)

    def __iter__(self):
        return iter([self.v, self.attr])

    def __nonzero__(self):
        return self.v > 0

    def __setattr__(self, k, v):
        self.__dict__[k] = v

    def __delattr__(self, k):
        del self.__dict__[k]


@snip
def oldclasses(h):
    x, y, z = ints(h)
    a, b = Old(x), Old(y)
    b.attr = z
    out = [a == b, a < b, cmp(a, b), list(b), bool(a), tuple(a), vars(b),
           sorted(b.__dict__.items()), a.__class__ is Old,
           isinstance(a, Old), dir(Old).count('attr')]
    del b.attr
    out.append(b.attr)
    c = copy.copy(a)
    d = copy.deepcopy([a, a])
    c.v = 7
    out.extend([a.v, c.v, d[0] is d[1], d[0].v, d[0] is a])
    return out


class Meta(type):
    def __new__(meta, name, bases, dic):
        dic['names'] = sorted(k for k in dic if not k.startswith('_'))
        return super(Meta, meta).__new__(meta, name, bases, dic)

    def __len__(cls):
        return len(cls.names)


class Withm(object):
    __metaclass__ = Meta
    a = 1
    b = 2

    def meth(self):
        return self.a


class Listlike(collections.MutableSequence):
    def __init__(self, a):
        self.a = list(a)

    def __getitem__(self, i):
        return self.a[i]

    def __setitem__(self, i, v):
        self.a[i] = v

    def __delitem__(self, i):
        del self.a[i]

    def __len__(self):
        return len(self.a)

    def insert(self, i, v):
        self.a.insert(i, v)


@snip
def metas(h):
    x, y, z = ints(h)
    P = collections.namedtuple('P', 'a b')
    p = P(x, b=y)
    q = p._replace(b=z)
    li = Listlike([x, y])
    li.append(z)
    li.extend([1])
    li += [2]
    T = type('T', (Base,), {'k': 1})
    return [Withm.names, len(Withm), Withm().meth(), p.a, p[1], p == (y, x),
            q, p._fields, sorted(p._asdict().items()), list(li), li.pop(),
            li.index(x), z in li, li.count(y), li[1:], T(x).k, T(x) == Base(y),
            list(reversed(li)), isinstance(li, collections.Sequence),
            T.__name__, tuple(p), P._make([1, 2])]


@snip
def globs(h):
    x, y, z = ints(h)
    global GLOB
    GLOB = x
    out = [GLOB, 'GLOB' in globals(), isinstance(locals(), dict)]
    d = {}
    exec 'q = v + 1' in {'v': y}, d
    out.append(d['q'])
    out.append(eval('v * 2', {'v': z}))
    a = b = x
    a, b = b, y
    (c, d), e = (a, b), z
    x, y = y, x
    print >> None or __import__('sys').stderr, 'hello'
    return out + [a, b, c, d, e, x, y, `x`, x <> y, 0777, 10L]


@snip
def copies(h):
    x, y, z = ints(h)
    a = [x, [y, z], {x: [y]}]
    b, c = copy.copy(a), copy.deepcopy(a)
    a[1].append(0)
    a[2][x].append(1)
    return [b == a, c == a, b, c, c[1] is a[1], b[1] is a[1]]


@snip
def sorts(h):
    x, y, z = ints(h)
    a = [(x, 'b'), (y, 'a'), (z, 'c')]
    a2 = a[:]
    a2.sort(key=lambda p: p[1])
    a3 = a[:]
    a3.sort(cmp=lambda p, q: cmp(p[0], q[0]) or cmp(q[1], p[1]))
    a4 = a[:]
    a4.sort(key=lambda p: p[0], reverse=True)
    return [sorted(a), a2, a3, a4, sorted(a, key=lambda p: (-p[0], p[1])),
            max(a), min(a, key=lambda p: p[0]), sorted('cab'),
            sorted([None, x, 'a', 2.5]), sorted({y: 1, x: 2}),
            sorted(set([x, y, z]), reverse=True)]


@snip
def paths(h):
    s = h.text('s', 4, 0, 'a/.')
    p = os.path
    return [p.basename(s), p.dirname(s), p.split(s), p.splitext(s),
            p.join('x', s), p.isabs(s), p.normpath(s), s.split('/')]


@snip
def misc(h):
    x, y, z = ints(h)
    out = [id(x) == id(x), type(x) is int, type(x) == type(y),
           isinstance(x, (int, str)), type([]), type(x).__name__,
           repr([x]), str({1: x}), repr((x,)), str(None), repr('a"b'),
           unicode(x), unicode('a') == 'a', chr(x + 65), unichr(66) == 'B',
           hex(x + 5), oct(8), bin(x + 2), int('12'), int('ff', 16), float('1e2'),
           long(x), complex(1, 0) == 1, ord('a') + x, slice(0, 2).stop,
           [1, 2, 3][slice(0, 2)], xrange(3)[1], len(xrange(4)),
           bytes('a'),  list(iter('ab')),
           range(5)[::-2], Ellipsis is None, NotImplemented is None]
    return out


@snip
def buf(h):
    from cStringIO import StringIO
    s = txt(h, 3, 'a\n,')
    f = StringIO(s)
    out = [f.readline(), f.read(), f.getvalue()]
    g = StringIO()
    g.write(s)
    g.write('x')
    out.append(g.getvalue())
    g.seek(0)
    out.append(list(g))
    out.append(s.splitlines(True))
    out.append([l.rstrip('\n') for l in StringIO(s)])
    return out


@snip
def int_bases(h):
    t = txt(h, 4, '017xXbo-fL ')
    base = h.pick('base', [0, 2, 8, 16, 36, 10])
    o = h.outcome(int, t, base)
    return [o[0], int(o[1]) if o[0] == 'ok' else type(o[1]).__name__]
