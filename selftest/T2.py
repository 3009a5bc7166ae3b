# Differential test of the translator, part 2: libraries and idioms
import os
import csv
import copy
import collections
import itertools
import logging
import traceback
import sys
import re
import cPickle
import zipfile
import tempfile
import shutil
import warnings
import ConfigParser
from cStringIO import StringIO
from contextlib import contextmanager, closing

BOUNDS = OUTSIDE = ''
ASSUMES = []
SNIPS = {}


def snip(f):
    SNIPS[f.__name__] = f
    return f


def jobs(tier):
    return [('run', dict(name=n), []) for n in sorted(SNIPS)]


def run(h, name):
    o = h.outcome(SNIPS[name], h)
    h.observe('result', list(o))


def ints(h, n=3, lo=-2, hi=3):
    return [h.int('x%d' % i, lo, hi) for i in range(n)]


@snip
def csv_rw(h):
    s = h.text('s', 2, 0, 'a,"\n ')
    t = h.tok('t')
    f = StringIO()
    w = csv.writer(f)
    w.writerow([s, t])
    w.writerows([[t, 1], [2.5, s]])
    text = f.getvalue()
    return [text, list(csv.reader(StringIO(text))),
            list(csv.reader(text.splitlines(True))),
            [r for r in csv.reader(iter(text.split('\n')))][:1]]


@snip
def csv_dict(h):
    s, t = h.tok('s'), h.tok('t')
    f = StringIO('a,b\n%s,%s\n' % (s, t))
    return list(csv.DictReader(f))


@snip
def csv_next(h):
    s, t = h.tok('s'), h.tok('t')
    f = StringIO('a,b\n%s,%s\n' % (s, t))
    r = csv.reader(f)
    out = [r.next(), r.line_num, next(r)]
    try:
        next(r)
    except StopIteration:
        out.append('end')
    return out


@snip
def files(h):
    d = h.scratch()
    p = os.path.join(d, 'x.txt')
    t = h.text('t', 3, 0, 'a\n')
    with open(p, 'w') as f:
        f.write(t)
        f.writelines(['k\n', 'j'])
    with open(p) as f:
        a = f.readlines()
    g = open(p, 'a')
    g.write('z')
    g.close()
    out = [a, file(p).read(), os.path.exists(p), os.path.isfile(p),
           os.path.isdir(d), os.listdir(d), os.path.exists(p + 'q'),
           g.closed, [l.strip() for l in open(p)], os.path.basename(p),
           sum(1 for l in open(p)), open(p).readline()]
    os.rename(p, p + '2')
    out.append(os.listdir(d))
    os.remove(p + '2')
    out.append(os.listdir(d))
    os.mkdir(os.path.join(d, 'sub'))
    open(os.path.join(d, 'sub', 'f'), 'w').close()
    out.append(sorted(os.listdir(d)))
    out.append(sorted((os.path.basename(a), b, c)
                      for a, b, c in os.walk(os.path.join(d, 'sub'))))
    try:
        open(os.path.join(d, 'nope'))
    except IOError as e:
        out.append('ioerror')
    return out


@snip
def zips(h):
    d = h.scratch()
    p = os.path.join(d, 'x.zip')
    t = h.text('t', 2, 0, 'ab')
    with zipfile.ZipFile(p, 'w') as z:
        z.writestr('a.txt', t)
        z.writestr('b.txt', 'k' + t)
    z = zipfile.ZipFile(p)
    out = [sorted(z.namelist()), z.read('a.txt'), z.open('b.txt').read(),
           [i.filename for i in z.infolist()], 'a.txt' in z.namelist()]
    try:
        z.open('c')
    except KeyError:
        out.append('missing')
    z.close()
    z = zipfile.ZipFile(p, 'a')
    z.writestr('c.txt', 'cc')
    z.close()
    z = zipfile.ZipFile(p)
    out.append(sorted(z.namelist()))
    z.close()
    return out


@snip
def ctxman(h):
    x, y, z = ints(h)
    log = []

    @contextmanager
    def cm(v):
        log.append('in')
        try:
            yield v + 1
        except ValueError as e:
            log.append(str(e))
        finally:
            log.append('out')
    with cm(x) as v:
        log.append(v)
        if x < y:
            raise ValueError('bad')
        log.append('ok')
    with closing(StringIO('a')) as f:
        log.append(f.read())
    return log


@snip
def pickles(h):
    x, y, z = ints(h)
    a = {'k': [x, (y, z)], 'n': None}
    s = cPickle.dumps(a, cPickle.HIGHEST_PROTOCOL)
    b = cPickle.loads(s)
    return [b == a, b is a, b['k'][0]]


@snip
def excinfo(h):
    x, y, z = ints(h)
    try:
        [1, 2].index(x)
    except ValueError:
        et, ev, tb = sys.exc_info()
        s = ''.join(traceback.format_tb(tb))
        try:
            raise et, ('again %d' % y), tb
        except ValueError as e:
            return [et.__name__, bool(s), str(e), isinstance(ev, et),
                    traceback.format_exception_only(et, 'k')]
    return x


@snip
def exc_custom(h):
    x, y, z = ints(h)

    class E1(Exception):
        pass

    class E2(E1):
        def __str__(self):
            return 'E2:%s' % self.args[0]
    try:
        if x == 0:
            raise E2(y)
        elif x == 1:
            raise E1(y, z)
        elif x == 2:
            raise E1
        elif x == 3:
            raise TypeError('t')
    except E1 as e:
        return [str(e), list(e.args), e.message if len(e.args) < 2 else '',
                repr(e.args), type(e).__name__]
    except (TypeError, ValueError), e:
        return str(e)
    return 'none'


@snip
def ordered(h):
    x, y, z = ints(h)
    o = collections.OrderedDict([(x, 1), (y, 2)])
    o[z] = 3
    p = collections.OrderedDict(sorted(o.items()))
    q = dict(o)
    return [o.keys(), p.items(), o == p, len(q), o.pop(x), o.keys(),
            list(reversed(o.keys())), o.get(y), [k for k in o],
            o.copy() == o, sorted(q) == sorted(p), o.values()]


@snip
def groups(h):
    x, y, z = ints(h, hi=1)
    rows = [(x, 'a'), (y, 'b'), (z, 'c')]
    d = {}
    for k, v in rows:
        d.setdefault(k, []).append(v)
    e = collections.defaultdict(set)
    for k, v in rows:
        e[k].add(v)
    f = collections.OrderedDict()
    for k, v in rows:
        if k in f:
            f[k] += v
        else:
            f[k] = v
    g = [(k, [v for _, v in grp]) for k, grp in itertools.groupby(
        rows, lambda r: r[0])]
    return [sorted(d.items()), sorted((k, sorted(v)) for k, v in e.items()),
            f.items(), g]


@snip
def recursion(h):
    x, y, z = ints(h)

    def flat(a):
        for v in a:
            if isinstance(v, list):
                for w in flat(v):
                    yield w
            else:
                yield v

    def fact(n):
        return 1 if n <= 0 else n * fact(n - 1)
    return list(flat([x, [y, [z]], []])), fact(x)


@snip
def stack(h):
    x, y, z = ints(h)
    todo = [(x, 0)]
    out = []
    while todo:
        v, n = todo.pop()
        out.append((v, n))
        if n < 2 and v > 0:
            todo.append((v - 1, n + 1))
            todo.append((v - 2, n + 1))
    return out


@snip
def unpack(h):
    x, y, z = ints(h)
    out = []
    for i, (a, b) in enumerate([(x, y), (y, z)]):
        out.append((i, a, b))
    for (a, b), c in zip([(x, y)], [z]):
        out.append([a, b, c])
    a, b = [x, y]
    [c, d] = (x, z)
    (e,) = [z]
    f = g = []
    f.append(a)
    d1 = dict(a=x)
    d1['b'], d1['c'] = y, z
    l = [0, 0]
    l[0], l[1] = x, y
    out.extend([b, c, d, e, g, sorted(d1.items()), l])

    def fn((p, q), r=3, *args, **kw):
        return p, q, r, args, sorted(kw)
    out.append(fn((x, y)))
    out.append(fn((x, y), z, 1, 2, k=1))
    lam = lambda (p, q): p - q
    out.append(lam((x, y)))
    try:
        a, b = [x, y, z]
    except ValueError as ex:
        out.append('unpack')
    return out


@snip
def attrs(h):
    x, y, z = ints(h)

    class A(object):
        k = 1

        def __init__(self, **kw):
            self.__dict__.update(kw)
            vars(self).update(z=3)

        def __getattribute__(self, n):
            return object.__getattribute__(self, n)

        def __iter__(self):
            for k in sorted(vars(self)):
                yield k, getattr(self, k)

        def __setitem__(self, k, v):
            setattr(self, k, v)

        def __delitem__(self, k):
            delattr(self, k)
    a = A(x=x, y=y)
    a['w'] = z
    del a['x']
    out = [list(a), dict(a), hasattr(a, 'x'), a.k, A.k,
           [n for n in dir(a) if not n.startswith('_')],
           getattr(a, 'q', 9), sorted(a.__dict__), 'y' in vars(a)]
    a.__dict__['m'] = 1
    a.k += 1
    out.extend([a.m, a.k, A.k, a.__class__ == A, type(a)(p=x).p])
    b = copy.copy(a)
    b.y = 0
    out.append(a.y)
    return out


@snip
def inherit(h):
    x, y, z = ints(h)

    class A(object):
        def f(self):
            return 'A'

        def g(self):
            return self.f() + '!'

    class B(A):
        def f(self):
            return 'B' + super(B, self).f()

    class C(A):
        def f(self):
            return 'C' + A.f(self)

    class D(B, C):
        h = property(lambda self: self.f())
        g2 = A.g
    d = D()
    m = d.g
    return [d.f(), d.g(), d.h, m(), D.__mro__[1].__name__, D.__bases__[0] is B,
            [k.__name__ for k in D.mro()][:4], isinstance(d, (C, int)),
            A.__subclasses__()[0].__name__, d.g2(), D.g(d),
            m.im_self is d, m.__name__, D.f.im_func.__name__]


@snip
def configp(h):
    s = h.tok('s')
    d = h.scratch()
    p = os.path.join(d, 'c.ini')
    with open(p, 'w') as f:
        f.write('[a]\nk = %s\nKey2: v\n[b]\nn=1\n' % s)
    c = ConfigParser.ConfigParser()
    c.read(p)
    return [c.sections(), c.items('a'), c.get('b', 'n'), c.getint('b', 'n'),
            c.has_option('a', 'key2'), c.has_section('z')]


@snip
def regex(h):
    s = h.text('s', 3, 0, 'aB1_ ')
    out = []
    for pat in (r'^\w+$', r'[a-z]?\d*$', r'(?P<n>a|B)+', r'\s', r'^$',
                r'[^a]', r'a{1,2}', r'\bB', r'(a)(1)?'):
        m = re.match(pat, s)
        out.append(m and m.group())
        m = re.search(pat, s)
        out.append(m and (m.start(), m.groups(), m.groupdict()))
    return out


@snip
def strnums(h):
    x = h.int('x', -3, 12)
    r = h.real('r', -3, 3, den=4)
    return [int(str(x)) == x, float(repr(r)) == r, '%s %s' % (x, r),
            '%d' % x, '%.2f' % r, '%5.1f' % r, '%g' % r, '%e' % r, '%2d' % x,
            str(x).zfill(3), repr(r), str(r), '%+d' % x, len(str(x)),
            str(x)[0], '%s' % [x, r], `x`, int(r), long(r), '%d' % r,
            str(x).isdigit(), '%s' % (x > 3)]


@snip
def whileidx(h):
    x, y, z = ints(h)
    a, i, n = [x, y, z], 0, 0
    while True:
        try:
            v = a[i]
        except IndexError:
            break
        i += 1
        if v < 0:
            continue
        n += v
    else:
        n = -1
    it = iter(a)
    first = next(it)
    rest = [v for v in it]
    out = []
    append = out.append
    for v in a:
        append(v)
    while a and a[-1] <= 0:
        a.pop()
    return i, n, first, rest, out, a, max([0] + a), sum(map(abs, a))


@snip
def bisects(h):
    import bisect
    import heapq
    x, y, z = ints(h)
    a = sorted([x, y])
    bisect.insort(a, z)
    hp = []
    for v in (x, y, z):
        heapq.heappush(hp, v)
    return [a, bisect.bisect([0, 1, 2], x), bisect.bisect_left([0, 1], y),
            [heapq.heappop(hp) for _ in range(3)], heapq.nlargest(2, [x, y, z]),
            heapq.nsmallest(1, [x, y, z])]


@snip
def logs(h):
    x, y, z = ints(h)
    log = logging.getLogger('k')
    log.info('a %s', x)
    logging.warn('b %d', y)
    log.setLevel(logging.ERROR)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        warnings.warn('x')
    return log.name


@snip
def closures(h):
    x, y, z = ints(h)

    def counter():
        n = [0]

        def inc(k=1):
            n[0] += k
            return n[0]
        return inc
    c = counter()

    class K(object):
        val = x
        lst = [val, val + 1]

        def meth(self, f=lambda v: v * 2):
            return f(self.val)
    memo = {}

    def fib(n):
        if n not in memo:
            memo[n] = n if n < 2 else fib(n - 1) + fib(n - 2)
        return memo[n]
    return [c(), c(y), K().meth(), K.lst, fib(5), (lambda: z)(),
            [f(2) for f in [lambda v, k=k: v + k for k in (x, y)]],
            sorted(memo.items())]


@snip
def delslice(h):
    x, y, z = ints(h, lo=0)
    a = [0, 1, 2, 3]
    b = a[:]
    del b[x:y]
    c = a[:]
    c[x:y] = [9]
    d = a[x:] + a[:x]
    e = a[:]
    e[z:z] = [7, 8]
    return b, c, d, e, a[-x:], a[::x + 1], 'abcd'[x:y], a[len(a) - z:]
