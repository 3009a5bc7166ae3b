from openquake.commonlib.source import SourceCollector
from openquake.hazardlib import mfd, source

BOUNDS = ('up to 4 sources (thorough 6), arbitrary region types, magnitudes, '
          'filter outcomes and numbers of ruptures; any split of the sources '
          'between the construction and later additions; sources with equal '
          'and different magnitude distributions; region types which differ '
          'only in the case or in blanks')
OUTSIDE = ('more sources; filters returning a false value different from '
           'None; the hazard library, which is replaced by a stand-in')
ASSUMES = ['magnitudes are exact numbers']


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    for n in range(top + 1):
        for k in range(n + 1):
            out.append(('stats', dict(n=n, k=k), ['stats']))
        out.append(('filtered', dict(n=n), ['filtered']))
        out.append(('ruptures', dict(n=n), ['counted']))
    for n in (1, 2, 3):
        out.append(('refused', dict(n=n), ['refused', 'accepted']))
    for n in (0, 1, 2):
        for m in (0, 1, 2):
            out.append(('ordered', dict(n=n, m=m), ['ordered']))
    out.append(('sorting', {}, ['sorted']))
    out.append(('spelled', {}, ['ordered', 'refused', 'accepted']))
    out.append(('twice', {}, ['stats']))
    return out

SPELLED = ['Stable', 'stable', 'STABLE', 'Stable ', ' Stable', 'Stable Crust',
           'stable crust', '', 'Volcanic']


def make(h, i, trt):
    if i % 2:
        dist = mfd.EvenlyDiscretizedMFD(
            h.real('lo%d' % i), h.real('bin%d' % i, 0), [0.1, 0.2])
    else:
        lo, hi = h.real('lo%d' % i), h.real('hi%d' % i)
        h.assume(lo <= hi)
        dist = mfd.TruncatedGRMFD(lo, hi, 0.1, 1., 1.)
    return source.PointSource('s%d' % i, 'n', trt, dist, 1, 2, 3, 4, 5, 6, 7,
                              8, 9)


def same_list(h, got, expected, label):
    got = list(got)
    h.check(len(got) == len(expected), label)
    for a, b in zip(got, expected):
        h.check(a is b, label)


def extremes(h, sc, srcs):
    if not srcs:
        h.check(sc.min_mag is None and sc.max_mag is None,
                'no magnitudes without sources')
        return
    pairs = [s.mfd.get_min_max_mag() for s in srcs]
    h.check(h.And(*[sc.min_mag <= lo for lo, hi in pairs]),
            'the minimum is not above any source')
    h.check(h.Or(*[sc.min_mag == lo for lo, hi in pairs]),
            'the minimum is attained')
    h.check(h.And(*[sc.max_mag >= hi for lo, hi in pairs]),
            'the maximum is not below any source')
    h.check(h.Or(*[sc.max_mag == hi for lo, hi in pairs]),
            'the maximum is attained')


def stats(h, n, k):
    """k sources at construction, the others later"""
    trt = h.tok('trt')
    srcs = [make(h, i, trt) for i in range(n)]
    given = srcs[:k]
    if k == 0 and h.flag('default'):
        sc = SourceCollector(trt)
    else:
        sc = SourceCollector(trt, given)
    h.reach('stats')
    h.check(sc.trt == trt, 'region type')
    same_list(h, given, srcs[:k], 'the list of the caller')
    same_list(h, sc.sources, srcs[:k], 'the sources given')
    extremes(h, sc, srcs[:k])
    for i in range(k, n):
        sc.update(srcs[i])
        same_list(h, sc.sources, srcs[:i + 1], 'the sources added')
        extremes(h, sc, srcs[:i + 1])
    same_list(h, given, srcs[:k], 'the list of the caller')
    h.check(sc.num_ruptures == 0, 'no ruptures counted yet')


def filtered(h, n):
    trt = h.tok('trt')
    srcs = [make(h, i, trt) for i in range(n)]
    keep = [h.bool('keep%d' % i) for i in range(n)]
    sc = SourceCollector(trt, list(srcs))
    asked = []

    def src_filter(src):
        asked.append(src)
        for s, k in zip(srcs, keep):
            if s is src:
                return ['sites'] if k else None
    new = sc.filter_sources(src_filter)
    h.reach('filtered')
    exp = [s for s, k in zip(srcs, keep) if k]
    h.check(new is not sc and isinstance(new, SourceCollector),
            'a new collector')
    h.check(new.trt == trt, 'of the same region type')
    same_list(h, new.sources, exp, 'the sources kept')
    extremes(h, new, exp)
    same_list(h, sc.sources, srcs, 'the original is unchanged')
    extremes(h, sc, srcs)
    same_list(h, asked, srcs, 'each source filtered once')
    if n:
        new.update(srcs[0])
        same_list(h, sc.sources, srcs, 'the original is independent')


def ruptures(h, n):
    trt = h.tok('trt')
    srcs = [make(h, i, trt) for i in range(n)]
    nums = [h.int('ruptures%d' % i, 0) for i in range(n)]

    def count(src):
        for s, k in zip(srcs, nums):
            if s is src:
                return k
    source.COUNT[0] = count
    start = h.pick('start', [0, 7])
    sc = SourceCollector(trt, srcs, start) if start else SourceCollector(
        trt, srcs)
    h.reach('counted')
    h.check(sc.num_ruptures == start, 'nothing counted yet')
    tot = start
    for s, k in zip(srcs, nums):
        if h.flag('counted'):
            w = sc.update_num_ruptures(s)
            h.check(w == k, 'the ruptures of the source')
            tot = tot + k
            h.check(sc.num_ruptures == tot, 'the sum over the counted')


def refused(h, n):
    """The last of n sources has an arbitrary region type"""
    trt, other = h.tok('trt'), h.tok('other')
    srcs = [make(h, i, trt if i < n - 1 else other) for i in range(n)]
    if h.flag('later'):
        sc = SourceCollector(trt, srcs[:-1])
        o = h.outcome(lambda: sc.update(srcs[-1]))
        if o[0] == 'exc':
            same_list(h, sc.sources, srcs[:-1], 'nothing added')
            extremes(h, sc, srcs[:-1])
    else:
        o = h.outcome(lambda: SourceCollector(trt, srcs))
    h.check(h.Iff(o[0] == 'exc', trt != other), 'refused')
    h.reach('refused' if o[0] == 'exc' else 'accepted')


def ordered(h, n, m):
    one, two = h.tok('one'), h.tok('two')
    a = SourceCollector(one, [make(h, i, one) for i in range(n)])
    b = SourceCollector(two, [make(h, i, two) for i in range(m)])
    h.reach('ordered')
    if n == m:
        exp = one < two
    else:
        exp = n < m
    h.check(h.Iff(a < b, exp), 'ordered by number of sources and region type')


def sorting(h):
    trts = [h.tok('trt%d' % i) for i in range(3)]
    sizes = [h.size('size%d' % i, 0, 2) for i in range(3)]
    scs = [SourceCollector(t, [make(h, i, t) for i in range(s)])
           for t, s in zip(trts, sizes)]
    res = sorted(scs)
    h.reach('sorted')
    for a, b in zip(res[:-1], res[1:]):
        h.check(len(a.sources) <= len(b.sources), 'number of sources')
        if len(a.sources) == len(b.sources):
            h.check(a.trt <= b.trt, 'region types')


def spelled(h):
    """Region types are compared as they are written"""
    one, two = h.pick('one', SPELLED), h.pick('two', SPELLED)
    a, b = SourceCollector(one, [make(h, 0, one)]), SourceCollector(two)
    o = h.outcome(lambda: b.update(make(h, 2, one)))
    if one == two:
        h.reach('accepted')
        h.check(o[0] == 'ok' and len(b.sources) == 1, 'accepted', o[1])
    else:
        h.reach('refused')
        h.check(o[0] == 'exc' and not b.sources, 'refused', one, two)
        b.update(make(h, 2, two))
    h.check((a < b) == (one < two) and (b < a) == (two < one),
            'ordered by region type', one, two)
    h.reach('ordered')


def twice(h):
    """The same source given twice is counted twice"""
    trt = h.tok('trt')
    a, b = make(h, 0, trt), make(h, 1, trt)
    srcs = [a, b, a]
    k = h.size('k', 0, 3)
    sc = SourceCollector(trt, srcs[:k])
    for s in srcs[k:]:
        sc.update(s)
    h.reach('stats')
    same_list(h, sc.sources, srcs, 'the sources given')
    extremes(h, sc, srcs)
