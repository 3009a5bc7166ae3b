from openquake.commonlib.source import SourceCollector
from openquake.hazardlib import geo, mfd, source

BOUNDS = ('up to 4 sources (thorough 5) split in up to 3 parts each, up to 5 (thorough 7) parts, '
          'arbitrary filter outcomes, numbers of ruptures (including zero) '
          'and positive maximum weights, integer or not')
OUTSIDE = ('more sources or parts; the hazard library, which is replaced by '
           'a stand-in giving any number of ruptures')
ASSUMES = ['the maximum weight is an exact number']


def jobs(tier):
    shapes = [['char'], ['f1'], ['f2'], ['a2'], ['f3'], ['a3'], ['f0'],
              ['char', 'char'], ['f2', 'char'], ['char', 'a2'],
              ['f0', 'char'], ['char', 'char', 'char'], ['f2', 'f2'],
              ['f2', 'char', 'point'], ['char', 'f0', 'a2'], ['a3', 'f2'],
              ['char', 'f2', 'point', 'char']]
    if tier != 'quick':
        shapes += [['f2', 'a2', 'char'], ['a2', 'a2', 'f2'], ['f3', 'a3'],
                   ['a3', 'f2', 'a2'], ['char'] * 5,
                   ['char', 'f2', 'point', 'char', 'a2']]
    out = []
    for s in shapes:
        out.append(('blocks', dict(shape=s, integer=0), ['blocks']))
        if len(s) < 3 or tier != 'quick':
            out.append(('blocks', dict(shape=s, integer=1), ['blocks']))
    out.append(('empty', {}, ['refused']))
    out.append(('twice', {}, ['twice']))
    return out


def make(h, i, kind):
    sid = 's%d' % i
    if kind == 'char':
        dist = mfd.EvenlyDiscretizedMFD(5., 1., [0.1])
        return source.CharacteristicFaultSource(
            sid, 'n', 'Volcanic', dist, 1, 2, 3), [sid]
    if kind == 'point':
        dist = mfd.EvenlyDiscretizedMFD(5., 1., [0.1])
        return source.PointSource(sid, 'n', 'Volcanic', dist, 1, 2, 3, 4, 5,
                                  6, 7, 8, 9), [sid]
    n = int(kind[1:])
    ids = ['%s-%d' % (sid, k) for k in range(n)]
    if kind[0] == 'f':
        dist = mfd.EvenlyDiscretizedMFD(5., 1., [0.5] * n)
        return source.SimpleFaultSource(
            sid, 'n', 'Volcanic', dist, 1, 2, 3, 4, 5, 6, 7, 8, 9), ids
    poly = geo.Polygon([1, 2, 3])
    poly.mesh = geo.Mesh([1.] * n, [2.] * n)
    dist = mfd.EvenlyDiscretizedMFD(5., 1., [0.5])
    return source.AreaSource(sid, 'n', 'Volcanic', dist, 1, 2, 3, 4, 5, 6,
                             7, poly, 9, 10), ids


def agree(h, sc, src_filter, mw, exp, discarded, ruptures, nsources):
    start = sc.num_ruptures
    blocks = list(sc.gen_blocks(src_filter, mw, 10.))
    ids = [[s.source_id for s in b] for b in blocks]
    h.observe('blocks', ids)
    flat = []
    for b in ids:
        flat = flat + b
    h.check(flat == [i for i in exp if ruptures[i] > 0],
            'all the sources with ruptures, in order')
    limit = mw * nsources
    for b in ids:
        h.check(len(b) > 0, 'no empty blocks')
        if len(b) > 1:
            h.check(h.total([ruptures[i] for i in b]) * (nsources + 100) <=
                    limit, 'a block does not exceed the maximum weight')
    for b, i in zip(blocks, ids):
        h.check(b.weight == h.total([ruptures[x] for x in i]),
                'the weight is the number of ruptures')
    h.check([s.source_id for s in sc.sources] == exp,
            'the collector holds the split sources')
    h.check(sc.num_ruptures == start + h.total([ruptures[i] for i in exp]),
            'the number of ruptures')
    h.check(tuple(sc.filtered_sources) == (len(exp), len(exp) + discarded),
            'the counts of retained and total sources')


def prepare(h, shape):
    srcs, parts, ruptures = [], [], {}
    for i, kind in zip(range(len(shape)), shape):
        src, ids = make(h, i, kind)
        srcs.append(src)
        parts.append(ids)
        for x in ids:
            ruptures[x] = h.int('r_' + x, 0, 10 ** 6)
    source.COUNT[0] = lambda src: ruptures[src.source_id]
    return srcs, parts, ruptures


def blocks(h, shape, integer):
    srcs, parts, ruptures = prepare(h, shape)
    keep = [h.bool('keep%d' % i) for i in range(len(shape))]
    asked = []

    def src_filter(src):
        asked.append(src)
        for s, k in zip(srcs, keep):
            if s is src:
                return ['sites'] if k else None
    if integer:
        mw = h.int('mw', 1, 10 ** 6)
    else:
        mw = h.real('mw', 0, 10 ** 6)
        h.assume(mw > 0)
    sc = SourceCollector('Volcanic')
    for s in srcs:
        sc.update(s)
    exp, discarded = [], 0
    for p, k in zip(parts, keep):
        if k:
            exp = exp + p
        else:
            discarded += 1
    h.reach('blocks')
    agree(h, sc, src_filter, mw, exp, discarded, ruptures, len(srcs))
    h.check(len(asked) == len(srcs) and all(
        [a is b for a, b in zip(asked, srcs)]), 'each source filtered once')


def empty(h):
    sc = SourceCollector('Volcanic')
    o = h.outcome(lambda: list(sc.gen_blocks(lambda s: 1, h.real('mw'), 1.)))
    h.reach('refused')
    h.check(o[0] == 'exc', 'a collector without sources is refused')


def twice(h):
    """The blocks of a collector already filtered and split"""
    srcs, parts, ruptures = prepare(h, ['char', 'char', 'char'])
    sc = SourceCollector('Volcanic')
    for s in srcs:
        sc.update(s)
    mw = h.int('mw', 1, 10 ** 6)
    list(sc.gen_blocks(
        lambda s: 1 if s.source_id != 's1' else None, mw, 10.))
    h.reach('twice')
    agree(h, sc, lambda s: 1, mw, ['s0', 's2'], 0, ruptures, 2)
