from openquake.commonlib.source import (
    parse_source_model, DuplicateID, SourceCollector)
from openquake.hazardlib import mfd, source
from openquake.nrmllib.hazard import parsers

BOUNDS = ('models of up to 4 sources (thorough 5), arbitrary and possibly '
          'equal ids and region types, arbitrary magnitudes and arbitrary '
          'changes of them made by the uncertainties; ids and region types '
          'which differ only in the case, blanks or leading zeros')
OUTSIDE = 'larger models; the NRML parser, which is replaced by a stand-in'
ASSUMES = ['magnitudes are exact numbers']


def jobs(tier):
    out = [('parsed', dict(n=n, apply=a),
            ['parsed'] + (['duplicate'] if n > 1 else []))
           for n in range(4 if tier == 'quick' else 5) for a in (0, 1)]
    out.append(('distinct', dict(n=4), ['parsed']))
    out.append(('onetype', dict(n=4 if tier == 'quick' else 5),
                ['parsed', 'duplicate']))
    out.append(('spelled', {}, ['parsed', 'duplicate']))
    return out

SPELLED = ['a', 'A', 'a ', ' a', 'a-1', 'a:1', '', '0', '1', '01', 'a b']


class Nrml(object):
    def __init__(self, i):
        self.i = i


def parse(h, ids, trts, apply):
    """-> outcome, sources, new magnitudes"""
    n = len(ids)
    nrml = [Nrml(i) for i in range(n)]
    parsers.MODELS['model.xml'] = nrml
    parsers.MODELS['other.xml'] = []
    srcs = []
    top = [h.real('max%d' % i) for i in range(n)]
    new = [h.real('new%d' % i) for i in range(n)] if apply else top
    converted, applied = [], []
    for i in range(n):
        dist = mfd.TruncatedGRMFD(h.real('min%d' % i), top[i], 0.1, 1., 1.)
        srcs.append(source.PointSource(
            ids[i], 'n', trts[i], dist, 1, 2, 3, 4, 5, 6, 7, 8, 9))

    def convert(x):
        converted.append(x)
        return srcs[x.i]

    def uncertainties(src):
        applied.append(src)
        for s, v in zip(srcs, new):
            if s is src:
                src.mfd.modify('set_max_mag', dict(value=v))
    if apply:
        o = h.outcome(lambda: parse_source_model(
            'model.xml', convert, uncertainties))
    else:
        o = h.outcome(lambda: parse_source_model('model.xml', convert))
    if o[0] == 'ok':
        h.check(len(converted) == n and all(
            [a is b for a, b in zip(converted, nrml)]),
            'each source converted once, in order')
        if apply:
            h.check(len(applied) == n, 'uncertainties applied once to each')
            for s in srcs:
                h.check(len([a for a in applied if a is s]) == 1,
                        'uncertainties applied once to each')
    return o, srcs, new


def agree(h, res, srcs, new):
    h.check(isinstance(res, list), 'a list')
    for a, b in zip(res[:-1], res[1:]):
        h.check(len(a.sources) <= len(b.sources), 'ordered by size')
        if len(a.sources) == len(b.sources):
            h.check(a.trt < b.trt, 'and by region type')
    for i in range(len(res)):
        for j in range(i):
            h.check(res[i].trt != res[j].trt, 'one collector for each type')
    total = 0
    for sc in res:
        h.check(isinstance(sc, SourceCollector), 'collectors')
        total += len(sc.sources)
        h.check(len(sc.sources) > 0, 'no empty collectors')
        exp = [i for i in range(len(srcs))
               if srcs[i].tectonic_region_type == sc.trt]
        h.check(len(exp) == len(sc.sources), 'the sources of the type')
        for i, s in zip(exp, sc.sources):
            h.check(srcs[i] is s, 'the sources of the type, in order')
        h.check(h.And(*[sc.min_mag <= srcs[i].mfd.min_mag for i in exp]),
                'minimum magnitude')
        h.check(h.Or(*[sc.min_mag == srcs[i].mfd.min_mag for i in exp]),
                'minimum magnitude attained')
        h.check(h.And(*[sc.max_mag >= new[i] for i in exp]),
                'maximum magnitude after the uncertainties')
        h.check(h.Or(*[sc.max_mag == new[i] for i in exp]),
                'maximum magnitude attained')
    h.check(total == len(srcs), 'every source in a collector')


def parsed(h, n, apply):
    ids = [h.tok('id%d' % i) for i in range(n)]
    trts = [h.tok('trt%d' % i) for i in range(n)]
    o, srcs, new = parse(h, ids, trts, apply)
    conclude(h, o, srcs, new, ids)


def distinct(h, n):
    trts = [h.tok('trt%d' % i) for i in range(n)]
    o, srcs, new = parse(h, ['s%d' % i for i in range(n)], trts, 0)
    conclude(h, o, srcs, new, ['s%d' % i for i in range(n)])


def onetype(h, n):
    ids = [h.tok('id%d' % i) for i in range(n)]
    o, srcs, new = parse(h, ids, ['Volcanic'] * n, 1)
    conclude(h, o, srcs, new, ids)


def conclude(h, o, srcs, new, ids):
    n = len(ids)
    dup = h.Or(*[ids[i] == ids[j] for i in range(n) for j in range(i)])
    if o[0] == 'exc':
        h.reach('duplicate')
        h.check(isinstance(o[1], DuplicateID), 'a duplicate is an error')
        h.check(dup, 'no duplicate')
        text = str(o[1])
        h.check(h.Or(*[h.And(ids[i] == ids[j], ids[i] in text)
                       for i in range(n) for j in range(i)]),
                'the error names the id')
        return
    h.reach('parsed')
    h.check(h.Not(dup), 'duplicates are refused')
    agree(h, o[1], srcs, new)


def spelled(h):
    """Ids and region types are compared as they are written"""
    ids = [h.pick('id%d' % i, SPELLED) for i in range(2)] + ['z']
    trts = [h.pick('trt%d' % i, SPELLED[:4] + ['', 'a b']) for i in range(2)]
    trts.append(trts[0])
    o, srcs, new = parse(h, ids, trts, 0)
    conclude(h, o, srcs, new, ids)
