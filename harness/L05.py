from openquake.commonlib import logictree
from openquake.commonlib.logictree import BranchSet
from openquake.hazardlib import mfd, source
import ltdoc

BOUNDS = ('every source class, magnitude distribution and subset of filters, '
          'up to 3 source ids in a filter, arbitrary ids, region types and '
          'values; paths of up to 4 branch sets (thorough 5), each of any uncertainty '
          'type')
OUTSIDE = 'longer paths; the hazard library, which is replaced by a stand-in'
ASSUMES = ['values are exact numbers']

TYPES = ['bGRRelative', 'maxMagGRRelative', 'maxMagGRAbsolute',
         'abGRAbsolute']
NAMES = ['point', 'area', 'simpleFault', 'complexFault',
         'characteristicFault']
TRT, STYPE, SRCS = ('applyToTectonicRegionType', 'applyToSourceType',
                    'applyToSources')


def jobs(tier):
    out = []
    for kinds in ([], [TRT], [STYPE], [SRCS], [TRT, STYPE], [TRT, SRCS],
                  [STYPE, SRCS], [TRT, STYPE, SRCS]):
        out.append(('filtered', dict(kinds=kinds),
                    ['passed'] + (['discarded'] if kinds else [])))
    for utype in TYPES:
        out.append(('applied', dict(utype=utype), ['modified', 'untouched']))
    top = 4 if tier == 'quick' else 5
    for n in range(top + 1):
        out.append(('path', dict(n=n), ['applied']))
    out.append(('choice', {}, ['applied']))
    return out


def make(h, kind, trt, sid, dist):
    if kind == 'point':
        return source.PointSource(sid, 'n', trt, dist, 1, 2, 3, 4, 5, 6, 7,
                                  8, 9)
    if kind == 'area':
        return source.AreaSource(sid, 'n', trt, dist, 1, 2, 3, 4, 5, 6, 7, 8,
                                 9, 10)
    if kind == 'simpleFault':
        return source.SimpleFaultSource(sid, 'n', trt, dist, 1, 2, 3, 4, 5,
                                        6, 7, 8, 9)
    if kind == 'complexFault':
        return source.ComplexFaultSource(sid, 'n', trt, dist, 1, 2, 3, 4, 5,
                                         6)
    return source.CharacteristicFaultSource(sid, 'n', trt, dist, 1, 2, 3)


def distribution(h, truncated, name):
    if truncated:
        return mfd.TruncatedGRMFD(
            min_mag=h.real(name + 'min'), max_mag=h.real(name + 'max'),
            bin_width=h.real(name + 'bin'), a_val=h.real(name + 'a'),
            b_val=h.real(name + 'b'))
    return mfd.EvenlyDiscretizedMFD(5., 0.1, [0.1, 0.2])


def filters(h, kinds, kind, trt, sid):
    """Filters and the condition for the source to pass them"""
    f = {}
    ok = True
    if TRT in kinds:
        f[TRT] = h.tok('ftrt')
        ok = h.And(ok, f[TRT] == trt)
    if STYPE in kinds:
        f[STYPE] = h.pick('fstype', NAMES)
        ok = h.And(ok, f[STYPE] == kind)
    if SRCS in kinds:
        f[SRCS] = [h.tok('fid%d' % i) for i in range(h.size('nids', 0, 3))]
        ok = h.And(ok, h.Or(*[i == sid for i in f[SRCS]]))
    return f, ok


def filtered(h, kinds):
    trt, sid = h.tok('trt'), h.tok('sid')
    kind = h.pick('kind', NAMES)
    f, ok = filters(h, kinds, kind, trt, sid)
    src = make(h, kind, trt, sid, distribution(h, True, 'm'))
    res = BranchSet('bGRRelative', f).filter_source(src)
    h.observe('res', res)
    h.check(h.Iff(res, ok), 'the source passes the filter')
    h.reach('passed' if res else 'discarded')


def value_of(h, utype, name):
    if utype == 'abGRAbsolute':
        return (h.real(name + 'va'), h.real(name + 'vb'))
    return h.real(name + 'v')


def modification(utype, value):
    return {
        'bGRRelative': lambda: ('increment_b', dict(value=value)),
        'maxMagGRRelative': lambda: ('increment_max_mag', dict(value=value)),
        'maxMagGRAbsolute': lambda: ('set_max_mag', dict(value=value)),
        'abGRAbsolute': lambda: ('set_ab', dict(
            a_val=value[0], b_val=value[1]))}[utype]()


def state(dist):
    return [getattr(dist, n) for n in (
        'min_mag', 'max_mag', 'bin_width', 'a_val', 'b_val')]


def same_modifications(h, got, expected):
    h.check(len(got) == len(expected), 'each modification once')
    for (m, p), (name, params) in zip(got, expected):
        h.check(m == name, 'the modification of the uncertainty type')
        h.check(sorted(p) == sorted(params), 'its parameters')
        for k in params:
            h.check(p[k] == params[k], 'the value of the branch')


def untouched(h, src, before):
    after = dict(vars(src))
    h.check(sorted(after) == sorted(before), 'same attributes')
    for k in before:
        h.check(h.Or(after[k] is before[k], h.Eq(after[k], before[k])),
                'the source is left alone')


def applied(h, utype):
    trt, sid = h.tok('trt'), h.tok('sid')
    kind = h.pick('kind', NAMES)
    f, ok = filters(h, [h.pick('filter', [TRT, STYPE, SRCS])], kind, trt,
                    sid)
    truncated = h.flag('truncated')
    dist = distribution(h, truncated, 'm')
    src = make(h, kind, trt, sid, dist)
    before = dict(vars(src))
    value = value_of(h, utype, 'x')
    res = BranchSet(utype, f).apply_uncertainty(value, src)
    h.check(res is None, 'no result')
    untouched(h, src, before)
    h.check(h.Iff(len(dist.modifications) > 0, h.And(ok, truncated)),
            'the sources to modify')
    if dist.modifications:
        h.reach('modified')
        same_modifications(h, dist.modifications,
                           [modification(utype, value)])
    else:
        h.reach('untouched')


def path(h, n):
    types = [h.pick('utype%d' % i, TYPES) for i in range(n)]
    values = [value_of(h, t, 'x%d' % i) for i, t in zip(range(n), types)]
    sid, other = h.tok('sid'), h.tok('other')
    trts = [h.tok('trt%d' % i) for i in range(n)]
    # absolute uncertainties name their source, the others a region type
    doc = [[ltdoc.branchset('sourceModel', {}, [
        ltdoc.branch('b', 'm.xml', '1')])]]
    for i, t, v in zip(range(n), types, values):
        text = ' '.join(map(h.numtext, v)) if isinstance(
            v, tuple) else h.numtext(v)
        attrs = {SRCS: other} if t.endswith('Absolute') else {TRT: trts[i]}
        doc.append([ltdoc.branchset(t, attrs, [
            ltdoc.branch('b%d' % i, text, '1')])])
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    lt = logictree.SourceModelLogicTree('<lt/>', '/b', 'lt', validate=False)
    trt = h.tok('trt')
    dist = distribution(h, True, 'm')
    src = make(h, 'point', trt, sid, dist)
    before = dict(vars(src))
    func = lt.make_apply_uncertainties(
        tuple(['b'] + ['b%d' % i for i in range(n)]))
    h.check(not dist.modifications, 'nothing is applied yet')
    func(src)
    untouched(h, src, before)
    h.reach('applied')
    expected = []
    for i, t, v in zip(range(n), types, values):
        if (other == sid) if t.endswith('Absolute') else (trts[i] == trt):
            expected.append(modification(t, v))
    same_modifications(h, dist.modifications, expected)
    # another source, after the first
    dist2 = distribution(h, True, 'n')
    src2 = make(h, 'area', trt, sid, dist2)
    func(src2)
    same_modifications(h, dist2.modifications, expected)
    same_modifications(h, dist.modifications, expected)


def choice(h):
    """Trees with several branches: the values of the selected branches"""
    w = ['0.5', '0.5']
    vals = [h.real('v%d' % i) for i in range(6)]
    ids = [h.tok('id%d' % i) for i in range(8)]
    for i in range(8):
        for j in range(i):
            h.assume(ids[i] != ids[j])
    t = h.numtext
    doc = [
        [ltdoc.branchset('sourceModel', {}, [
            ltdoc.branch(ids[i], 'm%d.xml' % i, w[i]) for i in (0, 1)])],
        [ltdoc.branchset('bGRRelative', {'applyToBranches': ids[0]}, [
            ltdoc.branch(ids[i + 2], t(vals[i]), w[i]) for i in (0, 1)]),
         ltdoc.branchset('maxMagGRRelative', {'applyToBranches': ids[1]}, [
             ltdoc.branch(ids[i + 4], t(vals[i + 2]), w[i]) for i in (0, 1)])],
        [ltdoc.branchset('maxMagGRAbsolute', {}, [
            ltdoc.branch(ids[i + 6], t(vals[i + 4]), w[i])
            for i in (0, 1)])]]
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    lt = logictree.SourceModelLogicTree('<lt/>', '/b', 'lt', validate=False)
    a, b, c = h.pick('a', [0, 1]), h.pick('b', [0, 1]), h.pick('c', [0, 1])
    func = lt.make_apply_uncertainties(
        (ids[a], ids[2 + 2 * a + b], ids[6 + c]))
    dist = distribution(h, True, 'm')
    func(make(h, 'simpleFault', 'x', 's', dist))
    h.reach('applied')
    same_modifications(h, dist.modifications, [
        modification(['bGRRelative', 'maxMagGRRelative'][a],
                     vals[2 * a + b]),
        modification('maxMagGRAbsolute', vals[4 + c])])
