from openquake.commonlib import logictree
from openquake.hazardlib import gsim
import random
import ltdoc

BOUNDS = ('up to 4 levels with up to 2 branches each, arbitrary and possibly '
          'equal region types both in the document and in the given set (of '
          'up to 3), every GSIM of the (stand-in) library or an unknown one, '
          'at most one branch set or level with a defect')
OUTSIDE = ('larger trees; the XML parser and the schema validation; branch '
           'sets of other region types sharing a level with a branch set of '
           'a given type or being malformed (validation may or may not '
           'refuse them); no branch set at all for the given region types')
ASSUMES = ['the document follows the schema']
TRT = 'applyToTectonicRegionType'
NAMES = ['SadighEtAl1997', 'ChiouYoungs2008', 'ToroEtAl2002']


def jobs(tier):
    out = []
    sizes = [[1], [2], [1, 1], [2, 2], [1, 2, 1], [2, 1, 2]]
    if tier != 'quick':
        sizes += [[1, 1, 1, 1], [2, 2, 2]]
    for size in sizes:
        for known in range(1, 4 if len(size) > 1 else 3):
            out.append(('paths', dict(sizes=size, known=known), ['paths']))
    out.append(('sampled', dict(sizes=[2, 2], known=2), ['sampled']))
    out.append(('sampled', dict(sizes=[1, 2, 2], known=2), ['sampled']))
    for defect in ('none', 'two', 'type', 'filter', 'notrt', 'value'):
        for n in (1, 2, 3):
            for known in (0, 1, 2):
                if known and n < known - 1 or defect == 'two' and n == 3:
                    continue
                if defect != 'none' and not known:
                    continue
                labels = []
                if known:
                    labels.append('refused')
                if defect == 'none' and n >= known or defect in (
                        'value',) and n >= known:
                    labels.append('accepted')
                out.append(('validated', dict(n=n, known=known,
                                              defect=defect), labels))
    return out


def bset(h, i, trt, size, name, weights=None):
    ws = weights or (['1'] if size == 1 else ['0.25', '0.75'])
    return ltdoc.branchset('gmpeModel', {TRT: trt}, [
        ltdoc.branch('b%d_%d' % (i, j), ' %s ' % name(i, j), ws[j])
        for j in range(size)], 'bs%d' % i)


def name_of(i, j):
    return NAMES[(i + j) % 3]


def paths(h, sizes, known):
    """Without validation"""
    given = [h.tok('given%d' % i) for i in range(known)]
    trts = [h.tok('trt%d' % i) for i in range(len(sizes))]
    for i in range(len(trts)):
        for j in range(i):
            h.assume(trts[i] != trts[j])
    doc = [[bset(h, i, t, s, name_of)]
           for i, t, s in zip(range(len(sizes)), trts, sizes)]
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    relevant = []
    for i in range(len(sizes)):
        if any([g == trts[i] for g in given]):
            relevant.append(i)
    if not relevant:
        return
    lt = logictree.GMPELogicTree(given, '<lt/>', '/b', 'lt', validate=False)
    got = list(lt)
    h.reach('paths')
    h.observe('paths', [p for v, w, p in got])
    expected = [[]]
    for i in relevant:
        expected = [p + [(i, j)] for p in expected for j in range(sizes[i])]
    h.check(len(got) == len(expected), 'every path once')
    for (value, weight, ids), exp in zip(got, expected):
        h.check(tuple(ids) == tuple(['b%d_%d' % ij for ij in exp]),
                'the branches of a path')
        w = 1
        for i, j in exp:
            w = w * ([1] if sizes[i] == 1 else [0.25, 0.75])[j]
        h.check(weight == w, 'the weight of a path')
        dic = lt.make_trt_to_gsim(ids)
        h.check(len(dic) == len(exp), 'one GSIM for each region type')
        for i, j in exp:
            h.check(trts[i] in dic, 'the region type is there')
            h.check(dic[trts[i]] is getattr(gsim, name_of(i, j)),
                    'the GSIM of the branch')


def sampled(h, sizes, known):
    given = [h.tok('given%d' % i) for i in range(known)]
    trts = [h.tok('trt%d' % i) for i in range(len(sizes))]
    for i in range(len(trts)):
        for j in range(i):
            h.assume(trts[i] != trts[j])
    doc = [[bset(h, i, t, s, name_of)]
           for i, t, s in zip(range(len(sizes)), trts, sizes)]
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    relevant = []
    for i in range(len(sizes)):
        if any([g == trts[i] for g in given]):
            relevant.append(i)
    if not relevant:
        return
    draws = []

    def draw(gen):
        u = h.real('u', 0, 1)
        h.assume(u < 1)
        draws.append(u)
        return u
    random.DRAW[0] = draw
    lt = logictree.GMPELogicTree(given, '<lt/>', '/b', 'lt', validate=False,
                                 seed=3, num_samples=2)
    got = list(lt)
    h.reach('sampled')
    h.check(len(got) == 2, 'number of samples')
    h.check(len(draws) == 2 * len(relevant), 'one draw for each level')
    for k in range(2):
        value, weight, ids = got[k]
        h.check(len(ids) == len(relevant), 'one branch for each level')
        dic = lt.make_trt_to_gsim(ids)
        h.check(len(dic) == len(relevant), 'one GSIM for each region type')
        for i, bid, u in zip(relevant, ids, draws[k * len(relevant):]):
            j = 0
            if sizes[i] == 2 and u > 0.25:
                j = 1
            h.check(bid == 'b%d_%d' % (i, j), 'the branch of the draw')
            h.check(dic[trts[i]] is getattr(gsim, name_of(i, j)),
                    'the GSIM of the branch')


def validated(h, n, known, defect):
    given = [h.tok('given%d' % i) for i in range(known)]
    trts = [h.tok('trt%d' % i) for i in range(n)]
    where = h.size('where', 0, n - 1)
    values = dict(('%d' % i, 'ToroEtAl2002') for i in range(n))
    if defect == 'value':
        values['%d' % where] = h.pick('value', NAMES + [
            'toroetal2002', 'ToroEtAl2002x', 'GMPE'])
    doc = [[bset(h, i, trts[i], 1, lambda i, j: values['%d' % i])]
           for i in range(n)]
    relevant = [any([g == t for g in given]) for t in trts]
    good = True
    if defect in ('type', 'filter', 'value') and not relevant[where]:
        return      # out of scope
    node = doc[where][0]
    if defect == 'type':
        node.attrib['uncertaintyType'] = h.pick('type', [
            'sourceModel', 'bGRRelative', 'abGRAbsolute'])
        good = False
    elif defect == 'filter':
        node.attrib[h.pick('filter', ['applyToSources',
                                      'applyToSourceType'])] = 'point'
        good = False
    elif defect == 'notrt':
        del node.attrib[TRT]
        good = False
    elif defect == 'value':
        good = values['%d' % where] in NAMES
    elif defect == 'two':
        other = h.tok('other')
        rel = any([g == other for g in given])
        if not rel or not relevant[where]:
            return      # out of scope
        doc[where].append(bset(h, n, other, 1, name_of))
        good = False
    ltdoc.register('<lt/>', ltdoc.tree(doc))
    o = h.outcome(lambda: logictree.GMPELogicTree(
        given, '<lt/>', '/b', 'lt', validate=True))
    for i in range(n):
        for j in range(i):
            if relevant[i] and trts[i] == trts[j]:
                good = False
    for g in given:
        if not any([g == t for t in trts]):
            good = False
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], logictree.ValidationError),
                'errors are validation errors')
        h.check(not good, 'a valid tree is not refused')
        return
    h.reach('accepted')
    h.check(good, 'an invalid tree is refused')
    if not any(relevant):
        return
    got = list(o[1])
    h.check(len(got) == 1, 'one path')
    dic = o[1].make_trt_to_gsim(got[0][2])
    h.check(len(dic) == len([r for r in relevant if r]),
            'one GSIM for each region type')
    for i in range(n):
        if relevant[i]:
            h.check(dic[trts[i]] is getattr(gsim, values['%d' % i]),
                    'the GSIM of the branch')
