from openquake.commonlib import logictree
from openquake.nrmllib import node as nodes
from openquake.nrmllib.node import Node

BOUNDS = ('up to 3 levels with one branch set of up to 3 branches each, '
          'arbitrary and possibly equal branch ids and region types in the '
          'document and up to 3 in the given sequence, arbitrary distinct '
          'branch set ids in any order, arbitrary exact decimal weights; at '
          'most one branch set or level with a defect')
OUTSIDE = 'larger trees; the XML parser; equal branch set ids'
ASSUMES = ['the document follows the schema', 'products of weights are exact']
TRT = 'applyToTectonicRegionType'


def jobs(tier):
    out = []
    sizes = [[1], [2], [3], [2, 1], [2, 2], [1, 1, 1], [1, 2, 1]]
    if tier != 'quick':
        sizes += [[3, 3], [2, 2, 2], [1, 1, 1, 1]]
    for size in sizes:
        for given in range(0, 3 if len(size) < 3 else 2):
            labels = ['parsed']
            if len(size) > 1 or given:
                labels.append('refused')
            out.append(('product', dict(sizes=size, given=given), labels))
    # every region type of the document is given
    for size in [[1, 1, 1], [2, 2], [1, 2, 1], [2, 1, 2]] + (
            [] if tier == 'quick' else [[2, 2, 2], [3, 2], [2, 3, 1], [2, 2, 1, 1]]):
        out.append(('whole', dict(sizes=size), ['parsed']))
    for n in (0, 1, 2, 3):
        out.append(('weights', dict(n=n), ['refused'] + (
            ['parsed'] if n else [])))
    for defect in ('two', 'type', 'notrt'):
        out.append(('malformed', dict(defect=defect), ['refused'] + (
            ['parsed'] if defect == 'notrt' else [])))
    return out


def branch(bid, value, weight):
    return Node('logicTreeBranch', {'branchID': bid}, None, [
        Node('uncertaintyModel', {}, value),
        Node('uncertaintyWeight', {}, weight)])


def branchset(bsid, trt, branches):
    attrs = {'uncertaintyType': 'gmpeModel', 'branchSetID': bsid}
    if trt is not None:
        attrs[TRT] = trt
    return Node('logicTreeBranchSet', attrs, None, branches)


def document(levels):
    nodes.FILES['lt.xml'] = Node('nrml', {}, None, [
        Node('logicTree', {'logicTreeID': 'lt'}, None, [
            Node('logicTreeBranchingLevel', {'branchingLevelID': 'bl%d' % i},
                 None, bsets) for i, bsets in
            zip(range(len(levels)), levels)])])


def build(h, sizes):
    trts = [h.tok('trt%d' % i) for i in range(len(sizes))]
    bsids = [h.tok('bs%d' % i) for i in range(len(sizes))]
    for i in range(len(sizes)):
        for j in range(i):
            h.assume(bsids[i] != bsids[j])
    ids = []
    values = []
    weights = []
    levels = []
    for i, size in zip(range(len(sizes)), sizes):
        ids.append([h.tok('id%d_%d' % (i, j)) for j in range(size)])
        values.append([h.tok('gsim%d_%d' % (i, j)) for j in range(size)])
        ws = [h.dec('w%d_%d' % (i, j), 0, 1, den=100) for j in range(size)]
        h.assume(h.total(ws) == 1)
        weights.append(ws)
        levels.append([branchset(bsids[i], trts[i], [
            branch(a, ' ' + v + '\n', h.numtext(w))
            for a, v, w in zip(ids[i], values[i], ws)])])
    document(levels)
    return trts, bsids, ids, values, weights


def ordered(h, relevant, bsids):
    """The relevant branch sets ordered by id"""
    out = []
    for i in relevant:
        k = 0
        while k < len(out) and bsids[out[k]] < bsids[i]:
            k += 1
        out.insert(k, i)
    return out


def agree(h, lt, order, sizes, doc):
    trts, bsids, ids, values, weights = doc
    got = list(lt)
    num = 1
    for i in order:
        num = num * sizes[i]
    h.check(len(got) == num, 'one realization for each choice')
    h.check(lt.get_num_paths() == num, 'the advertised number of paths')
    adv = lt.get_num_branches()
    h.check(len(adv) == len(order), 'the advertised branch sets')
    for i in order:
        h.check(adv[bsids[i]] == sizes[i],
                'the advertised number of branches')
    # each choice corresponds to one realization
    choices = [[]]
    for i in order:
        choices = [c + [j] for c in choices for j in range(sizes[i])]
    hits = [[] for c in choices]
    for real in got:
        h.check(len(real.lt_path) == len(order) and
                len(real.value) == len(order), 'one branch for each set')
        h.check(isinstance(real.lt_path, tuple), 'the path is a tuple')
        for i in order:
            h.check(trts[i] in real.value, 'every region type')
        row = []
        for c in choices:
            w = 1
            conds = []
            for i, j, bid in zip(order, c, real.lt_path):
                conds.append(bid == ids[i][j])
                conds.append(real.value[trts[i]] == values[i][j])
                w = w * weights[i][j]
            conds.append(real.weight == w)
            row.append(h.And(*conds))
        for k in range(len(choices)):
            hits[k].append(row[k])
        h.check(h.Or(*row), 'a realization is a choice of branches')
    for k in range(len(choices)):
        h.check(h.Or(*hits[k]), 'every choice gives a realization')
    h.check(h.total([r.weight for r in got]) == 1, 'the weights sum to one')
    again = list(lt)
    h.check(len(again) == len(got) and h.And(*[
        h.Eq(a.lt_path, b.lt_path) for a, b in zip(again, got)]),
        'the iteration can be repeated')


def product(h, sizes, given):
    doc = build(h, sizes)
    trts, bsids = doc[0], doc[1]
    keys = [h.tok('key%d' % i) for i in range(given)]
    o = h.outcome(lambda: logictree.GsimLogicTree('lt.xml', TRT, keys))
    dup = h.Or(*[trts[i] == trts[j] for i in range(len(sizes))
                 for j in range(i)])
    dupkeys = h.Or(*[keys[i] == keys[j] for i in range(given)
                     for j in range(i)])
    relevant = h.Or(given == 0, *[t == k for t in trts for k in keys])
    good = h.And(h.Not(dup), h.Not(dupkeys), relevant)
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], (logictree.InvalidLogicTree, ValueError)),
                'errors are reported as such')
        h.check(h.Not(good), 'a valid tree is not refused')
        return
    h.check(good, 'an invalid tree is refused')
    h.reach('parsed')
    rel = []
    for i in range(len(sizes)):
        if any([k == trts[i] for k in keys]):
            rel.append(i)
    agree(h, o[1], ordered(h, rel, bsids), sizes, doc)


def whole(h, sizes):
    doc = build(h, sizes)
    trts, bsids = doc[0], doc[1]
    for i in range(len(sizes)):
        for j in range(i):
            h.assume(trts[i] != trts[j])
    lt = logictree.GsimLogicTree('lt.xml', TRT, trts[::-1])
    h.reach('parsed')
    agree(h, lt, ordered(h, range(len(sizes)), bsids), sizes, doc)


def weights(h, n):
    ws = [h.dec('w%d' % i, den=10 ** 6) for i in range(n)]
    document([[branchset('bs', 'Shield', [
        branch('b%d' % i, 'G', ' %s ' % h.numtext(ws[i]))
        for i in range(n)])]])
    o = h.outcome(lambda: logictree.GsimLogicTree('lt.xml', TRT, ['Shield']))
    good = h.total(ws) == 1
    if o[0] == 'exc':
        h.reach('refused')
        h.check(h.Not(good), 'weights summing to one are not refused')
        return
    h.reach('parsed')
    h.check(h.And(good, n > 0), 'weights not summing to one are refused')
    h.check(len(list(o[1])) == n, 'realizations')


def malformed(h, defect):
    def bset(i, trt):
        return branchset('bs%d' % i, trt, [branch('b%d' % i, 'G', '1')])
    one, two, key = h.tok('one'), h.tok('two'), h.tok('key')
    h.assume(one != two)
    levels = [[bset(0, one)], [bset(1, two)]]
    if defect == 'two':
        levels = [[bset(0, one), bset(1, two)]]
    elif defect == 'type':
        i = h.pick('where', [0, 1])
        levels[i][0].attrib['uncertaintyType'] = h.pick('type', [
            'sourceModel', 'bGRRelative', 'abGRAbsolute'])
    else:
        levels[1][0] = bset(1, None)
    document(levels)
    o = h.outcome(lambda: logictree.GsimLogicTree('lt.xml', TRT, [key]))
    good = h.And(defect == 'notrt', key == one)
    if o[0] == 'exc':
        h.reach('refused')
        h.check(isinstance(o[1], (logictree.InvalidLogicTree, ValueError)),
                'errors are reported as such')
        h.check(h.Not(good), 'a valid tree is not refused')
    else:
        h.reach('parsed')
        h.check(good, 'an invalid tree is refused')
        h.check(len(list(o[1])) == 1, 'one realization')
