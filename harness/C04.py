from openquake.commonlib import converter, record, records

import nodetree

BOUNDS = ('collections of 1 or 2 (thorough 3) field sets and single field '
          'sets, with up to 2 (thorough 3) fields of any type (spectral '
          'acceleration with arbitrary period, PGA, PGV, MMI) in each set, '
          'arbitrary rupture ids (equal or different), and up to 2 '
          '(thorough 3) sites in each field')
OUTSIDE = ('larger collections; fields without sites; the damping, which '
           'the tables do not keep (it is always 5 percent); a set with the '
           'identifier 0 in a collection, which denotes the single set')
ASSUMES = ['the identifiers of the sets of a collection are distinct; two '
           'fields of a set differ in the intensity measure type or in the '
           'rupture; the sites of a field are distinct',
           'the texts are words without spaces']


def jobs(tier):
    one = [[1], [2], [2, 1], [1, 1, 2]]
    many = [[[1]], [[2]], [[1, 1]], [[2], [1]], [[1], [1, 1]], [[], [1]],
            [[1], []]]
    if tier != 'quick':
        one += [[3, 2], [1, 1, 1, 1]]
        many += [[[2, 1], [1, 2]], [[1], [1], [1]], [[1, 1, 1], [1]],
                 [[3], [3]]]
    out = []
    for shape in one:
        out.append(('single', dict(shape=shape), ['done']))
    for shape in many:
        out.append(('collection', dict(shape=shape), ['done']))
    out.append(('duplicated', {}, ['refused', 'accepted']))
    out.append(('kind', {}, ['done']))
    out.append(('spelled', {}, ['done']))
    return out


def field(h, name, nsites, single):
    attrs = {'IMT': h.pick('imt' + name, ['SA', 'PGA', 'MMI'])}
    if attrs['IMT'] == 'SA':
        attrs['saPeriod'] = h.tok('period' + name)
        attrs['saDamping'] = '5'
    if not single:
        attrs['ruptureId'] = h.tok('rup' + name)
    sites = []
    for i in range(nsites):
        s = dict((k, h.tok('%s%s_%d' % (k, name, i)))
                 for k in ('lon', 'lat', 'gmv'))
        for t in sites:
            h.assume(h.Not(h.And(h.Eq(s['lon'], t['lon']),
                                 h.Eq(s['lat'], t['lat']))))
        sites.append(s)
    return nodetree.elem('gmf', attrs, [
        nodetree.elem('node', s) for s in sites])


def key(f):
    return (f.attrib['IMT'], f.attrib.get('saPeriod', ''),
            f.attrib.get('ruptureId', ''))


def fields(h, s, shape, single):
    out = []
    for j, n in enumerate(shape):
        f = field(h, '%d_%d' % (s, j), n, single)
        for g in out:
            h.assume(h.Not(h.And(*[h.Eq(a, b)
                                   for a, b in zip(key(f), key(g))])))
        out.append(f)
    return out


def make_copy(node):
    return nodetree.elem(node.tag, node.attrib, map(make_copy, node),
                         node.text)


def verify(h, model, sets):
    exp = make_copy(model)
    conv = converter.Converter.from_nrml(nodetree.publish('m.xml', model))
    h.check(isinstance(conv, converter.GmfCollection), 'the converter')
    got = conv.to_node()
    for node in got.getnodes('gmf') + [
            f for s in got.getnodes('gmfSet') for f in s.getnodes('gmf')]:
        # 5.0 or 5 are the same damping
        if 'saDamping' in node.attrib:
            h.check(float(node.attrib['saDamping']) == 5, 'damping')
            node.attrib['saDamping'] = '5'
    nodetree.compare(h, got, exp)
    nodetree.compare(h, model, exp, 'original')
    # the records
    t = conv.tableset
    h.check(len(t.tableGmfSet) == len(sets), 'number of sets')
    gmfs, data = list(t.tableGmf), list(t.tableGmfData)
    for s, rec in zip(sets, t.tableGmfSet):
        ses = rec['stochasticEventSetId']
        h.check(h.same(ses, s.attrib.get('stochasticEventSetId', '0')),
                'id of a set', ses)
        for f in s:
            g = gmfs.pop(0)
            imt = f.attrib['IMT']
            if imt == 'SA':
                imt = 'SA(' + f.attrib['saPeriod'] + ')'
            h.check(h.same([ses, imt, f.attrib.get('ruptureId', '')],
                           list(g)), 'record of a field', list(g))
            for n in f:
                d = data.pop(0)
                h.check(h.same(list(g) + [n.attrib['lon'], n.attrib['lat'],
                                          n.attrib['gmv']], list(d)),
                        'record of a site', list(d))
    h.check(not gmfs and not data, 'no spurious records')
    h.reach('done')


def single(h, shape):
    model = nodetree.elem('gmfSet', {}, fields(h, 0, shape, True))
    verify(h, model, [model])


def sets_of(h, shape):
    sets = []
    for s, sh in enumerate(shape):
        ses = h.tok('ses%d' % s)
        h.assume(h.Not(h.Eq(ses, '0')))
        for x in sets:
            h.assume(h.Not(h.Eq(ses, x.attrib['stochasticEventSetId'])))
        sets.append(nodetree.elem('gmfSet', {
            'stochasticEventSetId': ses,
            'investigationTime': h.tok('time%d' % s)},
            fields(h, s, sh, False)))
    return sets


def collection(h, shape):
    sets = sets_of(h, shape)
    model = nodetree.elem('gmfCollection', {
        'sourceModelTreePath': h.tok('smpath'),
        'gsimTreePath': h.tok('gsimpath')}, sets)
    verify(h, model, sets)


def spelled(h):
    """The texts are kept as they are written."""
    sets = []
    for s in range(2):
        f = nodetree.elem('gmf', {
            'IMT': 'SA', 'saPeriod': h.pick('per%d' % s, ['0.10', '.1']),
            'saDamping': '5',
            'ruptureId': h.pick('rup%d' % s, ['01', ' 1', '1 ', 'A=b|c'][s::2])},
            [nodetree.elem('node', {'lon': '+1.50', 'lat': '0', 'gmv': '1E-1'
                                    })])
        g = nodetree.elem('gmf', {'IMT': 'PGA', 'ruptureId': '1'}, [
            nodetree.elem('node', {'lon': '1.5', 'lat': '0.0', 'gmv': '0'})])
        sets.append(nodetree.elem('gmfSet', {
            'stochasticEventSetId': ['1', '10'][s],
            'investigationTime': h.pick('time%d' % s, ['50', '0', '50.0'][s:])},
            [f, g]))
    verify(h, nodetree.elem('gmfCollection', {
        'sourceModelTreePath': h.pick('path', ['b1|b2', ' b1']),
        'gsimTreePath': h.pick('gpath', ['', 'b_2'])}, sets), sets)
    h.reach('done')


def duplicated(h):
    """Two fields of a set with the same type and rupture are refused."""
    a = field(h, 'a', 1, False)
    b = field(h, 'b', 1, False)
    dup = h.And(*[h.Eq(x, y) for x, y in zip(key(a), key(b))])
    model = nodetree.elem('gmfCollection', {
        'sourceModelTreePath': 'p', 'gsimTreePath': 'q'}, [
        nodetree.elem('gmfSet', {'stochasticEventSetId': '1',
                                 'investigationTime': '50.0'}, [a, b])])
    o = h.outcome(converter.Converter.from_node, model)
    if o[0] == 'ok':
        h.check(h.Not(dup), 'a duplicated field is refused')
        h.reach('accepted')
    else:
        h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
        h.check(dup, 'different fields are accepted')
        h.reach('refused')


def kind(h):
    """The record types of the model, in order."""
    h.check(converter.GmfCollection.recordtypes() == [
        records.GmfCollection, records.GmfSet, records.Gmf,
        records.GmfData], 'record types')
    h.reach('done')
