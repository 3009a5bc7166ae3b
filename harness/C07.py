import csv
import os
from openquake.nrmllib import node as nrmlnode
from openquake.commonlib import converter, csvmanager, records

import nodetree

BOUNDS = ('one model of each kind (vulnerability, discrete and continuous '
          'fragility, exposure of buildings or population with and without '
          'optional parts, single set and collection of ground motion '
          'fields), stored in in-memory, directory and zip archives; two '
          'texts of the model of up to 2 (thorough 3) arbitrary characters '
          'among letters, separators, quotes, blanks and newlines, the '
          'others arbitrary words; up to 3 prefixes in an archive, with and '
          'without files of other kinds, with and '
          'without an output archive')
OUTSIDE = ('larger models (see C01 to C04), longer texts, characters which '
           'are not ASCII; the writing of XML, which is replaced')
ASSUMES = ['nrmllib writes a node in the file it is given']

KINDS = ['vulnerability', 'discrete', 'continuous', 'buildings',
         'population', 'gmfset', 'collection']
ALPHABET = 'a ,"\n\r'


def jobs(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    for kind in KINDS:
        for arc in ('mem', 'dir', 'zip'):
            out.append(('store', dict(kind=kind, arc=arc), ['done']))
    for kind in ('vulnerability', 'buildings', 'collection'):
        for a in range(n + 1):
            if kind == 'collection' and a == n:
                continue        # the rupture cannot be empty
            out.append(('texts', dict(kind=kind, a=a, b=n - a), ['done']))
    for arc in ('mem', 'dir', 'zip'):
        for out_ in (None, 'mem', 'dir', 'zip'):
            if out_ not in (None, arc, 'mem'):
                continue
            out.append(('convert', dict(
                kinds=['vulnerability', 'population'], arc=arc, out=out_),
                ['done']))
    out.append(('convert', dict(kinds=['discrete', 'gmfset', 'buildings'],
                                arc='mem', out='dir'), ['done']))
    out.append(('convert', dict(kinds=['vulnerability', 'vulnerability'],
                                arc='mem', out=None), ['done']))
    out.append(('convert', dict(kinds=['collection'], arc='zip', out='dir'),
                ['done']))
    out.append(('convert', dict(kinds=[], arc='mem', out='dir'), ['done']))
    for arc in ('mem', 'dir', 'zip'):
        out.append(('nomodel', dict(arc=arc), ['done']))
    out.append(('manyrecords', dict(arc='mem'), ['done']))
    out.append(('manyrecords', dict(arc='zip'), ['done']))
    out.append(('fromfile', {}, ['done']))
    for arc in ('mem', 'zip'):
        out.append(('several', dict(arc=arc), ['done']))
    return out


def archive(h, kind, name='arc'):
    base = h.scratch()
    if kind == 'mem':
        return csvmanager.MemArchive([])
    if kind == 'dir':
        return csvmanager.DirArchive(os.path.join(base, name), 'w')
    return csvmanager.ZipArchive(os.path.join(base, name + '.zip'), 'w')


def elem(*a, **k):
    return nodetree.elem(*a, **k)


def model(h, kind, s='', t1=None, t2=None):
    """A small model; t1 and t2 are two of its texts"""
    t1 = h.tok('text1' + s) if t1 is None else t1
    t2 = h.tok('text2' + s) if t2 is None else t2

    def num(name, lo=0, hi=None):
        return h.numtext(h.real(name + s, lo, hi))
    if kind == 'vulnerability':
        return elem('vulnerabilityModel', {}, [
            elem('discreteVulnerabilitySet', {
                'vulnerabilitySetID': t1, 'assetCategory': 'population',
                'lossCategory': h.tok('lc' + s)}, [
                elem('IML', {'IMT': 'MMI'}, (), num('iml')),
                elem('discreteVulnerability', {
                    'vulnerabilityFunctionID': t2,
                    'probabilisticDistribution': 'LN'}, [
                    elem('lossRatio', {}, (), num('lr')),
                    elem('coefficientsVariation', {}, (), num('cv'))])])])
    if kind == 'discrete':
        return elem('fragilityModel', {'format': 'discrete'}, [
            elem('description', {}, (), h.tok('descr' + s)),
            elem('limitStates', {}, (), 'minor'),
            elem('ffs', {}, [
                elem('taxonomy', {}, (), t1),
                elem('IML', {'IMT': 'PGA', 'imlUnit': t2}, (), num('iml')),
                elem('ffd', {'ls': 'minor'}, [
                    elem('poEs', {}, (), num('poe', 0, 1))])])])
    if kind == 'continuous':
        return elem('fragilityModel', {'format': 'continuous'}, [
            elem('description', {}, (), h.tok('descr' + s)),
            elem('limitStates', {}, (), 'minor'),
            elem('ffs', {'type': t1}, [
                elem('taxonomy', {}, (), t2),
                elem('IML', {'IMT': 'PGA', 'imlUnit': 'g',
                             'minIML': num('min'), 'maxIML': num('max')}),
                elem('ffc', {'ls': 'minor'}, [
                    elem('params', {'mean': num('mean'),
                                    'stddev': num('std')})])])])
    if kind in ('buildings', 'population'):
        nodes = [elem('description', {}, (), h.tok('descr' + s))]
        subnodes = [elem('location', {'lon': num('lon'), 'lat': num('lat')})]
        if kind == 'buildings':
            nodes.append(elem('conversions', {}, [
                elem('costTypes', {}, [elem('costType', {
                    'name': t1, 'type': 'per_area', 'unit': 'EUR'})]),
                elem('deductible', {'isAbsolute': 'false'}),
                elem('insuranceLimit', {'isAbsolute': 'false'})]))
            subnodes.append(elem('costs', {}, [elem('cost', {
                'type': t1, 'value': num('value')})]))
            subnodes.append(elem('occupancies', {}, [elem('occupancy', {
                'period': t2, 'occupants': num('occ')})]))
        nodes.append(elem('assets', {}, [elem('asset', {
            'id': t2, 'taxonomy': h.tok('tax' + s), 'number': '1'},
            subnodes)]))
        return elem('exposureModel', {
            'id': h.tok('id' + s), 'category': kind,
            'taxonomySource': h.tok('src' + s)}, nodes)
    sites = [elem('node', {'lon': num('lon'), 'lat': num('lat'),
                           'gmv': num('gmv')})]
    if kind == 'gmfset':
        return elem('gmfSet', {}, [
            elem('gmf', {'IMT': 'PGA'}, sites),
            elem('gmf', {'IMT': t1}, [elem('node', {
                'lon': t2, 'lat': '1.0', 'gmv': '0.5'})])])
    return elem('gmfCollection', {
        'sourceModelTreePath': t1, 'gsimTreePath': h.tok('path' + s)}, [
        elem('gmfSet', {'stochasticEventSetId': '1',
                        'investigationTime': num('time', 1)}, [
            elem('gmf', {'IMT': 'PGA', 'ruptureId': t2}, sites)])])


WORDS = ('IML', 'lossRatio', 'coefficientsVariation', 'poEs', 'limitStates')


def grouped(recs):
    """Records -> list of pairs (name of the type, list of rows)"""
    out = []
    for rec in recs:
        name = type(rec).__name__
        for n, rows in out:
            if n == name:
                rows.append(list(rec))
                break
        else:
            out.append((name, [list(rec)]))
    return out


def check_files(h, arc, prefix, groups):
    """The archive has one CSV file for each type of records."""
    got = sorted(arc.extract_filenames(prefix + '__'))
    h.check(got == sorted('%s__%s.csv' % (prefix, n) for n, r in groups),
            'a file for each type of records', got)
    for name, rows in groups:
        f = arc.open('%s__%s.csv' % (prefix, name))
        lines = list(csv.reader(f))
        f.close()
        h.check(lines[:1] == [getattr(records, name).fieldnames],
                'the header', name)
        h.check(len(lines) == len(rows) + 1, 'one line for each record',
                name, lines)
        for line, row in zip(lines[1:], rows):
            h.check(h.same(line, row), 'the line of a record', line, row)


def check_tables(h, tset, groups):
    names = []
    for table in tset:
        name = table.recordtype.__name__
        names.append(name)
        h.check(name in dict(groups), 'no spurious table', name)
        rows = dict(groups)[name]
        h.check(len(table) == len(rows), 'number of records', name)
        for rec, row in zip(table, rows):
            h.check(h.same(list(rec), row), 'a record', name)
    h.check(sorted(names) == sorted(dict(groups)), 'the tables', names)


def verify(h, arc, node, prefix):
    exp = make_copy(node)
    groups = grouped(converter.Converter.from_node(node).node_to_records(
        node))
    man = csvmanager.CSVManager(arc)
    man.convert_from_node(node, prefix)
    check_files(h, arc, prefix, groups)
    man = csvmanager.CSVManager(arc, prefix)
    check_tables(h, man.get_tableset(), groups)
    # the model is the same, as often as it is read
    for i in range(2):
        back = csvmanager.CSVManager(arc, prefix).convert_to_node()
        nodetree.compare(h, back, exp, '', WORDS)


def make_copy(node):
    return elem(node.tag, node.attrib, map(make_copy, node), node.text)


def store(h, kind, arc):
    verify(h, archive(h, arc), model(h, kind), h.tok('prefix'))
    h.reach('done')


def several(h, arc):
    """Models with several records of every type."""
    types = ['structural', 'contents']
    assets = []
    for i in range(2):
        assets.append(elem('asset', {
            'id': 'a%d' % i, 'taxonomy': h.tok('tax%d' % i), 'number': '1'}, [
            elem('location', {'lon': '1.%d' % i,
                              'lat': h.numtext(h.real('lat%d' % i))}),
            elem('costs', {}, [elem('cost', {
                'type': t, 'value': '%d' % i}) for t in types]),
            elem('occupancies', {}, [elem('occupancy', {
                'period': t, 'occupants': '1%d' % i})
                for t in ('day', 'night')])]))
    verify(h, archive(h, arc), elem('exposureModel', {
        'id': 'exp', 'category': 'buildings', 'taxonomySource': 'src'}, [
        elem('description', {}, (), h.tok('descr')),
        elem('conversions', {}, [
            elem('costTypes', {}, [elem('costType', {
                'name': t, 'type': 'per_area', 'unit': 'EUR'})
                for t in types])]),
        elem('assets', {}, assets)]), 'p')
    h.reach('done')


def texts(h, kind, a, b):
    """Texts with separators, quotes and newlines."""
    t1 = h.chars('t1', a, ALPHABET)
    t2 = h.chars('t2', b, ALPHABET)
    verify(h, archive(h, h.pick('arc', ['mem', 'dir'])),
           model(h, kind, '', t1, t2), 'pre')
    h.reach('done')


# files which are not tables of a model
STRAY = ['r__Gmf.txt', 'b__Asset.xml', 's.csv', 't__u__Cost.csv', 'v__x.csv']


def convert(h, kinds, arc, out):
    """Every prefix gives its own file"""
    source = archive(h, arc)
    models = []
    prefixes = ['b', 'a_x', 'c.d'][:len(kinds)]
    for i, (kind, prefix) in enumerate(zip(kinds, prefixes)):
        node = model(h, kind, str(i))
        models.append(make_copy(node))
        csvmanager.CSVManager(source).convert_from_node(node, prefix)
    for stray in h.pick('stray', [[], STRAY]):
        with source.open(stray, 'w') as f:
            f.write('something')
    before = sorted(source.extract_filenames())
    target = source if out is None else archive(h, out, 'out')
    man = csvmanager.CSVManager(source)
    del nrmlnode.WRITTEN[:]
    if out is None:
        names = man.convert_to_nrml()
    else:
        names = man.convert_to_nrml(target)
    target.close()
    h.check(len(names) == len(kinds), 'a name for each prefix', names)
    exp = sorted(p + '.xml' for p in prefixes)
    h.check(sorted(os.path.basename(n) for n in names) == exp,
            'the names of the files', names)
    h.check(sorted(target.extract_filenames()) == sorted(
        exp + (before if out is None else [])), 'the files written')
    if out is not None:
        h.check(sorted(source.extract_filenames()) == before,
                'the input archive is left alone')
    for prefix, node in zip(prefixes, models):
        text = target.open(prefix + '.xml').read()
        found = [n for i, (n, f) in enumerate(nrmlnode.WRITTEN)
                 if text == '<nrml %d>' % (i + 1)]
        h.check(len(found) == 1, 'the content of the file', text)
        nodetree.compare(h, found[0], node, prefix, WORDS)
    # a single model can be extracted only if there is one prefix
    o = h.outcome(csvmanager.CSVManager(source).convert_to_node)
    if len(kinds) == 0:
        h.check(o[0] == 'exc' and isinstance(
            o[1], csvmanager.NotInArchive), 'no models', o[1])
    elif len(kinds) > 1:
        h.check(o[0] == 'exc' and isinstance(
            o[1], csvmanager.MultipleManagerError), 'several models', o[1])
    h.reach('done')


def nomodel(h, arc):
    """Files of other kinds are not a model."""
    source = archive(h, arc)
    if h.flag('some'):
        with source.open(h.pick('name', ['x.csv', 'p__q.csv', 'x.xml'] + STRAY),
                         'w') as f:
            f.write('something')
    o = h.outcome(csvmanager.CSVManager(source, 'x').convert_to_node)
    h.check(o[0] == 'exc' and isinstance(o[1], csvmanager.NotInArchive),
            'no models', o[1])
    h.check(csvmanager.CSVManager(source).convert_to_nrml() == [],
            'nothing to convert')
    h.reach('done')


def manyrecords(h, arc):
    """Records are written one at a time in the files of their types."""
    a = archive(h, arc)
    man = csvmanager.CSVManager(a, 'p')
    recs = []
    with man:
        for i in range(4):
            if h.flag('kind%d' % i):
                rec = records.FFLimitStateDiscrete(h.tok('ls%d' % i))
            else:
                rec = records.FFDataDiscrete(
                    h.tok('ls%d' % i), '1', h.tok('iml%d' % i), '0.5')
            recs.append(rec)
            man.write(rec)
    check_files(h, a, 'p', grouped(recs))
    for rt in (records.FFLimitStateDiscrete, records.FFDataDiscrete):
        exp = [list(r) for r in recs if isinstance(r, rt)]
        if exp:
            got = csvmanager.CSVManager(a, 'p').read(rt)
            h.check(h.same([list(r) for r in got], exp), 'read', exp)
    h.reach('done')


def fromfile(h):
    """The prefix is the name of the file."""
    kind = h.pick('kind', ['vulnerability', 'population'])
    node = model(h, kind)
    groups = grouped(converter.Converter.from_node(node).node_to_records(
        node))
    name = nodetree.publish(h.pick('dir', ['', 'a/', '/b/c.d/']) +
                            h.pick('name', ['x.xml', 'y.z.xml']), node)
    prefix = os.path.basename(name)[:-4]
    a = archive(h, 'mem')
    man = csvmanager.CSVManager(a)
    man.convert_from_nrml(name)
    check_files(h, a, prefix, groups)
    nodetree.compare(h, csvmanager.CSVManager(a, prefix).convert_to_node(),
                     make_copy(node), '', WORDS)
    h.reach('done')
