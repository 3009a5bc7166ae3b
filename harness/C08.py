import os
from openquake.commonlib import converter, csvmanager
from openquake.nrmllib import node as nrmlnode

import nodetree

script = None

BOUNDS = ('archives of CSV files (directories and zip files) with one or two '
          'models of up to 2 records, valid or not, and NRML '
          'files with valid and invalid numbers; output to the same archive, '
          'to a directory or to a zip file; no limit and limits from -1 to 2')
OUTSIDE = ('larger archives; input which does not exist; an output directory '
           'which does not exist (for CSV input it is refused)')
ASSUMES = ['nrmllib writes a node in the file it is given']

LIMITS = [None, '0', '1', '2', '-1']
HEADERS = {'Exposure': 'id,category,taxonomySource,description,area_type,'
           'area_unit,deductible_is_absolute,insurance_limit_is_absolute',
           'Location': 'id,lon,lat',
           'Asset': 'location_id,asset_ref,taxonomy,number,area',
           'Occupancy': 'asset_ref,period,occupants'}


def jobs(tier):
    out = []
    for arc in ('dir', 'zip'):
        for output in (None, 'dir', 'zip'):
            out.append(('fromcsv', dict(arc=arc, output=output, n=1,
                                        two=False), ['written', 'refused']))
        out.append(('fromcsv', dict(arc=arc, output=None, n=2, two=False),
                    ['written', 'refused']))
        out.append(('fromcsv', dict(arc=arc, output='dir', n=1, two=True),
                    ['written', 'refused']))
        if tier != 'quick':
            out.append(('fromcsv', dict(arc=arc, output='zip', n=2,
                                        two=True), ['written', 'refused']))
    for output in ('dir', 'zip'):
        for n in (1, 2):
            out.append(('fromxml', dict(output=output, n=n),
                        ['valid', 'invalid']))
    out.append(('nooutput', {}, ['refused']))
    return out


def run(h, *args):
    script = h.load('oqbin_NRMLconvert')
    o = h.outcome(script.main, *args)
    h.close_zips()
    return o


def archive(h, kind, name, mode='w'):
    path = os.path.join(h.scratch(), name + ('.zip' if kind == 'zip'
                                             else ''))
    return path


def exposure(h, p, n):
    """CSV files of an exposure of population; the invalid rows"""
    assets, locs, occs, bad = [], [], [], []
    for i in range(n):
        lon = h.real('lon%s%d' % (p, i))
        number = h.real('number%s%d' % (p, i))
        ref = 'a%d' % i
        locs.append([str(i + 1), h.numtext(lon), '%d.0' % i])
        assets.append([str(i + 1), ref, h.tok('tax%s%d' % (p, i)),
                       h.numtext(number), ''])
        bad.append((0, i, 'lon', h.And(lon >= -180, lon <= 180)))
        bad.append((1, i, 'number', number >= 0))
    occ = h.real('occ' + p)
    occs.append(['a0', h.tok('period' + p), h.numtext(occ)])
    bad.append((2, 0, 'occupants', occ >= 0))
    files = [('Exposure', [[h.tok('id' + p), 'population', 'src',
                            h.tok('descr' + p), '', '', '', '']]),
             ('Location', locs), ('Asset', assets), ('Occupancy', occs)]
    names = ['Location', 'Asset', 'Occupancy']
    bad = [('%s__%s.csv' % (p, names[t]), i, f, ok) for t, i, f, ok in
           sorted(bad, key=lambda b: b[:2])]
    return files, bad


COLUMNS = {'lon': 1, 'number': 3, 'occupants': 2}


def line(b):
    fname, row, field, ok = b
    return '%s[%s]: %d,%d: ' % (fname, field, row, COLUMNS[field])


def check_printed(h, groups, limit):
    """
    One line for each invalid record, up to the limit, the records of each
    prefix in order. Returns their number.
    """
    text = h.stdout()
    lines = text.split('\n')[:-1]
    n = sum(map(len, groups))
    if limit is not None:
        n = min(n, max(1, int(limit)))
    h.check(len(lines) == n, 'a line for each invalid record', text)
    orders = [groups] + ([groups[::-1]] if len(groups) == 2 else [])
    h.check(any(all(l.startswith(line(b)) for l, b in zip(
        lines, sum(o, []))) for o in orders),
        'the invalid records are printed', text)
    return n


def check_exit(h, o, n):
    h.check(o[0] == 'exc' and isinstance(o[1], SystemExit),
            'the script exits with an error', o[1])
    h.check(isinstance(o[1].code, str) and str(n) in o[1].code.split(),
            'the number of invalid records', o[1].code)


def fromcsv(h, arc, output, n, two):
    path = archive(h, arc, h.pick('in', ['in', 'a.xml.in']) if n == 1 and
                   not two and output else 'in')
    inp = csvmanager.mkarchive(path, 'w')
    groups, models = [], []
    for p in ['m', 'x'][:2 if two else 1]:
        files, bad = exposure(h, p, n)
        for name, rows in files:
            with inp.open('%s__%s.csv' % (p, name), 'w') as f:
                f.write('\n'.join([HEADERS[name]] + map(','.join, rows)) +
                        '\n')
        groups.append(bad)
        models.append((p, dict(files)))
    before = sorted(inp.extract_filenames())
    inp.close()
    h.close_zips()
    outpath = None
    if output is not None:
        outpath = archive(h, output, 'out')
        if output == 'dir':
            os.mkdir(outpath)
    args = [path]
    limit = h.pick('limit', LIMITS[:3 if two else 5])
    if limit is not None:
        args += [outpath, limit]
    elif outpath is not None or h.flag('none'):
        args += [outpath]
    del nrmlnode.WRITTEN[:]
    o = run(h, *args)
    invalid = [[b for b in g if not b[3]] for g in groups]
    inp = csvmanager.mkarchive(path, 'r')
    names = sorted(inp.extract_filenames())
    if invalid != [[]] * len(groups):
        h.reach('refused')
        h.check(names == before, 'nothing is written from invalid records',
                names, limit)
        if output == 'dir':
            h.check(os.listdir(outpath) == [], 'nothing is written')
        elif output == 'zip':
            h.check(not os.path.exists(outpath), 'nothing is written')
        check_exit(h, o, check_printed(h, invalid, limit))
        return
    h.reach('written')
    h.check(o[0] == 'ok', 'valid records are converted', o[1])
    exp = [p + '.xml' for p, f in models]
    if outpath is None:
        h.check(names == sorted(before + exp), 'the files written', names)
        out = inp
    else:
        h.check(names == before, 'the input is left alone', names)
        out = csvmanager.mkarchive(outpath, 'r')
        h.check(sorted(out.extract_filenames()) == exp, 'the files written')
    for p, files in models:
        text = out.open(p + '.xml').read()
        found = [x for i, (x, f) in enumerate(nrmlnode.WRITTEN)
                 if text == '<nrml %d>' % (i + 1)]
        h.check(len(found) == 1, 'the content of the file', text)
        nodetree.compare(h, found[0], tree(files), p)
    h.close_zips()


def tree(files):
    exp = files['Exposure'][0]
    locs = dict((r[0], r[1:]) for r in files['Location'])
    nodes = []
    for loc, ref, tax, number, area in files['Asset']:
        sub = [nodetree.elem('location', {'lon': locs[loc][0],
                                          'lat': locs[loc][1]})]
        occs = [nodetree.elem('occupancy', {'period': r[1],
                                            'occupants': r[2]})
                for r in files['Occupancy'] if r[0] == ref]
        if occs:
            sub.append(nodetree.elem('occupancies', {}, occs))
        nodes.append(nodetree.elem('asset', {
            'id': ref, 'taxonomy': tax, 'number': number}, sub))
    return nodetree.elem('exposureModel', {
        'id': exp[0], 'category': exp[1], 'taxonomySource': exp[2]}, [
        nodetree.elem('description', {}, (), exp[3]),
        nodetree.elem('assets', {}, nodes)])


def xmlmodel(h, n):
    files, bad = exposure(h, 'x', n)
    return tree(dict(files)), bad, files


def fromxml(h, output, n):
    node, bad, files = xmlmodel(h, n)
    name = h.pick('name', ['some.xml', 'y.z.xml'])
    prefix = name[:-4]
    nodetree.publish('/some/where/' + name, node)
    outpath = archive(h, output, 'out')
    limit = h.pick('limit', LIMITS)
    args = ['/some/where/' + name, outpath]
    if limit is not None:
        args.append(limit)
    o = run(h, *args)
    bad = [(b[0].replace('x__', prefix + '__'),) + b[1:] for b in bad]
    invalid = [b for b in bad if not b[3]]
    # the CSV files of the model
    arc = csvmanager.mkarchive(outpath, 'r')
    h.check(sorted(arc.extract_filenames()) == sorted(
        '%s__%s.csv' % (prefix, t) for t, rows in files),
        'the files of the model')
    for t, rows in files:
        lines = arc.open('%s__%s.csv' % (prefix, t)).read().split('\r\n')
        h.check(lines[0] == HEADERS[t] and lines[-1] == '', 'header', lines)
        h.check(h.same(lines[1:-1], map(','.join, rows)), 'rows', t, lines)
    h.close_zips()
    if not invalid:
        h.reach('valid')
        h.check(o[0] == 'ok', 'a valid model is converted', o[1])
        return
    h.reach('invalid')
    total = len(invalid)
    if limit is not None:
        total = min(total, max(1, int(limit)))
    check_exit(h, o, total)
    lines = [l for l in h.stdout().split('\n')[:-1]
             if not l.startswith('Created ')]
    h.check(len(lines) == total, 'a line for each invalid record', lines)
    h.check(all(l.startswith(line(b)) for l, b in zip(lines, invalid)),
            'the invalid records are printed', lines)


def nooutput(h):
    """NRML files need an output archive"""
    node, bad, files = xmlmodel(h, 1)
    name = nodetree.publish('/some/where/a.xml', node)
    o = run(h, *h.pick('args', [[name], [name, ''], [name, None],
                                [name, '', '1']]))
    h.check(o[0] == 'exc' and isinstance(o[1], SystemExit) and o[1].code,
            'an output archive is required', o[1])
    h.reach('refused')
