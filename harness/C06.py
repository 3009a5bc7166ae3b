import os
from openquake.nrmllib import InvalidFile
from openquake.commonlib import csvmanager, records

BOUNDS = ('in-memory, directory and zip archives with up to 2 files of '
          'different record types of a model and up to 2 (thorough 3) rows '
          'in each, with arbitrary numbers, valid or not, and arbitrary '
          'texts; two prefixes; limits from 0 to 3 and no limit; arbitrary '
          'headers; names of many kinds with arbitrary prefixes')
OUTSIDE = ('larger files; rows with too many columns; files of different '
           'models with the same prefix; fields which need quotes (see C07)')
ASSUMES = ['the numbers are written in the canonical form, or are a word '
           'which is not a number']

LIMITS = [None, 0, 1, 2, 3]
HEADER = {
    'Location': 'id,lon,lat',
    'Exposure': 'id,category,taxonomySource,description,area_type,area_unit,'
    'deductible_is_absolute,insurance_limit_is_absolute',
    'Occupancy': 'asset_ref,period,occupants',
    'FFDataDiscrete': 'limitState,ffs_ordinal,iml,poe',
    'FFLimitStateDiscrete': 'limitState',
}


def jobs(tier):
    quick = tier == 'quick'
    out = []
    for kind in ('mem', 'dir', 'zip'):
        out.append(('rows', dict(kind=kind, nloc=1, nocc=1), ['done']))
    for nloc, nocc in ((0, 1), (1, 0), (0, 2), (2, 0), (0, 3)) + (
            () if quick else ((1, 2), (2, 1), (0, 4))):
        out.append(('rows', dict(kind='mem', nloc=nloc, nocc=nocc),
                    ['done']))
    for n in (1, 2):
        out.append(('fragility', dict(n=n), ['done']))
    out.append(('prefixes', dict(n=1), ['done']))
    out.append(('prefixes', dict(n=2), ['done']))
    for rt in ('Location', 'FFLimitStateDiscrete'):
        for n in range(5 if rt == 'Location' else 3):
            good = n == len(HEADER[rt].split(','))
            out.append(('header', dict(rt=rt, n=n), (
                ['accepted'] if good or not n else []) + (
                ['refused'] if n else [])))
    for i in range(len(NAMES)):
        out.append(('names', dict(i=i), ['done']))
    out.append(('short', {}, ['done']))
    out.append(('constraints', {}, ['done']))
    return out


def archive(h, kind, files):
    if kind == 'mem':
        return csvmanager.MemArchive(files)
    base = h.scratch()
    if kind == 'dir':
        arc = csvmanager.DirArchive(os.path.join(base, 'arc'), 'w')
    else:
        arc = csvmanager.ZipArchive(os.path.join(base, 'arc.zip'), 'w')
    for name, text in files:
        with arc.open(name, 'w') as f:
            f.write(text)
    return arc


def csvtext(rt, rows, eol='\n'):
    return eol.join([HEADER[rt]] + [','.join(r) for r in rows]) + eol


class Bad(object):
    """An invalid row"""
    def __init__(self, fname, rowno, fields, row):
        self.fname = fname
        self.rowno = rowno
        self.fields = fields
        self.row = row


def matches(h, exc, bad):
    return exc.fname == bad.fname and h.same(list(exc.record), bad.row) and \
        exc.rowno == bad.rowno and \
        [f for f, msg in exc.errorlist] == bad.fields


def verify(h, man, bad, limit):
    """The invalid records are the expected ones, in order"""
    got = list(man.find_invalid(limit))
    n = len(bad) if limit is None else min(limit, len(bad))
    h.check(len(got) == n, 'number of invalid records', len(got), len(bad),
            limit)
    for g, b in zip(got, bad):
        h.check(matches(h, g, b), 'an invalid record', g.fname, g.rowno,
                g.errorlist, b.fname, b.rowno, b.fields)


def number(h, name, lo, hi):
    """A text of a number and whether it is in the interval"""
    v = h.real(name)
    good = True
    if lo is not None:
        good = h.And(good, v >= lo)
    if hi is not None:
        good = h.And(good, v <= hi)
    return h.numtext(v), good


def location(h, prefix, i):
    lon, good1 = number(h, '%slon%d' % (prefix, i), -180, 180)
    lat, good2 = number(h, '%slat%d' % (prefix, i), -90, 90)
    num = h.pick('%sid%d' % (prefix, i), ['7', '-1', 'x'][:3 if i == 0
                                                         else 1])
    row = [num, lon, lat]
    return row, lambda: [f for f, ok in zip(
        ['id', 'lon', 'lat'], [num == '7', good1, good2]) if not ok]


def occupancy(h, prefix, i):
    text, good = number(h, '%socc%d' % (prefix, i), 0, None)
    row = [h.tok('%sref%d' % (prefix, i)), h.tok('%sper%d' % (prefix, i)),
           text]
    return row, lambda: [] if good else ['occupants']


def invalid(fname, pairs):
    out = []
    for i, (row, errors) in enumerate(pairs):
        fields = errors()
        if fields:
            out.append(Bad(fname, i, fields, row))
    return out


def rows(h, kind, nloc, nocc):
    locs = [location(h, '', i) for i in range(nloc)]
    occs = [occupancy(h, '', i) for i in range(nocc)]
    eol = h.pick('eol', ['\n', '\r\n'])
    files = []
    if nocc:
        files.append(('p__Occupancy.csv', csvtext(
            'Occupancy', [r for r, e in occs], eol)))
    if nloc or h.flag('empty'):
        files.append(('p__Location.csv', csvtext(
            'Location', [r for r, e in locs], eol)))
    man = csvmanager.CSVManager(archive(h, kind, files))
    bad = invalid('p__Location.csv', locs) + invalid(
        'p__Occupancy.csv', occs)
    verify(h, man, bad, h.pick('limit', LIMITS))
    # searching again, or elsewhere, gives the same
    verify(h, man, bad, None)
    verify(h, csvmanager.CSVManager(man.archive), bad, None)
    h.reach('done')


def fragility(h, n):
    pairs = []
    for i in range(n):
        poe, good = number(h, 'poe%d' % i, 0, 1)
        iml = h.pick('iml%d' % i, ['0.5', '', 'x'][:3 - i])
        num = h.pick('num%d' % i, ['1', '1.5'][:2 - i])
        row = [h.tok('ls%d' % i), num, iml, poe]

        def errors(good=good, iml=iml, num=num):
            return [f for f, ok in zip(
                ['ffs_ordinal', 'iml', 'poe'],
                [num == '1', iml == '0.5', good]) if not ok]
        pairs.append((row, errors))
    files = [
        ('m__FFDataDiscrete.csv', csvtext('FFDataDiscrete',
                                          [r for r, e in pairs])),
        ('m__FFLimitStateDiscrete.csv', csvtext(
            'FFLimitStateDiscrete', [[h.tok('state')]]))]
    man = csvmanager.CSVManager(archive(h, 'mem', files))
    verify(h, man, invalid('m__FFDataDiscrete.csv', pairs),
           h.pick('limit', LIMITS))
    h.reach('done')


def prefixes(h, n):
    """Two models in the same archive: each one is searched."""
    files, groups = [], []
    for p in ('a', 'b'):
        occs = [occupancy(h, p, i) for i in range(n)]
        fname = p + '__Occupancy.csv'
        files.append((fname, csvtext('Occupancy', [r for r, e in occs])))
        groups.append((fname, occs))
    man = csvmanager.CSVManager(archive(h, 'mem', files))
    bad = [invalid(f, o) for f, o in groups]
    limit = h.pick('limit', LIMITS)
    got = list(man.find_invalid(limit))
    total = len(bad[0]) + len(bad[1])
    h.check(len(got) == (total if limit is None else min(limit, total)),
            'number of invalid records', len(got), total, limit)

    def ok(exp):
        return all(matches(h, g, b) for g, b in zip(got, exp))
    h.check(ok(bad[0] + bad[1]) or ok(bad[1] + bad[0]),
            'the invalid records of each prefix')
    h.reach('done')


def constraints(h):
    """Only the single fields are reported, not the constraints between
    them."""
    pairs = []
    for i in range(2):
        area = h.pick('area%d' % i, ['', 'per_asset', 'other'][:3 - i])
        unit = h.pick('unit%d' % i, ['', 'm2'])
        row = ['x%d' % i, 'buildings', 's', 'd', area, unit, '', '']
        pairs.append((row, lambda area=area: (
            ['area_type'] if area == 'other' else [])))
    man = csvmanager.CSVManager(archive(h, 'mem', [
        ('p__Exposure.csv', csvtext('Exposure', [r for r, e in pairs]))]))
    verify(h, man, invalid('p__Exposure.csv', pairs),
           h.pick('limit', LIMITS[:3]))
    h.reach('done')


def header(h, rt, n):
    """A file with another header is refused"""
    names = HEADER[rt].split(',')
    cells = []
    for i in range(n):
        c = h.tok('cell%d' % i)
        if rt != 'Location' and i < len(names) and h.flag('same%d' % i):
            c = names[i]
        cells.append(c)
    good = len(cells) == len(names) and h.And(*[
        h.Eq(c, nm) for c, nm in zip(cells, names)])
    text = ','.join(cells)
    if n:
        text = text + '\n'
    man = csvmanager.CSVManager(archive(h, 'mem', [
        ('p__%s.csv' % rt, text)]))
    o = h.outcome(man.find_invalid)
    if o[0] == 'ok':
        h.reach('accepted')
        h.check(h.Or(n == 0, good), 'a different header is refused', cells)
        h.check(list(o[1]) == [], 'no records')
    else:
        h.check(isinstance(o[1], InvalidFile), 'InvalidFile', o[1])
        h.check(h.Not(good), 'the header is accepted', cells)
        h.reach('refused')


# name of the file after the prefix, does it take part?
NAMES = [('__Occupancy.csv', True), ('_Occupancy.csv', False),
         ('__Occupancy.txt', False), ('__Occupancy', False),
         ('__Occupancycsv', False), ('.csv', False), ('__x.csv', False),
         ('__q__Occupancy.csv', False), ('__occupancy.csv', False),
         ('__Node.csv', False), ('__Record.csv', False),
         ('__valid.csv', False), ('__.csv', False), ('__Occupancy.csv~',
                                                     False)]


def names(h, i):
    """Only the files of the record types take part."""
    suffix, part = NAMES[i]
    prefix = h.text('prefix', 2, 0, 'ab')
    other = h.text('other', 1, 1, 'cd')
    row = ['a', 'b', '-1.0']
    text = csvtext('Occupancy', [row])
    good, errors = occupancy(h, 'x', 0)
    files = [(prefix + suffix, text),
             (other + '__Occupancy.csv', csvtext('Occupancy', [good]))]
    if h.flag('swap'):
        files.reverse()
    man = csvmanager.CSVManager(archive(h, 'mem', files))
    got = list(man.find_invalid())
    bad = invalid(other + '__Occupancy.csv', [(good, errors)])
    if part:
        bad.append(Bad(prefix + suffix, 0, ['occupants'], row))
    h.check(len(got) == len(bad), 'only the files of records take part',
            got, prefix, suffix)
    for b in bad:
        h.check(len([g for g in got if h.same(g.fname, b.fname) and
                     h.same(list(g.record), b.row) and g.rowno == 0 and
                     [f for f, m in g.errorlist] == b.fields]) == 1,
                'an invalid record of a file', b.fname)
    h.reach('done')


def short(h):
    """The missing columns of a row are empty."""
    n = h.size('n', 0, 2)
    row = ['a', 'b', 'c'][:n]
    text = csvtext('Occupancy', [['x', 'y', '1.0'], row, ['x', 'z', '']])
    man = csvmanager.CSVManager(archive(h, 'mem', [
        ('p__Occupancy.csv', text)]))
    bad = [Bad('p__Occupancy.csv', 1, ['occupants'], row + [''] * (3 - n)),
           Bad('p__Occupancy.csv', 2, ['occupants'], ['x', 'z', ''])]
    verify(h, man, bad, None)
    h.reach('done')
