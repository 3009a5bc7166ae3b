import os
import StringIO
from openquake.commonlib import readini
import ltdoc

BOUNDS = ('up to 4 parameters in up to 2 sections, sites files of up to 4 '
          'rows, logic trees with up to 2 branch sets of up to 3 branches '
          '(4 paths in total), values and paths made of arbitrary words, '
          'also of several words or levels or empty, absolute or relative, logic '
          'trees in other folders, relative '
          'and absolute locations of the configuration file, upper and lower '
          'case keys, both separators')
OUTSIDE = ('longer files; the syntax of configuration files beyond plain '
           'sections and parameters (comments, continuation lines, '
           'interpolation, default sections); repeated parameters and '
           'parameters called inputs or base_path; the XML parser')
ASSUMES = ['the standard library module ConfigParser is executed as it is in '
           'the Jython distribution']


def jobs(tier):
    out = []
    for where in ('relative', 'nested', 'absolute'):
        for n in (0, 1, 2, 3):
            out.append(('plain', dict(n=n, where=where), ['parsed']))
        for n in (1, 2, 3):
            out.append(('files', dict(n=n, where=where), ['parsed']))
        out.append(('mixed', dict(where=where), ['parsed']))
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out.append(('characters', dict(n=n), ['parsed']))
    for n in (0, 1, 2, 3, 4):
        out.append(('sites', dict(n=n), ['parsed']))
    for sizes in ([1], [2], [3], [1, 1], [2, 2], [1, 2]) + (
            () if tier == 'quick' else ([3, 2], [4])):
        for types in ('same', 'other'):
            if types == 'other' and len(sizes) == 1:
                continue
            out.append(('logictree', dict(sizes=sizes, types=types),
                        ['parsed']))
    out.append(('spaces', {}, ['parsed']))
    for where in ('conf', 'conf/deep'):
        out.append(('apart', dict(where=where), ['parsed']))
    out.append(('everything', {}, ['parsed']))
    return out


def source(h, where, lines):
    """-> file-like object, directory of the configuration file"""
    src = StringIO.StringIO('\n'.join(lines) + '\n')
    if where == 'relative':
        src.name = 'job.ini'
        return src, os.getcwd()
    elif where == 'nested':
        src.name = 'path/to/job.ini'
        return src, os.path.join(os.getcwd(), 'path', 'to')
    src.name = os.path.join(h.scratch(), 'job.ini')
    return src, h.scratch()


def words(h, name, kind):
    """Some text made of words"""
    if kind == 0:
        return h.tok(name)
    elif kind == 1:
        return h.tok(name) + ' ' + h.tok(name + 'b') + ', 1.5'
    elif kind == 2:
        return '-0.5'
    return ''


def path_of(h, name, kind):
    if kind == 0:
        return h.tok(name)
    elif kind == 1:
        return 'models/' + h.tok(name) + '.xml'
    elif kind == 4:
        return ''
    elif kind == 3:
        return 'my models/' + h.tok(name) + ' 1.xml'
    return '/data/' + h.tok(name)


def agree(h, params, expected, inputs, base):
    h.reach('parsed')
    h.check(isinstance(params, dict), 'a dictionary')
    names = list(expected) + ['base_path', 'inputs']
    h.check(sorted(params) == sorted(names), 'every parameter')
    h.check(h.Eq(params['base_path'], base), 'the base path')
    for k in expected:
        h.check(h.Eq(params[k], expected[k]), 'the text of the parameter')
    got = params['inputs']
    h.check(isinstance(got, dict), 'the inputs are a dictionary')
    h.check(sorted(got) == sorted(inputs), 'every input')
    for k in inputs:
        h.check(h.Eq(got[k], inputs[k]), 'the path of the input')


KEYS = ['calculation_mode', 'REGION', 'Random_Seed', 'x', 'file', 'sites',
        'file_type', 'gmfs_FILES']


def rotated(h, names, n):
    """n consecutive names, starting anywhere"""
    k = h.size('first', 0, len(names) - 1)
    return [names[(k + i) % len(names)] for i in range(n)]


def plain(h, n, where):
    keys = rotated(h, KEYS, n)
    lines, expected = ['[general]'], {}
    sep = h.pick('sep', [' = ', '=', ': '])
    for i, k in zip(range(n), keys):
        if i == 1:
            lines.append('[other]')
        v = words(h, 'v%d' % i, h.size('kind%d' % i, 0, 3 if n < 3 else 1))
        lines.append(k + sep + v)
        expected[k.lower()] = v
    src, base = source(h, where, lines)
    agree(h, readini.parse_config(src), expected, {}, base)


def full(base, path):
    return path if path.startswith('/') else base + '/' + path


NAMES = ['site_model_file', 'EXPOSURE_FILE', 'x_file', 'file_file',
         'gsim_logic_tree_file', 'a_file_b_files_file', 'structural_vulnerability_FILE']


def files(h, n, where):
    keys = rotated(h, NAMES, n)
    lines, paths = ['[general]'], []
    for i, k in zip(range(n), keys):
        p = path_of(h, 'p%d' % i, h.size('kind%d' % i, 0, 4 if n < 3 else 3))
        lines.append(k + ' = ' + p)
        paths.append((k.lower()[:-5], p))
    src, base = source(h, where, lines)
    agree(h, readini.parse_config(src), {}, dict(
        [(k, full(base, p)) for k, p in paths]), base)


def mixed(h, where):
    lines, expected, inputs = ['[general]'], {}, []
    for i in range(4):
        if i == 2:
            lines.append('[other]')
        if h.flag('isfile%d' % i):
            p = path_of(h, 'p%d' % i, h.size('kind%d' % i, 0, 2))
            lines.append('k%d_file = ' % i + p)
            inputs.append(('k%d' % i, p))
        else:
            v = h.tok('v%d' % i)
            lines.append('k%d_fil = ' % i + v)
            expected['k%d_fil' % i] = v
    src, base = source(h, where, lines)
    agree(h, readini.parse_config(src), expected, dict(
        [(k, full(base, p)) for k, p in inputs]), base)


def characters(h, n):
    v = h.chars('v', n, 'aB1.-_/,(')
    p = 'x' + h.chars('p', n, 'aB1-_')
    src, base = source(h, 'absolute', [
        '[general]', 'key = ' + v, 'name_file = ' + p])
    agree(h, readini.parse_config(src), {'key': v},
          {'name': base + '/' + p}, base)


def write(path, text):
    f = open(path, 'w')
    f.write(text)
    f.close()


def put(h, path, text):
    """Writes a file, given its path relative to the scratch directory"""
    path = os.path.join(h.scratch(), path)
    if not os.path.exists(os.path.dirname(path)):
        os.mkdir(os.path.dirname(path))
    write(path, text)


def rows(h, n):
    coords = [(h.real('lon%d' % i, -180, 180, den=100),
               h.real('lat%d' % i, -90, 90, den=100)) for i in range(n)]
    return [(h.numtext(x), h.numtext(y)) for x, y in coords]


def multipoint(coords):
    text = ''
    for x, y in coords:
        text = text + (', ' if text else '') + x + ' ' + y
    return 'MULTIPOINT(' + text + ')'


def sites(h, n):
    coords = rows(h, n)
    lines = [x + ',' + y for x, y in coords]
    path = 'sites.csv'
    if n < 3 and h.flag('subdirectory'):
        path = 'data/sites.csv'
    put(h, path, ''.join([line + '\n' for line in lines]) if n else '')
    if h.flag('absolute'):
        path = h.scratch() + '/' + path
    src, base = source(h, 'absolute', [
        '[general]', 'SITES_CSV = ' + path, 'x=y'])
    agree(h, readini.parse_config(src), {
        'x': 'y', 'sites': multipoint(coords)}, {}, base)


def models(h, sizes, types, kinds, before='', after=''):
    """A logic tree -> the paths of the source models"""
    level, paths = [], []
    for i, size in zip(range(len(sizes)), sizes):
        branches = []
        for j in range(size):
            p = path_of(h, 'm%d_%d' % (i, j), kinds((i, j)))
            branches.append(ltdoc.branch(
                'b%d_%d' % (i, j), before + p + after, '0.5'))
            if types == 'same' or i == 0:
                paths.append(p)
        utype = 'sourceModel'
        if types != 'same' and i:
            utype = h.pick('utype', ['bGRRelative', 'gmpeModel',
                                     'sourceModels'])
        level.append([ltdoc.branchset(utype, {}, branches, 'bs%d' % i)])
    ltdoc.register('<lt/>', ltdoc.tree(level))
    return paths


def is_sources(h, got, paths, base):
    exp = [full(base, p) for p in paths]
    got = list(got)
    for i in range(len(got)):
        for j in range(i):
            h.check(h.Not(h.Eq(got[i], got[j])), 'no path twice')
    for e in exp:
        h.check(h.Or(*[h.Eq(g, e) for g in got]), 'every source model')
    for g in got:
        h.check(h.Or(*[h.Eq(g, e) for e in exp]), 'nothing else')
    return got


def with_tree(h, paths, path='lt.xml', others=()):
    put(h, path, '<lt/>')
    src, base = source(h, 'absolute', [
        '[general]', 'Source_Model_Logic_Tree_File = ' + path] + list(others))
    params = readini.parse_config(src)
    h.reach('parsed')
    got = params['inputs']
    h.check(h.Eq(got['source_model_logic_tree'], full(base, path)),
            'the logic tree')
    h.check('source' in got, 'the sources')
    return params, is_sources(h, got['source'], paths, base), base


def logictree(h, sizes, types):
    paths = models(h, sizes, types, lambda ij: 0)
    path = 'lt.xml'
    if len(paths) < 3 and h.flag('subdirectory'):
        path = 'trees/lt.xml'
    if h.flag('absolute'):
        path = h.scratch() + '/' + path
    params, got, base = with_tree(h, paths, path)
    h.check(sorted(params['inputs']) == [
        'source', 'source_model_logic_tree'], 'nothing else')
    for a, b in zip(got[:-1], got[1:]):
        h.check(a < b, 'sorted')


def apart(h, where):
    """The logic tree is not in the folder of the configuration file"""
    paths = models(h, [2], 'same', lambda ij: 2 * (ij[1] % 2))
    up = '/'.join(['..'] * len(where.split('/')))
    path = h.pick('path', [h.scratch() + '/lt.xml', up + '/lt.xml',
                           h.scratch() + '/trees/lt.xml',
                           up + '/trees/lt.xml'])
    put(h, 'trees/lt.xml' if 'trees' in path else 'lt.xml', '<lt/>')
    base = h.scratch()
    for part in where.split('/'):
        base = base + '/' + part
        os.mkdir(base)
    src = StringIO.StringIO(
        '[general]\nsource_model_logic_tree_file = %s\n' % path)
    src.name = base + '/job.ini'
    params = readini.parse_config(src)
    h.reach('parsed')
    got = params['inputs']
    h.check(os.path.normpath(got['source_model_logic_tree']) ==
            os.path.normpath(full(base, path)), 'the logic tree')
    h.check('source' in got, 'the sources')
    is_sources(h, got['source'], paths, base)


def spaces(h):
    kinds = dict([((0, j), h.size('kind%d' % j, 0, 3)) for j in range(2)])
    paths = models(h, [2], 'same', lambda ij: kinds[ij],
                   h.pick('before', ['', ' ', '\n   ']),
                   h.pick('after', ['', ' ', '\n\t']))
    with_tree(h, paths)


def everything(h):
    paths = models(h, [1], 'same', lambda ij: 1)
    coords = rows(h, 1)
    write(os.path.join(h.scratch(), 'sites.csv'),
          coords[0][0] + ',' + coords[0][1] + '\n')
    v, p = h.tok('v'), h.tok('p')
    params, got, base = with_tree(h, paths, 'lt.xml', [
        'sites_csv = sites.csv', '[other]', 'y = ' + v, 'z_file = ' + p])
    inputs = dict(params['inputs'])
    del inputs['source']
    params['inputs'] = inputs
    agree(h, params, {'sites': multipoint(coords), 'y': v}, {
        'z': base + '/' + p, 'source_model_logic_tree': base + '/lt.xml'},
        base)
