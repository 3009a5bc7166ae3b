import os
import zipfile
from openquake.commonlib import csvmanager

BOUNDS = ('in-memory, directory and zip archives; histories of 3 (thorough '
          '4) operations (write, read, read in part, contains, list)'
          ' on 2 names of 1 or 2 arbitrary characters, equal or '
          'different or one prefix of the other, with contents of up to 2 '
          'arbitrary lines and prefixes of up to 2 characters; then the '
          'archive is closed with files still open for reading and writing; '
          'files of up to 3 lines read in every way; 8 names with characters '
          'special for patterns and shells; names with folders')
OUTSIDE = ('other longer names and histories; reading a file while it is being written; '
           'names with folders on the disk; concurrent use')
ASSUMES = ['characters of the names are in the alphabet "ab"']


def jobs(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for kind in ('mem', 'dir', 'zip'):
        for first in range(4):
            for second in range(5):
                if first != 0 and second != 0:
                    continue
                out.append(('history', dict(kind=kind, k=k, first=first,
                                            second=second), ['done']))
        out.append(('left', dict(kind=kind), ['done']))
        out.append(('missing', dict(kind=kind), ['done']))
        out.append(('special', dict(kind=kind), ['done']))
        out.append(('lines', dict(kind=kind), ['done']))
    out.append(('absent', {}, ['refused']))
    out.append(('initial', {}, ['done']))
    out.append(('kinds', {}, ['done']))
    out.append(('reopened', {}, ['done']))
    out.append(('fresh', {}, ['done']))
    for kind in ('mem', 'zip'):
        out.append(('updated', dict(kind=kind), ['done']))
    for kind in ('mem', 'zip'):
        out.append(('folders', dict(kind=kind), ['done']))
    return out


def make(h, kind):
    base = h.scratch()
    if kind == 'mem':
        return csvmanager.MemArchive([])
    if kind == 'dir':
        return csvmanager.DirArchive(os.path.join(base, 'arc'), 'w')
    return csvmanager.ZipArchive(os.path.join(base, 'arc.zip'), 'w')


class State(object):
    """What the archive must contain"""
    def __init__(self):
        self.writes = []        # (name, content)

    def get(self, h, name):
        for n, c in reversed(self.writes):
            if h.Eq(n, name):
                return c
        return None

    def names(self, h):
        out = []
        for n, c in self.writes:
            if not h.Or(*[h.Eq(n, x) for x in out]):
                out.append(n)
        return out


def content(h, name):
    n = h.size('lines' + name, 0, 2) if name == '0' else 1
    return [h.tok('line%s_%d' % (name, i)) + '\n' for i in range(n)]


def check_read(h, arc, st, name):
    exp = st.get(h, name)
    o = h.outcome(arc.open, name)
    if exp is None:
        h.check(o[0] == 'exc', 'reading a missing name is an error')
        return None
    h.check(o[0] == 'ok', 'a stored name can be read', o[1])
    return exp, o[1]


def step(h, arc, st, op, i, names):
    if op == 3:
        return listing(h, arc, st, h.text('prefix%d' % i, 2, 1, 'ab'))
    name = names[h.size('which%d' % i, 0, 1) if i else 0]
    if op == 0:
        lines = content(h, str(i))
        f = arc.open(name, h.pick('mode%d' % i, ['w', 'w+'][:2 - i % 2]))
        for l in lines:
            f.write(l)
        f.close()
        f.close()
        st.writes.append((name, lines))
    elif op == 1:
        r = check_read(h, arc, st, name)
        if r:
            h.check(h.same(r[1].read(), ''.join(r[0])),
                    'the content last written', r[0])
            r[1].close()
    elif op == 2:
        exp = st.get(h, name)
        got = name in arc
        h.check(bool(got) == (exp is not None),
                'contained exactly if stored', got, exp)
    elif op == 4:
        # the file is left open
        r = check_read(h, arc, st, name)
        if r:
            lines = r[0]
            h.check(h.same(r[1].readline(), (lines + [''])[0]),
                    'the first line', lines)
            return r[1]


def listing(h, arc, st, prefix):
    got = list(arc.extract_filenames(prefix))
    exp = [n for n in st.names(h) if n.startswith(prefix)]
    h.check(len(got) == len(exp), 'number of names', got, exp)
    for n in exp:
        h.check(h.Or(*[h.Eq(n, g) for g in got]), 'a name is listed', n, got)


def finish(h, arc, kind, st, names, opened, check_names=True):
    arc.close()
    if kind != 'mem':
        for f in opened:
            h.check(f.closed, 'the files are closed with the archive')
    for name in names:
        r = check_read(h, arc, st, name)
        if r:
            h.check(h.same(r[1].read(), ''.join(r[0])),
                    'the content after closing', r[0])
            r[1].close()
    if check_names:
        listing(h, arc, st, '')
    if kind == 'zip':
        arc.zip.close()
        z = zipfile.ZipFile(arc.name)
        h.check(len(z.namelist()) == len(st.writes),
                'a file is stored once', z.namelist())
        for name in names:
            exp = st.get(h, name)
            if exp is not None:
                h.check(h.same(z.read(name), ''.join(exp)),
                        'the content of the zip file', exp)
        z.close()


def history(h, kind, k, first, second):
    arc = make(h, kind)
    st = State()
    names = [h.text('name%d' % i, 2, 1, 'ab') for i in range(2)]
    opened = []
    for i in range(k):
        op = [first, second][i] if i < 2 else h.size('op%d' % i, 0, 4)
        f = step(h, arc, st, op, i, names)
        if f is not None:
            opened.append(f)
    finish(h, arc, kind, st, names, opened)
    h.reach('done')


def left(h, kind):
    """Closing the archive stores the files still open for writing."""
    arc = make(h, kind)
    st = State()
    names = [h.text('name%d' % i, 1, 1, 'ab') for i in range(2)]
    h.assume(h.Not(h.Eq(names[0], names[1])))
    opened = []
    for i, name in enumerate(names):
        lines = content(h, str(i))
        f = arc.open(name, 'w')
        for l in lines:
            f.write(l)
        st.writes.append((name, lines))
        opened.append(f)
    if h.flag('early'):
        opened[h.size('which', 0, 1)].close()
    if h.flag('with'):
        with arc:
            pass
    finish(h, arc, kind, st, names, opened)
    h.reach('done')


def missing(h, kind):
    arc = make(h, kind)
    name = h.text('name', 2, 1, 'ab')
    h.check(h.outcome(arc.open, name)[0] == 'exc', 'missing')
    h.check(not (name in arc), 'not contained')
    h.check(list(arc.extract_filenames()) == [], 'nothing is listed')
    h.reach('done')


def initial(h):
    """An in-memory archive can be given the files."""
    st = State()
    items = []
    for i in range(h.size('n', 0, 2)):
        name = h.text('name%d' % i, 1, 1, 'ab')
        lines = content(h, str(i))
        items.append((name, ''.join(lines)))
        st.writes.append((name, lines))
    arc = csvmanager.MemArchive(items)
    finish(h, arc, 'mem', st, [n for n, c in items], [])
    h.reach('done')


def kinds(h):
    """The extension of the path tells the kind of archive."""
    base = h.scratch()
    x = h.text('x', 2, 1, 'ab.z')
    h.assume(not x.startswith('.'))  # a hidden file has no extension
    name = os.path.join(base, x + h.pick('ext', ['', '.zip', '.zi', 'zip']))
    try_zip = name.endswith('.zip')
    arc = csvmanager.mkarchive(name, 'w')
    if try_zip:
        h.check(isinstance(arc, csvmanager.ZipArchive), 'zip archive')
    else:
        h.check(isinstance(arc, csvmanager.DirArchive), 'directory')
    h.check(h.same(arc.name, name), 'name of the archive', arc.name)
    h.reach('done')


def reopened(h):
    """An archive on the disk can be opened again and extended."""
    kind = h.pick('kind', ['dir', 'zip'])
    base = h.scratch()
    path = os.path.join(base, 'arc' if kind == 'dir' else 'arc.zip')
    st = State()
    names = [h.text('name%d' % i, 1, 1, 'ab') for i in range(2)]
    for i, name in enumerate(names):
        arc = csvmanager.mkarchive(path, 'a' if i else 'w')
        lines = content(h, str(i))
        with arc:
            f = arc.open(name, 'w')
            f.write(''.join(lines))
        st.writes.append((name, lines))
        if kind == 'zip':
            arc.zip.close()
    arc = csvmanager.mkarchive(path, 'r')
    finish(h, arc, kind, st, names, [])
    h.reach('done')


def fresh(h):
    """A zip archive opened for writing starts empty; it is extended if it
    is opened for reading and writing"""
    path = os.path.join(h.scratch(), h.pick('name', ['arc.zip', 'a.b.zip']))
    st = State()
    names = [h.text('name%d' % i, 1, 1, 'ab') for i in range(2)]
    h.assume(h.Not(h.Eq(names[0], names[1])))
    for i, name in enumerate(names):
        mode = h.pick('mode', ['w', 'a', 'r+']) if i else 'w'
        arc = csvmanager.mkarchive(path, mode)
        if mode == 'w':
            del st.writes[:]
        listing(h, arc, st, '')
        lines = content(h, str(i))
        with arc:
            f = arc.open(name, 'w')
            f.write(''.join(lines))
        st.writes.append((name, lines))
        arc.zip.close()
    finish(h, csvmanager.mkarchive(path, 'r'), 'zip', st, names, [])
    h.reach('done')


def updated(h, kind):
    """What is written in a file open for update is stored."""
    arc = make(h, kind)
    st = State()
    for i in range(2):
        lines = content(h, str(i + 1))
        f = arc.open('x', h.pick('mode%d' % i, ['r+', 'w', 'w+']))
        for line in lines:
            f.write(line)
        f.close()
        st.writes.append(('x', lines))
    finish(h, arc, kind, st, ['x'], [])
    h.reach('done')


def folders(h, kind):
    """The names can have folders, except on the disk"""
    arc = make(h, kind)
    st = State()
    names = ['d/x', 'x', 'e/x', 'd/e/x']
    for i in range(3):
        name = h.pick('name%d' % i, names)
        if st.get(h, name) is not None:
            continue
        lines = content(h, str(i))
        with arc.open(name, 'w') as f:
            f.write(''.join(lines))
        st.writes.append((name, lines))
    for prefix in ('', 'd', 'd/', 'd/e', 'x', '/'):
        listing(h, arc, st, prefix)
    for name in names:
        h.check((name in arc) == (st.get(h, name) is not None),
                'contained exactly if stored', name)
    finish(h, arc, kind, st, names, [])
    h.reach('done')


NAMES = ['a.b__X.csv', 'aXb__X.csv', 'A.B__x.CSV', 'a+b[c]*', '.ab', 'a b',
         '(a', 'a\\b']


def special(h, kind):
    """Characters which are special for patterns, shells or programs have no
    meaning in the names; the case matters"""
    arc = make(h, kind)
    st = State()
    k = h.size('first', 0, len(NAMES) - 1)
    for i in range(3):
        name = NAMES[(k + i * i) % len(NAMES)]
        lines = content(h, str(i + 1))
        with arc.open(name, 'w') as f:
            for line in lines:
                f.write(line)
        st.writes.append((name, lines))
    for prefix in ('', 'a', 'a.', 'a.b', 'a+', 'a+b[c]*', '.', '(', 'A', 'a ',
                   'a\\', 'b', 'a*'):
        listing(h, arc, st, prefix)
    for name in NAMES:
        h.check((name in arc) == (st.get(h, name) is not None),
                'contained exactly if stored', name)
    finish(h, arc, kind, st, NAMES, [])
    h.reach('done')


def lines(h, kind):
    """Reading line by line, in part or by iteration"""
    arc = make(h, kind)
    n = h.size('n', 0, 3)
    exp = [h.tok('line%d' % i) + '\n' for i in range(n)]
    if n and h.flag('last'):
        exp[-1] = exp[-1][:-1]     # without the end of the line
    with arc.open('x', 'w') as f:
        f.write(''.join(exp))
    for how in ('iter', 'readline', 'read',):
        f = arc.open('x')
        if how == 'iter':
            got = [line for line in f]
        elif how == 'readline':
            got = [f.readline() for line in exp]
            h.check(f.readline() == '', 'the end of the file')
        else:
            got = [f.read()]
            h.check(f.read() == '', 'the end of the file')
        f.close()
        if how in ('iter', 'readline'):
            h.check(len(got) == n, 'the lines', how)
            h.check(all(h.same(a, b) for a, b in zip(got, exp)),
                    'the lines', how)
        h.check(h.same(''.join(got), ''.join(exp)), 'the content', how)
    h.reach('done')


def absent(h):
    """A directory which does not exist is not an archive; nothing is
    created when it cannot be opened"""
    path = os.path.join(h.scratch(), h.pick('name', ['x', 'x.zip', 'y/x']))
    mode = h.pick('mode', ['r', 'a', 'r+', 'w'])
    exists = h.flag('exists')
    if exists and not path.endswith('.zip'):
        os.makedirs(path)
    o = h.outcome(csvmanager.mkarchive, path, mode)
    if path.endswith('.zip'):
        bad = mode == 'r'
    else:
        bad = not exists and (mode in ('r', 'a') or '/y/' in path)
    h.check((o[0] == 'exc') == bad, 'refused exactly if it cannot be', o)
    if bad:
        h.reach('refused')
        h.check(not os.path.exists(path), 'nothing is created')
    else:
        h.check(list(o[1].extract_filenames()) == [], 'empty')
        h.check(o[1].name == path, 'the name')
