import os
import tempfile
from openquake.commonlib import general

BOUNDS = ('one to three files after each other in the same or in different '
          'directories (the default one, an existing one with a file in it, '
          'missing ones up to two levels deep); contents of up to 3 '
          'arbitrary characters, arbitrary words or none; any prefix and '
          'suffix out of 4')
OUTSIDE = ('longer contents (they are written in one piece); relative '
           'directories; directories which cannot be created')
ASSUMES = ['mkstemp creates a new empty file with the prefix and suffix '
           'asked for and leaves it open']


def jobs(tier):
    out = []
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out.append(('files', dict(n=n), ['written']))
    out.append(('texts', dict(n=3 if tier == 'quick' else 5), ['written']))
    return out


def opened(h):
    """Remember the descriptors given by mkstemp"""
    fds = []
    mkstemp = tempfile.mkstemp

    def remember(*a, **k):
        fd, path = mkstemp(*a, **k)
        fds.append(fd)
        return fd, path
    tempfile.mkstemp = remember
    return fds, mkstemp


def read(path):
    f = open(path)
    text = f.read()
    f.close()
    return text


def one(h, i, content):
    base = tempfile.tempdir
    where = h.pick('dir%d' % i, [None, '', 'there', 'missing', 'a/b']
                   if i == 0 else [None, 'there', 'a/b'])
    kw = {}
    folder = base
    if where is not None:
        folder = kw['dir'] = os.path.join(base, where) if where else base
    prefix, suffix = h.pick('name%d' % i, [
        (None, None), ('pre', '.csv'), ('', ''), ('x', None)][:2 if i else 4])
    if prefix is not None:
        kw['prefix'] = prefix
    if suffix is not None:
        kw['suffix'] = suffix
    if content is not None:
        kw['content'] = content
    before = os.listdir(folder) if os.path.exists(folder) else []
    path = general.writetmp(**kw)
    h.check(os.path.dirname(path) == folder, 'the directory', path)
    name = os.path.basename(path)
    h.check(name.startswith('tmp' if prefix is None else prefix) and
            name.endswith('tmp' if suffix is None else suffix),
            'the name of the file', name)
    h.check(sorted(os.listdir(folder)) == sorted(before + [name]),
            'one new file and nothing else', os.listdir(folder))
    return path


def prepare(h):
    tempfile.tempdir = h.scratch()
    there = os.path.join(h.scratch(), 'there')
    if not os.path.exists(there):
        os.makedirs(there)
    kept = os.path.join(there, 'tmpxtmp')
    f = open(kept, 'w')
    f.write('kept')
    f.close()
    return kept


def files(h, n):
    kept = prepare(h)
    fds, mkstemp = opened(h)
    try:
        wrote = []
        for i in range(n):
            kind = h.pick('content%d' % i, ['none', 'word', 'empty'][:2 if i else 3])
            content = {'none': None, 'empty': ''}.get(kind)
            if kind == 'word':
                content = h.tok('text%d' % i) + '\n'
            wrote.append((one(h, i, content), content or ''))
        for path, content in wrote:
            h.check(h.same(read(path), content), 'the content of the file')
        h.check(len(set([p for p, c in wrote])) == n, 'distinct files')
        h.check(read(kept) == 'kept', 'the files there are kept')
        for fd in fds:
            h.check(fd.closed(), 'the file is closed')
        h.reach('written')
    finally:
        tempfile.mkstemp = mkstemp
        tempfile.tempdir = None


def texts(h, n):
    prepare(h)
    try:
        content = h.text('content', n)
        if h.flag('by position'):
            path = general.writetmp(content)
        else:
            path = general.writetmp(content=content, dir=tempfile.tempdir)
        h.check(h.same(read(path), content), 'the content of the file')
        h.reach('written')
    finally:
        tempfile.tempdir = None
