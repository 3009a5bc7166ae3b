"""Loads the repository modules (and the stubs of missing libraries, the
harness and some library sources) as translated code."""
import builtins as B
import importlib
import os
import sys
import types
import zipfile
from . import engine as E
from . import frontend
from . import rt
from . import containers as C

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/usr/share/java/jython.jar'

# pure Python 3 modules which may be used natively
NATIVE = frozenset('''functools types contextlib numbers textwrap bisect heapq
warnings weakref threading fractions pprint keyword platform getpass locale
codecs errno stat array struct unicodedata hashlib base64 binascii json gc
'''.split())
FROM_JAR = frozenset('ConfigParser posixpath genericpath UserDict fnmatch '
                     'glob UserList '.split())


def scan(root, pkg, out):
    for fn in sorted(os.listdir(root)):
        p = os.path.join(root, fn)
        if os.path.isdir(p):
            if fn in ('tests', '__pycache__') or fn.startswith('.'):
                continue
            init = os.path.join(p, '__init__.py')
            name = pkg + fn
            if os.path.exists(init):
                out[name] = init
            else:
                out.setdefault(name, None)
            scan(p, name + '.', out)
        elif fn.endswith('.py') and fn != '__init__.py':
            out[pkg + fn[:-3]] = p


def modmap(repo):
    """module name -> path, for the repository and the stubs."""
    m = {}
    scan(os.path.join(VERIF, 'stubs'), '', m)
    r = {}
    scan(os.path.join(repo, 'openquake'), 'openquake.', r)
    m.update(r)
    m['openquake'] = None         # namespace package (pkg_resources)
    b = os.path.join(repo, 'bin')
    if os.path.isdir(b):
        for fn in os.listdir(b):
            if fn.endswith('.py'):
                m['oqbin_' + fn[:-3]] = os.path.join(b, fn)
    return m


class Loader(object):
    def __init__(self, repo, jy):
        self.repo = repo
        self.jy = jy
        self.map = modmap(repo)
        self.modules = {}
        self.trees = {}
        self.src_cache = {}
        self.builtins = rt.make_builtins(self.importer, self.opener,
                                         None)
        self.builtins['_StopIteration'] = StopIteration
        from . import models
        self.models = models
        self.fs = models.FS()
        self.repo_modules = []
        self.snap = None

    def opener(self, path, mode='r', *a):
        return self.models.open_file(self.fs, path, mode)

    # ------------------------------------------------------------ parsing
    def parse_path(self, path):
        if path not in self.trees:
            r = self.jy.request({'cmd': 'parse', 'path': path})
            if 'error' in r:
                raise SyntaxError('%s: %s' % (path, r['error']))
            self.trees[path] = r['tree']
        return self.trees[path]

    def parse_src(self, src):
        if src not in self.src_cache:
            r = self.jy.request({'cmd': 'parse', 'src': src})
            if 'error' in r:
                raise SyntaxError(r['error'])
            self.src_cache[src] = r['tree']
        return self.src_cache[src]

    def exec_source(self, code, g, l=None):
        key = ('code', code)
        if key not in self.src_cache:
            self.src_cache[key] = frontend.translate(
                self.parse_src(code), g.get('__name__', 'exec') or 'exec',
                '<exec>')
        ns = dict(g) if isinstance(g, C.PyDict) else g
        if isinstance(g, C.PyDict):
            ns = dict(g.items())
        self.prepare(ns)
        if l is None:
            exec(self.src_cache[key], ns)
        else:
            ll = dict(l.items())
            exec(self.src_cache[key], ns, ll)
            for k, v in ll.items():
                l[k] = v
        if isinstance(g, C.PyDict):
            for k, v in ns.items():
                if k not in ('__builtins__', '_rt'):
                    g[k] = v

    def prepare(self, ns):
        ns['__builtins__'] = self.builtins
        ns['_rt'] = rt

    # ------------------------------------------------------------ imports
    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if not isinstance(name, str):
            name = name.concrete()
        if level and level > 0:
            pkg = (globals or {}).get('__package__') or ''
            if not (globals or {}).get('__path__') and not pkg:
                pkg = (globals or {}).get('__name__', '').rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            self.load('.'.join(parts[:i]))
        if not fromlist:
            return self.modules[parts[0]]
        mod = self.modules[name]
        for f in fromlist:
            if f != '*' and not hasattr(mod, f) and name + '.' + f in \
                    self.map:
                self.load(name + '.' + f)
        return mod

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.map:
            m = self._load_file(name, self.map[name])
        elif name in self.models.MODULES:
            m = types.ModuleType(name)
            self.modules[name] = m
            self.models.MODULES[name](self, m)
        elif name in FROM_JAR:
            m = self._load_jar(name)
        elif name in NATIVE:
            m = importlib.import_module(name)
            self.modules[name] = m
        else:
            raise ImportError('No module named %s' % name)
        m = self.modules.get(name, m)
        if '.' in name:
            par, _, last = name.rpartition('.')
            if par in self.modules:
                setattr(self.modules[par], last, m)
        return m

    def _load_file(self, name, path):
        mod = types.ModuleType(name)
        self.modules[name] = mod
        mod.__file__ = path
        ns = mod.__dict__
        if path is None or path.endswith('__init__.py'):
            mod.__path__ = []
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition('.')[0]
        if path is None:
            return mod
        self.prepare(ns)
        try:
            code = frontend.translate(self.parse_path(path), short(name),
                                      path)
            exec(code, ns)
        except BaseException:
            self.modules.pop(name, None)
            raise
        self.repo_modules.append(mod)
        return mod

    def _load_jar(self, name):
        z = zipfile.ZipFile(JAR)
        src = z.read('Lib/%s.py' % name).decode('latin1')
        mod = types.ModuleType(name)
        self.modules[name] = mod
        self.prepare(mod.__dict__)
        code = frontend.translate(self.parse_src(src), 'lib.' + name,
                                  'Lib/%s.py' % name)
        exec(code, mod.__dict__)
        return mod

    def load_harness(self, paths):
        mod = types.ModuleType('vfharness')
        self.modules['vfharness'] = mod
        self.prepare(mod.__dict__)
        for p in paths:
            mod.__file__ = p
            code = frontend.translate(self.parse_path(p), '!harness', p)
            exec(code, mod.__dict__)
        self.repo_modules.append(mod)
        return mod

    # ------------------------------------------ state between explored paths
    def snapshot(self):
        self.snap = Snapshot(self.repo_modules)

    def restore(self):
        if self.snap is not None:
            self.snap.restore()


def short(name):
    return name.replace('openquake.commonlib.', '')


class Snapshot(object):
    """Contents of every mutable object reachable from the loaded modules
    (module globals, class attributes, default arguments, containers and
    plain objects), restored before each path."""

    def __init__(self, mods):
        self.seen = {}
        self.saved = []
        self.names = set(m.__name__ for m in mods)
        for m in mods:
            self.saved.append(('mod', m, dict(m.__dict__)))
            for k, v in list(m.__dict__.items()):
                if k not in ('__builtins__', '_rt'):
                    self.walk(v)

    def walk(self, x):
        t = type(x)
        if t in (int, str, float, bool, type(None)) or id(x) in self.seen:
            return
        if isinstance(x, types.ModuleType):
            return
        self.seen[id(x)] = x
        if isinstance(x, (classmethod, staticmethod)):
            x = x.__func__
            t = type(x)
        if isinstance(x, types.FunctionType):
            for d in x.__defaults__ or ():
                self.walk(d)
            for d in (x.__kwdefaults__ or {}).values():
                self.walk(d)
            self.walk(x.__dict__)
            for c in x.__closure__ or ():
                try:
                    self.walk(c.cell_contents)
                except ValueError:
                    pass
            return
        if isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                if f is not None:
                    self.walk(f)
            return
        if isinstance(x, type):
            if x.__module__ in self.names:
                d = dict(x.__dict__)
                self.saved.append(('cls', x, d))
                for k, v in d.items():
                    if not k.startswith('__') or k == '__init__':
                        self.walk(v)
                for b in x.__mro__[1:]:
                    self.walk(b)
            return
        if hasattr(t, '__mro__') and type(getattr(x, '_st', None)).__name__ == 'Store':
            st = x._st
            self.saved.append(('store', st, [
                (e, e.k, e.v) for e in st.ents.values()]))
            for e in list(st.ents.values()):
                self.walk(e.k)
                self.walk(e.v)
            return
        if t is list:
            self.saved.append(('list', x, list(x)))
            for y in x:
                self.walk(y)
            return
        if t is tuple:
            for y in x:
                self.walk(y)
            return
        if t is dict:
            self.saved.append(('dict', x, dict(x)))
            for y in list(x.values()):
                self.walk(y)
            return
        mod = getattr(t, '__module__', None)
        if mod in self.names:
            d = getattr(x, '__dict__', None)
            if type(d) is dict:
                self.saved.append(('obj', x, dict(d)))
                for y in list(d.values()):
                    self.walk(y)

    def restore(self):
        for kind, x, s in self.saved:
            if kind == 'list':
                if len(x) != len(s) or any(a is not b
                                           for a, b in zip(x, s)):
                    x[:] = s
            elif kind == 'dict':
                if x != s:
                    x.clear()
                    x.update(s)
            elif kind == 'obj':
                d = x.__dict__
                if len(d) != len(s) or any(d.get(k, x) is not v
                                           for k, v in s.items()):
                    d.clear()
                    d.update(s)
            elif kind == 'store':
                ok = len(x.ents) == len(s)
                if ok:
                    for (e, k, v), e2 in zip(s, x.ents.values()):
                        if e is not e2 or e.v is not v:
                            ok = False
                            break
                if not ok:
                    x.clear()
                    for e, k, v in s:
                        e.v = v
                        x.ents[id(e)] = e
                        if C.has_sym(k):
                            x.nsym += 1
                        else:
                            x.idx[k] = e
            elif kind == 'mod':
                d = x.__dict__
                for k in list(d):
                    if k not in s:
                        del d[k]
                    elif d[k] is not s[k]:
                        d[k] = s[k]
                for k in s:
                    if k not in d:
                        d[k] = s[k]
            elif kind == 'cls':
                d = x.__dict__
                for k in list(d):
                    if k not in s:
                        if not k.startswith('_abc'):
                            delattr(x, k)
                    elif d[k] is not s[k] and not k.startswith('__') and \
                            not k.startswith('_abc'):
                        type.__setattr__(x, k, s[k])
