"""Models of library modules for the symbolic side."""
import abc
import collections
import collections.abc as cabc
import copy
import decimal
import functools
import itertools
import math
import operator
import sys
import traceback
import types
import datetime
import io as _io
import z3
from . import engine as E
from . import values as V
from . import strings as S
from . import containers as C
from . import rt
from . import remodel
from .values import SymInt, SymReal, SymFP, SymBool, LogNum, SymBase
from .strings import SymStr

MODULES = {}


def model(*names):
    def deco(f):
        for n in names:
            MODULES[n] = f
        return f
    return deco


def fill(m, src, names):
    for n in names.split():
        if hasattr(src, n):
            setattr(m, n, getattr(src, n))


@model('re')
def _re(ld, m):
    fill(m, remodel, 'compile match search findall finditer sub split escape '
         'I IGNORECASE M MULTILINE DOTALL X VERBOSE error')
    m.S = m.DOTALL
    m.U = m.UNICODE = m.L = m.LOCALE = 0


def namedtuple(typename, fields, verbose=False, rename=False):
    if isinstance(fields, (str, SymStr)):
        fields = S.conc(fields)
    else:
        fields = [S.conc(f) for f in fields]
    cls = collections.namedtuple(S.conc(typename), fields, rename=rename)
    cls.__module__ = sys._getframe(1).f_globals.get('__name__', '__main__')

    def _asdict(self):
        return C.OrderedDict(zip(self._fields, self))
    cls._asdict = _asdict
    return cls


@model('collections')
def _collections(ld, m):
    m.namedtuple = namedtuple
    m.OrderedDict = C.OrderedDict
    m.defaultdict = C.DefaultDict
    m.deque = collections.deque
    m.Counter = C.Counter
    fill(m, cabc, 'Iterable Iterator Sequence MutableSequence Mapping '
         'MutableMapping Set MutableSet Sized Container Callable Hashable '
         'KeysView ValuesView ItemsView')
    m.Iterable = SymIterable
    m.Sequence = SymSequence
    m.Mapping = cabc.Mapping


class _IterMeta(abc.ABCMeta):
    def __instancecheck__(cls, x):
        # Python 2 strings have no __iter__ but are registered as Sequence
        return isinstance(x, (str, SymStr)) or isinstance(x, cabc.Iterable)


SymIterable = cabc.Iterable
SymSequence = cabc.Sequence


@model('itertools')
def _itertools(ld, m):
    fill(m, itertools, 'chain count cycle repeat islice groupby tee product '
         'permutations combinations combinations_with_replacement takewhile '
         'dropwhile starmap compress')
    m.izip = zip
    m.imap = lambda f, *s: map(f, *s) if f is not None else zip(*s)
    m.ifilter = filter
    m.ifilterfalse = itertools.filterfalse
    m.izip_longest = itertools.zip_longest


@model('operator')
def _operator(ld, m):
    for n in dir(operator):
        if not n.startswith('__'):
            setattr(m, n, getattr(operator, n))
    m.div = rt.div
    m.not_ = rt.not_
    m.mod = rt.mod
    m.lt, m.le, m.gt, m.ge = rt.lt, rt.le, rt.gt, rt.ge
    m.eq, m.ne = rt.eq, rt.ne
    m.contains = lambda a, b: rt.in_(b, a)
    m.isCallable = callable
    m.truediv = operator.truediv


def _real(x):
    if isinstance(x, (SymInt, SymBool)):
        return (x if isinstance(x, SymInt) else x.as_int()).toreal()
    return x


def m_ceil(x):
    if type(x) is V.SymCase:
        return V.case_lift(m_ceil, x)
    x = _real(x)
    if isinstance(x, SymReal):
        return SymReal(z3.simplify(z3.ToReal(x.ceil().t if isinstance(
            x.ceil(), SymInt) else z3.IntVal(x.ceil()))), 'float')
    if isinstance(x, SymFP):
        return SymFP(z3.fpRoundToIntegral(z3.RTP(), x.t))
    if isinstance(x, (int, float)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return x
        return float(math.ceil(x))
    f = rt.find_attr(type(x), '__float__')
    return float(math.ceil(float(x)))


def m_floor(x):
    if type(x) is V.SymCase:
        return V.case_lift(m_floor, x)
    x = _real(x)
    if isinstance(x, SymReal):
        f = x.floor()
        return SymReal(z3.ToReal(f.t if isinstance(f, SymInt)
                                 else z3.IntVal(f)), 'float')
    if isinstance(x, SymFP):
        return SymFP(z3.fpRoundToIntegral(z3.RTN(), x.t))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        return x
    return float(math.floor(x))


def m_log10(x):
    if isinstance(x, LogNum):
        return x.log10()
    if isinstance(x, (SymInt, SymReal, SymFP)):
        raise E.EngineError('log10 of a symbolic number')
    if x <= 0:
        raise ValueError('math domain error')
    return math.log10(x)


def m_isnan(x):
    if isinstance(x, SymFP):
        return x.isnan()
    if isinstance(x, (SymReal, SymInt)):
        return False
    return math.isnan(x)


def m_isinf(x):
    if isinstance(x, SymFP):
        return x.isinf()
    if isinstance(x, (SymReal, SymInt)):
        return False
    return math.isinf(x)


def m_fsum(seq):
    r = 0.0
    for x in seq:
        r = r + x
    return r


@model('math')
def _math(ld, m):
    def conc(f):
        def g(*a):
            return f(*[float(x) if isinstance(x, SymBase) else x for x in a])
        return g
    for n in dir(math):
        f = getattr(math, n)
        if callable(f):
            f = conc(f)
        setattr(m, n, f)
    m.ceil, m.floor, m.log10 = m_ceil, m_floor, m_log10
    m.isnan, m.isinf, m.fabs, m.fsum = m_isnan, m_isinf, abs, m_fsum
    for n in ('isfinite', 'inf', 'nan', 'isclose', 'gcd', 'prod', 'comb'):
        if hasattr(m, n):
            delattr(m, n)


@model('decimal')
def _decimal(ld, m):
    for n in dir(decimal):
        if not n.startswith('__'):
            setattr(m, n, getattr(decimal, n))
    m.Decimal = rt.PyDecimal


@model('copy')
def _copy(ld, m):
    m.copy, m.deepcopy, m.error = copy.copy, copy.deepcopy, copy.error
    m.Error = copy.Error


class PyABCMeta(abc.ABCMeta):
    def __new__(mcl, name, bases, ns, **kw):
        if isinstance(ns, C.PyDict) and type(ns) is not dict:
            ns = dict((str(k), ns[k]) for k in ns.keys())
        return super().__new__(mcl, str(name), tuple(bases), ns, **kw)


@model('abc')
def _abc(ld, m):
    m.ABCMeta = PyABCMeta
    m.abstractmethod = abc.abstractmethod
    m.abstractproperty = abc.abstractproperty


@model('types')
def _types(ld, m):
    for n in ('FunctionType', 'LambdaType', 'MethodType', 'GeneratorType',
              'ModuleType', 'BuiltinFunctionType'):
        setattr(m, n, getattr(types, n))
    m.StringType = m.StringTypes = m.UnicodeType = rt.PyStr
    m.StringTypes = (rt.PyStr,)
    m.ListType, m.TupleType, m.DictType = list, tuple, C.PyDict
    m.IntType, m.LongType = rt.PyInt, rt.PyLong
    m.FloatType = rt.PyFloat
    m.NoneType = type(None)
    m.TypeType = m.ClassType = rt.PyType
    m.BooleanType = rt.PyBool
    m.InstanceType = object


@model('sys')
def _sys(ld, m):
    m.modules = ld.modules
    m.argv = ['prog']
    m.path = []
    m.maxint = 2 ** 63 - 1
    m.maxsize = 2 ** 63 - 1
    m.version_info = (2, 7, 3, 'final', 0)
    m.version = '2.7.3'
    m.platform = 'java'
    m.byteorder = 'little'
    m.float_info = sys.float_info
    m.exc_info = sys.exc_info
    m.exc_clear = lambda: None
    m._getframe = sys._getframe
    m.getrecursionlimit = sys.getrecursionlimit
    m.executable = '/usr/bin/jython'

    def exit(code=None):
        raise SystemExit(code)
    m.exit = exit

    class _Stdout(object):
        def write(self, s):
            E.ENGINE.stdout.write(s)

        def flush(self):
            pass
    m.stdout = m.__stdout__ = _Stdout()

    class _Stderr(object):
        def write(self, s):
            pass

        def flush(self):
            pass
    m.stderr = m.__stderr__ = _Stderr()
    m.getsizeof = lambda x, d=0: 64


@model('traceback')
def _traceback(ld, m):
    m.format_tb = lambda tb, limit=None: ['  File "x", line 1, in f\n']
    m.format_exc = lambda limit=None: ''.join(
        ['Traceback (most recent call last):\n'] +
        rt_exc_lines(sys.exc_info()))
    m.print_exc = lambda *a, **k: None
    m.format_exception_only = lambda t, v: rt_exc_lines((t, v, None))
    m.extract_tb = lambda tb, limit=None: []
    m.print_tb = lambda *a, **k: None


def rt_exc_lines(ei):
    return [rt.format_('%s: %s\n', (ei[0].__name__, ei[1]))]


@model('datetime')
def _datetime(ld, m):
    class SymDate(object):
        def __init__(self, t):
            self.t = t

    class DT(datetime.datetime):
        @classmethod
        def fromtimestamp(cls, t, tz=None):
            if isinstance(t, V.SymBase):
                return SymDate(t)
            return datetime.datetime.fromtimestamp(t, tz)
    m.datetime, m.timedelta, m.date = (DT, datetime.timedelta, datetime.date)


LEVELS = dict(debug=10, info=20, warn=30, warning=30, error=40,
              exception=40, critical=50, fatal=50)
LEVELNAME = {10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR',
             50: 'CRITICAL'}


class LogRecord(object):
    def __init__(self, name, levelno, msg, args):
        self.name, self.levelno, self.msg = name, levelno, msg
        self.levelname = LEVELNAME.get(levelno, 'Level %s' % levelno)
        self.args = args[0] if len(args) == 1 and isinstance(
            args[0], dict) and args[0] else args

    def getMessage(self):
        return rt.format_(self.msg, self.args) if self.args else self.msg


class _Logger(object):
    """The loggers of one program; all of them propagate to the root."""
    def __init__(self, name, root=None):
        self.name = name
        self.root = root or self
        self.handlers = []
        self.filters = []
        self.propagate = 1
        self.level = 30 if root is None else 0

    def getEffectiveLevel(self):
        return self.level or self.root.level

    def setLevel(self, level):
        self.level = level

    def isEnabledFor(self, level):
        return level >= self.getEffectiveLevel()

    def addHandler(self, h):
        if h not in self.handlers:
            self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def addFilter(self, f):
        self.filters.append(f)

    def log(self, level, msg, *a, **k):
        if not self.isEnabledFor(level):
            return
        r = LogRecord(self.name, level, msg, a)
        try:        # the message is formatted as the real handlers would do
            r.getMessage()
        except (TypeError, ValueError, KeyError):
            pass    # and its mistakes are only printed
        for lg in ([self, self.root] if self.root is not self else [self]):
            for h in lg.handlers:
                if level >= h.level:
                    h.handle(r)


for _n, _l in LEVELS.items():
    setattr(_Logger, _n, (lambda l: lambda self, msg, *a, **k: self.log(
        l, msg, *a, **k))(_l))


@model('logging')
def _logging(ld, m):
    root = _Logger('root')
    loggers = {}
    m.root = root

    def getLogger(name=None):
        if not name:
            return root
        if name not in loggers:
            loggers[name] = _Logger(name, root)
        return loggers[name]
    m.getLogger = getLogger
    for n in list(LEVELS) + ['log']:
        setattr(m, n, getattr(root, n))

    class Handler(object):
        def __init__(self, level=0):
            self.level = level
            self.formatter = None

        def setLevel(self, level):
            self.level = level

        def setFormatter(self, f):
            self.formatter = f

        def handle(self, record):
            return self.emit(record)

        def emit(self, record):
            pass

        def format(self, record):
            return record.getMessage()

        def flush(self):
            pass
        close = flush
    m.Handler = m.NullHandler = m.StreamHandler = Handler
    m.LogRecord = LogRecord

    def basicConfig(**k):
        if 'level' in k:
            root.setLevel(k['level'])
    m.basicConfig = basicConfig
    m.DEBUG, m.INFO, m.WARN, m.WARNING, m.ERROR, m.CRITICAL = (
        10, 20, 30, 30, 40, 50)
    m.Logger = _Logger


@model('string')
def _string(ld, m):
    import string
    fill(m, string, 'ascii_letters ascii_lowercase ascii_uppercase digits '
         'hexdigits octdigits punctuation printable whitespace Template')
    m.letters = string.ascii_letters
    m.lowercase = string.ascii_lowercase
    m.uppercase = string.ascii_uppercase
    m.join = lambda seq, sep=' ': rt.getattr_(sep, 'join')(seq)
    for n in 'split strip lower upper replace find'.split():
        def mk(n):
            return lambda s, *a: rt.getattr_(s, n)(*a)
        setattr(m, n, mk(n))


@model('inspect')
def _inspect(ld, m):
    def getmembers(o, pred=None):
        out = []
        for n in sorted(dir(o)):
            if n in ('__builtins__', '_rt'):
                continue
            v = getattr(o, n)
            if pred is None or pred(v):
                out.append((n, v))
        return out
    m.getmembers = getmembers
    m.isclass = lambda o: isinstance(o, type)
    m.isfunction = lambda o: isinstance(o, types.FunctionType)
    m.ismethod = lambda o: isinstance(o, types.MethodType)
    m.isabstract = lambda o: bool(getattr(o, '__abstractmethods__', None))

    def isgeneratorfunction(o):
        import inspect
        return inspect.isgeneratorfunction(o)
    m.isgeneratorfunction = isgeneratorfunction
    m.isgenerator = lambda o: isinstance(o, types.GeneratorType)
    import inspect
    m.getargspec = lambda f: inspect.getfullargspec(f)[:4]


# ------------------------------------------------------------ pickle
class Blob(object):
    """A pickle: a private copy of the object, of unknown size."""
    n = 0

    def __init__(self, obj, proto):
        self.obj = copy.deepcopy(obj)
        self.proto = proto
        Blob.n += 1

    def __len__(self):
        return 17

    def __eq__(self, o):
        if not isinstance(o, Blob):
            return False
        return rt.deep_eq_term(self.obj, o.obj)

    def __hash__(self):
        return 1


class PickleError(Exception):
    pass


@model('cPickle', 'pickle')
def _pickle(ld, m):
    m.dumps = lambda obj, proto=0: Blob(obj, proto)

    def loads(b):
        if not isinstance(b, Blob):
            raise TypeError('loads: not a pickle')
        return copy.deepcopy(b.obj)
    m.loads = loads
    m.HIGHEST_PROTOCOL = 2
    m.PickleError = m.PicklingError = m.UnpicklingError = PickleError

    def dump(obj, f, proto=0):
        f.write(m.dumps(obj, proto))
    m.dump = dump


# ------------------------------------------------------------ files
class TextFile(object):
    """File-like object over (possibly symbolic) text."""

    def __init__(self, text='', name=None, mode='r', onclose=None):
        self._parts = [text] if text else []
        self._lines = None
        self._pos = 0          # in lines
        self.name = name
        self.mode = mode
        self.closed = False
        self._onclose = onclose
        self._wrote = False
        self.softspace = 0

    def getvalue(self):
        return S.m_join('', self._parts)

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def _rd(self):
        self._chk()
        if self._onclose is not None and 'r' not in self.mode and \
                '+' not in self.mode:
            raise rt.Py2IOError('File not open for reading')
        if self._lines is None:
            self._lines = S.m_splitlines(self.getvalue(), True)
        if self._wrote:          # the position is at the end
            self._pos = len(self._lines)
            self._wrote = False

    def write(self, s):
        self._chk()
        if self._onclose is not None and self.mode.startswith('r') and \
                '+' not in self.mode:
            raise rt.Py2IOError('File not open for writing')
        if self._parts and not self._wrote and not self._end():
            # overwriting: the texts are fixed to know their lengths
            old, s = [t.concrete() if isinstance(t, SymStr) else t
                      for t in (self.getvalue(), s)]
            at = 0
            if self._pos:
                at = len(''.join(
                    t.concrete() if isinstance(t, SymStr) else t
                    for t in self._lines[:self._pos]))
            self._parts = [old[:at] + s + old[at + len(s):]]
            self._lines = None
            self._pos = self._parts[0][:at + len(s)].count('\n')
            if self._parts[0][:at + len(s)][-1:] != '\n' and \
                    at + len(s) < len(self._parts[0]):
                raise E.EngineError('write in the middle of a line')
            return
        self._wrote = True
        self._parts.append(s)
        self._lines = None

    def _end(self):
        return 'a' in self.mode or (
            self._lines is not None and self._pos == len(self._lines))

    def writelines(self, seq):
        for s in seq:
            self.write(s)

    def read(self, n=-1):
        self._rd()
        if n is not None and n >= 0:
            raise E.EngineError('partial read')
        r = S.m_join('', self._lines[self._pos:])
        self._pos = len(self._lines)
        return r

    def readline(self, n=-1):
        self._rd()
        if self._pos >= len(self._lines):
            return ''
        r = self._lines[self._pos]
        self._pos += 1
        return r

    def readlines(self):
        self._rd()
        r = self._lines[self._pos:]
        self._pos = len(self._lines)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if isinstance(r, str) and r == '':
            raise StopIteration
        return r
    next = __next__

    def seek(self, pos, whence=0):
        self._chk()
        if self._wrote:
            self.flush()
            self._wrote = False
        if pos == 0 and whence == 0:
            self._pos = 0
        elif whence == 2:
            self._rd()
            self._pos = len(self._lines)
        else:
            raise E.EngineError('seek')

    def tell(self):
        return 0 if self._pos == 0 else 1

    def flush(self):
        if self._onclose is not None and not self.closed:
            self._onclose(self.getvalue(), False)

    def truncate(self, n=0):
        self._parts = []
        self._lines = None

    def close(self):
        if not self.closed:
            self.closed = True
            if self._onclose is not None and not self.mode.startswith('r'):
                self._onclose(self.getvalue(), True)

    def fileno(self):
        return 99

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StringIO(TextFile):
    def __init__(self, text=''):
        TextFile.__init__(self, text, None, 'rw')
        self._onclose = None

    def close(self):
        self.closed = True


@model('StringIO', 'cStringIO')
def _stringio(ld, m):
    m.StringIO = StringIO


class FS(object):
    """The files: path -> text."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = C.PyDict()
        self.dirs = C.PySet(['/', '/tmp', '/cwd'])
        self.counter = 0


def normp(path):
    if isinstance(path, SymStr):
        first = path.segs[0]
        if isinstance(first, str) and first.startswith('/'):
            return path
        return '/cwd/' + path
    if not path.startswith('/'):
        path = '/cwd/' + path
    import posixpath
    return posixpath.normpath(path)


def open_file(fs, path, mode='r'):
    if not isinstance(path, (str, SymStr)):
        raise TypeError('coercing to Unicode: need string')
    p = normp(path)
    if mode.startswith('r'):
        if p in fs.dirs:
            raise rt.Py2IOError(21, 'Is a directory', path)
        if p not in fs.files:
            raise rt.Py2IOError(2, 'No such file or directory', path)
        c = fs.files[p]
        f = TextFile(c if not isinstance(c, ZipData) else '', path, mode,
                     lambda t, last: None)
        if '+' in mode:
            f._onclose = lambda t, last: fs.files.__setitem__(p, t)
        f._data = c
        return f
    if p in fs.dirs:
        raise rt.Py2IOError(21, 'Is a directory', path)
    d = dirname(p)
    if d not in fs.dirs:
        raise rt.Py2IOError(2, 'No such file or directory', path)
    old = fs.files.get(p, '') if mode.startswith('a') else ''
    fs.files[p] = old
    return TextFile(old, path, mode,
                    lambda t, last: fs.files.__setitem__(p, t))


def dirname(p):
    i = S.m_rpartition(p, '/')
    return i[0] or '/'


class ZipData(object):
    """Content of a zip file: list of (name, text)."""
    def __init__(self):
        self.members = []


class BadZipfile(Exception):
    pass


class ZipInfo(object):
    def __init__(self, filename='NoName', date_time=(1980, 1, 1, 0, 0, 0)):
        self.filename = filename


class ZipFile(object):
    fs = None

    def __init__(self, file, mode='r', compression=0, allowZip64=False):
        if mode not in ('r', 'w', 'a'):
            raise RuntimeError('ZipFile() requires mode "r", "w", or "a"')
        self.filename = file if isinstance(file, (str, SymStr)) else None
        self.mode = mode
        self.fp = True
        fs = self.fs
        p = normp(file)
        self._p = p
        if mode == 'r':
            if p not in fs.files:
                raise rt.Py2IOError(2, 'No such file or directory', file)
            d = fs.files[p]
            if not isinstance(d, ZipData):
                raise BadZipfile('File is not a zip file')
            self._d = d
        elif mode == 'a' and p in fs.files and isinstance(
                fs.files[p], ZipData):
            self._d = fs.files[p]
        else:
            if dirname(p) not in fs.dirs:
                raise rt.Py2IOError(2, 'No such file or directory', file)
            self._d = fs.files[p] = ZipData()

    def _open(self):
        if self.fp is None:
            raise RuntimeError(
                'Attempt to read ZIP archive that was already closed')

    def namelist(self):
        return [n for n, _ in self._d.members]

    def infolist(self):
        return [ZipInfo(n) for n in self.namelist()]

    def getinfo(self, name):
        for n, t in reversed(self._d.members):
            if rt.truth(rt.eq(n, name)):
                return ZipInfo(n)
        raise KeyError('There is no item named %r in the archive' % (name,))

    def read(self, name, pwd=None):
        self._open()
        name = getattr(name, 'filename', name)
        for n, t in reversed(self._d.members):
            if rt.truth(rt.eq(n, name)):
                return t
        raise KeyError(rt.format_(
            'There is no item named %r in the archive', (name,)))

    def open(self, name, mode='r', pwd=None):
        self._open()
        n = getattr(name, 'filename', name)
        t = self.read(name)
        f = TextFile(t, n, 'r', lambda t, last: None)
        return f

    def writestr(self, name, data, compress_type=None):
        if self.fp is None:
            raise RuntimeError(
                'Attempt to write to ZIP archive that was already closed')
        if self.mode == 'r':
            raise RuntimeError('write() requires mode "w" or "a"')
        name = getattr(name, 'filename', name)
        self._d.members.append((name, data))

    def write(self, filename, arcname=None, compress_type=None):
        if self.fp is None:
            raise RuntimeError(
                'Attempt to write to ZIP archive that was already closed')
        if self.mode == 'r':
            raise RuntimeError('write() requires mode "w" or "a"')
        p = normp(filename)
        if p not in self.fs.files:
            raise rt.Py2OSError(2, 'No such file or directory', filename)
        name = arcname if arcname is not None else filename
        name = S.strip(name, '/', True, False)
        self._d.members.append((name, self.fs.files[p]))

    def close(self):
        self.fp = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@model('zipfile')
def _zipfile(ld, m):
    ZipFile.fs = ld.fs
    m.ZipFile = ZipFile
    m.ZipInfo = ZipInfo
    m.ZIP_STORED, m.ZIP_DEFLATED = 0, 8
    m.BadZipfile = m.error = BadZipfile

    def is_zipfile(f):
        p = normp(f)
        return p in ld.fs.files and isinstance(ld.fs.files[p], ZipData)
    m.is_zipfile = is_zipfile


class _Fd(object):
    def __init__(self, path):
        self.path = path
        self.open = True

    def closed(self):
        return not self.open

    def __index__(self):
        return 7


@model('os')
def _os(ld, m):
    fs = ld.fs
    m.name = 'posix'
    m.sep = '/'
    m.linesep = '\n'
    m.curdir, m.pardir, m.extsep, m.pathsep = '.', '..', '.', ':'
    m.altsep = None
    m.error = rt.Py2OSError
    m.environ = C.PyDict({'HOME': '/root', 'PATH': '/bin'})
    m.getenv = lambda k, d=None: m.environ.get(k, d)
    m.getcwd = lambda: '/cwd'
    m.getcwdu = m.getcwd
    m.getpid = lambda: 4242
    m.O_RDWR = 2

    class _stat(object):
        def __init__(self, isdir, size=0):
            self.st_mode = 0o40755 if isdir else 0o100644
            self.st_size = size
            self.st_mtime = 0

    def stat(path):
        p = normp(path)
        if p in fs.dirs:
            return _stat(True)
        if p in fs.files:
            return _stat(False)
        raise rt.Py2OSError(2, 'No such file or directory', path)
    m.stat = m.lstat = stat
    m.stat_result = _stat

    def listdir(path):
        p = normp(path)
        if p not in fs.dirs:
            raise rt.Py2OSError(2, 'No such file or directory', path)
        out = []
        for f in list(fs.files.keys()) + [d for d in fs.dirs if d != '/']:
            d, _, b = S.m_rpartition(f, '/')
            if rt.truth(rt.eq(d or '/', p)):
                out.append(b)
        return out
    m.listdir = listdir

    def mkdir(path, mode=0o777):
        p = normp(path)
        if p in fs.dirs or p in fs.files:
            raise rt.Py2OSError(17, 'File exists', path)
        if dirname(p) not in fs.dirs:
            raise rt.Py2OSError(2, 'No such file or directory', path)
        fs.dirs.add(p)
    m.mkdir = mkdir

    def walk(top, topdown=True, onerror=None, followlinks=False):
        try:
            names = listdir(top)
        except OSError:
            return
        path = lambda n: top + ('' if rt.truth(S.m_endswith(
            top, '/')) else '/') + n
        ds = [n for n in names if normp(path(n)) in fs.dirs]
        out = (top, ds, [n for n in names if n not in ds])
        if topdown:
            yield out
        for d in out[1]:
            for x in walk(path(d), topdown):
                yield x
        if not topdown:
            yield out
    m.walk = walk

    def makedirs(path, mode=0o777):
        p = normp(path)
        if p in fs.dirs or p in fs.files:
            raise rt.Py2OSError(17, 'File exists', path)
        d = dirname(p)
        if d not in fs.dirs:
            makedirs(d)
        fs.dirs.add(p)
    m.makedirs = makedirs

    def remove(path):
        p = normp(path)
        if p not in fs.files:
            raise rt.Py2OSError(2, 'No such file or directory', path)
        del fs.files[p]
    m.remove = m.unlink = remove

    def rmdir(path):
        p = normp(path)
        if p not in fs.dirs:
            raise rt.Py2OSError(2, 'No such file or directory', path)
        fs.dirs.remove(p)
    m.rmdir = rmdir

    def rename(a, b):
        pa = normp(a)
        if pa not in fs.files:
            raise rt.Py2OSError(2, 'No such file or directory', a)
        fs.files[normp(b)] = fs.files.pop(pa)
    m.rename = rename

    def fdopen(fd, mode='r', *a):
        if not isinstance(fd, _Fd):
            raise rt.Py2OSError(9, 'Bad file descriptor')
        f = open_file(fs, fd.path, mode)
        done = f._onclose

        def onclose(t, last):
            if last:
                fd.open = False
            return done(t, last)
        f._onclose = onclose
        return f
    m.fdopen = fdopen

    def close(fd):
        if not getattr(fd, 'open', False):
            raise rt.Py2OSError(9, 'Bad file descriptor')
        fd.open = False
    m.close = close

    def write(fd, data):
        if not getattr(fd, 'open', False):
            raise rt.Py2OSError(9, 'Bad file descriptor')
        p = normp(fd.path)
        fs.files[p] = S.m_join('', [fs.files.get(p, ''), data])
        return len(data)
    m.write = write

    def fstat(fd):
        if not getattr(fd, 'open', False):
            raise rt.Py2OSError(9, 'Bad file descriptor')
        return None
    m.fstat = fstat
    m.access = lambda p, mode: normp(p) in fs.files or normp(p) in fs.dirs
    m.R_OK, m.W_OK, m.F_OK = 4, 2, 0
    path = ld.load('posixpath')
    m.path = path
    ld.modules['os.path'] = path


MODULES['os.path'] = lambda ld, m: (ld.load('os'), None)[1]


@model('_abcoll')
def m_abcoll(ld, m):
    class MutableMapping(object):
        @classmethod
        def register(cls, other):
            return None
    m.MutableMapping = MutableMapping


@model('stat')
def _stat_m(ld, m):
    import stat
    for n in dir(stat):
        setattr(m, n, getattr(stat, n))


@model('__builtin__', 'exceptions')
def _builtin(ld, m):
    for k, v in ld.builtins.items():
        if m.__name__ == '__builtin__' or (
                isinstance(v, type) and issubclass(v, BaseException)):
            setattr(m, k, v)


@model('warnings')
def _warnings(ld, m):
    m.warn = lambda *a, **k: None
    m.simplefilter = m.filterwarnings = lambda *a, **k: None

    class catch_warnings(object):
        def __init__(self, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False
    m.catch_warnings = catch_warnings

    def warnpy3k(*a, **k):
        pass
    m.warnpy3k = warnpy3k


@model('tempfile')
def _tempfile(ld, m):
    fs = ld.fs

    def name(dir, prefix, suffix):
        fs.counter += 1
        d = dir if dir is not None else m.tempdir or '/tmp'
        return d + '/' + prefix + 'x%d' % fs.counter + suffix

    def mkstemp(suffix='', prefix='tmp', dir=None, text=False):
        if dir is not None and normp(dir) not in fs.dirs:
            raise rt.Py2OSError(2, 'No such file or directory', dir)
        p = name(dir, prefix, suffix)
        fs.files[normp(p)] = ''
        return _Fd(p), p
    m.mkstemp = mkstemp

    def mkdtemp(suffix='', prefix='tmp', dir=None):
        p = name(dir, prefix, suffix)
        fs.dirs.add(normp(p))
        return p
    m.mkdtemp = mkdtemp
    m.gettempdir = lambda: '/tmp'
    m.tempdir = None

    class Named(object):
        def __init__(self, mode='w+b', bufsize=-1, suffix='', prefix='tmp',
                     dir=None, delete=True):
            fd, p = mkstemp(suffix, prefix, dir)
            self.name = p
            self._f = open_file(fs, p, mode)

            self._delete = delete

        def __getattr__(self, n):
            return getattr(self._f, n)

        def close(self):
            if not self._f.closed:
                self._f.close()
                if self._delete:
                    fs.files.pop(normp(self.name), None)
    m.NamedTemporaryFile = Named


@model('shutil')
def _shutil(ld, m):
    def rmtree(path, ignore_errors=False, onerror=None):
        p = normp(path)
        for f in list(ld.fs.files.keys()):
            if rt.truth(S.m_startswith(f, p + '/')):
                del ld.fs.files[f]
        for d in list(ld.fs.dirs):
            if d == p or d.startswith(p + '/'):
                ld.fs.dirs.remove(d)
    m.rmtree = rmtree


# ------------------------------------------------------------ csv
class CsvError(Exception):
    pass


def _one(e, chars):
    """Is the element one of the characters?"""
    if isinstance(e, str):
        return e in chars
    if isinstance(e, S.Ch):
        return S.decide(S.ch_in(e, chars))
    poss = S.WORDCH if isinstance(e, S.Tok) else S.fmt_chars(e)
    if any(c in poss for c in chars):
        raise E.EngineError('csv: opaque field may contain a delimiter')
    return False


class CsvReader(object):
    """csv.reader of the excel dialect."""

    def __init__(self, it, dialect='excel', delimiter=',', quotechar='"',
                 **kw):
        self._it = iter(it)
        self._d = delimiter
        self._q = quotechar
        self.line_num = 0

    def __iter__(self):
        return self

    def _line(self):
        r = rt.next_(self._it)
        self.line_num += 1
        return r

    def __next__(self):
        fields, cur = [], []
        state = 'start_record'
        while True:
            line = self._line()
            els = S.elements(line)
            for e in els + [None]:
                if state == 'start_record':
                    if e is None:
                        break
                    if _one(e, '\r\n'):
                        state = 'eat'
                        continue
                    state = 'start_field'
                if state == 'start_field':
                    if e is None or _one(e, '\r\n'):
                        fields.append('')
                        state = 'start_record' if e is None else 'eat'
                        if e is None:
                            break
                    elif _one(e, self._q):
                        state = 'quoted'
                    elif _one(e, self._d):
                        fields.append('')
                    else:
                        cur.append(e)
                        state = 'field'
                elif state == 'field':
                    if e is None or _one(e, '\r\n'):
                        fields.append(S.mk(cur))
                        cur = []
                        state = 'start_record' if e is None else 'eat'
                    elif _one(e, self._d):
                        fields.append(S.mk(cur))
                        cur = []
                        state = 'start_field'
                    else:
                        cur.append(e)
                elif state == 'quoted':
                    if e is None:
                        pass
                    elif _one(e, self._q):
                        state = 'quote_in'
                    else:
                        cur.append(e)
                elif state == 'quote_in':
                    if e is None or _one(e, '\r\n'):
                        fields.append(S.mk(cur))
                        cur = []
                        state = 'start_record' if e is None else 'eat'
                    elif _one(e, self._q):
                        cur.append(self._q)
                        state = 'quoted'
                    elif _one(e, self._d):
                        fields.append(S.mk(cur))
                        cur = []
                        state = 'start_field'
                    else:
                        cur.append(e)
                        state = 'field'
                elif state == 'eat':
                    if e is None:
                        state = 'start_record'
                    elif not _one(e, '\r\n'):
                        raise CsvError('new-line character seen in unquoted '
                                       'field')
            if state == 'start_record':
                return fields
            if state == 'eat':
                return fields
    next = __next__


class CsvWriter(object):
    def __init__(self, f, dialect='excel', delimiter=',', quotechar='"',
                 lineterminator='\r\n', quoting=0, **kw):
        self._f = f
        self._d = delimiter
        self._q = quotechar
        self._t = lineterminator
        self._all = quoting == 1

    def _field(self, x, single):
        if x is None:
            s = ''
        elif isinstance(x, float):
            s = repr(x)
        else:
            s = rt.str_(x)
        els = S.elements(s)
        quote = self._all or (single and not els)
        if not quote:
            for e in els:
                if _one(e, self._d + self._q + '\r\n'):
                    quote = True
                    break
        if not quote:
            return s
        out = []
        for e in els:
            if _one(e, self._q):
                out.append(self._q)
            out.append(e)
        return self._q + S.mk(out) + self._q

    def writerow(self, row):
        row = list(row)
        self._f.write(S.m_join(self._d, [
            self._field(x, len(row) == 1) for x in row]) + self._t)

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class DictReader(object):
    def __init__(self, f, fieldnames=None, restkey=None, restval=None,
                 dialect='excel', *a, **k):
        self._fields = fieldnames
        self.restkey, self.restval = restkey, restval
        self.reader = CsvReader(f, dialect, *a, **k)
        self.dialect = dialect

    def __iter__(self):
        return self

    @property
    def line_num(self):
        return self.reader.line_num

    @property
    def fieldnames(self):
        if self._fields is None:
            try:
                self._fields = next(self.reader)
            except StopIteration:
                pass
        return self._fields

    def __next__(self):
        names = self.fieldnames
        row = next(self.reader)
        while not row:
            row = next(self.reader)
        d = C.PyDict(zip(names, row))
        if len(names) < len(row):
            d[self.restkey] = row[len(names):]
        for k in names[len(row):]:
            d[k] = self.restval
        return d
    next = __next__


class DictWriter(object):
    def __init__(self, f, fieldnames, restval='', extrasaction='raise',
                 dialect='excel', *a, **k):
        self.fieldnames = fieldnames
        self.restval, self.extrasaction = restval, extrasaction
        self.writer = CsvWriter(f, dialect, *a, **k)

    def writeheader(self):
        self.writer.writerow(list(self.fieldnames))

    def writerow(self, d):
        if self.extrasaction == 'raise':
            bad = [k for k in d if k not in self.fieldnames]
            if bad:
                raise ValueError('dict contains fields not in fieldnames')
        self.writer.writerow([rt.getattr_(d, 'get')(k, self.restval)
                              for k in self.fieldnames])

    def writerows(self, ds):
        for d in ds:
            self.writerow(d)


@model('csv')
def _csv(ld, m):
    m.reader = CsvReader
    m.writer = CsvWriter
    m.Error = CsvError
    m.DictReader, m.DictWriter = DictReader, DictWriter
    m.QUOTE_MINIMAL, m.QUOTE_ALL, m.QUOTE_NONNUMERIC, m.QUOTE_NONE = 0, 1, 2, 3


# copying symbolic values
for _c in (V.SymBool, V.SymInt, V.SymReal, V.SymFP, V.LogNum, SymStr):
    _c.__copy__ = lambda self: self
    _c.__deepcopy__ = lambda self, memo: self


def _set_deepcopy(self, memo):
    return type(self)([copy.deepcopy(x, memo) for x in self])
C.PySet.__deepcopy__ = _set_deepcopy
C.PyFrozenSet.__deepcopy__ = _set_deepcopy
C.PySet.__copy__ = lambda self: self.copy()
