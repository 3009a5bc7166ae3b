"""Run time support for translated Python 2 code."""
import builtins as B
import decimal
import functools
import math
import sys
import z3
from . import engine as E
from . import values as V
from . import strings as S
from . import containers as C
from .values import (SymBase, SymCase, SymBool, SymInt, SymLong, SymReal, SymFP,
                     LogNum, mkbool, not_, bterm)
from .strings import SymStr
from .containers import PyDict, PySet, PyFrozenSet, has_sym

Control = E.Control


def eng():
    return E.ENGINE


def tick():
    E.ENGINE.tick()


def enter(name):
    e = E.ENGINE
    e.functions.add(name)
    e.tick()


# --------------------------------------------------------------- arithmetic
def div(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(div, a, b)
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        return a / b
    if isinstance(a, (int, SymInt, SymBool)) and isinstance(
            b, (int, SymInt, SymBool)):
        if isinstance(a, SymBool):
            a = a.as_int()
        if isinstance(b, SymBool):
            b = b.as_int()
        return a // b
    m = getattr(ta, '__div__', None)
    if m is not None:
        return m(a, b)
    return a / b


def idiv(a, b):
    return div(a, b)


def mod(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(mod, a, b)
    if isinstance(a, (str, SymStr)):
        return format_(a, b)
    return a % b


def pow_(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(pow_, a, b)
    return a ** b


# --------------------------------------------------------------- comparison
_SAFE = (int, float, str, bool)


def rank(x):
    """Python 2 ordering of unrelated types."""
    if x is None:
        return ''
    if V.isnum(x):
        return '\x00'
    return pytype_name(x)


def pytype_name(x):
    if isinstance(x, (str, SymStr)):
        return 'str'
    if isinstance(x, dict):
        return 'dict'
    if isinstance(x, frozenset):
        return 'frozenset'
    if isinstance(x, set):
        return 'set'
    return type(x).__name__


def eq(a, b):
    if type(a) in _SAFE and type(b) in _SAFE:
        return a == b
    return a == b


def ne(a, b):
    ta = type(a)
    if ta in _SAFE and type(b) in _SAFE:
        return a != b
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return a != b
    # Python 2: without __ne__ the default is identity, not "not =="
    if user_class(ta) or user_class(type(b)):
        for x, y in ((a, b), (b, a)):
            f = find_attr(type(x), '__ne__')
            if f is not None:
                r = f(x, y)
                if r is not NotImplemented:
                    return r
            f = find_attr(type(x), '__cmp__')
            if f is not None:
                return f(x, y) != 0
        if not (user_class(ta) and user_class(type(b))):
            return a != b
        return a is not b
    return a != b


def user_class(t):
    return t.__module__ not in ('builtins', 'vf.containers', 'vf.values',
                                'decimal', 'vf.strings', 'vf.rt',
                                'collections', 'fractions')


def find_attr(t, name):
    """Attribute of a user class (object's slot excluded)."""
    for k in t.__mro__:
        if k is object:
            return None
        if name in k.__dict__:
            f = k.__dict__[name]
            return f
    return None


def find_user(t, name):
    """Attribute defined by a translated class (no builtin class)."""
    for k in t.__mro__:
        if name in k.__dict__ and user_class(k):
            return k.__dict__[name]
    return None


def _order(a, b, op):
    try:
        r = op(a, b)
        return r
    except TypeError:
        if type(a) is complex or type(b) is complex:
            raise
    ra, rb = rank(a), rank(b)
    if ra != rb:
        return op(ra, rb)
    f = find_attr(type(a), '__cmp__')
    if f is not None:
        return op(f(a, b), 0)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for x, y in zip(a, b):
            if not truth(eq(x, y)):
                return _order(x, y, op)
        return op(len(a), len(b))
    if a is b:
        return op(0, 0)
    raise E.EngineError('address ordering of %s' % type(a).__name__)


def lt(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(lt, a, b)
    return _order(a, b, lambda x, y: x < y)


def le(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(le, a, b)
    return _order(a, b, lambda x, y: x <= y)


def gt(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(gt, a, b)
    return _order(a, b, lambda x, y: x > y)


def ge(a, b):
    if type(a) is SymCase or type(b) is SymCase:
        return V.case_lift(ge, a, b)
    return _order(a, b, lambda x, y: x >= y)


def in_(a, b):
    if isinstance(b, (str, SymStr)):
        if not isinstance(a, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, "
                            "not %s" % type(a).__name__)
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return S.contains(b, a)
    if isinstance(b, (list, tuple)) and find_attr(
            type(b), '__contains__') in (list.__contains__,
                                         tuple.__contains__):
        if has_sym(a) or any(has_sym(x) for x in b):
            terms = []
            for x in b:
                r = True if x is a else (deep_eq_term(a, x) if isinstance(
                    a, tuple) else x == a)
                if r is True:
                    return True
                if isinstance(r, SymBool):
                    terms.append(r.t)
                elif r is not NotImplemented and r:
                    return True
            return mkbool(z3.simplify(z3.Or(terms))) if terms else False
    if isinstance(b, dict) and not isinstance(getattr(b, '_st', None),
                                              C.Store) and has_sym(a):
        for k in list(b):
            if C.key_eq(k, a):
                return True
        return False
    return a in b


def notin(a, b):
    return not_(in_(a, b))


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return eq(a, b)
    return False


def isnot(a, b):
    return not_(is_(a, b))


def truth(x):
    return bool(x)


def chain(a, pairs):
    ops = dict(lt=lt, le=le, gt=gt, ge=ge, eq=eq, ne=ne, in_=in_, notin=notin,
               is_=is_, isnot=isnot)
    r = True
    for op, f in pairs:
        b = f()
        r = ops[op](a, b)
        if not r:
            return r
        a = b
    return r


def deep_eq_term(a, b):
    """Structural equality of plain values without forking."""
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        terms = []
        for x, y in zip(a, b):
            r = deep_eq_term(x, y)
            if isinstance(r, SymBool):
                terms.append(r.t)
            elif not r:
                return False
        return mkbool(z3.simplify(z3.And(terms))) if terms else True
    r = a == b
    if r is NotImplemented:
        return False
    return r


# --------------------------------------------------------------- classes
def fix_class(cls):
    d = cls.__dict__
    if '__eq__' in d and d.get('__hash__', None) is None:
        try:
            h = object.__hash__
            for k in cls.__mro__[1:]:
                hh = k.__dict__.get('__hash__')
                if hh is not None:
                    h = hh
                    break
            cls.__hash__ = h
        except (TypeError, AttributeError):
            pass
    if '__nonzero__' in d:
        nz = d['__nonzero__']
        cls.__bool__ = lambda s: bool(nz(s))
    if 'next' in d and '__next__' not in d:
        cls.__next__ = d['next']
    if '__div__' in d and '__truediv__' not in d:
        cls.__truediv__ = d['__div__']
    if '__cmp__' in d and '__lt__' not in d:
        c = d['__cmp__']
        if '__eq__' not in d:
            cls.__eq__ = lambda s, o: eq(c(s, o), 0)
            if '__hash__' not in d or d['__hash__'] is None:
                cls.__hash__ = object.__hash__
        cls.__lt__ = lambda s, o: lt(c(s, o), 0)
        cls.__le__ = lambda s, o: le(c(s, o), 0)
        cls.__gt__ = lambda s, o: gt(c(s, o), 0)
        cls.__ge__ = lambda s, o: ge(c(s, o), 0)
        if '__ne__' not in d:
            cls.__ne__ = lambda s, o: ne(c(s, o), 0)
    return cls


def exc(etype, val=None):
    """The exception object of a Python 2 raise statement."""
    if isinstance(etype, tuple):
        etype = etype[0]
    if isinstance(etype, type):
        if not issubclass(etype, BaseException):
            raise TypeError('exceptions must be classes or instances, not %s'
                            % etype.__name__)
        if val is None:
            return etype()
        if isinstance(val, etype):
            return val
        if isinstance(val, tuple):
            return etype(*val)
        return etype(val)
    if isinstance(etype, BaseException):
        return etype
    if isinstance(etype, (str, SymStr)):
        raise TypeError('exceptions must be old-style classes or derived '
                        'from BaseException, not str')
    raise TypeError('exceptions must be classes or instances')


# --------------------------------------------------------------- attributes
def _listify(name):
    def f(o):
        return lambda: list(getattr(o, name)())
    return f


def _iterify(name):
    def f(o):
        return lambda: iter(list(getattr(o, name)()))
    return f

STRM = frozenset(S.METHODS)
_FT = type(_iterify)


def getattr_(o, name):
    """Attribute access for names which differ between Python 2 and 3."""
    if isinstance(o, str) and type(o) is str:
        if name in STRM or name == 'translate':
            return functools.partial(str_method, o, name)
        return getattr(o, name)
    if isinstance(o, SymStr):
        return getattr(o, name)
    if isinstance(o, dict) and type(o) is dict:
        if name in ('keys', 'values', 'items'):
            return _listify(name)(o)
        if name in ('iterkeys', 'itervalues', 'iteritems'):
            return _iterify(name[4:])(o)
        if name == 'has_key':
            return lambda k: in_(k, o)
        if name in ('get', 'pop', 'setdefault'):
            return functools.partial(dict_method, o, name)
    if name in ('keys', 'values', 'items', 'iteritems', 'itervalues',
                'iterkeys') and type(o).__name__ == 'mappingproxy':
        if name.startswith('iter'):
            return _iterify(name[4:])(o)
        return _listify(name)(o)
    if name == 'next':
        try:
            return object.__getattribute__(o, 'next')
        except AttributeError:
            pass
        if hasattr(type(o), '__next__') and not find_attr(type(o), 'next'):
            return o.__next__
        return o.next
    if name == 'message' and isinstance(o, BaseException):
        try:
            return object.__getattribute__(o, 'message')
        except AttributeError:
            if getattr(o, '_msg', None) is not None:
                return o._msg
            return o.args[0] if len(o.args) == 1 else ''
    if name == '__class__':
        return type_of(o)
    if name == 'im_func' and type(o) is _FT:
        return o
    if name in ('im_func', 'im_self', 'im_class'):
        return getattr(o, {'im_func': '__func__', 'im_self': '__self__',
                           'im_class': '__class__'}[name])
    if name in ('func_name', 'func_code', 'func_defaults', 'func_dict',
                'func_globals'):
        try:
            return getattr(o, '__%s__' % name[5:])
        except AttributeError:
            pass
    if name == 'sort' and type(o) is list:
        return functools.partial(list_sort, o)
    if name == '__dict__' and isinstance(o, PyDict) and type(o) is PyDict:
        raise AttributeError('__dict__')
    if name == '__name__' and o in (PyInt, PyLong, PyStr, PyFloat, PyDict, PySet,
                                    PyFrozenSet):
        return {PyInt: 'int', PyLong: 'long', PyStr: 'str', PyFloat: 'float', PyDict: 'dict',
                PySet: 'set', PyFrozenSet: 'frozenset'}[o]
    if name == 'index' and isinstance(o, (list, tuple)):
        return functools.partial(seq_index, o)
    return getattr(o, name)


def seq_index(o, x, *rng):
    for i, y in enumerate(o):
        if rng and i < rng[0] or len(rng) > 1 and i >= rng[1]:
            continue
        if y is x or truth(eq(y, x)):
            return i
    raise ValueError('%s.index(x): x not in list' % type(o).__name__)


def dict_method(o, name, k, *d):
    if has_sym(k):
        for kk in list(o):
            if C.key_eq(kk, k):
                return getattr(o, name)(kk, *d)
        k = k.concrete() if isinstance(k, SymStr) else k
    return getattr(o, name)(k, *d)


def list_sort(o, cmp=None, key=None, reverse=False):
    o[:] = sorted_(o, cmp, key, reverse)


def _any_sym(args):
    for a in args:
        if isinstance(a, SymBase):
            return True
        if isinstance(a, (list, tuple)) and any(
                isinstance(x, SymBase) for x in a):
            return True
    return False


def str_method(o, name, *a, **k):
    if name == 'join':
        seq = list(a[0])
        for x in seq:
            if isinstance(x, SymStr):
                return S.m_join(o, seq)
            if not isinstance(x, str):
                raise TypeError('sequence item: expected string, %s found'
                                % type(x).__name__)
        return o.join(seq)
    if name in ('encode', 'decode'):
        return o
    if name == 'format':
        return str_format(o, a, k)
    if name == 'translate':
        tab, dele = (a + (None,))[:2]
        return _translate(o, tab, dele)
    if _any_sym(a):
        if name not in S.METHODS:
            return getattr(o, name)(*[x.concrete() if isinstance(
                x, SymStr) else x for x in a])
        return S.METHODS[name](o, *a)
    if name in ('strip', 'lstrip', 'rstrip') and not (a and a[0] is not None):
        return getattr(o, name)(S.WS)
    if name == 'split' and (not a or a[0] is None):
        return S.m_split(o, *a)
    if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'lower', 'upper',
                'islower', 'splitlines'):
        return getattr(o, name)(*a)
    return getattr(o, name)(*a, **k)


def _translate(s, table, dele):
    if isinstance(s, SymStr):
        s = s.concrete()
    dele = dele or ''
    return ''.join(table[ord(c)] if table is not None else c
                   for c in s if c not in dele)


# --------------------------------------------------------------- formatting
import re as _re
_FMT = _re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)'
                   r'(?P<width>\*|\d*)(?P<prec>\.(\*|\d+))?[hlL]?'
                   r'(?P<conv>.)', _re.S)


def str_(x=''):
    """str(x)"""
    if type(x) is SymCase:
        x = x.fork()
    if isinstance(x, SymStr):
        return x
    t = type(x)
    if t in (str,):
        return x
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymInt):
        return S.mk((S.Fmt('s', x),))
    if isinstance(x, (SymReal, SymFP)):
        return S.mk((S.Fmt('s', x),))
    if isinstance(x, LogNum):
        return '<float>'
    if isinstance(x, float):
        return S.text_of(x)
    if isinstance(x, int):
        return str(int(x))
    f = find_user(t, '__str__')
    if f is not None:
        r = f(x)
        if not isinstance(r, (str, SymStr)):
            raise TypeError('__str__ returned non-string')
        return r
    if isinstance(x, type) and not isinstance(x, BaseException):
        m = find_attr(type(x), '__str__') or find_attr(type(x), '__repr__')
        if m is not None and user_class(type(x)):
            return m(x)
        return repr_(x)
    if isinstance(x, _OldBase):
        return x.text
    if isinstance(x, BaseException):
        if isinstance(x, KeyError) and len(x.args) == 1:
            return repr_(x.args[0])
        if isinstance(x, EnvironmentError) and len(x.args) >= 2:
            return format_('[Errno %s] %s', (x.args[0], x.args[1]))
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return str_(x.args[0])
        return repr_(x.args)
    return repr_(x)


def join_(parts):
    return S.m_join('', parts)


def repr_(x):
    if type(x) is SymCase:
        x = x.fork()
    t = type(x)
    if isinstance(x, SymStr):
        return S.mk(("'",) + x.segs + ("'",))
    if t is float:
        return repr(x)
    if t in (int, bool, type(None)):
        return repr(x)
    if t is str:
        r = repr(x)
        out = ''
        for c in x:
            if ord(c) > 126:
                return "'%s'" % x.encode('unicode_escape').decode('ascii')
        return r
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (SymInt, SymReal, SymFP)):
        return S.mk((S.Fmt('r', x),))
    if isinstance(x, LogNum):
        return '<float>'
    f = find_user(t, '__repr__')
    if f is not None and not (isinstance(x, tuple) and hasattr(
            x, '_fields') and f.__qualname__.startswith('namedtuple')):
        return f(x)
    if t is tuple or t is list or (isinstance(x, (list,)) and
                                   not user_class(t)):
        parts = ['[' if isinstance(x, list) else '(']
        for i, y in enumerate(x):
            if i:
                parts.append(', ')
            parts.append(repr_(y))
        if t is tuple and len(x) == 1:
            parts.append(',')
        parts.append(']' if isinstance(x, list) else ')')
        return join_(parts)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        parts = [t.__name__, '(']
        for i, (n, y) in enumerate(zip(x._fields, x)):
            if i:
                parts.append(', ')
            parts += [n, '=', repr_(y)]
        parts.append(')')
        return join_(parts)
    if isinstance(x, dict):
        parts = ['{']
        for i, (k, v) in enumerate(x.items()):
            if i:
                parts.append(', ')
            parts += [repr_(k), ': ', repr_(v)]
        parts.append('}')
        return join_(parts)
    if isinstance(x, (set, frozenset)):
        parts = ['set([' if isinstance(x, set) else 'frozenset([']
        for i, k in enumerate(x):
            if i:
                parts.append(', ')
            parts.append(repr_(k))
        parts.append('])')
        return join_(parts)
    if isinstance(x, type):
        m = find_attr(type(x), '__repr__')
        if m is not None and user_class(type(x)):
            return m(x)
        return "<class '%s.%s'>" % (x.__module__, x.__name__)
    if isinstance(x, decimal.Decimal):
        return repr(x)
    if isinstance(x, _OldBase):
        return '<%s instance at 0x2>' % t.__name__
    if isinstance(x, BaseException):
        parts = [t.__name__, '(']
        for i, y in enumerate(x.args):
            if i:
                parts.append(', ')
            parts.append(repr_(y))
        if len(x.args) == 1:
            parts.append(',')
        parts.append(')')
        return join_(parts)
    if user_class(t):
        return '<%s.%s object at 0x2>' % (t.__module__, t.__name__)
    return repr(x)


def to_int_fmt(v):
    """The integer printed by %d."""
    if isinstance(v, SymBool):
        return v.as_int()
    if isinstance(v, (int, SymInt)):
        return v
    if isinstance(v, SymReal):
        return v.trunc()
    if isinstance(v, SymFP):
        if v.isnan():
            raise ValueError('cannot convert float NaN to integer')
        if v.isinf():
            raise OverflowError('cannot convert float infinity to integer')
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, decimal.Decimal):
        return int(v)
    raise TypeError('%d format: a number is required, not ' +
                    type(v).__name__)


def fmt_one(conv, flags, width, prec, v):
    if type(v) is SymCase:
        v = v.fork()
    if conv == 's':
        r = str_(v)
    elif conv == 'r':
        r = repr_(v)
    elif conv in 'di':
        n = to_int_fmt(v)
        if isinstance(n, int):
            return ('%' + flags + width + prec + 'd') % n
        if flags or (width and width != '0') or prec:
            return S.mk((S.Fmt(flags + width + prec + 'd', n),))
        return S.mk((S.Fmt('d', n),)) if isinstance(n, SymInt) else \
            S.mk((S.Fmt('di', n),))
    elif conv in 'fFgGeE':
        if isinstance(v, (SymReal, SymFP, SymInt)):
            return S.mk((S.Fmt(flags + width + prec + conv, v),))
        return ('%' + flags + width + prec + conv) % float(v)
    elif conv == 'c':
        if isinstance(v, SymBase):
            v = v.concrete() if isinstance(v, SymStr) else v.__index__()
        return '%c' % v
    else:
        if isinstance(v, SymBase):
            v = v.__index__()
        return ('%' + flags + width + prec + conv) % v
    if prec:
        n = int(prec[1:] or 0)
        r = r[:n]
    if width:
        if isinstance(r, SymStr):
            if all(S.is_ch(e) for e in S.elements(r)):
                pad = ' ' * max(0, int(width) - len(r))
                return (r + pad) if '-' in flags else pad + r
            return S.mk((S.Fmt(flags + width + 's', Opaque(r)),))
        return ('%' + flags + width + 's') % r
    return r


class Opaque(object):
    """A formatted text whose exact padding is not modelled."""
    def __init__(self, s):
        self.s = s
        self.t = z3.IntVal(0)

    def concrete(self):
        return self.s.concrete()


def format_(fmt, args):
    if isinstance(fmt, SymStr):
        # only the plain segments can contain directives (words cannot);
        # symbolic characters could
        if any(isinstance(e, S.Ch) for e in fmt.segs):
            fmt = fmt.concrete()
    segs = S.segs_of(fmt)
    out = []
    mapping = args if isinstance(args, dict) or (
        hasattr(args, 'keys') and not isinstance(args, tuple)) else None
    if isinstance(args, tuple):
        argl = list(args)
    else:
        argl = [args]
    used = 0
    usedmap = False
    for seg in segs:
        if not isinstance(seg, str):
            out.append(S.mk((seg,)))
            continue
        pos = 0
        while True:
            i = seg.find('%', pos)
            if i < 0:
                out.append(seg[pos:])
                break
            out.append(seg[pos:i])
            mo = _FMT.match(seg, i)
            if mo is None:
                raise ValueError('incomplete format')
            pos = mo.end()
            conv = mo.group('conv')
            if conv == '%':
                out.append('%')
                continue
            if conv not in 'diouxXeEfFgGcrs':
                raise ValueError('unsupported format character %r' % conv)
            width = mo.group('width')
            prec = mo.group('prec') or ''
            if mo.group('key') is not None:
                if mapping is None:
                    raise TypeError('format requires a mapping')
                v = mapping[mo.group('key')]
                usedmap = True
            else:
                if width == '*':
                    width = str(argl[used])
                    used += 1
                if used >= len(argl):
                    raise TypeError('not enough arguments for format string')
                v = argl[used]
                used += 1
            out.append(fmt_one(conv, mo.group('flags'), width, prec, v))
    if used < len(argl) and not (mapping is not None) and not usedmap:
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return S.m_join('', out)


def str_format(fmt, a, k):
    import string
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == '':
            v = a[auto]
            auto += 1
        elif first.isdigit():
            v = a[int(first)]
        else:
            v = k[first]
        for is_attr, key in rest:
            v = getattr(v, key) if is_attr else v[key]
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = str_(v)
        if spec:
            if isinstance(v, SymBase):
                if isinstance(v, (SymInt, SymReal, SymFP)):
                    out.append(S.mk((S.Fmt(spec, v),)))
                    continue
                v = v.concrete()
            out.append(format(v, spec))
        else:
            out.append(str_(v))
    return S.m_join('', out)


def _split_field(f):
    import _string
    first, rest = _string.formatter_field_name_split(f)
    return str(first), list(rest)


# --------------------------------------------------------------- builtins
class _M(type):
    def __instancecheck__(cls, x):
        base = cls.__dict__.get('_py')
        if base is None:
            return type.__instancecheck__(cls, x)
        return isinstance(x, base)

    def __subclasscheck__(cls, c):
        base = cls.__dict__.get('_py')
        if base is None:
            return type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c) or any(
            b in base for b in getattr(c, '__mro__', ())) 

    def __call__(cls, *a, **k):
        f = cls.__dict__.get('_call')
        if f is None:
            return type.__call__(cls, *a, **k)
        return f.__func__(*a, **k)

    def __repr__(cls):
        return "<type '%s'>" % cls.__name__[2:].lower()

    def __eq__(cls, o):
        return cls is o or (cls.__dict__.get('_py') is not None and
                            o in cls.__dict__['_py'][:1])

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        b = cls.__dict__.get('_py')
        return hash(b[0]) if b else type.__hash__(cls)


def int_(x=0, base=None):
    if type(x) is SymCase:
        return V.case_lift(int_, x)
    if base is not None:
        if not isinstance(x, (str, SymStr)):
            raise TypeError("int() can't convert non-string with explicit "
                            'base')
        return S.int_base(x, base.concrete() if isinstance(base, SymInt) else base)
    if isinstance(x, str):
        return S.int_text(x)
    if isinstance(x, SymStr):
        return S.parse_int(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, (SymReal, SymFP)):
        return x.trunc()
    if isinstance(x, float):
        return int(x)
    if isinstance(x, (int, decimal.Decimal)):
        return int(x)
    f = find_attr(type(x), '__int__')
    if f is not None:
        return f(x)
    raise TypeError('int() argument must be a string or a number, not %r'
                    % type(x).__name__)


def float_(x=0.0):
    if type(x) is SymCase:
        return V.case_lift(float_, x)
    if isinstance(x, str):
        return S.float_text(x)
    if isinstance(x, SymStr):
        return S.parse_float(x)
    if isinstance(x, SymInt):
        return x.toreal()
    if isinstance(x, SymBool):
        return x.as_int().toreal()
    if isinstance(x, SymReal):
        return SymReal(x.t, 'float')
    if isinstance(x, SymFP):
        return x
    if isinstance(x, (int, float, decimal.Decimal)):
        return float(x)
    f = find_attr(type(x), '__float__')
    if f is not None:
        return f(x)
    raise TypeError('float() argument must be a string or a number')


class _IM(_M):
    def __instancecheck__(cls, x):
        if cls.__dict__.get('_py') is None:
            return type.__instancecheck__(cls, x)
        return isinstance(x, (int, SymInt, SymBool)) and \
            type(x) is not SymLong


class PyInt(int, metaclass=_IM):
    _py = (int, SymInt, SymBool)
    _call = staticmethod(int_)


class _LM(_M):
    def __instancecheck__(cls, x):
        if cls.__dict__.get('_py') is None:
            return type.__instancecheck__(cls, x)
        return type(x) is SymLong or type(x) is int and abs(x) >= 2 ** 63


class PyLong(int, metaclass=_LM):
    _py = (SymLong,)
    _call = staticmethod(int_)


class PyFloat(float, metaclass=_M):
    _py = (float,)
    _call = staticmethod(float_)


def _float_inst(x):
    return isinstance(x, float) or isinstance(x, SymFP) or isinstance(
        x, LogNum) or isinstance(x, SymReal) and x.kind == 'float'


class _FM(_M):
    def __instancecheck__(cls, x):
        if cls.__dict__.get('_py') is None:
            return type.__instancecheck__(cls, x)
        return _float_inst(x)


class PyFloat(float, metaclass=_FM):
    _py = (float,)
    _call = staticmethod(float_)


class PyStr(str, metaclass=_M):
    _py = (str, SymStr)
    _call = staticmethod(str_)
    join = staticmethod(lambda sep, seq: str_method(sep, 'join', seq)
                        if isinstance(sep, str) else S.m_join(sep, seq))


for _n in ('strip lower upper startswith endswith split lstrip rstrip '
           'isdigit isalpha isalnum isspace islower isupper title capitalize '
           'replace find rfind index rindex count partition rpartition '
           'rsplit splitlines zfill center ljust rjust format translate '
           'swapcase').split():
    def _mkm(n):
        return staticmethod(lambda s, *a: getattr_(s, n)(*a))
    setattr(PyStr, _n, _mkm(_n))


def bool_(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


class PyBool(int, metaclass=_M):
    _py = (bool, SymBool)
    _call = staticmethod(bool_)


class _DM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, decimal.Decimal) or isinstance(
            x, SymReal) and x.kind == 'dec'

    def __call__(cls, x='0', context=None):
        if isinstance(x, str):
            return S.parse_decimal(x)
        if isinstance(x, SymStr):
            return S.parse_decimal(x)
        if isinstance(x, SymInt):
            return x.toreal(decimal.Decimal(0))
        if isinstance(x, SymReal):
            return SymReal(x.t, 'dec')
        return decimal.Decimal(x)


class PyDecimal(metaclass=_DM):
    @staticmethod
    def from_float(f):
        if isinstance(f, SymReal):
            return SymReal(f.t, 'dec')
        return decimal.Decimal.from_float(f)


def type_of(x):
    t = type(x)
    if t is SymCase:
        return type_of(x.sample())
    m = {int: PyInt, SymInt: PyInt, SymLen: PyInt, SymLong: PyLong,
         bool: PyBool, SymBool: PyBool,
         float: PyFloat, SymFP: PyFloat, str: PyStr, SymStr: PyStr,
         dict: PyDict, set: PySet, frozenset: PyFrozenSet,
         decimal.Decimal: PyDecimal}.get(t)
    if m is not None:
        return m
    if t is SymReal:
        return PyFloat if x.kind == 'float' else PyDecimal
    return t


class _TM(type):
    def __instancecheck__(cls, x):
        if cls is PyType:
            return isinstance(x, type)
        return type.__instancecheck__(cls, x)

    def __call__(cls, *a, **k):
        if cls is PyType:
            if len(a) == 1:
                return type_of(a[0])
            if len(a) == 3 and isinstance(a[2], PyDict):
                a = (str(a[0]), tuple(a[1]), dict(
                    (str(k_), v_) for k_, v_ in a[2].items()))
                meta = type(a[1][0]) if a[1] else type
                return fix_class(meta(*a))
            return type(*a, **k)
        return type.__call__(cls, *a, **k)


class PyType(type, metaclass=_TM):
    pass


class _OldBase(BaseException):
    """The instances of old-style classes, which can be raised too."""
    def __init__(self, text=''):
        self.text = text

    def __str__(self):
        return self.text

    def __getattribute__(self, n):
        if n in ('args', 'message', 'with_traceback'):
            raise AttributeError('instance has no attribute %r' % n)
        return BaseException.__getattribute__(self, n)


def oldclass(name):
    return type(name, (_OldBase,), {})


def is_old(c):
    return isinstance(c, type) and issubclass(c, _OldBase)


def isinstance_(x, t):
    if isinstance(t, tuple):
        for y in t:
            if isinstance_(x, y):
                return True
        return False
    if t is object:
        return True
    if is_old(x) and (t is PyType or t is type):
        return False
    if isinstance(x, _OldBase) and isinstance(t, type) and not is_old(t):
        return False
    if type(x) is SymCase:
        x = x.sample()
    if isinstance(x, SymBase) and isinstance(t, type):
        if t is PyType or t is type:
            return False
        mod_ = getattr(t, '__module__', '')
        if mod_ in ('collections.abc', 'numbers'):
            rep = {SymInt: 1, SymLen: 1, SymBool: True, SymFP: 1.0, LogNum: 1.0}.get(
                type(x), '' if isinstance(x, SymStr) else 1.0)
            return isinstance(rep, t)
    return isinstance(x, t)


def issubclass_(c, t):
    if is_old(c):
        return any(x is c for x in (t if isinstance(t, tuple) else (t,)))
    return issubclass(c, t)


class SymLen(V.SymInt):
    """Length of a text with parts of unknown length; only comparisons
    that the least length decides or which ask for emptiness are kept
    symbolic, anything else fixes the text."""
    __slots__ = ('text', 'least', 'n')

    def __init__(self, text):
        self.text = text
        self.n = None
        self.least = 0
        for s in text.segs:
            if isinstance(s, str):
                self.least += len(s)
            elif isinstance(s, (S.Ch, S.Fmt)):
                self.least += 1

    @property
    def t(self):
        if self.n is None:
            self.n = len(self.text.concrete())
        return z3.IntVal(self.n)

    def _atleast(self, c):
        """self >= c, if it is easily known"""
        if c <= self.least:
            return True
        if c == 1 and self.n is None:
            return not_(eq(self.text, ''))

    def _cmp(self, o, f, name):
        if type(o) is int:
            r = None
            if name in ('__ge__', '__lt__'):
                r = self._atleast(o)
            elif name in ('__gt__', '__le__'):
                r = self._atleast(o + 1)
            elif o < self.least:
                r = True
            elif o == 0 and self.n is None:
                r = not_(eq(self.text, ''))
            if r is not None:
                return not_(r) if name in ('__lt__', '__le__',
                                           '__eq__') else r
        return V.SymInt._cmp(self, o, f, name)

    def __bool__(self):
        return bool(self > 0)


def len_(x):
    if isinstance(x, SymStr):
        for s in x.segs:
            if not isinstance(s, (str, S.Ch)):
                return SymLen(x)
        return len(x)
    t = type(x)
    if t in (list, tuple, str, dict):
        return len(x)
    if isinstance(x, type):
        f = find_attr(type(x), '__len__')
        if f is not None:
            return f(x)
    f = find_attr(t, '__len__')
    if f is not None and user_class(t):
        return f(x)
    return len(x)


def range_(*a):
    return list(range(*[x.__index__() for x in a]))


def xrange_(*a):
    return range(*[x.__index__() for x in a])


def map_(f, *seqs):
    if f is None:
        f = lambda *a: a if len(a) > 1 else a[0]
    if len(seqs) == 1:
        return [f(x) for x in seqs[0]]
    ls = [list(s) for s in seqs]
    n = max(len(l) for l in ls)
    return [f(*[l[i] if i < len(l) else None for l in ls])
            for i in range(n)]


def filter_(f, seq):
    if f is None:
        f = bool
    r = [x for x in seq if f(x)]
    if isinstance(seq, tuple):
        return tuple(r)
    if isinstance(seq, (str, SymStr)):
        return str_method('', 'join', r)
    return r


def zip_(*a):
    return list(zip(*a))


class _K(object):
    __slots__ = ('x', 'cmp')

    def __init__(self, x, cmp=None):
        self.x = x
        self.cmp = cmp

    def __lt__(self, o):
        if self.cmp is not None:
            return bool(lt(self.cmp(self.x, o.x), 0))
        return bool(lt2(self.x, o.x))


def lt2(a, b):
    """a < b as sort sees it (lexicographic without forking on ties)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
            type(a) is type(b) and type(a) in (tuple, list):
        terms = None
        for i, (x, y) in enumerate(zip(a, b)):
            e = eq(x, y)
            if isinstance(e, SymBool):
                if not e:
                    return lt2(x, y)
            elif not e:
                return lt2(x, y)
        return len(a) < len(b)
    return lt(a, b)


def sorted_(seq, cmp=None, key=None, reverse=False):
    items = list(seq)
    keys = [key(x) for x in items] if key is not None else items
    dec = [(_K(k, cmp), x) for k, x in zip(keys, items)]
    dec = sorted(dec, key=lambda p: p[0], reverse=bool(reverse))
    return [x for k, x in dec]


def _minmax(name, a, key, less):
    if len(a) == 1:
        items = list(a[0])
        if not items:
            raise ValueError('%s() arg is an empty sequence' % name)
    else:
        items = list(a)
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        k = key(x) if key else x
        if less(k, bk):
            best, bk = x, k
    return best


def min_(*a, **k):
    return _minmax('min', a, k.get('key'), lambda x, y: truth(lt2(x, y)))


def max_(*a, **k):
    return _minmax('max', a, k.get('key'), lambda x, y: truth(lt2(y, x)))


def reduce_(f, seq, *init):
    return functools.reduce(f, seq, *init)


def cmp_(a, b):
    if truth(eq(a, b)):
        return 0
    return -1 if truth(lt(a, b)) else 1


def round_(x, n=0):
    if type(x) is SymCase:
        return V.case_lift(round_, x, n)
    if isinstance(x, SymInt):
        x = x.toreal()
    if isinstance(x, SymReal):
        p = 10 ** int(n)
        y = x * p
        t = y.t
        half = z3.RealVal('1/2')
        r = z3.If(t >= 0, z3.ToInt(t + half), -z3.ToInt(-t + half))
        return V.mkreal(z3.ToReal(r) / p, x.kind)
    if isinstance(x, SymFP):
        # scaled, rounded half away from zero and scaled back; large
        # numbers are integers already
        p = z3.FPVal(10.0 ** int(n), x.S)
        y = z3.fpDiv(z3.RNE(), z3.fpRoundToIntegral(
            z3.RNA(), z3.fpMul(z3.RNE(), x.t, p)), p)
        big = z3.fpGEQ(z3.fpAbs(x.t), z3.FPVal(2.0 ** 52, x.S))
        return SymFP(z3.If(z3.Or(big, z3.fpIsNaN(x.t)), x.t, y))
    if not isinstance(x, (int, float)):
        x = float(x)
    if x != x or x in (float('inf'), -float('inf')):
        return x
    # Python 2 rounds half away from zero
    d = decimal.Decimal(repr(float(x)))
    q = d.quantize(decimal.Decimal(1).scaleb(-int(n)),
                   rounding=decimal.ROUND_HALF_UP)
    return float(q)


def abs_(x):
    if type(x) is SymCase:
        return V.case_lift(abs_, x)
    return abs(x)


def ord_(c):
    if isinstance(c, SymStr):
        els = S.elements(c)
        if len(els) == 1 and isinstance(els[0], S.Ch):
            return V.mkint(z3.BV2Int(els[0].t))
        return ord(c.concrete())
    return ord(c)


def chr_(i):
    if isinstance(i, SymInt):
        i = i.__index__()
    return chr(i)


def hasattr_(o, name):
    if isinstance(name, SymStr):
        name = name.concrete()
    if isinstance(o, SymBase):
        if name in ('__dict__', '__slots__', '__next__', 'next'):
            return False
        if isinstance(o, SymStr):
            return hasattr('', name) and name != '__iter__'
        if isinstance(o, SymInt):
            return hasattr(1, name)
        return hasattr(1.0, name)
    if isinstance(o, str) and name == '__iter__':
        return False
    if isinstance(o, PyDict) and type(o).__module__ == 'vf.containers' and \
            name == '__dict__':
        return False
    if isinstance(o, (set, frozenset)) and name == '__dict__':
        return False
    try:
        getattr_(o, name)
        return True
    except Exception:
        return False


_ND = object()


def getattr_b(o, name, d=_ND):
    if isinstance(name, SymStr):
        name = name.concrete()
    try:
        return getattr_(o, name)
    except AttributeError:
        if d is _ND:
            raise
        return d


def setattr_b(o, name, v):
    if isinstance(name, SymStr):
        name = name.concrete()
    setattr(o, name, v)


def iter_(x, *sentinel):
    return iter(x, *sentinel)


def next_(it, *d):
    if hasattr(type(it), '__next__'):
        return next(it, *d)
    try:
        return getattr_(it, 'next')()
    except StopIteration:
        if d:
            return d[0]
        raise


def sum_(seq, start=0):
    r = start
    for x in seq:
        r = r + x
    return r


def vars_(*a):
    if not a:
        return sys._getframe(1).f_locals
    return a[0].__dict__


def mkdict(pairs):
    d = PyDict()
    for k, v in pairs:
        d[k] = v
    return d


def mkkw(d):
    return mkdict(d.items())


def kw(d):
    """Mapping passed as ** argument."""
    out = {}
    for k in getattr_(d, 'keys')():
        v = d[k]
        if isinstance(k, SymStr):
            k = k.concrete()
        out[k] = v
    return out


def truediv(a, b):
    return a / b


def exc_types(t):
    if isinstance(t, tuple):
        return tuple(exc_types(x) for x in t)
    if t is Exception:
        return t
    return t


def exec_(code, g, l=None):
    if isinstance(code, tuple):         # exec(code, globals[, locals])
        g = code[1]
        l = code[2] if len(code) > 2 else l
        code = code[0]
    if isinstance(code, SymStr):
        code = code.concrete()
    E.ENGINE.loader.exec_source(code, g, l)


def mkset(items):
    return PySet(items)


def id_(x):
    h = E.ENGINE.__dict__.get('id_hook')
    if h is not None:
        return h(x)
    return id(x)


def callable_(x):
    return callable(x)


def hash_(x):
    return hash(x)


def enumerate_(x, start=0):
    return enumerate(x, start.__index__())


class Out(object):
    """Captured standard output."""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def print_(dest, nl, *vals):
    out = []
    for i, v in enumerate(vals):
        if i:
            out.append(' ')
        out.append(str_(v))
    if nl:
        out.append('\n')
    txt = S.m_join('', out)
    if dest is None:
        E.ENGINE.stdout.write(txt)
    else:
        dest.write(txt)


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def unsupported(what):
    raise E.EngineError('unsupported: ' + what)


def oct_(x):
    r = oct(x)
    return r.replace('0o', '0') if x else '0'


def coerce_(a, b):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        return float_(a), float_(b)
    return a, b


def str_format1(x, spec=''):
    return str_format('{0:%s}' % spec, (x,), {})


def eval_(code, *envs):
    env = {}
    for e in envs:
        for k, v in getattr_(e, 'items')():
            env[k] = v
    out = mkdict([(k, v) for k, v in env.items()])
    exec_('_vf_result = ' + code, out)
    return out['_vf_result']


def make_builtins(importer, opener, execer):
    d = dict(
        None_=None, int=PyInt, long=PyLong, float=PyFloat, str=PyStr,
        unicode=PyStr, basestring=PyStr, bool=PyBool, dict=PyDict, set=PySet,
        frozenset=PyFrozenSet, type=PyType, len=len_, range=range_,
        xrange=xrange_, map=map_, filter=filter_, zip=zip_, sorted=sorted_,
        min=min_, max=max_, reduce=reduce_, cmp=cmp_, round=round_, abs=abs_,
        ord=ord_, chr=chr_, unichr=chr_, hasattr=hasattr_, getattr=getattr_b,
        setattr=setattr_b, isinstance=isinstance_, issubclass=issubclass_,
        iter=iter_, next=next_, sum=sum_, vars=vars_, id=id_, repr=repr_,
        callable=callable_, hash=hash_, enumerate=enumerate_, any=any_,
        all=all_, open=opener, file=opener, __import__=importer,
        __build_class__=B.__build_class__, globals=B.globals,
        locals=B.locals, object=object, property=property,
        classmethod=classmethod, staticmethod=staticmethod, super=super,
        list=list, tuple=tuple, complex=complex, slice=slice,
        reversed=reversed, delattr=delattr, divmod=divmod, pow=pow,
        dir=dir, hex=hex, oct=oct_, bin=bin, NotImplemented=NotImplemented,
        Ellipsis=Ellipsis, buffer=bytes, bytes=PyStr, intern=lambda x: x,
        apply=lambda f, a=(), k={}: f(*a, **k), coerce=coerce_, format=str_format1,
        eval=eval_,
        raw_input=lambda *a: '', input=lambda *a: '',
        bytearray=bytearray, memoryview=memoryview,
        StandardError=Exception, __name__='__builtin__',
        execfile=None, unicode_=PyStr,
    )
    for n in dir(B):
        o = getattr(B, n)
        if isinstance(o, type) and issubclass(o, BaseException) and \
                n not in ('FileNotFoundError',):
            d[n] = o
    d['IOError'] = Py2IOError
    d['OSError'] = Py2OSError
    d['EnvironmentError'] = OSError
    return d


class Py2IOError(OSError):
    pass


class Py2OSError(OSError):
    pass
