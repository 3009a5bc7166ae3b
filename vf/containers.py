"""Dictionaries and sets whose keys may be symbolic (insertion ordered)."""
from .values import SymBase, SymBool


def has_sym(k):
    if isinstance(k, SymBase):
        return True
    if isinstance(k, tuple):
        for x in k:
            if has_sym(x):
                return True
        return False
    if isinstance(k, PyFrozenSet):
        return any(has_sym(x) for x in k)
    return False


def truth(x):
    return bool(x)


def key_eq(a, b):
    """Equality used for keys (forks on symbolic comparisons)."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        # decide all components at once: one fork instead of one per item
        from .rt import deep_eq_term
        r = deep_eq_term(a, b)
        return truth(r)
    return truth(a == b)


class Entry(object):
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v


class Store(object):
    """Ordered association list with an index for concrete keys."""
    __slots__ = ('ents', 'idx', 'nsym')

    def __init__(self):
        self.ents = {}      # id(entry) -> entry, insertion ordered
        self.idx = {}
        self.nsym = 0

    def find(self, k):
        if not has_sym(k):
            e = self.idx.get(k)
            if e is not None:
                return e
            if self.nsym:
                for e in list(self.ents.values()):
                    if has_sym(e.k) and key_eq(e.k, k):
                        return e
            return None
        for e in list(self.ents.values()):
            if key_eq(e.k, k):
                return e
        return None

    def put(self, k, v):
        e = self.find(k)
        if e is not None:
            e.v = v
            return
        e = Entry(k, v)
        self.ents[id(e)] = e
        if has_sym(k):
            self.nsym += 1
        else:
            self.idx[k] = e

    def drop(self, e):
        del self.ents[id(e)]
        if has_sym(e.k):
            self.nsym -= 1
        else:
            del self.idx[e.k]

    def clear(self):
        self.ents.clear()
        self.idx.clear()
        self.nsym = 0

    def keys(self):
        return [e.k for e in self.ents.values()]


class _Size(object):
    """size-changed detection like CPython's iterators"""


def _iter(st, f):
    n = len(st.ents)
    for e in list(st.ents.values()):
        if len(st.ents) != n:
            raise RuntimeError('dictionary changed size during iteration')
        yield f(e)


class DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is PyDict:
            return isinstance(x, dict) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is PyDict:
            return dict in getattr(c, '__mro__', ())
        return type.__subclasscheck__(cls, c)


class PyDict(dict, metaclass=DictMeta):
    def __new__(cls, *a, **k):
        self = dict.__new__(cls)
        self._st = Store()
        return self

    def __init__(self, *args, **kw):
        if len(args) > 1:
            raise TypeError('dict expected at most 1 arguments, got %d'
                            % len(args))
        self.update(*args, **kw)

    def update(self, *args, **kw):
        for o in args:
            if isinstance(o, PyDict) or hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for pair in o:
                    k, v = pair
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __getitem__(self, k):
        e = self._st.find(k)
        if e is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return e.v

    def __setitem__(self, k, v):
        self._st.put(k, v)

    def __delitem__(self, k):
        e = self._st.find(k)
        if e is None:
            raise KeyError(k)
        self._st.drop(e)

    def __contains__(self, k):
        return self._st.find(k) is not None

    def has_key(self, k):
        return k in self

    def get(self, k, d=None):
        e = self._st.find(k)
        return d if e is None else e.v

    def setdefault(self, k, d=None):
        e = self._st.find(k)
        if e is None:
            self[k] = d
            return d
        return e.v

    _no = object()

    def pop(self, k, d=_no):
        e = self._st.find(k)
        if e is None:
            if d is PyDict._no:
                raise KeyError(k)
            return d
        self._st.drop(e)
        return e.v

    def popitem(self, last=True):
        ents = list(self._st.ents.values())
        if not ents:
            raise KeyError('popitem(): dictionary is empty')
        e = ents[-1 if last else 0]
        self._st.drop(e)
        return (e.k, e.v)

    def clear(self):
        self._st.clear()

    def copy(self):
        new = type(self).__new__(type(self))
        for attr, val in vars(self).items():
            if attr != '_st':
                setattr(new, attr, val)
        for e in self._st.ents.values():
            new._st.put(e.k, e.v)
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        new = type(self).__new__(type(self))
        memo[id(self)] = new
        for e in self._st.ents.values():
            new._st.put(copy.deepcopy(e.k, memo), copy.deepcopy(e.v, memo))
        return new

    def keys(self):
        return self._st.keys()

    def values(self):
        return [e.v for e in self._st.ents.values()]

    def items(self):
        return [(e.k, e.v) for e in self._st.ents.values()]

    def iterkeys(self):
        return _iter(self._st, lambda e: e.k)

    def itervalues(self):
        return _iter(self._st, lambda e: e.v)

    def iteritems(self):
        return _iter(self._st, lambda e: (e.k, e.v))
    viewkeys, viewvalues, viewitems = keys, values, items

    def __iter__(self):
        return _iter(self._st, lambda e: e.k)

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def __len__(self):
        return len(self._st.ents)

    def __bool__(self):
        return len(self._st.ents) > 0

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not truth(o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % i for i in self.items())

    def __or__(self, o):
        raise TypeError('unsupported operand type(s) for |')

    @classmethod
    def fromkeys(cls, keys, v=None):
        d = cls()
        for k in keys:
            d[k] = v
        return d


class DefaultDict(PyDict):
    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        PyDict.__init__(self, *args, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class OrderedDict(PyDict):
    def __eq__(self, o):
        if isinstance(o, OrderedDict):
            a, b = self.items(), o.items()
            return len(a) == len(b) and truth(a == b)
        return PyDict.__eq__(self, o)
    __hash__ = None

    def move_to_end(self, k):
        raise AttributeError('move_to_end')


class Counter(PyDict):
    """collections.Counter of Python 2.7, over symbolic keys and counts."""

    def __init__(self, it=None, **kw):
        PyDict.__init__(self)
        self.update(it, **kw)

    def __missing__(self, k):
        return 0

    def _tally(self, sign, it, kw):
        for o in (it, kw or None):
            if o is None:
                continue
            if isinstance(o, dict) or hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = self.get(k, 0) + sign * o[k]
            else:
                for k in o:
                    self[k] = self.get(k, 0) + sign

    def update(self, it=None, **kw):
        self._tally(1, it, kw)

    def subtract(self, it=None, **kw):
        self._tally(-1, it, kw)

    def elements(self):
        for k in self:
            for _ in range(self[k]):
                yield k

    def most_common(self, n=None):
        from .rt import sorted_
        out = sorted_(self.items(), key=lambda kv: kv[1], reverse=True)
        return out if n is None else out[:n]

    def copy(self):
        return type(self)(self)

    @classmethod
    def fromkeys(cls, keys, v=None):
        raise NotImplementedError('Counter.fromkeys() is undefined.  '
                                  'Use Counter(iterable) instead.')

    def __delitem__(self, k):
        if k in self:
            PyDict.__delitem__(self, k)

    def _pair(self, o, f):
        if not isinstance(o, Counter):
            return NotImplemented
        r = Counter()
        for k in list(self) + [k for k in o if k not in self]:
            n = f(self[k], o[k])
            if n > 0:
                r[k] = n
        return r

    def __add__(self, o):
        return self._pair(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._pair(o, lambda a, b: a - b)

    def __or__(self, o):
        return self._pair(o, lambda a, b: b if a < b else a)

    def __and__(self, o):
        return self._pair(o, lambda a, b: a if a < b else b)


class SetBase(object):
    def _init(self, it):
        self._st = Store()
        for x in it:
            self._st.put(x, None)

    def __contains__(self, k):
        return self._st.find(k) is not None

    def __iter__(self):
        return _iter(self._st, lambda e: e.k)

    def __len__(self):
        return len(self._st.ents)

    def __bool__(self):
        return len(self._st.ents) > 0

    def _new(self, it):
        cls = PyFrozenSet if isinstance(self, PyFrozenSet) else PySet
        return cls(it)

    def copy(self):
        return self._new(self)

    def union(self, *os):
        r = list(self)
        for o in os:
            r.extend(o)
        return self._new(r)

    def intersection(self, *os):
        r = list(self)
        for o in os:
            o = o if hasattr(o, '__contains__') and not isinstance(
                o, (str, list, tuple)) else PySet(o)
            r = [x for x in r if x in o]
        return self._new(r)

    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, (set, frozenset, dict)) else PySet(o)
            r = [x for x in r if x not in o]
        return self._new(r)

    def symmetric_difference(self, o):
        o = PySet(o)
        return self._new([x for x in self if x not in o] +
                         [x for x in o if x not in self])

    def issubset(self, o):
        o = o if isinstance(o, (set, frozenset)) else PySet(o)
        return len(self) <= len(o) and all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _chk(self, o):
        return isinstance(o, (set, frozenset))

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._chk(
            o) else NotImplemented

    def __eq__(self, o):
        if not self._chk(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o) if self._chk(o) else NotImplemented

    def __lt__(self, o):
        return (len(self) < len(o) and self.issubset(o)) if self._chk(
            o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._chk(o) else NotImplemented

    def __gt__(self, o):
        return (len(self) > len(o) and self.issuperset(o)) if self._chk(
            o) else NotImplemented

    def __repr__(self):
        return 'set([%s])' % ', '.join(repr(x) for x in self)


class SetMeta(type):
    def __instancecheck__(cls, x):
        if cls is PySet:
            return isinstance(x, set)
        if cls is PyFrozenSet:
            return isinstance(x, frozenset)
        return type.__instancecheck__(cls, x)


class PySet(SetBase, set, metaclass=SetMeta):
    def __new__(cls, *a):
        self = set.__new__(cls)
        return self

    def __init__(self, it=()):
        self._init(it)
    __hash__ = None
    __eq__ = SetBase.__eq__

    def add(self, k):
        self._st.put(k, None)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self._st.put(x, None)

    def remove(self, k):
        e = self._st.find(k)
        if e is None:
            raise KeyError(k)
        self._st.drop(e)

    def discard(self, k):
        e = self._st.find(k)
        if e is not None:
            self._st.drop(e)

    def pop(self):
        ents = list(self._st.ents.values())
        if not ents:
            raise KeyError('pop from an empty set')
        self._st.drop(ents[0])
        return ents[0].k

    def clear(self):
        self._st.clear()

    def _assign(self, other):
        keys = list(other)
        self._st.clear()
        for k in keys:
            self._st.put(k, None)

    def difference_update(self, *os):
        self._assign(self.difference(*os))

    def intersection_update(self, *os):
        self._assign(self.intersection(*os))

    def symmetric_difference_update(self, o):
        self._assign(self.symmetric_difference(o))

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class PyFrozenSet(SetBase, frozenset, metaclass=SetMeta):
    def __new__(cls, *a):
        return frozenset.__new__(cls)

    def __init__(self, it=()):
        self._init(it)
    __eq__ = SetBase.__eq__

    def __hash__(self):
        return hash(frozenset(self._st.keys()))
