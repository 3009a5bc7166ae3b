"""Symbolic strings.

A SymStr is a sequence of segments:
  str   concrete text
  Ch    one symbolic ASCII character (8 bit vector)
  Tok   an opaque word: an arbitrary non-empty lower-case alphanumeric word
        starting with a letter, of any length.  Words are points of a dense
        order (a real number); constants sit at the rational numbers given by
        their lexicographic expansion, so equality and order of words are
        exact and unbounded.
  Fmt   the decimal text of a symbolic number, in canonical form
Python str is used for completely concrete text.
"""
import re as _re
from fractions import Fraction
import z3
from . import engine as E
from . import values as V
from .values import (SymBase, SymBool, SymInt, SymReal, SymFP, mkbool, not_,
                     bterm)

WS = ' \t\n\r\x0b\x0c'
TOKEN = _re.compile(r'[a-z][a-z0-9]*\Z')
WORDCH = frozenset('abcdefghijklmnopqrstuvwxyz0123456789')
NUMCH = frozenset('0123456789.+-einfa')


def eng():
    return E.ENGINE


class Unknown(Exception):
    """The operation is not determined by the symbolic representation."""


_code_cache = {}


def code(s):
    """Order preserving injection of strings in the rationals."""
    r = _code_cache.get(s)
    if r is None:
        n = 0
        for c in s:
            n = n * 130 + min(ord(c), 127) + 1
        r = _code_cache[s] = Fraction(n, 130 ** len(s))
    return r


def rval(f):
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


class Ch(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Tok(object):
    __slots__ = ('t', 'name')

    def __init__(self, t, name):
        self.t = t
        self.name = name


class Fmt(object):
    """Canonical text of a number; spec 'd' (int), 's' (str of a number),
    or a format specification (opaque)."""
    __slots__ = ('spec', 'v')

    def __init__(self, spec, v):
        self.spec = spec
        self.v = v


LO, HI = code('a'), code('{')


def new_tok(name):
    t = z3.Real('tok!' + name)
    return Tok(t, name)


def tok_axiom(tok):
    return z3.And(tok.t >= rval(LO), tok.t < rval(HI))


def mk(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += s
                continue
        out.append(s)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def segs_of(x):
    if isinstance(x, str):
        return (x,) if x else ()
    return x.segs


def elements(x):
    """List of 1-char strings, Ch, Tok, Fmt."""
    out = []
    for s in segs_of(x):
        if isinstance(s, str):
            out.extend(s)
        else:
            out.append(s)
    return out


def is_ch(e):
    return isinstance(e, (str, Ch))


def bv(e):
    return z3.BitVecVal(ord(e), 8) if isinstance(e, str) else e.t


def ch_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(a, str) and ord(a) > 127 or isinstance(
            b, str) and ord(b) > 127:
        return z3.BoolVal(False)
    return bv(a) == bv(b)


def ch_in(e, chars):
    """term: character element e is one of chars"""
    if isinstance(e, str):
        return z3.BoolVal(e in chars)
    codes = sorted(set(ord(c) for c in chars))
    terms = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        if i == j:
            terms.append(e.t == codes[i])
        else:
            terms.append(z3.And(z3.UGE(e.t, codes[i]),
                                z3.ULE(e.t, codes[j])))
        i = j + 1
    return z3.Or(terms) if terms else z3.BoolVal(False)


def decide(t):
    return eng().branch(z3.simplify(t))


def num_text_value(s):
    """Value of a canonical decimal text or None."""
    if _re.match(r'-?(0|[1-9]\d*)\Z', s):
        return ('i', Fraction(int(s)))
    if _re.match(r'-?(0|[1-9]\d*)\.\d+\Z', s):
        v = Fraction(s)
        if repr(float(s)) == s or _re.match(r'-?\d+\.\d+\Z', s):
            return ('f', v)
    return None


def fmt_isint(f):
    return f.spec == 'd' or f.spec == 's' and isinstance(f.v, SymInt)


def fmt_eq_const(f, s):
    nv = num_text_value(s)
    if isinstance(f.v, SymFP):
        # repr/str of a double
        if f.spec not in ('s', 'r'):
            raise Unknown()
        try:
            x = float(s)
        except ValueError:
            return z3.BoolVal(False)
        if repr(x) != s:
            return z3.BoolVal(False)
        return (z3.fpIsNaN(f.v.t) if x != x
                else f.v.t == z3.FPVal(x, SymFP.S))
    if f.spec not in ('d', 's', 'r'):
        raise Unknown()
    if nv is None:
        return z3.BoolVal(False)
    kind, val = nv
    if fmt_isint(f):
        if kind != 'i':
            return z3.BoolVal(False)
        return f.v.t == z3.IntVal(val.numerator)
    if isinstance(f.v, SymReal):
        if f.v.kind == 'float':
            if kind != 'f' or repr(float(s)) != s:
                return z3.BoolVal(False)
        elif kind == 'f' and s.endswith('0') and not s.endswith('.0'):
            return z3.BoolVal(False)
        return f.v.t == rval(val)
    raise Unknown()


def fmt_eq(a, b):
    if isinstance(a.v, SymFP) or isinstance(b.v, SymFP):
        if isinstance(a.v, SymFP) and isinstance(b.v, SymFP) and \
                a.spec == b.spec:
            return z3.Or(a.v.t == b.v.t, z3.And(z3.fpIsNaN(a.v.t),
                                                z3.fpIsNaN(b.v.t)))
        raise Unknown()
    ai, bi = fmt_isint(a), fmt_isint(b)
    simple = ('d', 's', 'r')
    if a.spec in simple and b.spec in simple:
        if ai != bi:
            return z3.BoolVal(False)
        return a.v.t == b.v.t
    if a.spec == b.spec and a.v.t.eq(b.v.t):
        return z3.BoolVal(True)
    raise Unknown()


def atom_eq(a, b):
    """Equality of single segments / constants (str may be '')."""
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(b, str):
        a, b = b, a
    if isinstance(a, str):
        if isinstance(b, Tok):
            if not TOKEN.match(a):
                return z3.BoolVal(False)
            eng().consts[a] = True
            return b.t == rval(code(a))
        if isinstance(b, Fmt):
            return fmt_eq_const(b, a)
        if isinstance(b, Ch):
            return ch_eq(a, b) if len(a) == 1 else z3.BoolVal(False)
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a.t == b.t
    if isinstance(a, Fmt) and isinstance(b, Fmt):
        return fmt_eq(a, b)
    if isinstance(a, Ch) and isinstance(b, Ch):
        return a.t == b.t
    if isinstance(a, Tok) or isinstance(b, Tok):
        if isinstance(a, Fmt) or isinstance(b, Fmt):
            f = a if isinstance(a, Fmt) else b
            k = b if isinstance(a, Fmt) else a
            if isinstance(f.v, SymFP):
                eng().consts['nan'] = eng().consts['inf'] = True
                return z3.Or(
                    z3.And(z3.fpIsNaN(f.v.t), k.t == rval(code('nan'))),
                    z3.And(z3.fpIsInf(f.v.t), z3.fpIsPositive(f.v.t),
                           k.t == rval(code('inf'))))
            return z3.BoolVal(False)
    raise Unknown()


def split_delims(els):
    """Split elements at concrete characters which cannot belong to an atom.
    Returns (delims, pieces)."""
    delims, pieces, cur = [], [], []
    for e in els:
        if isinstance(e, str) and e not in WORDCH and e not in '.+-':
            delims.append(e)
            pieces.append(cur)
            cur = []
        else:
            cur.append(e)
    pieces.append(cur)
    return delims, pieces


def minlen(els):
    return len(els)


def els_eq(a, b):
    """z3 term: the element lists denote the same text."""
    a, b = list(a), list(b)
    conj = []
    # strip common prefix / suffix
    while a and b:
        x, y = a[0], b[0]
        if is_ch(x) and is_ch(y):
            conj.append(ch_eq(x, y))
        elif x is y or (isinstance(x, Tok) and isinstance(y, Tok)
                        and x.t.eq(y.t)) or (
                isinstance(x, Fmt) and isinstance(y, Fmt)
                and x.spec == y.spec and type(x.v) is type(y.v)
                and x.v.t.eq(y.v.t)):
            pass
        else:
            break
        a.pop(0)
        b.pop(0)
    while a and b:
        x, y = a[-1], b[-1]
        if is_ch(x) and is_ch(y):
            conj.append(ch_eq(x, y))
        elif x is y:
            pass
        else:
            break
        a.pop()
        b.pop()
    for t in conj:
        if z3.is_false(z3.simplify(t)):
            return z3.BoolVal(False)
    if not a and not b:
        return z3.And(conj) if conj else z3.BoolVal(True)
    if not a or not b:
        return z3.BoolVal(False)      # atoms are never empty
    ca = all(isinstance(e, str) for e in a)
    cb = all(isinstance(e, str) for e in b)
    if len(a) == 1 and len(b) == 1:
        conj.append(atom_eq(a[0], b[0]))
        return z3.And(conj)
    if len(a) == 1 and cb and not is_ch(a[0]):
        conj.append(atom_eq(a[0], ''.join(b)))
        return z3.And(conj)
    if len(b) == 1 and ca and not is_ch(b[0]):
        conj.append(atom_eq(b[0], ''.join(a)))
        return z3.And(conj)
    if all(is_ch(e) for e in a) and all(is_ch(e) for e in b):
        if len(a) != len(b):
            return z3.BoolVal(False)
        conj.extend(ch_eq(x, y) for x, y in zip(a, b))
        return z3.And(conj)
    noch = not any(isinstance(e, Ch) for e in a + b)
    if noch:
        da, pa = split_delims(a)
        db, pb = split_delims(b)
        if da != db:
            return z3.BoolVal(False)
        if len(pa) > 1:
            conj.extend(els_eq(x, y) for x, y in zip(pa, pb))
            return z3.And(conj)
        # a piece like  tok '-' 12  : split at '-' when nothing can contain it
        for d in '-.+':
            def can(els):
                return any(isinstance(e, Fmt) and not (
                    d != '-' and fmt_isint(e)) for e in els)
            if not can(a) and not can(b):
                na = [i for i, e in enumerate(a) if e == d]
                nb = [i for i, e in enumerate(b) if e == d]
                if len(na) != len(nb):
                    return z3.BoolVal(False)
                if na:
                    def cut(els, idx):
                        out, p = [], 0
                        for i in idx:
                            out.append(els[p:i])
                            p = i + 1
                        out.append(els[p:])
                        return out
                    for x, y in zip(cut(a, na), cut(b, nb)):
                        conj.append(els_eq(x, y))
                    return z3.And(conj)
        # words never start with a digit or contain sign/dot
        if len(a) == len(b) and all(
                type(x) is type(y) and not isinstance(x, str)
                for x, y in zip(a, b)) and len(a) == 2 and \
                isinstance(a[0], Fmt) and isinstance(a[1], Tok) and \
                fmt_isint(a[0]) and fmt_isint(b[0]):
            conj.append(atom_eq(a[0], b[0]))
            conj.append(atom_eq(a[1], b[1]))
            return z3.And(conj)
        # word followed by the digits of the same number of integers: lengths
        # are not known
        if isinstance(a[0], Tok) and isinstance(b[0], Fmt) or isinstance(
                b[0], Tok) and isinstance(a[0], Fmt):
            return z3.BoolVal(False)
    raise Unknown()


class SymStr(V.SymStr):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    # ------------------------------------------------------------ fallback
    def concrete(self):
        """Fix the text to one value of the current path (recorded as a
        restriction for words; exact enumeration for characters)."""
        out = []
        e = eng()
        for s in self.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, Ch):
                out.append(chr(e.value(s.t, lambda v: v.as_long())))
            elif isinstance(s, Fmt):
                v = s.v
                if isinstance(v, SymInt):
                    out.append(format_num(s.spec, v.__index__()))
                elif isinstance(v, SymFP):
                    v.__hash__()
                    out.append(format_num(s.spec, v.concrete()))
                else:
                    out.append(format_num(s.spec, v.concrete()))
            else:
                e.concretized['word'] = e.concretized.get('word', 0) + 1
                # exact if the word is already a known constant
                found = None
                for k in range(20):
                    m = e.get_model()
                    v = V.z3_fraction(m.eval(s.t, model_completion=True))
                    for c in sorted(e.consts):
                        if code(c) == v:
                            found = c
                    if found is None:
                        lo, hi = gap(v, list(e.consts))
                        try:
                            found = word_between(lo, hi, 0)
                        except E.EngineError:
                            if lo is None or hi is None or k == 19:
                                raise
                            # (nearly) adjacent words: look elsewhere
                            e.assume(z3.Or(s.t <= rval(code(lo)),
                                           s.t >= rval(code(hi))))
                            continue
                    break
                e.consts[found] = True
                # fork: the word is this representative (kept) -- the other
                # values of the class are not explored
                e.assume(s.t == rval(code(found)))
                out.append(found)
        return ''.join(out)

    # ------------------------------------------------------------ basic
    def __bool__(self):
        return True

    def __len__(self):
        n = 0
        for s in self.segs:
            if isinstance(s, str):
                n += len(s)
            elif isinstance(s, Ch):
                n += 1
            else:
                return len(self.concrete())
        return n

    def __hash__(self):
        return hash(self.concrete())

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented if not isinstance(
                o, (int, float, list, tuple, dict, type(None))) else False
        try:
            return mkbool(z3.simplify(els_eq(elements(self), elements(o))))
        except Unknown:
            return self.concrete() == (o if isinstance(o, str)
                                       else o.concrete())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _less(self, o, strict):
        """self < o (strict) or self <= o"""
        a, b = elements(self), elements(o)
        if all(is_ch(e) for e in a) and all(is_ch(e) for e in b):
            res = z3.BoolVal(len(a) < len(b) if strict else
                             len(a) <= len(b))
            for x, y in reversed(list(zip(a, b))):
                res = z3.Or(z3.ULT(bv(x), bv(y)),
                            z3.And(ch_eq(x, y), res))
            return mkbool(z3.simplify(res))
        # common prefix is irrelevant
        while a and b and (a[0] is b[0] or isinstance(a[0], str) and
                           a[0] == b[0] or isinstance(a[0], Tok) and
                           isinstance(b[0], Tok) and a[0].t.eq(b[0].t)):
            a.pop(0)
            b.pop(0)
        if not a or not b:
            if not a and not b:
                return not strict
            return not a
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], Tok) and \
                isinstance(b[0], Tok):
            f = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
            return mkbool(z3.simplify(f(a[0].t, b[0].t)))
        if len(a) == 1 and isinstance(a[0], Tok) and all(
                isinstance(e, str) for e in b):
            c = ''.join(b)
            eng().consts[c] = True
            t = rval(code(c))
            return mkbool(a[0].t < t if strict else a[0].t <= t)
        if len(b) == 1 and isinstance(b[0], Tok) and all(
                isinstance(e, str) for e in a):
            c = ''.join(a)
            eng().consts[c] = True
            t = rval(code(c))
            return mkbool(t < b[0].t if strict else t <= b[0].t)
        if isinstance(a[0], str) and isinstance(b[0], str):
            return a[0] < b[0]
        x = self.concrete() if isinstance(self, SymStr) else self
        y = o.concrete() if isinstance(o, SymStr) else o
        return x < y if strict else x <= y

    def __lt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr._less(self, o, True)

    def __le__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr._less(self, o, False)

    def __gt__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr._less(o, self, True)

    def __ge__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr._less(o, self, False)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.segs + segs_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(segs_of(o) + self.segs)
        return NotImplemented

    def __mul__(self, n):
        n = n.__index__()
        return mk(self.segs * max(n, 0))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import rt
        return rt.format_(self, args)

    def __rmod__(self, fmt):
        from . import rt
        return rt.format_(fmt, self)

    def __iter__(self):
        els = elements(self)
        if all(is_ch(e) for e in els):
            return iter([mk((e,)) for e in els])
        return iter(self.concrete())

    def __contains__(self, x):
        return bool(contains(self, x))

    def __getitem__(self, i):
        els = elements(self)
        if isinstance(i, slice):
            st = None if i.start is None else i.start.__index__()
            en = None if i.stop is None else i.stop.__index__()
            if i.step in (None, 1):
                if all(is_ch(e) for e in els):
                    return mk(els[st:en])
                n = len(els)

                def pos(k, default):
                    if k is None:
                        return default
                    if k >= 0:
                        if k <= n and all(is_ch(e) for e in els[:k]):
                            return k
                        raise Unknown()
                    if -k <= n and all(is_ch(e) for e in els[k:]):
                        return n + k
                    raise Unknown()
                try:
                    return mk(els[pos(st, 0):pos(en, n)])
                except Unknown:
                    return self.concrete()[st:en]
            if all(is_ch(e) for e in els):
                return mk(els[i])
            return self.concrete()[i]
        i = i.__index__()
        if i >= 0 and i < len(els) and all(is_ch(e) for e in els[:i + 1]):
            return mk((els[i],))
        if i < 0 and -i <= len(els) and all(is_ch(e) for e in els[i:]):
            return mk((els[i],))
        if all(is_ch(e) for e in els):
            raise IndexError('string index out of range')
        return self.concrete()[i]

    def __repr__(self):
        return '<SymStr %s>' % ''.join(
            s if isinstance(s, str) else '{%s}' % (
                s.t if not isinstance(s, Fmt) else s.v,) for s in self.segs)
    __str__ = __repr__

    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            if name.startswith('__') or not hasattr(str, name):
                raise AttributeError(name)
            s = self.concrete()
            if name == 'translate':
                from . import rt
                return lambda *a: rt.str_method(s, 'translate', *a)
            return getattr(s, name)
        return lambda *a, **k: m(self, *a, **k)

V.SymStr = SymStr if False else V.SymStr


def between(v, consts, hint):
    """A word whose code is in the same gap of the constants as v."""
    lo, hi = gap(v, consts)
    return word_between(lo, hi, 0)


def gap(v, consts):
    cs = sorted(set(consts), key=code)
    lo = None
    hi = None
    for c in cs:
        if code(c) < v:
            lo = c
        elif code(c) > v:
            hi = c
            break
    return lo, hi


def word_between(lo, hi, k):
    """A fresh word strictly between lo and hi (None = unbounded)."""
    cl = code(lo) if lo is not None else None
    chh = code(hi) if hi is not None else None

    def ok(w):
        return (TOKEN.match(w) and (cl is None or code(w) > cl)
                and (chh is None or code(w) < chh))
    for suf in ('0k%d' % k, 'k%d' % k, 'z%d' % k, '00%d' % k, '000%d' % k):
        w = (lo or '') + suf
        if ok(w):
            return w
    for c in 'mabcdefghijklnopqrstuvwxyz':
        w = '%sk%d' % (c, k)
        if ok(w):
            return w
    if hi:
        for i in range(1, len(hi)):
            if ok(hi[:i]):
                return hi[:i]
        for i in range(len(hi), 0, -1):
            pre = hi[:i - 1]
            for c in 'zyxwvutsrqponmlkjihgfedcba9876543210':
                w = pre + c + '%d' % k
                if ok(w):
                    return w
    raise E.EngineError('no word between %r and %r' % (lo, hi))


def format_num(spec, v):
    if spec == 'd':
        return str(int(v))
    if spec in ('s', 'r'):
        return text_of(v)
    return ('%' + spec) % v


def text_of(v):
    """Python 2 text of a number."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, float):
        if v == v and v not in (float('inf'), float('-inf')):
            s = '%.12g' % v
            if '.' not in s and 'e' not in s and 'n' not in s:
                s += '.0'
            if float(s) != v:
                s = repr(v)
            return s
        return repr(v)
    return str(v)


# ---------------------------------------------------------------- methods
def lift(x):
    if not isinstance(x, (str, SymStr)):
        raise TypeError('expected a character buffer object')
    return x


def conc(x):
    return x if isinstance(x, str) else x.concrete()


def same_el(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return p is q or isinstance(p, str) and isinstance(q, str) and p == q
    if type(p) is not type(q):
        return False
    if isinstance(p, Fmt):
        if p.spec != q.spec or type(p.v) is not type(q.v):
            return False
        return p.v is q.v or hasattr(p.v, 't') and p.v.t.eq(q.v.t)
    return p.t.eq(q.t)


def sublist(a, b):
    n = len(b)
    return any(all(same_el(p, q) for p, q in zip(a[i:i + n], b))
               for i in range(len(a) - n + 1))


def aligned(a, c, p, k):
    """Does c occur in a with c[k] at a[p]?  None when it may."""
    for step in (1, -1):
        i, j = p + step, k + step
        while 0 <= j < len(c):
            if not 0 <= i < len(a):
                return False
            e = a[i]
            if isinstance(e, str):
                if e != c[j]:
                    return False
            else:
                poss = WORDCH if isinstance(e, Tok) else fmt_chars(e)
                if c[j] not in poss:
                    return False
                return None
            i += step
            j += step
    return True


def contains(s, x):
    """substring test"""
    if not isinstance(x, (str, SymStr)):
        raise TypeError("'in <string>' requires string as left operand")
    a, b = elements(s), elements(x)
    if not b:
        return True
    if all(is_ch(e) for e in a) and all(is_ch(e) for e in b):
        terms = []
        for i in range(len(a) - len(b) + 1):
            terms.append(z3.And([ch_eq(p, q) for p, q in
                                 zip(a[i:i + len(b)], b)]))
        return mkbool(z3.simplify(z3.Or(terms))) if terms else False
    if all(isinstance(e, str) for e in b):
        c = ''.join(b)
        # runs of plain text of s
        run = ''
        for e in a:
            if isinstance(e, str):
                run += e
            else:
                if c in run:
                    return True
                run = ''
        if c in run:
            return True
        atoms = [e for e in a if not is_ch(e)]
        if not any(isinstance(e, Ch) for e in a):
            poss = set()
            for e in atoms:
                poss |= WORDCH if isinstance(e, Tok) else fmt_chars(e)
            # a delimiter char which no atom can contain
            out = [ch for ch in c if ch not in poss]
            if out:
                if len(c) == 1:
                    return False
                plain = set(ch for ch in a if isinstance(ch, str))
                if any(ch not in plain for ch in out):
                    return False
                k = c.index(out[0])
                r = False
                for p, e in enumerate(a):
                    if isinstance(e, str) and e == out[0]:
                        m = aligned(a, c, p, k)
                        if m is True:
                            return True
                        if m is None:
                            r = None
                if r is False:
                    return False
    if s is x or sublist(a, b):
        return True
    if len(segs_of(s)) == 1 and len(segs_of(x)) == 1 and \
            isinstance(segs_of(s)[0], Tok) and isinstance(
                segs_of(x)[0], Tok):
        if decide(segs_of(s)[0].t == segs_of(x)[0].t):
            return True
    if len(b) == 1 and isinstance(b[0], Tok):
        # the word may be one of the words which s is made of
        for e in a:
            if isinstance(e, Tok) and decide(e.t == b[0].t):
                return True
    return conc(x) in conc(s)


def fmt_chars(f):
    if fmt_isint(f):
        return frozenset('0123456789-')
    if f.spec in ('s', 'r', 'd'):
        return NUMCH
    return frozenset(chr(i) for i in range(32, 127))


def m_startswith(s, pre, *rng):
    if rng:
        return conc(s).startswith(conc(pre), *rng)
    if isinstance(pre, tuple):
        for p in pre:
            if m_startswith(s, p):
                return True
        return False
    a, b = elements(s), elements(lift(pre))
    n = len(b)
    if all(is_ch(e) for e in b):
        k = 0
        while k < n and k < len(a) and is_ch(a[k]):
            k += 1
        conj = z3.And([ch_eq(x, y) for x, y in zip(a[:k], b[:k])] or
                      [z3.BoolVal(True)])
        if k == n:
            return mkbool(z3.simplify(conj))
        if k == len(a):
            return False
        # an atom meets the rest of the prefix
        rest = b[k:]
        atom = a[k]
        if all(isinstance(e, str) for e in rest):
            first = rest[0]
            if isinstance(atom, Tok):
                if first not in 'abcdefghijklmnopqrstuvwxyz':
                    return False
                if all(c in WORDCH for c in rest) or k + 1 == len(a):
                    # a word starts with c  <=>  c <= word < succ(c)
                    if all(c in WORDCH for c in rest):
                        c = ''.join(rest)
                        nx = c[:-1] + chr(ord(c[-1]) + 1)
                        eng().consts[c] = True
                        eng().consts[nx] = True
                        t = z3.And(atom.t >= rval(code(c)),
                                   atom.t < rval(code(nx)))
                        if k + 1 == len(a):
                            return mkbool(z3.simplify(z3.And(conj, t)))
                    elif k + 1 == len(a):
                        return False
            elif isinstance(atom, Fmt):
                if first not in fmt_chars(atom):
                    return False
                if first == '-' and not isinstance(atom.v, SymFP) and \
                        atom.spec in ('d', 's', 'r') and len(rest) == 1:
                    return mkbool(z3.simplify(z3.And(conj, atom.v.t < 0)))
        if not decide(conj):
            return False
    else:
        if len(a) >= len(b) and all(
                x is y or is_ch(x) and is_ch(y) or
                isinstance(x, Tok) and isinstance(y, Tok) and x.t.eq(y.t)
                for x, y in zip(a, b)):
            if isinstance(b[-1], Tok) and len(a) > len(b) or True:
                return mkbool(z3.simplify(z3.And(
                    [ch_eq(x, y) for x, y in zip(a, b)
                     if is_ch(x) and is_ch(y)] or [z3.BoolVal(True)])))
        if len(b) == 1 and isinstance(b[0], Tok) and a and isinstance(
                a[0], Tok) and decide(a[0].t == b[0].t):
            return True
    return conc(s).startswith(conc(pre))


def m_endswith(s, suf, *rng):
    if rng:
        return conc(s).endswith(conc(suf), *rng)
    if isinstance(suf, tuple):
        for p in suf:
            if m_endswith(s, p):
                return True
        return False
    a, b = elements(s), elements(lift(suf))
    if all(is_ch(e) for e in b):
        k = 0
        n = len(b)
        while k < n and k < len(a) and is_ch(a[-1 - k]):
            k += 1
        conj = z3.And([ch_eq(a[-1 - i], b[-1 - i]) for i in range(k)] or
                      [z3.BoolVal(True)])
        if k == n:
            return mkbool(z3.simplify(conj))
        if k == len(a):
            return False
        if all(isinstance(e, str) for e in b):
            ch = b[-1 - k]
            atom = a[-1 - k]
            poss = WORDCH if isinstance(atom, Tok) else fmt_chars(atom)
            if ch not in poss:
                return False
        if not decide(conj):
            return False
    elif len(a) >= len(b) and all(
            x is y or isinstance(x, str) and x == y
            for x, y in zip(a[len(a) - len(b):], b)):
        return True
    return conc(s).endswith(conc(suf))


def is_space(e, chars):
    if isinstance(e, str):
        return e in chars
    if isinstance(e, Ch):
        return decide(ch_in(e, chars))
    poss = WORDCH if isinstance(e, Tok) else fmt_chars(e)
    if any(c in poss for c in chars):
        raise Unknown()
    return False


def strip(s, chars, left, right):
    chars = WS if chars is None else conc(chars)
    els = elements(s)
    try:
        i, j = 0, len(els)
        if left:
            while i < j and is_space(els[i], chars):
                i += 1
        if right:
            while i < j and is_space(els[j - 1], chars):
                j -= 1
        return mk(els[i:j])
    except Unknown:
        c = conc(s)
        if left:
            c = c.lstrip(chars)
        if right:
            c = c.rstrip(chars)
        return c


def m_split(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    els = elements(s)
    out = []
    if sep is None:
        cur = []
        for n, e in enumerate(els):
            if maxsplit >= 0 and len(out) >= maxsplit and cur:
                cur.append(e)
                continue
            if is_space(e, WS):
                if cur:
                    out.append(mk(cur))
                    cur = []
            else:
                cur.append(e)
        if maxsplit >= 0 and cur and len(out) == maxsplit:
            r = strip(mk(cur), None, False, True)
            if r:
                out.append(r)
        elif cur:
            out.append(mk(cur))
        return out
    sep = conc(sep)
    if not sep:
        raise ValueError('empty separator')
    try:
        for e in els:
            if not is_ch(e):
                poss = WORDCH if isinstance(e, Tok) else fmt_chars(e)
                if all(c in poss for c in sep) or any(
                        c in poss for c in sep) and len(sep) > 1:
                    raise Unknown()
        i = 0
        cur = []
        n = len(sep)
        while i < len(els):
            if (maxsplit < 0 or len(out) < maxsplit) and i + n <= len(els):
                win = els[i:i + n]
                if all(is_ch(e) for e in win) and decide(z3.And(
                        [ch_eq(x, y) for x, y in zip(win, sep)])):
                    out.append(mk(cur))
                    cur = []
                    i += n
                    continue
            cur.append(els[i])
            i += 1
        out.append(mk(cur))
        return out
    except Unknown:
        return conc(s).split(sep, maxsplit)


def m_rsplit(s, sep=None, maxsplit=-1):
    parts = m_split(s, sep)
    if maxsplit < 0 or len(parts) <= maxsplit + 1:
        return parts
    if sep is None:
        return conc(s).rsplit(None, maxsplit)
    k = len(parts) - maxsplit
    return [m_join(sep, parts[:k])] + parts[k:]


def m_partition(s, sep):
    parts = m_split(s, sep, 1)
    if len(parts) == 1:
        return (s, '', '')
    return (parts[0], sep, parts[1])


def m_rpartition(s, sep):
    parts = m_rsplit(s, sep, 1)
    if len(parts) == 1:
        return ('', '', s)
    return (parts[0], sep, parts[1])


def m_join(sep, seq):
    out = []
    for i, x in enumerate(seq):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item %d: expected string, %s found' % (
                i, type(x).__name__))
        if i:
            out.extend(segs_of(sep))
        out.extend(segs_of(x))
    return mk(out)


def m_lower(s):
    out = []
    for e in elements(s):
        if isinstance(e, str):
            out.append(e.lower())
        elif isinstance(e, Ch):
            out.append(Ch(z3.simplify(z3.If(
                z3.And(z3.UGE(e.t, 65), z3.ULE(e.t, 90)), e.t + 32, e.t))))
        else:
            out.append(e)      # words and numbers are lower case
    return mk(out)


def m_upper(s):
    out = []
    for e in elements(s):
        if isinstance(e, str):
            out.append(e.upper())
        elif isinstance(e, Ch):
            out.append(Ch(z3.simplify(z3.If(
                z3.And(z3.UGE(e.t, 97), z3.ULE(e.t, 122)), e.t - 32, e.t))))
        elif isinstance(e, Fmt) and fmt_isint(e):
            out.append(e)
        else:
            return conc(s).upper()
    return mk(out)


def m_find(s, x, *rng):
    if rng:
        return conc(s).find(conc(x), *rng)
    a, b = elements(s), elements(lift(x))
    if all(is_ch(e) for e in a) and all(is_ch(e) for e in b):
        for i in range(len(a) - len(b) + 1):
            if decide(z3.And([ch_eq(p, q) for p, q in
                              zip(a[i:i + len(b)], b)] or
                             [z3.BoolVal(True)])):
                return i
        return -1
    c = contains(s, x)
    if isinstance(c, bool) and not c:
        return -1
    # inside the leading plain text
    lead = ''
    for e in a:
        if not isinstance(e, str):
            break
        lead += e
    if isinstance(x, str) and x in lead:
        return lead.index(x)
    return conc(s).find(conc(x))


def m_index(s, x, *rng):
    r = m_find(s, x, *rng)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_replace(s, old, new, count=-1):
    if count < 0:
        parts = m_split(s, old) if conc(old) else None
        if parts is not None:
            return m_join(new, parts)
    return conc(s).replace(conc(old), conc(new), count)


def m_count(s, x, *rng):
    if rng or not conc(x):
        return conc(s).count(conc(x), *rng)
    return len(m_split(s, x)) - 1


def m_isdigit(s):
    els = elements(s)
    terms = []
    for e in els:
        if is_ch(e):
            terms.append(ch_in(e, '0123456789'))
        elif isinstance(e, Tok):
            return False
        elif isinstance(e, Fmt) and fmt_isint(e) and isinstance(e.v, SymInt):
            terms.append(e.v.t >= 0)
        elif isinstance(e, Fmt) and e.spec == 's':
            return False
        else:
            return conc(s).isdigit()
    return mkbool(z3.simplify(z3.And(terms)))


def m_encode(s, *a):
    return s


def chars_all(s, cls, chars):
    els = elements(s)
    terms = []
    for e in els:
        if is_ch(e):
            terms.append(ch_in(e, chars))
        else:
            return getattr(conc(s), cls)()
    return mkbool(z3.simplify(z3.And(terms)))


ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def m_isalnum(s):
    if all(isinstance(e, (Tok, Ch, str)) for e in elements(s)):
        return mkbool(z3.simplify(z3.And([
            ch_in(e, ALPHA + '0123456789') for e in elements(s)
            if is_ch(e)] or [z3.BoolVal(True)])))
    return conc(s).isalnum()


def m_format(s, *a, **k):
    from . import rt
    return rt.str_format(s, a, k)


def m_splitlines(s, keepends=False):
    out = []
    for line in m_split(s, '\n'):
        out.append(line)
    if out and isinstance(out[-1], str) and out[-1] == '':
        out.pop()
    elif keepends and out:
        return [x + '\n' for x in out[:-1]] + [out[-1]]
    if keepends:
        return [x + '\n' for x in out]
    return out


def m_islower(s):
    els = elements(s)
    if all(isinstance(e, (str, Tok)) for e in els) and any(
            isinstance(e, Tok) for e in els):
        return not any(isinstance(e, str) and e.isupper() for e in els)
    l = m_lower(s)
    if all(is_ch(e) for e in els):
        return mkbool(z3.simplify(z3.And(
            bterm(l == s), z3.Or([ch_in(e, ALPHA) for e in els]))))
    return conc(s).islower()


def _up(e):
    if isinstance(e, str):
        return e.upper()
    return Ch(z3.simplify(z3.If(
        z3.And(z3.UGE(e.t, 97), z3.ULE(e.t, 122)), e.t - 32, e.t)))


def _low(e):
    if isinstance(e, str):
        return e.lower()
    return Ch(z3.simplify(z3.If(
        z3.And(z3.UGE(e.t, 65), z3.ULE(e.t, 90)), e.t + 32, e.t)))


def _pick(cond, a, b):
    """The character a if cond else b."""
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    bv = [z3.BitVecVal(ord(x), 8) if isinstance(x, str) else x.t
          for x in (a, b)]
    if bv[0].size() != bv[1].size():
        n = max(bv[0].size(), bv[1].size())
        bv = [z3.ZeroExt(n - x.size(), x) if x.size() < n else x for x in bv]
    return Ch(z3.simplify(z3.If(cond, bv[0], bv[1])))


def m_title(s):
    els = elements(s)
    if not all(is_ch(e) for e in els):
        return conc(s).title()
    out = []
    prev = z3.BoolVal(False)
    for e in els:
        out.append(_pick(prev, _low(e), _up(e)))
        prev = z3.simplify(ch_in(e, ALPHA))
    return mk(out)


def m_capitalize(s):
    els = elements(s)
    if not all(is_ch(e) for e in els):
        return conc(s).capitalize()
    return mk([_low(e) if i else _up(e) for i, e in enumerate(els)])


def m_swapcase(s):
    els = elements(s)
    if not all(is_ch(e) for e in els):
        return conc(s).swapcase()
    return mk([_pick(z3.simplify(ch_in(e, LOWER)), _up(e), _low(e))
               for e in els])


def m_isupper(s):
    els = elements(s)
    if not all(is_ch(e) for e in els):
        return conc(s).isupper()
    return mkbool(z3.simplify(z3.And(
        bterm(m_upper(s) == s), z3.Or([ch_in(e, ALPHA) for e in els]))))


LOWER = 'abcdefghijklmnopqrstuvwxyz'

METHODS = dict(
    title=m_title, capitalize=m_capitalize, swapcase=m_swapcase,
    isupper=m_isupper,
    startswith=m_startswith, endswith=m_endswith,
    strip=lambda s, c=None: strip(s, c, True, True),
    lstrip=lambda s, c=None: strip(s, c, True, False),
    rstrip=lambda s, c=None: strip(s, c, False, True),
    split=m_split, rsplit=m_rsplit, join=m_join, lower=m_lower,
    upper=m_upper, find=m_find, index=m_index, replace=m_replace,
    count=m_count, isdigit=m_isdigit, encode=m_encode, decode=m_encode,
    partition=m_partition, rpartition=m_rpartition, format=m_format,
    splitlines=m_splitlines, islower=m_islower, isalnum=m_isalnum,
    isspace=lambda s: chars_all(s, 'isspace', WS),
    isalpha=lambda s: chars_all(s, 'isalpha', ALPHA),
)


# ---------------------------------------------------------------- numbers
def _digit(e):
    if isinstance(e, str):
        return z3.IntVal(ord(e) - 48)
    return z3.BV2Int(e.t) - 48


def _isin(e, chars):
    if not is_ch(e):
        return False
    return decide(ch_in(e, chars))


def parse_int(s):
    """int(text) for symbolic text (base 10)."""
    s2 = strip(s, None, True, True)
    if isinstance(s2, str):
        return int_text(s2)
    els = elements(s2)
    if len(els) == 1 and isinstance(els[0], Fmt):
        f = els[0]
        if fmt_isint(f):
            return f.v
        if isinstance(f.v, SymReal) and f.spec in ('s', 'r') and \
                f.v.kind == 'float':
            raise ValueError('invalid literal for int() with base 10')
        if isinstance(f.v, SymFP):
            raise ValueError('invalid literal for int() with base 10')
    if any(isinstance(e, Tok) for e in els):
        raise ValueError('invalid literal for int() with base 10')
    if not all(is_ch(e) for e in els):
        return int_text(conc(s))
    i = 0
    neg = False
    if els and _isin(els[0], '+-'):
        neg = decide(ch_eq(els[0], '-'))
        i = 1
    if i == len(els):
        raise ValueError('invalid literal for int() with base 10')
    v = z3.IntVal(0)
    for e in els[i:]:
        if not _isin(e, '0123456789'):
            raise ValueError('invalid literal for int() with base 10')
        v = v * 10 + _digit(e)
    return V.mkint(-v if neg else v)


DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def int_base(s, base):
    """int(text, base)"""
    if base == 10:
        return int_text(s) if isinstance(s, str) else parse_int(s)
    if base != 0 and not 2 <= base <= 36:
        raise ValueError('int() base must be >= 2 and <= 36')
    bad = 'invalid literal for int() with base %d' % base
    s2 = strip(s, None, True, True)
    els = elements(s2)
    if base == 0 and len(els) == 1 and isinstance(els[0], Fmt):
        return parse_int(s2)
    if any(isinstance(e, Tok) for e in els):
        raise ValueError(bad)
    if not all(is_ch(e) or isinstance(e, str) for e in els):
        els = list(conc(s2))
    i = 0
    neg = False
    if els and _isin(els[0], '+-'):
        neg = decide(ch_eq(els[0], '-'))
        i = 1
    els = els[i:]
    for b, c in ((16, 'xX'), (8, 'oO'), (2, 'bB')):
        if base in (0, b) and len(els) > 1 and \
                _isin(els[0], '0') and _isin(els[1], c):
            base, els = b, els[2:]
            break
    else:
        if base == 0:
            base = 10
            if len(els) > 1 and _isin(els[0], '0'):
                base, els = 8, els[1:]
    if not els:
        raise ValueError(bad)
    v = z3.IntVal(0)
    for e in els:
        if _isin(e, DIGITS[:min(base, 10)]):
            d = _digit(e)
        else:
            for k in range(10, base):
                if _isin(e, DIGITS[k] + DIGITS[k].upper()):
                    d = z3.IntVal(k)
                    break
            else:
                raise ValueError(bad)
        v = v * base + d
    return V.mkint(-v if neg else v)


def int_text(s):
    t = s.strip(WS)
    if '_' in t or not _re.match(r'[+-]?[0-9]+\Z', t):
        raise ValueError('invalid literal for int() with base 10: %r' % s)
    return int(t)


def float_text(s):
    t = s.strip(WS)
    if '_' in t:
        raise ValueError('could not convert string to float: %s' % s)
    try:
        return float(t)
    except ValueError:
        raise ValueError('could not convert string to float: %s' % s)


def _bad_float():
    raise ValueError('could not convert string to float')


def parse_float(s):
    s2 = strip(s, None, True, True)
    if isinstance(s2, str):
        return float_text(s2)
    els = elements(s2)
    if len(els) == 1:
        e = els[0]
        if isinstance(e, Fmt):
            if isinstance(e.v, SymFP):
                return e.v
            if fmt_isint(e):
                return SymReal(z3.ToReal(e.v.t), 'float')
            if e.spec in ('s', 'r'):
                return SymReal(e.v.t, 'float')
        if isinstance(e, Tok):
            for c, v in (('nan', float('nan')), ('inf', float('inf')),
                         ('infinity', float('inf'))):
                eng().consts[c] = True
                if decide(e.t == rval(code(c))):
                    return v
            _bad_float()
    if not all(is_ch(e) for e in els):
        return float_text(conc(s))
    v, exp = _parse_dec(els, _bad_float, True)
    if isinstance(v, float):
        return v
    return SymReal(z3.simplify(v), 'float')


def _parse_dec(els, bad, specials):
    n = len(els)
    i = 0
    neg = False
    if i < n and _isin(els[i], '+-'):
        neg = decide(ch_eq(els[i], '-'))
        i += 1
    if i == n:
        bad()
    if not _isin(els[i], '0123456789.'):
        word = m_lower(mk(els[i:]))
        for c, v in (('nan', float('nan')), ('inf', float('inf')),
                     ('infinity', float('inf'))):
            if len(c) == n - i and word == c:
                return (-v if neg else v), None
        bad()
    val = z3.IntVal(0)
    nd = 0
    scale = 1
    while i < n and _isin(els[i], '0123456789'):
        val = val * 10 + _digit(els[i])
        nd += 1
        i += 1
    if i < n and decide(ch_eq(els[i], '.')):
        i += 1
        while i < n and _isin(els[i], '0123456789'):
            val = val * 10 + _digit(els[i])
            scale *= 10
            nd += 1
            i += 1
    if nd == 0:
        bad()
    r = z3.ToReal(val) / scale
    if i < n:
        if not _isin(els[i], 'eE'):
            bad()
        i += 1
        eneg = False
        if i < n and _isin(els[i], '+-'):
            eneg = decide(ch_eq(els[i], '-'))
            i += 1
        if i == n:
            bad()
        ev = 0
        for e in els[i:]:
            if not _isin(e, '0123456789'):
                bad()
            d = int(e) if isinstance(e, str) else eng().value(
                z3.BV2Int(e.t) - 48, lambda v: v.as_long())
            ev = ev * 10 + d
        if ev > 300:
            raise E.EngineError('huge exponent')
        r = r / (10 ** ev) if eneg else r * (10 ** ev)
    return (-r if neg else r), None


def parse_decimal(s):
    import decimal
    s2 = strip(s, None, True, True)
    if isinstance(s2, str):
        if '_' in s2:
            raise decimal.InvalidOperation('Invalid literal for Decimal')
        return decimal.Decimal(s2)
    els = elements(s2)
    if len(els) == 1 and isinstance(els[0], Fmt):
        f = els[0]
        if isinstance(f.v, SymInt):
            return SymReal(z3.ToReal(f.v.t), 'dec')
        if isinstance(f.v, SymReal):
            return SymReal(f.v.t, 'dec')

    def bad():
        raise decimal.InvalidOperation('Invalid literal for Decimal')
    if any(isinstance(e, Tok) for e in els):
        bad()
    if not all(is_ch(e) for e in els):
        return decimal.Decimal(conc(s))
    v, _ = _parse_dec(els, bad, True)
    if isinstance(v, float):
        return decimal.Decimal(v)
    return SymReal(z3.simplify(v), 'dec')
