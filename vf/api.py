"""The harness interface, symbolic side (jyapi.py is the concrete twin)."""
import decimal
import math
import z3
from fractions import Fraction
from . import engine as E
from . import values as V
from . import strings as S
from . import containers as C
from . import rt
from .values import SymBool, SymInt, SymLong, SymReal, SymFP, mkbool, bterm, not_
from .strings import SymStr

ASCII = ''.join(chr(i) for i in range(128))


class Skip(object):
    pass


def shift(w, salt):
    return w


class Render(object):
    """Concrete input values for a model."""

    def __init__(self, eng, model, inputs):
        self.m = model
        self.words = {}
        toks = []
        for name, kind, t in inputs:
            if kind == 'tok':
                v = self.frac(t.t)
                toks.append(v)
        consts = dict((S.code(c), c) for c in eng.consts)
        known = sorted(consts.values(), key=S.code)
        for n, v in enumerate(sorted(set(toks))):
            if v in consts:
                self.words[v] = consts[v]
                continue
            lo = hi = None
            for c in known:
                if S.code(c) < v:
                    lo = c
            for c in known:
                if S.code(c) > v:
                    hi = c
                    break
            prev = [w for u, w in self.words.items() if u < v]
            if prev:
                p = max(prev, key=S.code)
                if lo is None or S.code(p) > S.code(lo):
                    lo = p
            self.words[v] = S.word_between(lo, hi, n)

    def frac(self, t):
        return V.z3_fraction(self.m.eval(t, model_completion=True))

    def value(self, kind, t):
        m = self.m
        if kind == 'int':
            return {'k': 'int', 'v': str(m.eval(
                t, model_completion=True).as_long())}
        if kind == 'bool':
            return {'k': 'bool', 'v': z3.is_true(m.eval(
                t, model_completion=True))}
        if kind == 'const':
            return {'k': 'const', 'v': t}
        if kind == 'fp':
            v = V.fp_value(m.eval(t, model_completion=True))
            return {'k': 'float', 'v': repr(v)}
        if kind == 'real':
            f = self.frac(t)
            return {'k': 'float', 'v': repr(f.numerator / f.denominator)}
        if kind == 'dec':
            f = self.frac(t)
            with decimal.localcontext() as ctx:
                ctx.prec = 60
                d = decimal.Decimal(f.numerator) / decimal.Decimal(
                    f.denominator)
            return {'k': 'dec', 'v': format(d, 'f')}
        if kind == 'tok':
            return {'k': 'str', 'v': self.words[self.frac(t.t)]}
        if kind == 'text':
            return {'k': 'str', 'v': ''.join(
                chr(m.eval(c, model_completion=True).as_long()) for c in t)}
        raise E.EngineError('input kind %s' % kind)

    def obs(self, x, depth=0):
        """Concrete image of a result under the model."""
        m = self.m
        if isinstance(x, SymBool):
            return z3.is_true(m.eval(x.t, model_completion=True))
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, SymInt):
            return num(m.eval(x.t, model_completion=True).as_long())
        if isinstance(x, int):
            return num(x)
        if isinstance(x, V.SymCase):
            return self.obs(x.cases[m.eval(
                x.var, model_completion=True).as_long()])
        if isinstance(x, SymReal):
            f = self.frac(x.t)
            return num(f.numerator / f.denominator)
        if isinstance(x, SymFP):
            return num(V.fp_value(m.eval(x.t, model_completion=True)))
        if isinstance(x, float):
            return num(x)
        if isinstance(x, decimal.Decimal):
            return num(float(x))
        if isinstance(x, str):
            return x
        if isinstance(x, SymStr):
            return self.text(x)
        if isinstance(x, (list, tuple)):
            return [self.obs(y, depth + 1) for y in x]
        if isinstance(x, dict):
            return ['dict'] + sorted(
                ([self.obs(k), self.obs(v)] for k, v in
                 rt.getattr_(x, 'items')()), key=repr)
        if isinstance(x, (set, frozenset)):
            return ['set'] + sorted((self.obs(k) for k in x), key=repr)
        if isinstance(x, BaseException):
            return ['exc', type(x).__name__.replace('Py2', '')]
        if isinstance(x, type):
            return ['type', x.__name__.replace('Py', '').lower()]
        return '<%s>' % type(x).__name__

    def text(self, s):
        out = []
        for g in S.segs_of(s):
            if isinstance(g, str):
                out.append(g)
            elif isinstance(g, S.Ch):
                out.append(chr(self.m.eval(
                    g.t, model_completion=True).as_long()))
            elif isinstance(g, S.Tok):
                v = self.frac(g.t)
                out.append(self.words.get(v, '?tok'))
            else:
                v = g.v
                if isinstance(v, SymInt):
                    n = self.m.eval(v.t, model_completion=True).as_long()
                elif isinstance(v, SymFP):
                    n = V.fp_value(self.m.eval(v.t, model_completion=True))
                elif isinstance(v, SymReal):
                    f = self.frac(v.t)
                    n = f.numerator / f.denominator
                    if v.kind == 'dec':
                        n = decimal.Decimal(f.numerator) / decimal.Decimal(
                            f.denominator)
                else:
                    out.append('?')
                    continue
                out.append('\0num')
        if '\0num' in out or '?' in out:
            return '\0'          # not compared
        return ''.join(out)


def num(x):
    if isinstance(x, float):
        if x != x:
            return 'nan'
        if x in (math.inf, -math.inf):
            return repr(x)
        return round_sig(x)
    return round_sig(float(x)) if abs(x) < 10 ** 300 else str(x)


def round_sig(x):
    return float('%.9g' % x) + 0.0


class H(object):
    def __init__(self, eng, loader, job, tier):
        self._e = eng
        self._ld = loader
        self._job = job
        self.tier = tier
        self.symbolic = True
        self._reached = []
        self._obs = []
        self._checks = []
        self._aux = 0

    # ------------------------------------------------------------ inputs
    def _name(self, name):
        n = self._e.names.get(name, 0)
        self._e.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _in(self, name, kind, t):
        self._e.inputs.append((name, kind, t))

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        t = z3.Int('int!' + name)
        self._in(name, 'int', t)
        c = []
        if lo is not None:
            c.append(t >= lo)
        if hi is not None:
            c.append(t <= hi)
        if c:
            self._e.assume(z3.And(c))
        return SymInt(t)

    def long(self, name, lo=None, hi=None):
        """An integer given as a long."""
        return SymLong(self.int(name, lo, hi).t)

    def case(self, name, lo, hi):
        """An integer in a small range, with exact float arithmetic."""
        i = self.int(name, lo, hi)
        return V.SymCase(i.t, dict((k, k) for k in range(lo, hi + 1)))

    def bool(self, name):
        name = self._name(name)
        t = z3.Bool('bool!' + name)
        self._in(name, 'bool', t)
        return SymBool(t)

    def flag(self, name):
        name = self._name(name)
        v = bool(self._e.pick(2))
        self._in(name, 'const', v)
        return v

    def size(self, name, lo, hi):
        name = self._name(name)
        v = lo + self._e.pick(hi - lo + 1)
        self._in(name, 'const', v)
        return v

    def pick(self, name, options):
        options = list(options)
        name = self._name(name)
        i = self._e.pick(len(options))
        self._in(name, 'const', i)
        return options[i]

    def real(self, name, lo=None, hi=None, den=None):
        return self._real(name, lo, hi, den, 'float', 'real')

    def dec(self, name, lo=None, hi=None, den=None):
        return self._real(name, lo, hi, den, 'dec', 'dec')

    def _real(self, name, lo, hi, den, kind, ik):
        name = self._name(name)
        if den is None:
            t = z3.Real('real!' + name)
        else:
            t = z3.ToReal(z3.Int('grid!' + name)) / z3.RealVal(den)
        self._in(name, ik, t)
        c = []
        if lo is not None:
            c.append(t >= V.rv(lo))
        if hi is not None:
            c.append(t <= V.rv(hi))
        if c:
            self._e.assume(z3.And(c))
        return SymReal(t, kind)

    def fp(self, name):
        name = self._name(name)
        t = z3.FP('fp!' + name, z3.Float64())
        self._in(name, 'fp', t)
        return SymFP(t)

    def tok(self, name):
        name = self._name(name)
        k = S.new_tok(name)
        self._in(name, 'tok', k)
        self._e.assume(S.tok_axiom(k))
        return SymStr((k,))

    def text(self, name, maxlen, minlen=0, alphabet=None):
        """A string of symbolic ASCII characters."""
        name = self._name(name)
        n = minlen + self._e.pick(maxlen - minlen + 1)
        return self._text(name, n, alphabet)

    def _text(self, name, n, alphabet):
        cs = [z3.BitVec('ch!%s!%d' % (name, i), 8) for i in range(n)]
        self._in(name, 'text', cs)
        for c in cs:
            if alphabet is None:
                self._e.assume(z3.ULT(c, 128))
            else:
                self._e.assume(S.ch_in(S.Ch(c), alphabet))
        return S.mk([S.Ch(c) for c in cs])

    def chars(self, name, n, alphabet=None):
        """A string of exactly n symbolic characters."""
        return self._text(self._name(name), n, alphabet)

    def numtext(self, v):
        """Canonical decimal text of a number."""
        if isinstance(v, (SymInt, SymReal, SymFP)):
            return S.mk((S.Fmt('s', v),))
        return rt.str_(v)

    def seq(self, name, lo, hi, f):
        return [f(i) for i in range(self.size(name, lo, hi))]

    # ------------------------------------------------------------ logic
    def And(self, *a):
        t = z3.And([bterm(x) for x in a]) if a else z3.BoolVal(True)
        return mkbool(z3.simplify(t))

    def Or(self, *a):
        t = z3.Or([bterm(x) for x in a]) if a else z3.BoolVal(False)
        return mkbool(z3.simplify(t))

    def Not(self, a):
        return mkbool(z3.simplify(z3.Not(bterm(a))))

    def Implies(self, a, b):
        return mkbool(z3.simplify(z3.Implies(bterm(a), bterm(b))))

    def Iff(self, a, b):
        return mkbool(z3.simplify(bterm(a) == bterm(b)))

    def If(self, c, a, b):
        """Numeric choice without forking."""
        if not isinstance(c, SymBool):
            return a if c else b
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and \
                not isinstance(a, bool):
            x = a.t if isinstance(a, SymInt) else z3.IntVal(a)
            y = b.t if isinstance(b, SymInt) else z3.IntVal(b)
            return V.mkint(z3.If(c.t, x, y))
        if V.isnum(a) and V.isnum(b) and not isinstance(
                a, SymFP) and not isinstance(b, SymFP):
            kind = 'dec' if any(
                isinstance(v, decimal.Decimal) or isinstance(v, SymReal)
                and v.kind == 'dec' for v in (a, b)) else 'float'

            def rterm(v):
                if isinstance(v, SymReal):
                    return v.t
                if isinstance(v, SymInt):
                    return z3.ToReal(v.t)
                return V.rv(v)
            return V.mkreal(z3.If(c.t, rterm(a), rterm(b)), kind)
        return a if c else b

    def Eq(self, a, b):
        """Structural equality of plain data, without forking."""
        return rt.deep_eq_term(a, b)

    def same(self, a, b):
        """Same value and same kind of number/text (1 is not 1.0)."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
                return False
            return self.And(*[self.same(x, y) for x, y in zip(a, b)])
        if rt.type_of(a) is not rt.type_of(b):
            return False
        if isinstance(a, SymFP) or isinstance(b, SymFP):
            x = a.t if isinstance(a, SymFP) else z3.FPVal(a, SymFP.S)
            y = b.t if isinstance(b, SymFP) else z3.FPVal(b, SymFP.S)
            return mkbool(z3.simplify(z3.Or(x == y, z3.And(
                z3.fpIsNaN(x), z3.fpIsNaN(y)))))
        if isinstance(a, float) and isinstance(b, float) and a != a:
            return b != b
        return rt.deep_eq_term(a, b)

    def close(self, a, b, tol=1e-9):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= tol
        return self.And(a - b <= tol, b - a <= tol)

    def count(self, conds):
        """Number of true conditions, without forking."""
        conds = list(conds)
        if not conds:
            return 0
        return V.mkint(z3.Sum([z3.If(bterm(c), z3.IntVal(1), z3.IntVal(0))
                               for c in conds]))

    def total(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def isnan(self, x):
        from . import models
        return models.m_isnan(x)

    # ------------------------------------------------------------ verdicts
    def assume(self, cond):
        self._e.assume(z3.simplify(bterm(cond)))

    def check(self, cond, label, *info):
        e = self._e
        self._checks.append(label)
        t = z3.simplify(bterm(cond))
        if not e.once():
            status = e.mark(None)
        else:
            status = 'ok'
            r = e.prove(t)
            if r == 'unknown':
                e.check_unknown.append(label)
            elif r is not None:
                status = 'viol'
                self._job.candidate(self, label, r, t, info)
            e.mark(status)
        if status == 'viol':
            if z3.is_false(t):
                e.dead = True
                raise E.PathAbort('violated')
            e.assume(t)

    def reach(self, label):
        self._reached.append(label)

    def observe(self, name, value):
        self._obs.append((name, value))

    def fail(self, label, *info):
        self.check(False, label, *info)

    # ------------------------------------------------------------ utilities
    def outcome(self, f, *a, **k):
        """('ok', result) or ('exc', exception)."""
        try:
            return ('ok', f(*a, **k))
        except E.Control:
            raise
        except BaseException as ex:
            return ('exc', ex)

    def newtype(self, meta, name, bases, dic):
        """Calls a metaclass."""
        return meta(name, tuple(bases), dict(
            (str(k), v) for k, v in rt.getattr_(dic, 'items')()))

    def oldclass(self, name):
        """An old-style class whose instances carry a text."""
        return rt.oldclass(name)

    def stdout(self):
        return S.m_join('', self._e.stdout.parts)

    def scratch(self):
        self._ld.fs.dirs.add('/scratch')
        return '/scratch'

    def close_zips(self):
        """
        Closes the zip files which are not closed (the reference counts of
        CPython do it as soon as they are not used any more).
        """

    def load(self, name):
        """Import a module by name."""
        self._ld.importer(name)
        return self._ld.modules[name]

    def forget(self, name):
        """The next load executes the module afresh."""
        self._ld.modules.pop(name, None)

    def set_argv(self, argv):
        self._ld.load('sys').argv = argv

    def raw_files(self, prefix):
        """Texts of the files below a directory: {relative path: text}."""
        out = []
        fs = self._ld.fs
        for p in fs.files.keys():
            if rt.truth(S.m_startswith(p, prefix + '/')):
                out.append(p)
        return sorted(out, key=lambda p: p if isinstance(p, str) else '~')
