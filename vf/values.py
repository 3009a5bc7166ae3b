"""Symbolic values: booleans, integers, reals (floats and decimals), IEEE
doubles and strings."""
import decimal
import fractions
import math
import z3
from . import engine as E

Fraction = fractions.Fraction


def eng():
    return E.ENGINE


class SymBase(object):
    __slots__ = ()


# ------------------------------------------------------------------ booleans
def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if x is NotImplemented:
        return z3.BoolVal(False)
    return z3.BoolVal(bool(x))


class SymBool(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(self.t == bterm(o)))
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.t, bterm(o)))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.t, bterm(o)))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return '<SymBool %s>' % self.t


def _delegate(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    f.__name__ = name
    return f

for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ '
           '__gt__ __ge__ __neg__ __pos__ __abs__ __floordiv__ '
           '__rfloordiv__ __truediv__ __rtruediv__ __mod__ __rmod__').split():
    setattr(SymBool, _n, _delegate(_n))


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.simplify(z3.Not(x.t)))
    return not x


# ------------------------------------------------------------------ numbers
def frac(x):
    """Exact rational value of a finite concrete number."""
    if isinstance(x, decimal.Decimal):
        return Fraction(x)
    return Fraction(x)


def rv(x):
    f = frac(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)
                      if f.denominator != 1 else f.numerator)


def isnum(x):
    return isinstance(x, (int, float, decimal.Decimal, SymInt, SymReal,
                          SymBool, SymFP, SymCase))


def z3_fraction(v):
    """Fraction of a z3 numeral."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise E.EngineError('not a numeral: %s' % v)


class SymInt(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # -- helpers
    def _other(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymBool):
            return o.as_int().t
        return None

    def _bin(self, o, f, name):
        t = self._other(o)
        if t is not None:
            return mkint(f(self.t, t))
        if isinstance(o, (float, SymReal, SymFP, decimal.Decimal)):
            return getattr(self.toreal(o), name)(o)
        return NotImplemented

    def toreal(self, like=None):
        if isinstance(like, SymFP):
            return SymFP(z3.fpToFP(z3.RNE(), z3.ToReal(self.t),
                                   z3.Float64()))
        kind = 'dec' if (isinstance(like, decimal.Decimal) or isinstance(
            like, SymReal) and like.kind == 'dec') else 'float'
        return SymReal(z3.ToReal(self.t), kind)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, '__add__')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, '__radd__')

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, '__rsub__')

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, '__mul__')

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def __invert__(self):
        return mkint(-self.t - 1)

    @staticmethod
    def _divmod(a, b):
        """floor division of int terms (b != 0 already known)"""
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            if sb.as_long() > 0:
                return a / sb, a % sb
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return q, a - q * b

    def _zero(self, b):
        if SymBool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        t = self._other(o)
        if t is None:
            return self._bin(o, None, '__floordiv__')
        self._zero(t)
        return mkint(self._divmod(self.t, t)[0])

    def __rfloordiv__(self, o):
        t = self._other(o)
        if t is None:
            return self._bin(o, None, '__rfloordiv__')
        self._zero(self.t)
        return mkint(self._divmod(t, self.t)[0])

    def __mod__(self, o):
        t = self._other(o)
        if t is None:
            return self._bin(o, None, '__mod__')
        self._zero(t)
        return mkint(self._divmod(self.t, t)[1])

    def __rmod__(self, o):
        t = self._other(o)
        if t is None:
            return self._bin(o, None, '__rmod__')
        self._zero(self.t)
        return mkint(self._divmod(t, self.t)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.toreal(o) / o

    def __rtruediv__(self, o):
        return o / self.toreal(o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, (SymInt, SymBool)):
            return self ** o.__index__()
        return self.toreal() ** o

    def __rpow__(self, o):
        return rpow(o, self)

    def _cmp(self, o, f, name):
        t = self._other(o)
        if t is not None:
            return mkbool(z3.simplify(f(self.t, t)))
        if isinstance(o, (float, SymReal, SymFP, decimal.Decimal)):
            return getattr(self.toreal(o), name)(o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return False if r is NotImplemented and not hasattr(
            type(o), '__eq__') else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return eng().branch(z3.simplify(self.t != 0))

    def __index__(self):
        return eng().value(self.t, lambda v: v.as_long())

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __and__(self, o):
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __repr__(self):
        return '<SymInt %s>' % self.t

    def __str__(self):
        return '<SymInt %s>' % self.t

    def __getattr__(self, name):
        if name in ('real', 'numerator'):
            return self
        if name == 'imag':
            return 0
        if name == 'denominator':
            return 1
        if name == 'bit_length':
            v = self.__index__()
            return v.bit_length
        raise AttributeError(name)


def mkint(t):
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


def mkreal(t, kind):
    return SymReal(z3.simplify(t), kind)


class SymLong(SymInt):
    """An integer given as a long; results of arithmetic are not marked."""
    __slots__ = ()


class SymReal(SymBase):
    """A Python float ('float') or Decimal ('dec') seen as an exact real."""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind='float'):
        self.t = t
        self.kind = kind

    def _other(self, o):
        """(term, special) -- special is 'nan', 'inf', '-inf' or None"""
        if isinstance(o, SymReal):
            return o.t, None
        if isinstance(o, SymInt):
            return z3.ToReal(o.t), None
        if isinstance(o, SymBool):
            return z3.ToReal(o.as_int().t), None
        if isinstance(o, (int, bool)):
            return z3.RealVal(int(o)), None
        if isinstance(o, float):
            if o != o:
                return None, 'nan'
            if o in (math.inf, -math.inf):
                return None, 'inf' if o > 0 else '-inf'
            return rv(o), None
        if isinstance(o, decimal.Decimal):
            if o.is_nan():
                return None, 'nan'
            if o.is_infinite():
                return None, 'inf' if o > 0 else '-inf'
            return rv(o), None
        return None, NotImplemented

    def _okmix(self, o):
        if self.kind == 'dec':
            if isinstance(o, float) or isinstance(
                    o, SymReal) and o.kind == 'float':
                raise TypeError('unsupported operand type(s): Decimal and '
                                'float')
        elif isinstance(o, decimal.Decimal) or isinstance(
                o, SymReal) and o.kind == 'dec':
            raise TypeError('unsupported operand type(s): float and Decimal')

    def _bin(self, o, f, swap=False):
        if isinstance(o, (SymFP, LogNum)):
            return NotImplemented
        t, sp = self._other(o)
        if sp is NotImplemented:
            return NotImplemented
        self._okmix(o)
        if t is None:
            raise E.EngineError('infinite operand')
        return mkreal(f(t, self.t) if swap else f(self.t, t), self.kind)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def _zero(self, b):
        if SymBool(z3.simplify(b == 0)):
            if self.kind == 'dec':
                raise decimal.DivisionByZero('x / 0')
            raise ZeroDivisionError('float division by zero')

    def __truediv__(self, o):
        if isinstance(o, (SymFP, LogNum)):
            return NotImplemented
        t, sp = self._other(o)
        if sp is NotImplemented:
            return NotImplemented
        self._okmix(o)
        if t is None:
            if sp == 'nan':
                return math.nan
            return mkreal(z3.RealVal(0), self.kind)
        self._zero(t)
        return mkreal(self.t / t, self.kind)

    def __rtruediv__(self, o):
        t, sp = self._other(o)
        if sp is NotImplemented:
            return NotImplemented
        self._okmix(o)
        if t is None:
            raise E.EngineError('infinite operand')
        self._zero(self.t)
        return mkreal(t / self.t, self.kind)

    def __floordiv__(self, o):
        q = self / o
        return mkreal(z3.ToReal(z3.ToInt(q.t)), self.kind)

    def __rfloordiv__(self, o):
        q = o / self
        return mkreal(z3.ToReal(z3.ToInt(q.t)), self.kind)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __pow__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int) and 0 <= o <= 8:
            r = SymReal(z3.RealVal(1), self.kind)
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, int) and o < 0:
            return 1 / (self ** -o)
        if isinstance(o, (SymInt, SymBool)):
            return self ** o.__index__()
        raise E.EngineError('symbolic power')

    def __rpow__(self, o):
        return rpow(o, self)

    def __neg__(self):
        return mkreal(-self.t, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.t < 0, -self.t, self.t), self.kind)

    def _cmp(self, o, f, name):
        if isinstance(o, SymFP):
            return NotImplemented
        if isinstance(o, LogNum):
            return NotImplemented
        t, sp = self._other(o)
        if sp is NotImplemented:
            return NotImplemented
        if t is None:
            if sp == 'nan':
                return name == '__ne__'
            return {'__lt__': sp == 'inf', '__le__': sp == 'inf',
                    '__gt__': sp == '-inf', '__ge__': sp == '-inf',
                    '__eq__': False}[name]
        return mkbool(z3.simplify(f(self.t, t)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '__eq__')
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return eng().branch(z3.simplify(self.t != 0))

    def trunc(self):
        t = self.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def floor(self):
        return mkint(z3.ToInt(self.t))

    def ceil(self):
        return mkint(-z3.ToInt(-self.t))

    def concrete(self):
        e = eng()
        e.concretized['real'] = e.concretized.get('real', 0) + 1
        f = e.value(self.t, z3_fraction)
        if self.kind == 'dec':
            return decimal.Decimal(f.numerator) / decimal.Decimal(
                f.denominator)
        return f.numerator / f.denominator

    def __int__(self):
        return self.trunc().__index__()

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return '<SymReal %s %s>' % (self.kind, self.t)
    __str__ = __repr__

    def __getattr__(self, name):
        if name == 'is_integer':
            return lambda: mkbool(z3.IsInt(self.t))
        if name == 'real':
            return self
        if name.startswith('__'):
            raise AttributeError(name)
        if self.kind == 'dec':
            if name == 'is_nan' or name == 'is_infinite':
                return lambda: False
            if name == 'normalize' or name == 'quantize':
                return lambda *a: self
        raise AttributeError(name)


def rpow(base, exp):
    if isinstance(base, (int, float)) and base == 10 and isinstance(
            exp, (SymReal, SymInt)):
        t = exp.t if isinstance(exp, SymReal) else z3.ToReal(exp.t)
        return LogNum(t, Fraction(1))
    if isinstance(exp, SymInt):
        return base ** exp.__index__()
    return base ** exp.concrete()


class LogNum(SymBase):
    """factor * 10**t -- only multiplied/divided by positive constants and
    taken the logarithm of."""
    __slots__ = ('t', 'factor')

    def __init__(self, t, factor):
        self.t = t
        self.factor = factor

    def _const(self, o):
        if isinstance(o, (SymInt,)):
            o = o.__index__()
        if isinstance(o, SymReal):
            o = o.concrete()
        if isinstance(o, (int, float)) and o > 0:
            return Fraction(o)
        return None

    def __truediv__(self, o):
        if isinstance(o, LogNum):
            return LogNum(self.t - o.t, self.factor / o.factor)
        if isinstance(o, (int, float)) and o == 0:
            raise ZeroDivisionError('float division by zero')
        c = self._const(o)
        if c is None:
            raise E.EngineError('LogNum division')
        return LogNum(self.t, self.factor / c)

    def __rtruediv__(self, o):
        c = self._const(o)
        if c is None:
            raise E.EngineError('LogNum division')
        return LogNum(-self.t, c / self.factor)

    def __mul__(self, o):
        if isinstance(o, LogNum):
            return LogNum(self.t + o.t, self.factor * o.factor)
        c = self._const(o)
        if c is None:
            raise E.EngineError('LogNum multiplication')
        return LogNum(self.t, self.factor * c)
    __rmul__ = __mul__

    def log10(self):
        if self.factor == 1:
            return mkreal(self.t, 'float')
        c = math.log10(self.factor.numerator) - math.log10(
            self.factor.denominator)
        return mkreal(self.t + rv(c), 'float')

    def __gt__(self, o):
        if isinstance(o, (int, float)) and o <= 0:
            return True
        return NotImplemented
    __ge__ = __gt__

    def __lt__(self, o):
        if isinstance(o, (int, float)) and o <= 0:
            return False
        return NotImplemented
    __le__ = __lt__

    def __bool__(self):
        return True

    def __hash__(self):
        raise E.EngineError('LogNum hash')


class SymFP(SymBase):
    """An IEEE 754 double."""
    __slots__ = ('t',)
    S = z3.Float64()

    def __init__(self, t):
        self.t = t

    def _other(self, o):
        if isinstance(o, SymFP):
            return o.t
        if isinstance(o, (bool, int, float)):
            try:
                return z3.FPVal(float(o), self.S)
            except OverflowError:
                return None
        if isinstance(o, SymInt):
            return z3.fpToFP(z3.RNE(), z3.ToReal(o.t), self.S)
        if isinstance(o, SymReal) and o.kind == 'float':
            return z3.fpToFP(z3.RNE(), o.t, self.S)
        if isinstance(o, SymBool):
            return self._other(int(bool(o)))
        return None

    def _bin(self, o, f, swap=False):
        t = self._other(o)
        if t is None:
            return NotImplemented
        a, b = (t, self.t) if swap else (self.t, t)
        return SymFP(f(z3.RNE(), a, b))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        t = self._other(o)
        if t is None:
            return NotImplemented
        if SymBool(z3.fpIsZero(t)):
            raise ZeroDivisionError('float division by zero')
        return SymFP(z3.fpDiv(z3.RNE(), self.t, t))

    def __rtruediv__(self, o):
        t = self._other(o)
        if t is None:
            return NotImplemented
        if SymBool(z3.fpIsZero(self.t)):
            raise ZeroDivisionError('float division by zero')
        return SymFP(z3.fpDiv(z3.RNE(), t, self.t))

    def __neg__(self):
        return SymFP(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFP(z3.fpAbs(self.t))

    def _cmp(self, o, f):
        if isinstance(o, decimal.Decimal):
            raise E.EngineError('Decimal with IEEE double')
        t = self._other(o)
        if t is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.t, t)))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return eng().branch(z3.simplify(z3.Not(z3.fpIsZero(self.t))))

    def isnan(self):
        return mkbool(z3.simplify(z3.fpIsNaN(self.t)))

    def isinf(self):
        return mkbool(z3.simplify(z3.fpIsInf(self.t)))

    def trunc(self):
        if self.isnan():
            raise ValueError('cannot convert float NaN to integer')
        if self.isinf():
            raise OverflowError('cannot convert float infinity to integer')
        r = z3.fpToReal(self.t)
        return SymInt(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))

    def concrete(self):
        e = eng()
        e.concretized['fp'] = e.concretized.get('fp', 0) + 1
        return fp_value(e.get_model().eval(self.t, model_completion=True))

    def __hash__(self):
        e = eng()
        e.concretized['fp'] = e.concretized.get('fp', 0) + 1
        v = fp_value(e.get_model().eval(self.t, model_completion=True))
        e.assume(self.t == z3.FPVal(v, self.S))
        return hash(v)

    def __float__(self):
        e = eng()
        e.concretized['fp'] = e.concretized.get('fp', 0) + 1
        v = fp_value(e.get_model().eval(self.t, model_completion=True))
        e.assume(self.t == z3.FPVal(v, self.S))
        return v

    def __repr__(self):
        return '<SymFP %s>' % self.t
    __str__ = __repr__

    def __getattr__(self, name):
        if name == 'is_integer':
            return lambda: mkbool(z3.And(
                z3.Not(z3.fpIsInf(self.t)), z3.Not(z3.fpIsNaN(self.t)),
                z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.t), self.t)))
        raise AttributeError(name)


class SymCase(SymBase):
    """A number depending on a symbolic integer with finitely many values:
    the operations are those of the interpreter, value by value, hence exact
    also for floating point arithmetic."""
    __slots__ = ('var', 'cases')

    def __init__(self, var, cases):
        self.var = var
        self.cases = cases

    def sample(self):
        return next(iter(self.cases.values()))

    def fork(self):
        """One value, forking over the feasible ones."""
        k = eng().value(self.var, lambda v: v.as_long())
        return self.cases[k]

    def sym(self):
        """As an ordinary symbolic number."""
        items = list(self.cases.items())
        if isinstance(items[0][1], float):
            t = rv(items[-1][1])
            for k, v in items[:-1]:
                t = z3.If(self.var == k, rv(v), t)
            return SymReal(t, 'float')
        t = z3.IntVal(items[-1][1])
        for k, v in items[:-1]:
            t = z3.If(self.var == k, z3.IntVal(v), t)
        return SymInt(t)

    def __bool__(self):
        r = case_lift(lambda a: a != 0, self)
        return bool(r)

    def __index__(self):
        return self.fork().__index__()
    __int__ = __index__

    def __float__(self):
        return float(self.fork())

    def __hash__(self):
        return hash(self.fork())

    def __repr__(self):
        return '<SymCase %s>' % self.var

    def __getattr__(self, name):
        return getattr(self.fork(), name)


def case_lift(f, *args):
    var = None
    for a in args:
        if type(a) is SymCase:
            if var is None:
                var = a.var
            elif not var.eq(a.var):
                return f(*[x.sym() if type(x) is SymCase else x
                           for x in args])
        elif isinstance(a, SymBase):
            return f(*[x.sym() if type(x) is SymCase else x for x in args])
    keys = [a for a in args if type(a) is SymCase][0].cases.keys()
    out = {}
    for k in keys:
        out[k] = f(*[a.cases[k] if type(a) is SymCase else a for a in args])
    vals = list(out.values())
    if any(v is NotImplemented for v in vals):
        return NotImplemented
    if all(isinstance(v, bool) for v in vals):
        yes = [var == k for k in keys if out[k]]
        if len(yes) == len(vals):
            return True
        if not yes:
            return False
        no = [var == k for k in keys if not out[k]]
        return mkbool(z3.Or(yes) if len(yes) <= len(no) else
                      z3.Not(z3.Or(no)))
    return SymCase(var, out)


def _case_op(name, op):
    def f(self, o):
        if not isinstance(o, (int, float, decimal.Decimal, SymBase)) or \
                isinstance(o, SymStr):
            return NotImplemented
        return case_lift(op, self, o)

    def g(self, o):
        if not isinstance(o, (int, float, decimal.Decimal, SymBase)) or \
                isinstance(o, SymStr):
            return NotImplemented
        return case_lift(op, o, self)
    setattr(SymCase, '__%s__' % name, f)
    if name not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(SymCase, '__r%s__' % name, g)


import operator as _op
for _n in 'add sub mul truediv floordiv mod pow lt le gt ge eq ne'.split():
    _case_op(_n, getattr(_op, _n))
for _n in 'neg pos abs'.split():
    setattr(SymCase, '__%s__' % _n, (
        lambda op: lambda self: case_lift(op, self))(getattr(_op, _n)))


SymCase.__divmod__ = SymInt.__divmod__
SymCase.__rdivmod__ = SymInt.__rdivmod__


def fp_value(v):
    if z3.is_fp_value(v) or True:
        if v.isNaN():
            return math.nan
        if v.isInf():
            return -math.inf if v.isNegative() else math.inf
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        # exact conversion from sign/significand/exponent
        s = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        import struct
        return struct.unpack('>d', struct.pack('>Q', s))[0]


# SymStr lives in strings.py; placed here at import time
class SymStr(SymBase):
    __slots__ = ()
