# -*- coding: utf-8 -*-
"""The harness interface, concrete side (runs under Jython on the real code).
"""
import decimal
import math
import os
import shutil
import sys
import types
import tempfile


class Stop(BaseException):
    pass


def num(x):
    if isinstance(x, float):
        if x != x:
            return 'nan'
        if x in (float('inf'), -float('inf')):
            return repr(x)
        return float('%.9g' % x) + 0.0
    return float('%.9g' % float(x)) + 0.0 if abs(x) < 10 ** 300 else str(x)


def image(x, memo=None):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, long, float)):
        return num(x)
    if isinstance(x, decimal.Decimal):
        return num(float(x))
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return x.decode('latin1')
    if isinstance(x, (list, tuple)):
        return [image(y) for y in x]
    if isinstance(x, dict):
        return ['dict'] + sorted(([image(k), image(v)]
                                  for k, v in x.items()), key=srepr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((image(k) for k in x), key=srepr)
    if isinstance(x, BaseException):
        return ['exc', type(x).__name__]
    if isinstance(x, type):
        return ['type', x.__name__.lower()]
    return '<%s>' % type(x).__name__


def srepr(x):
    return repr(x).replace("u'", "'").replace('u"', '"')


class Harness(object):
    def __init__(self, inputs, capture, salt):
        self.inputs = inputs
        self.capture = capture
        self.checks = []
        self.reached = []
        self.obs = []
        self.assume_failed = False
        self.missing = []
        self.names = {}
        self.tier = 'replay'
        self.symbolic = False
        self._scratch = None

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, True)
            self._scratch = None

    def _get(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        d = self.inputs.get(name)
        if d is None:
            self.missing.append(name)
            raise Stop('input %s is not determined' % name)
        k, v = d['k'], d['v']
        if k == 'int':
            v = long(v)
            return int(v) if abs(v) < 2 ** 31 else v
        if k == 'float':
            return float(v)
        if k == 'dec':
            return decimal.Decimal(str(v))
        if k == 'str':
            return v.encode('latin1')
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    case = int

    def long(self, name, lo=None, hi=None):
        return long(self._get(name))

    def bool(self, name):
        return self._get(name)

    flag = bool

    def size(self, name, lo, hi):
        return self._get(name)

    def pick(self, name, options):
        return list(options)[self._get(name)]

    def real(self, name, lo=None, hi=None, den=None):
        return self._get(name)

    dec = real

    def fp(self, name):
        return self._get(name)

    def tok(self, name):
        return self._get(name)

    def text(self, name, maxlen, minlen=0, alphabet=None):
        return self._get(name)

    def chars(self, name, n, alphabet=None):
        return self._get(name)

    def numtext(self, v):
        if isinstance(v, float):
            return repr(v)
        return str(v)

    def seq(self, name, lo, hi, f):
        return [f(i) for i in range(self.size(name, lo, hi))]

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return bool(b) if a else True

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def Eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            return len(a) == len(b) and all(
                self.Eq(x, y) for x, y in zip(a, b))
        if a is b:
            return True
        return bool(a == b)

    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))

        def kind(x):
            if isinstance(x, bool):
                return 'bool'
            if isinstance(x, (int, long)):
                return 'int'
            if isinstance(x, (str, unicode)):
                return 'str'
            return type(x)
        if kind(a) != kind(b):
            return False
        if isinstance(a, float):
            if a != a:
                return b != b
            return a == b and math.copysign(1, a) == math.copysign(1, b)
        return self.Eq(a, b)

    def close(self, a, b, tol=1e-9):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))

    def count(self, conds):
        return len([c for c in conds if c])

    def total(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def isnan(self, x):
        return isinstance(x, float) and x != x

    def assume(self, cond):
        if not cond:
            self.assume_failed = True
            raise Stop('assumption')

    def check(self, cond, label, *info):
        ok = bool(cond)
        self.checks.append([label, ok, '' if ok else repr(info)[:600]])
        if not ok:
            raise Stop('violated ' + label)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, name, value):
        self.obs.append([name, image(value)])

    def fail(self, label, *info):
        self.check(False, label, *info)

    def outcome(self, f, *a, **k):
        try:
            return ('ok', f(*a, **k))
        except Stop:
            raise
        except:
            e = sys.exc_info()[1]
            return ('exc', e)

    def newtype(self, meta, name, bases, dic):
        return meta(name, tuple(bases), dict(dic))

    def oldclass(self, name):
        def __init__(self, text=''):
            self.text = text
        return types.ClassType(name, (), {
            '__init__': __init__, '__str__': lambda self: self.text})

    def stdout(self):
        return ''.join(self.capture.parts)

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='vfreplay')
        return self._scratch

    def close_zips(self):
        zips = sys.modules['__main__'].ZIPS
        for z in zips:
            z.close()
        del zips[:]

    def load(self, name):
        __import__(name)
        return sys.modules[name]

    def forget(self, name):
        sys.modules.pop(name, None)

    def set_argv(self, argv):
        sys.argv = argv
