import cPickle
from openquake.commonlib import parallel

BOUNDS = ('functions of up to 5 arguments (nested lists and dictionaries of '
          'arbitrary numbers and texts) returning or raising any of 10 kinds '
          'of exceptions with arbitrary messages')
OUTSIDE = 'objects which cannot be pickled; exceptions without a name'
ASSUMES = ['the pickle of an object is an independent deep copy of it']


class Custom(Exception):
    pass


class Odd(Exception):
    def __str__(self):
        raise ValueError('no text')


EXCS = ['ValueError', 'KeyError', 'RuntimeError', 'StopIteration',
        'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'Custom', 'Old']


def jobs(tier):
    out = []
    for n in (0, 1, 2, 3, 5):
        for p in (False, True):
            out.append(('returns', dict(n=n, pickle=p), ['done']))
    for e in EXCS:
        for p in (False, True) if e != 'Old' else (False,):
            out.append(('raises', dict(name=e, pickle=p), ['done']))
    for p in (False, True):
        out.append(('odd', dict(pickle=p), ['done']))
    out.append(('transparent', {}, ['done']))
    return out


def thing(h, name):
    kind = h.pick(name + '.kind', ['int', 'text', 'list', 'dict', 'none',
                                   'tuple'])
    x = h.int(name)
    if kind == 'int':
        return x
    if kind == 'text':
        return h.tok(name + '.t')
    if kind == 'list':
        return [x, [h.int(name + '.y')]]
    if kind == 'dict':
        return {'k': x}
    if kind == 'tuple':
        return x, (None, 'a')


def call(h, f, args, pickle):
    if not pickle:
        if h.flag('explicit'):
            return h.outcome(parallel.safely_call, f, args, False)
        return h.outcome(parallel.safely_call, f, args)
    pargs = [parallel.Pickled(a) for a in args]
    o = h.outcome(parallel.safely_call, f, pargs, True)
    if o[0] == 'ok':
        h.check(isinstance(o[1], parallel.Pickled),
                'the result comes back pickled')
        return 'ok', o[1].unpickle()
    return o


def returns(h, n, pickle):
    args = [thing(h, 'arg%d' % i) if n < 4 else h.int('arg%d' % i)
            for i in range(n)]
    res = thing(h, 'res')
    got = []

    def f(*xs):
        got.append(xs)
        return res
    o = call(h, f, args, pickle)
    h.check(o[0] == 'ok', 'no exception escapes', o[1])
    h.check(isinstance(o[1], tuple) and len(o[1]) == 2, 'a pair')
    h.check(len(got) == 1, 'the function is called once')
    h.check(h.And(*[h.Eq(a, b) for a, b in zip(got[0], args)]) and
            len(got[0]) == n, 'with the original arguments', got, args)
    h.check(h.Eq(o[1][0], res), 'the result is returned', o[1])
    h.check(o[1][1] is None, 'no exception class')
    h.reach('done')


def raises(h, name, pickle):
    cls = {'ValueError': ValueError, 'KeyError': KeyError,
           'RuntimeError': RuntimeError, 'StopIteration': StopIteration,
           'SystemExit': SystemExit, 'KeyboardInterrupt': KeyboardInterrupt,
           'GeneratorExit': GeneratorExit, 'Custom': Custom}.get(name) \
        or h.oldclass(name)
    msg = h.tok('message')

    def f(*xs):
        raise cls(msg)
    o = call(h, f, [1, 'a'], pickle)
    h.check(o[0] == 'ok', 'no exception escapes', o[1])
    h.check(isinstance(o[1], tuple) and len(o[1]) == 2, 'a pair')
    h.check(o[1][1] is cls, 'the exception class is returned', o[1])
    text = o[1][0]
    h.check(isinstance(text, str), 'the result is a text')
    h.check(name in text, 'the text names the exception class', text)
    h.check(msg in text, 'the text contains the message', text)
    h.reach('done')


def odd(h, pickle):
    """An exception which cannot be converted to text."""
    def f(*xs):
        raise Odd('x')
    o = call(h, f, [1], pickle)
    h.check(o[0] == 'ok', 'no exception escapes', o[1])
    h.check(o[1][1] is Odd, 'the exception class is returned', o[1])
    h.check('Odd' in o[1][0], 'the text names the exception class')
    h.reach('done')


def transparent(h):
    x = thing(h, 'x')
    p = parallel.Pickled(x)
    y = p.unpickle()
    h.check(h.same(x, y) if not isinstance(x, dict) else h.And(
        isinstance(y, dict), y == x), 'the same object comes back', x, y)
    if isinstance(x, (list, dict)):
        h.check(x is not y, 'an independent copy')
    h.check(len(p) == len(p.pik) and
            len(p) == len(cPickle.dumps(x, cPickle.HIGHEST_PROTOCOL)),
            'the length is the size of the pickle')
    h.check(h.outcome(repr, p)[0] == 'ok', 'printable')
    h.reach('done')
