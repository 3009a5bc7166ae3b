from openquake.commonlib import general

BOUNDS = ('distinct: up to 5 (thorough 7) arbitrary integer or text keys; '
          'ceil: every integer numerator and divisor, every multiple of 1/64 '
          'with eight divisors, some fractional; str2bool: every ASCII '
          'text up to 4 (thorough 5) characters and every capitalization '
          'of the truth words with up to one extra character')
OUTSIDE = 'longer sequences; numerators which are not exact doubles'
ASSUMES = ['float division of exactly representable integers followed by '
           'ceil is exact (it is below 2**53)']

TRUE = ['true', 'yes', 't', '1']


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range(6 if q else 8):
        for kind in ('int', 'tok'):
            out.append(('keys', dict(n=n, kind=kind), ['done']))
    out.append(('ceil_small', dict(top=12 if q else 40), ['done']))
    out.append(('ceil_any', {}, ['done']))
    out.append(('ceil_real', {}, ['done']))
    out.append(('ceil_bad', {}, ['refused']))
    for n in range(5 if q else 6):
        out.append(('booleans', dict(n=n), ['false'] + (
            ['true'] if n in (1, 3, 4) else [])))
    return out


def keys(h, n, kind):
    ks = [getattr(h, kind)('k%d' % i) for i in range(n)]
    ref = []
    for k in ks:
        if not any(k == r for r in ref):
            ref.append(k)
    src = iter(ks) if h.flag('iterator') else list(ks)
    got = general.distinct(src)
    h.check(len(got) == len(ref) and h.Eq(list(got), ref),
            'the first occurrences, in order', got, ref)
    h.reach('done')


def ceil_verdict(h, a, b):
    r = general.ceil(a, b)
    h.check(h.same(r, int(r)), 'the result is an integer')
    h.check(h.And(r * b >= a, (r - 1) * b < a),
            'the least integer not below a / b', a, b, r)
    h.reach('done')


def ceil_small(h, top):
    ceil_verdict(h, h.int('a', -2 ** 53, 2 ** 53), h.size('b', 1, top))


def ceil_any(h):
    # a = q * b - r describes every numerator
    b = h.int('b', 1, 2 ** 20)
    q = h.size('q', -2, 3)
    r = h.int('r', 0)
    h.assume(r < b)
    h.check(general.ceil(q * b - r, b) == q,
            'the least integer not below a / b')
    h.reach('done')


def ceil_real(h):
    """Fractional numerators and divisors."""
    a = h.real('a', -2 ** 30, 2 ** 30, den=64)
    b = h.pick('b', [0.25, 0.5, 1, 1.0, 1.5, 2.5, 3, 4.0])
    ceil_verdict(h, a, b)


def ceil_bad(h):
    o = h.outcome(general.ceil, h.int('a'), h.int('b', None, 0))
    h.check(o[0] == 'exc', 'a non positive divisor is refused')
    h.reach('refused')


def same_letter(h, c, x):
    return h.Or(c == x, c == x.upper())


def booleans(h, n):
    text = h.chars('text', n)
    o = h.outcome(general.str2bool, text)
    h.check(o[0] == 'ok', 'no text is refused', text)
    expected = h.Or(*[h.And(*[same_letter(h, c, x)
                              for c, x in zip(text, w)])
                      for w in TRUE if len(w) == n])
    h.check(h.Iff(o[1], expected), 'true exactly for the truth words', text)
    h.reach('true' if expected else 'false')
