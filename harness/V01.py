from openquake.commonlib import valid

BOUNDS = ('every IEEE double (and every integer) written in canonical form; '
          'every ASCII text of up to 4 characters; every ASCII text of 5 (thorough 6) characters without exponent; range bounds '
          'of FloatRange: every pair of doubles without NaN (for short texts '
          'every pair of multiples of 1/64)')
OUTSIDE = 'longer texts which are not the canonical form of a number'
ASSUMES = ['float() and int() of the interpreter decide which texts denote '
           'numbers']

WHICH = ['longitude', 'latitude', 'probability', 'positivefloat', 'range']
LIMITS = {'longitude': (-180., 180.), 'latitude': (-90., 90.),
          'probability': (0., 1.)}
PLAIN = ''.join(map(chr, range(128))).replace('e', '').replace('E', '')


def jobs(tier):
    out = []
    for w in WHICH:
        out.append(('canonical', dict(which=w),
                    ['accepted', 'rejected']))
        n = 5 if tier == 'quick' else 6
        for k in range(n + 1):
            out.append(('texts', dict(which=w, n=k),
                        ['rejected'] + (['accepted'] if k else [])))
    out.append(('canonical_int', {}, ['accepted', 'rejected']))
    out.append(('long_int', {}, ['accepted', 'rejected']))
    for k in range((5 if tier == 'quick' else 6) + 1):
        out.append(('texts_int', dict(n=k),
                    ['rejected'] + (['accepted'] if k else [])))
    return out


def build(h, which, exact):
    if which == 'range':
        if exact:
            lo, hi = h.real('min', den=64), h.real('max', den=64)
        else:
            lo, hi = h.fp('min'), h.fp('max')
            h.assume(h.And(h.Not(h.isnan(lo)), h.Not(h.isnan(hi))))
        return valid.FloatRange(lo, hi), lo, hi
    if which == 'positivefloat':
        return valid.positivefloat, 0., None
    lo, hi = LIMITS[which]
    return getattr(valid, which), lo, hi


def verdict(h, f, text, lo, hi):
    ref = h.outcome(float, text)
    o = h.outcome(f, text)
    if ref[0] == 'exc':
        h.check(is_value_error(o), 'text which is not a number is rejected '
                'with a ValueError')
        h.reach('rejected')
        return
    x = ref[1]
    inside = h.And(lo <= x, h.Not(h.isnan(x)))
    if hi is not None:
        inside = h.And(inside, x <= hi)
    if o[0] == 'ok':
        h.check(inside, 'only numbers inside the range are accepted', text)
        h.check(h.same(o[1], x), 'the number is returned unchanged', text)
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'a number is rejected with a ValueError '
                'and nothing else', text)
        h.check(h.Not(inside), 'numbers inside the range are accepted', text)
        h.reach('rejected')


def canonical(h, which):
    f, lo, hi = build(h, which, False)
    x = h.fp('x')
    verdict(h, f, h.numtext(x), lo, hi)


def texts(h, which, n):
    f, lo, hi = build(h, which, True)
    verdict(h, f, h.chars('text', n, None if n <= 4 else PLAIN), lo, hi)


def int_verdict(h, text):
    ref = h.outcome(int, text)
    o = h.outcome(valid.positiveint, text)
    if ref[0] == 'exc':
        h.check(is_value_error(o), 'text which is not an integer is rejected')
        h.reach('rejected')
        return
    if o[0] == 'ok':
        h.check(ref[1] >= 0, 'only non negative integers are accepted')
        h.check(h.same(o[1], ref[1]), 'the integer is returned unchanged')
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'an integer is rejected with a ValueError')
        h.check(ref[1] < 0, 'non negative integers are accepted')
        h.reach('rejected')


def canonical_int(h):
    int_verdict(h, h.numtext(h.int('i')))


def long_int(h):
    """Integers which are not exact as floats or do not fit in 64 bits."""
    int_verdict(h, h.pick('text', [
        '9007199254740993', '-9007199254740993', '12345678901234567890',
        '9223372036854775807', '9223372036854775808', '0' * 30 + '1',
        '1' + '0' * 23, '1' + '0' * 400, '12345678901234567890.5',
        '99999999999999999999x']))


def texts_int(h, n):
    int_verdict(h, h.chars('text', n))
