from openquake.commonlib import valid

BOUNDS = ('every ASCII text of up to 6 characters (thorough 8); every text '
          'SA(<p>)<t> and <t>SA(<p>) with p up to 4 and t up to 2 arbitrary '
          'characters')
OUTSIDE = 'longer texts; non ASCII characters'
ASSUMES = []

PLAIN = ['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI']
DIGITS = '0123456789'


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range(7 if q else 9):
        out.append(('texts', dict(n=n), ['rejected'] + (
            ['plain'] if n in (2, 3) else ['sa'] if n >= 5 else [])))
    for n in range(1, 5 if q else 7):
        for pre in range(2):
            for post in range(3):
                out.append(('periods', dict(n=n, pre=pre, post=post),
                            ['rejected'] + (
                                ['sa'] if not pre and not post else [])))
    return out


def digit(h, c):
    return h.Or(*[c == d for d in DIGITS])


def is_period(h, cs):
    """Digits, possibly followed by a dot and more digits."""
    n = len(cs)
    if n == 0:
        return False
    alts = [h.And(*[digit(h, c) for c in cs])]
    for dot in range(1, n):
        alts.append(h.And(cs[dot] == '.', *[
            digit(h, cs[i]) for i in range(n) if i != dot]))
    return h.Or(*alts)


def verdict(h, text):
    n = len(text)
    o = h.outcome(valid.IMTstr, text)
    plain = h.Or(*[text == p for p in PLAIN])
    sa = False
    if n > 4:
        sa = h.And(text[:3] == 'SA(', text[n - 1] == ')',
                   is_period(h, text[3:n - 1]))
    if o[0] == 'exc':
        h.check(is_value_error(o), 'rejections are ValueErrors', text)
        h.check(h.Not(h.Or(plain, sa)), 'IMTs are accepted', text)
        h.reach('rejected')
        return
    h.check(h.Or(plain, sa), 'only IMTs are accepted', text)
    imt, period, damping = o[1]
    if plain:
        h.check(h.And(imt == text, period is None, damping is None),
                'plain types have no period and damping', text)
        h.reach('plain')
    else:
        h.check(imt == 'SA', 'the type is SA', text)
        h.check(h.same(period, float(text[3:n - 1])), 'the period is right',
                text)
        h.check(damping == 5, 'the damping is 5%', text)
        h.reach('sa')


def texts(h, n):
    verdict(h, h.chars('text', n))


def periods(h, n, pre, post):
    verdict(h, h.chars('pre', pre) + 'SA(' + h.chars('p', n) + ')' +
            h.chars('post', post))
