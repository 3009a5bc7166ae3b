from openquake.commonlib import valid

BOUNDS = ('every ASCII text of up to 5 characters (thorough 7); names '
          'up to 250 characters, the last ones arbitrary; name lists '
          'up to 6 characters (thorough 8); choices among up to 3 arbitrary '
          'words')
OUTSIDE = 'longer texts; non ASCII characters'
ASSUMES = []

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'
SPACES = ' \t\n\r\x0b\x0c'


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range((6 if q else 8)):
        out.append(('names', dict(n=n),
                    ['rejected'] + (['accepted'] if n else [])))
    for prefix in (30, 60, 250):
        out.append(('names', dict(n=2 if q else 4, prefix=prefix),
                    ['accepted', 'rejected']))
    for n in range((6 if q else 8)):
        out.append(('namelists', dict(n=n),
                    ['rejected'] + (['accepted'] if n else [])))
    for n in range((6 if q else 8)):
        out.append(('booleans', dict(n=n), ['rejected'] + (
            ['accepted'] if n in (1, 4, 5) else [])))
    out.append(('choices', {}, ['accepted', 'rejected']))
    out.append(('categories', {}, ['accepted', 'rejected']))
    for n in range((6 if q else 8)):
        out.append(('patterns', dict(n=n),
                    ['rejected'] + (['accepted'] if n else [])))
    out.append(('non_empty', {}, ['accepted', 'rejected']))
    for w in ('name', 'positiveint', 'probability', 'namelist'):
        out.append(('optional', dict(which=w), ['empty', 'same']))
    return out


def isin(h, c, chars):
    return h.Or(*[c == x for x in chars])


def is_name(h, cs):
    """Every character of a name is a letter or (not in front) a digit."""
    if len(cs) == 0:
        return False
    return h.And(isin(h, cs[0], LETTERS),
                 *[isin(h, c, LETTERS + DIGITS) for c in cs[1:]])


def names(h, n, prefix=0):
    text = 'xY_4' * (prefix // 4) + h.chars('text', n)
    o = h.outcome(valid.name, text)
    good = is_name(h, text)
    if o[0] == 'ok':
        h.check(good, 'only names are accepted', text)
        h.check(h.same(o[1], text), 'a name is returned unchanged', text)
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'rejections are ValueErrors', text)
        h.check(h.Not(good), 'names are accepted', text)
        h.reach('rejected')


def namelists(h, n):
    text = h.chars('text', n)
    o = h.outcome(valid.namelist, text)
    if o[0] == 'exc':
        h.check(is_value_error(o), 'rejections are ValueErrors', text)
    # independent split at white space
    words, start = [], None
    for i in range(n):
        if isin(h, text[i], SPACES):
            if start is not None:
                words.append(text[start:i])
                start = None
        elif start is None:
            start = i
    if start is not None:
        words.append(text[start:])
    good = h.And(len(words) > 0, *[is_name(h, w) for w in words])
    if o[0] == 'ok':
        h.check(good, 'only non empty lists of names are accepted', text)
        h.check(h.Eq(list(o[1]), words), 'the names are returned in order',
                text)
        h.reach('accepted')
    else:
        h.check(h.Not(good), 'lists of names are accepted', text)
        h.reach('rejected')


def booleans(h, n):
    text = h.chars('text', n)
    o = h.outcome(valid.boolean, text)
    yes = h.Or(text == '1', text == 'true')
    no = h.Or(text == '0', text == 'false')
    if o[0] == 'ok':
        h.check(h.Or(yes, no), 'only booleans are accepted', text)
        h.check(o[1] is True or o[1] is False, 'the result is a boolean')
        h.check(h.Iff(o[1], yes), 'the truth value is right', text)
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'rejections are ValueErrors', text)
        h.check(h.Not(h.Or(yes, no)), 'booleans are accepted', text)
        h.reach('rejected')


def patterns(h, n):
    """A validator for any regular expression: the text has to match it
    from its beginning."""
    regex, cond = h.pick('regex', [
        (r'[ab]+\Z', lambda s: len(s) > 0 and h.And(
            *[isin(h, c, 'ab') for c in s])),
        (r'x', lambda s: len(s) > 0 and s[0] == 'x'),
        (r'a|b\Z', lambda s: len(s) > 0 and h.Or(
            s[0] == 'a', len(s) == 1 and s[0] == 'b'))])
    text = h.chars('text', n)
    o = h.outcome(valid.Regex(regex), text)
    good = cond(text)
    if o[0] == 'ok':
        h.check(good, 'only texts matching the expression are accepted',
                text)
        h.check(h.same(o[1], text), 'the text is returned unchanged', text)
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'rejections are ValueErrors', text)
        h.check(h.Not(good), 'texts matching are accepted', text)
        h.reach('rejected')


def choices(h):
    words = h.seq('n', 1, 3, lambda i: h.text('w%d' % i, 2))
    text = h.text('text', 2)
    choice_verdict(h, valid.Choice(*words), words, text)


def categories(h):
    choice_verdict(h, valid.category, ['population', 'buildings'],
                   h.pick('text', ['', 'population', 'buildings', 'building',
                                   'Population', 'p', ' population',
                                   'populationbuildings', h.tok('t')]))


def choice_verdict(h, f, words, text):
    o = h.outcome(f, text)
    good = h.Or(*[text == w for w in words])
    if o[0] == 'ok':
        h.check(good, 'only the choices are accepted', text, words)
        h.check(h.same(o[1], text), 'the choice is returned unchanged')
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'rejections are ValueErrors')
        h.check(h.Not(good), 'the choices are accepted', text, words)
        h.reach('rejected')


def non_empty(h):
    text = h.text('text', 3)
    o = h.outcome(valid.not_empty, text)
    if o[0] == 'ok':
        h.check(len(text) > 0, 'empty text is rejected')
        h.check(h.same(o[1], text), 'text is returned unchanged')
        h.reach('accepted')
    else:
        h.check(is_value_error(o), 'rejections are ValueErrors')
        h.check(len(text) == 0, 'non empty text is accepted')
        h.reach('rejected')


def optional(h, which):
    f = getattr(valid, which)
    text = h.text('text', 3)
    o = h.outcome(valid.NoneOr(f), text)
    if len(text) == 0:
        h.check(o[0] == 'ok' and o[1] is None, 'the empty string is None')
        h.reach('empty')
        return
    ref = h.outcome(f, text)
    h.check(o[0] == ref[0], 'NoneOr accepts what the validator accepts',
            text)
    if o[0] == 'ok':
        h.check(h.same(o[1], ref[1]), 'NoneOr returns what the validator '
                'returns', text)
    else:
        h.check(is_value_error(o) and o[1].args == ref[1].args,
                'NoneOr rejects as the validator does', text)
    h.reach('same')
