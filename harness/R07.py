import itertools
from openquake.commonlib import record
from openquake.commonlib.record import Field, Unique, ForeignKey

BOUNDS = ('record types of up to 4 fields declared in any order, of their '
          'own or inherited, with default texts of any kind, keys of up to 2 '
          'fields; records built with every split between positional, named '
          'and missing arguments of arbitrary values')
OUTSIDE = ('fields declared twice, constraints inherited from another '
           'record type and not declared again')
ASSUMES = []

DEFAULTS = ['', 'x', "it's", 'a"b', 'a\\b', 'a\nb', '%s', ', b', ' ', '0']
NAMES = ['b', 'a', 'id', 'Cc']


def jobs(tier):
    out = []
    for n in range(1, 5):
        for given in range(n + 1):
            out.append(('built', dict(n=n, given=given), ['done']))
    for base in range(4):
        for own in range(3):
            out.append(('inherited', dict(base=base, own=own), ['done']))
    out.append(('several', {}, ['done']))
    out.append(('toomany', {}, ['done']))
    out.append(('refused', {}, ['done']))
    out.append(('keys', {}, ['done']))
    out.append(('copies', {}, ['done']))
    out.append(('hook', {}, ['done']))
    out.append(('checks', {}, ['done']))
    out.append(('overridden', {}, ['done']))
    return out


def upper(text):
    if isinstance(text, str) and len(text) == 5 and text == 'bad !':
        raise ValueError('bad')
    return (text,)


def permuted(h, items, name='order'):
    perms = list(itertools.permutations(items))
    return list(perms[h.size(name, 0, len(perms) - 1)])


def make(h, items, bases=(record.Record,), name='Rec'):
    """A record type with the given attributes, listed in any order"""
    return record.MetaRecord(name, bases, dict(items))


def declared(h, n):
    """The fields and their defaults, in order of declaration"""
    names = permuted(h, NAMES[:n]) if n < 4 else NAMES[2:] + NAMES[:2]
    k = h.size('default', 0, len(DEFAULTS) - 1 if n < 4 else 2)
    out = []
    for i, name in enumerate(names):
        default = DEFAULTS[(k + 3 * i) % len(DEFAULTS)]
        if default == '' and i % 2:
            out.append((name, Field(upper), ''))
        else:
            out.append((name, Field(upper, default=default), default))
    return out


def built(h, n, given):
    fields = declared(h, n)
    items = [(name, f) for name, f, d in fields]
    items.append(('pkey', Unique(fields[0][0])))
    shuffle = h.size('listed', 0, len(items) - 1)
    cls = make(h, items[shuffle:] + items[:shuffle])
    h.check(list(cls.fieldnames) == [x[0] for x in fields],
            'the names of the fields, in order of declaration')
    h.check(len(cls) == n, 'the number of fields')
    h.check([f.name for f in cls.fields] == [x[0] for x in fields],
            'the fields')
    h.check(all(f is x[1] for f, x in zip(cls.fields, fields)),
            'the same fields')
    pos = h.size('positional', 0, given)
    values = [h.text('v%d' % i, 2) if i == 0 else h.tok('v%d' % i)
              for i in range(given)]
    named = {}
    for i in range(pos, given):
        named[fields[i][0]] = values[i]
    rec = cls(*values[:pos], **named)
    exp = values + [d for name, f, d in fields[given:]]
    h.check(h.same(list(rec), exp), 'the row', list(rec), exp)
    h.check(len(rec) == n, 'the length')
    for i, (name, f, d) in enumerate(fields):
        h.check(h.same(rec[i], exp[i]), 'by position')
        h.check(h.same(rec[name], exp[i]), 'by name')
        h.check(h.same(getattr(rec, name), (exp[i],)), 'casted')
    tup = rec.to_tuple()
    h.check(tup._fields == tuple([x[0] for x in fields]), 'the named tuple')
    h.check(h.same([list(t) for t in tup], [[e] for e in exp]),
            'the casted fields')
    h.check(h.same(rec.pkey, (exp[0],)), 'the key')
    h.reach('done')


def inherited(h, base, own):
    """The fields of the base come first; the base is not changed"""
    items = [(n, Field(str, default=n)) for n in NAMES[:base]]
    more = [(n, Field(int, default='7')) for n in ('q', 'p')[:own]]
    pkey = [('pkey', Unique(*[n for n, f in items[:1]]))]
    Base = make(h, items + pkey, name='Base')
    Sub = make(h, more + [('pkey', Unique(*[n for n, f in more[:1]]))],
               (Base,), 'Sub')
    h.check(list(Base.fieldnames) == NAMES[:base], 'the base')
    h.check(list(Sub.fieldnames) == NAMES[:base] + ['q', 'p'][:own],
            'the subclass')
    h.check(list(Base()) == NAMES[:base], 'defaults of the base')
    h.check(list(Sub()) == NAMES[:base] + ['7'] * own, 'defaults')
    values = [h.tok('v%d' % i) for i in range(base + own)]
    h.check(h.same(list(Sub(*values)), values), 'the values')
    h.check(h.same(list(Base(*values[:base])), values[:base]), 'the base')
    h.check(Base.pkey.recordtype is Base and Sub.pkey.recordtype is Sub,
            'the type of the keys')
    if base and own:
        # the key of the subclass decides in its tables
        one = Sub(*(values[:base] + ['1'] * own))
        two = Sub(*(values[:base] + ['2'] * own))
        again = Sub(*(['?'] * base + ['2'] * own))
        table = record.Table(Sub, [one, two])
        o = h.outcome(table.append, again)
        h.check(o[0] == 'exc' and isinstance(o[1], KeyError) and
                len(table) == 2, 'duplicated', o)
        h.check(table.getrecord('1') is one and table.getrecord('2') is two,
                'found by the key')
        h.check([d.recordtype for d in Sub.get_descriptors(Unique)] == [Sub],
                'the keys of the subclass')
    h.check(isinstance(Sub(), Base) and isinstance(Sub(), record.Record),
            'a subclass')
    h.reach('done')


def several(h):
    """Several bases: the fields are in order of declaration"""
    fields = [(x, Field(str, default=x)) for x in 'abcd']
    split = permuted(h, [0, 0, 1, 1], 'split')
    A = make(h, [f for f, k in zip(fields, split) if k == 0] + [
        ('pkey', Unique(fields[split.index(0)][0]))], name='A')
    B = make(h, [f for f, k in zip(fields, split) if k == 1] + [
        ('pkey', Unique(fields[split.index(1)][0]))], name='B')
    bases = (A, B) if h.flag('first') else (B, A)
    C = make(h, permuted(h, [('f', Field(str)), ('pkey', Unique('f', 'a')),
                             ('e', Field(str))]), bases, 'C')
    order = ['a', 'b', 'c', 'd']
    last = list(C.fieldnames)[4:]
    h.check(list(C.fieldnames)[:4] == order and last == ['f', 'e'],
            'the fields of all the bases, in order', C.fieldnames)
    h.check(list(C()) == order + ['', ''], 'defaults')
    D = make(h, [('g', Field(str)), ('pkey', Unique('g'))], (C,), 'D')
    h.check(list(D.fieldnames) == order + last + ['g'], 'a further type',
            D.fieldnames)
    values = [h.tok('v%d' % i) for i in range(7)]
    rec = D(*values)
    for name, v in zip(order + last + ['g'], values):
        h.check(h.same(rec[name], v) and h.same(getattr(rec, name), v),
                'by name')
    h.check(h.same(rec.pkey, (values[6],)), 'the key')
    h.reach('done')


def toomany(h):
    n = h.size('n', 1, 3)
    items = [(x, Field(str)) for x in NAMES[:n]] + [('pkey', Unique('b'))]
    cls = make(h, items)
    how = h.pick('how', ['more', 'unknown', 'twice'])
    values = [h.tok('v%d' % i) for i in range(n)]
    if how == 'more':
        o = h.outcome(cls, *(values + ['x']))
    elif how == 'unknown':
        o = h.outcome(cls, **{'w': 'x'})
    else:
        o = h.outcome(cls, *values, **{'b': 'x'})
    h.check(o[0] == 'exc' and isinstance(o[1], TypeError), 'refused', o)
    h.reach('done')


def refused(h):
    """Definitions which make no sense are refused at once"""
    which = h.pick('which', ['fields', 'fieldnames', '_name2index',
                             '_ntuple', '_ordinal', 'nokey', 'none'])
    items = [('a', Field(str))]
    if which != 'nokey':
        items.append(('pkey', Unique('a')))
    if which not in ('nokey', 'none'):
        items.append((which, h.pick('value', [None, [], 'x'])))
    o = h.outcome(make, h, items)
    if which == 'none':
        h.check(o[0] == 'ok', 'accepted', o[1])
    elif which == 'nokey':
        h.check(o[0] == 'exc' and isinstance(o[1], AttributeError),
                'a primary key is needed', o)
    else:
        h.check(o[0] == 'exc' and isinstance(o[1], NameError) and
                which in str(o[1]), 'a reserved name is refused', o)
    o = h.outcome(Unique, *h.pick('names', [['a', 'a'], ['a', 'b', 'a']]))
    h.check(o[0] == 'exc' and isinstance(o[1], AssertionError),
            'the names of a key are different')
    h.reach('done')


def keys(h):
    """Keys are found with their name and type and give the values"""
    names = permuted(h, ['a', 'b', 'c'])
    k = h.size('k', 1, 3)
    Target = make(h, [(x, Field(str)) for x in 'abc'] + [
        ('pkey', Unique(*names[:k])), ('other', Unique('c'))], name='Target')
    Rec = make(h, [(x, Field(str)) for x in 'cab'] + [
        ('pkey', Unique('c')), ('fkey', ForeignKey(
            Target.pkey, *names[:k])),
        ('second', ForeignKey(Target.other, 'a'))], name='Rec')
    values = [h.tok('v%d' % i) for i in range(3)]
    rec = Rec(*values)
    by = dict(zip('cab', values))
    h.check(h.same(rec.fkey, tuple([by[x] for x in names[:k]])),
            'the values of the foreign key')
    h.check(h.same(rec.second, (by['a'],)), 'the second foreign key')
    h.check(h.same(rec.pkey, (by['c'],)), 'the primary key')
    target = Target(*values)
    at = dict(zip('abc', values))
    h.check(h.same(target.pkey, tuple([at[x] for x in names[:k]])),
            'the values of the primary key')
    h.check(h.same(target.other, (at['c'],)), 'the values of the other key')
    h.check(tuple(Target.pkey.names) == tuple(names[:k]), 'the names')
    table = record.Table(Target, [target])
    o = h.outcome(table.getrecord, *[at[x] for x in names[:k]])
    h.check(o[0] == 'ok' and o[1] is target, 'found by the key', o)
    for cls, kind, exp in ((Target, Unique, ['other', 'pkey']),
                           (Rec, Unique, ['pkey']),
                           (Target, ForeignKey, []),
                           (Rec, ForeignKey, ['fkey', 'second'])):
        got = cls.get_descriptors(kind)
        h.check(sorted([d.name for d in got]) == exp, 'the constraints')
        for d in got:
            h.check(d.recordtype is cls, 'the record type')
            h.check(d is getattr(cls, d.name), 'the attribute')
    h.check(Rec.fkey.unique is Target.pkey, 'the target')
    h.check(Rec.second.unique is Target.other, 'the second target')
    h.check(tuple(Rec.fkey.names) == tuple(names[:k]), 'the names')
    h.reach('done')


def copies(h):
    """A key shared between types keeps name and type in each of them"""
    u = Unique('a')
    first, second = permuted(h, ['x', 'y'])
    A = make(h, [('a', Field(str)), ('pkey', u), (first, u)], name='A')
    B = make(h, [('b', Field(str)), ('a', Field(str)), ('pkey', u),
                 (second, ForeignKey(A.pkey, 'a'))], name='B')
    h.check(A.pkey.recordtype is A and B.pkey.recordtype is B, 'the types')
    h.check(A.pkey.name == 'pkey' and getattr(A, first).name == first,
            'the names')
    h.check(getattr(B, second).unique is A.pkey, 'the target')
    v = h.tok('v')
    h.check(h.same(A(v).pkey, (v,)) and h.same(B('', v).pkey, (v,)),
            'the values')
    h.reach('done')


def hook(h):
    """The init method is called once, when the row is there"""
    seen = []

    def init(self):
        seen.append(list(self.row))
        self.extra = 1
    items = [('a', Field(str, default='x')), ('b', Field(str)),
             ('pkey', Unique('a')), ('init', init)]
    cls = make(h, permuted(h, items))
    v = h.tok('v')
    rec = cls(b=v)
    h.check(h.same(seen, [['x', v]]), 'called once', seen)
    h.check(rec.extra == 1, 'on the record')
    h.reach('done')


def checks(h):
    """The constraints of a type are those added to it"""
    items = lambda: [('a', Field(int)), ('pkey', Unique('a'))]
    one, two = make(h, items(), name='One'), make(h, items(), name='Two')
    lo, hi = h.int('lo'), h.int('hi')
    one.add_check(lambda rec: rec.a >= lo)
    if h.flag('both'):
        one.add_check(lambda rec: rec.a <= hi)
        third = make(h, items(), name='Third')
        h.check(third('0').is_valid(), 'no constraint')
    else:
        hi = None
    x = h.int('x')
    text = h.numtext(x)
    good = x >= lo if hi is None else h.And(x >= lo, x <= hi)
    h.check(h.Iff(one(text).is_valid(), good), 'valid if every check passes')
    h.check(two(text).is_valid(), 'the other type has no check')
    h.check(not one('x').is_valid(), 'an invalid field')
    h.reach('done')


def overridden(h):
    """A type can have its own __init__"""
    def __init__(self, a):
        self.row = [a, a + '!']
    cls = make(h, [('a', Field(str)), ('b', Field(str)),
                   ('pkey', Unique('a')), ('__init__', __init__)])
    v = h.tok('v')
    h.check(h.same(list(cls(v)), [v, v + '!']), 'the row')
    h.reach('done')
