from openquake.commonlib import record, records, valid
from openquake.commonlib.record import Record, Field, Unique

BOUNDS = ('record types with 1 to 4 fields (thorough 6) declared in every '
          'order or inherited, arbitrary texts, every field independently '
          'valid or invalid with an arbitrary value and error message, up to '
          '2 record constraints; every record type of the library with any '
          'two of its fields arbitrary')
OUTSIDE = 'record types with more fields; non ASCII texts'
ASSUMES = ['field validators return a value or raise ValueError']


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 6
    for n in range(1, top + 1):
        for decl in (['direct', 'reversed', 'inherited'] if n > 1 else
                     ['direct']):
            out.append(('casting', dict(n=n, decl=decl),
                        ['valid', 'invalid']))
    for n in range(1, 4):
        for k in range(3):
            out.append(('validity', dict(n=n, k=k), ['asked']))
    out.append(('reports', {}, ['printed']))
    out.append(('searching', dict(n=3 if tier == 'quick' else 4),
                ['searched']))
    for name, desc in TYPES:
        row = [x.split(':')[0] for x in desc.split()]
        for first, word in enumerate(desc.split()):
            kind = word.split(':')[1]
            for size in (2,) if tier == 'quick' else (0, 1, 2, 3):
                out.append(('typed', dict(name=name, row=row, first=first,
                                          size=size, kind=kind), []))
    return out


class Validator(object):
    """Accepts the texts before a pivot; remembers what it says."""
    def __init__(self, h, i):
        self.i = i
        self.pivot = h.tok('pivot%d' % i)
        self.message = h.tok('message%d' % i)
        self.empty = h.bool('empty%d' % i)

    def good(self, text):
        return text < self.pivot if text else self.empty

    def __call__(self, text):
        if self.good(text):
            return ('value', self.i, text)
        raise ValueError(self.message)


NAMES = ['zeta', 'alpha', 'mid', 'beta', 'omega', 'aaa']


def make(h, n, decl, checks=()):
    """A record type with n fields and its validators in order."""
    vals = [Validator(h, i) for i in range(n)]
    names = NAMES[:n]
    dic = dict(pkey=Unique(names[0]))
    if checks:
        dic['_constraints'] = list(checks)
    if decl == 'direct':
        for name, v in zip(names, vals):
            dic[name] = Field(v)
        return h.newtype(type(Record), 'Rec', (Record,), dic), names, vals
    if decl == 'reversed':      # the order is the one of the declarations
        fields = [Field(v) for v in vals]
        for name, f in reversed(zip(names, fields)):
            dic[name] = f
        return h.newtype(type(Record), 'Rec', (Record,), dic), names, vals
    base = dict((name, Field(v)) for name, v in zip(names, vals)[:1])
    base['pkey'] = Unique(names[0])
    base = h.newtype(type(Record), 'Base', (Record,), base)
    rest = {}
    for name, v in zip(names, vals)[1:]:
        rest[name] = Field(v)
    return h.newtype(type(Record), 'Rec', (base,), rest), names, vals


def casting(h, n, decl):
    rt, names, vals = make(h, n, decl)
    texts = [h.tok('text%d' % i) for i in range(n)]
    if n < 4 and h.flag('blank'):
        texts[h.size('which', 0, n - 1)] = ''
    rec = rt(*texts) if h.flag('positional') else rt(
        **dict(zip(names, texts)))
    h.check(rt.fieldnames == names and len(rt) == n and len(rec) == n,
            'the fields are in declaration order', rt.fieldnames)
    tup, exc = rec.cast()
    bad = [h.Not(v.good(t)) for v, t in zip(vals, texts)]
    if exc is None:
        h.check(h.Not(h.Or(*bad)), 'an invalid record is not casted')
        h.check(isinstance(tup, tuple) and len(tup) == n and
                tup._fields == tuple(names), 'a named tuple')
        h.check(h.And(*[h.Eq(x, ('value', i, t))
                        for i, (x, t) in enumerate(zip(tup, texts))]),
                'with the values returned by the validators, in order', tup)
        for i, name in enumerate(names):
            h.check(h.Eq(getattr(tup, name), tup[i]), 'named fields')
        h.check(h.Eq(rec.to_tuple(), tup), 'to_tuple agrees')
        h.reach('valid')
    else:
        h.check(tup is None, 'no tuple for an invalid record')
        h.check(isinstance(exc, record.InvalidRecord), 'InvalidRecord')
        h.check(exc.record is rec, 'the exception refers to the record')
        wrong = [i for i in range(n) if bad[i]]
        h.check(len(wrong) > 0, 'a valid record is casted')
        h.check([e[0] for e in exc.errorlist] == [names[i] for i in wrong],
                'the invalid fields are reported once, in column order',
                exc.errorlist)
        h.check(h.And(*[h.same(e[1], vals[i].message)
                        for e, i in zip(exc.errorlist, wrong)]),
                'with the error message of the field', exc.errorlist)
        o = h.outcome(rec.to_tuple)
        h.check(o[0] == 'exc' and isinstance(o[1], record.InvalidRecord) and
                h.Eq(o[1].errorlist, exc.errorlist),
                'to_tuple raises the same error')
        h.reach('invalid')
    h.check(h.And(*[h.same(a, b) for a, b in zip(rec.row, texts)]),
            'the record is not changed')


def validity(h, n, k):
    seen = []
    answers = [h.bool('constraint%d' % j) for j in range(k)]

    def constraint(j):
        return lambda rec: answers[j]
    funs = [constraint(j) for j in range(k)]
    added = k > 0 and h.flag('added')
    rt, names, vals = make(h, n, 'direct', () if added else funs)
    if added:
        for f in funs:
            rt.add_check(f)
    texts = [h.tok('text%d' % i) for i in range(n)]
    texts[h.size('which', 0, n - 1)] = ''
    rec = rt(*texts)
    good = [v.good(t) for v, t in zip(vals, texts)]
    for i in range(n):
        h.check(h.Iff(bool(rec.is_valid(i)), good[i]),
                'validity of a field by index')
        h.check(h.Iff(bool(rec.is_valid(names[i])), good[i]),
                'validity of a field by name')
        o = h.outcome(getattr, rec, names[i])
        h.check(h.Iff(o[0] == 'ok', good[i]), 'reading the value of a field')
    h.check(h.Iff(bool(rec.is_valid()), h.And(*(good + answers))),
            'a record is valid when all its fields and constraints are')
    h.reach('asked')


def lines_of(text):
    return text.split('\n')


def reports(h):
    n = 3
    rt, names, vals = make(h, n, 'direct')
    bad = [h.flag('bad%d' % i) for i in range(n)]
    for v, b in zip(vals, bad):
        v.good = (lambda text, b=b: not b)
    h.assume(any(bad))
    rec = rt(h.tok('a'), h.tok('b'), h.tok('c'))
    exc = rec.cast()[1]
    where = 'Rec'
    if h.flag('file'):
        where = exc.fname = h.tok('file')
    row = 0
    if h.flag('row'):
        row = exc.rowno = h.int('rowno', 0)
    expected = ''
    for i in range(n):
        if bad[i]:
            if expected:
                expected += '\n'
            expected += '%s[%s]: %d,%d: %s' % (
                where, names[i], row, i, vals[i].message)
    h.check(h.same(str(exc), expected), 'one line per failing field with '
            'file, field, row, column and message', str(exc), expected)
    h.reach('printed')


def searching(h, n):
    """find_invalid reports the position of each invalid record."""
    rt, names, vals = make(h, 2, 'direct')
    recs = [rt(h.tok('a%d' % i), h.tok('b%d' % i)) for i in range(n)]
    found = list(record.find_invalid(iter(recs)))
    wrong = [i for i, r in enumerate(recs) if not h.And(
        vals[0].good(r[0]), vals[1].good(r[1]))]
    h.check([e.rowno for e in found] == wrong,
            'the invalid records are found with their position',
            [e.rowno for e in found], wrong)
    h.check(all(e.record is recs[i] for e, i in zip(found, wrong)),
            'the exceptions refer to the records')
    h.reach('searched')


TYPES = [
    ('DiscreteVulnerabilitySet', 's:any buildings:category l:any PGA:imt'),
    ('DiscreteVulnerability', 's:any f:any LN:any'),
    ('DiscreteVulnerabilityData',
     's:any f:any 0.1:float 0.2:float 0.3:float'),
    ('FragilityDiscrete', 'discrete:discrete d:any a:names'),
    ('FFLimitStateDiscrete', 'a:any'),
    ('FFSetDiscrete', '1:int RC:some :positive? PGA:imt g:any'),
    ('FFDataDiscrete', 'a:any 1:int 0.1:float 0.2:probability'),
    ('FragilityContinuous', 'continuous:continuous d:any a:names'),
    ('FFLimitStateContinuous', 'a:any'),
    ('FFSetContinuous', '1:int RC:some 0.5:positive? logn:any PGA:any g:any '
     '1:float 2:float'),
    ('FFDataContinuous', 'a:any 1:int mean:any 0.2:float'),
    ('Location', '1:count 10.5:longitude -20:latitude'),
    ('Exposure', 'e:some buildings:category t:any d:any aggregated:area? '
     'm2:any? true:boolean? false:boolean?'),
    ('CostType', 'c:any per_area:cost EUR:any :cost? :any'),
    ('Asset', '1:count a1:any RC:some 10:positive :positive?'),
    ('Occupancy', 'a1:any day:any 12:positive'),
    ('Cost', 'a1:any c:any 100:positive :positive? 2:positive? :positive?'),
    ('GmfCollection', 'b1:any b2:any'),
    ('GmfSet', '1:int 50:float'),
    ('Gmf', '1:int SA(0.1):imt r:any'),
    ('GmfData', '1:int PGA:any r:any 1:float 2:float 0.5:float')]


def kinds():
    """What a field of each kind has to accept."""
    return dict(
        any=str, int=int, float=float, some=valid.not_empty,
        category=valid.category, imt=valid.IMTstr, names=valid.namelist,
        count=valid.positiveint, positive=valid.positivefloat,
        longitude=valid.longitude, latitude=valid.latitude,
        probability=valid.probability, boolean=valid.boolean,
        discrete=valid.Choice('discrete'),
        continuous=valid.Choice('continuous'),
        area=valid.Choice('aggregated', 'per_asset'),
        cost=valid.Choice('aggregated', 'per_asset', 'per_area'))


def typed(h, name, row, first, size, kind):
    """The record types of the library: one field has an arbitrary text,
    another one possibly an invalid one."""
    rt = getattr(records, name)
    row = list(row)
    h.check(len(rt) == len(row), 'the fields of the type')
    row[first] = h.chars('text', size)
    other = h.size('other', 0, len(row) - 1)
    if other != first:
        row[other] = h.pick('invalid', ['', '-x', 'nan'])
    rec = rt(*row)
    ref = kinds()[kind.rstrip('?')]
    o1 = h.outcome(ref, row[first])
    if kind.endswith('?') and row[first] == '':
        o1 = 'ok', None
    o2 = h.outcome(rt.fields[first].cast, row[first])
    h.check(o1[0] == o2[0] and (o1[0] == 'exc' or h.Or(
        h.Eq(o1[1], o2[1]), isinstance(o1[1], float) and h.isnan(o1[1]))),
        'the field is validated as what it is', kind, o1, o2)
    outs = [h.outcome(f.cast, t) for f, t in zip(rt.fields, row)]
    tup, exc = rec.cast()
    good = [rec.is_valid(j) for j in range(len(row))]
    h.check(good == [o[0] == 'ok' for o in outs],
            'a field is valid when its validator accepts it', good)
    if exc is None:
        h.check(all(good), 'casted')
        h.check(h.And(*[h.Or(h.Eq(a, o[1]), isinstance(a, float) and h.isnan(a))
                        for a, o in zip(tup, outs)]),
                'the values of the validators')
        cons = [h.outcome(c, rec) for c in rt._constraints]
        h.check(bool(rec.is_valid()) == all(c[1] for c in cons),
                'valid when the constraints are')
        h.reach('tuple')
    else:
        h.check([e[0] for e in exc.errorlist] == [
            f.name for f, o in zip(rt.fields, outs) if o[0] == 'exc'],
            'exactly the invalid fields', exc.errorlist)
        h.check(not rec.is_valid(), 'not valid')
        h.reach('refused')
