from openquake.commonlib import record, valid
from openquake.commonlib.record import (
    Record, Field, Unique, ForeignKey, TableSet)

BOUNDS = ('three related tables (a parent, a child referring to it by a key '
          'of two fields, a grandchild with two foreign keys to different '
          'tables), up to 4 insertions (thorough 5) of records of any type '
          'with arbitrary and possibly equal field values, one at a time or '
          'all together; slices of a table set; two tables related by a secondary key, with '
          'invalid fields')
OUTSIDE = 'longer histories; deletions from referenced tables'
ASSUMES = []


class Parent(Record):
    pkey = Unique('x', 'y')
    x = Field(str)
    y = Field(str)


class Child(Record):
    pkey = Unique('name')
    fkey = ForeignKey(Parent.pkey, 'px', 'py')
    py = Field(str)
    name = Field(str)
    px = Field(str)


class Town(Record):
    pkey = Unique('id')
    code = Unique('zip', 'area')
    zip = Field(str)
    id = Field(valid.positiveint)
    area = Field(str)


class House(Record):
    pkey = Unique('id')
    fkey = ForeignKey(Town.code, 'zip', 'area')
    area = Field(str)
    zip = Field(str)
    id = Field(str)


class Towns(object):
    @classmethod
    def recordtypes(cls):
        return [Town, House]


class Grand(Record):
    pkey = Unique('id')
    child = ForeignKey(Child.pkey, 'who')
    parent = ForeignKey(Parent.pkey, 'a', 'b')
    id = Field(str)
    who = Field(str)
    a = Field(str)
    b = Field(str)


TYPES = [Parent, Child, Grand]
PKEY = [(0, 1), (1,), (0,)]
# (table, fields) of the foreign keys
FKEYS = [[], [(0, (2, 0))], [(1, (1,)), (0, (2, 3))]]


class Conv(object):
    @classmethod
    def recordtypes(cls):
        return TYPES


def jobs(tier):
    out = []
    k = 4 if tier == 'quick' else 5
    for first in range(3):
        for second in range(3):
            out.append(('history', dict(k=k, first=first, second=second),
                        ['done']))
    out.append(('together', dict(k=k), ['all', 'failed']))
    out.append(('separate', {}, ['done']))
    out.append(('sliced', {}, ['linked', 'dangling']))
    out.append(('secondary', {}, ['linked', 'dangling', 'duplicated']))
    return out


def refs(h, stored, kind, row):
    """The foreign keys of the row are all stored."""
    ok = True
    for target, fields in FKEYS[kind]:
        hit = h.Or(*[h.And(*[h.same(row[f], r[p])
                             for f, p in zip(fields, PKEY[target])])
                     for rec, r in stored[target]])
        ok = h.And(ok, hit)
    return ok


def dup(h, stored, kind, row):
    return h.Or(*[h.And(*[h.same(row[p], r[p]) for p in PKEY[kind]])
                  for rec, r in stored[kind]])


def agree(h, tset, stored):
    for kind, rt in enumerate(TYPES):
        t = getattr(tset, 'table' + rt.__name__)
        h.check(len(t) == len(stored[kind]) and
                all(a is rec for a, (rec, r) in zip(t, stored[kind])),
                'every table has its own records, in order', rt.__name__)
    names = [t.recordtype for t in tset]
    h.check(names == [rt for i, rt in enumerate(TYPES) if stored[i]],
            'the iteration gives the non-empty tables in order', names)
    h.check(len(tset) == 3, 'all the tables are there')


def insert(h, tset, stored, kind, n):
    rt = TYPES[kind]
    row = [h.tok('%s%d' % (f, n)) for f in rt.fieldnames]
    rec = rt(*row)
    o = h.outcome(tset.insert, rec)
    linked = refs(h, stored, kind, row)
    if o[0] == 'ok':
        h.check(linked, 'a dangling record is refused', row)
        h.check(h.Not(dup(h, stored, kind, row)),
                'a duplicated record is refused')
        stored[kind].append((rec, row))
    elif isinstance(o[1], record.ForeignKeyError):
        h.check(h.Not(linked), 'a linked record is accepted', row)
    else:
        h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
        h.check(h.And(linked, dup(h, stored, kind, row)),
                'a new linked record is accepted', row)
    agree(h, tset, stored)


def history(h, k, first, second):
    tset = TableSet(Conv)
    stored = [[], [], []]
    # some records which are certainly accepted
    row = [h.tok('x'), h.tok('y')]
    rec = Parent(*row)
    tset.insert(rec)
    stored[0].append((rec, row))
    insert(h, tset, stored, first, 0)
    insert(h, tset, stored, second, 1)
    for n in range(2, k):
        insert(h, tset, stored, h.size('kind', 0, 2), n)
    h.reach('done')


def together(h, k):
    """insert_all stops at the first record which is refused."""
    tset = TableSet(Conv)
    stored = [[], [], []]
    recs, bad = [], False
    for n in range(k):
        kind = h.size('kind', 0, 2 if n else 1)
        row = [h.tok('%s%d' % (f, n)) for f in TYPES[kind].fieldnames]
        rec = TYPES[kind](*row)
        recs.append(rec)
        if not bad:
            if h.And(refs(h, stored, kind, row),
                     h.Not(dup(h, stored, kind, row))):
                stored[kind].append((rec, row))
            else:
                bad = True
    o = h.outcome(tset.insert_all, iter(recs))
    if bad:
        h.check(o[0] == 'exc' and isinstance(
            o[1], (KeyError, record.ForeignKeyError)), 'refused', o[1])
        h.reach('failed')
    else:
        h.check(o[0] == 'ok', 'accepted', o[1])
        h.reach('all')
    agree(h, tset, stored)


def separate(h):
    """Different table sets share nothing."""
    one, two = TableSet(Conv), TableSet(Conv)
    row = [h.tok('x'), h.tok('y')]
    rec = Parent(*row)
    one.insert(rec)
    agree(h, two, [[], [], []])
    o = h.outcome(two.insert, Child(row[1], 'c', row[0]))
    h.check(o[0] == 'exc' and isinstance(o[1], record.ForeignKeyError),
            'the keys of another table set do not count', o[1])
    child = Child(row[1], 'c', row[0])
    o = h.outcome(one.insert, child)
    h.check(o[0] == 'ok', 'linked', o[1])
    agree(h, one, [[(rec, row)], [(child, None)], []])
    h.reach('done')


def sliced(h):
    """A slice of a table set is a table set over the same tables."""
    tset = TableSet(Conv)
    row = [h.tok('x'), h.tok('y')]
    rec = Parent(*row)
    tset.insert(rec)
    part = tset[:h.size('stop', 2, 3)]
    h.check(all(a is b for a, b in zip(part.tables, tset.tables)),
            'the same tables, in order')
    key = [h.tok('py'), h.tok('px')]
    child = Child(key[0], 'c', key[1])
    o = h.outcome(part.insert, child)
    linked = h.And(h.same(key[1], row[0]), h.same(key[0], row[1]))
    h.check(h.Iff(o[0] == 'ok', linked), 'accepted when linked', o[1])
    stored = [[(rec, row)], [], []]
    if o[0] == 'ok':
        stored[1].append((child, None))
        h.reach('linked')
    else:
        h.check(isinstance(o[1], record.ForeignKeyError), 'refused', o[1])
        h.reach('dangling')
    agree(h, tset, stored)
    h.check([t.recordtype for t in part] ==
            [rt for i, rt in enumerate(TYPES) if stored[i]],
            'the tables of the slice which are not empty, in order')


def secondary(h):
    """A foreign key may refer to a key which is not the primary one; the
    validity of the fields does not matter for the insertion."""
    tset = TableSet(Towns)
    towns, houses = [], []
    for i in range(2):
        row = [h.tok('zip%d' % i), h.pick('id%d' % i, ['1', '2', 'bad']),
               h.tok('area%d' % i)]
        rec = Town(*row)
        o = h.outcome(tset.insert, rec)
        twice = h.Or(*[h.Or(row[1] == r[1],
                            h.And(h.same(row[0], r[0]), h.same(row[2], r[2])))
                       for _, r in towns])
        h.check(h.Iff(o[0] == 'ok', h.Not(twice)),
                'accepted when both the keys are new', o)
        if o[0] == 'ok':
            towns.append((rec, row))
        else:
            h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
            h.reach('duplicated')
    for i in range(2):
        row = [h.tok('harea%d' % i), h.tok('hzip%d' % i), 'house%d' % i]
        if i == 0 and h.flag('unknown'):
            row[:2] = ['', '']
        rec = House(*row)
        o = h.outcome(tset.insert, rec)
        linked = h.Or(*[h.And(h.same(row[0], r[2]), h.same(row[1], r[0]))
                        for _, r in towns])
        h.check(h.Iff(o[0] == 'ok', linked),
                'accepted when the key is stored', o)
        if o[0] == 'ok':
            houses.append((rec, row))
            h.reach('linked')
        else:
            h.check(isinstance(o[1], record.ForeignKeyError),
                    'ForeignKeyError', o[1])
            h.reach('dangling')
    for table, expected in ((tset.tableTown, towns),
                            (tset.tableHouse, houses)):
        h.check(len(table) == len(expected) and all(
            a is b for a, (b, _) in zip(table, expected)), 'stored', expected)
    h.check([t.recordtype for t in tset] ==
            [rt for rt, x in ((Town, towns), (House, houses)) if x],
            'the tables which are not empty, in order')
