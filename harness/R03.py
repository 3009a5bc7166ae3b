from openquake.commonlib.record import Record, Field, Unique, Table

BOUNDS = ('histories of up to 3 operations (thorough 4: append, insert at '
          'any position, replace, delete, also at negative positions, and '
          'lookups after each) on a table with two unique constraints (one '
          'of two fields) and on one with the primary key only, arbitrary '
          'and possibly equal field values; tables built from a list')
OUTSIDE = ('longer histories; records changed after their insertion; '
           'slices as positions')
ASSUMES = []


# the constraints are visited in both orders, also when replaying
class Loc(Record):
    unique = Unique('lon', 'lat')
    pkey = Unique('id')
    id = Field(str)
    lon = Field(str)
    lat = Field(str)


class Site(Record):
    pkey = Unique('id')
    coords = Unique('lon', 'lat')
    id = Field(str)
    lon = Field(str)
    lat = Field(str)


class Pair(Record):
    lat = Field(str)
    a = Field(str)
    b = Field(str)
    pkey = Unique('b', 'a')


CONSTRAINTS = {'Loc': [(0,), (1, 2)],
               'Site': [(0,), (1, 2)], 'Pair': [(2, 1)]}
KEYS = {'Loc': (0,), 'Site': (0,), 'Pair': (2, 1)}
TYPES = {'Loc': Loc, 'Site': Site, 'Pair': Pair}


def jobs(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for t in ('Loc', 'Site', 'Pair'):
        for start in (0, 1, 2):
            for op in ('append', 'insert', 'replace', 'delete'):
                if start == 0 and op in ('replace', 'delete'):
                    continue
                out.append(('history', dict(t=t, start=start, op=op, k=k),
                            ['done']))
        out.append(('building', dict(t=t), ['built', 'refused']))
        out.append(('others', dict(t=t), ['done']))
    out.append(('again', {}, ['done']))
    return out


def clash(h, t, a, b):
    """The two rows agree on some unique constraint."""
    return h.Or(*[h.And(*[h.same(a[i], b[i]) for i in c])
                  for c in CONSTRAINTS[t]])


def new_row(h, t, n):
    return [h.tok('%s%d' % (x, n)) for x in 'abc']


def lookup(h, t, table, recs, rows):
    """Every stored record is found and an unknown key is not."""
    probes = [[r[i] for i in KEYS[t]] for r in rows]
    probes.append([h.tok('probe') for i in KEYS[t]])
    for p in probes:
        o = h.outcome(table.getrecord, *p)
        for rec, row in zip(recs, rows):
            if h.And(*[h.same(row[i], x) for i, x in zip(KEYS[t], p)]):
                h.check(o[0] == 'ok' and o[1] is rec,
                        'looking up a key gives the stored record', o[1])
                break
        else:
            h.check(o[0] == 'exc' and isinstance(o[1], KeyError),
                    'KeyError for an unknown key', o[1])


def agree(h, t, table, recs, rows):
    h.check(len(table) == len(recs) and len(list(table)) == len(recs) and
            all(a is b for a, b in zip(list(table), recs)),
            'the stored records, in order')
    lookup(h, t, table, recs, rows)


def names_fields(h, t, o, row, others):
    """The error names the fields of a duplicated constraint."""
    text = str(o[1])
    for c in CONSTRAINTS[t]:
        hit = h.Or(*[h.And(*[h.same(row[i], r[i]) for i in c])
                     for r in others])
        names = [TYPES[t].fieldnames[i] for i in c]
        if hit and all(n + '=' in text for n in names):
            return True
    return False


def step(h, t, table, recs, rows, op, n):
    size = len(recs)
    if op == 'delete' and size:
        i = h.size('position', -size, size - 1)

        def delete():
            del table[i]
        o = h.outcome(delete)
        h.check(o[0] == 'ok', 'a record can be deleted', o[1])
        del recs[i]
        del rows[i]
    elif op == 'replace' and size:
        i = h.size('position', -size, size - 1)
        row = new_row(h, t, n)
        rec = TYPES[t](*row)
        others = [r for j, r in enumerate(rows) if j != i % size]

        def replace():
            table[i] = rec
        o = h.outcome(replace)
        if o[0] == 'ok':
            h.check(h.Not(h.Or(*[clash(h, t, row, r) for r in others])),
                    'a replacement never duplicates a unique key')
            recs[i] = rec
            rows[i] = row
        else:
            h.check(h.Or(*[clash(h, t, row, r) for r in others]),
                    'a replacement with new keys is accepted', o[1])
            h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
            h.check(names_fields(h, t, o, row, others),
                    'the error names the duplicated fields', str(o[1]))
    elif op in ('append', 'insert'):
        row = new_row(h, t, n)
        rec = TYPES[t](*row)
        if op == 'append':
            i = size
            o = h.outcome(table.append, rec)
        else:
            i = h.size('position', -1 if size else 0, size)
            o = h.outcome(table.insert, i, rec)
        if o[0] == 'ok':
            h.check(h.Not(h.Or(*[clash(h, t, row, r) for r in rows])),
                    'an insertion never duplicates a unique key')
            recs.insert(i, rec)
            rows.insert(i, row)
        else:
            h.check(h.Or(*[clash(h, t, row, r) for r in rows]),
                    'a record with new keys is accepted', o[1])
            h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
            h.check(names_fields(h, t, o, row, rows),
                    'the error names the duplicated fields', str(o[1]))
    agree(h, t, table, recs, rows)


def history(h, t, start, op, k):
    table = Table(TYPES[t], [])
    recs, rows = [], []
    for i in range(start):
        row = new_row(h, t, i)
        h.assume(h.Not(h.Or(*[clash(h, t, row, r) for r in rows])))
        rec = TYPES[t](*row)
        table.append(rec)
        recs.append(rec)
        rows.append(row)
    step(h, t, table, recs, rows, op, start)
    for n in range(start + 1, max(k, start + (op == 'delete') + 1)):
        step(h, t, table, recs, rows,
             h.pick('op', ['append', 'replace', 'delete']), n)
    h.reach('done')


def building(h, t):
    rows = [new_row(h, t, i) for i in range(h.size('n', 0, 3))]
    recs = [TYPES[t](*r) for r in rows]
    o = h.outcome(Table, TYPES[t], recs)
    bad = h.Or(*[clash(h, t, a, b) for i, a in enumerate(rows)
                 for b in rows[:i]])
    if o[0] == 'ok':
        h.check(h.Not(bad), 'no duplicated key is accepted')
        agree(h, t, o[1], recs, rows)
        h.reach('built')
    else:
        h.check(isinstance(o[1], KeyError), 'KeyError', o[1])
        h.check(bad, 'records with different keys are accepted')
        h.reach('refused')


def others(h, t):
    """The operations derived from the basic ones."""
    table = Table(TYPES[t], [])
    recs, rows = [], []
    for i in range(3):
        row = new_row(h, t, i)
        h.assume(h.Not(h.Or(*[clash(h, t, row, r) for r in rows])))
        rows.append(row)
        recs.append(TYPES[t](*row))
    what = h.pick('operation', ['extend', 'pop', 'remove', 'reverse', '+='])
    if what == 'extend':
        table.extend(recs)
    elif what == '+=':
        table += recs
    else:
        for r in recs:
            table.append(r)
    if what == 'pop':
        i = h.size('position', 0, 2)
        h.check(table.pop(i) is recs[i], 'pop returns the record')
        del recs[i], rows[i]
    elif what == 'remove':
        i = h.size('position', 0, 2)
        table.remove(recs[i])
        del recs[i], rows[i]
    elif what == 'reverse':
        table.reverse()
        recs.reverse()
        rows.reverse()
    agree(h, t, table, recs, rows)
    step(h, t, table, recs, rows, 'append', 3)
    h.reach('done')


def again(h):
    """Two tables of the same type are independent."""
    one, two = Table(Loc, []), Table(Loc, [])
    row = new_row(h, 'Loc', 0)
    rec = Loc(*row)
    one.append(rec)
    agree(h, 'Loc', two, [], [])
    two.append(rec)
    agree(h, 'Loc', one, [rec], [row])
    agree(h, 'Loc', two, [rec], [row])
    h.reach('done')
