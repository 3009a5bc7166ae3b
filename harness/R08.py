from openquake.commonlib.record import Record, Field, Unique, Table
from openquake.commonlib import csvmanager, valid

BOUNDS = ('record types of 1 to 3 columns; tables of up to 3 rows of '
          'arbitrary words, tables of up to 2 rows with two texts of up to 2 '
          '(thorough 3) arbitrary characters among letters, separators, '
          'quotes, blanks and newlines')
OUTSIDE = ('more rows and columns, longer texts, characters which are not '
           'ASCII, NUL characters')
ASSUMES = []
NAMES = ['a', 'b', 'c']
ALPHABET = 'a ,"\n\r\''


def make(h, n, types=None):
    dic = dict((x, Field(str)) for x in NAMES[:n])
    dic['pkey'] = Unique(*NAMES[:n])
    dic.update(types or {})
    # the order of the fields is the order of their creation
    for x in NAMES[:n]:
        if types is None or x not in types:
            dic[x] = Field(str)
    return h.newtype(type(Record), 'Sample', (Record,), dic)


def jobs(tier):
    out = []
    top = 2 if tier == 'quick' else 3
    for n in (1, 2, 3):
        for r in range(4):
            out.append(('words', dict(n=n, r=r), ['same']))
        out.append(('texts', dict(n=n, r=1, top=top), ['same']))
    out.append(('texts', dict(n=1, r=2, top=top), ['same']))
    out.append(('texts', dict(n=2, r=2, top=1), ['same']))
    for r in (1, 2):
        out.append(('lines', dict(r=r), ['same']))
    out.append(('duplicated', {}, ['refused']))
    for r in (0, 1, 2, 3):
        out.append(('validity', dict(r=r), ['valid'] + (
            ['invalid'] if r else [])))
    return out


def distinct(h, rows):
    for i, x in enumerate(rows):
        for y in rows[:i]:
            h.assume(h.Not(h.And(*[h.same(a, b) for a, b in zip(x, y)])))


def back(h, rt, rows):
    table = Table(rt, [rt(*row) for row in rows])
    text = str(table)
    o = h.outcome(csvmanager.create_table, rt, text)
    h.check(o[0] == 'ok', 'the text can be read', o[1])
    got = o[1]
    h.check(got.recordtype is rt, 'the type of the table')
    h.check(len(got) == len(rows), 'the number of rows', text)
    for rec, row in zip(got, rows):
        h.check(isinstance(rec, rt), 'the type of the records')
        h.check(len(rec.row) == len(row), 'the number of columns', text)
        for a, b in zip(rec.row, row):
            h.check(h.same(a, b), 'the content of the columns', text)
    for row in rows:
        one = list(csvmanager.create_table(rt, str(rt(*row))))
        h.check(len(one) == 1 and h.And(*[
            h.same(a, b) for a, b in zip(one[0].row, row)]),
            'the text of a record', str(rt(*row)))
    h.reach('same')


def words(h, n, r):
    rows = [[h.tok('x%d%d' % (i, j)) for j in range(n)] for i in range(r)]
    distinct(h, rows)
    back(h, make(h, n), rows)


def texts(h, n, r, top):
    rows = [[h.text('x%d%d' % (i, j), top, 0, ALPHABET) if j < 2 else
             h.pick('x%d%d' % (i, j), ['', 'z', 'z,"'])
             for j in range(n)] for i in range(r)]
    distinct(h, rows)
    back(h, make(h, n), rows)


def lines(h, r):
    """Texts given by hand"""
    rt = make(h, 2)
    rows = [[h.pick('x%d%d' % (i, j), ['', 'a', ' b ', 'c,d', 'e"f', 'g\nh',
                                       '"', '\r\n'])
             for j in range(2)] for i in range(r)]
    distinct(h, rows)
    back(h, rt, rows)


def duplicated(h):
    rt = make(h, 2)
    x, y = h.tok('x'), h.tok('y')
    text = '\n'.join([str(rt(x, y)), str(rt(x, y))])
    o = h.outcome(csvmanager.create_table, rt, text)
    h.check(o[0] == 'exc' and isinstance(o[1], KeyError),
            'duplicated rows are refused', o)
    h.reach('refused')


def validity(h, r):
    types = {'b': Field(valid.boolean)}
    answers = {}
    if h.flag('constrained'):
        types['_constraints'] = [lambda rec: answers[rec['a']]]
    rt = make(h, 2, types)
    h.check([f.name for f in rt.fields] in (['a', 'b'], ['b', 'a']), 'fields')
    rows = []
    good = []
    for i in range(r):
        b = h.text('b%d' % i, 1)
        ok = h.Or(h.same(b, '0'), h.same(b, '1'))
        answers['k%d' % i] = True
        if '_constraints' in types:
            answers['k%d' % i] = h.bool('answer%d' % i)
        good.append(h.And(ok, answers['k%d' % i]))
        row = dict(a='k%d' % i, b=b)
        rows.append(rt(*[row[f.name] for f in rt.fields]))
    table = Table(rt, rows)
    got = table.is_valid()
    h.check(h.Iff(bool(got), h.And(*good)),
            'valid when all of the records are')
    h.reach('valid' if got else 'invalid')
