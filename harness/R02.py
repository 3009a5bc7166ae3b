import csv
from openquake.commonlib.record import Record, Field, Unique

BOUNDS = ('record types with 1 to 3 fields, every number of fields passed at '
          'construction, every history of 3 assignments (thorough 4) by '
          'position (also negative) or name, with arbitrary texts and '
          'arbitrary validators')
OUTSIDE = 'more fields, longer histories'
ASSUMES = ['field validators return a value or raise ValueError']
NAMES = ['zeta', 'alpha', 'mid']


def jobs(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for n in (1, 2, 3):
        out.append(('history', dict(n=n, k=k), ['done']))
        out.append(('reading', dict(n=n), ['read']))
    return out


class Validator(object):
    def __init__(self, h, i):
        self.pivot = h.tok('pivot%d' % i)
        self.empty = h.bool('empty%d' % i)

    def good(self, text):
        return text < self.pivot if text else self.empty

    def __call__(self, text):
        if self.good(text):
            return 'value', text
        raise ValueError('bad')


def make(h, n):
    vals = [Validator(h, i) for i in range(n)]
    dic = dict((name, Field(v)) for name, v in
               reversed(zip(NAMES, vals)))
    dic['pkey'] = Unique(NAMES[0])
    # Fields are ordered by creation
    fields = [Field(v) for v in vals]
    for name, f in zip(NAMES, fields):
        dic[name] = f
    return h.newtype(type(Record), 'Rec', (Record,), dic), vals


def same_row(h, rec, row):
    n = len(row)
    h.check(len(rec) == n and len(rec.row) == n, 'the length is kept')
    h.check(h.And(*[h.same(rec[i], row[i]) for i in range(n)]),
            'the fields by position', rec.row, row)
    h.check(h.And(*[h.same(rec[NAMES[i]], row[i]) for i in range(n)]),
            'the fields by name')
    h.check(h.And(*[h.same(a, b) for a, b in zip(list(rec), row)]) and
            len(list(rec)) == n, 'the fields by iteration')


def history(h, n, k):
    rt, vals = make(h, n)
    row = [h.tok('text%d' % i) for i in range(n)]
    other = [h.tok('other%d' % i) for i in range(n)]
    rec = rt(*row)
    twin = rt(*other)
    for step in range(k):
        i = h.size('field', 0, n - 1)
        how = h.pick('how', ['index', 'name', 'negative'][:3 - step])
        key = {'index': i, 'name': NAMES[i], 'negative': i - n}[how]
        text = h.tok('new%d' % step)
        if step == 0 and h.flag('erased'):
            text = ''

        def assign():
            rec[key] = text
        o = h.outcome(assign)
        if o[0] == 'ok':
            h.check(vals[i].good(text), 'an invalid text is refused')
            row[i] = text
        else:
            h.check(h.Not(vals[i].good(text)), 'a valid text is accepted')
            h.check(isinstance(o[1], ValueError), 'a ValueError', o[1])
        same_row(h, rec, row)
    same_row(h, twin, other)
    h.reach('done')


def reading(h, n):
    rt, vals = make(h, n)
    given = h.size('given', 0, n)
    texts = [h.tok('text%d' % i) for i in range(given)]
    if h.flag('named'):
        rec = rt(**dict(zip(NAMES, texts)))
    else:
        rec = rt(*texts)
    same_row(h, rec, texts + [''] * (n - given))
    fresh = rt()
    same_row(h, fresh, [''] * n)
    if n > 1:
        last = h.tok('last')
        rec = rt(**{NAMES[n - 1]: last})
        same_row(h, rec, [''] * (n - 1) + [last])
    row = list(csv.reader([str(rt(*texts))]))
    want = texts + [''] * (n - given)
    h.check(len(row) == 1 and len(row[0]) == n and h.And(*[
        h.same(a, b) for a, b in zip(row[0], want)]),
        'the printed form has the fields')
    h.reach('read')
