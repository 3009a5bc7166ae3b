from openquake.commonlib import parallel

BOUNDS = 'every number of tasks from 1 to 110 (thorough 400)'
OUTSIDE = 'more tasks'
ASSUMES = []


def jobs(tier):
    top = 110 if tier == 'quick' else 400
    step = 10 if tier == 'quick' else 20
    return [('progress', dict(lo=i, hi=min(i + step - 1, top)), ['done'])
            for i in range(1, top + 1, step)] + [('manager', {}, ['done'])]


def verdict(h, calls, name, todo, counts):
    """calls is the list of the arguments of the progress function."""
    texts = [c[0] % tuple(c[1:]) if len(c) > 1 else c[0] for c in calls]
    h.check(texts[0] == 'spawned %s tasks of kind %s' % (todo, name),
            'reported once at the start', texts[:2])
    expected, last = [], 0
    for done in range(1, todo):
        p = 100 * done // todo
        if p > last:
            expected.append('%s %3d%%' % (name, p))
            last = p
    h.check(texts[1:-1] == expected, 'strictly increasing truncated '
            'percentages', texts)
    h.check(texts[-1].split() == [name, '100%'], '100% is the last report',
            texts[-3:])
    h.check(counts == range(todo + 1), 'the counter advances by one')


def progress(h, lo, hi):
    todo = h.case('todo', lo, hi)
    calls = []
    gen = parallel.log_percent_gen('kind', todo, lambda *a: calls.append(a))
    counts = [gen.next()]
    h.check(len(calls) == 1, 'one report at the start')
    while counts[-1] < todo:
        counts.append(gen.next())
    n = len(counts) - 1
    h.check(todo == n, 'one step per task')
    verdict(h, calls, 'kind', n, counts)
    h.reach('done')


def manager(h):
    import os
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if h.flag('local'):
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
    n = h.size('n', 1, 6)
    calls = []
    at = []

    def agg(acc, x):
        at.append(len(calls))
        return acc + x
    tm = parallel.TaskManager(lambda x: x, lambda *a: calls.append(a), 'kind')
    for i in range(n):
        tm.submit(h.int('x%d' % i))
    tm.aggregate_results(agg, 0)
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    # each percentage is reported when that many tasks are done
    h.check(at == [1 + i for i in range(n)], 'reports follow the tasks', at)
    verdict(h, calls, 'kind', n, range(n + 1))
    h.reach('done')
