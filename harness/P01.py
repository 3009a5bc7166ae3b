import os
import concurrent.futures as futures
import psutil
from openquake.commonlib import parallel

BOUNDS = ('up to 4 tasks (thorough 5) completing in every order, with '
          'arbitrary results, any subset of them failing (pairs with any of 3 kinds of exceptions), arbitrary initial '
          'values; with and without distribution; two rounds on a manager; '
          'up to 3 tasks with equal arguments; '
          'any used memory percentage')
OUTSIDE = ('real process pools: the pool is a stand-in running each task '
           'once and completing the futures in the chosen order; more tasks')
ASSUMES = ['as_completed yields each distinct future once, when it is done']


class Boom(Exception):
    pass


def jobs(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for local in (True, False):
        for n in range(top + 1):
            lab = ['folded'] + (['failed'] if n else [])
            out.append(('reduction', dict(n=n, local=local), lab))
            out.append(('waiting', dict(n=n, local=local), ['waited']))
        out.append(('reuse', dict(local=local), ['reused']))
        out.append(('alike', dict(local=local), ['folded']))
    out.append(('switch', {}, ['local', 'pool']))
    return out


def order(h):
    """Any completion order; the order chosen is remembered."""
    def reorder(fs):
        rest, out = list(fs), []
        while rest:
            out.append(rest.pop(h.size('next', 0, len(rest) - 1)))
        order.last = [f.call for f in out]
        return out
    return reorder


def environment(h, local):
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if local:
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
    order.last = None
    futures.ORDER[0] = order(h)
    percent = h.int('percent', 0, 100)
    psutil.PERCENT[0] = lambda: percent


class Task(object):
    """A task function which remembers its calls."""
    __name__ = 'task'

    def __init__(self, h, n, nothing=False):
        self.values = [h.int('value%d' % i) for i in range(n)]
        if nothing:
            self.values[h.size('nothing', 0, n - 1)] = None
        self.fails = [h.flag('fails%d' % i) for i in range(n)]
        self.exc = Boom
        if n == 2 and any(self.fails):
            self.exc = [Boom, SystemExit, h.oldclass('Old')][
                h.size('exception', 0, 2)]
        self.calls = []

    def __call__(self, i, text):
        self.calls.append(i)
        assert text == 't%d' % i
        if self.fails[i]:
            raise self.exc('task %d broken' % i)
        return self.values[i]


def completion(indices):
    if order.last is None:      # nothing distributed
        return indices
    return [find_args(c)[0] for c in order.last]


def find_args(call):
    """The argument tuple of the task in a submitted call."""
    fn, args, kw = call
    for a in list(args) + list(kw.values()):
        if isinstance(a, (tuple, list)) and len(a) == 2:
            return a
    return args


def reduction(h, n, local):
    environment(h, local)
    task = Task(h, n)
    acc0 = h.int('acc')
    seen = []

    def agg(acc, val):
        seen.append(val)
        return acc * 3 + val
    args = [(i, 't%d' % i) for i in range(n)]
    indices = [i for i, t in args]
    if h.flag('descending'):
        args.reverse()
        indices.reverse()
    if h.flag('iterator'):
        args = iter(args)
    if h.flag('manager'):
        lines = []
        tm = parallel.TaskManager(task, lambda *a: lines.append(a))

        def run():
            for a in args:
                tm.submit(*a)
            return tm.aggregate_results(agg, acc0)
        o = h.outcome(run)
    else:
        o = h.outcome(parallel.map_reduce, task, args, agg, acc0)
    h.check(sorted(task.calls) == range(n), 'every task is run once',
            task.calls)
    if any(task.fails):
        h.check(o[0] == 'exc' and isinstance(o[1], RuntimeError),
                'a failed task makes the aggregation fail', o[1])
        text = str(o[1])
        hit = [i for i in range(n) if '%s: task %d broken' % (
            task.exc.__name__, i) in text]
        h.check(len(hit) == 1 and task.fails[hit[0]],
                'the error carries the message of a failed task', text)
        h.check('line ' in text, 'the error carries the traceback text')
        ref = completion(indices)
        ref = [i for i in ref[:ref.index(hit[0])]]
        h.check(not any(task.fails[i] for i in ref) and h.Eq(
            seen, [task.values[i] for i in ref]),
            'no result is skipped before the failure', seen)
        h.reach('failed')
        return
    h.check(o[0] == 'ok', 'the aggregation does not fail', o[1])
    ref = completion(indices)
    h.check(local or n == 0 or order.last is not None, 'distributed')
    acc = acc0
    for i in ref:
        acc = acc * 3 + task.values[i]
    h.check(o[1] == acc, 'the fold of the results in completion order')
    h.check(h.Eq(seen, [task.values[i] for i in ref]),
            'each result is used once', seen)
    h.observe('result', o[1])
    h.reach('folded')


def waiting(h, n, local):
    environment(h, local)
    task = Task(h, n, n == 2)
    h.assume(not any(task.fails))
    tm = parallel.TaskManager(task, lambda *a: None)
    for i in range(n):
        tm.submit(i, 't%d' % i)
    o = h.outcome(tm.wait)
    h.check(o[0] == 'ok' and o[1] == n, 'wait returns the number of tasks',
            o[1])
    h.reach('waited')


def reuse(h, local):
    environment(h, local)
    task = Task(h, 4)
    h.assume(not any(task.fails))
    tm = parallel.TaskManager(task, lambda *a: None, 'name')
    n = h.size('n', 0, 2)
    m = h.size('m', 0, 2)
    for i in range(n):
        tm.submit(i, 't%d' % i)
    if h.flag('wait'):
        h.check(tm.wait() == n, 'wait returns the number of tasks')
    else:
        a = tm.aggregate_results(lambda a, x: a + x, 0)
        h.check(a == h.total(task.values[:n]), 'first aggregation')
    for i in range(n, n + m):
        tm.submit(i, 't%d' % i)
    b = tm.aggregate_results(lambda a, x: a + x, 0)
    h.check(b == h.total(task.values[n:n + m]),
            'a manager can be used again')
    h.reach('reused')


def switch(h):
    environment(h, False)
    text = h.pick('text', [None, '', '0', '1', 'true', 'TRUE', 'yes', 'Yes',
                           'no', 'false'])
    if text is not None:
        os.environ['OQ_NO_DISTRIBUTE'] = text
    before = len(futures.SUBMITTED)
    task = Task(h, 1)
    parallel.TaskManager(task, lambda *a: None).submit(0, 't0')
    pool = len(futures.SUBMITTED) > before
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    off = text is not None and text.lower() in ('1', 'true', 'yes')
    h.check(pool == (not off), 'distribution is disabled by the variable')
    h.reach('pool' if pool else 'local')


def alike(h, local):
    """Tasks with equal arguments are all run"""
    environment(h, local)
    n = h.size('n', 1, 3)
    x, y = h.int('x'), h.pick('y', ['a', (1, 2), [1], None])
    args = [h.pick('arguments%d' % i, [(x, y), (x, 'b')]) for i in range(n)]
    calls = []

    def task(x, y):
        calls.append((x, y))
        return len(calls)
    task.__name__ = 'task'
    o = h.outcome(parallel.map_reduce, task, args,
                  lambda acc, val: acc + val, 0)
    h.check(o[0] == 'ok', 'the aggregation does not fail', o[1])
    h.check(len(calls) == n, 'every task is run once', calls)
    for a in args:
        h.check(len([c for c in calls if c[1] == a[1]]) ==
                len([c for c in args if c[1] == a[1]]), 'with its arguments')
    h.check(o[1] == sum(range(n + 1)), 'each result is used once', o[1])
    h.reach('folded')
