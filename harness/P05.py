import os
import psutil
import time
from openquake.commonlib import parallel

BOUNDS = ('up to 3 processes (thorough 4), each readable or not at each '
          'reading, with arbitrary sizes; arbitrary clock readings; blocks '
          'with and without exception, hooks returning a true value or '
          'not; two uses of a monitor; the default hook and process')
OUTSIDE = 'the same process given twice'
ASSUMES = ['psutil and the clock are stand-ins returning arbitrary readings']


def jobs(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        out.append(('monitor', dict(n=n, uses=1), ['returned', 'raised']))
    out.append(('monitor', dict(n=1, uses=2), ['returned', 'raised']))
    for exc in (0, 1):
        out.append(('printed', dict(exc=exc), ['printed']))
    out.append(('own', {}, ['own']))
    if tier != 'quick':
        out.append(('monitor', dict(n=2, uses=2), ['returned', 'raised']))
    return out


class Boom(Exception):
    pass


def monitor(h, n, uses):
    pids = [10 + i for i in range(n)]
    if n > 1 and h.flag('descending'):
        pids.reverse()
    now = []
    reads = []
    kinds = [psutil.AccessDenied, psutil.NoSuchProcess]

    def clock():
        t = h.int('clock%d' % len(now), 0, 10 ** 6)
        now.append(t)
        return t

    def memory(pid):
        i = len(reads)
        how = h.pick('how%d' % i, ['ok', 'denied', 'gone'])
        if how != 'ok':
            reads.append((pid, None))
            raise kinds[how == 'gone'](pid)
        v = h.int('mem%d' % i, 0)
        reads.append((pid, v))
        return v
    time.CLOCK[0] = clock
    psutil.MEMORY[0] = memory
    exits = []

    class Mon(parallel.PerformanceMonitor):
        def on_exit(self):
            exits.append((self.mem, self.duration, self.exc))
            return h.pick('value of the hook', [None, True])
    mon = Mon(pids)
    gone = []
    for use in range(uses):
        del now[:], reads[:], exits[:]
        exc = h.pick('raise%d' % use, [None, Boom, KeyboardInterrupt] if
                     use == 0 and n == 1 else [None, Boom])
        if exc is not None:
            exc = exc('x')
        split = []

        def block():
            with mon as m:
                h.check(m is mon, 'the monitor is the value of the block')
                h.check(mon.exc is None, 'no exception yet')
                split.append((len(reads), len(now)))
                if exc is not None:
                    raise exc
        o = h.outcome(block)
        h.check(len(split) == 1, 'the block is executed', o[1])
        if exc is None:
            h.check(o[0] == 'ok', 'no exception', o[1])
            h.reach('returned')
        else:
            h.check(o[0] == 'exc' and o[1] is exc,
                    'the exception is not swallowed', o[1])
            h.reach('raised')
        h.check(mon.exc is exc, 'the exception is recorded', mon.exc)
        h.check(len(exits) == 1, 'the hook is called once')
        h.check(h.Or(*[mon.duration == b - a for a in now[:split[0][1]]
                       for b in now[split[0][1]:]]),
                'the duration is the difference of the readings')
        first = dict(reads[:split[0][0]])
        last = dict(reads[split[0][0]:])
        expected = []
        for pid in pids:
            a, b = first.get(pid), last.get(pid)
            if pid in first:
                if a is None or b is None:
                    if pid not in gone:
                        gone.append(pid)
                else:
                    expected.append(b - a)
        h.check(h.Eq(list(mon.mem), expected), 'one delta for each readable '
                'process', mon.mem, reads)
        h.check(exits[0][0] is mon.mem and exits[0][2] is exc and
                exits[0][1] == mon.duration, 'the hook sees the results')
        h.check(all(pid in first or pid in gone for pid in pids),
                'only unreadable processes are dropped')


def printed(h, exc):
    """The default hook"""
    time.CLOCK[0] = lambda: 1000
    size = h.int('size', 0)
    psutil.MEMORY[0] = lambda pid: size
    mon = parallel.PerformanceMonitor([7])

    def block():
        with mon:
            if exc:
                raise Boom('broken')
    o = h.outcome(block)
    h.check((o[0] == 'exc' and isinstance(o[1], Boom)) if exc else
            o[0] == 'ok', 'the exception is not swallowed', o[1])
    lines = h.stdout().splitlines()
    h.check(len([l for l in lines if l == 'mem = [0]']) == 1,
            'the deltas are reported once', lines)
    h.check(len([l for l in lines if l == 'duration = 0']) == 1,
            'the duration is reported once', lines)
    h.check(len([l for l in lines if 'Boom(broken)' in l]) == exc,
            'the exception is reported if there is one', lines)
    h.reach('printed')


def own(h):
    """By default the memory of the process itself is measured"""
    asked = []
    time.CLOCK[0] = lambda: 1000

    def memory(pid):
        asked.append(pid)
        return 5
    psutil.MEMORY[0] = memory
    how = h.pick('pids', [None, [], 'omitted'])
    mon = (parallel.PerformanceMonitor() if how == 'omitted' else
           parallel.PerformanceMonitor(how))
    with mon:
        pass
    h.check(mon.mem == [0], 'one delta', mon.mem)
    h.check(asked == [os.getpid()] * 2, 'of the process itself', asked)
    h.reach('own')
