import os
import logging
import concurrent.futures as futures
import psutil
from openquake.commonlib import parallel

BOUNDS = ('every percentage of used memory and every limit (multiples of '
          '1/4 or integers); up to 3 tasks (thorough 4) with another '
          'percentage at each reading; every text of up to 5 printable '
          'characters in the environment variable')
OUTSIDE = 'how the log is shown'
ASSUMES = ['psutil is a stand-in returning arbitrary percentages']
PRINTABLE = ''.join(map(chr, range(32, 127)))
WORDS = ['1', 'true', 'yes']


def jobs(tier):
    out = [('limit', dict(kind=k), ['above', 'below'])
           for k in ('int', 'real', 'default')]
    out.append(('message', {}, ['above']))
    for local in (True, False):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            out.append(('tasks', dict(n=n, local=local), ['done']))
    for n in range(6):
        out.append(('switch', dict(n=n), ['pool'] + (
            ['local'] if n in (1, 3, 4) else [])))
    out.append(('unset', {}, ['pool']))
    return out


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def warnings(self):
        return [r for r in self.records if r.levelno >= logging.WARNING]


def capture():
    log = Log()
    logging.getLogger().addHandler(log)
    return log


def release(log):
    logging.getLogger().removeHandler(log)
    psutil.PERCENT[0] = None
    os.environ.pop('OQ_NO_DISTRIBUTE', None)


def limit(h, kind):
    if kind == 'real':
        used, top = h.real('used', 0, 100, den=4), h.real('top', 0, 100,
                                                          den=4)
    else:
        used = h.int('used', 0, 100)
        top = h.int('top', 0, 100) if kind == 'int' else 80
    psutil.PERCENT[0] = lambda: used
    log = capture()
    try:
        if kind == 'default':
            parallel.check_mem_usage()
        elif h.flag('keyword'):
            parallel.check_mem_usage(mem_percent=top)
        else:
            parallel.check_mem_usage(top)
        n = len(log.warnings())
        h.check(n <= 1, 'one warning')
        h.check(h.Iff(n == 1, used > top), 'a warning above the limit')
        h.reach('above' if n else 'below')
    finally:
        release(log)


def message(h):
    used = h.pick('used', [81, 90.5, 100, 99.9])
    psutil.PERCENT[0] = lambda: used
    log = capture()
    try:
        parallel.check_mem_usage()
        h.check(len(log.warnings()) == 1, 'a warning')
        text = log.warnings()[0].getMessage()
        h.check('%d%%' % used in text and 'memory' in text,
                'the warning tells the percentage', text)
        h.reach('above')
    finally:
        release(log)


def task(x):
    return x


def tasks(h, n, local):
    readings = []

    def percent():
        p = h.int('percent%d' % len(readings), 0, 100)
        readings.append(p)
        return p
    psutil.PERCENT[0] = percent
    futures.ORDER[0] = list
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if local:
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
    log = capture()
    try:
        tm = parallel.TaskManager(task, lambda *a: None)
        values = [h.int('v%d' % i) for i in range(n)]
        for i, v in enumerate(values):
            before = len(readings)
            tm.submit(v)
            h.check(len(readings) > before, 'checked at every submission')
        got = tm.aggregate_results(lambda acc, x: acc + [x], [])
        h.check(len(got) == n and h.And(*[
            h.same(a, b) for a, b in zip(got, values)]),
            'the results do not depend on the memory', got)
        h.check(h.Eq(len(log.warnings()),
                     h.count([r > 80 for r in readings])),
                'a warning for each reading above the limit')
        h.reach('done')
    finally:
        release(log)


def alike(h, text, word):
    """The word in any capitalization"""
    if len(text) != len(word):
        return False
    return h.And(*[h.Or(c == w, c == w.upper())
                   for c, w in zip(text, word)])


def switch(h, n):
    text = h.text('value', n, n, PRINTABLE)
    futures.ORDER[0] = list
    os.environ['OQ_NO_DISTRIBUTE'] = text
    log = capture()
    try:
        got = parallel.no_distribute()
        want = h.Or(*[alike(h, text, w) for w in WORDS])
        h.check(h.Iff(bool(got), want), 'distribution is disabled by the '
                'words 1, true and yes only', text)
        ran = []
        tm = parallel.TaskManager(task, lambda *a: None)
        tm.oqtask = lambda x: ran.append(x) or x
        tm.submit(3)
        h.check(tm.aggregate_results(lambda acc, x: acc + x, 0) == 3,
                'the result')
        h.reach('local' if got else 'pool')
    finally:
        release(log)


def unset(h):
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    h.check(not parallel.no_distribute(), 'distributed unless disabled')
    h.reach('pool')
