# Stand-in for concurrent.futures: a pool which runs the submitted calls at
# once, and completes them in the order chosen by the test.

FIRST_COMPLETED = 'FIRST_COMPLETED'
FIRST_EXCEPTION = 'FIRST_EXCEPTION'
ALL_COMPLETED = 'ALL_COMPLETED'
ORDER = [None]      # function: list of futures -> list in completion order
SUBMITTED = []      # every future ever submitted


class Future(object):
    def __init__(self, fn, args, kwargs):
        self.reads = 0
        self.call = (fn, args, kwargs)
        self.value = None
        self.error = None
        try:
            self.value = fn(*args, **kwargs)
        except Exception, e:
            self.error = e

    def result(self, timeout=None):
        self.reads += 1
        if self.error is not None:
            raise self.error
        return self.value

    def exception(self, timeout=None):
        return self.error

    def done(self):
        return True

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        fn(self)


def as_completed(fs, timeout=None):
    fs = list(fs)
    distinct = []
    for f in fs:
        if not any(f is d for d in distinct):
            distinct.append(f)
    if ORDER[0] is not None:
        distinct = ORDER[0](distinct)
    for f in distinct:
        yield f


class DoneAndNotDone(tuple):
    @property
    def done(self):
        return self[0]

    @property
    def not_done(self):
        return self[1]


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    return DoneAndNotDone((set(fs), set()))


class Executor(object):
    def __init__(self, max_workers=None):
        pass

    def submit(self, fn, *args, **kwargs):
        f = Future(fn, args, kwargs)
        SUBMITTED.append(f)
        return f

    def map(self, fn, *iterables, **kwargs):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        return [f.result() for f in fs]

    def shutdown(self, wait=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        return False


class ProcessPoolExecutor(Executor):
    pass


class ThreadPoolExecutor(Executor):
    pass
