# Stand-in for psutil: the readings come from the test.
MEMORY = [None]      # function: pid -> number of bytes, or raises an Error
PERCENT = [None]     # function: -> used percentage


class Error(Exception):
    pass


class NoSuchProcess(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, msg or 'process no longer exists (pid=%s)' % pid)
        self.pid = pid


class AccessDenied(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, msg or 'access denied (pid=%s)' % pid)
        self.pid = pid


class MemInfo(object):
    def __init__(self, rss):
        self.rss = rss
        self.vms = rss


class Process(object):
    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        return MemInfo(MEMORY[0](self.pid))

    memory_info = get_memory_info


class Usage(object):
    def __init__(self, percent):
        self.percent = percent


def phymem_usage():
    return Usage(10 if PERCENT[0] is None else PERCENT[0]())

virtual_memory = phymem_usage
