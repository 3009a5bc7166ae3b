"""Client side of the Jython server (one process, shared by forked workers)."""
import json
import os
import select
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class JyTimeout(Exception):
    pass


class JyError(Exception):
    pass


class Jython(object):
    """A Jython process answering parse and replay requests."""

    def __init__(self):
        self.p = None
        self.buf = b''

    def start(self):
        env = dict(os.environ)
        env.pop('JYTHONPATH', None)
        env.pop('OQ_NO_DISTRIBUTE', None)
        env['LC_ALL'] = 'C.UTF-8'
        self.p = subprocess.Popen(
            ['java', '-Xmx1g', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC',
             '-Xss8m', '-Dpython.home=/usr/share/jython',
             '-Dpython.executable=/usr/share/jython/bin/jython',
             '-Dpython.cachedir.skip=true',
             '-jar', '/usr/share/java/jython.jar',
             '-B', '-S', os.path.join(VERIF, 'vf', 'jyserver.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, start_new_session=True)
        self.buf = b''
        self.ready = False

    def _readline(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise JyTimeout()
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise JyTimeout()
            data = os.read(fd, 1 << 20)
            if not data:
                raise JyError('jython process ended')
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def request(self, req, timeout=60):
        for attempt in (0, 1):
            if self.p is None:
                self.start()
            try:
                if not self.ready:
                    self._readline(90)
                    self.ready = True
                self.p.stdin.write(json.dumps(req).encode('ascii') + b'\n')
                self.p.stdin.flush()
                line = self._readline(timeout)
                return json.loads(line)
            except JyTimeout:
                self.stop()
                raise
            except (BrokenPipeError, JyError, OSError):
                self.stop()
                if attempt:
                    raise JyError('jython process ended')

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            try:
                self.p.wait()
            except Exception:
                pass
            self.p = None
