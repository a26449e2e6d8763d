"""Talks to a worker (worker.py), the process in which the code under test runs, in the repository's interpreter."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
TIMEOUTS = (60, 120)


class Violation(Exception):
    """The property is broken."""


class HarnessFailure(Exception):
    """The machinery itself failed: never reported as a violation."""


class Died(Exception):
    pass


class Hang(Exception):
    pass


class Worker:
    hung = False

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix='verif_')
        self.proc = None
        self.history = []

    def start(self):
        self.history = []
        log = os.path.join(self.scratch, '.worker.log')
        cwd = os.path.join(self.scratch, 'cwd')
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.scratch, 'LANG': 'C.UTF-8',
               'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONINTMAXSTRDIGITS': '0',
               'OPENBLAS_NUM_THREADS': '1', 'TMPDIR': self.scratch, 'TZ': 'UTC',
               'VERIF_REPO': REPO, 'VERIF_SCRATCH': cwd, 'VERIF_WORKER_LOG': log}
        self.proc = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                                     start_new_session=True)
        self.buf = b''
        ready = self._read(180)
        if not ready.get('ready'):
            raise HarnessFailure('the worker did not start: %s' % ready.get('error'))

    def _read(self, timeout):
        import time
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([fd], [], [], left)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    raise Died()
                self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            for p in (self.proc.stdin, self.proc.stdout, self.proc.stderr):
                try:
                    p.close()
                except OSError:
                    pass
            self.proc.wait()
            self.proc = None

    def close(self):
        self.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def call(self, op, args):
        """Returns ('ok', value) or ('exc', {type, msg, tb})."""
        # once something did not end, what follows (shrinking, mostly) need not be waited for that long
        timeouts = (30,) if Worker.hung else TIMEOUTS
        for attempt, timeout in enumerate(timeouts):
            try:
                if self.proc is None:
                    self.start()
                self.history.append([op, args])
                self.proc.stdin.write((json.dumps({'op': op, 'args': args}) + '\n').encode())
                self.proc.stdin.flush()
                res = self._read(timeout)
            except (Hang, Died, BrokenPipeError) as e:
                self.stop()
                if attempt + 1 < len(timeouts):
                    continue
                if isinstance(e, Hang):
                    Worker.hung = True
                    return 'exc', {'type': 'NoTermination', 'msg': 'no answer in %d s' % timeout, 'tb': ''}
                return 'exc', {'type': 'ProcessDied', 'msg': 'the process running the code died', 'tb': ''}
            if 'harness' in res:
                raise HarnessFailure(res['harness'])
            if 'exc' in res:
                return 'exc', res['exc']
            return 'ok', res['ok']
