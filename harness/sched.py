"""Deterministic scheduling of real processes at their file operations.

Every worker is a forked process (its own process group).  Before each file operation inside the scratch root it stops
and waits for permission, so exactly one worker runs at a time and the order of all operations is chosen by the
scheduler.  A crash is SIGKILL of the worker's process group at such a point.
"""
import glob
import json
import os
import select
import signal
import sys
import time

import fitsio

READ_OPS = ('isfile', 'exists', 'glob', 'listdir')


class Child(object):
    """The worker's side."""

    def __init__(self, root, rfd, wfd):
        self.root = root
        self.rfd = rfd
        self.wfd = wfd

    def send(self, **m):
        os.write(self.wfd, (json.dumps(m) + '\n').encode())

    def gate(self, op, path=''):
        self.send(t='gate', op=op, path=path)
        if os.read(self.rfd, 1) != b'g':
            os._exit(9)

    def ev(self, op, **kw):
        self.send(t='ev', op=op, **kw)

    def inside(self, p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(self.root)
        except TypeError:
            return False

    def rel(self, p):
        return os.path.relpath(os.path.abspath(os.fspath(p)), self.root)

    def install(self):
        c = self

        def wrap(mod, name, op, arg=0):
            orig = getattr(mod, name)

            def f(*a, **k):
                p = a[arg] if len(a) > arg else None
                if p is None or not c.inside(p):
                    return orig(*a, **k)
                c.gate(op, c.rel(p))
                try:
                    v = orig(*a, **k)
                except Exception:
                    c.ev(op, path=c.rel(p), ok=False)
                    raise
                if op in READ_OPS:
                    c.ev(op, path=c.rel(p), ok=bool(v))
                else:
                    c.ev(op, path=c.rel(p), ok=True)
                return v
            setattr(mod, name, f)
        wrap(os, 'link', 'link', 1)
        wrap(os, 'symlink', 'link', 1)
        wrap(os, 'rename', 'rename', 1)
        wrap(os, 'replace', 'rename', 1)
        wrap(os, 'unlink', 'unlink')
        wrap(os, 'remove', 'unlink')
        wrap(os.path, 'isfile', 'isfile')
        wrap(os.path, 'exists', 'exists')
        wrap(glob, 'glob', 'glob')
        wrap(fitsio, 'write', 'write')
        os_open = os.open

        def open_(path, flags, *a, **k):
            # a lock file that is created directly
            if flags & os.O_CREAT and str(path).endswith('.lock') and c.inside(path):
                c.gate('link', c.rel(path))
                try:
                    v = os_open(path, flags, *a, **k)
                except Exception:
                    c.ev('link', path=c.rel(path), ok=False)
                    raise
                c.ev('link', path=c.rel(path), ok=True)
                return v
            return os_open(path, flags, *a, **k)
        os.open = open_

        def sleep(s):
            c.gate('sleep')
            c.ev('sleep', path='', ok=True)
        time.sleep = sleep

        class FITS(fitsio.FITS):
            _vp = False

            def __init__(self, filename, mode='r', **kw):
                self._vp = False
                rw = mode in ('rw', 1)
                if rw and c.inside(filename):
                    c.gate('openrw', c.rel(filename))
                    self._vp = True
                    self._vpath = c.rel(filename)
                    c.ev('openrw', path=self._vpath, ok=True)
                super().__init__(filename, mode, **kw)

            def close(self):
                if self._vp:
                    self._vp = False
                    c.gate('closerw', self._vpath)
                    super().close()
                    c.ev('closerw', path=self._vpath, ok=True)
                else:
                    super().close()

            def __exit__(self, *a):
                self.close()
        fitsio.FITS = FITS


class Worker(object):
    pass


class Sched(object):
    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.workers = []
        self.events = []
        self.barriers = {}

    def spawn(self, name, fn):
        r1, w1 = os.pipe()     # child -> parent
        r2, w2 = os.pipe()     # parent -> child
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                os.close(r1)
                os.close(w2)
                for w in self.workers:
                    os.close(w.r)
                    os.close(w.w)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get('VP_DEBUG'):
                    os.dup2(dn, 2)
                c = Child(self.root, r2, w1)
                c.gate('start')
                c.install()
                try:
                    fn(c)
                    res = 'ok'
                except Exception as e:      # noqa: BLE001
                    res = type(e).__name__
                    if os.environ.get('VP_DEBUG'):
                        import traceback
                        traceback.print_exc()
                c.send(t='done', res=res)
            except BaseException:           # noqa: BLE001
                pass
            os._exit(0)
        os.close(w1)
        os.close(r2)
        w = Worker()
        w.pid, w.r, w.w, w.name, w.buf, w.at, w.state, w.res = pid, r1, w2, name, b'', None, 'run', None
        self.workers.append(w)
        self.wait(w)
        return w

    def wait(self, w, timeout=60):
        """Runs w until it stops at its next operation or ends."""
        end = time.monotonic() + timeout
        while True:
            while b'\n' in w.buf:
                line, w.buf = w.buf.split(b'\n', 1)
                m = json.loads(line)
                if m['t'] == 'ev':
                    m.pop('t')
                    m['w'] = w.name
                    self.events.append(m)
                elif m['t'] == 'gate':
                    w.at = (m['op'], m['path'])
                    w.state = 'gate'
                    return
                else:
                    w.state, w.res = 'done', m['res']
                    self.reap(w)
                    return
            left = end - time.monotonic()
            ok = select.select([w.r], [], [], max(0, left))[0] if left > 0 else []
            if not ok:
                w.res = 'hang'
                self.kill(w, 'hang')
                return
            d = os.read(w.r, 65536)
            if not d:
                w.state, w.res = 'done', 'died'
                self.reap(w)
                return
            w.buf += d

    def reap(self, w):
        try:
            os.waitpid(w.pid, 0)
        except ChildProcessError:
            pass
        for fd in (w.r, w.w):
            try:
                os.close(fd)
            except OSError:
                pass

    def kill(self, w, state='crashed'):
        try:
            os.killpg(w.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        w.state = state
        self.reap(w)
        if state == 'crashed':
            # it died long ago
            for root, _, files in os.walk(self.root):
                for f in files:
                    if f.endswith('.lock'):
                        os.utime(os.path.join(root, f), (1.0e9, 1.0e9))

    def step(self, w):
        w.state = 'run'
        os.write(w.w, b'g')
        self.wait(w)

    def runnable(self):
        """Workers that may go on; those at a barrier wait for the rest."""
        act = [w for w in self.workers if w.state == 'gate']
        bar = [w for w in act if w.at[0] == 'barrier']
        if bar and len(bar) < len(act):
            act = [w for w in act if w.at[0] != 'barrier']
        return act

    def run(self, choose, on_step=None, maxsteps=20000):
        """choose(runnable, k) -> (worker, crash?)"""
        k = 0
        while True:
            act = self.runnable()
            if not act:
                return True
            if k >= maxsteps:
                for w in act:
                    self.kill(w, 'hang')
                return False
            w, crash = choose(act, k)
            k += 1
            if crash:
                self.events.append(dict(op='crash', w=w.name, at=w.at[0], path=w.at[1]))
                self.kill(w)
            else:
                self.step(w)
            if on_step:
                on_step(self)


def random_policy(r, crash=None, stick=0.6):
    """Mostly lets a worker go on, with preemptions; waiting workers (sleeping) are chosen seldom."""
    last = [None]
    cnt = [0]

    def choose(act, k):
        if last[0] in act and last[0].at[0] != 'sleep' and r.uniform() < stick:
            w = last[0]
        else:
            awake = [w for w in act if w.at[0] != 'sleep']
            pool = awake if awake and r.uniform() < 0.9 else act
            w = pool[r.randint(len(pool))]
        last[0] = w
        if crash and crash['left'] > 0 and r.uniform() < crash['p'] and w.at[0] not in ('sleep', 'barrier'):
            crash['left'] -= 1
            return w, True
        return w, False
    return choose


def pct_policy(r, crash=None, depth=2, length=60):
    """Priority schedules: the worker of highest priority runs; at a few random points the running one falls behind."""
    prio = {}
    drops = set(int(x) for x in r.randint(0, max(1, length), size=depth))
    low = [0]

    def choose(act, k):
        for w in act:
            if w.name not in prio:
                prio[w.name] = 1 + float(r.uniform())
        awake = [w for w in act if w.at[0] != 'sleep']
        pool = awake if awake and r.uniform() < 0.9 else act
        w = max(pool, key=lambda x: prio[x.name])
        if k in drops:
            low[0] -= 1
            prio[w.name] = low[0]
            w = max(pool, key=lambda x: prio[x.name])
        if crash and crash['left'] > 0 and r.uniform() < crash['p'] and w.at[0] not in ('sleep', 'barrier'):
            crash['left'] -= 1
            return w, True
        return w, False
    return choose


class DFS(object):
    """Enumerates all schedules by re-execution."""

    def __init__(self):
        self.prefix = []
        self.done = False

    def policy(self):
        self.trail = []

        def choose(act, k):
            act = sorted(act, key=lambda w: w.name)
            i = self.prefix[k] if k < len(self.prefix) else 0
            if i >= len(act):
                i = 0
            self.trail.append((i, len(act)))
            return act[i], False
        return choose

    def advance(self):
        t = self.trail
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            self.done = True
            return
        self.prefix = [x[0] for x in t[:-1]] + [t[-1][0] + 1]
