"""Helpers shared by the harnesses (run with /opt/venv/bin/python against the scratch build)."""
import contextlib
import io
import json
import logging
import os
import shutil
import signal
import sys
import threading
import warnings

warnings.simplefilter('ignore')
import numpy as np  # noqa: E402

logging.basicConfig(level=logging.CRITICAL)
logging.disable(logging.CRITICAL)

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
WORK = os.environ['VP_WORK']
DATA = os.environ['VP_DATA']
OUT = os.environ['VP_OUT']


def rng(tag=0):
    return np.random.RandomState((SEED * 7919 + 104729 * (tag + 1)) % (2**31 - 1))


def n(quick, thorough):
    return thorough if THOROUGH else quick


def setup_cwd(maskgals=False):
    """The test data are addressed relative to the working directory."""
    if not os.path.exists('data_for_tests'):
        os.symlink(DATA, 'data_for_tests')
    if maskgals and not os.path.exists('data_for_tests/maskgals.fit'):
        from redmapper import Configuration
        from redmapper.mask import get_mask
        np.random.seed(12345)
        c = Configuration('data_for_tests/testconfig.yaml')
        get_mask(c, include_maskgals=False).gen_maskgals('data_for_tests/maskgals.fit')


def shards(fn, nproc=6):
    """Runs fn(i, nproc, out) in forked processes with working directories of their own and merges what they recorded, in order."""
    pids = []
    sys.stdout.flush()
    for i in range(nproc):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                d = 'shard%d' % i
                os.makedirs(d)
                os.chdir(d)
                setup_cwd()
                out = Out()
                try:
                    fn(i, nproc, out)
                except Enough:
                    pass
                out.write(OUT + '.%d' % i)
                rc = 0
            except BaseException:        # noqa: BLE001
                sys.excepthook(*sys.exc_info())
            finally:
                os._exit(rc)
        pids.append(pid)
    bad = sum(os.waitpid(p, 0)[1] != 0 for p in pids)
    if bad:
        sys.exit(3)
    out = Out()
    for i in range(nproc):
        with open(OUT + '.%d' % i) as f:
            d = json.load(f)
        out.traces += d['traces']
        for k, v in d['stats'].items():
            out.count(k, v)
        os.unlink(OUT + '.%d' % i)
    out.write()


class Out(object):
    def __init__(self):
        self.traces = []
        self.stats = {}
        self.extra = {}

    def add(self, tid, steps, **kw):
        self.traces.append(dict(id=str(tid), steps=steps, **kw))

    def count(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def write(self, path=OUT):
        with open(path, 'w') as f:
            json.dump(dict(traces=self.traces, stats=self.stats, extra=self.extra), f, default=conv)


def conv(o):
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError('%r' % (o,))


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = so


class Hang(BaseException):
    """The code under test did not return."""


class Enough(BaseException):
    """Several calls did not return: what was recorded so far decides."""

    def __str__(self):
        return 'calls of the code under test do not return'


@contextlib.contextmanager
def limit():
    """Interrupts a call that does not return. Calls take seconds; the limit is minutes, shorter once a call has hung."""
    if threading.current_thread() is not threading.main_thread() or signal.getitimer(signal.ITIMER_REAL)[0]:
        yield
        return
    if guard.hung >= 3:
        raise Enough()

    def stop(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 30. if guard.hung else 300., 10.)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def guard(fn, *a, **kw):
    """Calls the code under test: ('ok', value), ('ExceptionName', None) or ('Hang', None)."""
    try:
        with quiet(), limit():
            return 'ok', fn(*a, **kw)
    except Hang as e:
        guard.last = e
        guard.hung += 1
        return 'Hang', None
    except Exception as e:           # noqa: BLE001 - whatever it raises is an observation
        guard.last = e
        if os.environ.get('VP_DEBUG'):
            import traceback
            traceback.print_exc()
        return type(e).__name__, None


guard.hung = 0


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def scaled(x, s):
    """Scaled integer of a float; non-finite values become a marker."""
    x = float(x)
    if not np.isfinite(x):
        return -2000000001
    return int(np.clip(np.rint(x * s), -2e9, 2e9))


def _hook(tp, e, tb):
    """An exception that the code under test raises where none is expected is an observation, not a machinery failure."""
    import traceback
    frames = traceback.extract_tb(tb)
    tree = os.environ.get('VP_TREE', '/nowhere')
    text = ''.join(traceback.format_exception(tp, e, tb))
    sys.stderr.write(text)
    ours = os.path.dirname(os.path.abspath(__file__))
    own = [f.filename.startswith(tree) for f in frames if f.filename.startswith((tree, ours))]
    if tp is Enough or own and own[-1] and not issubclass(tp, (AttributeError, TypeError, ImportError)):
        with open(OUT, 'w') as f:
            json.dump(dict(traces=[], crash=text[-3000:]), f)


sys.excepthook = _hook
