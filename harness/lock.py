"""C06: contenders for a lock file under all or many interleavings."""
import os
from harness.common import *   # noqa: F401,F403
from harness.sched import Sched, DFS, random_policy
from redmapper.utilities import make_lockfile


def scenario(d, cons, choose, relative, pre=False, slow=False):
    """cons: list of (block, maxtry, times); pre: the lock of somebody else is there; slow: locks are held for long"""
    root = fresh(d)
    lockfile = os.path.join(root, 'a.lock')
    others = ['b.fit', 'a.lock.bak', 'aa.lock', 'a.loc', 'old.lock']
    for x in others + (['a.lock'] if pre else []):
        with open(os.path.join(root, x), 'w') as f:
            f.write('x')
        os.utime(os.path.join(root, x), (1.0e9, 1.0e9))
    s = Sched(root)
    lockabs = os.path.abspath(lockfile)
    lf = lockfile if relative else lockabs

    def make(i, block, maxtry, times):
        def fn(c):
            for _ in range(times):
                c.ev('req', path='', ok=True, block=block, maxtry=maxtry)
                got = make_lockfile(lf, block=block, maxtry=maxtry, waittime=2)
                c.ev('ret', path='', ok=bool(got), truth=got is True or got is False)
                if got:
                    c.gate('hold')
                    os.unlink(lf)
                    c.ev('rel', path='', ok=True)
        return fn
    for i, (b, m, tm) in enumerate(cons):
        s.spawn('w%d' % (i + 1), make(i, b, m, tm))
    names = [w.name for w in s.workers]
    seen = [0]
    steps = [dict(op='open', n=len(cons), pre=pre)]

    def emit(sch):
        ex = os.path.lexists(lockabs)
        for e in sch.events[seen[0]:]:
            w = names.index(e['w']) + 1
            if e['op'] == 'req':
                steps.append(dict(op='req', w=w, block=e['block'], maxtry=e['maxtry'], ex=ex))
            elif e['op'] == 'ret':
                steps.append(dict(op='ret', w=w, ok=e['ok'], ex=ex))
            elif e['op'] == 'sleep':
                steps.append(dict(op='nap', w=w, ex=ex))
            elif e['op'] == 'link' and e['path'] == 'a.lock' and not e['ok']:
                steps.append(dict(op='try', w=w, ex=ex))
            elif e['op'] == 'rel':
                steps.append(dict(op='rel', w=w, ex=ex))
            elif e['op'] == 'crash':
                steps.append(dict(op='crash', w=w, ex=ex))
        # several events of one step share one observation of the disk: only the last is exact
        seen[0] = len(sch.events)
        if slow and ex:
            os.utime(lockabs, (1.0e9, 1.0e9))
        steps.append(dict(op='disk', ex=ex))
    fin = s.run(choose, emit, maxsteps=4000)
    left = [x for x in os.listdir(root) if x not in ['a.lock'] + others]

    def same(x):
        f = os.path.join(root, x)
        return os.path.isfile(f) and open(f).read() == 'x' and os.stat(f).st_mtime == 1.0e9
    bad = [w.res for w in s.workers if w.state != 'crashed' and w.res != 'ok']
    steps.append(dict(op='end', finished=bool(fin and not bad), temps=len(left), other=all(same(x) for x in others + (['a.lock'] if pre else []))))
    return steps


def main():
    out = Out()
    r = rng(6)
    k = 0
    # exhaustive for two contenders, then three with a limit
    configs = [[(False, 1, 1), (False, 1, 1)], [(False, 1, 1), (True, 2, 1)], [(True, 2, 1), (True, 2, 1)],
               [(False, 1, 2), (False, 1, 1)]]
    for ci, cons in enumerate(configs):
        dfs = DFS()
        lim = n(250, 6000)
        while not dfs.done and lim > 0:
            lim -= 1
            st = scenario('c06', cons, dfs.policy(), relative=False)
            dfs.advance()
            out.add('dfs%d-%d' % (ci, k), st)
            k += 1
            out.count('schedules')
        out.extra['dfs%d' % ci] = dfs.done
        out.count('exhaustive_configs' if dfs.done else 'truncated_configs')
    for q in range(n(160, 1500)):
        m = int(r.choice([2, 3, 3, 4]))
        cons = [(bool(r.randint(2)), int(r.choice([1, 2, 3, 5, 8])), int(r.choice([1, 1, 2]))) for _ in range(m)]
        crash = dict(left=int(r.choice([0, 0, 1, 2])), p=0.15)
        st = scenario('c06', cons, random_policy(r, crash, stick=float(r.choice([0.2, 0.6, 0.9]))), relative=bool(r.randint(2)),
                      pre=bool(r.randint(4) == 0), slow=bool(r.randint(2)))
        out.add('rnd%d' % q, st)
        out.count('schedules')
    out.write()


if __name__ == "__main__":
    main()
