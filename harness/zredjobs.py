"""C07: redshift jobs of a survey as real processes, under chosen schedules, crashes and reruns."""
import os
import fitsio
import hpgeom as hpg
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403
from harness.sched import Sched, pct_policy, random_policy
from redmapper import GalaxyCatalogMaker
import redmapper.zred_runner as ZR
from redmapper.pipeline import zredtask as ZT
from redmapper.galaxy import zred_extra_dtype

CUR = [None]
INFO = dict(LIM_REF=21.0, REF_IND=3, AREA=100.0, NMAG=5, MODE='SDSS', ZP=22.5, U_IND=0, G_IND=1, R_IND=2, I_IND=3, Z_IND=4)


class FakePars(object):
    def __init__(self, *a, **k):
        pass


class FakeColor(object):
    """Stands in for the redshift computation: marks every row with its galaxy."""

    def __init__(self, *a, **k):
        pass

    def compute_zreds(self, g):
        if CUR[0]:
            CUR[0].gate('compute', '')
            CUR[0].ev('compute', gid=int(g.ebv[0]) if g.size else 0)
        g.zred[:] = g.ebv + 0.25
        g.chisq[:] = g.ebv
        g.lkhd[:] = -g.ebv

    compute_zred = compute_zreds


def scenario(r, k, y0, two=None):
    root = os.path.abspath(fresh('c07'))
    nt, nrun = [(4, 1), (4, 2), (8, 2), (2, 1), (2, 2)][r.randint(5)]
    # table pixels spread over two to four run pixels
    jobs = r.choice(12 * nrun * nrun, size=int(r.choice([2, 2, 3, 4])) if two is None else 2, replace=False)
    f = (nt // nrun)**2
    pool = []
    for j in jobs:
        nn = hpg.ring_to_nest(nrun, int(j)) * f
        for s in r.choice(f, size=min(f, int(r.choice([1, 1, 2, 3])) if two is None else 1), replace=False):
            pool.append(int(hpg.nest_to_ring(nt, int(nn + s))))
    m = len(pool) + int(r.choice([0, 3, 8])) if two is None else 2
    directed = two is None and r.randint(6) == 0      # a torn file of one job is met by another one
    if directed:
        m = 2 * len(pool)
    g = np.zeros(m, dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
    g['id'] = g['ebv'] = np.arange(m) + 1
    g['refmag'] = r.uniform(15, 21, size=m)
    g['mag'] = r.uniform(15, 21, size=(m, 5))
    g['mag_err'] = g['refmag_err'][:, None] = 0.1
    for i in range(m):
        g['ra'][i], g['dec'][i] = hpg.pixel_to_angle(nt, pool[i % len(pool)], nest=False)
    mk = GalaxyCatalogMaker(os.path.join(root, 'gal', 'gals'), INFO, nside=nt)
    mk.append_galaxies(g)
    mk.finalize_catalog()
    gt = os.path.join(root, 'gal', 'gals_master_table.fit')
    t = fitsio.read(gt, ext=1, lower=True)
    hp = [int(x) for x in np.atleast_1d(t['hpix'][0])]
    if len(hp) < 2:
        return None
    ng = [int(x) for x in np.atleast_1d(t['ngals'][0])]
    truth = {p: [int(x) for x in np.atleast_1d(fitsio.read(os.path.join(root, 'gal', 'gals_%07d.fit' % p), ext=1, lower=True))['ebv']] for p in hp}
    at = {x: i + 1 for i, p in enumerate(hp) for x in truth[p]}
    ra, dec = hpg.pixel_to_angle(nt, hp, nest=False)
    big = [int(x) for x in hpg.angle_to_pixel(nrun, ra, dec, nest=False)]
    jobs = sorted(set(big))
    own = [[i + 1 for i in range(len(hp)) if big[i] == j] for j in jobs]
    zdir = os.path.join(root, 'z')
    ztab = os.path.join(zdir, 'gals_zreds_master_table.fit')
    nsamp = int(r.choice([1, 4]))
    y = dict(y0, outpath=root, calib_nproc=2, zred_nsamp=nsamp, zredfile=ztab, galfile=gt)
    y.pop('hpix', None)
    y.pop('nside', None)
    cf = os.path.join(root, 'c.yml')
    with open(cf, 'w') as fh:
        yaml.safe_dump(y, fh)

    def zf(i):
        return os.path.join(zdir, 'gals_zreds_%07d.fit' % hp[i - 1])

    def state(i):
        """none, torn or full"""
        if not os.path.isfile(zf(i)):
            return 'none'
        try:
            a = np.atleast_1d(fitsio.read(zf(i), ext=1, lower=True))
            ok = [int(x) for x in a['chisq']] == truth[hp[i - 1]] and np.all(a['zred'] == a['chisq'] + 0.25)
        except Exception:             # noqa: BLE001
            ok = False
        return 'full' if ok else 'torn'

    def table():
        if not os.path.isfile(ztab):
            return dict(present=False, ok=False)
        try:
            a = fitsio.read(ztab, ext=1, lower=True)
            nm = [x.decode() if isinstance(x, bytes) else str(x) for x in np.atleast_1d(a['filenames'][0])]
            ok = [int(x) for x in np.atleast_1d(a['hpix'][0])] == hp and [x.strip() for x in nm] == [os.path.basename(zf(i + 1)) for i in range(len(hp))] \
                and [int(x) for x in np.atleast_1d(a['ngals'][0])] == ng
        except Exception:             # noqa: BLE001
            ok = False
        return dict(present=True, ok=bool(ok))

    def locks():
        o = []
        for i, j in enumerate(jobs):
            if os.path.exists(os.path.join(zdir, 'gals_zreds_%07d.lock' % j)):
                o.append(i + 1)
        return o

    def sig(p):
        try:
            s = os.stat(p)
            return (s.st_mtime_ns, s.st_size, s.st_ino)
        except OSError:
            return None
    steps = [dict(op='open', pix=len(hp), own=own)]
    todo = list(range(1, len(jobs) + 1))
    inst = [0]
    nphase = (1 if two is not None else 3 if directed else int(r.choice([1, 2, 3, 4, 5])))
    ncrash = 0
    tsig = [None]
    fsig = {}
    for ph in range(nphase):
        last = ph == nphase - 1
        dup = bool(not last and r.randint(4) == 0)
        rerun = bool(not last and r.randint(4) == 0)
        run = list(todo)
        if not run and not rerun:
            break
        if rerun:
            run = sorted(set(run) | {int(r.randint(1, len(jobs) + 1))})
        if not last and len(run) > 1 and r.randint(3) == 0:
            run = sorted(int(x) for x in r.choice(run, size=len(run) - 1, replace=False))
        whole = [j for j in range(1, len(jobs) + 1) if all(state(i) != 'torn' for i in own[j - 1])]
        if not last and 0 < len(whole) < len(jobs) and r.randint(2):
            run = [int(r.choice(whole))]       # the torn file is still there while another job is repeated
        if directed and not last:
            dup, run = False, (todo if ph == 0 else [int(r.choice(whole))] if 0 < len(whole) < len(jobs) else run)
        runs = list(run) + ([int(r.choice(run))] if dup else [])
        st0 = {i + 1: state(i + 1) for i in range(len(hp))}
        again = any(all(st0[i] == 'full' for i in own[j - 1]) for j in runs)
        s = Sched(root)
        names = {}
        order = [int(x) for x in r.permutation(len(runs))]
        steps.append(dict(op='phase', again=bool(again), dup=bool(dup), torn=bool(any(v == 'torn' for v in st0.values())), last=last))
        for o in order:
            inst[0] += 1
            nm = 'w%d' % inst[0]
            names[nm] = runs[o]

            def fn(c, j=runs[o]):
                CUR[0] = c
                ZT.RunZredPixelTask(cf, jobs[j - 1], nrun).run()
            s.spawn(nm, fn)
        steps.append(dict(op='jobs', jobs=[dict(w=int(x[1:]), job=names[x]) for x in names]))
        crash = dict(left=0 if last else int(r.choice([0, 1, 1, 2])), p=float(r.choice([0.02, 0.05, 0.1, 0.2])))
        pol = random_policy(r, crash, stick=float(r.choice([0.2, 0.5, 0.8, 0.95])))
        if r.randint(2):
            pol = pct_policy(r, crash, depth=int(r.choice([1, 2, 3])), length=22 * len(runs))
        seq = bool(r.randint(8) == 0)
        cur = [None]

        atwrite = bool(crash['left'] and r.randint(2))
        if atwrite:
            crash['p'] = 0

        def choose(act, kk):
            if seq:
                act = act[:1] if act[0].at[0] != 'sleep' else act
            w, cr = pol(act, kk)
            cur[0] = w
            if atwrite and crash['left'] and w.at[0] == 'write' and w.at[1].startswith('z/') and r.randint(2):
                crash['left'] -= 1
                cr = True
            return w, cr
        victim = None
        if directed:
            crash['left'] = 0
            if ph == 0:
                victim = 'w%d' % (inst[0] - int(r.randint(len(runs))))
        used = [0, 0]

        def directed_choose(act, kk):
            oth = [w for w in act if w.name != victim]
            w = oth[0] if oth and r.randint(4) else act[int(r.randint(len(act)))]
            cur[0] = w
            return w, bool(w.name == victim and w.at[0] == 'write' and w.at[1].startswith('z/'))

        def two_choose(act, kk):
            # first worker for two[0] steps, second for two[1], then the first to its end
            act = sorted(act, key=lambda w: w.name)
            ok = [w for w in act if w.at[0] != 'sleep'] or act
            if kk < two[0] and act[0].name == 'w1' and act[0].at[0] != 'sleep':
                w = act[0]
            elif used[1] < two[1] and act[-1].name == 'w2' and act[-1].at[0] != 'sleep':
                w = act[-1]
                used[1] += 1
            else:
                w = ok[0]
            cur[0] = w
            return w, False
        if two is not None:
            choose = two_choose
        elif directed:
            choose = directed_choose
        pos = [0]
        doneset = set()

        def watch(sch):
            for e in sch.events[pos[0]:]:
                if e['op'] == 'compute':
                    steps.append(dict(op='compute', w=int(e['w'][1:]), pix=at.get(e['gid'], 0)))
                elif e['op'] == 'crash':
                    # a crash in the middle of writing a redshift file can leave part of it
                    if e['at'] == 'write' and (directed or r.randint(4)) and e['path'].startswith('z/'):
                        p = os.path.join(root, e['path'])
                        full = os.path.basename(p)
                        tgt = [i + 1 for i in range(len(hp)) if os.path.basename(zf(i + 1)) == full]
                        if tgt:
                            if os.path.exists(p):
                                os.unlink(p)
                            if ng[tgt[0] - 1] < 2 or r.randint(3) == 0:
                                open(p, 'wb').close()
                            else:
                                fitsio.write(p, np.zeros(ng[tgt[0] - 1] - 1, dtype=zred_extra_dtype(nsamp)))
                    steps.append(dict(op='crash', w=int(e['w'][1:])))
                    doneset.add(e['w'])
            pos[0] = len(sch.events)
            for i in range(1, len(hp) + 1):
                g_ = sig(zf(i))
                if fsig.get(i) != g_:
                    fsig[i] = g_
                    steps.append(dict(op='file', w=int(cur[0].name[1:]), pix=i, st=state(i)))
            x = sig(ztab)
            if x != tsig[0]:
                tsig[0] = x
                steps.append(dict(op='publish', tab=table(), locks=locks(), files=[state(i + 1) for i in range(len(hp))]))
            for w in sch.workers:
                if w.state == 'done' and w.name not in doneset:
                    doneset.add(w.name)
                    steps.append(dict(op='done', w=int(w.name[1:]), res=w.res))
        fin = s.run(choose, watch, maxsteps=6000)
        ncrash += sum(w.state == 'crashed' for w in s.workers)
        okj = set(names[w.name] for w in s.workers if w.res == 'ok')
        todo = sorted((set(todo) - okj) | set(names[w.name] for w in s.workers if w.state == 'crashed' or w.res != 'ok'))
        left = [x for x in os.listdir(zdir)] if os.path.isdir(zdir) else []
        steps.append(dict(op='over', finished=bool(fin), hung=sum(w.res == 'hang' for w in s.workers), lockfiles=sum('.lock' in x for x in left), todo=len(todo),
                          tab=table(), files=[state(i + 1) for i in range(len(hp))], last=last))
        # the operator clears the locks that dead jobs left
        for x in left:
            if '.lock' in x:
                os.unlink(os.path.join(zdir, x))
    return steps, ncrash


def count(out, steps, nc):
    out.count('schedules')
    out.count('crashes', nc)
    strict = False
    for s in steps:
        if s['op'] == 'phase':
            strict = not (s['again'] or s['dup'] or s['torn'])
        out.count('published', int(s['op'] == 'publish'))
        out.count('strict_publications', int(s['op'] == 'publish' and strict))
        out.count('torn_phases', int(s['op'] == 'phase' and s['torn']))
        out.count('refused', int(s['op'] == 'done' and s['res'] == 'OSError'))
        out.count('publish_failures', int(s['op'] == 'done' and s['res'] == 'ValueError'))


def shard(i, nproc, out):
    y0 = yaml.safe_load(open('data_for_tests/testconfig.yaml'))
    for k in range(n(120, 1500)):
        if k % nproc == i:
            x = scenario(rng(7000 + k), k, y0)
            if x is not None:
                out.add('zj%04d' % k, x[0])
                count(out, *x)
    # two jobs of one pixel: every schedule with at most two preemptions
    length = n(26, 30)
    for a in range(length):
        for b in range(n(26, 30)):
            if (a * 31 + b) % nproc == i:
                x = scenario(rng(70), 0, y0, two=(a, b))
                if x is None:
                    continue
                out.add('two%02d-%02d' % (a, b), x[0])
                count(out, *x)


def main():
    setup_cwd()
    for nm, v in (('RedSequenceColorPar', FakePars), ('ZredColor', FakeColor)):
        for mod in (ZR, ZT):
            if hasattr(mod, nm):
                setattr(mod, nm, v)
    shards(shard, 7)


if __name__ == '__main__':
    main()
