"""C15: production pixel jobs (cluster finder, catalogue measurement, redshift scan, random masks) with crashes and reruns.

The computations are stand-ins that record what they were asked to do and produce marked rows; each job runs in a process
of its own, which a crash ends abruptly between two file writes or inside a computation.
"""
import os
import sys
import fitsio
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403
from harness.consolidate_lib import CAT, MEM

import redmapper.pipeline as pipeline
from redmapper.catalog import Catalog
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_percolation import RunPercolation
from redmapper.run_randoms_zmask import RunRandomsZmask
from redmapper.run_zscan import RunZScan
from redmapper.runcat import RunCatalog

KINDS = dict(
    finder=dict(task='RunRedmapperPixelTask', stages=[(RunFirstPass, 'firstpass'), (RunLikelihoods, 'like'), (RunPercolation, 'final')], mem=True),
    runcat=dict(task='RuncatPixelTask', stages=[(RunCatalog, 'lambda_chisq')], mem=True),
    zmask=dict(task='RunZmaskPixelTask', stages=[(RunRandomsZmask, 'randoms_zmask')], mem=False),
    zscan=dict(task='RunZScanPixelTask', stages=[(RunZScan, 'zscan')], mem=True))

CTL = {}


def log(ev):
    fd = os.open(CTL['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(ev, default=conv) + '\n').encode())
    os.close(fd)


def die():
    log(dict(kind='crash'))
    os._exit(77)


def border(y):
    """Three times the largest expected masking radius at the lowest redshift (flat cosmology of the configuration)."""
    z = np.linspace(0, y['zrange'][0], 2001)
    om = 0.3
    e = 1. / np.sqrt(om * (1 + z)**3 + 1 - om)
    dc = 2997.92458 * np.sum((e[1:] + e[:-1]) / 2 * np.diff(z))    # Mpc/h
    da = dc / (1 + y['zrange'][0])
    rad = 1.05 * y['percolation_rmask_0'] * 3.0**y['percolation_rmask_beta']
    return 3.0 * np.rad2deg(rad / da)


def make(kind, s, cls):
    def run(self, *a, **kw):
        c = self.config
        log(dict(kind='stage', s=s, job=kind, pix=[int(x) for x in np.atleast_1d(c.d.hpix)], nside=int(c.d.nside), border=float(c.border),
                 catfile=str(c.catfile), randfile=str(c.randfile), kw={k: bool(v) for k, v in kw.items()}))
        if CTL['crash'] == ('run', s):
            die()
        if s > 1 and not os.path.isfile(c.catfile):
            raise OSError('no input catalogue')
        if CTL['empty'] == s:
            log(dict(kind='empty', s=s))
            self.cat = None
            self.members = None
            return
        p = int(np.atleast_1d(c.d.hpix)[0])
        cat = np.zeros(2, dtype=CAT)
        cat['mem_match_id'] = [1, 2]
        cat['gid'] = CTL['epoch']
        cat['ra'] = p
        cat['dec'] = int(c.d.nside)
        self.cat = Catalog(cat)
        mem = np.zeros(3, dtype=MEM)
        mem['mem_match_id'] = [1, 1, 2]
        mem['id'] = CTL['epoch']
        mem['ra'] = p
        mem['dec'] = int(c.d.nside)
        self.members = Catalog(mem)
    cls.run = run


def install(kind):
    for s, (cls, _) in enumerate(KINDS[kind]['stages'], 1):
        make(kind, s, cls)
    real = fitsio.write

    def write(fn, *a, **kw):
        b = os.path.basename(str(fn))
        if CTL['crash'] is not None and CTL['crash'][0] == 'before' and b.endswith(CTL['crash'][1]):
            die()
        v = real(fn, *a, **kw)
        if CTL['crash'] is not None and CTL['crash'][0] == 'after' and b.endswith(CTL['crash'][1]):
            die()
        return v
    fitsio.write = write


def read(fn):
    if not os.path.isfile(fn):
        return 0, True, None
    try:
        a = np.atleast_1d(fitsio.read(fn, ext=1, lower=True))
        with fitsio.FITS(fn) as f:
            nh = len(f)
    except Exception:
        return -1, False, None
    ep = a['gid'] if 'gid' in a.dtype.names else a['id']
    if a.size == 0 or nh != 2 or len(set(ep.tolist())) != 1:
        return -2, False, None
    return int(ep[0]), True, (int(a['ra'][0]), int(a['dec'][0]))


def scenario(k, out):
    r = rng(1500 + k)
    top = os.path.abspath(fresh('c15'))
    cfgdir = os.path.join(top, 'cfg')
    os.makedirs(cfgdir)
    name = ['cat', 'a_b', 'x.fit_y', 'r_2_00001'][r.randint(4)]
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    for key in ('galfile', 'zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'maskfile', 'depthfile', 'catfile', 'specfile', 'wcenfile'):
        if y.get(key) and not os.path.isabs(str(y[key])) and os.path.exists(y[key]):
            y[key] = os.path.abspath(y[key])
    y.update(outbase=name, outpath=os.path.join(top, 'confout'), printlogging=bool(r.randint(2)),
             catfile=os.path.join(top, 'input_cat.fit'), randfile=os.path.abspath('data_for_tests/testconfig.yaml'),
             runcat_percolation_masking=bool(r.randint(2)), zrange=[[0.05, 0.6], [0.1, 0.5], [0.2, 0.6]][r.randint(3)],
             percolation_rmask_0=float(r.choice([1.0, 1.5])), percolation_rmask_beta=float(r.choice([0.0, 0.2, 0.5])))
    y['zredfile'] = os.path.abspath('data_for_tests/zreds_test/dr8_test_zreds_master_table.fit')
    y['zlambdafile'] = os.path.abspath('data_for_tests/test_dr8_zlambdacorr.fit')
    cf = os.path.join(cfgdir, 'conf.yml')
    with open(cf, 'w') as f:
        yaml.safe_dump(y, f)
    where = ['abs', 'rel', 'dot', 'nested'][r.randint(4)]
    work = os.path.join(top, 'work')
    os.makedirs(work)
    path = dict(abs=os.path.join(top, 'outputs'), rel='out', dot='./', nested=os.path.join(top, 'a_1_00003_b', 'c'))[where]
    absp = os.path.abspath(os.path.join(work, path))
    nj = int(r.choice([1, 1, 2, 3]))
    jobs = []
    seen = set()
    while len(jobs) < nj:
        kind = ['finder', 'finder', 'runcat', 'zmask', 'zscan'][r.randint(5)]
        ns = int(r.choice([1, 2, 4, 8, 64]))
        p = int(r.choice([0, 1, 2, 3, 11] if ns == 1 else [0, 1, 3, 12, 45, 46, 47] + ([49151, 12345] if ns == 64 else [])))
        if (kind, ns, p) in seen:
            continue
        seen.add((kind, ns, p))
        jobs.append(dict(kind=kind, nside=ns, pix=p))
    for j in jobs:
        K = KINDS[j['kind']]
        pre = '%s_%d_%05d' % (name, j['nside'], j['pix'])
        j['names'] = [os.path.join(absp, '%s_%s_catalog.fit' % (pre, t)) for _, t in K['stages']]
        j['memname'] = os.path.join(absp, '%s_%s_catalog_members.fit' % (pre, K['stages'][-1][1])) if K['mem'] else None
        j['run'] = 0
        # outputs that exist beforehand
        exist = []
        have = r.randint(3) == 0
        os.makedirs(absp, exist_ok=True)
        for s, fn in enumerate(j['names']):
            e = bool(have and r.randint(2))
            exist.append(100 if e else 0)
            if e:
                a = np.zeros(2, dtype=CAT)
                a['gid'] = 100
                a['ra'] = j['pix']
                a['dec'] = j['nside']
                fitsio.write(fn, a, clobber=True)
        j['files'] = exist
        j['memfile'] = 100 if (K['mem'] and exist[-1]) else 0
        if j['memfile']:
            a = np.zeros(2, dtype=MEM)
            a['id'] = 100
            a['ra'] = j['pix']
            a['dec'] = j['nside']
            fitsio.write(j['memname'], a, clobber=True)
    steps = [dict(op='setup', jobs=[dict(kind=j['kind'], nside=j['nside'], pix=j['pix'], n=len(j['names']), mem=KINDS[j['kind']]['mem'], files=j['files'], memfile=j['memfile'])
                                    for j in jobs], where=where)]
    order = []
    for i in range(len(jobs)):
        order += [i] * int(r.choice([1, 2, 2, 3]))
    r.shuffle(order)
    left = {i: order.count(i) for i in range(len(jobs))}
    for i in order:
        j = jobs[i]
        K = KINDS[j['kind']]
        left[i] -= 1
        j['run'] += 1
        crash = None
        if left[i] > 0 or r.randint(5) == 0:
            w = r.randint(4)
            if w == 0:
                crash = ('run', int(r.randint(1, len(K['stages']) + 1)))
            else:
                cands = ['_%s_catalog.fit' % t for _, t in K['stages']] + ['_catalog_members.fit', '_catalog_members.fit']
                crash = (['before', 'after'][r.randint(2)], cands[r.randint(len(cands))])
        empty = 0
        if r.randint(4) == 0:
            empty = int(r.randint(1, len(K['stages']) + 1))
        CTL.update(empty=empty, log=os.path.join(top, 'log'), crash=crash, epoch=j['run'])
        steps.append(dict(op='start', job=i + 1))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(work)
                install(j['kind'])
                res, _ = guard(lambda: getattr(pipeline, K['task'])(cf, j['pix'], j['nside'], path=path).run())
                log(dict(kind='end', res=res))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        evs = []
        if os.path.exists(CTL['log']):
            with open(CTL['log']) as f:
                evs = [json.loads(x) for x in f]
            os.unlink(CTL['log'])
        crashed = any(e['kind'] == 'crash' for e in evs)
        res = ([e['res'] for e in evs if e['kind'] == 'end'] or ['died'])[0]
        for e in evs:
            if e['kind'] == 'empty':
                steps.append(dict(op='empty', job=i + 1, s=e['s']))
                out.count('empty')
            if e['kind'] != 'stage':
                continue
            want = y['catfile'] if e['s'] == 1 else j['names'][e['s'] - 2]
            got = e['catfile'] if os.path.isabs(e['catfile']) else os.path.join(work, e['catfile'])
            inp = os.path.realpath(got) == os.path.realpath(want)
            if j['kind'] == 'zmask':
                inp = e['randfile'] == y['randfile']
            opts = True
            if j['kind'] == 'runcat':
                opts = e['kw'].get('do_percolation_masking') == y['runcat_percolation_masking']
            if j['kind'] == 'finder':
                opts = not any(e['kw'].values())
            b = border(y)
            steps.append(dict(op='stage', job=i + 1, s=e['s'], inp=bool(inp), opts=bool(opts),
                              place=bool(e['pix'] == [j['pix']] and e['nside'] == j['nside'] and abs(e['border'] / b - 1) < 0.02)))
            out.count('stages')
        disk = []
        expected = set()
        for q in jobs:
            own = True
            fl = []
            for fn in q['names']:
                e, ok, who = read(fn)
                expected.add(fn)
                fl.append(e)
                own &= ok and (who is None or who == (q['pix'], q['nside']))
            me = 0
            if q['memname']:
                me, ok, who = read(q['memname'])
                expected.add(q['memname'])
                own &= ok and (who is None or who == (q['pix'], q['nside']))
            disk.append(dict(files=fl, mem=me, own=bool(own)))
        stray = []
        for dp, _, fns in os.walk(top):
            for fn in fns:
                full = os.path.join(dp, fn)
                if full.endswith(('.fit', '.fits')) and full not in expected:
                    stray.append(os.path.relpath(full, top))
        steps.append(dict(op='end', job=i + 1, res=res, crashed=crashed, disk=disk, stray=' '.join(sorted(stray))))
        out.count('job_runs')
        out.count('crashes', int(crashed))
        out.count('kind_' + j['kind'])
    out.add('job%04d' % k, steps)
    shutil.rmtree(top)


def main():
    def work(i, np_, out):
        for k in range(i, n(90, 900), np_):
            scenario(k, out)
    shards(work)


if __name__ == '__main__':
    main()
