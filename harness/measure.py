"""C25: measuring an input catalogue (RunCatalog) and scanning redshift (RunZScan), real kernels on the test survey, lists of clusters against each cluster alone."""
import os
import pickle
import sys
import fitsio
import hpgeom as hpg
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403

from redmapper import Configuration, RunCatalog, RunZScan, Background, RedSequenceColorPar, GalaxyCatalog
from redmapper.background import ZredBackground
import redmapper.cluster_runner as cluster_runner

KEEP = {}
STRAY = [0]
ZRED = 'data_for_tests/zreds_test/dr8_test_zreds_master_table.fit'
FIELDS = ['lambda', 'lambda_e', 'z_lambda', 'z_lambda_e', 'r_lambda', 'scaleval', 'maskfrac', 'dlambda_dz', 'bkg_local', 'lim_limmag']


def fixed(name):
    """Random draws that depend only on the call's arguments: the Monte-Carlo noise is then the same whatever was measured before."""
    def draw(*args, **kw):
        return getattr(np.random.RandomState(55), name)(*args, **kw)
    return draw


def preload():
    setup_cwd(maskgals=True)
    for name in ('standard_normal', 'normal', 'random', 'random_sample', 'uniform', 'rand', 'randn', 'choice', 'randint'):
        setattr(np.random, name, fixed(name))
    c = Configuration('data_for_tests/testconfig.yaml')
    KEEP.update(bkg=Background(c.bkgfile), zbkg=ZredBackground(c.bkgfile), rs=RedSequenceColorPar(c.parfile, fine=True))
    for name, val in (('Background', 'bkg'), ('ZredBackground', 'zbkg'), ('RedSequenceColorPar', 'rs')):
        if hasattr(cluster_runner, name):
            setattr(cluster_runner, name, lambda *a, _v=val, **kw: KEEP[_v])
    g = GalaxyCatalog.from_galfile(c.galfile, zredfile=ZRED)
    KEEP['gals'] = g
    # positions: the test clusters, bright red galaxies, an empty place, a place outside the survey
    r = rng(2500)
    pos = [(float(x['RA']), float(x['DEC']), float(x['Z'])) for x in fitsio.read('data_for_tests/test_cluster_pos.fit', upper=True)]
    ok = np.where((g.zred > 0.15) & (g.zred < 0.45) & (g.refmag < 18.5) & (g.chisq < 10) & (g.ra > 138.6) & (g.ra < 142.2) & (g.dec > 64.2) & (g.dec < 65.8))[0]
    for i in r.choice(ok, size=n(11, 24), replace=False):
        pos.append((float(g.ra[i]), float(g.dec[i]), float(g.zred[i])))
    pos.append((140.0, 20.0, 0.3))
    pos.append((200.0, -40.0, 0.2))
    pos.append((140.21, 65.02, 0.25))
    KEEP['pos'] = pos


def run(cls, tags, ids, region=None, masking=False, again=False, converge=False):
    """One run over the listed clusters: (result, rows, members by id)."""
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.pop('maskfile', None)
    y.update(mask_mode=0, maskgal_nsamples=1, catfile='c.fit', outbase='t', outpath=os.getcwd(), zredfile=ZRED if cls is RunZScan else None, zscan_zstep=0.02, zscan_minlambda=3.0)
    if region:
        y.update(nside=region[0], hpix=[region[1]], border=region[2])
    else:
        y.update(nside=0, hpix=[], border=0.0)
    with open('conf.yml', 'w') as f:
        yaml.safe_dump(y, f)
    dt = [('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('Z_SPEC_INIT', 'f4')]
    if ids is not None:
        dt.append(('MEM_MATCH_ID', 'i4'))
    c = np.zeros(len(tags), dtype=dt)
    for k, t in enumerate(tags):
        c['RA'][k], c['DEC'][k], c['Z'][k] = KEEP['pos'][t - 1]
        c['Z_SPEC_INIT'][k] = t
        if ids is not None:
            c['MEM_MATCH_ID'][k] = ids[k]
    fitsio.write('c.fit', c, clobber=True)
    runner = cls(Configuration('conf.yml'))
    runner.config.bkg_local_compute = False
    kw = {} if cls is RunZScan else dict(do_percolation_masking=masking, converge_zlambda=converge)
    res, _ = guard(runner.run, **kw)
    if again and res == 'ok':
        res, _ = guard(runner.run, **kw)
    if res != 'ok' or runner.cat is None:
        return res, []
    rows = []
    mem = runner.members
    known = set(int(v) for v in runner.cat.mem_match_id)
    scan = cls is RunZScan
    gra = KEEP['gals'].ra
    for i in range(runner.cat.size):
        x = runner.cat._ndarray[i]
        t = int(round(float(x['z_spec_init'])))
        p = KEEP['pos'][t - 1] if 1 <= t <= len(KEEP['pos']) else (0, 0, 0)
        cid = int(x['mem_match_id'])
        good = bool(x['lambda'] > 0)
        w = mem.mem_match_id == cid if mem is not None else None
        row = dict(tag=t, id=cid, good=good, pos=bool(abs(x['ra'] - p[0]) < 1e-9 and abs(x['dec'] - p[1]) < 1e-9),
                   flagged=bool(good or (x['lambda'] == -1 and x['lambda_e'] == -1 and x['scaleval'] == -1 and x['z_lambda'] == -1 and x['z_lambda_e'] == -1)),
                   vec=[scaled(x[f], 1e4) for f in FIELDS] + [scaled(v, 1e3) for v in x['pz']] if good else [],
                   mem=sorted(int(v) for v in mem.id[w]) if mem is not None else [], cent=[], steps=True, unused=True, memz=True, pz=True)
        if good:
            row['pz'] = bool((x['pz'] >= 0).all() and (np.diff(x['pzbins']) > 0).all() and abs(np.trapz(x['pz'], x['pzbins']) - 1) < 0.05)
            if mem is not None:
                # (a converging or scanning run takes the redshift found for the members' redshift)
                row['memz'] = bool(np.all(np.unique(mem.z[w]).size <= 1) and (converge or scan or np.allclose(mem.z[w], p[2], atol=1e-5)))
        if good and scan:
            like, lam = x['likelihood_steps'], x['lambda_steps']
            m = int(x['max_ind'])
            row['steps'] = bool(0 <= m < like.size and abs(x['lmax'] - like.max()) < 1e-3 and like[m] == like.max() and abs(x['zmax'] - x['z_steps'][m]) < 1e-6
                                and lam[m] >= 3.0 and ((lam == -1) | (lam >= 3.0)).all() and ((lam != -1) | (like == -1)).all())
            ng = int(x['ncent_good'])
            row['cent'] = [int(v) for v in x['id_cent'][:ng]]
            row['unused'] = bool(not np.isin(x['id_cent'][ng:], KEEP['gals'].id).any() and not np.isin(x['ra_cent'][ng:], gra).any()
                                 and (x['p_cen'][ng:] <= 0).all())
            row['vec'] += [scaled(x[f], 1e4) for f in ('lmax', 'zmax', 'lambda_opt', 'lambda_opt_e', 'z_lambda_opt', 'z_lambda_opt_e', 'ra_opt', 'dec_opt')]
            row['vec'] += [scaled(v, 1e4) for v in list(x['p_cen'][:ng]) + list(x['lambda_steps']) + list(x['likelihood_steps'])]
        rows.append(row)
    STRAY[0] = 0 if mem is None else int((~np.isin(mem.mem_match_id, list(known))).sum())
    return res, rows


def solos():
    """Every cluster measured alone, in forked processes."""
    jobs = [(name, t) for name in ('cat', 'conv', 'scan') for t in range(1, len(KEEP['pos']) + 1)]
    nproc = 8
    pids = []
    for i in range(nproc):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                d = 'solo%d' % i
                os.makedirs(d)
                os.chdir(d)
                setup_cwd()
                got = {}
                for j in jobs[i::nproc]:
                    got[j] = run(RunZScan if j[0] == 'scan' else RunCatalog, [j[1]], [j[1] + 100], converge=j[0] == 'conv')
                with open('../solo%d.pkl' % i, 'wb') as f:
                    pickle.dump(got, f)
                rc = 0
            except BaseException:    # noqa: BLE001
                sys.excepthook(*sys.exc_info())
            finally:
                os._exit(rc)
        pids.append(pid)
    if sum(os.waitpid(p, 0)[1] != 0 for p in pids):
        sys.exit(3)
    KEEP['solo'] = {}
    for i in range(nproc):
        with open('solo%d.pkl' % i, 'rb') as f:
            KEEP['solo'].update(pickle.load(f))


def scenario(k, out):
    r = rng(25000 + k)
    kind = ['cat', 'cat', 'mask', 'region', 'conv', 'scan'][k % 6]
    cls = RunZScan if kind == 'scan' else RunCatalog
    ntag = len(KEEP['pos'])
    nc = int(r.choice([1, 2, 3, 4, 6]))
    tags = [int(x) for x in r.choice(ntag, size=nc, replace=False) + 1]
    region = None
    if kind == 'region':
        inside = [t for t in tags if 140 < KEEP['pos'][t - 1][0] < 143 and KEEP['pos'][t - 1][1] > 60]
        p = KEEP['pos'][inside[0] - 1] if inside else KEEP['pos'][0]
        nside = int(r.choice([64, 128]))
        region = [nside, int(hpg.angle_to_pixel(nside, p[0], p[1], nest=False)), 0.45]
        pix = hpg.angle_to_pixel(nside, [q[0] for q in KEEP['pos']], [q[1] for q in KEEP['pos']], nest=False)
    idk = r.randint(4)
    if idk == 0:
        ids = None
    elif idk == 1:
        ids = [0] * nc
    else:
        ids = [int(x) for x in r.choice(5000, size=nc, replace=False) + 1]
    masking = kind == 'mask'
    steps = [dict(op='setup', kind=kind, tags=tags, ids=ids or [0] * nc, keep=bool(ids is not None and idk > 1))]
    for t in tags:
        name = 'scan' if kind == 'scan' else 'conv' if kind == 'conv' else 'cat'
        res, rows = KEEP['solo'][(name, t)]
        steps.append(dict(op='solo', tag=t, res=res, rows=rows, judge=bool(region is None or pix[t - 1] == region[1])))
    if masking:
        # what comes later in the list does not matter to what comes before
        cutat = int(r.randint(1, nc + 1))
        res, rows = run(cls, tags[:cutat], ids[:cutat] if ids else None, masking=True)
        steps.append(dict(op='prefix', res=res, n=cutat, rows=rows))
    again = bool(r.randint(3) == 0)
    res, rows = run(cls, tags, ids, region=region, masking=masking, again=again, converge=kind == 'conv')
    steps.append(dict(op='run', res=res, rows=rows, stray=STRAY[0]))
    out.count('clusters', len(tags))
    out.count('measured', sum(x['good'] for x in rows))
    out.count(kind)
    out.add('%s%d' % (kind, k), steps)


def main(i, nproc, out):
    for k in range(i, n(48, 360), nproc):
        scenario(k, out)


if __name__ == '__main__':
    preload()
    solos()
    shards(main, 8)
