"""C08, C09, C10: percolation and catalogue measurement over generated candidate lists.

The real RunPercolation / RunCatalog run over generated galaxies and candidates. Only the numerical kernels are replaced:
Cluster.calc_richness takes each galaxy's probability from a table (multiples of 1/64, so that all sums are exact) and
Zlambda.calc_zlambda takes the redshift from a table. Everything that decides who is processed, in which order, what is available to
whom, who is rejected and what is recorded is the code under test."""
import os
import sys
import tempfile
import fitsio
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403

from redmapper import Configuration, Cluster, Zlambda, RunPercolation, RunCatalog, Background, RedSequenceColorPar
from redmapper.background import ZredBackground
from redmapper.mask import get_mask
from redmapper.depthmap import DepthMap
import redmapper.cluster_runner as cluster_runner
import redmapper.centering as centering

JUDGE = sys.argv[1] if len(sys.argv) > 1 else 'C08'
KEEP = {}


def preload():
    """Reads the (large) static inputs once; the runners get the same objects again."""
    setup_cwd(maskgals=True)
    c = Configuration('data_for_tests/testconfig.yaml')
    KEEP.update(bkg=Background(c.bkgfile), zbkg=ZredBackground(c.bkgfile), rs=RedSequenceColorPar(c.parfile, fine=True), mask=get_mask(c), depth=DepthMap(c))
    for name, val in (('Background', 'bkg'), ('ZredBackground', 'zbkg'), ('RedSequenceColorPar', 'rs'), ('get_mask', 'mask'), ('DepthMap', 'depth')):
        if hasattr(cluster_runner, name):
            setattr(cluster_runner, name, lambda *a, _v=val, **kw: KEEP[_v])


class Script(object):
    cur = None


REAL = dict(find=Cluster.find_neighbors)


def tag_of(cl):
    return int(round(float(cl.z_spec_init))) if 'z_spec_init' in cl.dtype.names else 0


def calc_richness(self, mask, calc_err=True, index=None):
    s = Script.cur
    nb = self.neighbors
    idx = np.arange(nb.size) if index is None else np.asarray(index)
    key = int(nb.id[np.argmin(nb.r)])
    row = s.prob[s.at[key]]
    g = np.array([s.at[int(x)] for x in nb.id[idx]], dtype=int)
    p = row[g]
    theta_r = (nb.r[idx] < 1.0).astype('f8')
    pmem = p * nb.pfree[idx] * theta_r
    for f in (nb.theta_i, nb.theta_r, nb.p, nb.pcol, nb.pmem):
        f[:] = 0.0
    total = float(pmem.sum())
    if total > 0.0:
        nb.theta_i[idx] = 0.75
        nb.theta_r[idx] = theta_r
        nb.p[idx] = p
        nb.pcol[idx] = p / 2
        nb.pmem[idx] = pmem
        self.scaleval = s.scale[s.at[key]]
        self.Lambda = total * self.scaleval
        self.r_lambda = self.r0 * (self.Lambda / 100.)**self.beta
        self.Lambda_e = 1.0 if calc_err else 0.0
    else:
        self.scaleval = -1.0
        self.Lambda = -1.0
        self.r_lambda = self.r0 * 0.01**self.beta
        self.Lambda_e = -1.0 if calc_err else 0.0
    t = tag_of(self)
    if t > 0:
        s.calls.append(dict(tag=t, id=int(self.mem_match_id), total=total, lam=float(self.Lambda), rlam=float(self.r_lambda), key=key, few=index is not None,
                            gid=[int(x) for x in nb.id], pfree=np.array(nb.pfree), p=np.array(nb.p), pcol=np.array(nb.pcol), theta_i=np.array(nb.theta_i), theta_r=np.array(nb.theta_r), pmem=np.array(nb.pmem), r=np.array(nb.r)))
    return self.Lambda


def calc_zlambda(self, zin, mask, *a, **kw):
    s = Script.cur
    cl = self.cluster
    key = int(cl.neighbors.id[np.argmin(cl.neighbors.r)])
    dz = s.dz[s.at[key]]
    n = cl.config.npzbins
    self.niter = 1
    z = -1.0 if dz < -0.5 else float(zin) + float(dz)
    self.pzbins = np.linspace(max(z, 0.1) - 0.05, max(z, 0.1) + 0.05, n)
    self.pz = np.ones(n) / n
    if s.starts:
        s.zs.append((s.starts[-1][0], z))
    return z, 0.01


def find_neighbors(self, *a, **kw):
    t = tag_of(self)
    if t > 0:
        Script.cur.starts.append((t, int(self.mem_match_id)))
    return REAL['find'](self, *a, **kw)


def spy_center(cls):
    real = cls.find_center

    def find_center(self):
        ok = real(self)
        s = Script.cur
        t = tag_of(self.cluster)
        nb = self.cluster.neighbors
        if t > 0:
            s.cents[t] = dict(ok=bool(ok), ngood=int(self.ngood), maxid=int(nb.id[self.maxind]) if self.maxind >= 0 else -1,
                              cands=[int(nb.id[i]) for i in np.asarray(self.index)[:self.ngood] if i >= 0])
        return ok
    cls.find_center = find_center


def install():
    Cluster.calc_richness = calc_richness
    Cluster.find_neighbors = find_neighbors
    Zlambda.calc_zlambda = calc_zlambda
    for n in ('CenteringBCG', 'CenteringWcenZred', 'CenteringRandom', 'CenteringRandomSatellite'):
        spy_center(getattr(centering, n))


def sep(ra1, dec1, ra2, dec2):
    """Great-circle distance in degrees."""
    a1, d1, a2, d2 = [np.radians(np.asarray(x, dtype='f8')) for x in (ra1, dec1, ra2, dec2)]
    h = np.sin((d2 - d1) / 2)**2 + np.cos(d1) * np.cos(d2) * np.sin((a2 - a1) / 2)**2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(h, 0, 1))))


def near(a, b, tol=2e-4):
    return abs(a - b) <= tol * max(abs(b), 1.0)


class World(object):
    pass


def generate(r, conf, cosmo):
    """Galaxies, candidates and the scripted kernels of one scenario."""
    w = World()
    rs = KEEP['rs']
    z0 = r.uniform(0.15, 0.35)
    scale = np.radians(1.) * cosmo.Da(0, z0)    # Mpc per degree
    ncore = int(r.choice([1, 1, 2, 3]))
    cra = 140.3 + r.uniform(-0.25, 0.25, size=ncore)
    cdec = 65.0 + r.uniform(-0.1, 0.1, size=ncore)
    ng = int(r.choice([6, 15, 25, 35, 45]))
    w.ng = ng
    core = r.randint(ncore, size=ng)
    rad = 1.7 * r.uniform(size=ng)**0.8 / scale
    phi = r.uniform(0, 2 * np.pi, size=ng)
    w.ra = cra[core] + rad * np.cos(phi) / np.cos(np.radians(65.0))
    w.dec = cdec[core] + rad * np.sin(phi)
    far = r.uniform(size=ng) < 0.05
    w.ra[far] = 10.0 + r.uniform(0, 0.1, size=far.sum())     # outside the footprint
    w.dec[far] = 20.0 + r.uniform(0, 0.05, size=far.sum())
    mstar = float(rs.mstar(z0))
    w.refmag = np.clip(mstar + r.uniform(-2.2, 2.8, size=ng), 15.05, 20.5).astype('f4')
    w.id = r.choice(10**6, size=ng, replace=False) + 10
    w.mag = (w.refmag[:, None] + r.uniform(-1, 1, size=(ng, 5))).astype('f4')
    w.zred = (z0 + r.normal(scale=0.02, size=ng)).astype('f4')
    w.zred_e = r.uniform(0.005, 0.03, size=ng).astype('f4')
    w.chisq = r.uniform(0, 25, size=ng).astype('f4')
    w.ebv = r.uniform(0, 0.1, size=ng).astype('f4')
    r2 = np.random.RandomState(int(w.id[0]))
    w.mag_err = r2.uniform(0.01, 0.1, size=(ng, 5)).astype('f4')
    w.refmag_err = r2.uniform(0.01, 0.1, size=ng).astype('f4')
    u = r.uniform(size=(ng, ng))
    w.prob = r.randint(1, 64, size=(ng, ng)) / 64.
    w.prob[u < 0.15] = 0.0
    w.prob[u > 0.75] = 1.0
    if r.randint(3) == 0:
        w.prob[r.uniform(size=(ng, ng)) < 0.5] = 1.0
    w.prob[np.arange(ng), np.arange(ng)] = r.choice([1.0, 1.0, 0.5, 0.25, 0.75], size=ng)
    w.scale = r.choice([1.0, 1.0, 1.5, 2.0], size=ng)
    w.dz = r.choice([0.0, 0.003, -0.004, 0.01], size=ng)
    w.dz[r.uniform(size=ng) < 0.04] = -1.0
    # candidates
    nc = int(r.choice([1, 2, 3, 5, 8, 12, 16]))
    cand = []
    zlo, zhi = conf['zrange']
    if conf['keepz'] and not conf['cat']:
        zlo, zhi = max(0.05, zlo - conf['cushion']), zhi + conf['cushion']
    for i in range(nc):
        c = World()
        c.tag = i + 1
        gi = int(r.randint(ng))
        if cand and r.randint(4) == 0:
            gi = cand[r.randint(len(cand))].gal
        c.gal = gi
        c.ra, c.dec = w.ra[gi], w.dec[gi]
        if r.randint(6) == 0:
            c.ra += r.uniform(-0.05, 0.05)
            c.dec += r.uniform(-0.02, 0.02)
        c.z = np.float32(z0 + r.choice([0.0, 0.01, -0.01, 0.02]))
        k = r.randint(12)
        if k == 0:
            c.z = np.float32(zlo - r.choice([0.003, 0.02]))
        elif k == 1:
            c.z = np.float32(zhi + r.choice([0.003, 0.02]))
        elif k == 2 and zlo > 0.06:
            c.z = np.float32(zlo + 0.003)
        elif k == 3:
            c.z = np.float32(zhi - 0.003)
        c.z = np.float32(max(c.z, 0.03))
        c.lnlike = float(r.choice([-30, -20, -10, -5, 0, 5, 10])) if r.randint(3) == 0 else float(np.float32(r.uniform(-100, 100)))
        if r.randint(10) == 0 and not conf['cat']:
            c.lnlike = [np.nan, np.inf, -np.inf][r.randint(3)]
        c.lam = float(r.choice([conf['minlam'] + 0.25, 10.0, 20.0, 40.0]))
        if r.randint(8) == 0:
            c.lam = float(r.choice([conf['minlam'] - 0.25, -1.0]))
        c.refmag = w.refmag[gi]
        if k == 0 and gi % 2:
            c.refmag = np.float32(float(rs.mstar(float(c.z))) + 0.5)     # bright enough at its own redshift
        if r.randint(8) == 0:
            c.refmag = np.float32(float(rs.mstar(float(c.z))) + r.choice([2.4, 2.6, 3.0]))
        cand.append(c)
    w.cand = cand
    # ids
    kind = r.randint(5)
    if kind == 0:
        ids = np.zeros(nc, dtype=int) + int(r.choice([0, 0, 7, -1]))
    elif kind == 1 and nc > 2:
        ids = r.choice(1000, size=nc, replace=False) + 1
        ids[r.randint(nc)] = ids[r.randint(nc)]
    else:
        ids = r.choice(1000, size=nc, replace=False) + 1
    for c, i in zip(cand, ids):
        c.id = int(i)
    w.idkind = kind
    return w


def mdtype(nmag=5):
    return [('ID', 'i8'), ('RA', 'f8'), ('DEC', 'f8'), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('MAG', 'f4', nmag), ('MAG_ERR', 'f4', nmag), ('EBV', 'f4')]


def write_inputs(w, zreds):
    g = np.zeros(w.ng, dtype=mdtype())
    g['ID'], g['RA'], g['DEC'], g['REFMAG'], g['MAG'], g['EBV'] = w.id, w.ra, w.dec, w.refmag, w.mag, w.ebv
    g['REFMAG_ERR'] = w.refmag_err
    g['MAG_ERR'] = w.mag_err
    fitsio.write('g.fit', g, clobber=True)
    z = np.zeros(w.ng, dtype=[('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED2', 'f4'), ('ZRED2_E', 'f4'), ('ZRED_UNCORR', 'f4'), ('ZRED_UNCORR_E', 'f4'), ('LKHD', 'f4'), ('CHISQ', 'f4')])
    z['ZRED'], z['ZRED_E'], z['CHISQ'] = w.zred, w.zred_e, w.chisq
    fitsio.write('z.fit', z, clobber=True)
    c = np.zeros(len(w.cand), dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('LAMBDA', 'f4'), ('LNLIKE', 'f4'), ('REFMAG', 'f4'), ('Z_SPEC_INIT', 'f4')])
    for i, x in enumerate(w.cand):
        c[i] = (x.id, x.ra, x.dec, x.z, x.lam, x.lnlike, x.refmag, x.tag)
    if w.noid:
        c = c[[n for n in c.dtype.names if n != 'MEM_MATCH_ID']]
        c = np.array(c.tolist(), dtype=[(n, c.dtype[n]) for n in c.dtype.names])
    fitsio.write('c.fit', c, clobber=True)


BIG = 10**6


def scenario(k, out):
    r = rng(8000 + k)
    cat = bool(r.randint(4) == 0)
    conf = dict(cat=cat, keepz=bool(r.randint(4) == 0), keepid=bool(r.randint(3) == 0), clean=bool(r.randint(5) == 0), masking=bool(not cat or r.randint(2)),
                cut=float(r.choice([0.0, 0.25, 0.5, 0.5, 0.75, 1.0])), minlam=float(r.choice([1.0, 2.0, 3.0, 2.5])),
                rmask0=float(r.choice([0.5, 1.0, 1.5])), rmaskbeta=float(r.choice([0.0, 0.2])), rmaskgamma=float(r.choice([0.0, 0.0, 1.0, -2.0])), zpivot=float(r.choice([0.1, 0.3])),
                lmask=float(r.choice([-1.0, 0.1, 0.2, 0.5])), r0=float(r.choice([1.0, 0.8])), beta=float(r.choice([0.0, 0.2])), niter=int(r.choice([1, 2, 2, 3])), maxcen=int(r.choice([2, 3, 5])),
                memradius=float(r.choice([0.0, 0.0, 1.5])), cent=['CenteringBCG', 'CenteringBCG', 'CenteringWcenZred', 'CenteringRandomSatellite', 'CenteringRandom'][r.randint(5)] if JUDGE != 'C09' or r.randint(4) else 'CenteringRandom',
                zrange=[[0.05, 0.6], [0.2, 0.4], [0.12, 0.3], [0.06, 0.35]][r.randint(4)], cushion=float(r.choice([0.05, 0.02])))
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(zredfile='z.fit', catfile='c.fit', outbase='t', outpath=os.getcwd(), zrange=conf['zrange'], calib_zrange_cushion=conf['cushion'],
             percolation_pbcg_cut=conf['cut'], percolation_minlambda=conf['minlam'], percolation_rmask_0=conf['rmask0'], percolation_rmask_beta=conf['rmaskbeta'],
             percolation_rmask_gamma=conf['rmaskgamma'], percolation_rmask_zpivot=conf['zpivot'], percolation_lmask=conf['lmask'], percolation_r0=conf['r0'], percolation_beta=conf['beta'],
             percolation_niter=conf['niter'], percolation_maxcen=conf['maxcen'], percolation_memradius=conf['memradius'], percolation_memlum=0.0, centerclass=conf['cent'],
             wcen_zred_chisq_max=100.0, zlambdafile=None, wcen_uselum=bool(r.randint(2)))
    with open('conf.yml', 'w') as f:
        yaml.safe_dump(y, f)
    config = Configuration('conf.yml')
    config.galfile = 'g.fit'
    w = generate(r, conf, config.cosmo)
    w.noid = bool(r.randint(10) == 0 and not conf['keepid'])
    if w.noid:
        for c in w.cand:
            c.id = 0
    write_inputs(w, True)
    s = Script()
    s.at = {int(g): i for i, g in enumerate(w.id)}
    s.prob, s.scale, s.dz = w.prob, w.scale, w.dz
    s.calls, s.zs, s.starts, s.cents = [], [], [], {}
    Script.cur = s
    np.random.seed(int(r.randint(2**31 - 1)))
    if conf['keepz'] and not cat and k % 2:
        # an earlier stage of the same pixel, with the same configuration object
        guard(RunPercolation(config).run, keepz=True, keepid=conf['keepid'], cleaninput=conf['clean'])
        s.calls, s.zs, s.starts, s.cents = [], [], [], {}
        config.catfile = 'c.fit'
    if cat:
        runner = RunCatalog(config)
        res, _ = guard(runner.run, do_percolation_masking=conf['masking'])
    else:
        runner = RunPercolation(config)
        res, _ = guard(runner.run, keepz=conf['keepz'], keepid=conf['keepid'], cleaninput=conf['clean'])
    judge_run(k, out, w, s, conf, config, res, runner)


def files_agree(res, runner):
    """The files that the run writes hold its catalogue and its members."""
    if res != 'ok' or runner.cat is None:
        return True
    with tempfile.TemporaryDirectory() as d:
        runner.config.outpath = d
        ok, _ = guard(runner.output, savemembers=True, withversion=False, clobber=True)
        fs = sorted(os.listdir(d))
        c = [f for f in fs if f.endswith('.fit') and not f.endswith('_members.fit')]
        m = [f for f in fs if f.endswith('_members.fit')]
        if ok != 'ok' or len(c) != 1 or len(m) != (runner.members is not None):
            return False
        same = same_rows(os.path.join(d, c[0]), runner.cat._ndarray)
        return bool(same and (not m or same_rows(os.path.join(d, m[0]), runner.members._ndarray)))


def same_rows(f, a):
    b = fitsio.read(f, ext=1, lower=True) if fitsio.read_header(f, ext=1)['NAXIS2'] else a[:0]
    return len(a) == len(b) and all(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == 'f') for n in ('mem_match_id', 'ra', 'dec', 'id', 'lambda', 'p', 'z') if n in a.dtype.names and n in b.dtype.names) and len(a.dtype.names) == len(b.dtype.names)


def judge_run(k, out, w, s, conf, config, res, runner):
    rs = KEEP['rs']
    cosmo = config.cosmo
    cat = conf['cat']
    lval = 0.2
    limlum = max(lval - 0.1, 0.01)
    if conf['lmask'] > 0.0:
        limlum = min(limlum, conf['lmask'])
    zlo, zhi = conf['zrange']
    if conf['keepz'] and not cat:
        zlo, zhi = max(0.05, zlo - conf['cushion']), zhi + conf['cushion']
    cands = []
    skip = False
    maxrad = max(conf['r0'] * (1.2 if conf['beta'] == 0 else 3.0**conf['beta']), conf['rmask0'] * (1.2 if conf['beta'] == 0 else 3.0**conf['rmaskbeta']))
    for c in w.cand:
        lim = float(rs.mstar(float(c.z))) - 2.5 * np.log10(0.1)
        if abs(float(c.refmag) - lim) < 1e-3:
            skip = True
        maxmag = float(rs.mstar(float(c.z))) - 2.5 * np.log10(limlum)
        mpc = np.radians(1.) * cosmo.Da(0, float(c.z))
        d = sep(c.ra, c.dec, w.ra, w.dec)
        okm = w.refmag <= maxmag
        if np.any(np.abs(w.refmag - maxmag) < 1e-4) or np.any(np.abs(d * mpc - maxrad) < 1e-4):
            skip = True
        nbr = np.where(okm & (d * mpc < maxrad))[0]
        order = nbr[np.argsort(d[nbr])]
        if len(order) > 1 and (d[order[1]] - d[order[0]]) * mpc < 1e-5:
            skip = True
        frac = float(KEEP['mask'].sparse_fracgood.get_values_pos(c.ra, c.dec, lonlat=True))
        if conf['clean'] and 0.0 < frac < 1.0:
            skip = True       # in or out at random
        infoot = frac > 0.0
        cands.append(dict(tag=c.tag, id=c.id, z=bool(zlo < float(c.z) < zhi), fin=bool(np.isfinite(c.lnlike)), ln=scaled(c.lnlike, 1e6) if np.isfinite(c.lnlike) else 0,
                          rich=bool(c.lam > conf['minlam']), bright=bool(float(c.refmag) < lim), foot=infoot,
                          near=int(w.id[order[0]]) if len(order) else 0,
                          nbr=sorted(int(x) for x in w.id[nbr]),
                          inner=int(np.sum(d[nbr] * mpc < 2.05 * conf['r0'] * (max(c.lam, 0.0) / 100.)**conf['beta']))))
        if np.any(np.abs(d * mpc - 2.05 * conf['r0'] * (max(c.lam, 1e-9) / 100.)**conf['beta']) < 1e-4):
            skip = True
    if skip:
        out.count('skipped')
        return
    steps = [dict(op='setup', judge=JUDGE, cat=cat, masking=conf['masking'], keepid=conf['keepid'], clean=conf['clean'], cut=int(conf['cut'] * 64), minlam=int(conf['minlam'] * 4096) if not cat else 3 * 4096,
                  noid=w.noid, gals=[int(x) for x in w.id], cands=cands)]
    byid = {int(g): i for i, g in enumerate(w.id)}
    rows = []
    mems = []
    if res == 'ok' and runner.cat is not None:
        for i in range(runner.cat.size):
            rows.append(runner.cat._ndarray[i])
        if runner.members is not None:
            mems = [runner.members._ndarray[i] for i in range(runner.members.size)]
    rowof = {}
    radii = {}
    zfin = {}
    for x in rows:
        rowof.setdefault(int(round(float(x['z_spec_init']))), x)
    for pos, (t, cid) in enumerate(s.starts):
        c = w.cand[t - 1]
        nxt = s.starts[pos + 1:]
        calls = [x for x in s.calls if x['tag'] == t]
        row = rowof.get(t)
        acc = row is not None and float(row['lambda']) > 0.0
        st = dict(op='cluster', tag=t, id=cid, accepted=bool(acc), called=bool(calls), first=[], same=True, totals=[int(round((x['lam'] if cat else x['total']) * 4096)) for x in calls],
                  zbad=any(tt == t and z < 0 for tt, z in s.zs), zout=bool(not acc or row['z_lambda'] > 0), cent=s.cents.get(t, {}).get('ok', True) and s.cents.get(t, {}).get('ngood', 1) > 0,
                  final=s.cents.get(t, {}).get('maxid', -1), few=False, alone=False, take=[], fuzzy=[], rmask=True, expect=[], maybe=[], cands=[])
        if calls:
            f = calls[0]
            st['first'] = [[g, int(round(v * 64))] for g, v in zip(f['gid'], f['pfree'])]
            st['exact'] = bool(np.all(np.abs(np.concatenate([x['pfree'] for x in calls]) * 64 % 1) == 0))
            m0 = dict(zip(f['gid'], f['pfree']))
            st['same'] = all(m0.get(g) == v for x in calls for g, v in zip(x['gid'], x['pfree']))
            rmin = np.min(f['r'])
            st['few'] = bool(np.sum((f['pmem'] > 0) & (f['r'] > rmin)) < 3)
            last = calls[-1]
            st['alone'] = bool(np.sum((last['r'] > np.min(last['r'])) & (last['r'] < 0.95 * last['rlam']) & (last['p'] > 0)) == 0)
        else:
            st['exact'] = True
        if acc and calls:
            last = calls[-1]
            zf = float(np.float32(row['z_lambda'])) if not (conf['keepz'] or cat) else float(c.z)
            zfin[t] = zf
            mpc = np.radians(1.) * cosmo.Da(0, zf)
            gi = np.array([byid[g] for g in last['gid']])
            rr = sep(row['ra'], row['dec'], w.ra[gi], w.dec[gi]) * mpc
            radii[t] = dict(zip(last['gid'], rr))
            lam = float(row['lambda'])
            st['lam'] = bool(near(lam, last['lam'], 1e-5))
            rm = conf['rmask0'] * (lam / 100.)**conf['rmaskbeta'] * ((1 + zf) / (1 + conf['zpivot']))**conf['rmaskgamma']
            rm = max(rm, float(row['r_lambda']))
            if conf['masking']:
                st['rmask'] = bool(near(float(row['r_mask']), rm, 1e-3))
            lim = float(rs.mstar(zf)) - 2.5 * np.log10(conf['lmask'] if conf['lmask'] >= 0 else lval)
            cent = s.cents.get(t)
            st['cands'] = cent['cands'] if cent else []
            for j, g in enumerate(last['gid']):
                i = byid[g]
                p = last['p'][j]
                fz = abs(float(w.refmag[i]) - lim) < 2e-3 or abs(rr[j] - rm) < 3e-3 * rm
                if p > 0:
                    if fz:
                        st['fuzzy'].append(g)
                    elif float(w.refmag[i]) < lim and rr[j] < rm:
                        st['take'].append([g, int(round(p * 64))])
                pf = last['pfree'][j]
                if conf['memradius'] > 1.0 and not cat:
                    edge = conf['memradius'] * float(row['r_lambda'])
                    if abs(rr[j] - edge) < 3e-3 * edge:
                        st['maybe'].append(g)
                    elif p > 0.01 and rr[j] < edge and pf > 0.01:
                        st['expect'].append(g)
                elif last['pmem'][j] > 0.01 and pf > 0.01:
                    st['expect'].append(g)
        else:
            st['lam'] = True
        steps.append(st)
        out.count('accepted' if acc else 'rejected')
    seen = {}
    orow = []
    for x in rows:
        t = int(round(float(x['z_spec_init'])))
        c = w.cand[t - 1] if 1 <= t <= len(w.cand) else None
        cent = s.cents.get(t)
        good = float(x['lambda']) > 0
        n = int(x['ncent_good'])
        pos = True
        if good and cat:
            pos = near(x['ra'], c.ra, 1e-9) and near(x['dec'], c.dec, 1e-9)
        elif good and cent and cent['maxid'] >= 0:
            i = byid[cent['maxid']]
            pos = near(x['ra'], w.ra[i], 1e-9) and near(x['dec'], w.dec[i], 1e-9) and float(x['refmag']) == float(w.refmag[i]) and bool(np.all(x['mag'] == w.mag[i])) and \
                float(x['refmag_err']) == float(w.refmag_err[i]) and bool(np.all(x['mag_err'] == w.mag_err[i])) and float(x['zred']) == float(w.zred[i]) and float(x['zred_e']) == float(w.zred_e[i])
        beyond = True
        if good and not cat:
            beyond = not any(int(g) in byid for g in x['id_cent'][n:]) and not np.any(np.isin(x['ra_cent'][n:], w.ra)) and not np.any(x['p_cen'][n:])
            if cent and cent['cands']:
                m = len(cent['cands'])
                gi = [byid[g] for g in cent['cands']]
                beyond = beyond and [int(g) for g in x['id_cent'][:m]] == cent['cands'] and bool(np.allclose(x['ra_cent'][:m], w.ra[gi], atol=1e-9, rtol=0)) and bool(np.allclose(x['dec_cent'][:m], w.dec[gi], atol=1e-9, rtol=0))
        orow.append(dict(tag=t, id=int(x['mem_match_id']), good=good, pos=bool(pos), orig=bool(cat or (c is not None and near(x['ra_orig'], c.ra, 1e-9) and near(x['dec_orig'], c.dec, 1e-9))),
                         beyond=bool(beyond)))
    om = []
    tagof = {o['id']: o['tag'] for o in orow}
    for m in mems:
        g = int(m['id'])
        i = byid.get(g)
        cid = int(m['mem_match_id'])
        t = tagof.get(cid)
        same = i is not None and m['ra'] == w.ra[i] and m['dec'] == w.dec[i] and m['refmag'] == w.refmag[i] and bool(np.all(m['mag'] == w.mag[i])) and bool(np.all(m['mag_err'] == w.mag_err[i])) and m['ebv'] == w.ebv[i] and \
            m['refmag_err'] == w.refmag_err[i] and (cat or (m['zred'] == w.zred[i] and m['zred_e'] == w.zred_e[i]))
        val = True
        calls = [x for x in s.calls if x['tag'] == t]
        if t is not None and calls and i is not None and g in calls[-1]['gid']:
            j = calls[-1]['gid'].index(g)
            val = float(m['p']) == calls[-1]['p'][j] and (t not in radii or near(float(m['r']), radii[t][g], 1e-4)) and float(m['pfree']) in (calls[-1]['pfree'][j], 0.0)
            val = val and float(m['pcol']) == calls[-1]['pcol'][j] and float(m['theta_i']) == calls[-1]['theta_i'][j] and float(m['theta_r']) == calls[-1]['theta_r'][j]
            val = val and (t not in zfin or near(float(m['z']), zfin[t], 1e-5))
            if calls[-1]['pmem'][j] > 0.01:
                val = val and float(m['pfree']) == calls[-1]['pfree'][j]
        om.append(dict(id=cid, gal=g, same=bool(same), val=bool(val)))
    steps.append(dict(op='output', files=files_agree(res, runner), res=res, none=bool(res == 'ok' and runner.cat is None), rows=orow, members=om))
    out.count('runs')
    out.count('rows', len(orow))
    out.count('members', len(om))
    out.add('p%d' % k, steps)


def main(i, nproc, out):
    install()
    for k in range(i, n(400, 5000), nproc):
        scenario(k, out)


if __name__ == '__main__':
    preload()
    shards(main, 8)
