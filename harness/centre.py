"""C24: the centring classes on generated neighbours, whose attributes are small integers the specification can judge exactly."""
import numpy as np
from harness.common import *   # noqa: F401,F403

from redmapper import Cluster, Configuration, GalaxyCatalog, RedSequenceColorPar, Background, ZredBackground, ZlambdaCorrectionPar
from redmapper import CenteringWcenZred, CenteringBCG, CenteringRandom, CenteringRandomSatellite

CLS = dict(bcg=CenteringBCG, wcen=CenteringWcenZred, random=CenteringRandom, sat=CenteringRandomSatellite)
KEEP = {}


def preload():
    setup_cwd()
    KEEP.update(rs=RedSequenceColorPar('data_for_tests/test_dr8_pars.fit', fine=True, zrange=[0.1, 0.5]), bkg=Background('data_for_tests/test_bkg.fit'),
                zbkg=ZredBackground('data_for_tests/test_bkg.fit'), corr=ZlambdaCorrectionPar('data_for_tests/test_dr8_zlambdacorr.fit', zlambda_pivot=30.0))


def neighbours(g, order, zspec):
    dt = [('ID', 'i8'), ('RA', 'f8'), ('DEC', 'f8'), ('DIST', 'f4'), ('R', 'f4'), ('P', 'f4'), ('PFREE', 'f4'), ('PMEM', 'f4'), ('MAG', 'f4', 5), ('MAG_ERR', 'f4', 5), ('REFMAG', 'f4'),
          ('REFMAG_ERR', 'f4'), ('CHISQ', 'f4'), ('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED_CHISQ', 'f4')]
    if zspec:
        dt += [('ZSPEC', 'f4'), ('ZSPEC_ERR', 'f4')]
    a = np.zeros(len(order), dtype=dt)
    for k, i in enumerate(order):
        x = g[i]
        a['ID'][k] = x['id']
        a['RA'][k], a['DEC'][k] = x['at']
        a['R'][k] = x['r'] / 1000.
        a['P'][k] = x['p'] / 100.
        a['PMEM'][k] = x['pmem'] / 100.
        a['PFREE'][k] = x['pfree'] / 100.
        a['REFMAG'][k] = x['mag'] / 1000.
        a['REFMAG_ERR'][k] = 0.02
        a['ZRED'][k] = x['z'] / 1e4
        a['ZRED_E'][k] = x['ze'] / 1e4
        a['ZRED_CHISQ'][k] = x['chi']
        a['CHISQ'][k] = x['chi']
        if zspec:
            a['ZSPEC'][k] = x['zs'] / 1e4
            a['ZSPEC_ERR'][k] = x['zse'] / 1e4
    return GalaxyCatalog(a)


def cluster(s, order):
    c = Cluster()
    c.config = s['config']
    c.set_neighbors(neighbours(s['g'], order, s['zspec']))
    c.zredstr, c.bkg, c.zredbkg = KEEP['rs'], KEEP['bkg'], KEEP['zbkg']
    c.redshift = s['z'] / 1e4
    c.ra, c.dec = s['at']
    c.r_lambda = s['rl'] / 1000. + 0.0005
    c.Lambda = s['lam']
    c.scaleval = 1.1
    return c


def call(s, method, order, corr):
    """One call of find_center on a fresh cluster: everything observable, galaxies by their ids."""
    c = cluster(s, order)
    before = c.neighbors._ndarray.copy()
    cent = CLS[method](c, zlambda_corr=KEEP['corr'] if corr else None)
    np.random.seed(s['seed'])
    res, found = guard(cent.find_center)
    d = dict(op='centre', method=method, res=res, found=bool(found) if res == 'ok' else False, same=bool((c.neighbors._ndarray == before).all()))
    ids = [int(v) for v in c.neighbors.id]
    ng = int(cent.ngood)
    mc = s['config'].percolation_maxcen
    idx = [int(v) for v in cent.index]
    ra, dec = np.atleast_1d(cent.ra), np.atleast_1d(cent.dec)

    def gid(i):
        return ids[i] if 0 <= i < len(ids) else -1
    arr = {f: np.atleast_1d(getattr(cent, f)) for f in ('p_cen', 'q_cen', 'p_fg', 'p_sat', 'p_c')}
    if res == 'ok' and method == 'bcg' and ng == 1:
        ra, dec = np.append(ra, [-400.] * (mc - ra.size)), np.append(dec, [-400.] * (mc - dec.size))
    d.update(ngood=ng, maxcen=mc, maxind=gid(int(cent.maxind)), index=[gid(i) for i in idx[:ng]],
             unused=bool(all(i == -1 for i in idx[ng:]) and all((v[ng:] == 0).all() for v in arr.values()) and (ra[ng:] == -400).all() and (dec[ng:] == -400).all()),
             finite=bool(all(np.isfinite(v).all() for v in arr.values()) and np.isfinite(ra).all() and np.isfinite(dec).all()),
             lens=bool(all(v.size == mc for v in arr.values()) and len(idx) == mc), qmiss=scaled(cent.q_miss, 1e3),
             **{f: [scaled(x, 1e3) for x in v[:ng]] for f, v in arr.items()}, sumcen=scaled(float(np.sum(arr['p_cen'])), 1e4), sumq=scaled(float(np.sum(arr['q_cen'])), 1e4))
    at = True
    for k in range(ng):
        if 0 <= idx[k] < len(ids):
            at &= abs(float(ra[k]) - float(c.neighbors.ra[idx[k]])) < 1e-9 and abs(float(dec[k]) - float(c.neighbors.dec[idx[k]])) < 1e-9
    d['at'] = bool(at)
    dist = 0.0
    if ng > 0:
        dra = ((float(ra[0]) - s['at'][0] + 180.) % 360. - 180.) * np.cos(np.radians(s['at'][1]))
        dist = float(np.hypot(dra, float(dec[0]) - s['at'][1])) * c.mpc_scale
    d['dist'] = scaled(dist, 1e3)
    return d


def scenario(k, out):
    r = rng(24000 + k)
    kind = k % 6
    conf = Configuration('data_for_tests/testconfig.yaml')
    conf.percolation_maxcen = int(r.choice([2, 3, 5, 8]))
    conf.percolation_pbcg_cut = 0.5
    conf.wcen_uselum = bool(r.randint(2))
    zspec = bool(r.randint(3) == 0)
    conf.centering_use_zspec = zspec
    chimax = int(r.choice([10, 30, 100]))
    conf.wcen_zred_chisq_max = chimax + 0.5
    z = int(r.randint(180, 420)) * 10 + 5
    rl = int(r.randint(500, 1300))
    at = (float(r.choice([0.05, 150.0, 359.96])), float(r.choice([-40.0, 0.0, 20.0, 60.0])))
    s = dict(config=conf, z=z, rl=rl, at=at, lam=float(r.uniform(5, 150)), seed=int(r.randint(10**6)), zspec=zspec)
    c0 = Cluster()
    c0.config = conf
    c0.zredstr = KEEP['rs']
    c0.redshift = z / 1e4
    scale, mstar = float(c0.mpc_scale), float(c0.mstar)
    ng = int(r.choice([1, 2, 3, 6, 12, 30]))
    g = []
    for i in range(ng):
        rad = int(rl * 1.3 * np.sqrt(r.uniform()))
        if kind == 4 and k % 12 == 4:
            rad = int(rl * r.uniform(1.05, 1.5))
        if kind == 5:
            rad = int(rl * 0.95 * np.sqrt(r.uniform()))
        phi = r.uniform(0, 2 * np.pi)
        deg = rad / 1000. / scale
        pos = ((at[0] + deg * np.cos(phi) / np.cos(np.radians(at[1]))) % 360., at[1] + deg * np.sin(phi))
        typ = r.randint(4)          # 0 nothing special, 1 good central, 2 faint satellite, 3 unrelated
        mag = int(1000 * (mstar + (r.uniform(-2.5, 1.0) if typ == 0 else r.uniform(-2, -0.8) if typ == 1 else r.uniform(0, 1.5) if typ == 2 else r.uniform(-1, 2))))
        ze = int(r.randint(5, 40)) * 10
        dz = int(r.randint(-30, 31) if typ in (1, 2) else r.randint(-600, 601) if typ == 0 else r.randint(-3000, 3001))
        dz += 1 if dz % 10 == 0 else 0
        zz = max(z + dz, 105)
        if (zz - z) % 10 == 0:
            zz += 1
        pmem = int(r.randint(0, 101)) if typ < 3 else 0
        if pmem == 80:
            pmem = 81
        p = int(max(pmem, r.randint(0, 101))) if typ < 3 else int(r.choice([0, 0, 5]))
        zs = 0
        if zspec and r.randint(2):
            zs = max(z + int(r.randint(-60, 61)), 105)
            zs += 1 if (zs - z) % 10 == 0 else 0
        g.append(dict(id=1000 + i, at=pos, r=rad, p=p, pmem=pmem, pfree=int(r.choice([100, 100, 75, 50, 49, 25, 0])), mag=mag, z=zz, ze=ze, chi=int(r.choice([0, 3, 9, 11, 29, 31, 99, 101, 500])) if typ else 3,
                      zs=zs, zse=int(r.randint(1, 5)) * 10))
    if kind == 4:      # nothing eligible
        for x in g:
            x.update(pfree=0)
    if kind == 5:      # everybody eligible, many good
        for x in g:
            x.update(pfree=100, chi=1)
    if not any(x['pmem'] > 0 for x in g):
        g[0]['pmem'] = g[0]['p'] = 60
    s['g'] = g
    # (the cluster computes the distances from the positions)
    for x, rad in zip(g, cluster(s, list(range(ng))).neighbors.r):
        x['r'] = int(round(float(rad) * 1000))
    steps = [dict(op='setup', z=z, rl=rl, maxcen=conf.percolation_maxcen, chimax=chimax, usezspec=zspec,
                  gals=[{f: x[f] for f in ('id', 'r', 'p', 'pmem', 'pfree', 'mag', 'z', 'ze', 'chi', 'zs', 'zse')} for x in g])]
    order = list(range(ng))
    corr = bool(r.randint(2))
    for method in ('bcg', 'wcen', 'random', 'sat'):
        d = call(s, method, order, corr)
        steps.append(d)
        out.count(method)
        if d['found'] and d['ngood']:
            out.count(method + ' centred')
            out.count('%s candidates' % method, d['ngood'])
        if method in ('bcg', 'wcen'):
            other = [int(x) for x in r.permutation(ng)]
            d = call(s, method, other, corr)
            d['op'] = 'again'
            steps.append(d)
        if method == 'wcen' and d['found'] and 0 < d['ngood'] < d['maxcen']:
            # a candidate's availability, colour or membership changed, to values on either side of eligibility
            for _ in range(3):
                x = g[int(r.choice([i for i in range(ng) if g[i]['id'] in d['index']]))]
                f, v = [('pfree', 50), ('pfree', 49), ('pfree', 62), ('chi', chimax), ('chi', chimax + 1), ('pmem', 0), ('pmem', 1)][int(r.randint(7))]
                keep = x[f]
                x[f] = v
                e = call(s, method, order, corr)
                pc = [dict(zip(q['index'], q['p_c'])).get(x['id'], -1) for q in (d, e)]
                e.update(pc=pc, pf=[keep, v] if f == 'pfree' else [1, 1], op='vary', id=x['id'], now={q: x[q] for q in ('id', 'r', 'p', 'pmem', 'pfree', 'mag', 'z', 'ze', 'chi', 'zs', 'zse')}, was=sorted(d['index']), index=sorted(e['index']))
                x[f] = keep
                steps.append(e)
                out.count('vary ' + f)
    out.add('centre%d' % k, steps)


def main(i, nproc, out):
    for k in range(i, n(360, 3000), nproc):
        scenario(k, out)


if __name__ == '__main__':
    preload()
    shards(main, 8)
