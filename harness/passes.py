"""C27: the first pass, the likelihood pass and the pass over randoms on generated galaxies, seeds, candidates and randoms.

Only the numerical kernels are replaced: Cluster.calc_richness and Zlambda.calc_zlambda take richness, scale, members and redshift of every
iteration from a table. Who is considered, what the iterations start from, who is rejected and what is recorded is the code under test."""
import math
import os
import fitsio
import hpgeom as hpg
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403
from harness.perc import preload, KEEP, sep, World, mdtype

from redmapper import Configuration, Cluster, Zlambda
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_randoms_zmask import RunRandomsZmask

LVAL = 0.2
Q = np.array([0.0, 0.25, 0.5, 0.75])


class Script(object):
    cur = None


def key(cl):
    return Script.cur.at.get((round(float(cl.ra), 9), round(float(cl.dec), 9)), -1)


def calc_richness(self, mask, calc_err=True, index=None):
    s = Script.cur
    k = key(self)
    nb = self.neighbors
    it = min(len(s.calls[k]), len(s.lam[k]) - 1)
    s.last = k
    s.calls[k].append(dict(zr=float(self.redshift), zin=-1.0))
    order = np.argsort(nb.r, kind='stable')
    for f in (nb.theta_i, nb.theta_r, nb.p, nb.pcol, nb.pmem):
        f[:] = 0.0
    nb.pmem[:] = Q[[s.q[k][int(g)] for g in nb.id]]
    nb.p[:] = nb.pmem
    nb.chisq[:] = [s.chi[int(g)] for g in nb.id]
    s.nb[k] = [(int(nb.id[j]), float(nb.r[j])) for j in order]
    self.scaleval = s.sc[k] / 2.
    self.Lambda = s.lam[k][it] / 8.
    self.r_lambda = self.r0 * (max(self.Lambda, 0.1) / 100.)**self.beta
    self.Lambda_e = 1.0
    return self.Lambda


def calc_zlambda(self, zin, mask, *a, **kw):
    s = Script.cur
    k = s.last       # (a copy of a cluster has no position)
    s.calls[k][-1]['zin'] = float(zin)
    it = min(len(s.calls[k]), len(s.zl[k])) - 1
    self.niter = 1
    return s.zl[k][it] / 10000., 0.01


def install():
    Cluster.calc_richness = calc_richness
    Zlambda.calc_zlambda = calc_zlambda


def galaxies(r):
    w = World()
    rs = KEEP['rs']
    bins = KEEP['bkg'].refmagbins
    w.lo, w.hi = float(bins[0]), float(bins[-1] + (bins[1] - bins[0]))
    z0 = r.uniform(0.15, 0.4)
    ng = w.ng = int(r.choice([1, 3, 10, 25, 40]))
    w.ra = 140.3 + r.uniform(-0.3, 0.3, size=ng)
    w.dec = 65.0 + r.uniform(-0.12, 0.12, size=ng)
    far = r.uniform(size=ng) < 0.1
    w.ra[far], w.dec[far] = 10.0 + r.uniform(0, 0.1, size=far.sum()), 20.0 + r.uniform(0, 0.05, size=far.sum())
    w.far = far
    w.id = r.choice(10**6, size=ng, replace=False) + 10
    w.zred = np.round(z0 + r.normal(scale=0.02, size=ng), 4)
    odd = r.uniform(size=ng) < 0.3
    w.zred[odd] = np.round(r.uniform(0.06, 0.58, size=odd.sum()), 4)
    w.zred = w.zred.astype('f4')
    ms = rs.mstar(w.zred.astype('f8'))
    w.refmag = (ms + r.choice([-2.5, -1.0, 0.0, 1.0, 1.6, 1.7, 1.8, 1.9, 2.3, 2.6], size=ng) + r.uniform(-0.02, 0.02, size=ng)).astype('f4')
    w.refmag[r.uniform(size=ng) < 0.05] = w.lo - 0.1
    w.refmag[r.uniform(size=ng) < 0.03] = w.hi + 0.1
    w.refmag = np.round(w.refmag.astype('f8'), 3).astype('f4')
    w.refmag_err = r.uniform(0.01, 0.1, size=ng).astype('f4')
    w.mag = (w.refmag[:, None] + r.uniform(-1, 1, size=(ng, 5))).astype('f4')
    w.mag_err = r.uniform(0.01, 0.1, size=(ng, 5)).astype('f4')
    w.zred_e = r.uniform(0.005, 0.03, size=ng).astype('f4')
    w.chisq = np.round(r.uniform(0, 12, size=ng), 2).astype('f4')
    w.ebv = r.uniform(0, 0.1, size=ng).astype('f4')
    return w


def write_gals(w):
    g = np.zeros(w.ng, dtype=mdtype())
    g['ID'], g['RA'], g['DEC'], g['REFMAG'], g['REFMAG_ERR'], g['MAG'], g['MAG_ERR'], g['EBV'] = w.id, w.ra, w.dec, w.refmag, w.refmag_err, w.mag, w.mag_err, w.ebv
    fitsio.write('g.fit', g, clobber=True)
    z = np.zeros(w.ng, dtype=[('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED2', 'f4'), ('ZRED2_E', 'f4'), ('ZRED_UNCORR', 'f4'), ('ZRED_UNCORR_E', 'f4'), ('LKHD', 'f4'), ('CHISQ', 'f4')])
    z['ZRED'], z['ZRED_E'], z['CHISQ'] = w.zred, w.zred_e, w.chisq
    fitsio.write('z.fit', z, clobber=True)


def configure(r, p, **kw):
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(zredfile='z.fit', catfile='c.fit', outbase='t', outpath=os.getcwd(), zrange=p['zrange'], calib_zrange_cushion=p['cush'], chisq_max=p['chimax'], lval_reference=LVAL, zlambdafile=None, seedfile=None,
             percolation_rmask_0=1.0, percolation_rmask_beta=0.2, percolation_lmask=-1.0)
    y.update(kw)
    with open('conf.yml', 'w') as f:
        yaml.safe_dump(y, f)
    c = Configuration('conf.yml')
    c.galfile = 'g.fit'
    return c


def params(r):
    return dict(zrange=[[0.05, 0.6], [0.2, 0.4], [0.12, 0.3], [0.06, 0.35]][r.randint(4)], cush=float(r.choice([0.02, 0.05])), chimax=float(r.choice([6., 10., 20.])), min8=int(r.choice([16, 24, 40])), niter=int(r.choice([1, 2, 3])), r0=float(r.choice([0.5, 1.0])),
                beta=float(r.choice([0.0, 0.2])))


def script(w, r, p, pos, z):
    """Scripted kernels of every candidate position."""
    s = Script()
    m = len(pos)
    s.at = {(round(float(a), 9), round(float(d), 9)): i for i, (a, d) in enumerate(pos)}
    s.sc = [int(r.choice([2, 2, 2, 3, 4])) for _ in range(m)]
    s.lam, s.zl, s.q = [], [], []
    lo, hi = p['zrange']
    for i in range(m):
        base = int(r.choice([p['min8'] - 1, p['min8'], p['min8'] + 1, 2 * p['min8'], 160, 400]))
        s.lam.append([max(base + (int(r.choice([-8, 0, 0, 8])) if r.randint(3) == 0 else 0), 1) for _ in range(4)])
        zz = [int(round((float(z[i]) + float(r.choice([0.0, 0.003, -0.004]))) * 10000)) for _ in range(4)]
        if r.randint(6) == 0:
            zz[r.randint(4)] = int(round((lo - 0.003) * 10000)) if r.randint(2) else int(round((hi + 0.003) * 10000))
        s.zl.append(zz)
        pr = [[.1, .3, .3, .3], [.6, .2, .1, .1], [.9, .1, 0, 0]][r.randint(3)]
        s.q.append({int(g): int(r.choice(4, p=pr)) for g in w.id})
    s.chi = {int(g): float(x) for g, x in zip(w.id, w.chisq)}
    s.calls = [[] for _ in range(m)]
    s.nb = [[] for _ in range(m)]
    return s


def around(w, sel, cosmo, a, d, z, maxrad):
    """Neighbours of a position, nearest first, and whether rounding decides any."""
    mpc = np.radians(1.) * cosmo.Da(0, float(z))
    lim = float(KEEP['rs'].mstar(float(z))) - 2.5 * np.log10(max(LVAL - 0.1, 0.01))
    dist = sep(a, d, w.ra, w.dec) * mpc
    fz = bool(np.any(np.abs(w.refmag[sel] - lim) < 2e-3) or np.any(np.abs(dist[sel] - maxrad) < 1e-3))
    ok = np.where(sel & (w.refmag <= lim) & (dist < maxrad))[0]
    o = ok[np.argsort(dist[ok])]
    if len(o) > 1 and dist[o[1]] - dist[o[0]] < 1e-5:
        fz = True
    return o, fz


def radius(p):
    m = p['r0'] * (1.2 if p['beta'] == 0 else 3.0**p['beta'])
    return max(m, 1.0 * (1.2 if p['beta'] == 0 else 3.0**0.2))


def rows_match(x, i, want):
    return all(np.array_equal(np.asarray(x[f]), np.asarray(v)) for f, v in want.items())


def first(k, r, out):
    w = galaxies(r)
    p = params(r)
    mode = ['gals', 'seeds', 'spec'][r.randint(3)]
    keepz, clean = bool(r.randint(3) == 0), bool(r.randint(4) == 0)
    write_gals(w)
    rs = KEEP['rs']
    if mode == 'gals':
        src = w
        m = w.ng
        zspec = np.full(m, -1.0, dtype='f4')
    else:
        m = int(r.choice([1, 2, 6, 15]))
        src = World()
        pick = r.randint(w.ng, size=m)
        src.ra, src.dec = w.ra[pick] + r.uniform(-1e-3, 1e-3, size=m), w.dec[pick] + r.uniform(-1e-3, 1e-3, size=m)
        at = r.uniform(size=m) < 0.3
        at &= np.array([pick.tolist().index(q) == j for j, q in enumerate(pick)])
        src.ra[at], src.dec[at] = w.ra[pick[at]], w.dec[pick[at]]
        src.far = w.far[pick]
        src.zred = np.round(w.zred[pick].astype('f8') + r.choice([0, 0.01, -0.02], size=m), 4).astype('f4')
        src.refmag, src.refmag_err, src.mag, src.mag_err, src.zred_e = w.refmag[pick], w.refmag_err[pick], w.mag[pick], w.mag_err[pick], w.zred_e[pick]
        src.chisq = np.round(r.uniform(0, 12, size=m), 2).astype('f4')
        src.ebv = w.ebv[pick]
        zspec = np.round(src.zred.astype('f8') + r.uniform(-0.01, 0.01, size=m), 4).astype('f4')
        f = np.zeros(m, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('MAG', 'f4', 5), ('MAG_ERR', 'f4', 5), ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED_CHISQ', 'f4'), ('EBV', 'f4'), ('ZSPEC', 'f4')])
        for n_, v in (('RA', src.ra), ('DEC', src.dec), ('MAG', src.mag), ('MAG_ERR', src.mag_err), ('REFMAG', src.refmag), ('REFMAG_ERR', src.refmag_err), ('ZRED', src.zred), ('ZRED_E', src.zred_e), ('ZRED_CHISQ', src.chisq), ('EBV', src.ebv), ('ZSPEC', zspec)):
            f[n_] = v
        fitsio.write('s.fit', f, clobber=True)
    c = configure(r, p, firstpass_r0=p['r0'], firstpass_beta=p['beta'], firstpass_niter=p['niter'], firstpass_minlambda=p['min8'] / 8., seedfile=None if mode == 'gals' else 's.fit')
    z0 = zspec if mode == 'spec' else src.zred
    s = Script.cur = script(w, r, p, list(zip(src.ra, src.dec)), z0)
    np.random.seed(int(r.randint(2**31 - 1)))
    runner = RunFirstPass(c, specmode=mode == 'spec')
    res, _ = guard(runner.run, keepz=keepz, cleaninput=clean)
    # what the specification needs
    lo, hi = p['zrange']
    sel = (w.refmag > w.lo) & (w.refmag < w.hi) & (w.chisq < p['chimax'])
    cands = []
    ch = []
    for i in range(m):
        o, fz = around(w, sel, c.cosmo, src.ra[i], src.dec[i], z0[i], radius(p))
        mlim = float(rs.mstar(float(src.zred[i]))) - 2.5 * np.log10(LVAL)
        if fz or abs(float(src.refmag[i]) - mlim) < 2e-3 or (mode != 'gals' and clean and 0.0 < float(KEEP['mask'].sparse_fracgood.get_values_pos(src.ra[i], src.dec[i], lonlat=True)) < 1.0):
            out.count('skipped')
            return
        infoot = float(KEEP['mask'].sparse_fracgood.get_values_pos(src.ra[i], src.dec[i], lonlat=True)) > 0.0
        ch.append(float(w.chisq[o[0]]) if len(o) else -1.0)
        cands.append(dict(z=scaled(src.zred[i], 10000), z0=scaled(z0[i], 10000), chi=scaled(src.chisq[i], 1000), mag=scaled(src.refmag[i], 1000), mlim=scaled(mlim, 1000), foot=bool(infoot), far=bool(src.far[i]), nbr=len(o) > 0, sc=s.sc[i], lam=s.lam[i], zl=s.zl[i],
                          calls=[dict(zr=scaled(x['zr'], 10000), zin=scaled(x['zin'], 10000)) for x in s.calls[i]]))
    rows = []
    if res == 'ok' and runner.cat is not None:
        for x in runner.cat._ndarray:
            i = s.at.get((round(float(x['ra']), 9), round(float(x['dec']), 9)), -1)
            if i < 0:
                rows.append(dict(k=0, own=False, lam=0, sc=0, zl=0, z=0, rad=0))
                continue
            own = (np.all(x['mag'] == src.mag[i]) and np.all(x['mag_err'] == src.mag_err[i]) and x['refmag'] == src.refmag[i] and x['refmag_err'] == src.refmag_err[i] and x['zred'] == src.zred[i] and x['zred_e'] == src.zred_e[i]
                   and x['zred_chisq'] == src.chisq[i] and x['z_init'] == z0[i] and abs(float(x['chisq']) - ch[i]) < 1e-6 and (mode == 'gals' or x['z_spec_init'] == zspec[i]))
            rows.append(dict(k=i + 1, own=bool(own), lam=scaled(x['lambda'], 8), sc=scaled(x['scaleval'], 2), zl=scaled(x['z_lambda'], 10000), z=scaled(x['z'], 10000), rad=scaled(float(x['r_lambda']) / (p['r0'] * (float(x['lambda']) / 100.)**p['beta']), 10000)))
    out.count('first pass candidates', m)
    out.count('first pass kept', len(rows))
    out.add('first%d' % k, [dict(op='first', res=res, none=bool(res == 'ok' and runner.cat is None), mode=mode, keepz=keepz, clean=clean, cands=cands, rows=rows, blo=scaled(w.lo, 1000), bhi=scaled(w.hi, 1000),
                                 p=dict(zlo=scaled(lo, 10000), zhi=scaled(hi, 10000), chimax=scaled(p['chimax'], 1000), min8=p['min8'], niter=1 if mode == 'spec' else p['niter']))])


def like(k, r, out):
    w = galaxies(r)
    p = params(r)
    keepz, clean, usez, calibrated = bool(r.randint(3) == 0), bool(r.randint(4) == 0), bool(r.randint(2)), bool(r.randint(2))
    write_gals(w)
    rs = KEEP['rs']
    lo, hi = p['zrange']
    lo_, hi_ = (max(0.05, lo - p['cush']), hi + p['cush']) if keepz else (lo, hi)
    m = min(int(r.choice([1, 2, 6, 15])), w.ng)
    pick = r.choice(w.ng, size=m, replace=False)
    ra, dec = w.ra[pick].copy(), w.dec[pick].copy()
    off = r.uniform(size=m) < 0.2
    ra[off] += 0.002
    z = np.round(w.zred[pick].astype('f8') + r.choice([0, 0.01, -0.01], size=m), 4)
    e = r.uniform(size=m) < 0.2
    z[e] = [float(r.choice([lo_ - 0.003, lo_ + 0.003, hi_ - 0.003, hi_ + 0.003])) for _ in range(e.sum())]
    z = np.clip(z, 0.051, None).astype('f4')
    mag = np.round(rs.mstar(z.astype('f8')) + r.choice([-2, 0, 1, 2.3, 2.4, 2.6, 3], size=m), 3).astype('f4')
    lam = r.choice([20, 40, 160, 8, -8, 0], size=m, p=[.3, .3, .2, .1, .05, .05])
    cat = np.zeros(m, dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('LAMBDA', 'f4'), ('REFMAG', 'f4'), ('Z_LAMBDA', 'f4'), ('Z_INIT', 'f4')])
    cat['MEM_MATCH_ID'], cat['RA'], cat['DEC'], cat['Z'], cat['LAMBDA'], cat['REFMAG'], cat['Z_LAMBDA'], cat['Z_INIT'] = np.arange(m) + 1, ra, dec, z, lam / 8., mag, z, z
    fitsio.write('c.fit', cat, clobber=True)
    c = configure(r, p, likelihoods_r0=p['r0'], likelihoods_beta=p['beta'], likelihoods_minlambda=p['min8'] / 8., likelihoods_use_zred=usez)
    wc = dict(lnw_cen_sigma=0.25 if calibrated else -1.0, lnw_cen_mean=0.3, wcen_Delta0=-1.6, wcen_Delta1=-0.2, wcen_sigma_m=0.4, wcen_pivot=30.0, wcen_maxlambda=float(r.choice([20.0, 100.0])), wcen_rsoft=0.05)
    for q, v in wc.items():
        setattr(c, q, v)
    s = Script.cur = script(w, r, p, list(zip(ra, dec)), z)
    np.random.seed(int(r.randint(2**31 - 1)))
    runner = RunLikelihoods(c)
    res, _ = guard(runner.run, keepz=keepz, cleaninput=clean)
    sel = (w.refmag > w.lo) & (w.refmag < w.hi) & ((w.chisq < p['chimax']) | (not usez))
    at = {int(g): i for i, g in enumerate(w.id)}
    cands = []
    for i in range(m):
        o, fz = around(w, sel, c.cosmo, ra[i], dec[i], z[i], radius(p))
        mlim = float(rs.mstar(float(z[i]))) - 2.5 * np.log10(max(LVAL - 0.1, 0.01))
        frac = float(KEEP['mask'].sparse_fracgood.get_values_pos(ra[i], dec[i], lonlat=True))
        if fz or abs(float(mag[i]) - mlim) < 2e-3 or (clean and 0.0 < frac < 1.0):
            out.count('skipped')
            return
        mem = [s.q[i][int(w.id[j])] for j in o[1:]]
        want = 0
        if calibrated and len(o) and s.lam[i][0] > 0:
            # the centre's magnitude, redshift or colour, and the weighted number of neighbours
            mst = float(rs.mstar(float(z[i])))
            L, sc = s.lam[i][0] / 8., s.sc[i] / 2.
            mbar = mst + wc['wcen_Delta0'] + wc['wcen_Delta1'] * np.log(L / wc['wcen_pivot'])
            lnphi = -np.log(np.sqrt(2 * np.pi) * wc['wcen_sigma_m']) - 0.5 * ((float(w.refmag[o[0]]) - mbar) / wc['wcen_sigma_m'])**2
            if usez:
                gz = np.exp(-0.5 * ((float(w.zred[o[0]]) - float(z[i])) / float(w.zred_e[o[0]]))**2) / (np.sqrt(2 * np.pi) * float(w.zred_e[o[0]]))
            else:
                x = float(w.chisq[o[0]])
                nc = KEEP['rs'].ncol
                gz = x**(nc / 2. - 1) * np.exp(-x / 2.) / (2**(nc / 2.) * math.gamma(nc / 2.))
            mpc = np.radians(1.) * c.cosmo.Da(0, float(z[i]))
            dist = sep(ra[i], dec[i], w.ra[o], w.dec[o]) * mpc
            pm = Q[[s.q[i][int(w.id[j])] for j in o]]
            u = (dist > 1e-5) & (pm > 0)
            lum = 10.**((mst - w.refmag[o].astype('f8')) / 2.5)
            rl = p['r0'] * (L / 100.)**p['beta']
            want = None
            if np.any(u):
                ww = np.log(np.sum(pm[u] * lum[u] / np.sqrt(dist[u]**2 + wc['wcen_rsoft']**2)) / (np.sum(pm[u] * lum[u]) / rl))
                sig = wc['lnw_cen_sigma'] / np.sqrt(min(L, wc['wcen_maxlambda']) / sc / wc['wcen_pivot'])
                if ww > 1e-3:
                    fw = -np.log(np.sqrt(2 * np.pi) * sig) - 0.5 * ((np.log(ww) - wc['lnw_cen_mean']) / sig)**2
                    want = lnphi + np.log(max(gz, 1e-10)) + fw
            if want is not None and abs(want) > 300:
                want = None
        cands.append(dict(z=scaled(z[i], 10000), lam0=int(lam[i]), mag=scaled(mag[i], 1000), mlim=scaled(mlim, 1000), foot=frac > 0.0, far=bool(w.far[pick[i]]), nbr=len(o) > 0, lam=s.lam[i][0], sc=s.sc[i], mem=mem, bcg=0 if want is None else scaled(want, 1000), judge=want is not None,
                          seen=len(s.calls[i]) > 0))
    rows = []
    if res == 'ok' and runner.cat is not None:
        for x in runner.cat._ndarray:
            i = s.at.get((round(float(x['ra']), 9), round(float(x['dec']), 9)), -1)
            if i < 0:
                rows.append(dict(k=0, own=False, lam=0, lnlam=0, bcg=0, ln=0, rad=0))
                continue
            own = x['mem_match_id'] == i + 1 and x['refmag'] == mag[i] and x['z'] == z[i] and x['z_lambda'] == z[i]
            rows.append(dict(k=i + 1, own=bool(own), lam=scaled(x['lambda'], 8), lnlam=scaled(x['lnlamlike'], 1000), bcg=scaled(x['lncglike'], 1000), ln=scaled(x['lnlike'], 1000), rad=scaled(float(x['r_lambda']) / (p['r0'] * (float(x['lambda']) / 100.)**p['beta']), 10000)))
    out.count('likelihood candidates', m)
    out.count('likelihood kept', len(rows))
    out.count('centre terms compared', sum(1 for q in cands if q['judge'] and calibrated))
    out.add('like%d' % k, [dict(op='like', res=res, none=bool(res == 'ok' and runner.cat is None), keepz=keepz, clean=clean, calibrated=calibrated, cands=cands, rows=rows,
                                p=dict(zlo=scaled(lo_, 10000), zhi=scaled(hi_, 10000), min8=p['min8']))])


def main(i, nproc, out):
    install()
    for k in range(i, n(240, 3000), nproc):
        first(k, rng(27000 + 2 * k), out)
        like(k, rng(27001 + 2 * k), out)


if __name__ == '__main__':
    preload()
    shards(main, 8)
