"""C23: the solver on generated inputs, and the richness of clusters of the test survey with scripted masks and availability."""
import numpy as np
from harness.common import *   # noqa: F401,F403
from harness import measure

from redmapper import Configuration, Cluster, DepthMap, ColorBackground, RedSequenceColorPar
from redmapper.solver_nfw import Solver
from redmapper.mask import get_mask

KEEP = measure.KEEP


def preload():
    measure.preload()
    c = Configuration('data_for_tests/testconfig.yaml')
    c.mask_mode = 0
    KEEP['mask'] = get_mask(c)
    KEEP['depth'] = DepthMap(c)
    KEEP['cbkg'] = ColorBackground(c.bkgfile_color, usehdrarea=True)
    KEEP['rsc'] = RedSequenceColorPar(None, config=c)
    KEEP['conf'] = c
    KEEP['lims'] = (KEEP['rs'].limmag, c.limmag_catalog)


def ints(v, s):
    return [scaled(x, s) for x in v]


def solve(r0, beta, rsig, cp, u, b, rad, w, form=0):
    """One call; form varies how the same numbers are passed."""
    a = [np.array(x, dtype='f8') for x in (u, b, rad, w)]
    if form == 1:
        a = [np.repeat(x, 2)[::2] for x in a]
    keep = [x.copy() for x in a]
    res, got = guard(lambda: Solver(r0, beta, *a, cpars=np.array(cp, dtype='f8'), rsig=rsig).solve_nfw())
    d = dict(res=res, same=bool(all((x == y).all() for x, y in zip(a, keep))), lam=0, rlam=0, rel=0, cv=0, sum=0, gals=[])
    if res == 'ok':
        lam, p, wt, rlam, th = got
        lam, rlam = float(lam), float(rlam)
        d.update(lam=scaled(lam, 100), rlam=scaled(rlam, 1e3), rel=scaled(r0 * (lam / 100.)**beta if lam > 0 else -1., 1e3), cv=scaled(max(np.polyval(cp, rlam), 0.) if lam > 0 else 0., 1e4),
                 sum=scaled(np.sum(wt), 100), gals=[dict(p=scaled(p[i], 1e3), wt=scaled(wt[i], 1e3), th=scaled(th[i], 1e3)) for i in range(len(p))])
    return d


def direct(k, out):
    r = rng(23000 + k)
    ng = int(r.choice([1, 2, 5, 20, 60]))
    r0 = float(r.choice([0.5, 1.0, 1.5]))
    beta = float(r.choice([0.0, 0.2, 0.4]))
    rsig = float(r.choice([0.0, 0.03, 0.05]))
    su, sb = 10.**r.uniform(-2, 1), 10.**r.uniform(-2, 1)
    u = r.randint(0, 31, size=ng)
    b = r.randint(1, 31, size=ng)
    if r.randint(3) == 0:
        b[r.randint(0, ng)] = 0
    rad = r.randint(1, 2200, size=ng)
    w = r.choice([0, 0, 250, 500, 1000, 1000, 1000], size=ng)
    if r.randint(2):
        w[:] = np.where(w > 0, 1000, 0)
        u = np.clip(u + 10, 0, 30)
    if k % 10 == 7:
        # rich
        ng = int(r.choice([180, 240, 290]))
        b = r.randint(1, 4, size=ng)
        u = r.randint(20, 31, size=ng)
        rad = r.randint(1, int(450 * r0), size=ng)
        w = np.full(ng, 1000)
        su, sb = 1.0, 0.01
    ck = r.randint(4)
    cp = [0., 0., 0., 0.] if ck == 0 else [0., 0., 0., float(r.uniform(0, 0.5))] if ck == 1 else [0., 0., float(r.uniform(0, 0.3)), 0.0] if ck == 2 else \
        [float(r.uniform(-0.05, 0.05)), float(r.uniform(-0.1, 0.1)), float(r.uniform(-0.2, 0.2)), float(r.uniform(0.1, 0.3))]
    steps = [dict(op='setup', kind='solver', beta=scaled(beta, 100), r0=scaled(r0, 1e3), rsig=scaled(rsig, 1e3), ng=ng,
                  gals=[dict(u=int(u[i]), b=int(b[i]), r=int(rad[i]), w=int(w[i])) for i in range(ng)])]

    def go(idx, form=0, extra=None):
        uu, bb, rr, ww = [list(x[idx]) for x in (u * su, b * sb, rad / 1000., w / 1000.)]
        if extra:
            for x in extra:
                uu.append(x[0])
                bb.append(x[1])
                rr.append(x[2])
                ww.append(x[3])
        return solve(r0, beta, rsig, cp, uu, bb, rr, ww, form)
    order = np.arange(ng)
    d = go(order)
    steps.append(dict(op='solve', **d))
    out.count('solved' if d['lam'] > 0 else 'unsolved')
    perm = r.permutation(ng)
    d = go(perm, form=1)
    inv = np.argsort(perm)
    d['gals'] = [d['gals'][i] for i in inv] if d['gals'] else []
    steps.append(dict(op='same', why='order', **d))
    # galaxies that cannot count
    extra = []
    for _ in range(int(r.randint(1, 4))):
        what = r.randint(3)
        extra.append([(30 * su, sb, 0.3, 0.0), (0.0, sb, 0.3, 1.0), (30 * su, sb, 50.0, 1.0)][what])
    d = go(order, extra=extra)
    d['gals'] = d['gals'][:ng]
    steps.append(dict(op='same', why='galaxies that cannot count', **d))
    out.add('solver%d' % k, steps)


def setup_cluster(pos, fit):
    conf = KEEP['conf']
    if fit:
        c = Cluster(r0=0.5, beta=0.0, config=conf, cbkg=KEEP['cbkg'], zredstr=KEEP['rsc'])
    else:
        c = Cluster(r0=1.0, beta=0.2, config=conf, bkg=KEEP['bkg'], zredstr=KEEP['rs'])
    c.ra, c.dec, c.redshift = pos
    c.find_neighbors(1.4 if not fit else 0.75, KEEP['gals'], megaparsec=True)
    return c


def observe(c, mask, res, lam, cp, idx, fit, even):
    g = c.neighbors
    use = np.zeros(g.size, dtype=bool)
    use[idx] = True
    maxmag = c.mstar - 2.5 * np.log10(c.config.lval_reference)
    lim = c.config.limmag_catalog if fit else c.zredstr.limmag
    ok = res == 'ok' and lam > 0
    d = dict(res=res, ok=bool(ok), lam=scaled(lam if lam is not None else -1, 100), attr=scaled(c.Lambda, 100) if res == 'ok' and (ok or not fit) else scaled(lam if lam is not None else -1, 100),
             rlam=scaled(c.r_lambda, 1e3) if ok else -1000, rel=scaled(c.r0 * (lam / 100.)**c.beta, 1e3) if ok else -1000, scale=scaled(c.scaleval, 1e3) if res == 'ok' else 0,
             sum=scaled(np.sum(g.pmem), 100), cv=scaled(max(np.polyval(cp, c.r_lambda), 0.), 1e4) if ok else 0,
             # nothing but zeroes for galaxies that were not given, or when nothing was measured
             rest=bool(all((getattr(g, f)[~use] == 0).all() for f in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r'))),
             zero=bool((g.pmem == 0).all()), err=bool(fit or ok or res != 'ok' or c.Lambda_e < 0), even=bool(even),
             faint=bool((g.pmem[g.refmag > lim] == 0).all() and (g.theta_i[g.refmag > lim] == 0).all() and (g.theta_i[g.refmag > maxmag + 6. * g.refmag_err] < 1e-4).all()),
             bright=bool(not ok or (g.theta_i[use & (g.refmag < min(maxmag, lim) - 6. * g.refmag_err)] > 0.9999).all()),
             pcol=bool((g.pcol >= 0).all() and (g.pcol <= 1).all() and (not ok or (g.pcol[(g.r > c.r_lambda) | (g.refmag > lim) | (g.refmag > maxmag)] == 0).all())), errs=True, rev=True, gals=[], direct=-1)
    if ok:
        show = np.where((g.p > 0.02) & use)[0][:40]
        d['gals'] = [dict(p=scaled(g.p[i], 1e3), wt=scaled(g.pmem[i], 1e3), th=scaled(g.theta_r[i], 1e3), w=scaled(g.theta_i[i] * g.pfree[i], 1e3), r=scaled(g.r[i], 1e3)) for i in show]
        mg = mask.maskgals
        inside = mg.r < c.r_lambda
        if even and inside.sum() > 500:
            # masked at random: the masked fraction of the model galaxies brighter than the limit
            d['direct'] = scaled(1. - np.mean(mg.mark[inside] > 0), 1e4)
        if not fit:
            pm = g.pmem[g.pmem > 0].astype('f8')
            stat = (1 - np.sum(pm**2) / np.sum(pm)) * lam * c.scaleval
            excess = float(c.Lambda_e)**2 - stat
            mg = mask.maskgals
            inside = mg.r < c.r_lambda
            out = inside & (((c.mstar + mg.m) > c.zredstr.limmag) | (mg.mark == 0))
            cv = max(np.polyval(cp, c.r_lambda), 0.)
            # the known reversed evaluation of the mask correction
            cvr = max(float(np.sum(cp * c.r_lambda**np.arange(len(cp), dtype=float))), 0.)
            # where the background of the masked galaxies is unknown (infinite) they cannot add to the error
            bad = out.any() and not np.isfinite(c.calc_bkg_density(mg.r[out], mg.chisq[out], np.minimum(c.mstar + mg.m[out], c.zredstr.limmag - 0.01))).any()
            if not bad and abs(cv - 0.01) > 1e-3 and abs(cvr - 0.01) > 1e-3 and (out.sum() > 10 or not out.any()):
                masked = bool(excess > 1e-3 * stat)
                d['errs'] = masked == bool(cv >= 0.01 and out.any())
                d['rev'] = masked == bool(cvr >= 0.01 and out.any())
    return d


def clusters(k, out):
    r = rng(23500 + k)
    fit = k % 4 == 3
    pos = KEEP['pos'][int(r.randint(len(KEEP['pos']) - 3))]
    shallow = r.randint(4) == 0
    KEEP['rs'].limmag = float(r.uniform(18.5, 20.0)) if shallow else KEEP['lims'][0]
    KEEP['conf'].limmag_catalog = float(r.uniform(18.5, 20.0)) if shallow else KEEP['lims'][1]
    before = bool(r.randint(2))
    mask = KEEP['mask']
    c = setup_cluster(pos, fit)
    if c.neighbors.size == 0:
        return
    mask.select_maskgals_sample(maskgal_index=0)
    mask.set_radmask(c)
    KEEP['depth'].calc_maskdepth(mask.maskgals, c.ra, c.dec, c.mpc_scale)
    mk = r.randint(5)
    mg = mask.maskgals
    mg.mark = np.ones(mg.size) if mk == 0 else (r.uniform(size=mg.size) > r.uniform(0, 0.3)) if mk == 1 else (mg.r < r.uniform(0.4, 1.2)) if mk == 2 else \
        (mg.r > r.uniform(0.1, 0.5)) if mk == 3 else (mg.x > r.uniform(-1, 0)) if 'x' in [q.lower() for q in mg.dtype.names] else (mg.r < 0.9)
    av = r.randint(3)
    pfree = np.ones(c.neighbors.size) if av == 0 else r.choice([0., 0.25, 0.5, 1.], size=c.neighbors.size) if av == 1 else np.zeros(c.neighbors.size)
    if av == 2 and r.randint(3):
        pfree[:] = (r.uniform(size=pfree.size) < 0.9)
    cps = []
    orig = mask.calc_maskcorr

    def rec(*a, **kw):
        v = orig(*a, **kw)
        cps.append(np.array(v))
        return v
    mask.calc_maskcorr = rec
    rsig = 0.0 if fit else KEEP['conf'].rsig
    steps = [dict(op='setup', kind='fit' if fit else 'cluster', beta=scaled(c.beta, 100), r0=scaled(c.r0, 1e3), rsig=scaled(rsig, 1e3), ng=0, gals=[])]
    ng = c.neighbors.size
    idx = np.arange(ng) if fit or r.randint(2) else np.sort(r.choice(ng, size=max(1, int(ng * r.uniform(0.3, 1))), replace=False))

    def go(order, sub):
        """order: permutation of the neighbours; sub: indices (of the original order) that are used"""
        cc = setup_cluster(pos, fit)
        cc.set_neighbors(cc.neighbors[order])
        if before and not fit:
            # measured before with everything available
            cc.neighbors.pfree[:] = 1.0
            guard(cc.calc_richness, mask)
        cc.neighbors.pfree[:] = pfree[order]
        here = np.where(np.isin(order, sub))[0]
        kw = dict(calc_err=False) if fit else dict(index=None if here.size == ng else here)
        if fit:
            near = cc.neighbors.galcol[np.argmin(cc.neighbors.r), 1]
            res, lam = guard(cc.calc_richness_fit, mask, 1, centcolor_in=near, **kw)
        else:
            res, lam = guard(cc.calc_richness, mask, **kw)
        return observe(cc, mask, res, None if lam is None else float(lam), cps[-1] if cps else [0.], here, fit, mk < 2 and not shallow)
    d = go(np.arange(ng), idx)
    steps.append(dict(op='measure', **d))
    out.count('clusters measured' if d['ok'] else 'clusters not measured')
    if not d['ok']:
        out.count('not measured %d' % av)
    d2 = go(r.permutation(ng), idx)
    steps.append(dict(op='remeasure', **d2))
    mask.calc_maskcorr = orig
    out.add('%s%d' % ('fit' if fit else 'cluster', k), steps)


def main(i, nproc, out):
    for k in range(i, n(300, 3000), nproc):
        direct(k, out)
    for k in range(i, n(160, 1200), nproc):
        clusters(k, out)


if __name__ == '__main__':
    preload()
    shards(main, 8)
