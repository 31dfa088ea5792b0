"""C28: galaxy backgrounds (chisq and zred) generated from generated surveys, kept in one file under histories of runs, and looked up.

Only chisq of a galaxy at a redshift is scripted (RedSequenceColorPar.calculate_chisq); magnitudes lie at quarters of a magnitude cell and chisq at quarters of a
chisq cell, so that what every cell has to contain is a whole number of sixteenths."""
import hashlib
import os
import shutil
import fitsio
import hpgeom as hpg
import numpy as np
from harness.common import *   # noqa: F401,F403
from harness.perc import mdtype

from redmapper import Background, BackgroundGenerator, Configuration, ZredBackground, ZredBackgroundGenerator
from redmapper.depthmap import DepthMap
from redmapper.redsequence import RedSequenceColorPar

KEEP = {}
MAG0 = 12.0
LN0, LNB, NLN = -2.0, 0.2, 40


def cleanup(d):
    shutil.rmtree(d, ignore_errors=True)


class Script(object):
    cur = None


def scripted(self, galaxies, z, calc_lkhd=False, z_is_index=False):
    s = Script.cur
    zz = np.atleast_1d(self.z[np.atleast_1d(z)] if z_is_index else z)
    k = np.clip(np.round((zz - s['z0']) / s['dz']).astype(int), 0, s['nz'] - 1)
    ids = np.atleast_1d(galaxies.id)
    k = np.broadcast_to(k, ids.shape)
    return np.array([s['chi'][int(g)][int(i)] for g, i in zip(ids, k)], dtype='f8')


def preload():
    KEEP['rs'] = RedSequenceColorPar('data_for_tests/test_dr8_pars.fit')
    with quiet():
        KEEP['conf'] = Configuration('data_for_tests/testconfig.yaml')


def survey(r, d, setup, pixelized, zred):
    """A survey in the folder d: galaxy files, master table, redshift files. Returns the galaxies."""
    ng = int(r.choice([1, 4, 20, 45]))
    w = dict(ng=ng)
    w['id'] = r.choice(10**6, size=ng, replace=False) + 10
    nm, nc = setup['nm'], setup['nc']
    # quarters of a cell, never on the edge of a cell
    m4 = r.choice([x for x in range(1, 4 * nm) if x % 4], size=ng)
    m4[r.uniform(size=ng) < 0.08] = -2
    m4[r.uniform(size=ng) < 0.08] = 4 * nm + 2
    w['m4'] = m4
    c4 = r.choice([x for x in range(1, 4 * nc) if x % 4], size=(ng, setup['nz']))
    if r.randint(3) == 0:
        c4[:, 1:] = c4[:, :1]
    c4[r.uniform(size=c4.shape) < 0.15] = -1          # beyond the chisq range, inside the logarithmic one
    w['c4'] = c4
    w['big'] = r.choice([x for x in range(100 + int(100 * (np.log(setup['chimax']) - LN0) / LNB), 100 * NLN - 50)], size=c4.shape)
    chi = np.where(c4 >= 0, c4 * setup['cb'] / 4., np.exp(LN0 + LNB * w['big'] / 100.))
    w['chi'] = {int(g): [float(x) for x in row] for g, row in zip(w['id'], chi)}
    with np.errstate(divide='ignore'):
        w['l100'] = np.where(c4 >= 0, np.round((np.log(np.maximum(chi, 1e-9)) - LN0) / LNB * 100.), w['big']).astype(int)
    g = np.zeros(ng, dtype=mdtype())
    g['ID'] = w['id']
    g['REFMAG'] = MAG0 + setup['mb'] * m4 / 4.
    g['REFMAG_ERR'], g['MAG_ERR'] = 0.05, 0.05
    g['MAG'] = g['REFMAG'][:, None] + r.uniform(-1, 1, size=(ng, 5))
    w['hc'] = r.uniform(0, 60, size=ng) < 50
    # zred: quarters of a zred cell
    z4 = r.choice([x for x in range(1, 4 * setup['nzr']) if x % 4], size=ng)
    z4[r.uniform(size=ng) < 0.08] = -2
    z4[r.uniform(size=ng) < 0.08] = 4 * setup['nzr'] + 2
    w['z4'] = z4
    w['zok'] = r.uniform(size=ng) < 0.85              # chisq of the zred acceptable
    z = np.zeros(ng, dtype=[('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED2', 'f4'), ('ZRED2_E', 'f4'), ('ZRED_UNCORR', 'f4'), ('ZRED_UNCORR_E', 'f4'), ('LKHD', 'f4'), ('CHISQ', 'f4')])
    z['ZRED'] = setup['zr0'] + setup['zrb'] * z4 / 4.
    z['CHISQ'] = np.where(w['zok'], r.uniform(0, setup['zchi'] - 1, size=ng), setup['zchi'] + 1)
    if not pixelized:
        ra, dec = r.uniform(130, 150, size=ng), r.uniform(0, 20, size=ng)
        g['RA'], g['DEC'] = ra, dec
        fitsio.write(os.path.join(d, 'g.fit'), g, clobber=True)
        w['pix'] = None
        w['reg'] = np.ones(ng, dtype=bool)
        return w
    nside = int(r.choice([4, 8, 32]))
    npix = int(r.choice([2, 3, 6]))       # (a table of one pixel cannot be read: known finding of C04)
    base = int(r.randint(12 * 4)) if nside > 4 else 0
    if nside > 4:
        f = (nside // 2)**2
        nest = base * f + r.choice(f, size=min(npix, f), replace=False)
        if r.randint(2):
            nest[0] = (base + 1) % 48 * f
    else:
        nest = r.choice(12 * nside**2, size=npix, replace=False)
    pix = np.unique(hpg.nest_to_ring(nside, nest))
    if pix.size < 2:
        pix = np.unique(np.append(pix, (pix[0] + 1) % (12 * nside**2)))
    own = r.choice(pix, size=ng) if r.randint(4) else np.full(ng, r.choice(pix))
    sub = hpg.ring_to_nest(nside, own).astype(np.int64) * 256 + r.randint(256, size=ng)
    g['RA'], g['DEC'] = hpg.pixel_to_angle(nside * 16, sub, nest=True)
    keep = pix if r.randint(3) == 0 else np.array([p for p in pix if np.any(own == p)])       # a table may list pixels without galaxies
    keep = pix if keep.size < 2 else keep
    names, znames, ngals = [], [], []
    for p in keep:
        u, = np.where(own == p)
        names.append('g_%07d.fit' % p)
        znames.append('z_%07d.fit' % p)
        ngals.append(u.size)
        if u.size:
            fitsio.write(os.path.join(d, names[-1]), g[u], clobber=True)
            fitsio.write(os.path.join(d, znames[-1]), z[u], clobber=True)
    k = len(keep)
    for nm_, fn in ((names, 'g_master_table.fit'), (znames, 'z_master_table.fit')):
        t = np.zeros(1, dtype=[('nside', 'i4'), ('hpix', 'i4', (k,)), ('ra_pix', 'f8', (k,)), ('dec_pix', 'f8', (k,)), ('ngals', 'i4', (k,)), ('filenames', 'S%d' % (len(nm_[0]) + 1), (k,)),
                               ('mode', 'i2'), ('b', 'f8', (5,)), ('area', 'f8'), ('lim_ref', 'f4'), ('ref_ind', 'i2'), ('zeropoint', 'f4')])
        t['nside'], t['hpix'], t['ngals'], t['filenames'] = nside, keep, ngals, nm_
        ra, dec = hpg.pixel_to_angle(nside, keep, nest=False)
        t['ra_pix'], t['dec_pix'] = ra, dec
        t['area'], t['lim_ref'], t['ref_ind'], t['zeropoint'] = 100.0, 25.0, 3, 22.5
        fitsio.write(os.path.join(d, fn), t, header=[dict(name='PIXELS', value=1), dict(name='FITS', value=1)], clobber=True)
    w['pix'] = own
    w['nside'] = nside
    return w


def setups(r):
    s = dict(mb=0.2, nm=int(r.choice([5, 10, 15])), cb=0.5, nc=int(r.choice([20, 40, 10])), dz=0.02, z0=0.1)
    if r.randint(3) == 0:
        s['mb'], s['nm'] = 0.5, int(r.choice([2, 8]))
    if r.randint(3) == 0:
        s['cb'], s['nc'] = 1.0, int(r.choice([5, 20]))
    s['nz'] = int(r.choice([1, 2, 5]))
    if r.randint(3) == 0:
        s['dz'], s['nz'] = 0.05, int(r.choice([2, 4]))
    s['lim'] = MAG0 + s['mb'] * s['nm']
    s['chimax'] = s['cb'] * s['nc']
    s['zhi'] = s['z0'] + s['dz'] * s['nz']
    s['zchi'] = float(r.choice([20., 100.]))
    ok = (int(np.ceil((s['lim'] - 12.0) / s['mb'])) == s['nm'] and int(np.ceil((s['zhi'] - s['z0']) / s['dz'])) == s['nz'])
    return s if ok else setups(r)


def configure(s, d, pixelized, nproc, depth):
    c = KEEP['conf'].copy()
    c.galfile = os.path.join(d, 'g_master_table.fit' if pixelized else 'g.fit')
    c.zredfile = os.path.join(d, 'z_master_table.fit')
    c.galfile_pixelized = pixelized
    c.outpath = d
    c.bkgfile = os.path.join(d, 'bkg.fit')
    c.limmag_catalog = s['lim']
    c.chisq_max = s['chimax']
    c.bkg_refmagbinsize, c.bkg_chisqbinsize, c.bkg_zbinsize, c.bkg_zredbinsize = s['mb'], s['cb'], s['dz'], s['zrb']
    c.zrange = [s['z0'], s['zhi']]
    c.wcen_zred_chisq_max = s['zchi']
    c.calib_nproc = nproc
    c.area = s['area']
    if not depth:
        c.depthfile = None
    return c


def region(r, c, w):
    """A region of the survey, and who is in it (by galaxy pixel)."""
    if w['pix'] is None or r.randint(2):
        c.d.hpix, c.d.nside = [], 0
        w['reg'] = np.ones(w['ng'], dtype=bool)
        return False
    ns = int(r.choice([2, 4])) if w['nside'] > 4 else int(r.choice([1, 2, 4]))
    ra, dec = hpg.pixel_to_angle(w['nside'], w['pix'], nest=False)
    big = hpg.angle_to_pixel(ns, ra, dec, nest=False)
    tab = np.unique(big)
    pick = [int(r.choice(tab))]
    if r.randint(2):
        pick = sorted(set(pick + [int(r.randint(12 * ns**2))]))
    c.d.hpix, c.d.nside = pick, ns
    w['reg'] = np.isin(big, pick)
    return True


def zrsetup(s):
    rs = RedSequenceColorPar('data_for_tests/test_dr8_pars.fit', fine=True, zrange=[s['z0'], s['zhi']])
    lo, hi = float(rs.z[0]), float(rs.z[-2] + (rs.z[1] - rs.z[0]))
    return lo, hi


def areas_of(s, c):
    bins = np.arange(s['nm']) * s['mb'] + MAG0
    if c.depthfile is None:
        return np.full(bins.size, s['area'])
    return DepthMap(c).calc_areas(bins)


def sparse(t, unit, shape):
    """Entries of a table in units, and whether they are whole numbers of units."""
    if t.shape != shape or not np.all(np.isfinite(t)):
        return [], False
    v = t * unit
    q = np.round(v)
    idx = np.argwhere(q != 0)
    return [[int(a) for a in i] + [int(q[tuple(i)])] for i in idx], bool(np.max(np.abs(v - q)) < 0.02 + 1e-5 * np.max(np.abs(v)))


def gen(k, r, out):
    s = setups(r)
    s['area'] = float(r.choice([1.0, 10.0, 26.0]))
    lo, hi = zrsetup(s)
    s['nzr'] = int(r.choice([2, 5, 10]))
    s['zr0'], s['zrb'] = lo, (hi - lo) / s['nzr']
    if int(np.ceil((hi - lo) / s['zrb'])) != s['nzr']:
        s['zrb'] = np.nextafter(s['zrb'], 1)
    d = fresh('c28')
    pixelized = bool(r.randint(4))
    depth = bool(r.randint(4) == 0)
    with quiet():
        w = survey(r, d, s, pixelized, True)
        nproc = int(r.choice([1, 1, 2, 3, 8]))
        c = configure(s, d, pixelized, nproc, depth)
        sub = region(r, c, w)
        if sub:
            c.depthfile = None        # the depth map of the test survey covers none of these regions
        deep = bool(r.randint(2))
        Script.cur = dict(z0=s['z0'], dz=s['dz'], nz=s['nz'], chi=w['chi'])
        areas = areas_of(s, c)
        nat = int(r.choice([1, 2, 3, 7, 100000]))
        res = guard(lambda: BackgroundGenerator(c).run(clobber=bool(r.randint(2)), natatime=nat, deepmode=deep))[0]
        rz = guard(lambda: ZredBackgroundGenerator(c).run())[0] if pixelized else 'ok'
    if np.any(areas <= 0):
        out.count('skipped')
        cleanup(d)
        return
    # the cell of the magnitude limit at every redshift
    zb = s['z0'] + s['dz'] * np.arange(s['nz'])
    rs = KEEP['rs']
    ml = np.atleast_1d(rs.mstar(zb + s['dz'])) - 2.5 * np.log10(0.01 if deep else 0.1)
    ml = np.where(ml >= s['lim'], s['lim'] - 0.01, ml)
    p = (ml - MAG0) / s['mb']
    if np.any(np.abs(p - np.round(p)) < 1e-3):
        out.count('skipped')
        cleanup(d)
        return
    lim = [int(x) for x in np.clip(np.floor(p), 0, s['nm'] - 1)]
    st = dict(op='gen', res=res, nm=s['nm'], nc=s['nc'], nz=s['nz'], nln=NLN, lim=lim, gals=[dict(m=int(w['m4'][i]), c=[int(x) for x in w['c4'][i]], l=[int(x) for x in w['l100'][i]]) for i in range(w['ng']) if w['reg'][i]],
              t=[], exact=False, ln=[], lnok=False, area=True, heads=True)
    if res == 'ok':
        b = fitsio.read(c.bkgfile, ext='CHISQBKG', lower=True)[0]
        a = areas[:, None, None]
        st['t'], st['exact'] = sparse(np.asarray(b['sigma_g'], dtype='f8') * a * s['mb'] * s['cb'], 16, (s['nm'], s['nc'], s['nz']))
        v = np.asarray(b['sigma_lng'], dtype='f8') * a * s['mb'] * LNB
        st['lnok'] = v.shape == (s['nm'], NLN, s['nz'])
        if st['lnok']:
            q = np.round(v * 400).astype(int)
            st['ln'] = [[int(x) for x in i] + [int(q[tuple(i)])] for i in np.argwhere(q != 0)]
        st['area'] = bool(np.allclose(b['areas'], areas, rtol=1e-5))
        st['heads'] = bool(np.allclose(b['zbins'], zb, atol=1e-6) and np.allclose(b['refmagbins'], MAG0 + s['mb'] * np.arange(s['nm']), atol=1e-5) and np.allclose(b['chisqbins'], s['cb'] * np.arange(s['nc']), atol=1e-5)
                           and np.allclose(b['zrange'], [s['z0'], s['zhi']]) and np.allclose(b['refmagrange'], [MAG0, s['lim']]) and np.allclose(b['chisqrange'], [0, s['chimax']])
                           and np.allclose([b['zbinsize'], b['chisqbinsize'], b['refmagbinsize']], [s['dz'], s['cb'], s['mb']]))
    steps = [st]
    if pixelized:
        sz = dict(op='zgen', res=rz, nm=s['nm'], nz=s['nzr'], gals=[dict(m=int(w['m4'][i]), z=int(w['z4'][i]), ok=bool(w['zok'][i])) for i in range(w['ng']) if w['reg'][i]], t=[], shape=False, both=False)
        if rz == 'ok':
            b = fitsio.read(c.bkgfile, ext='ZREDBKG', lower=True)[0]
            v = np.asarray(b['sigma_g'], dtype='f8') * areas[:, None] * s['mb'] * s['zrb']
            sz['shape'] = v.shape == (s['nm'], s['nzr'])
            if sz['shape']:
                q = np.round(v * 1000).astype(int)
                sz['t'] = q.tolist()
            with fitsio.FITS(c.bkgfile) as f:
                sz['both'] = {'CHISQBKG', 'ZREDBKG'} == {e.get_extname() for e in f[1:]}
        steps.append(sz)
        out.count('zred backgrounds')
    out.count('chisq backgrounds')
    out.count('unpixelised', not pixelized)
    out.count('sub-regions', sub)
    out.count('galaxies', int(w['reg'].sum()))
    out.add('gen%d' % k, steps)
    cleanup(d)


def ext_hash(fn):
    h = {}
    if os.path.exists(fn):
        with fitsio.FITS(fn) as f:
            for e in f[1:]:
                nm = e.get_extname()
                h[nm] = h.get(nm, '') + hashlib.md5(e.read().tobytes()).hexdigest()
    return h


def history(k, r, out):
    """Runs one after another over surveys that change in between."""
    s = setups(r)
    s['nz'], s['dz'], s['zhi'] = 2, 0.02, s['z0'] + 0.04
    s['area'] = 10.0
    lo, hi = zrsetup(s)
    s['nzr'], s['zr0'], s['zrb'] = 5, lo, (hi - lo) / 5
    if int(np.ceil((hi - lo) / s['zrb'])) != 5:
        s['zrb'] = np.nextafter(s['zrb'], 1)
    d = fresh('c28h')
    steps = [dict(op='start')]
    seen = {}
    with quiet():
        for j in range(int(r.randint(2, 6))):
            w = survey(r, d, s, True, True)
            c = configure(s, d, True, 1, False)
            c.d.hpix, c.d.nside = [], 0
            Script.cur = dict(z0=s['z0'], dz=s['dz'], nz=s['nz'], chi=w['chi'])
            kind = 'C' if r.randint(2) else 'Z'
            cl = bool(r.randint(3) == 0)
            # what this survey gives on its own
            keep = c.bkgfile
            c.bkgfile = os.path.join(d, 'alone.fit')
            G = BackgroundGenerator if kind == 'C' else ZredBackgroundGenerator
            guard(lambda: G(c).run(clobber=True))
            alone = ext_hash(c.bkgfile)
            c.bkgfile = keep
            res = guard(lambda: G(c).run(clobber=cl))[0]
            now = ext_hash(c.bkgfile)
            nm = dict(C='CHISQBKG', Z='ZREDBKG')
            num = lambda x: 0 if not x else seen.setdefault(x, len(seen) + 1)      # noqa: E731
            steps.append(dict(op='run', res=res, kind=kind, clobber=cl, fresh=num(alone.get(nm[kind], '')), c=num(now.get('CHISQBKG', '')), z=num(now.get('ZREDBKG', '')), other=len([x for x in now if x not in nm.values()])))
    out.count('histories')
    out.add('hist%d' % k, steps)
    cleanup(d)


def write_table(fn, ext, d):
    dt = [(k, 'f4', np.shape(v)) if np.ndim(v) else (k, 'f4') for k, v in d.items()]
    a = np.zeros(1, dtype=dt)
    for k, v in d.items():
        a[k] = v
    fitsio.write(fn, a, extname=ext, clobber=False)


def lookups(k, r, out):
    """Look-ups in backgrounds with whole numbers in them; between the nodes in twentieths."""
    d = fresh('c28l')
    fn = os.path.join(d, 'b.fit')
    nm, nz = int(r.choice([3, 6])), int(r.choice([2, 4]))
    cb = float(r.choice([0.5, 0.5, 1.0, 2.0]))
    nc = int(r.choice([3, 8, 40]))
    if nc == 40:
        nm, nz, cb = 3, 2, 0.5
    nl = 40
    top = [0, 1, 5, 200]
    T = r.choice(top, size=(nm, nc, nz), p=[.2, .2, .3, .3])
    if r.randint(3):
        T[:int(r.randint(1, nm + 1))] = 0
    L = r.randint(0, 100, size=(nm, nl, nz))
    z0 = float(r.choice([0.1, 0.3]))
    zb, mb = 0.02, 0.2
    write_table(fn, 'CHISQBKG', dict(zbins=z0 + zb * np.arange(nz), zrange=[z0, z0 + zb * nz], zbinsize=zb, chisqbins=cb * np.arange(nc), chisqrange=[0.0, cb * nc], chisqbinsize=cb, lnchisqbins=LN0 + LNB * np.arange(nl), lnchisqrange=[LN0, 6.0],
                                     lnchisqbinsize=LNB, areas=np.ones(nm), refmagbins=MAG0 + mb * np.arange(nm), refmagrange=[MAG0, MAG0 + mb * nm], refmagbinsize=mb, sigma_g=T, sigma_lng=L))
    nzr = int(r.choice([3, 6]))
    Z = r.choice([1, 5, 200], size=(nm, nzr))
    zrb = 0.01
    write_table(fn, 'ZREDBKG', dict(zredbins=z0 + zrb * np.arange(nzr), zredrange=[z0, z0 + zrb * nzr], zredbinsize=zrb, refmagbins=MAG0 + mb * np.arange(nm), refmagrange=[MAG0, MAG0 + mb * nm], refmagbinsize=mb, areas=np.ones(nm), sigma_g=Z))
    box = {}

    def load():
        box['b'] = Background(fn)
        box['z'] = ZredBackground(fn)
    res = guard(load)[0]
    steps = []
    fc = int(round(cb / 0.5))
    st = dict(op='look', res=res, T=T.tolist(), fc=fc, q=[], nsum=True, lnnode=True)
    if res == 'ok':
        b = box['b']
        qs = []
        ngrp = 8
        for g in range(ngrp):
            zi = int(r.randint(0, 20 * nz - 1))        # twentieths of a redshift cell
            zq = z0 + zb * zi / 20.
            if g == 0:
                zi, zq = 0, z0 - 0.01
            if g == 1:
                zi, zq = 20 * nz - 20, z0 + zb * nz + 0.05
            m = 12
            mi = r.randint(0, 20 * nm - 1, size=m)
            ci = r.randint(0, fc * nc, size=m)
            node = r.uniform(size=m) < 0.4
            mi[node] = mi[node] // 20 * 20
            mag = MAG0 + mb * (mi + 0.5) / 20.
            chi = 0.5 * (ci + 0.5)
            zero = r.uniform(size=m) < 0.15
            ci[zero], chi[zero] = 0, 0.0
            bad = r.randint(8, size=m)
            mag[bad == 0] = MAG0 - 0.05
            mag[bad == 1] = MAG0 + mb * nm + 0.05
            chi[bad == 2] = -0.5
            chi[bad == 3] = cb * nc + 0.7
            a0 = bool(r.randint(2))
            many = bool(r.randint(2))
            ans = guard_value(lambda: b.sigma_g_lookup(np.full(m, zq) if many else zq, chi.copy(), mag.copy(), allow0=a0))
            if ans is None or np.shape(ans) != (m,):
                ans = np.full(m, np.nan)
            for i in range(m):
                v = float(ans[i])
                qs.append(dict(z=zi, c=int(ci[i]), m=int(mi[i]), out=bool(bad[i] < 4), allow0=a0, inf=bool(np.isinf(v)), v=scaled(v, 100) if np.isfinite(v) else -1))
        st['q'] = qs
        # total over chisq, and the logarithmic table at its nodes
        st['nsum'] = bool(b.n.shape == (b.refmagbins.size, b.zbins.size) and np.allclose(b.n, b.sigma_g.sum(axis=1) * 0.5, rtol=1e-4, atol=1e-4))
        ok = b.sigma_lng.shape == (b.refmagbins.size, nl, b.zbins.size)
        if ok:
            for i in range(nm):
                for j in range(nz):
                    ok = ok and np.allclose(b.sigma_lng[20 * i, :, 20 * j], L[i, :, j], atol=0.05)
        st['lnnode'] = bool(ok)
        zq = []
        for g in range(30):
            zi, mi = int(r.randint(0, 10 * (nzr - 1) + 1)), int(r.randint(0, 20 * (nm - 1) + 1))
            if r.randint(3) == 0:
                zi, mi = zi // 10 * 10, mi // 20 * 20
            zz, mag = z0 + zrb * (zi + 0.5) / 10., MAG0 + mb * (mi + 0.5) / 20.
            o = r.randint(10)
            if o == 0:
                zz = z0 - 0.01
            if o == 1:
                mag = MAG0 - 0.05
            ans = guard_value(lambda: box['z'].sigma_g_lookup(np.array([zz]), np.array([mag])))
            v = float(np.atleast_1d(ans)[0]) if ans is not None else float('nan')
            zq.append(dict(z=zi, m=mi, out=bool(o < 2), inf=bool(np.isinf(v)), v=scaled(v, 100) if np.isfinite(v) else -1))
        steps.append(st)
        steps.append(dict(op='zlook', T=Z.tolist(), q=zq))
        out.count('look-ups', len(qs) + len(zq))
    else:
        steps.append(st)
    out.add('look%d' % k, steps)
    cleanup(d)


def guard_value(fn):
    return guard(fn)[1]


def main(i, nproc, out):
    RedSequenceColorPar.calculate_chisq = scripted
    for k in range(i, n(240, 2400), nproc):
        gen(k, rng(28000 + 4 * k), out)
        if k % 2 == 0:
            history(k, rng(28001 + 4 * k), out)
        lookups(k, rng(28002 + 4 * k), out)


if __name__ == '__main__':
    setup_cwd()
    preload()
    shards(main, 8)
