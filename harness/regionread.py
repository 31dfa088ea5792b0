"""C04 (regions) and C05 (zreds): reading parts of a pixelised catalogue, and attaching redshifts."""
import os
import sys
import fitsio
import hpgeom as hpg
import numpy as np
from harness.common import *   # noqa: F401,F403
from harness import ingest as I
from redmapper import GalaxyCatalog, GalaxyCatalogMaker
from redmapper.galaxy import zred_extra_dtype

TOL = 0.003       # degrees; sampling of the true boundary
SLACK = 0.5       # resolution to which the border is trimmed


def xyz(ra, dec):
    a, d = np.radians(ra), np.radians(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]).T


def distances(ra, dec, nside, hpix):
    """Distance (degrees) of every position to the union of the pixels."""
    best = np.full(ra.size, 180.0)
    v = xyz(ra, dec)
    for p in hpix:
        bra, bdec = hpg.boundaries(nside, int(p), step=max(64, 2048 // nside), lonlat=True, nest=False)
        b = xyz(np.asarray(bra), np.asarray(bdec))
        c = np.clip((v @ b.T).max(axis=1), -1, 1)
        best = np.minimum(best, np.degrees(np.arccos(c)))
    return best


def around(r, m, nside, pix, spread):
    """Positions in and around a sky pixel."""
    bra, bdec = hpg.boundaries(nside, int(pix), step=16, lonlat=True, nest=False)
    bra, bdec = np.asarray(bra), np.asarray(bdec)
    ra, dec = np.zeros(m), np.zeros(m)
    for i in range(m):
        u = r.randint(4)
        if u == 0:
            sub = hpg.ring_to_nest(nside, int(pix)) * 256 + r.randint(256)
            ra[i], dec[i] = hpg.pixel_to_angle(nside * 16, sub, nest=True)
        else:
            j = r.randint(bra.size)
            d = spread * r.uniform(0, 1) * (1 if u == 1 else 0.5)
            th = r.uniform(0, 2 * np.pi)
            dec[i] = np.clip(bdec[j] + d * np.sin(th), -89.999, 89.999)
            ra[i] = (bra[j] + d * np.cos(th) / max(0.02, np.cos(np.radians(dec[i])))) % 360.
    return ra, dec


def write_zreds(d, base, nsamp, r, missing=(), truth=None):
    """Redshift files by hand: one row per galaxy, marked with the galaxy."""
    t = fitsio.read(os.path.join(d, base + '_master_table.fit'), ext=1, lower=True)
    names = []
    z = {}
    for p, f in zip(np.atleast_1d(t['hpix'][0]), np.atleast_1d(t['filenames'][0])):
        f = f.decode() if isinstance(f, bytes) else str(f)
        g = np.atleast_1d(fitsio.read(os.path.join(d, f.strip()), ext=1, lower=True))
        a = np.zeros(g.size, dtype=zred_extra_dtype(nsamp))
        a['ZRED'] = g['ebv'] + 0.25
        a['ZRED_E'] = g['ebv'] * 2
        a['CHISQ'] = r.randint(0, 40, size=g.size)
        a['LKHD'] = -g['ebv']
        a['ZRED_SAMP'] = (g['ebv'][:, None] * 3 if nsamp > 1 else g['ebv'].reshape(a['ZRED_SAMP'].shape) * 3)
        for x, y in zip(g, a):
            z[int(x['ebv'])] = y.copy()
        nm = '%s_zreds_%07d.fit' % (base, p)
        names.append(nm)
        if int(p) not in missing:
            fitsio.write(os.path.join(d, nm), a, clobber=True)
    dt = []
    for x in t.dtype.descr:
        dt.append((('filenames', 'S%d' % (len(names[0]) + 1)) + tuple(x[2:])) if x[0] == 'filenames' else x)
    zt = np.zeros(1, dtype=dt)
    for nm in t.dtype.names:
        if nm != 'filenames':
            zt[nm] = t[nm]
    zt['filenames'][0] = names if len(names) > 1 else names[0]
    fn = os.path.join(d, base + '_zreds_master_table.fit')
    fitsio.write(fn, zt, header=[dict(name='PIXELS', value=1)], clobber=True)
    return fn, z


def regions(out, zmode, part, nproc):
    for k in range(n(120 if not zmode else 60, 1000 if not zmode else 500)):
        if k % nproc != part:
            continue
        r = rng((4000 if not zmode else 5000) + k)
        ntab = int(r.choice([2, 4, 8, 8, 16, 32, 64]))
        d = fresh('c04')
        base = 'gals'
        nreg0 = int(2**r.randint(0, int(np.log2(ntab)) + 1))
        pix0 = int(r.randint(12 * nreg0**2)) if r.randint(3) else int(r.choice([0, 1, 3, 12 * nreg0**2 - 1, 6 * nreg0**2]) % (12 * nreg0**2))
        size = 58. / nreg0
        m = int(r.choice([1, 12, 80, 250]))
        g, gids = I.batch(r, 1, m, ntab, None, False, False)
        g['ra'], g['dec'] = around(r, m, nreg0, pix0, min(size, 6.0))
        g['refmag'] = np.round(g['refmag'], 1)
        src = {int(i): x.copy() for i, x in zip(gids, g)}
        one = k == 0           # a survey that lies in one table pixel
        npx = np.unique(hpg.angle_to_pixel(ntab, g['ra'], g['dec'], nest=False)).size
        if one:
            g['ra'], g['dec'] = g['ra'][0], g['dec'][0]
            src = {int(i): x.copy() for i, x in zip(gids, g)}
        elif npx < 2:
            continue
        mk = GalaxyCatalogMaker(os.path.join(d, base), I.info(), nside=ntab)
        mk.append_galaxies(g)
        mk.finalize_catalog()
        gal = os.path.join(d, base + '_master_table.fit')
        pixes = np.unique(hpg.angle_to_pixel(ntab, g['ra'], g['dec'], nest=False))
        missing = set(int(x) for x in pixes[r.uniform(size=pixes.size) < 0.25]) if r.randint(2) else set()
        nsamp = int(r.choice([1, 4]))
        zfile, zrow = write_zreds(d, base, nsamp, r, missing)
        gpix = hpg.angle_to_pixel(ntab, g['ra'], g['dec'], nest=False)
        zcols = [x.lower() for x in next(iter(zrow.values())).dtype.names]
        steps = [dict(op='sky', n=m, ntab=ntab)]
        for q in range(6):
            kind = int(r.randint(8))
            nreg, hp, border, refuse = nreg0, [pix0], 0.0, False
            if kind == 0:
                hp, nreg = [], 0
            elif kind == 1:
                hp = sorted(set(int(x) for x in np.append(r.choice(12 * nreg0**2, size=min(5, 12 * nreg0**2), replace=False), pix0)))
                r.shuffle(hp)
            elif kind == 2:
                nreg = ntab
                hp = [int(gpix[r.randint(m)])]
            elif kind == 3 and r.randint(2):
                nreg, refuse = ntab * 2, True
                hp = [0]
            elif kind == 4 and r.randint(4) == 0:
                hp, refuse = [int(r.choice([-1, 12 * nreg0**2]))], True
            if len(hp) == 1 and not refuse and r.randint(4):
                border = float(r.choice([0.1, 0.5, 1.0, 2.0, 4.0])) if nreg >= 8 else float(r.choice([0.1, 0.3, 1.0]))
                if nreg <= 2:
                    border = min(border, 0.3)
            elif len(hp) > 1 and r.randint(5) == 0:
                border, refuse = 1.0, True      # a border around a list of pixels is not supported
            zred = bool(zmode or r.randint(3) == 0)
            cut = bool(r.randint(3) == 0)
            lo, hi, cmax = (float(np.round(r.uniform(14, 17), 1)) + 0.05, float(np.round(r.uniform(18, 22), 1)) + 0.05, float(r.choice([5., 20., 100.]))) if cut else (0, 0, 0)
            kw = dict(nside=nreg, hpix=hp[0] if len(hp) == 1 and r.randint(4) == 0 else hp, border=border)
            if zred:
                kw['zredfile'] = zfile
            kt = dict(kw, use_tempfile=True)
            if cut:
                kt.update(refmag_range=[lo, hi], chisq_max=cmax)
            if len(hp):
                inside = np.isin(hpg.angle_to_pixel(nreg, g['ra'], g['dec'], nest=False), hp) if not refuse else np.zeros(m, dtype=bool)
                dist = distances(g['ra'], g['dec'], nreg, hp) if border > 0 and not refuse else np.full(m, 99.)
            else:
                inside, dist = np.ones(m, dtype=bool), np.zeros(m)
            rows = [dict(gid=int(gids[i]), inside=bool(inside[i]), dist=int(dist[i] * 1000), refmag=int(round(float(g['refmag'][i]) * 100)),
                         chisq=int(zrow[int(gids[i])]['CHISQ']), z=bool(int(gpix[i]) not in missing)) for i in range(m)]
            res, cat = guard(GalaxyCatalog.from_galfile, gal, **kw)
            rest, catt = guard(GalaxyCatalog.from_galfile, gal, **kt)
            for mode, rr, cc, cu in (('plain', res, cat, False), ('temp', rest, catt, cut)):
                ret, same, zsame, agree = [], True, True, True
                if rr == 'ok':
                    cc = cc._ndarray
                    if not set(g.dtype.names) <= set(cc.dtype.names) or (zred and not set(zcols) <= set(cc.dtype.names)):
                        same, cc = False, cc[:0]      # columns are missing
                    ret = [int(x) for x in cc['ebv']] if same else []
                    for x in cc:
                        s = src.get(int(x['ebv']))
                        if s is None:
                            same = False
                            continue
                        for nm in s.dtype.names:
                            same &= bool(np.array_equal(x[nm], s[nm]))
                        if zred:
                            zz = zrow[int(x['ebv'])]
                            for nm in zz.dtype.names:
                                zsame &= bool(np.array_equal(np.ravel(x[nm.lower()]), np.ravel(zz[nm])))
                    if mode == 'temp' and res == 'ok' and same:
                        c0 = cat._ndarray
                        want = c0
                        if cut:
                            u = (c0['refmag'] > lo) & (c0['refmag'] < hi)
                            if zred:
                                u &= c0['chisq'] < cmax
                            want = c0[u]
                        agree = sorted(ret) == sorted(int(x) for x in want['ebv'])
                elif mode == 'temp':
                    agree = True
                steps.append(dict(op='read', mode=mode, res=rr, refuse=refuse, ret=ret, same=bool(same), zsame=bool(zsame), agree=bool(agree), gals=rows,
                                  q=dict(region=bool(len(hp) > 0), border=int(border * 1000), tol=int(TOL * 1000), slack=int(SLACK * 1000), cut=cu,
                                         lo=int(round(lo * 100)), hi=int(round(hi * 100)), cmax=int(cmax), zred=zred)))
                out.count('reads')
        out.add('onepixel' if one else 'reg%03d' % k, steps)


def fields(a, names):
    return tuple(np.asarray(a[nm]).ravel().astype('f8').tobytes() for nm in names)


def zreds(out, part, nproc):
    """The redshift runners: every way of splitting the work."""
    from redmapper import Configuration, RedSequenceColorPar, ZredColor, ZredRunCatalog, ZredRunPixels
    r = rng(55)
    tab = fitsio.read('data_for_tests/pixelized_dr8_test/dr8_test_galaxies_master_table.fit', ext=1, lower=True)
    pool = np.concatenate([fitsio.read(os.path.join('data_for_tests/pixelized_dr8_test', (f.decode() if isinstance(f, bytes) else f)), ext=1, lower=True)
                           for f in np.atleast_1d(tab['filenames'][0])[:3]])
    # a red sequence whose redshift corrections depend on the galaxy's magnitude
    with fitsio.FITS('data_for_tests/test_dr8_pars.fit') as f:
        par, ph = f[1].read(), f[1].read_header()
    for nm, v in (('CORR', 0.01), ('CORR_SLOPE', 0.004), ('CORR2', -0.012), ('CORR2_SLOPE', 0.003)):
        if nm in par.dtype.names:
            par[nm] = v * np.linspace(0.5, 1.5, par[nm].shape[-1])
    for nm in ('CORR_R', 'CORR2_R'):
        if nm in par.dtype.names:
            par[nm] = np.linspace(0.8, 1.3, par[nm].shape[-1])
    fitsio.write('pars.fit', par, header=ph, clobber=True)
    zc = ZredColor(RedSequenceColorPar('pars.fit'))
    names = ['zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq']
    pool = pool[r.choice(pool.size, size=80, replace=False)]
    pool['ebv'] = np.arange(80) + 1
    pool['refmag'][3] = 30.0          # no redshift can be computed
    nmag = pool['mag'].shape[1]
    # each galaxy alone
    alone = {}
    for x in pool:
        gc = GalaxyCatalog(np.atleast_1d(x).copy())
        gc.add_zred_fields(1)
        zc.compute_zreds(gc)
        alone[int(x['ebv'])] = np.array([float(gc._ndarray[nm][0]) for nm in names])
    A = np.array([alone[i] for i in range(1, 81)])
    # where the redshift samples of each galaxy can lie
    np.random.seed(99)
    gc = GalaxyCatalog(pool.copy())
    gc.add_zred_fields(400)
    zc.compute_zreds(gc)
    slo, shi = gc.zred_samp.min(axis=1) - 0.06, gc.zred_samp.max(axis=1) + 0.06

    def match(zr):
        o = []
        for x in zr:
            v = np.array([float(x[nm]) for nm in names])
            ok = np.all(np.isclose(A, v, rtol=1e-4, atol=1e-5, equal_nan=True), axis=1)
            sm = np.atleast_1d(x['zred_samp'])
            ok &= (sm.min() >= slo) & (sm.max() <= shi)
            o.append([int(i + 1) for i in np.where(ok)[0]])
        return o
    import yaml
    y0 = yaml.safe_load(open('data_for_tests/testconfig.yaml'))
    for k in range(n(42, 300)):
        if k % nproc != part:
            continue
        r = rng(5500 + k)
        d = fresh('c05')
        ncpu = int(r.choice([1, 2, 3, 4, 8]))
        m = int(r.choice([1, 2, 3, 5, 7, 10, 17, 30]))
        g = pool[r.permutation(80)[:m]].copy()
        g['id'] = np.arange(m) + 1
        y = dict(y0, parfile=os.path.abspath('pars.fit'), outpath=d, calib_nproc=ncpu, zred_nsamp=int(r.choice([1, 4])), zredfile=os.path.join(d, 'z', 'gals_zreds_master_table.fit'))
        y.pop('hpix', None)
        if k % 2 == 0:
            fitsio.write(os.path.join(d, 'g.fit'), g)
            nper = [None, 1, 2, 3, m, m + 5][r.randint(6)]
            mx = int(r.choice([1, 2, 4, 500000]))
            with open(os.path.join(d, 'c.yml'), 'w') as f:
                yaml.safe_dump(y, f)

            def call():
                ZredRunCatalog(Configuration(os.path.join(d, 'c.yml'))).run(os.path.join(d, 'g.fit'), os.path.join(d, 'o.fit'), nperproc=nper, maxperproc=mx)
            res, _ = guard(call)
            zr = np.atleast_1d(fitsio.read(os.path.join(d, 'o.fit'), ext=1, lower=True)) if os.path.isfile(os.path.join(d, 'o.fit')) else []
            files = [dict(gids=[int(x) for x in g['ebv']], rows=match(zr))]
            have = want = [0]
            tableok = True
        else:
            nt = int(r.choice([2, 4, 8]))
            g['ra'], g['dec'] = I.positions(r, nt, m, r.choice(12 * nt * nt, size=3))
            g2 = np.zeros(m, dtype=GalaxyCatalogMaker.get_galaxy_dtype(nmag))
            for nm in g2.dtype.names:
                g2[nm] = g[nm]
            mk = GalaxyCatalogMaker(os.path.join(d, 'gal', 'gals'), dict(LIM_REF=21.0, REF_IND=3, AREA=100.0, NMAG=nmag, MODE='SDSS', ZP=22.5, U_IND=0, G_IND=1, R_IND=2, I_IND=3, Z_IND=4), nside=nt)
            mk.append_galaxies(g2)
            mk.finalize_catalog()
            gt = os.path.join(d, 'gal', 'gals_master_table.fit')
            t = fitsio.read(gt, ext=1, lower=True)
            hp = np.atleast_1d(t['hpix'][0])
            if hp.size < 2:
                continue
            y.update(galfile=gt)
            want = [int(x) for x in hp]
            nreg, reg = 0, []
            if r.randint(2):
                nreg = int(r.choice([1, 2]))
                ra, dec = hpg.pixel_to_angle(nt, hp, nest=False)
                big = hpg.angle_to_pixel(nreg, ra, dec, nest=False)
                reg = [int(big[r.randint(big.size)])]
                want = [int(p) for p, b in zip(hp, big) if b == reg[0]]
                y.update(hpix=reg, nside=nreg, border=0.0)
            with open(os.path.join(d, 'c.yml'), 'w') as f:
                yaml.safe_dump(y, f)
            single = bool(r.randint(2))
            res, _ = guard(lambda: ZredRunPixels(Configuration(os.path.join(d, 'c.yml'))).run(single_process=single))
            files, have = [], []
            for i, p in enumerate(hp):
                zf = os.path.join(d, 'z', 'gals_zreds_%07d.fit' % p)
                if os.path.isfile(zf):
                    have.append(int(p))
                    gg = np.atleast_1d(fitsio.read(os.path.join(d, 'gal', 'gals_%07d.fit' % p), ext=1, lower=True))
                    files.append(dict(gids=[int(x) for x in gg['ebv']], rows=match(np.atleast_1d(fitsio.read(zf, ext=1, lower=True)))))
            tableok = False
            zt = os.path.join(d, 'z', 'gals_zreds_master_table.fit')
            if os.path.isfile(zt):
                a = fitsio.read(zt, ext=1, lower=True)
                nm = [x.decode() if isinstance(x, bytes) else str(x) for x in np.atleast_1d(a['filenames'][0])]
                tableok = bool(np.array_equal(a['hpix'], t['hpix']) and len(nm) == hp.size and
                               all((nm[i].strip() == 'gals_zreds_%07d.fit' % hp[i]) if int(hp[i]) in want else nm[i].strip() == '' for i in range(hp.size)) and
                               all(int(np.atleast_1d(a['ngals'][0])[i]) == (int(np.atleast_1d(t['ngals'][0])[i]) if int(hp[i]) in want else 0) for i in range(hp.size)))
                if res == 'ok':
                    rr, cat = guard(GalaxyCatalog.from_galfile, gt, zredfile=zt, nside=nreg, hpix=reg, border=0.0)
                    if rr != 'ok' or len(cat) != sum(len(f['gids']) for f in files):
                        tableok = False
                    else:
                        mm = match(cat._ndarray)
                        files.append(dict(gids=[int(x) for x in cat._ndarray['ebv']], rows=mm))
        out.add('zr%03d' % k, [dict(op='zred', res=res, files=files, have=have, want=want, tableok=bool(tableok))])
        out.count('zred_runs')


def main():
    setup_cwd()
    if sys.argv[1] == 'region':
        shards(lambda i, nproc, out: regions(out, False, i, nproc), 7)
    else:
        def both(i, nproc, out):
            regions(out, True, i, nproc)
            zreds(out, i, nproc)
        shards(both, 7)


if __name__ == "__main__":
    main()
