"""C20: generating randoms on scripted volume-limit maps, weighting them, and building volume-limit maps from depth maps."""
import glob
import os
import fitsio
import healsparse
import hpgeom as hpg
import yaml
from harness.common import *   # noqa: F401,F403

KEEP = {}


def preload():
    from redmapper import Configuration, RedSequenceColorPar
    setup_cwd()
    c = Configuration('data_for_tests/testconfig.yaml')
    KEEP['rs'] = RedSequenceColorPar(c.parfile, fine=True)
    # reading the red sequence takes longer than everything else
    from redmapper import volumelimit as m
    if getattr(m, 'RedSequenceColorPar', None) is RedSequenceColorPar:
        m.RedSequenceColorPar = lambda f, *a, **k: KEEP['rs'] if f == c.parfile else RedSequenceColorPar(f, *a, **k)


def config(d, **kw):
    from redmapper import Configuration
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(dict(outpath=d, outbase='t', nside=0, hpix=[], border=0.0, zrange=[0.05, 0.60], vlim_depthfiles=[], vlim_bands=[], vlim_nsigs=[], vlim_lstar=0.2, select_scaleval=False, max_maskfrac=0.2,
                  area_finebin=0.01, area_coarsebin=0.01, area_nodesize=0.05, galfile_nside=8), **kw)
    with open(d + '/conf.yml', 'w') as f:
        yaml.safe_dump(y, f)
    return Configuration(d + '/conf.yml')


def patch(r, nmap, npix, ncov):
    """A patch of map pixels around a random place."""
    ra, dec = float(r.uniform(0, 360)), float(r.choice([0., 30., -45., 80., 89.5]) + r.uniform(-5, 0.4))
    if r.randint(3) == 0:
        ra = 0.01
    p = hpg.query_circle(nmap, ra, dec, 180. / np.pi / nmap * np.sqrt(npix) * 0.6 + 60. / nmap)
    return np.unique(r.choice(p, size=min(npix, p.size), replace=False))


def generate(k, r, out):
    from redmapper import GenerateRandoms, VolumeLimitMask, RandomCatalog, ClusterCatalog
    from redmapper.randoms import RandomCatalogMaker
    d = fresh('c20')
    nmap = int(r.choice([16, 32, 64, 128]))
    pix = patch(r, nmap, int(r.randint(2, 60)), 4)
    f4 = np.full(pix.size, 4) if r.randint(3) == 0 else r.choice([0, 1, 2, 4], size=pix.size)
    f4[r.randint(pix.size)] = 4
    zb = r.choice([15, 25, 35, 45], size=pix.size) if r.randint(3) else np.full(pix.size, 45)
    zb[np.where(f4 == 4)[0][0]] = 45
    vm = healsparse.HealSparseMap.make_empty(4, nmap, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
    v = np.zeros(pix.size, dtype=vm.dtype)
    v['fracgood'], v['zmax'] = f4 / 4., zb / 100.
    vm.update_values_pix(pix, v)
    vm.write(d + '/v.fit')
    nc = int(r.choice([1, 2, 5, 30]))
    cat = np.zeros(nc, dtype=[('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f4'), ('Z_LAMBDA', 'f4'), ('RA', 'f8'), ('DEC', 'f8')])
    cat['MEM_MATCH_ID'] = r.choice(np.arange(1, 1000), size=nc, replace=False)
    cz = r.randint(10, 45, size=nc)
    cl = (10 + np.arange(nc)) * int(r.choice([1, 1, 9]))
    cat['LAMBDA'], cat['Z_LAMBDA'] = cl, cz / 100.
    fitsio.write(d + '/cat.fit', cat)
    c = config(d, randfile=d + '/r/rand_master_table.fit', catfile=d + '/cat.fit', galfile_nside=int(r.choice([2, 8, 32])))
    os.makedirs(d + '/r')
    nr = int(r.choice([1, 3, 40, 250, 900]))
    if k % 15 == 7:
        nr = 4000
    res, vl = guard(VolumeLimitMask, c, 0.2, vlimfile=d + '/v.fit')
    gen = None
    if res == 'ok':
        res, gen = guard(GenerateRandoms, c, vlim_mask=vl)
    if res == 'ok':
        res, _ = guard(gen.generate_randoms, nr, rng=np.random.RandomState(k))
    ev = dict(op='generate', res=res, n=nr, cl=[dict(id=int(a), lam=int(b), z=int(z)) for a, b, z in zip(cat['MEM_MATCH_ID'], cl, cz)], rows=[], want4=0, part4=0, inpart=0, regok=True)
    if res == 'ok':
        # a catalogue of a single file cannot be read back (known finding of C04)
        files = sorted(glob.glob(d + '/r/rand_0*.fit'))
        if len(files) == 1:
            res, rc = guard(lambda: RandomCatalog(fitsio.read(files[0], ext=1, lower=True)))
        else:
            res, rc = guard(RandomCatalog.from_randfile, c.randfile)
        ev['res'] = res
        ev['files'] = len(files)
    if res == 'ok':
        look = {int(p): (int(f), int(z)) for p, f, z in zip(pix, f4, zb)}
        pp = hpg.angle_to_pixel(nmap, rc.ra, rc.dec)
        rows = []
        for i in range(rc.size):
            f, z = look.get(int(pp[i]), (-1, -1))
            rows.append(dict(id=int(rc.id[i]), src=int(rc.id_input[i]), z=scaled(rc.z[i], 100), lam=scaled(rc.Lambda[i], 1), f=f, zmax=z))
        ev['rows'] = rows
        out.count('randoms', len(rows))
        out.count('randoms in partly covered pixels', sum(1 for q in rows if q['f'] in (1, 2)))
        # where every cluster fits everywhere the density follows the coverage
        if zb.min() > cz.max() and nr >= 200:
            part = f4 < 4
            ev['want4'], ev['part4'], ev['inpart'] = int(f4.sum()), int(f4[part].sum()), int(sum(1 for q in rows if q['f'] < 4))
            out.count('density', int(part.any()))
        # reading by region
        ns = 4
        rp = hpg.angle_to_pixel(ns, rc.ra, rc.dec, nest=False)
        got = []
        ok = True
        if len(files) > 1:
            for p in np.unique(rp):
                res, sub = guard(RandomCatalog.from_randfile, c.randfile, nside=ns, hpix=[int(p)])
                if res != 'ok':
                    ok = False
                    break
                got += [int(x) for x in sub.id]
                ok &= bool(np.all(hpg.angle_to_pixel(ns, sub.ra, sub.dec, nest=False) == p))
        else:
            got = [int(x) for x in rc.id]
        ev['regok'] = bool(ok and sorted(got) == sorted(int(x) for x in rc.id))
        # the randoms split again into another catalogue
        os.makedirs(d + '/s', exist_ok=True)
        res, mk = guard(RandomCatalogMaker, d + '/s/rand2', {}, nside=int(r.choice([4, 16])))
        if res == 'ok':
            res, _ = guard(mk.split_randoms, rc._ndarray)
        steps2 = dict(op='split', res=res, same=False)
        if res == 'ok':
            files = sorted(glob.glob(d + '/s/rand2_0*.fit'))
            if len(files) == 1:
                res, r2 = guard(lambda: RandomCatalog(fitsio.read(files[0], ext=1, lower=True)))
            else:
                res, r2 = guard(RandomCatalog.from_randfile, d + '/s/rand2_master_table.fit')
            steps2['res'] = res
        if res == 'ok':
            a, b = np.sort(rc._ndarray, order='id'), np.sort(r2._ndarray, order='id')
            steps2['same'] = bool(a.size == b.size and all(np.array_equal(a[q], b[q]) for q in ('id', 'ra', 'dec', 'z', 'lambda', 'id_input')))
        out.add('gen%d' % k, [ev, steps2])
        return
    out.add('gen%d' % k, [ev])


def rows_of(fn):
    with fitsio.FITS(fn) as f:
        return f[1].read(lower=True) if len(f) > 1 and f[1].has_data() else np.zeros(0, dtype=[('ra', 'f8')])


class Areas(object):
    """A volume-limit mask of constant area."""
    def __init__(self, c, area):
        self.c, self.area = c, area

    def get_areas(self):
        from redmapper import Catalog
        z = np.arange(self.c.zrange[0], self.c.zrange[1], self.c.area_finebin)
        a = Catalog(np.zeros(z.size, dtype=[('z', 'f4'), ('area', 'f4')]))
        a.z = z
        a.area = self.area
        return a


def weigh(k, r, out):
    from redmapper import RandomWeigher, Catalog, ClusterCatalog
    d = fresh('c20w')
    nc = int(r.choice([1, 3, 12]))
    ids = r.choice(np.arange(1, 400), size=nc, replace=False)
    clam, csc, cz = r.randint(5, 60, size=nc), r.choice([1, 1, 2], size=nc), r.choice([8, 20, 29, 35, 56, 57], size=nc)
    cat = np.zeros(nc, dtype=[('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('Z_LAMBDA', 'f4')])
    cat['MEM_MATCH_ID'], cat['LAMBDA'], cat['SCALEVAL'], cat['Z_LAMBDA'] = ids, clam, csc, cz / 100.
    fitsio.write(d + '/cat.fit', cat)
    nr = int(r.choice([1, 8, 60, 300]))
    src = r.randint(nc, size=nr)
    stray = r.randint(12) == 0
    rc = np.zeros(nr, dtype=[('ID_INPUT', 'i4'), ('Z', 'f4'), ('LAMBDA_IN', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('RA', 'f8'), ('DEC', 'f8')])
    rsc, rmf = r.choice([1, 1, 2, 4], size=nr), r.choice([0, 5, 19, 21, 50], size=nr, p=[.5, .1, .15, .15, .1])
    rlam = clam[src].copy()
    wob = r.randint(4) == 0
    if wob:
        rlam = np.maximum(1, rlam + r.choice([-10, 0, 0, 10], size=nr))
    rc['ID_INPUT'], rc['Z'], rc['LAMBDA_IN'], rc['SCALEVAL'], rc['MASKFRAC'] = ids[src], cz[src] / 100. + 0.005, rlam, rsc, rmf / 100.
    if stray:
        rc['ID_INPUT'][r.randint(nr)] = 999
    rc['RA'], rc['DEC'] = np.arange(nr) / 10., -np.arange(nr) / 100.
    fitsio.write(d + '/rand.fit', rc)
    ss = bool(r.randint(2))
    c = config(d, catfile=d + '/cat.fit', select_scaleval=ss)
    c.select_scaleval, c.max_maskfrac = ss, 0.2
    res, w = guard(RandomWeigher, c, d + '/rand.fit', vlim_mask=Areas(c, 50.0))
    cl = [dict(id=int(a), lam=int(b), sc=int(s), z=int(z)) for a, b, s, z in zip(ids, clam, csc, cz)]
    rows = [dict(src=int(rc['ID_INPUT'][i]), z=int(cz[src[i]]), lam=int(rlam[i]), sc=int(rsc[i]), mf=int(rmf[i])) for i in range(nr)]
    steps = [dict(op='draws', res=res, cl=cl, rows=rows, ss=ss, maxmf=20)]
    kept = []
    if res == 'ok':
        reqs = []
        for j in range(int(r.randint(1, 4))):
            zr = None if r.randint(2) else [float(x) / 100. for x in sorted(r.choice(np.arange(5, 61), size=2, replace=False))] if r.randint(3) else [float(r.choice([5, 10, 28, 29])) / 100., float(r.choice([55, 56, 57, 58])) / 100.]
            lb = None if r.randint(2) else [float(x) for x in sorted(r.choice(np.arange(0, 70), size=2, replace=False))] if r.randint(2) else [float(clam.min() - 1), float(clam.max())]
            reqs.append((float(r.choice([0, 5, 20, int(clam[0])])), zr, lb))
        if r.randint(4) == 0:
            # redshift ranges that differ by a hundredth
            j = int(r.choice([28, 29, 56, 57]))
            reqs += [(0., [0.05, x / 100.], None) for x in (j, j + 1)]
        if r.randint(4) == 0:
            # richness bins and limits that share an edge
            a = [int(x) for x in sorted(r.choice(np.arange(5, 61), size=3, replace=False))]
            reqs += [(5., None, [float(a[0]), float(a[1])]), (5., None, [float(a[0]), float(a[2])]), (5., None, [float(a[1]), float(a[2])]), (float(a[0]), None, None), (float(a[1]), None, None)]
        if r.randint(2):
            reqs.append(reqs[0])
        if r.randint(3) == 0 and nr > 1:
            # the randoms are made anew after that
            reqs += [None, reqs[0]]
        for req in reqs:
            if req is None:
                keep = np.sort(r.choice(nr, size=(nr + 1) // 2, replace=False))
                fitsio.write(d + '/rand.fit', rc[keep], clobber=True)
                res, w = guard(RandomWeigher, c, d + '/rand.fit', vlim_mask=Areas(c, 50.0))
                gone = np.ones(nr, dtype=bool)
                gone[keep] = False
                steps.append(dict(op='draws', res=res, cl=cl, rows=[dict(q, src=-1, z=-1) if gone[i] else q for i, q in enumerate(rows)], ss=ss, maxmf=20))
                kept = []
                if res != 'ok':
                    break
                continue
            ml, zr, lb = req
            res, ans = guard(w.weight_randoms, ml, **dict(([('zrange', np.array(zr))] if zr else []) + ([('lambdabin', np.array(lb))] if lb else [])))
            e = dict(op='weigh', res=res, ml=int(ml), z0=int(round(zr[0] * 100)) if zr else 5, z1=int(round(zr[1] * 100)) if zr else 60, l0=int(lb[0]) if lb else 0, l1=int(lb[1]) if lb else 1000, got=[], area=[], same=True)
            if res == 'ok':
                o = rows_of(ans[0])
                e['got'] = [dict(i=int(round(float(x['ra']) * 10)) + 1, w=scaled(x['weight'], 10000), lam=scaled(x['lambda_in'], 1), z=scaled(x['ztrue'] - 0.005, 100),
                                 ok=bool(abs(x['dec'] + x['ra'] / 10.) < 1e-9)) for x in o]
                e['area'] = [scaled(x, 100) for x in fitsio.read(ans[1], lower=True)['area']]
                kept.append((len(steps), ans[0], (ml, tuple(zr or ()), tuple(lb or ())), o))
                out.count('weighted', len(e['got']))
                out.count('requests with losses', int(len(o) < nr))
            else:
                out.count('requests refused')
            steps.append(e)
        # earlier results still hold their content unless the same was asked again
        for j, fn, key, o in kept:
            out.count('results read again')
            o2 = rows_of(fn)
            steps[j]['same'] = bool(o2.size == o.size and all(np.array_equal(o[q], o2[q]) for q in o.dtype.names))
    out.add('wt%d' % k, steps)


def area(k, r, out):
    """Draws at every redshift of which the same fraction survives everywhere."""
    from redmapper import RandomWeigher
    d = fresh('c20a')
    lam = int(r.randint(20, 40))
    cat = np.zeros(1, dtype=[('MEM_MATCH_ID', 'i4'), ('LAMBDA', 'f4'), ('SCALEVAL', 'f4'), ('Z_LAMBDA', 'f4')])
    cat['MEM_MATCH_ID'], cat['LAMBDA'], cat['SCALEVAL'], cat['Z_LAMBDA'] = 7, lam, 1.0, 0.3
    fitsio.write(d + '/cat.fit', cat)
    z = np.repeat(np.arange(0.0505, 0.60, 0.002), 4)
    q = int(r.randint(0, 5))
    rc = np.zeros(z.size, dtype=[('ID_INPUT', 'i4'), ('Z', 'f4'), ('LAMBDA_IN', 'f4'), ('SCALEVAL', 'f4'), ('MASKFRAC', 'f4'), ('RA', 'f8'), ('DEC', 'f8')])
    rc['ID_INPUT'], rc['Z'], rc['LAMBDA_IN'], rc['SCALEVAL'] = 7, z, lam, 1.0
    lost = np.arange(z.size) % 4 >= q
    how = r.randint(3)
    ss = how == 2
    if how == 0:
        rc['MASKFRAC'][lost] = 0.5
    elif how == 1:
        rc['LAMBDA_IN'][lost] = 3.0
    else:
        rc['SCALEVAL'][lost] = 10.0
    perm = r.permutation(z.size)
    fitsio.write(d + '/rand.fit', rc[perm])
    c = config(d, catfile=d + '/cat.fit', select_scaleval=ss)
    c.select_scaleval, c.max_maskfrac = bool(ss), 0.2
    lb = [float(lam - 1), float(lam)] if r.randint(2) else None
    if how == 1:
        lb = [2.0, float(lam)] if lb else None
    res, w = guard(RandomWeigher, c, d + '/rand.fit', vlim_mask=Areas(c, 50.0))
    e = dict(op='area', res=res, q=q, got=[], how=int(how), bin=bool(lb))
    if res == 'ok':
        res, ans = guard(w.weight_randoms, 5.0, **(dict(lambdabin=np.array(lb)) if lb else {}))
        e['res'] = res
        if res == 'ok':
            e['got'] = [scaled(x, 100) for x in fitsio.read(ans[1], lower=True)['area']]
    out.add('area%d' % k, [e])


def limits(rs, z, lstar):
    return np.atleast_1d(rs.mstar(z) - 2.5 * np.log10(lstar))


def bandlimit(rs, z, lstar, ref, b):
    """The magnitude in another band of the faintest galaxy on the red sequence."""
    m = limits(rs, z, lstar).astype('f8')
    zi = np.clip(np.searchsorted(rs.z, z, side='right'), 0, rs.z.size - 1)
    col = [rs.c[zi, j] + rs.slope[zi, j] * (limits(rs, z, lstar) - rs.pivotmag[zi]) for j in range(rs.c.shape[1])]
    if b < ref:
        for j in range(b, ref):
            m = m + col[j]
    else:
        for j in range(ref, b):
            m = m - col[j]
    return m


def signal(mag, lim, nsig, zp, t):
    """Significance of a magnitude where lim has significance nsig with exposure t."""
    fl = 10.**((lim - zp) / -2.5)
    noise = max(fl**2 * t / nsig**2 - fl, 0.001)
    f = 10.**((mag - zp) / -2.5)
    return f * t / np.sqrt(f * t + noise * t)


def build(k, r, out):
    from redmapper import VolumeLimitMask
    from redmapper.volumelimit import VolumeLimitMaskFixed
    d = fresh('c20v')
    rs = KEEP['rs']
    nmap, ncov = int(r.choice([32, 64])), int(r.choice([2, 8]))
    pix = patch(r, nmap, int(r.randint(3, 80)), ncov)
    zlo, zhi = [(0.05, 0.60), (0.1, 0.4), (0.2, 0.5)][r.randint(3)]
    lstar = float(r.choice([0.2, 0.5, 1.0, 5.0]))
    nb = int(r.choice([0, 0, 1, 2]))
    bands = [str(x) for x in r.choice(['u', 'g', 'r', 'z'], size=nb, replace=False)]
    f4 = r.choice([1, 2, 4], size=pix.size)
    dt = [('fracgood', 'f4'), ('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4')]

    def depth(fn, px, lo, hi):
        m = healsparse.HealSparseMap.make_empty(ncov, nmap, dtype=dt, primary='fracgood')
        v = np.zeros(px.size, dtype=dt)
        v['fracgood'] = 1.0
        v['limmag'] = r.uniform(lo, hi, size=px.size)
        v['m50'] = v['limmag']
        v['exptime'] = r.uniform(50, 500, size=px.size)
        return m, v
    lim = limits(rs, np.array([zlo, zhi]), lstar)
    m, v = depth(d + '/d.fit', pix, lim[0] - 0.5, lim[1] + 0.5)
    v['fracgood'] = f4 / 4.
    m.update_values_pix(pix, v)
    m.metadata = dict(NSIG=10.0, ZP=22.5, NBAND=1, W=10.0, EFF=1.0)
    m.write(d + '/d.fit')
    extra = []
    nsig2 = []
    order = ['u', 'g', 'r', 'i', 'z']
    for b in bands:
        px = pix[r.uniform(size=pix.size) < 0.9]
        if px.size == 0:
            px = pix[:1]
        px = np.unique(np.append(px, patch(r, nmap, 4, ncov)))
        bl = bandlimit(rs, np.array([zlo + 0.01, (zlo + zhi) / 2, zhi - 0.01]), lstar, 3, order.index(b))
        m2, v2 = depth(d + '/d_%s.fit' % b, px, bl.min() - 0.7, bl.max() + 1.0)
        m2.update_values_pix(px, v2)
        ns = float(r.choice([5.0, 10.0]))
        m2.metadata = dict(NSIG=10.0, ZP=22.5, NBAND=1, W=10.0, EFF=1.0)
        m2.write(d + '/d_%s.fit' % b)
        extra.append({int(p): (float(x['limmag']), float(x['exptime'])) for p, x in zip(px, v2)})
        nsig2.append(ns)
    c = config(d, depthfile=d + '/d.fit')
    c.zrange, c.vlim_depthfiles, c.vlim_bands, c.vlim_nsigs, c.depthfile = [zlo, zhi], [d + '/d_%s.fit' % b for b in bands], bands, nsig2, d + '/d.fit'
    region = bool(r.randint(2))
    if region:
        # the file is built by a job for a region first
        a, b_ = hpg.pixel_to_angle(nmap, pix[0])
        cr = c.copy()
        cr.d.nside, cr.d.hpix = 4, [int(hpg.angle_to_pixel(4, a, b_, nest=False))]
        guard(VolumeLimitMask, cr, lstar, vlimfile=d + '/v.fit')     # (refused when nothing of the map is in the region)
        c.d.nside, c.d.hpix = 0, []
    res, vl = guard(VolumeLimitMask, c, lstar, vlimfile=d + '/v.fit')
    ev = dict(op='build', res=res, nb=nb, rows=[], again=True)
    if res == 'ok':
        ra, dec = hpg.pixel_to_angle(nmap, pix)
        zm, fg = vl.calc_zmax(np.atleast_1d(ra), np.atleast_1d(dec), get_fracgood=True)
        vals = vl.sparse_vlimmap.get_values_pix(pix)
        bin_ = 0.001
        nz = int(np.ceil((zhi - zlo) / bin_))
        zbins = np.arange(nz) * bin_ + zlo + bin_
        for i in range(pix.size):
            here = float(zm[i])
            dep = float(v['m50'][i])
            inmap = vals['fracgood'][i] > -1
            row = dict(inmap=bool(inmap), f=scaled(fg[i], 4) if inmap else -4, want=int(f4[i]), zmax=scaled(here, 1000), lo=scaled(zbins[0], 1000), hi=scaled(zbins[-1], 1000), judged=True,
                       seenbelow=True, seenat=True, first=True)
            # one step below the maximum the faintest galaxy is seen in every band; at the maximum (unless it is the last) it is not in one of them
            def seen(z, slack):
                z = np.array([z])
                if not limits(rs, z, lstar)[0] <= dep + slack:
                    return False
                for b, e, ns in zip(bands, extra, nsig2):
                    if int(pix[i]) not in e:
                        return False
                    mag = bandlimit(rs, z, lstar, 3, order.index(b))[0]
                    if not signal(mag - slack, e[int(pix[i])][0], 10.0, 22.5, e[int(pix[i])][1]) >= ns:
                        return False
                return True
            z = here if inmap else zbins[0]
            row['seenbelow'] = bool(seen(z - bin_, 0.004)) if inmap else True
            row['seenat'] = bool(seen(z, -0.004))
            ev['rows'].append(row)
            out.count('map pixels kept' if inmap else 'map pixels left out')
            out.count('map pixels limited', int(inmap and row['zmax'] < row['hi']))
        res, vl2 = guard(VolumeLimitMask, c, lstar, vlimfile=d + '/v.fit')
        ev['again'] = bool(res == 'ok' and np.array_equal(vl2.calc_zmax(np.atleast_1d(ra), np.atleast_1d(dec)), zm))
    out.add('vlim%d' % k, [ev])


def main(part, nproc, out):
    for k in range(n(60, 400)):
        if k % nproc == part:
            generate(k, rng(20000 + k), out)
    for k in range(n(120, 1200)):
        if k % nproc == part:
            weigh(k, rng(30000 + k), out)
    for k in range(n(18, 120)):
        if k % nproc == part:
            area(k, rng(50000 + k), out)
    for k in range(n(60, 600)):
        if k % nproc == part:
            build(k, rng(40000 + k), out)


if __name__ == '__main__':
    preload()
    shards(main, 6)
