"""C19: footprint, depth and volume-limit maps read whole and for a region, areas, and conversions of the old formats."""
import fitsio
import healsparse
import hpgeom as hpg
from harness.common import *   # noqa: F401,F403
from harness.regionread import around, distances, TOL

MARK = -2000000001


def fine_pixels(r, nmap, nreg, pixs, m, spread):
    """Map pixels in and around the region."""
    ra, dec = [], []
    for p in pixs:
        a, d = around(r, m, nreg, p, spread)
        ra.append(a)
        dec.append(d)
    ra, dec = np.concatenate(ra), np.concatenate(dec)
    return np.unique(hpg.angle_to_pixel(nmap, ra, dec)), ra, dec


def sc(x, s=1000):
    return [scaled(v, s) if v > -1e20 else -1 for v in np.atleast_1d(x)]


def scenario(k, r, out, config0):
    from redmapper import DepthMap, HPMask, VolumeLimitMask
    from redmapper.catalog import Catalog
    d = fresh('c19')
    nreg = int(2**r.randint(0, 7))
    ncov = int(2**r.randint(0, 6))
    nmap = int(max(ncov, nreg) * 2**r.randint(1, 4))
    nmap = min(nmap, 512)
    border = float(r.choice([0.0, 0.0, 0.3, 1.5, 4.0]))
    nhp = 1 if border > 0 else int(r.choice([1, 1, 2, 4]))
    npix = 12 * nreg**2
    p0 = int(r.randint(npix))
    if k % 5 == 0:
        # towards a pole
        p0 = int(r.choice([0, 1, 2, 3, npix - 1, npix - 4]))
    pixs = [p0]
    if nhp > 1:
        nb = [int(x) for x in hpg.neighbors(nreg, p0, nest=False) if x >= 0]
        pixs = [p0] + [int(x) for x in r.choice(nb, size=min(nhp - 1, len(nb)), replace=False)]
        if r.randint(2):
            pixs = sorted(set(pixs + [int(r.randint(npix))]))
        pixs = list(dict.fromkeys(pixs))
    spread = min(58. / nreg, max(1.0, 2 * border))
    pix, ra0, dec0 = fine_pixels(r, nmap, nreg, pixs, 40, spread)
    if k % 5 == 0:
        pix = np.unique(np.append(pix, hpg.angle_to_pixel(nmap, [45., 135., 225., 315.] * 2, [90.] * 4 + [-90.] * 4)))
    have = pix[r.uniform(size=pix.size) < 0.8]
    if not np.any(np.isin(hpg.nest_to_ring(nreg, have >> (2 * int(np.log2(nmap // nreg)))), pixs)):
        # nothing of the map in the region itself
        q = hpg.ring_to_nest(nreg, pixs[0]) << (2 * int(np.log2(nmap // nreg)))
        have = np.unique(np.append(have, q))
    uniform = bool(r.randint(2))
    frac4 = np.full(have.size, 4) if uniform else r.choice([0, 1, 2, 3, 4, 4, 4], size=have.size)
    truth = {int(p): (int(f), 20000 + i) for i, (p, f) in enumerate(zip(have, frac4))}
    mf, df, vf = d + '/mask.fit', d + '/depth.fit', d + '/vlim.fit'
    # old format and conversion
    nest = bool(r.randint(2))
    order = r.permutation(have.size)
    op = have if nest else hpg.nest_to_ring(nmap, have)
    om = np.zeros(have.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4')])
    om['hpix'], om['fracgood'] = op[order], (frac4 / 4.)[order]
    fitsio.write(d + '/oldmask.fit', om, header=[dict(name='NSIDE', value=nmap), dict(name='NEST', value=1 if nest else 0)])
    od = np.zeros(have.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4'), ('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4')])
    od['hpix'], od['fracgood'] = op[order], (frac4 / 4.)[order]
    lim = (20000 + np.arange(have.size)) / 1000.
    od['limmag'], od['exptime'], od['m50'] = lim[order], (lim * 2)[order], (lim + 0.5)[order]
    head = dict(NSIG=[5.0, 10.0, 3.0][k % 3], ZP=[22.5, 30.0, 25.3][(k // 3) % 3], NBAND=[1, 4][k % 2], W=0.0, EFF=[1.0, 0.8][k % 2])
    fitsio.write(d + '/olddepth.fit', od, header=[dict(name='NSIDE', value=nmap), dict(name='NEST', value=1 if nest else 0)] + [dict(name=q, value=head[q]) for q in head])
    from redmapper.mask import convert_maskfile_to_healsparse
    from redmapper.depthmap import convert_depthfile_to_healsparse
    steps = []
    res, _ = guard(convert_maskfile_to_healsparse, d + '/oldmask.fit', mf, ncov)
    res2, _ = guard(convert_depthfile_to_healsparse, d + '/olddepth.fit', df, ncov)
    ev = dict(op='convert', res=res, res2=res2, want=[dict(p=p, f=truth[p][0], d=truth[p][1]) for p in sorted(truth) if truth[p][0] >= 0][:400], mask=[], depth=[], covok=True, hdrok=True)
    if res == 'ok' and res2 == 'ok':
        m1, m2 = healsparse.HealSparseMap.read(mf), healsparse.HealSparseMap.read(df)
        ev['mask'] = [dict(p=int(p), f=scaled(v, 4)) for p, v in zip(m1.valid_pixels, m1.get_values_pix(m1.valid_pixels))][:400]
        v2 = m2.get_values_pix(m2.valid_pixels)
        ev['depth'] = [dict(p=int(p), f=scaled(v['fracgood'], 4), d=scaled(v['limmag'], 1000), e=scaled(v['exptime'], 500), m=scaled(v['m50'] - 0.5, 1000)) for p, v in zip(m2.valid_pixels, v2)][:400]
        ev['covok'] = bool(m1.nside_coverage == ncov and m2.nside_coverage == ncov and m1.nside_sparse == nmap and m2.nside_sparse == nmap)
        c = config0.copy()
        c.depthfile, c.galfile_nside, c.area = df, 8, 100.0
        c.d.hpix, c.d.nside = [], 0
        rd, q = guard(DepthMap, c)
        ev['hdrok'] = bool(rd == 'ok' and np.allclose([q.nsig, q.zp, q.nband, q.w, q.eff], [head[x] for x in ('NSIG', 'ZP', 'NBAND', 'W', 'EFF')]))
    steps.append(ev)
    vm = healsparse.HealSparseMap.make_empty(ncov, nmap, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
    vv = np.zeros(have.size, dtype=vm.dtype)
    vv['fracgood'] = frac4 / 4.
    zb = np.arange(have.size) % 40
    vv['zmax'] = 0.1 + 0.01 * zb + 0.0055
    vm.update_values_pix(have, vv)
    vm.write(vf)
    if res != 'ok' or res2 != 'ok':
        out.add('m%d' % k, steps)
        return
    # positions
    m = 60
    ras, decs = [], []
    for p in pixs:
        a, b = around(r, m, nreg, p, max(border, 0.2))
        ras.append(a)
        decs.append(b)
    pa, pb = hpg.pixel_to_angle(nmap, have[r.randint(have.size, size=30)])
    over = np.where(r.randint(2, size=12) == 0, -1, 1) * r.uniform(89.9, 92, size=12)
    ras = np.concatenate(ras + [pa, r.uniform(0, 360, size=12)])
    decs = np.concatenate(decs + [pb, over])
    good = np.abs(decs) <= 90
    # positions within rounding of a pixel edge are not judged
    clear = np.ones(ras.size, dtype=bool)
    for dx, dy in ((1e-8, 0), (-1e-8, 0), (0, 1e-8), (0, -1e-8)):
        for ns in (nmap, nreg):
            cd = np.clip(decs, -90, 90)
            clear &= hpg.angle_to_pixel(ns, ras, cd) == hpg.angle_to_pixel(ns, ras + dx, np.clip(cd + dy, -90, 90))
    ras, decs, good = ras[clear], decs[clear], good[clear]
    dist = np.full(ras.size, 180.0)
    inreg = np.zeros(ras.size, dtype=bool)
    inreg[good] = np.isin(hpg.angle_to_pixel(nreg, ras[good], decs[good], nest=False), pixs)
    dist[good] = distances(ras[good], decs[good], nreg, pixs)
    mustsee = inreg | (dist < border - TOL)
    pixof = np.full(ras.size, -1, dtype=np.int64)
    pixof[good] = hpg.angle_to_pixel(nmap, ras[good], decs[good])
    tf = [truth.get(int(p), (-1, -1)) for p in pixof]

    def cfg(region):
        c = config0.copy()
        c.maskfile, c.depthfile, c.galfile_nside, c.area = mf, df, 8, 100.0
        c.border = border if region else 0.0
        c.d.hpix, c.d.nside = (list(pixs), nreg) if region else ([], 0)
        return c
    # the volume limit of the footprint alone
    if k % 4 == 0:
        c = cfg(False)
        zr = list(c.zrange)
        res, vg = guard(VolumeLimitMask, c, 0.2, vlimfile=d + '/geom.fit', use_geometry=True)
        st = dict(op='geometry', res=res, ok=False)
        if res == 'ok':
            a, b = hpg.pixel_to_angle(nmap, have)
            zm, fg = vg.calc_zmax(a, b, get_fracgood=True)
            off = np.setdiff1d(hpg.neighbors(nmap, have).ravel(), np.append(have, -1))
            a2, b2 = hpg.pixel_to_angle(nmap, off)
            z2 = vg.calc_zmax(a2, b2) if off.size else np.zeros(0)
            st['ok'] = bool(np.allclose(zm, zr[1], atol=1e-5) and np.allclose(fg, frac4 / 4., atol=1e-5) and np.all(z2 <= 0))
        steps.append(st)
    # several pixels with a border: refused, or right
    if k % 6 == 1:
        others = [int(x) for x in hpg.neighbors(nreg, p0, nest=False) if x >= 0][:1] or [(p0 + 1) % npix]
        c = cfg(True)
        c.d.hpix, c.border = [p0] + others, 0.7
        full = [i for i in range(ras.size) if tf[i][0] == 4 and abs(decs[i]) < 89.9]
        full = [i for i, x in zip(full, distances(ras[full], decs[full], nreg, [p0] + others) if full else []) if x < 0.6]
        rows = []
        for nm, fn in (('mask', lambda: HPMask(c, include_maskgals=False).compute_radmask(ras[full], decs[full])), ('depth', lambda: DepthMap(c).get_depth_values(ras[full], decs[full])[0] > 0),
                       ('zmax', lambda: VolumeLimitMask(c, 0.2, vlimfile=vf).calc_zmax(ras[full], decs[full]) > 0)):
            res, v = guard(fn)
            rows.append(dict(res=res, right=bool(res == 'ok' and np.all(v))))
        steps.append(dict(op='severalborder', rows=rows))
    got = {}
    sh = np.where(r.randint(3, size=ras.size) == 0, 360.0, 0.0) * r.choice([-1, 1], size=ras.size)
    for mode in ('whole', 'region'):
        c = cfg(mode == 'region')
        g = dict()
        res, hm = guard(HPMask, c, include_maskgals=False)
        res2, dm = guard(DepthMap, c)
        res3, vl = guard(VolumeLimitMask, c, 0.2, vlimfile=vf)
        g['res'] = [res, res2, res3]
        if 'ok' == res == res2 == res3:
            np.random.seed(k + 77)
            g['mask'] = guard(hm.compute_radmask, ras + sh, decs)
            g['depth'] = guard(dm.get_depth_values, ras + sh, decs)
            g['frac'] = guard(dm.get_fracgoods, ras + sh, decs)
            g['zmax'] = guard(vl.calc_zmax, ras + sh, decs, get_fracgood=True)
            g['obj'] = (hm, dm, vl, c)
        got[mode] = g
    if got['whole']['res'] != ['ok'] * 3 or got['region']['res'] != ['ok'] * 3:
        steps.append(dict(op='read', whole=got['whole']['res'], region=got['region']['res'], ok=False, pos=[]))
        out.add('m%d' % k, steps)
        return
    fail = [g[x][0] for g in got.values() for x in ('mask', 'depth', 'frac', 'zmax')]
    ok = all(x == 'ok' for x in fail)
    pos = []
    if ok:
        W, R = got['whole'], got['region']
        for i in range(ras.size):
            rec = dict(must=bool(mustsee[i]), f=tf[i][0], d=tf[i][1], z=(100 + 10 * int(zb[np.searchsorted(have, pixof[i])]) + 5 if tf[i][0] >= 0 else -1))
            for nm, g in (('w', W), ('r', R)):
                lm, ex, m5 = g['depth'][1]
                zm, fg = g['zmax'][1]
                rec[nm] = dict(mask=bool(g['mask'][1][i]), lim=sc(lm[i])[0], exp=sc(ex[i], 500)[0], m50=sc(m5[i] - 0.5)[0], frac=scaled(max(-1.0, g['frac'][1][i]), 4), zmax=int(np.floor(float(zm[i]) * 1000 + 1e-3)),
                               vfrac=scaled(max(-1.0, fg[i]), 4))
            pos.append(rec)
            if mustsee[i] and tf[i][0] >= 0:
                out.count('positions of the map seen in the region')
            elif tf[i][0] >= 0:
                out.count('positions of the map beyond')
    steps.append(dict(op='read', whole=got['whole']['res'], region=got['region']['res'], ok=ok, pos=pos))
    out.count('maps')
    hm, dm, vl, c = got['whole']['obj']
    # how often a partly covered position is in the footprint
    fr = [p for p in truth if truth[p][0] in (1, 2, 3)]
    if fr and ok:
        p = fr[r.randint(len(fr))]
        a, b = hpg.pixel_to_angle(nmap, np.full(4000, p))
        np.random.seed(k + 5)
        res, mk = guard(hm.compute_radmask, a, b)
        steps.append(dict(op='fraction', res=res, n=4000, q=truth[p][0], got=int(np.sum(mk)) if res == 'ok' else -1))
    # mask galaxies around a cluster
    if ok:
        j = r.randint(len(pixs))
        cra, cdec = hpg.pixel_to_angle(nreg, pixs[j], nest=False)
        hv = [i for i in range(ras.size) if inreg[i] and tf[i][0] >= 0]
        if hv and r.randint(4):
            i = hv[r.randint(len(hv))]
            cra, cdec = ras[i], decs[i]
        cra, cdec = float(np.atleast_1d(cra)[0]), float(np.atleast_1d(cdec)[0])
        nm = 30
        psz = 58.6 / nmap
        mpc = 1.0
        x, y = [r.uniform(-3, 3, size=nm) * psz * (np.cos(np.radians(cdec)) if q == 0 else 1) for q in range(2)]
        res = {}
        for mode in ('whole', 'region'):
            hm, dm, vl, c = got[mode]['obj']
            mg = Catalog(np.zeros(nm, dtype=[('x', 'f4'), ('y', 'f4'), ('w', 'f4'), ('eff', 'f4'), ('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('zp', 'f4'), ('nsig', 'f4'), ('mark', '?')]))
            mg.x, mg.y = x, y

            class Cl(object):
                ra, dec, mpc_scale = cra, cdec, mpc
            hm.maskgals = mg
            np.random.seed(k + 99)
            r1, _ = guard(hm.set_radmask, Cl)
            r2, _ = guard(dm.calc_maskdepth, mg, cra, cdec, mpc)
            res[mode] = (r1, r2, mg)
        ras2 = cra + (mg.x / mpc) / np.cos(np.radians(cdec))
        decs2 = cdec + mg.y / mpc
        g2 = np.abs(decs2) < 90
        pp = np.full(nm, -1, dtype=np.int64)
        pp[g2] = hpg.angle_to_pixel(nmap, ras2[g2], decs2[g2])
        # positions within rounding of a pixel edge are not judged
        amb = np.zeros(nm, dtype=bool)
        for dx, dy in ((1e-5, 0), (-1e-5, 0), (0, 1e-5), (0, -1e-5)):
            q = np.full(nm, -1, dtype=np.int64)
            q[g2] = hpg.angle_to_pixel(nmap, ras2[g2] + dx / np.cos(np.radians(np.clip(decs2[g2], -89.9, 89.9))), np.clip(decs2[g2] + dy, -90, 90))
            amb |= q != pp
        dd = np.full(nm, 180.0)
        dd[g2] = distances(ras2[g2] % 360., decs2[g2], nreg, pixs)
        ir = np.zeros(nm, dtype=bool)
        ir[g2] = np.isin(hpg.angle_to_pixel(nreg, ras2[g2], decs2[g2], nest=False), pixs)
        see = bool(np.all((ir | (dd < border - TOL))[g2]))
        st = dict(op='maskgals', zp=scaled(head['ZP'], 1000), nsig=scaled(head['NSIG'], 1000), ok=all(res[q][j] == 'ok' for q in res for j in (0, 1)), see=see, amb=bool(amb.any()), gals=[], modes=[])
        if st['ok'] and not amb.any():
            for q in ('whole', 'region'):
                mg = res[q][2]
                st['modes'].append(dict(mark=[bool(b) for b in mg.mark], lim=sc(mg.limmag), exp=sc(mg.exptime, 500), m50=sc(mg.m50), zp=scaled(mg.zp[0], 1000), nsig=scaled(mg.nsig[0], 1000)))
            st['gals'] = [dict(f=truth.get(int(p), (-1, -1))[0], d=truth.get(int(p), (-1, -1))[1]) for p in pp]
            out.count('mask galaxy placements')
            out.count('mask galaxy placements across the edge', int(any(g['f'] >= 0 for g in st['gals']) and any(g['f'] < 0 for g in st['gals'])))
        steps.append(st)
    # areas
    hm, dm, vl, c = got['whole']['obj']
    ps = hpg.nside_to_pixel_area(nmap, degrees=True)
    mags = np.array([20.0, 20.4995] + sorted(20.5 + r.randint(0, have.size, size=4) / 1000. + 0.0005))
    res, ar = guard(dm.calc_areas, mags)
    rows = []
    if res == 'ok':
        for mg_, a in zip(mags, ar):
            deeper = [truth[p][0] for p in truth if truth[p][1] + 500 > mg_ * 1000]
            rows.append(dict(got=int(np.rint(a / ps * 400)), npix=len(deeper), want=sum(deeper) * 100))
    if have.size >= 3:
        steps.append(dict(op='depthareas' if uniform else 'depthareas2', res=res, rows=rows, n=int(have.size), fracs=[truth[p][0] for p in sorted(truth)]))
    # a region has the area of its own pixels
    if border == 0.0 and nreg <= nmap and uniform:
        dmr = got['region']['obj'][1]
        inside = [p for p in truth if int(hpg.nest_to_ring(nreg, int(p) >> (2 * int(np.log2(nmap // nreg))))) in pixs]
        if len(inside) >= 3:
            res, ar = guard(dmr.calc_areas, mags)
            rows = []
            if res == 'ok':
                for mg_, a in zip(mags, ar):
                    deeper = [truth[p][0] for p in inside if truth[p][1] + 500 > mg_ * 1000]
                    rows.append(dict(got=int(np.rint(a / ps * 400)), npix=len(deeper), want=sum(deeper) * 100))
            steps.append(dict(op='depthareas', res=res, rows=rows, n=len(inside)))
            out.count('areas of regions')
    c2 = cfg(False)
    vl.config = c2
    save = config0.zrange, config0.area_finebin
    config0.zrange, config0.area_finebin = [0.1, 0.55], 0.01
    res, astr = guard(vl.get_areas)
    config0.zrange, config0.area_finebin = save
    rows = []
    if res == 'ok':
        for z, a in zip(astr.z, astr.area):
            w = [truth[int(p)][0] for p, b in zip(have, zb) if 0.1 + 0.01 * b + 0.0055 > z]
            rows.append(dict(got=int(np.rint(float(a) / ps * 400)), want=sum(w) * 100))
    steps.append(dict(op='vlimareas', res=res, rows=rows))
    out.add('m%d' % k, steps)


def main(part, nproc, out):
    from redmapper import Configuration
    config0 = Configuration('data_for_tests/testconfig.yaml')
    for k in range(n(150, 1500)):
        if k % nproc == part:
            scenario(k, rng(19000 + k), out, config0)


if __name__ == '__main__':
    shards(main, 6)
