"""C14: scenarios for the distributed consolidation task."""
import os
import fitsio
import healsparse
import hpgeom as hpg
import numpy as np
from harness.common import *   # noqa: F401,F403
import yaml
from harness.consolidate_lib import CAT, MEM, pos_in, Spectra, other_run

def scenario(k, r, base):
    from redmapper import Configuration
    from redmapper.pipeline import RedmapperConsolidateTask
    d = fresh(base)
    nside = int(r.choice([1, 2, 4, 8, 8, 128]))
    npix = 12 * nside * nside
    spectra = Spectra(r, d) if r.randint(2) else None
    nfile = int(r.choice([1, 2, 3, 5]))
    if nside < 128:
        pixels = sorted(r.choice(npix, size=min(nfile, npix), replace=False).tolist())
    else:
        pixels = sorted(set([7, 99999, 100000, 100001, 196600, 54321][int(x)] for x in r.randint(6, size=nfile)))
    cuts = [[5.0], [5.0, 20.0], [3.0, 8.0, 20.0], [20.0, 5.0]][r.randint(4)]
    lstars = [[], [0.2], [0.2, 5.0], [0.5, 0.2]][r.randint(4)]
    scale = bool(r.randint(3) == 0)
    minlam = float(r.choice([3.0, 5.0, 4.5]))
    maxmask = float(r.choice([0.25, 0.5]))
    name = ['cat', 'a_b', 'run_fit', 'x.tif', 'y_1_00003_z'][r.randint(5)]
    zlim = 0.5

    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(outbase=name, outpath=d, consolidate_lambda_cuts=cuts, consolidate_vlim_lstars=lstars,
             specfile=os.path.join(d, 'spec.fit'), select_scaleval=scale, percolation_minlambda=minlam, max_maskfrac=maxmask, zrange=[0.05, zlim])
    cfgfile = os.path.join(d, 'conf.yml')
    with open(cfgfile, 'w') as f:
        yaml.safe_dump(y, f)
    config = Configuration(cfgfile)

    # volume-limit maps: maximum redshift per coarse pixel
    maps = []
    for ls in lstars:
        m = healsparse.HealSparseMap.make_empty(8, 16, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
        pixs = np.arange(12 * 16 * 16)
        v = np.zeros(pixs.size, dtype=m.dtype)
        v['fracgood'] = 1.0
        v['zmax'] = r.choice([0.125, 0.25, 0.375], size=pixs.size)
        # part of the sky is not covered at all
        cover = r.uniform(size=pixs.size) < 0.85
        m.update_values_pix(pixs[cover], v[cover])
        m.write(os.path.join(d, '%s_redmapper_v%s_vl%02d_vlim_zmask.fit' % (name, config.version, int(ls * 10))))
        maps.append(m)

    gid = 0
    steps = [dict(op='setup', cuts=[int(round(c * 4)) for c in cuts], nvl=max(1, len(lstars)),
                  spec=spectra is not None, scale=scale, minlam=int(round(minlam * 4)), maxmask=int(maxmask * 64))]
    src, memsrc = {}, {}
    # likelihoods: mostly distinct, sometimes tied
    tie = r.randint(4) == 0
    # how often a property of a cluster is at a value that may fail a cut
    pbad = float(r.choice([0.02, 0.1, 0.25, 0.6]))
    for p in pixels:
        nc = int(r.choice([0, 1, 2, 3, 5, 8]))
        lowall = r.randint(6) == 0
        cat = np.zeros(nc, dtype=CAT)
        rows = []
        mems = []
        ids = r.choice(50, size=nc, replace=False) + 1
        if r.randint(2):
            ids = np.arange(nc) + 1
        for i in range(nc):
            gid += 1
            if r.uniform() < pbad and npix > 1:
                q = int(r.randint(npix))
                if r.randint(2):
                    # a near neighbour of the pixel
                    q = int(r.choice([x for x in hpg.neighbors(nside, p, nest=False) if x >= 0]))
            else:
                q = p
            ra, dec = pos_in(nside, q, r)
            while spectra and spectra.taken(ra, dec):
                ra, dec = pos_in(nside, q, r)
            lam4 = int(r.choice([4, 11, 12, 13, 19, 20, 21, 31, 32, 33, 60, 79, 80, 81, 160] if r.uniform() < pbad
                                else [22, 24, 40, 60, 81, 120, 160, 400]))
            if lowall:
                lam4 = int(r.choice([4, 8, 13, 21]))
            sc4 = int(r.choice([4, 4, 8, 2, 16]))
            mk = int(r.choice([0, 8, 15, 16, 17, 31, 32, 33, 64] if r.uniform() < pbad else [0, 3, 8, 15]))
            z = int(r.choice([100, 200, 300, 400, 499, 501] if r.uniform() < pbad else [60, 100, 110, 120, 200]))
            lk = int(r.randint(5)) * 10 if tie else gid * 7 % 101 * 4 - 150
            c = cat[i]
            c['mem_match_id'] = ids[i]
            c['ra'], c['dec'] = ra, dec
            c['lambda'] = lam4 / 4.
            c['scaleval'] = sc4 / 4.
            c['maskfrac'] = mk / 64.
            c['z_lambda'] = z / 1000.
            c['lnlamlike'] = lk / 4.
            c['lnlike'] = -gid
            c['gid'] = gid
            c['cg_spec_z'] = -2.0
            c['payload'] = r.uniform(size=3)
            zm = []
            for m in maps:
                val = m.get_values_pos(ra, dec, lonlat=True)
                zm.append(max(0, int(round(1000 * float(val['zmax'])))))
            if not maps:
                zm = [int(zlim * 1000)]
            nm = int(r.choice([1, 1, 2, 4]))
            mids = []
            mspec = []
            for j in range(nm):
                g = gid * 100 + j
                mids.append(g)
                mra, mdec = ra, dec + (0.01 * (j + 1) if dec < 0 else -0.01 * (j + 1))
                mems.append((ids[i], g, mra, mdec, r.uniform(), -2.0, r.uniform(size=2)))
                if spectra:
                    mspec.append(dict(gid=g, specs=spectra.near(mra, mdec)))
            rows.append(dict(specs=spectra.near(ra, dec) if spectra else [], mspecs=mspec, gid=gid, inpix=bool(q == p), lam=lam4, scale=sc4, mask=mk, z=z, like=lk, zmax=zm, mem=mids))
            src[gid] = c.copy()
        r.shuffle(mems)
        mem = np.zeros(len(mems), dtype=MEM)
        for j, mm in enumerate(mems):
            mem[j] = mm
            memsrc[int(mm[1])] = mem[j].copy()
        fn = os.path.join(d, '%s_%d_%05d_final_catalog.fit' % (name, nside, p))
        fitsio.write(fn, cat, clobber=True)
        if nc > 0:
            # a pixel whose candidates were all rejected has an empty catalogue and no member file
            fitsio.write(fn.replace('_final_catalog.fit', '_final_catalog_members.fit'), mem, clobber=True)
        steps.append(dict(op='file', pix=p, rows=rows))

    # leftovers of an earlier consolidation of other data with the same names
    stale = bool(r.randint(3) == 0)

    def fname(i, j, m):
        ex = 'lgt%02d' % cuts[i] + ('_vl%02d' % int(lstars[j] * 10) if lstars else '')
        return os.path.join(d, '%s_redmapper_v%s_%s_catalog%s.fit' % (name, config.version, ex, '_members' if m else ''))

    if stale:
        for i in range(len(cuts)):
            for j in range(max(1, len(lstars))):
                a = np.zeros(2, dtype=CAT)
                a['gid'] = 9999
                fitsio.write(fname(i, j, False), a, clobber=True)
                b = np.zeros(3, dtype=MEM)
                b['id'] = 999999
                fitsio.write(fname(i, j, True), b, clobber=True)

    if spectra:
        spectra.write()
    other_run(r, d, name, nside, 'final_catalog', True)

    def call():
        task = RedmapperConsolidateTask(cfgfile)
        task.run(do_plots=False, match_spec=spectra is not None)

    res, _ = guard(call)
    outs = []
    for i in range(len(cuts)):
        for j in range(max(1, len(lstars))):
            o = dict(cut=i + 1, vl=j + 1, present=False, rows=[], members=[], same=True)
            fc, fm = fname(i, j, False), fname(i, j, True)
            if os.path.isfile(fc) and os.path.isfile(fm):
                try:
                    a = np.atleast_1d(fitsio.read(fc, ext=1, lower=True))
                    b = np.atleast_1d(fitsio.read(fm, ext=1, lower=True))
                except Exception:
                    a = b = None
                if a is not None and not (a.size and a['gid'][0] == 9999):
                    o['present'] = True
                    o['rows'] = [dict(gid=int(x['gid']), id=int(x['mem_match_id']), spec=scaled(x['cg_spec_z'], 1000)) for x in a]
                    o['members'] = [dict(gid=int(x['id']), id=int(x['mem_match_id']), spec=scaled(x['zspec'], 1000)) for x in b]
                    for x in a:
                        s = src.get(int(x['gid']))
                        o['same'] &= s is not None and all(np.array_equal(x[nm], s[nm]) for nm in s.dtype.names if nm not in ('mem_match_id', 'cg_spec_z', 'zspec'))
                    for x in b:
                        s = memsrc.get(int(x['id']))
                        o['same'] &= s is not None and all(np.array_equal(x[nm], s[nm]) for nm in s.dtype.names if nm not in ('mem_match_id', 'cg_spec_z', 'zspec'))
            o['same'] = bool(o['same'])
            outs.append(o)
    steps.append(dict(op='final', res=res, out=outs))
    return steps


def main():
    setup_cwd()
    out = Out()
    r = rng(14)
    N = n(90, 600)
    for k in range(N):
        with quiet():
            steps = scenario(k, r, ['c14', 'c14_2_00007_x'][r.randint(2)])
        out.add('s%03d' % k, steps)
        out.count('scenarios')
        out.count('rows_out', sum(len(o['rows']) for o in steps[-1]['out']))
        out.count('with_spectra', int(steps[0]['spec']))
        out.count('nontrivial_outputs', sum(len(o['rows']) > 1 for o in steps[-1]['out']))
        out.count('clusters_in', sum(len(s['rows']) for s in steps if s['op'] == 'file'))
    out.write()


if __name__ == "__main__":
    main()
