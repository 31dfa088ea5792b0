"""C26: consolidation of distributed catalogue-measurement, redshift-scan and random-mask jobs."""
import os
import fitsio
import hpgeom as hpg
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403
from harness.consolidate_lib import CAT, MEM, pos_in, Spectra, other_run

from redmapper import Configuration
from redmapper.pipeline import RuncatConsolidateTask
from redmapper.runcat import RunCatalog
from redmapper.run_zscan import RunZScan
from redmapper.run_randoms_zmask import RunRandomsZmask


def filetype(cls, cf):
    """The file type the measurement jobs write, as the jobs themselves define it."""
    return cls(Configuration(cf)).filetype


def scenario(k, out):
    r = rng(2600 + k)
    d = os.path.abspath(fresh(['c26', 'c26_2_00007_x'][r.randint(2)]))
    nside = int(r.choice([1, 2, 4, 8, 128]))
    npix = 12 * nside * nside
    nfile = int(r.choice([1, 2, 3, 5]))
    if nside < 128:
        pixels = sorted(r.choice(npix, size=min(nfile, npix), replace=False).tolist())
    else:
        pixels = sorted(set([7, 99999, 100000, 100001, 196600, 54321][int(x)] for x in r.randint(6, size=nfile)))
    name = ['cat', 'a_b', 'run_fit', 'x.tif', 'y_1_00003_z'][r.randint(5)]
    cls, members, default = [(RunCatalog, True, True), (RunCatalog, True, False), (RunZScan, True, False), (RunRandomsZmask, False, False)][r.randint(4)]
    spectra = Spectra(r, d) if r.randint(2) and members else None
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(outbase=name, outpath=d, specfile=os.path.join(d, 'spec.fit'))
    cf = os.path.join(d, 'conf.yml')
    with open(cf, 'w') as f:
        yaml.safe_dump(y, f)
    ft = filetype(cls, cf)
    steps = [dict(op='setup', members=members, spec=spectra is not None)]
    src, memsrc = {}, {}
    pbad = float(r.choice([0.0, 0.2, 0.5]))
    gid = 0
    sameids = bool(r.randint(2))    # ids that recur in different pixels
    for p in pixels:
        nc = int(r.choice([1, 2, 3, 5, 8]))
        cat = np.zeros(nc, dtype=CAT)
        rows, mems = [], []
        for i in range(nc):
            gid += 1
            q = p
            if r.uniform() < pbad and npix > 1:
                q = int(r.choice([x for x in hpg.neighbors(nside, p, nest=False) if x >= 0]))
            ra, dec = pos_in(nside, q, r)
            while spectra and spectra.taken(ra, dec):
                ra, dec = pos_in(nside, q, r)
            cid = i + 1 if sameids else gid * 3 + 5
            c = cat[i]
            c['mem_match_id'] = cid
            c['ra'], c['dec'] = ra, dec
            c['lambda'] = r.uniform() * 100 if r.randint(4) else -1.0
            c['gid'] = gid
            c['cg_spec_z'] = -2.0
            c['payload'] = r.uniform(size=3)
            src[gid] = c.copy()
            mids, mspec = [], []
            for j in range(int(r.choice([0, 1, 2, 4]))):
                g = gid * 100 + j
                mids.append(g)
                mra, mdec = ra, dec + (0.01 * (j + 1) if dec < 0 else -0.01 * (j + 1))
                mems.append((cid, g, mra, mdec, r.uniform(), -2.0, r.uniform(size=2)))
                if spectra:
                    mspec.append(dict(gid=g, specs=spectra.near(mra, mdec)))
            rows.append(dict(gid=gid, id=cid, inpix=bool(q == p), mem=mids, mspecs=mspec, specs=spectra.near(ra, dec) if spectra else []))
        r.shuffle(mems)
        mem = np.zeros(len(mems), dtype=MEM)
        for j, mm in enumerate(mems):
            mem[j] = mm
            memsrc[int(mm[1])] = mem[j].copy()
        fn = os.path.join(d, '%s_%d_%05d_%s_catalog.fit' % (name, nside, p, ft))
        fitsio.write(fn, cat, clobber=True)
        if members:
            fitsio.write(fn[:-4] + '_members.fit', mem, clobber=True)
        steps.append(dict(op='file', rows=rows))
    if spectra:
        spectra.write()
    other_run(r, d, name, nside, ft + '_catalog', members)
    fc = os.path.join(d, '%s_redmapper_v%s_%s_catalog.fit' % (name, Configuration(cf).version, ft))
    fm = fc[:-4] + '_members.fit'
    if r.randint(3) == 0:
        a = np.zeros(2, dtype=CAT)
        a['gid'] = 9999
        fitsio.write(fc, a, clobber=True)
        if members:
            fitsio.write(fm, np.zeros(3, dtype=MEM), clobber=True)
    kept = [g for s in steps if s['op'] == 'file' for g in s['rows'] if g['inpix']]
    kw = dict(do_plots=False, match_spec=spectra is not None, consolidate_members=members)
    if not default:
        kw['cattype'] = ft
    res, _ = guard(lambda: RuncatConsolidateTask(cf, path=d).run(**kw))
    ev = dict(op='final', res=res, rows=[], members=[], same=True)
    a, b = np.zeros(0, dtype=CAT), np.zeros(0, dtype=MEM)
    try:
        if os.path.isfile(fc):
            a = np.atleast_1d(fitsio.read(fc, ext=1, lower=True))
        if os.path.isfile(fm):
            b = np.atleast_1d(fitsio.read(fm, ext=1, lower=True))
    except Exception:
        ev['res'] = 'unreadable'
    if not kept and a.size and a['gid'][0] == 9999:
        a, b = a[:0], b[:0]        # nothing to consolidate: an earlier product stays
    ev['rows'] = [dict(gid=int(x['gid']), spec=scaled(x['cg_spec_z'], 1000)) for x in a]
    ev['members'] = [dict(gid=int(x['id']), id=int(x['mem_match_id']), spec=scaled(x['zspec'], 1000)) for x in b]
    for arr, s0, key in ((a, src, 'gid'), (b, memsrc, 'id')):
        for x in arr:
            s = s0.get(int(x[key]))
            ev['same'] &= bool(s is not None and all(np.array_equal(x[nm], s[nm]) for nm in s.dtype.names if nm not in ('cg_spec_z', 'zspec')))
    steps.append(ev)
    out.add('rc%04d' % k, steps)
    out.count('consolidations')
    out.count('clusters_kept', len(kept))
    out.count('clusters_outside', sum(len(s['rows']) for s in steps if s['op'] == 'file') - len(kept))
    out.count('members_out', int(b.size))
    out.count('with_spectra', int(spectra is not None))


def main():
    setup_cwd()
    out = Out()
    for k in range(n(80, 600)):
        scenario(k, out)
    out.write()


if __name__ == '__main__':
    main()
