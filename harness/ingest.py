"""C01 (conserve) and C03 (reject): histories of galaxy batches given to GalaxyCatalogMaker."""
import hashlib
import os
import sys
import time
import fitsio
import healsparse
import hpgeom as hpg
import numpy as np
from harness.common import *   # noqa: F401,F403
from redmapper import GalaxyCatalogMaker

NMAG = 4
time.sleep = lambda s: None        # nobody else holds a lock here: waiting for one is pointless


def info(nmag=NMAG, lupt=False):
    d = dict(LIM_REF=21.0, REF_IND=2, AREA=100.0, NMAG=nmag, MODE='DES', ZP=22.5, G_IND=0, R_IND=1, I_IND=2, Z_IND=3)
    if lupt:
        d['B'] = np.zeros(nmag) + 1e-10
    return d


def tree(d):
    """What is on disk: name -> digest."""
    r = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                r[os.path.relpath(p, d)] = hashlib.sha1(fh.read()).hexdigest()
    return r


def positions(r, nside, m, pool):
    ra, dec = np.zeros(m), np.zeros(m)
    for i in range(m):
        if pool is not None and r.randint(8):
            p = int(pool[r.randint(len(pool))])
            sub = hpg.ring_to_nest(nside, p) * 256 + r.randint(256)
            a, b = hpg.pixel_to_angle(nside * 16, sub, nest=True)
        else:
            a, b = r.uniform(0, 360), np.degrees(np.arcsin(r.uniform(-1, 1)))
            if r.randint(6) == 0:
                a = float(r.choice([0.0, 360.0, 180.0, 90.0]))
            if r.randint(6) == 0:
                b = float(r.choice([-89.9, 89.9, 0.0, 41.8]))
        ra[i], dec[i] = a, b
    return ra, dec


def galaxy_dtype(truth, zspec):
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', NMAG), ('mag_err', 'f4', NMAG),
          ('ebv', 'f4')]
    if truth:
        dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    if zspec:
        dt += [('zspec', 'f4'), ('zspec_err', 'f4')]
    return dt


_ids = {}


def short(i):
    """64-bit ids as small distinct numbers."""
    return _ids.setdefault(int(i), len(_ids) + 1)


def batch(r, first_gid, m, nside, pool, truth, zspec, sameids=False, idbase=None):
    g = np.zeros(m, dtype=galaxy_dtype(truth, zspec))
    gids = np.arange(first_gid, first_gid + m)
    # ids that only differ in their high or in their low digits
    g['id'] = 7 if sameids else ((gids // 2) * 3 + 1000 + (gids % 2) * 2**32)
    g['ra'], g['dec'] = positions(r, nside, m, pool)
    g['refmag'] = r.uniform(15, 21, size=m)
    g['refmag_err'] = r.uniform(0.01, 0.1, size=m)
    g['mag'] = r.uniform(15, 22, size=(m, NMAG))
    g['mag_err'] = r.uniform(0.01, 0.1, size=(m, NMAG))
    g['ebv'] = gids          # the identity of the galaxy
    if truth:
        g['ztrue'] = r.uniform(size=m)
        g['halo_id'] = r.randint(1000, size=m)
    if zspec:
        g['zspec'] = r.uniform(size=m)
    return g, gids


def make_mask(fn, r, nside_mask=8):
    m = healsparse.HealSparseMap.make_empty(4, nside_mask, dtype=np.float64)
    pix = np.arange(12 * nside_mask**2)
    use = r.uniform(size=pix.size) < 0.6
    vals = np.ones(use.sum()) * 2.0       # certainly inside
    m.update_values_pix(pix[use], vals)
    m.write(fn, clobber=True)
    return m


def rows_of(g, gids, nside, mask):
    pix = hpg.angle_to_pixel(nside, g['ra'], g['dec'], nest=False)
    ok = np.ones(g.size, dtype=bool) if mask is None else mask.get_values_pos(g['ra'], g['dec'], lonlat=True) > 0
    return [dict(gid=int(a), pix=int(b), ok=bool(c), id=short(i)) for a, b, c, i in zip(gids, pix, ok, g['id'])]


def observe(d, base, nside, src, gen):
    """The catalogue on disk, read without the package."""
    files, same, ids, order = [], True, [], []
    import re as _re
    for f in sorted(os.listdir(d)):
        m = _re.fullmatch(_re.escape(base) + r'_(\d{7})\.fit', f)
        if not m:
            continue
        try:
            a = np.atleast_1d(fitsio.read(os.path.join(d, f), ext=1, lower=True))
        except Exception:
            same = False
            continue
        gids = [int(x) if np.isfinite(x) else -1 for x in a['ebv']]
        for row, gid in zip(a, gids):
            s = src.get(gid)
            if s is None:
                same = False
                continue
            for nm in s.dtype.names:
                if nm == 'id' and gen:
                    continue
                if not np.array_equal(row[nm], s[nm]):
                    same = False
        files.append(dict(pix=int(m.group(1)), gids=gids, ids=[short(x) for x in a['id']]))
        ids += [int(x) for x in a['id']]
    mt = os.path.join(d, base + '_master_table.fit')
    master = dict(present=False, hpix=[], ngals=[], names=[], centres=[], nside=0, infook=True)
    if os.path.isfile(mt):
        t = fitsio.read(mt, ext=1, lower=True)
    if os.path.isfile(mt) and t.size == 0:
        master['present'] = True          # nothing was ingested
    elif os.path.isfile(mt):
        hp = np.atleast_1d(t['hpix'][0])
        ra, dec = np.atleast_1d(t['ra_pix'][0]), np.atleast_1d(t['dec_pix'][0])
        cen = []
        for p, x, y in zip(hp, ra, dec):
            a, b = hpg.pixel_to_angle(nside, int(p), nest=False) if 0 <= p < 12 * nside**2 else (0.0, 0.0)
            dist = abs(y - b) + min(abs(x - a), 360 - abs(x - a)) * np.cos(np.radians(b))
            cen.append(int(p) if dist < 1e-6 else -1)
        names = []
        for s in np.atleast_1d(t['filenames'][0]):
            s = s.decode() if isinstance(s, bytes) else str(s)
            m = _re.fullmatch(_re.escape(base) + r'_(\d{7})\.fit', s.strip())
            names.append(int(m.group(1)) if m else -1)
        master = dict(present=True, hpix=[int(x) for x in hp], ngals=[int(x) for x in np.atleast_1d(t['ngals'][0])], names=names,
                      centres=cen, nside=int(t['nside'][0]))
    other = [f for f in os.listdir(d) if not _re.fullmatch(_re.escape(base) + r'_((\d{7})|master_table)\.fit', f)]
    return files, bool(same), master, sorted(other)


def conserve(out):
    r = rng(1)
    for k in range(n(140, 900)):
        nside = int(r.choice([1, 2, 4, 8, 32, 64]))
        npix = 12 * nside * nside
        pool = None if r.randint(4) == 0 else r.choice(npix, size=int(r.choice([1, 2, 3, 6])))
        truth, zspec = bool(r.randint(4) == 0), bool(r.randint(4) == 0)
        gen = bool(r.randint(2))
        parallel = bool(r.randint(3) == 0)
        usemask = bool(r.randint(3) == 0)
        dname = ['c01', 'c01_20240101', 'c01_0000001_x'][r.randint(3)]
        base = ['gals', 'cat_12345678_v1', 'a_0000002'][r.randint(3)]
        d = fresh(dname)
        sibling = None
        if r.randint(3) == 0:
            # another catalogue in the same place whose name starts the same way
            sibling = base + str(r.choice(['_b', 'b', '_0000003']))
            smk = GalaxyCatalogMaker(os.path.join(d, sibling), info(), nside=nside)
            smk.append_galaxies(batch(r, 900000, 5, nside, pool, False, False)[0])
            before = tree(d)
        mask, maskfile = None, None
        if usemask:
            maskfile = os.path.abspath('mask_%d.hs' % k)
            mask = make_mask(maskfile, r)
        nb = int(r.choice([1, 2, 3, 5]))
        src, steps, gid = {}, [dict(op='open', gen=gen, nside=nside)], 1
        batches = []
        for b in range(nb):
            m = int(r.choice([1, 1, 2, 5, 20, 60]))
            g, gids = batch(r, gid, m, nside, pool, truth, zspec, sameids=gen and bool(r.randint(2)))
            gid += m
            for row, i in zip(g, gids):
                src[int(i)] = row.copy()
            batches.append((g, gids))
        if all(not x['ok'] for g, gi in batches for x in rows_of(g, gi, nside, mask)):
            continue
        split = nb == 1 and bool(r.randint(2))
        res, mk = guard(GalaxyCatalogMaker, os.path.join(d, base), info(), nside=nside, maskfile=maskfile, mask_mode=3 if usemask else 0,
                        parallel=parallel, generate_unique_ids=gen, ingest_truth=truth, ingest_zspec=zspec)
        if res == 'ok':
            for g, gids in batches:
                rr = rows_of(g, gids, nside, mask)
                bres, _ = guard(mk.split_galaxies if split else mk.append_galaxies, g)
                steps.append(dict(op='batch', res=bres, rows=rr, defect=''))
            if not split:
                res, _ = guard(mk.finalize_catalog)
        if sibling is not None:
            now = tree(d)
            nother = sum(now.get(f) != before[f] for f in before)     # files of the other catalogue that were changed
            for f in before:
                if f in now:
                    os.unlink(os.path.join(d, f))
        else:
            nother = 0
        files, same, master, other = observe(d, base, nside, src, gen)
        steps.append(dict(op='final', res=res, files=files, same=same, master=master, other=len(other) + nother))
        out.add('ing%03d' % k, steps)
        out.count('galaxies', gid - 1)
        out.count('batches', nb)
        shutil.rmtree(d)
        if maskfile:
            os.unlink(maskfile)


def bulk(out):
    """Many galaxies in a pixel.  A block of galaxies that is in one file exactly once, together, stands for its members."""
    r = rng(2)
    blk = 1000
    for k, (m, parallel, gen) in enumerate([(40000, False, False), (70000, True, True), (300, False, True)]):
        b = blk if m > 1000 else 10
        d = fresh('c01b')
        nside = 4
        pix = np.sort(r.choice(12 * nside**2, size=2, replace=False))
        g, gids = batch(r, 1, m + b, nside, None, False, False)
        g['ebv'] = gids
        for j, p in ((0, pix[0]), (1, pix[1])):
            sel = slice(0, m) if j == 0 else slice(m, m + b)
            g['ra'][sel], g['dec'][sel] = hpg.pixel_to_angle(nside, int(p), nest=False)
        src = {int(i): row for i, row in zip(gids, g)}
        steps = [dict(op='open', gen=gen, nside=nside)]
        mk = GalaxyCatalogMaker(os.path.join(d, 'gals'), info(), nside=nside, parallel=parallel, generate_unique_ids=gen)
        half = (m // b // 2) * b
        for sel in (slice(0, half), slice(half, m + b)):
            res, _ = guard(mk.append_galaxies, g[sel])
            rr = rows_of(g[sel][::b], (gids[sel][::b] - 1) // b + 1, nside, None)
            steps.append(dict(op='batch', res=res, rows=rr, defect=''))
        res, _ = guard(mk.finalize_catalog)
        files, same, master, other = observe(d, 'gals', nside, src, gen)
        for f in files:
            gs = np.array(f['gids'])
            nb = [int(x) for x in np.unique((gs - 1) // b + 1)]
            if sorted(f['gids']) != [x for y in nb for x in range((y - 1) * b + 1, y * b + 1)] or (gs < 1).any():
                nb = nb + nb        # not whole blocks once each
            f['gids'] = nb
            f['ids'] = f['ids'][:len(nb)] if len(set(f['ids'])) == len(f['ids']) else [1, 1]
        if len(files) and master['present']:
            master['ngals'] = [x // b if x % b == 0 else -1 for x in master['ngals']]
        steps.append(dict(op='final', res=res, files=files, same=same, master=master, other=len(other)))
        out.add('bulk%d' % k, steps)
        out.count('galaxies', m + b)
        shutil.rmtree(d)


# every defect returns a bad version of a good batch
def defects(truth=False, zspec=False):
    def col(c, v):
        def f(g, r):
            g = g.copy()
            i = r.randint(g.size)
            if g[c].ndim == 2:
                g[c][i, r.randint(g[c].shape[1])] = v
            else:
                g[c][i] = v
            return g
        return f

    def drop(c):
        def f(g, r):
            dt = [x for x in g.dtype.descr if x[0] != c]
            h = np.zeros(g.size, dtype=dt)
            for x in dt:
                h[x[0]] = g[x[0]]
            return h
        return f

    def retype(c, ty):
        def f(g, r):
            dt = [(x[0], ty) + tuple(x[2:]) if x[0] == c else x for x in g.dtype.descr]
            h = np.zeros(g.size, dtype=dt)
            for x in dt:
                h[x[0]] = g[x[0]].astype(ty) if x[0] == c else g[x[0]]
            return h
        return f

    def width(c, w):
        def f(g, r):
            dt = [(x[0], x[1], (w,)) if x[0] == c else x for x in g.dtype.descr]
            h = np.zeros(g.size, dtype=dt)
            for x in dt:
                if x[0] == c:
                    h[c] = g[c][:, :1]
                else:
                    h[x[0]] = g[x[0]]
            return h
        return f

    def dup(g, r):
        g = np.concatenate([g, g[:1]])
        return g
    D = {}
    fl = ['ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'] + ['ztrue', 'm200'] * truth + ['zspec', 'zspec_err'] * zspec
    ints = ['id'] + ['central', 'halo_id'] * truth
    for c in fl:
        D['nan_' + c] = col(c, np.nan)
        D['inf_' + c] = col(c, np.inf if r0() else -np.inf)
        D['type_' + c] = retype(c, 'i4')
    for c in fl + ints:
        D['drop_' + c] = drop(c)
    for c in ints:
        D['type_' + c] = retype(c, 'f8')
    D['ra_low'] = col('ra', -0.001)
    D['ra_high'] = col('ra', 360.001)
    D['dec_low'] = col('dec', -90.001)
    D['dec_high'] = col('dec', 90.001)
    for v in (90.0, 99.0):
        D['mag_%d' % v] = col('mag', v)
        D['magerr_%d' % v] = col('mag_err', v)
    D['mag_0'] = col('mag', 0.0)
    D['mag_neg'] = col('mag', -1.0)
    D['magerr_0'] = col('mag_err', 0.0)
    D['magerr_neg'] = col('mag_err', -0.5)
    for c in ('mag', 'mag_err'):
        D['narrow_' + c] = width(c, NMAG - 1)
        D['wide_' + c] = width(c, NMAG + 1)
    D['dup_id'] = dup
    return D


_t = [0]


def r0():
    _t[0] += 1
    return _t[0] % 2


def reject(out):
    r = rng(3)
    D = defects(True, True)
    todo = [[x] for x in sorted(D)]
    r.shuffle(todo)
    k = 0
    total = n(180, 900)
    while k < total:
        nside = int(r.choice([1, 4, 32]))
        pool = r.choice(12 * nside * nside, size=3)
        gen = bool(r.randint(3) == 0)
        lupt = bool(r.randint(4) == 0)
        parallel = bool(r.randint(3) == 0)
        d = fresh('c03')
        base = 'gals'
        outb = os.path.join(d, base)
        truth, zspec = bool(r.randint(3) == 0), bool(r.randint(3) == 0)
        if todo:
            truth |= todo[-1][0] in set(defects(True, False)) - set(defects())
            zspec |= todo[-1][0] in set(defects(False, True)) - set(defects())
        names = sorted(defects(truth, zspec))
        mask, maskfile = None, None
        if r.randint(3) == 0:
            maskfile = os.path.abspath('mask_c03.hs')
            mask = make_mask(maskfile, r)
        kw = dict(nside=nside, parallel=parallel, generate_unique_ids=gen, ingest_truth=truth, ingest_zspec=zspec, maskfile=maskfile,
                  mask_mode=3 if maskfile else 0)
        mk = GalaxyCatalogMaker(outb, info(lupt=lupt), **kw)
        steps, src, gid = [dict(op='open', gen=gen, nside=nside)], {}, 1
        nstep = int(r.choice([2, 3, 4, 6]))
        badleft = 1
        known_ids = []
        for s in range(nstep):
            m = int(r.choice([1, 2, 5, 15]))
            g, gids = batch(r, gid, m, nside, pool, truth, zspec)
            gid += m
            bad = (badleft and s == nstep - 1) or r.randint(3) == 0
            before = tree(d)
            if bad:
                if todo and todo[-1][0] in names:
                    ds = todo.pop()
                else:
                    ds = [names[r.randint(len(names))]]
                    if r.randint(3) == 0:
                        ds.append(names[r.randint(len(names))])
                ds = [x for x in ds if not (gen and x == 'dup_id') and not (lupt and x.startswith('magerr_9'))]
                if not ds:
                    continue
                try:
                    h = g
                    for x in ds:
                        h = D[x](h, r)
                except (ValueError, IndexError, KeyError, TypeError):   # the defects do not combine
                    continue
                badleft = 0
                res, _ = guard(mk.append_galaxies, h)
                steps.append(dict(op='bad', res=res, defect=','.join(ds), changed=tree(d) != before))
                out.count('bad_batches')
            else:
                if r.randint(6) == 0 and known_ids and not gen:
                    g['id'][r.randint(m)] = known_ids[r.randint(len(known_ids))]   # clashes with an earlier batch
                    if len(np.unique(g['id'])) < m:
                        continue
                for row, i in zip(g, gids):
                    src[int(i)] = row.copy()
                known_ids += [int(x) for x in g['id']]
                res, _ = guard(mk.append_galaxies, g)
                steps.append(dict(op='batch', res=res, rows=rows_of(g, gids, nside, mask), defect=''))
                out.count('good_batches')
        if not any(s['op'] == 'batch' and any(x['ok'] for x in s['rows']) for s in steps):
            continue
        # a new serial ingest onto the existing pixel files is refused and leaves them alone
        if r.randint(2):
            other = GalaxyCatalogMaker(outb, info(), nside=nside, parallel=False, generate_unique_ids=gen)
            g, gids = batch(r, 500000, 1, nside, pool, False, False)
            # at a position that is already in a file
            inside = [x['gid'] for s in steps if s['op'] == 'batch' for x in s['rows'] if x['ok']]
            s0 = src[inside[r.randint(len(inside))]]
            g['ra'], g['dec'] = s0['ra'], s0['dec']
            before = tree(d)
            res, _ = guard(other.append_galaxies, g)
            steps.append(dict(op='bad', res=res, defect='new ingest onto existing files', changed=tree(d) != before))
        res, _ = guard(mk.finalize_catalog)
        files, same, master, othr = observe(d, base, nside, src, gen)
        steps.append(dict(op='final', res=res, files=files, same=same, master=master, other=len(othr)))
        if res == 'ok':
            # frozen
            before = tree(d)
            g, gids = batch(r, 600000, 3, nside, pool, truth, zspec)
            for what, fn in (('append after finalise', lambda: mk.append_galaxies(g)),
                             ('split after finalise', lambda: mk.split_galaxies(g)),
                             ('new maker on finished catalogue', lambda: GalaxyCatalogMaker(outb, info(), **kw))):
                res, _ = guard(fn)
                steps.append(dict(op='bad', res=res, defect=what, changed=tree(d) != before))
            # a second worker whose maker was made before the catalogue was finished
        out.add('rej%03d' % k, steps)
        k += 1
        shutil.rmtree(d)


def main():
    setup_cwd()
    out = Out()
    {'conserve': conserve, 'reject': reject}[sys.argv[1]](out)
    if sys.argv[1] == 'conserve':
        bulk(out)
    out.write()


if __name__ == "__main__":
    main()
