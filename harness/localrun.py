"""C11 (split), C12 (run) and C13 (consol): the local multiprocessing run with recorded stage calls.

The numerical work of the three stages is replaced by stand-ins that record what they were asked to do; which pixels
are run, in which order, on which files, what is skipped, and the consolidation are the real code.
"""
import inspect
import os
import sys
import fitsio
import hpgeom as hpg
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403
from esutil.cosmology import Cosmo
from harness.consolidate_lib import CAT, MEM, pos_in

from redmapper import Configuration
from redmapper.catalog import Catalog
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_percolation import RunPercolation
from redmapper.redmapper_run import RedmapperRun

MASTER = 'data_for_tests/pixelized_dr8_test/dr8_test_galaxies_master_table.fit'


def master_table(fn, nside, hpix):
    tab, hdr = fitsio.read(MASTER, ext=1, header=True)
    hpix = np.asarray(hpix)
    dt = []
    for d in tab.dtype.descr:
        nm = d[0].lower()
        dt.append((nm, d[1], (hpix.size,)) if nm in ('hpix', 'ra_pix', 'dec_pix', 'ngals', 'filenames') else (nm,) + d[1:])
    new = np.zeros(1, dtype=dt + [('has_truth', '?'), ('has_zspec', '?')])
    for nm in tab.dtype.names:
        if nm.lower() not in ('hpix', 'ra_pix', 'dec_pix', 'ngals', 'filenames'):
            new[nm.lower()] = tab[nm]
    new['nside'] = nside
    new['hpix'][0] = hpix
    ra, dec = hpg.pixel_to_angle(nside, hpix, nest=False)
    new['ra_pix'][0] = ra
    new['dec_pix'][0] = dec
    new['ngals'][0] = 1
    new['filenames'][0] = ['f_%07d.fit' % p for p in hpix]
    fitsio.write(fn, new, header=dict(PIXELS=1, FITS=1), clobber=True)


def base_config(d, **kw):
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(outpath=d)
    y.update(kw)
    cf = os.path.join(d, 'conf.yml')
    with open(cf, 'w') as f:
        yaml.safe_dump(y, f)
    return cf


LOG = None
PLAN = None
ORIG = {}


class Stop(Exception):
    pass


def log(line):
    fd = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(line, default=conv) + '\n').encode())
    os.close(fd)


def probe(self, ev):
    log(ev)
    self.cat = None
    self.members = None


def readlog():
    if not os.path.isfile(LOG):
        return []
    with open(LOG) as f:
        r = [json.loads(x) for x in f]
    os.unlink(LOG)
    return r


def install():
    """Stand-ins for the numerical stages; everything around them stays real."""
    def make(kind, cls):
        sig = inspect.signature(cls.run)

        def run(self, *a, **kw):
            kw = dict(sig.bind(self, *a, **kw).arguments, **kw)
            hp = [int(x) for x in np.atleast_1d(self.config.d.hpix)]
            ev = dict(kind=kind, pix=hp, nside=int(self.config.d.nside), catfile=str(self.config.catfile),
                      seedfile=str(self.config.seedfile), keepz=bool(kw.get('keepz', False)),
                      cleaninput=bool(kw.get('cleaninput', False)), spec=bool(getattr(self, 'specmode', False)),
                      cosmo=self.config.cosmo is not None,
                      cpar=[round(float(x), 6) for x in (self.config.cosmo.H0(), self.config.cosmo.omega_m(), self.config.cosmo.omega_l())]
                      if self.config.cosmo is not None else [])
            PLAN(self, ev)
        cls.run = run
    make('first', RunFirstPass)
    make('like', RunLikelihoods)
    make('perc', RunPercolation)


# ---------------------------------------------------------------- C11
def nest(nside, p):
    return [int(x) for x in np.atleast_1d(hpg.ring_to_nest(nside, np.asarray(p)))]


def split(out):
    global LOG, PLAN
    r = rng(11)
    LOG = os.path.abspath('split.log')

    def plan(self, ev):
        log(ev)
        self.cat = None
        self.members = None
    PLAN = plan
    for k in range(n(60, 600)):
        d = fresh('c11')
        gk = int(r.choice([1, 2, 3, 4]))            # galaxy table nside = 2^gk
        gn = 2**gk
        npx = 12 * gn * gn
        regk = int(r.choice([-1, -1] + list(range(0, gk + 1))))
        mink = int(r.randint(0, gk + 1))
        nproc = int(r.choice([1, 1, 2, 3, 4, 6]))
        style = r.randint(3)
        if style == 0:
            pix = r.choice(npx, size=min(npx, int(r.randint(1, 30))), replace=False)
        elif style == 1:    # a compact patch
            c = int(r.randint(npx))
            ra, dec = hpg.pixel_to_angle(gn, c, nest=False)
            pix = hpg.query_circle(gn, float(ra), float(dec), float(r.choice([3, 10, 30])), nest=False, inclusive=True)
        else:               # children of a few coarse pixels
            cn = [int(x) for x in r.choice(12, size=2, replace=False)]
            pix = hpg.nest_to_ring(gn, np.concatenate([np.arange(4**gk) + b * 4**gk for b in cn]))
            pix = pix[r.uniform(size=pix.size) < 0.7]
            if pix.size == 0:
                pix = np.array([0])
        pix = np.unique(pix)
        if r.randint(2):
            pix = pix[r.permutation(pix.size)]
        # some tables list pixels without galaxies?  The table lists non-empty pixels only.
        region = []
        if regk >= 0:
            parents = sorted(set(x // 4**(gk - regk) for x in nest(gn, pix)))
            m = int(r.choice([1, 1, 2, 3]))
            region = [parents[int(r.randint(len(parents)))]]
            while len(region) < m:
                q = int(r.randint(12 * 4**regk))
                region = sorted(set(region) | {q}) if q not in region else region + []
                if len(region) >= 12 * 4**regk:
                    break
            region = sorted(set(region))
        gal = os.path.join(d, 'gal_master_table.fit')
        master_table(gal, gn, pix)
        ring = [int(x) for x in np.atleast_1d(hpg.nest_to_ring(2**regk, np.asarray(region)))] if region else []
        if r.randint(2):
            ring = ring[::-1]
        cf = base_config(d, galfile=gal, nside=2**regk if regk >= 0 else 0, hpix=ring, calib_run_nproc=nproc,
                         calib_run_min_nside=2**mink)
        res, _ = guard(lambda: RedmapperRun(Configuration(cf)).run(consolidate=False, check=bool(r.randint(2))))
        evs = readlog()
        jobs = []
        for e in evs:
            ns = e['nside']
            ok = ns in (1, 2, 4, 8, 16, 32, 64) and len(e['pix']) == 1 and 0 <= e['pix'][0] < 12 * ns * ns
            jobs.append(dict(ok=ok, k=int(np.log2(ns)) if ok else -1, pix=nest(ns, e['pix'])[0] if ok else -1, cosmo=e['cosmo']))
        out.add('split%03d' % k, [dict(op='split', res=res, galk=gk, gal=nest(gn, pix), regk=regk, region=region, mink=mink,
                                      nproc=nproc, jobs=jobs)])
        out.count('splits')
        out.count('jobs', len(jobs))


# ---------------------------------------------------------------- C12
STAGES = dict(first=1, like=2, perc=3)
CATX = CAT + [('e1', 'i4'), ('e2', 'i4'), ('e3', 'i4')]


def run(out):
    global LOG, PLAN
    r = rng(12)
    LOG = os.path.abspath('run.log')
    state = {}
    ctl = os.path.abspath('crash.ctl')
    real_write = fitsio.write

    def current():
        with open(ctl) as f:
            return json.load(f)

    def write(fn, *a, **kw):
        # interruption: between completed outputs
        c = current()
        base = os.path.basename(str(fn))
        if c.get('match') is not None and c['match'] in base and c['kind'] == 'before':
            log(dict(kind='crash'))
            raise Stop('interrupted')
        v = real_write(fn, *a, **kw)
        if c.get('match') is not None and c['match'] in base and c['kind'] == 'after':
            log(dict(kind='crash'))
            raise Stop('interrupted')
        return v
    fitsio.write = write
    with open(ctl, 'w') as f:
        json.dump(dict(match=None, kind=''), f)

    def plan(self, ev):
        log(ev)
        c = current()
        p = ev['pix'][0]
        sc = c['content'].get(str(p))
        s = STAGES[ev['kind']]
        self.members = None
        if c.get('crashrun') == [s, p]:
            log(dict(kind='crash'))
            raise Stop('interrupted')
        if sc is None or s >= sc['empty_at']:
            self.cat = None if (p % 2) else Catalog(np.zeros(0, dtype=CATX))
            return
        if s == 1 or c['ponly']:
            cat = np.zeros(len(sc['gids']), dtype=CATX)
            for i, g in enumerate(sc['gids']):
                cat['gid'][i] = g
                cat['ra'][i], cat['dec'][i] = sc['pos'][i]
                cat['lambda'][i] = 20.
                cat['scaleval'][i] = 1.
                cat['lnlike'][i] = g
                cat['mem_match_id'][i] = i + 1
        else:
            cat = np.atleast_1d(fitsio.read(self.config.catfile, ext=1, lower=True))
        cat['e%d' % s] = c['epoch']
        self.cat = Catalog(cat)
        if s == 3:
            mem = np.zeros(cat.size, dtype=MEM)
            mem['mem_match_id'] = cat['mem_match_id']
            mem['id'] = cat['gid']
            mem['p'] = c['epoch']
            self.members = Catalog(mem)
    PLAN = plan

    def rd(fn):
        if not os.path.isfile(fn):
            return None
        try:
            return np.atleast_1d(fitsio.read(fn, ext=1, lower=True))
        except Exception:
            return None

    for k in range(n(80, 400)):
        d = fresh('c12')
        gk = 3
        gn = 8
        npix = int(r.choice([1, 2, 3, 4]))
        splitk = int(r.choice([0, 1, 2]))
        sn = 2**splitk
        pixels = sorted(r.choice(12 * sn * sn, size=npix, replace=False).tolist())
        gal = os.path.join(d, 'gal_master_table.fit')
        gpix = [int(hpg.nest_to_ring(gn, x * 4**(gk - splitk) + int(r.randint(4**(gk - splitk))))) for x in nest(sn, pixels)]
        master_table(gal, gn, sorted(gpix))
        nproc = int(r.choice([1, 2, 3]))
        name = ['run', 'a_1_00', 'x.fit_y'][r.randint(3)]
        ponly = bool(r.randint(5) == 0)
        specmode = bool(not ponly and r.randint(4) == 0)
        keepz = specmode or bool(r.randint(2))
        seed = [None, 'seeds_%d.fit' % k][r.randint(2)]
        clean = bool(r.randint(2))
        cpar = [[100.0, 0.3, 0.7], [70.0, 0.25, 0.75]][r.randint(2)]
        runner = None
        region = {}
        if r.randint(3) == 0:      # a region given at another resolution
            region = dict(nside=1, hpix=sorted(set(int(hpg.nest_to_ring(1, x // 4**splitk)) for x in nest(sn, pixels))))
        printlog = bool(r.randint(3))
        cf = base_config(d, galfile=gal, outbase=name, calib_run_nproc=1 if r.randint(3) == 0 else nproc, calib_run_min_nside=sn,
                         percolation_minlambda=3.0, max_maskfrac=0.25, seedfile='cfgseeds.fit', catfile='cfgcat.fit',
                         printlogging=printlog, **region)
        # which jobs this table and number of processes give (judged by C11)
        PLAN = probe
        res, _ = guard(lambda: RedmapperRun(Configuration(cf)).run(consolidate=False))
        PLAN = plan
        evs = readlog()
        if res != 'ok' or not evs:
            out.add('run%03d' % k, [dict(op='failed')])
            continue
        sn = evs[0]['nside']
        pixels = sorted(set(e['pix'][0] for e in evs))
        content = {}
        gid = 0
        for i, p in enumerate(pixels):
            gids = list(range(gid + 1, gid + 1 + int(r.choice([1, 2, 3]))))
            gid = gids[-1]
            content[str(p)] = dict(gids=gids, pos=[pos_in(sn, p, r) for _ in gids],
                                   empty_at=int(r.choice([9, 9, 9, 1, 2, 3])) if i > 0 else 9)
            if ponly:
                content[str(p)]['empty_at'] = int(r.choice([9, 9, 3])) if i > 0 else 9
        # files of an earlier run of the same name with another split are in the way
        if r.randint(3) == 0:
            with open(ctl, 'w') as f:
                json.dump(dict(epoch=50, ponly=ponly, match=None, kind='', crashrun=None,
                               content={str(p): dict(gids=[900 + p], pos=[pos_in(4, 7, r)], empty_at=9) for p in range(3072)}), f)
            cf0 = os.path.join(d, 'conf0.yml')
            with open(cf) as f:
                y0 = yaml.safe_load(f)
            y0.update(calib_run_nproc=1, calib_run_min_nside=2 * sn if sn < 8 else sn // 2)
            with open(cf0, 'w') as f:
                yaml.safe_dump(y0, f)
            res0, _ = guard(lambda: RedmapperRun(Configuration(cf0)).run(consolidate=False, specmode=specmode, percolation_only=ponly, keepz=keepz))
            readlog()
            out.count('earlier_splits', int(res0 == 'ok'))
        steps = [dict(op='setup', pixels=[dict(pix=p, gids=content[str(p)]['gids'], empty=content[str(p)]['empty_at']) for p in pixels],
                      ponly=ponly, spec=specmode, keepz=keepz, clean=clean)]
        nrun = int(r.choice([1, 2, 3]))
        ns_used = None
        wantlike = bool(not ponly and r.randint(2))
        steps[0]['like'] = wantlike
        for e in range(1, nrun + 1):
            last = e == nrun
            check = bool(r.randint(5) > 0)
            c = dict(epoch=e, content=content, ponly=ponly, match=None, kind='', crashrun=None)
            if not last or r.randint(4) == 0:
                p = int(r.choice(pixels))
                w = r.randint(10)
                tag = '_%05d' % p
                if w < 2:
                    c['crashrun'] = [int(r.randint(1, 4)), p]
                elif w < 7:
                    c['match'] = tag + ['_firstpass', '_like_catalog', '_final_catalog.fit', '_final_catalog_members', '_final_catalog'][r.randint(5)]
                    c['kind'] = ['before', 'after'][r.randint(2)]
                else:
                    c['match'] = name + ['_final.fit', '_final_members.fit', '_like.fit'][r.randint(3 if wantlike else 2)]
                    c['kind'] = ['before', 'after'][r.randint(2)]
            with open(ctl, 'w') as f:
                json.dump(c, f)
            had = os.path.isfile(os.path.join(d, name + '_final.fit')) and os.path.isfile(os.path.join(d, name + '_final_members.fit'))
            kw = dict(specmode=specmode, check=check, percolation_only=ponly, keepz=keepz, seedfile=seed, cleaninput=clean)
            if wantlike:
                kw['consolidate_like'] = True
            if runner is None or r.randint(2):
                conf = Configuration(cf)
                conf.cosmo = Cosmo(H0=cpar[0], omega_m=cpar[1], omega_l=cpar[2])
                runner = RedmapperRun(conf)
            # otherwise the object that has done a run does the next one
            before = (str(conf.seedfile), str(conf.d.outbase), [int(x) for x in conf.d.hpix], int(conf.d.nside))
            res, val = guard(lambda: runner.run(**kw))
            if res != 'ok':
                runner = None
            after = (str(conf.seedfile), str(conf.d.outbase), [int(x) for x in conf.d.hpix], int(conf.d.nside))
            evs = readlog()
            steps.append(dict(op='run', epoch=e, check=check, crashed=any(x['kind'] == 'crash' for x in evs), had=had))
            for x in evs:
                if x['kind'] == 'crash':
                    continue
                s = STAGES[x['kind']]
                p = x['pix'][0]
                ns_used = x['nside']
                # what the stage's input file is, judged by content
                if s == 1:
                    inp = 'seed' if x['seedfile'] == (seed if seed is not None else 'cfgseeds.fit') else 'other'
                elif ponly:
                    inp = 'catfile' if x['catfile'] == 'cfgcat.fit' else 'other'
                else:
                    want = os.path.join(d, '%s_%d_%05d_%s_catalog.fit' % (name, x['nside'], p, ('firstpass_spec' if specmode else 'firstpass') if s == 2 else 'like'))
                    inp = 'prev' if os.path.abspath(x['catfile']) == os.path.abspath(want) else 'other'
                steps.append(dict(op='stage', s=s, pix=p, inp=inp, keepz=x['keepz'], spec=x['spec'], clean=x['cleaninput'], cosmo=x['cpar'] == cpar))
            files = []
            for p in pixels:
                outb = name + '_%d_%05d' % (ns_used or sn, p)
                pre = os.path.join(d, outb)
                fs = []
                for s, nm in ((1, 'firstpass_spec' if specmode else 'firstpass'), (2, 'like'), (3, 'final')):
                    a = rd(pre + '_%s_catalog.fit' % nm)
                    if a is None:
                        fs.append(dict(e=0, gids=[], deps=[0, 0, 0]))
                    else:
                        dep = [int(a['e%d' % q][0]) if a.size else -1 for q in (1, 2, 3)]
                        fs.append(dict(e=int(a['e%d' % s][0]) if a.size else -1, gids=[int(x) for x in a['gid']], deps=dep))
                m = rd(pre + '_final_catalog_members.fit')
                files.append(dict(pix=p, fs=fs, mem=0 if m is None else (int(m['p'][0]) if m.size else -1)))
            fin = rd(os.path.join(d, name + '_final.fit'))
            fmem = rd(os.path.join(d, name + '_final_members.fit'))
            flike = rd(os.path.join(d, name + '_like.fit'))
            want = os.path.join(d, name + '_final.fit')
            if wantlike:
                want = (want, os.path.join(d, name + '_like.fit'))
            steps.append(dict(op='end', res=res, files=files,
                              ret=bool(res == 'ok' and val == want), flike=flike is not None,
                              like=dict(gids=[] if flike is None else [int(x) for x in flike['gid']], ep=[] if flike is None else [int(x) for x in flike['e2']]),
                              restored=before == after,
                              final=dict(present=fin is not None, gids=[] if fin is None else [int(x) for x in fin['gid']],
                                         ep=[] if fin is None else [int(x) for x in fin['e3']]),
                              fmem=dict(present=fmem is not None, gids=[] if fmem is None else [int(x) for x in fmem['id']])))
            out.count('runs')
            out.count('stage_calls', sum(1 for x in evs if x['kind'] != 'crash'))
            out.count('interruptions', int(any(x['kind'] == 'crash' for x in evs)))
        out.add('run%03d' % k, steps)
    fitsio.write = real_write


# ---------------------------------------------------------------- C13
def consol(out):
    global LOG, PLAN
    r = rng(13)
    LOG = os.path.abspath('consol.log')
    cur = {}

    def plan(self, ev):
        p = ev['pix'][0]
        cat, mem = cur['cats'][p]
        self.members = None
        if ev['kind'] == 'first':
            self.cat = Catalog(cat.copy())
        elif ev['kind'] == 'like':
            self.cat = Catalog(cat.copy())
        else:
            self.cat = Catalog(cat.copy())
            self.members = Catalog(mem.copy())
    PLAN = plan
    for k in range(n(60, 500)):
        d = fresh('c13')
        splitk = int(r.choice([0, 1, 2, 3]))
        sn = 2**splitk
        gn = 8
        npix = int(r.choice([1, 2, 3, 5]))
        pixels = sorted(r.choice(12 * sn * sn, size=npix, replace=False).tolist())
        gal = os.path.join(d, 'gal_master_table.fit')
        gpix = [int(hpg.nest_to_ring(gn, x * 4**(3 - splitk) + int(r.randint(4**(3 - splitk))))) for x in nest(sn, pixels)]
        master_table(gal, gn, sorted(gpix))
        minlam = float(r.choice([3.0, 5.0, 4.5]))
        maxmask = float(r.choice([0.25, 0.5]))
        name = ['run', 'b_fit', 'x.fit_y', 'r.fit'][r.randint(4)]
        wantlike = bool(r.randint(2))
        ponly = bool(r.randint(4) == 0)
        nproc = int(r.choice([1, 1, 2, 4]))
        # a single process splits at the minimum resolution; several may split finer, down to the galaxy pixels
        cf = base_config(d, galfile=gal, outbase=name, calib_run_nproc=nproc, calib_run_min_nside=sn,
                         percolation_minlambda=minlam, max_maskfrac=maxmask)
        PLAN = probe
        guard(lambda: RedmapperRun(Configuration(cf)).run(consolidate=False))
        evs = readlog()
        if not evs:
            out.add('con%03d' % k, [dict(op='consol', res='no jobs dispatched', minlam=0, maxmask=0, files=[], like=False, ponly=False,
                                         final=dict(present=False, rows=[], members=[], same=True), lk=dict(present=False, gids=[], same=True))])
            continue
        PLAN = plan
        jn = evs[0]['nside']
        jpix = sorted(set(e['pix'][0] for e in evs))
        cats, files, src, memsrc = {}, [], {}, {}
        gid = 0
        tie = r.randint(4) == 0
        pbad = float(r.choice([0.02, 0.1, 0.25, 0.6]))
        nsurv = 0
        for q, p in enumerate(jpix):
            nc = int(r.choice([1, 2, 3, 6, 9]))
            low = r.randint(5) == 0 and q > 0
            cat = np.zeros(nc, dtype=CAT)
            mems, rows = [], []
            ids = r.choice(20, size=nc, replace=False) + 1
            if r.randint(2):
                ids = np.arange(nc) + 1
            for i in range(nc):
                gid += 1
                pp = p
                if r.uniform() < pbad:
                    pp = int(r.randint(12 * jn * jn)) if r.randint(2) else int(r.choice([x for x in hpg.neighbors(jn, p, nest=False) if x >= 0]))
                lam4 = int(r.choice([4, 11, 12, 13, 18, 19, 20, 21, 40, 80] if r.uniform() < pbad else [24, 40, 80, 85]))
                sc4 = int(r.choice([4, 4, 8, 2, 16] if r.uniform() < pbad else [4, 4, 3]))
                mk = int(r.choice([0, 8, 15, 16, 17, 31, 32, 33, 64] if r.uniform() < pbad else [0, 3, 8, 15]))
                if low:
                    lam4 = 4
                    sc4 = 4
                if q == 0 and i == 0:     # at least one survivor overall
                    pp, lam4, sc4, mk = p, 80, 4, 0
                lk = int(r.randint(4)) * 10 if tie else gid * 7 % 101 * 4 - 150
                ra, dec = pos_in(jn, pp, r)
                c = cat[i]
                c['mem_match_id'] = ids[i]
                c['ra'], c['dec'] = ra, dec
                c['lambda'] = lam4 / 4.
                c['scaleval'] = sc4 / 4.
                c['maskfrac'] = mk / 64.
                c['lnlike'] = lk / 4.
                c['lnlamlike'] = -lk
                c['gid'] = gid
                c['payload'] = r.uniform(size=3)
                mids = []
                for j in range(int(r.choice([1, 1, 2, 4]))):
                    g = gid * 100 + j
                    mids.append(g)
                    mems.append((ids[i], g, ra, dec, r.uniform(), -1.0, r.uniform(size=2)))
                rows.append(dict(gid=gid, inpix=bool(pp == p), lam=lam4, scale=sc4, mask=mk, like=lk, mem=mids))
                src[gid] = c.copy()
            r.shuffle(mems)
            mem = np.zeros(len(mems), dtype=MEM)
            for j, mm in enumerate(mems):
                mem[j] = mm
                memsrc[int(mm[1])] = mem[j].copy()
            cats[p] = (cat, mem)
            files.append(dict(pix=p, rows=rows))
        cur['cats'] = cats
        wantlike = wantlike and not ponly
        res, val = guard(lambda: RedmapperRun(Configuration(cf)).run(check=bool(r.randint(2)), consolidate_like=wantlike,
                                                                     percolation_only=ponly))

        def same(a, key, s):
            return all(int(x[key]) in s and all(np.array_equal(x[nm], s[int(x[key])][nm]) for nm in x.dtype.names if nm != 'mem_match_id') for x in a)

        fc, fm, fl = [os.path.join(d, name + x) for x in ('_final.fit', '_final_members.fit', '_like.fit')]
        o = dict(present=False, rows=[], members=[], same=True)
        if os.path.isfile(fc) and os.path.isfile(fm):
            a = np.atleast_1d(fitsio.read(fc, ext=1, lower=True))
            b = np.atleast_1d(fitsio.read(fm, ext=1, lower=True))
            o = dict(present=True, rows=[dict(gid=int(x['gid']), id=int(x['mem_match_id'])) for x in a],
                     members=[dict(gid=int(x['id']), id=int(x['mem_match_id'])) for x in b],
                     same=bool(same(a, 'gid', src) and same(b, 'id', memsrc)))
        lk = dict(present=False, gids=[], same=True)
        if os.path.isfile(fl):
            a = np.atleast_1d(fitsio.read(fl, ext=1, lower=True))
            lk = dict(present=True, gids=[int(x['gid']) for x in a], same=bool(same(a, 'gid', src)))
        out.add('con%03d' % k, [dict(op='consol', res=res, minlam=int(round(minlam * 4)), maxmask=int(maxmask * 64), files=files,
                                     like=wantlike, ponly=ponly, final=o, lk=lk)])
        out.count('clusters_in', gid)


def main():
    setup_cwd()
    out = Out()
    install()
    {'split': split, 'run': run, 'consol': consol}[sys.argv[1]](out)
    out.write()


if __name__ == "__main__":
    main()
