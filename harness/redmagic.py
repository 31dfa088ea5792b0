"""C21: redMaGiC selection, the task over the table pixels, and its randoms."""
import glob
import hashlib
import os
import fitsio
import healsparse
import hpgeom as hpg
import yaml
from scipy.interpolate import CubicSpline as Spline
from harness.common import *   # noqa: F401,F403

KEEP = {}
SIZE = 1.5      # degrees


def preload():
    from redmapper import Configuration, RedSequenceColorPar
    setup_cwd()
    c = Configuration('data_for_tests/testconfig.yaml')
    KEEP['rs'] = RedSequenceColorPar(c.parfile, fine=True)
    KEEP['b'] = c.b
    # reading the red sequence takes longer than everything else
    from redmapper.redmagic import redmagic_selector as m
    if getattr(m, 'RedSequenceColorPar', None) is RedSequenceColorPar:
        m.RedSequenceColorPar = lambda f, *a, **k: KEEP['rs'] if f == c.parfile else RedSequenceColorPar(f, *a, **k)


def config(d, **kw):
    from redmapper import Configuration
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    y.update(dict(outpath=d, outbase='t', nside=0, hpix=[], zrange=[0.05, 0.60], zred_nsamp=4, has_truth=False, redmagicfile=d + '/rm.fit', specfile=d + '/spec.fit', area=2.0,
                  vlim_depthfiles=[], vlim_bands=[], vlim_nsigs=[], area_finebin=0.01, area_coarsebin=0.01, area_nodesize=0.05), **dict(dict(border=0.0), **kw))
    with open(d + '/conf.yml', 'w') as f:
        yaml.safe_dump(y, f)
    c = Configuration(d + '/conf.yml')
    c.zred_nsamp, c.has_truth, c.specfile, c.redmagicfile = y['zred_nsamp'], y['has_truth'], y['specfile'], y['redmagicfile']
    return c


def natural(x, y):
    s = Spline(x, y, bc_type='natural')

    def f(z):
        return np.where(z < x[0], y[0], np.where(z > x[-1], y[-1], s(z)))
    return f


def mode(r, d, name, centre, first):
    """Calibration of one mode, written as the calibration writes it, and the volume limit that goes with it."""
    from redmapper import Entry
    n1, n2 = int(r.randint(2, 6)), int(r.randint(2, 6))
    z0, z1 = float(r.choice([0.1, 0.15, 0.2])), float(r.choice([0.35, 0.4, 0.5]))
    fixed = bool(r.randint(4) == 0)
    vf = '' if fixed else d + '/v_%s.fit' % name
    vpix = {}
    nmap = 64
    if not fixed:
        p = hpg.query_circle(nmap, centre[0], centre[1], SIZE)
        p = p[r.uniform(size=p.size) < 0.85]
        if p.size == 0:
            p = np.atleast_1d(hpg.angle_to_pixel(nmap, centre[0], centre[1]))
        m = healsparse.HealSparseMap.make_empty(4, nmap, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
        v = np.zeros(p.size, dtype=m.dtype)
        v['fracgood'], v['zmax'] = r.choice([0.25, 0.5, 1.0], size=p.size), r.choice([0.22, 0.33, 0.44, 0.55, 0.55], size=p.size)
        v['zmax'][0], v['fracgood'][0] = 0.55, 1.0
        m.update_values_pix(p, v)
        m.write(vf, clobber=True)
        vpix = {int(a): (float(b['zmax']), float(b['fracgood'])) for a, b in zip(p, v)}
    e = Entry(np.zeros(1, dtype=[('zrange', 'f4', 2), ('cost_zrange', 'f4', 2), ('lstar_cushion', 'f4'), ('z_cushion', 'f4'), ('name', 'a%d' % (len(name) + 1)), ('maxchi', 'f4'), ('nodes', 'f8', n1), ('etamin', 'f8'),
                                 ('n0', 'f8'), ('cmax', 'f8', n1), ('corrnodes', 'f8', n2), ('run_afterburner', 'i2'), ('apply_afterburner', 'i2'), ('buffer', 'f4'), ('bias', 'f8', n2), ('eratio', 'f8', n2),
                                 ('vmaskfile', 'a%d' % (len(vf) + 1))]))
    cz = [z0 + 0.05, z1 - 0.05]
    q = dict(name=name, lo=cz[0], hi=cz[1], cush=0.05, zc=float(r.choice([0.0, 0.05])), buf=0.05, maxchi=float(r.choice([5., 20.])), eta=float(r.choice([0.12, 0.5, 1.0, 1.5])), runab=bool(r.randint(3)), applyab=bool(r.randint(2)),
             nodes=np.linspace(cz[0], cz[1], n1), cmax=np.round(r.uniform(-1, 8, size=n1), 2), corr=np.linspace(cz[0], cz[1], n2), bias=np.round(r.uniform(-0.04, 0.04, size=n2), 4), er=np.round(r.uniform(0.5, 1.5, size=n2), 3),
             vpix=vpix, fixed=fixed, nmap=nmap)
    if r.randint(2):
        q['cmax'] = np.abs(q['cmax']) + 1
    e.zrange[:], e.cost_zrange[:] = [z0, z1], cz
    e.lstar_cushion, e.z_cushion, e.buffer, e.name, e.maxchi, e.etamin, e.n0 = q['cush'], q['zc'], q['buf'], name, q['maxchi'], q['eta'], 10.0
    e.nodes[:], e.cmax[:], e.corrnodes[:], e.bias[:], e.eratio[:] = q['nodes'], q['cmax'], q['corr'], q['bias'], q['er']
    e.run_afterburner, e.apply_afterburner, e.vmaskfile = q['runab'], q['applyab'], '/elsewhere/' + os.path.basename(vf) if vf and len(vf) > len('/elsewhere/' + os.path.basename(vf)) else vf
    e.to_fits_file(d + '/rm.fit', clobber=first, extname=name)
    return q


def galaxies(r, m, centre, nsamp, modes):
    """Galaxies in and around the modes' cuts."""
    rs = KEEP['rs']
    g = np.zeros(m, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 5), ('mag_err', 'f4', 5), ('ebv', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('zred_samp', 'f4', (nsamp,)) if nsamp > 1 else ('zred_samp', 'f4'), ('chisq', 'f4')])
    g['id'] = r.choice(np.arange(1000, 1000 + 5 * m), size=m, replace=False)
    g['dec'] = centre[1] + r.uniform(-SIZE, SIZE, size=m) * 0.8
    g['ra'] = (centre[0] + r.uniform(-SIZE, SIZE, size=m) * 0.8 / np.cos(np.radians(centre[1]))) % 360.
    g['zred_uncorr'] = np.round(r.uniform(0.06, 0.58, size=m), 4)
    g['zred_uncorr_e'] = np.round(r.uniform(0.005, 0.05, size=m), 4)
    g['zred_samp'] = np.round(r.uniform(0.06, 0.58, size=(m, nsamp) if nsamp > 1 else m), 4)
    g['chisq'] = np.round(r.uniform(0, 7, size=m), 2)
    hi = r.uniform(size=m) < 0.1
    g['chisq'][hi] = np.round(r.uniform(0, 25, size=hi.sum()), 2)
    lum = np.round(10.**r.uniform(-1.1, 1.2, size=m), 3)
    q = modes[r.randint(len(modes))]
    near = r.uniform(size=m) < 0.4
    lum[near] = q['eta'] * np.round(r.uniform(0.85, 1.15, size=near.sum()), 3)
    g['refmag'] = rs.mstar(g['zred_uncorr'].astype('f8')) - 2.5 * np.log10(lum)
    g['refmag_err'] = r.uniform(0.01, 0.1, size=m)
    g['mag'], g['mag_err'] = r.uniform(15, 22, size=(m, 5)), r.uniform(0.01, 0.1, size=(m, 5))
    return g


def spectra(r, d, g):
    """Spectra around the galaxies: per galaxy those within ten arcseconds."""
    near = [[] for _ in range(g.size)]
    rows = []
    for i in r.choice(g.size, size=(g.size + 1) // 2, replace=False):
        for j in range(int(r.choice([1, 1, 2, 3]))):
            d_as = float(r.choice([0.5, 1.5, 2.5, 3.6, 6.0])) + 0.1 * j
            good = bool(r.randint(4))
            z = round(float(r.uniform(0.05, 0.6)), 3)
            th = r.uniform(0, 2 * np.pi)
            rows.append((float(g['ra'][i] + d_as / 3600. * np.cos(th) / np.cos(np.radians(g['dec'][i]))) % 360., float(g['dec'][i] + d_as / 3600. * np.sin(th)), z, 0.0001 if good else float(r.choice([0.002, 0.005, 0.05]))))
    rows.append((float((g['ra'][0] + 180) % 360), float(-g['dec'][0]), 0.3, 0.0001))
    s = np.array(rows, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('Z_ERR', 'f4')])
    s = s[r.permutation(s.size)]
    fitsio.write(d + '/spec.fit', s, clobber=True)
    # as seen from every galaxy
    a1, d1 = np.radians(g['ra']), np.radians(g['dec'])
    a2, d2 = np.radians(s['RA']), np.radians(s['DEC'])
    v1 = np.array([np.cos(d1) * np.cos(a1), np.cos(d1) * np.sin(a1), np.sin(d1)]).T
    v2 = np.array([np.cos(d2) * np.cos(a2), np.cos(d2) * np.sin(a2), np.sin(d2)]).T
    for i in range(g.size):
        sep = np.degrees(2 * np.arcsin(np.sqrt(((v2 - v1[i])**2).sum(axis=1)) / 2)) * 3600.
        for j in np.where(sep < 10)[0]:
            near[i].append(dict(d=int(round(sep[j] * 1000)), good=bool(s['Z_ERR'][j] < 0.001), z=scaled(s['Z'][j], 1000)))
    return near


def rows_for(g, q, near, zs):
    """What the specification needs to know about every galaxy under one mode."""
    rs = KEEP['rs']
    z = g['zred_uncorr'].astype('f8')
    cm = natural(q['nodes'], q['cmax'])(z)
    b = natural(q['corr'], q['bias'])(z) if q['runab'] else np.zeros(z.size)
    er = natural(q['corr'], q['er'])(z) if q['runab'] else np.ones(z.size)
    zm = z - b
    l0 = 10.**((rs.mstar(z) - g['refmag']) / 2.5)
    l1 = 10.**((rs.mstar(zm) - g['refmag']) / 2.5)
    if q['fixed']:
        zmax = np.full(z.size, 0.6)
    else:
        pp = hpg.angle_to_pixel(q['nmap'], g['ra'], g['dec'])
        zmax = np.array([q['vpix'].get(int(p), (-1.0, 0))[0] for p in pp])
    lim = np.clip(cm, 0.1, q['maxchi'])
    minl = max(q['eta'] - q['cush'], 0.1)
    edge = ((np.abs(g['chisq'] - lim) < 2e-3) | (np.abs(l0 - minl) < 1e-3 + 2e-3 * minl) | (np.abs(l1 - q['eta']) < 1e-3 + 2e-3 * q['eta']) | (np.abs(zm - zmax) < 1e-4) | (np.abs(z - (q['lo'] - q['zc'] - q['buf'])) < 1e-4) | (np.abs(z - (q['hi'] + q['zc'] + q['buf'])) < 1e-4)
            | (np.abs(g['chisq'] - q['maxchi']) < 2e-3))
    S = 100000
    return [dict(id=int(g['id'][i]), z=scaled(z[i], S), e=scaled(g['zred_uncorr_e'][i], S), chi=scaled(g['chisq'][i], 1000), cm=scaled(cm[i], 1000), b=scaled(b[i], S), er=scaled(er[i], 10000), l0=scaled(l0[i], 1000),
                 l1=scaled(l1[i], 1000), zmax=scaled(zmax[i], S), edge=bool(edge[i]), samp=[scaled(x, S) for x in np.atleast_1d(g['zred_samp'][i])], near=near[i], zs=zs[i]) for i in range(g.size)]


def params(q):
    S = 100000
    return dict(lo=scaled(q['lo'] - q['zc'] - q['buf'], S), hi=scaled(q['hi'] + q['zc'] + q['buf'], S), maxchi=scaled(q['maxchi'], 1000), eta=scaled(q['eta'], 1000), cush=scaled(q['cush'], 1000), runab=q['runab'], applyab=q['applyab'])


def outrows(o, g):
    S = 100000
    by = {int(x['id']): x for x in g}
    at = {int(x['id']): i + 1 for i, x in enumerate(g)}
    rows = []
    for x in o:
        x_ = by.get(int(x['id']))
        ok = x_ is not None and all(np.allclose(x[f], x_[f], rtol=1e-7, atol=0) for f in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'chisq'))
        rows.append(dict(id=int(x['id']), k=at.get(int(x['id']), 0), ok=bool(ok), z=scaled(x['zredmagic'], S), e=scaled(x['zredmagic_e'], S), samp=[scaled(s, S) for s in np.atleast_1d(x['zredmagic_samp'])], lum=scaled(x['lum'], 1000), zspec=scaled(x['zspec'], 1000)))
    return rows


def place(r):
    return float(r.choice([0.0, 359.9, 140.0, 220.0])), float(r.choice([0.0, 20.0, -50.0, 70.0]))


def select(k, r, out):
    from redmapper.redmagic import RedmagicSelector
    from redmapper import GalaxyCatalog
    d = fresh('c21')
    centre = place(r)
    nsamp = int(r.choice([1, 4, 4]))
    names = ['highdens', 'highlum', 'x'][:int(r.randint(1, 4))]
    modes = [mode(r, d, nm, centre, i == 0) for i, nm in enumerate(names)]
    m = int(r.choice([1, 3, 30, 150]))
    g = galaxies(r, m, centre, nsamp, modes)
    near = spectra(r, d, g)
    zs = [-1] * m
    how = int(r.randint(4))       # spectra: 0, 1 matched; 2 column of redshifts; 3 truth
    arr = g
    if how >= 2:
        col = 'zspec' if how == 2 else 'ztrue'
        arr = np.zeros(m, dtype=g.dtype.descr + [(col, 'f4')])
        for f in g.dtype.names:
            arr[f] = g[f]
        arr[col] = np.round(r.uniform(0.1, 0.6, size=m), 3)
        zs = [scaled(x, 1000) for x in arr[col]]
        if how == 3 and r.randint(2):
            a2 = np.zeros(m, dtype=arr.dtype.descr + [('zspec', 'f4')])
            for f in arr.dtype.names:
                a2[f] = arr[f]
            a2['zspec'] = 0.9
            arr = a2
    nosamp = bool(r.randint(8) == 0)
    if nosamp:
        arr = np.array(arr[[x for x in arr.dtype.names if x != 'zred_samp']].tolist(), dtype=[x for x in arr.dtype.descr if x[0] != 'zred_samp'])
    c = config(d, zred_nsamp=nsamp)
    res, sel = guard(RedmagicSelector, c)
    steps = [dict(op='calib', res=res, n=len(names), names=sorted(sel.modes) if res == 'ok' else [], want=sorted(names))]
    if res == 'ok':
        for q in modes:
            cat = GalaxyCatalog(arr.copy())
            res, ans = guard(sel.select_redmagic_galaxies, cat, q['name'], return_indices=True)
            e = dict(op='select', res=res, p=params(q), g=rows_for(g, q, near, zs), how=how, got=[], idx=True, order=True, nosamp=nosamp, kept=True)
            if res == 'ok':
                o, gd = ans
                e['got'] = outrows(o._ndarray, g)
                e['idx'] = bool([int(x) for x in g['id'][gd]] == [q_['id'] for q_ in e['got']])
                e['kept'] = bool(cat._ndarray.tobytes() == arr.tobytes())
                out.count('selected', len(e['got']))
                out.count('offered', m)
                out.count('empty selections', int(len(e['got']) == 0))
                out.count('with a spectrum', sum(1 for x in e['got'] if x['zspec'] > 0 and how < 2))
            steps.append(e)
        res, _ = guard(sel.select_redmagic_galaxies, GalaxyCatalog(arr.copy()), 'nosuch')
        steps.append(dict(op='nomode', res=res))
    out.add('sel%d' % k, steps)


def write_table(d, g, ntab, nsamp):
    """The galaxies as a pixelised catalogue with their redshifts."""
    from redmapper import GalaxyCatalogMaker
    from redmapper.galaxy import zred_extra_dtype
    from harness.regionread import write_zreds
    a = np.zeros(g.size, dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
    for f in a.dtype.names:
        if f in g.dtype.names:
            a[f] = g[f]
    info = dict(LIM_REF=21.0, REF_IND=3, AREA=2.0, NMAG=5, MODE='SDSS', ZP=22.5, B=np.asarray(KEEP['b']), U_IND=0, G_IND=1, R_IND=2, I_IND=3, Z_IND=4)
    mk = GalaxyCatalogMaker(d + '/gals', info, nside=ntab)
    mk.append_galaxies(a)
    mk.finalize_catalog()
    zf, _ = write_zreds(d, 'gals', nsamp, np.random.RandomState(1))
    by = {int(x['id']): x for x in g}
    for f in glob.glob(d + '/gals_zreds_0*.fit'):
        gf = fitsio.read(f.replace('_zreds', ''), ext=1, lower=True)
        z = np.zeros(gf.size, dtype=zred_extra_dtype(nsamp))
        for i, x in enumerate(gf):
            y = by[int(x['id'])]
            z['ZRED_UNCORR'][i], z['ZRED_UNCORR_E'][i], z['CHISQ'][i] = y['zred_uncorr'], y['zred_uncorr_e'], y['chisq']
            z['ZRED_SAMP'][i] = y['zred_samp']
            z['ZRED'][i] = 0.3
        fitsio.write(f, z, clobber=True)
    return d + '/gals_master_table.fit', zf


def digest(fn):
    return hashlib.md5(open(fn, 'rb').read()).hexdigest() if os.path.exists(fn) else ''


def table_of(fn):
    res, a = guard(table_of1, fn)
    return a


def table_of1(fn):
    with fitsio.FITS(fn) as f:
        if len(f) < 2:
            return None
        return np.atleast_1d(f[1].read(lower=True)) if f[1].get_nrows() else f[1].read(lower=True)


def task(k, r, out):
    from redmapper.redmagic import RunRedmagicTask
    d = fresh('c21t')
    centre = place(r)
    nsamp = int(r.choice([1, 4, 4]))
    names = ['highdens', 'highlum'][:int(r.randint(1, 3))]
    modes = [mode(r, d, nm, centre, i == 0) for i, nm in enumerate(names)]
    m = int(r.choice([12, 60, 200]))
    ntab = int(r.choice([32, 64]))
    for _ in range(20):
        g = galaxies(r, m, centre, nsamp, modes)
        if np.unique(hpg.angle_to_pixel(ntab, g['ra'], g['dec'], nest=False)).size > 1:
            break
    near = spectra(r, d, g)
    gal, zf = write_table(d, g, ntab, nsamp)
    config(d, zred_nsamp=nsamp, galfile=gal, zredfile=zf, border=float(r.choice([0.0, 0.3, 1.0])))
    use = names if r.randint(3) else [names[r.randint(len(names))]]
    modearg = None if use == names and r.randint(2) else list(use)
    nr = [0, None, 50][r.randint(3)]
    steps = []

    def go(clobber):
        t = RunRedmagicTask(d + '/conf.yml')
        t.run(modes=modearg, clobber=clobber, do_plots=False, n_randoms=nr, rng=np.random.RandomState(k))
        return t
    files = {}
    for turn, clobber in enumerate([False, False, True]):
        if turn == 1 and len(use) > 1 and r.randint(2):
            # one of the files is gone
            one = use[r.randint(len(use))]
            gone = [f for f in files if 'redmagic_%s' % one in f]
            for f in gone:
                os.unlink(f)
                del files[f]
        res, t = guard(go, clobber)
        if turn == 1:
            now = {f: digest(f) for f in files}
            steps.append(dict(op='again', res=res, same=bool(now == files)))
            continue
        for q in modes:
            fn = [f for f in glob.glob(d + '/*redmagic_%s.fit' % q['name'])]
            rf = [f for f in glob.glob(d + '/*redmagic_%s_randoms.fit' % q['name'])]
            for f in fn + rf:
                files[f] = digest(f)
            if q['name'] not in use:
                steps.append(dict(op='unasked', res=res, none=bool(not fn and not rf)))
                continue
            o = table_of(fn[0]) if len(fn) == 1 else None
            e = dict(op='select', res=res, p=params(q), g=rows_for(g, q, near, [-1] * m), how=0, got=[], idx=True, order=False, nosamp=False, kept=True)
            if res == 'ok':
                if len(fn) != 1:
                    e['res'] = 'no file'
                elif o is None:
                    e['res'] = 'no table'
                else:
                    e['got'] = outrows(o, g)
                    out.count('selected by a task', len(e['got']))
                    out.count('tasks with an empty first pixel', int(len(e['got']) > 0 and hpg.angle_to_pixel(ntab, o['ra'][0], o['dec'][0], nest=False) != hpg.angle_to_pixel(ntab, g['ra'], g['dec'], nest=False).min()))
            steps.append(e)
            if res == 'ok' and nr != 0:
                er = dict(op='rand', fixed=q['fixed'], file=bool(rf), n=(10 * len(e['got']) if nr is None else nr) if len(e['got']) else 0, rows=[], w=True, dens=[])
                if rf:
                    ro = table_of(rf[0])
                    zz = set(x['z'] for x in e['got'])
                    if ro is not None:
                        pp = hpg.angle_to_pixel(q['nmap'], ro['ra'], ro['dec'])
                        for x, p in zip(ro, np.atleast_1d(pp)):
                            zm, fr = q['vpix'].get(int(p), (-1.0, -1.0))
                            er['rows'].append(dict(f=scaled(fr, 4), z=scaled(x['z'], 100000), zmax=scaled(zm, 100000), one=bool(scaled(x['z'], 100000) in zz)))
                        er['dens'] = dens(q, er['rows'])
                        er['w'] = bool(np.all(ro['weight'] == 1.0))
                        out.count('redmagic randoms', len(er['rows']))
                steps.append(er)
        if res != 'ok':
            break
    out.add('task%d' % k, steps)


def dens(q, rows):
    """Where one maximum redshift holds: pixels and randoms per coverage."""
    res = []
    for zm in sorted(set(v[0] for v in q['vpix'].values())):
        a = [dict(f=f, pix=sum(1 for v in q['vpix'].values() if v[0] == zm and scaled(v[1], 4) == f), n=sum(1 for x in rows if x['zmax'] == scaled(zm, 100000) and x['f'] == f)) for f in (1, 2, 4)]
        if sum(x['pix'] for x in a):
            res.append(a)
    return res


def byname(k, r, out):
    """Randoms from files."""
    from redmapper.redmagic.redmagic_randoms import RedmagicGenerateRandoms
    from redmapper import VolumeLimitMask, GalaxyCatalog
    d = fresh('c21r')
    centre = place(r)
    q = None
    while q is None or q['fixed']:
        q = mode(r, d, 'x', centre, True)
    c = config(d)
    m = int(r.choice([1, 5, 60]))
    gz = np.round(r.uniform(0.1, 0.54, size=m), 4)
    gz[0] = 0.2
    a = np.zeros(m, dtype=[('ZREDMAGIC', 'f4')])
    a['ZREDMAGIC'] = gz
    fitsio.write(d + '/cat.fit', a)
    nr = int(r.choice([1, 7, 300, 3500]))
    how = int(r.randint(4))

    def go():
        v = d + '/v_x.fit' if how & 1 else VolumeLimitMask(c, q['eta'], vlimfile=d + '/v_x.fit')
        g = d + '/cat.fit' if how & 2 else GalaxyCatalog.from_fits_file(d + '/cat.fit')
        gen = RedmagicGenerateRandoms(c, v, g)
        gen.generate_randoms(nr, d + '/rand.fit', rng=np.random.RandomState(k))
        return gen
    res, gen = guard(go)
    e = dict(op='rand', fixed=False, file=bool(res == 'ok' and os.path.exists(d + '/rand.fit')), n=nr, rows=[], w=True, dens=[])
    steps = [e]
    if e['file']:
        ro = table_of(d + '/rand.fit')
        zz = set(scaled(np.float32(x), 100000) for x in gz)
        pp = np.atleast_1d(hpg.angle_to_pixel(q['nmap'], ro['ra'], ro['dec']))
        for x, p in zip(ro, pp):
            zm, fr = q['vpix'].get(int(p), (-1.0, -1.0))
            e['rows'].append(dict(f=scaled(fr, 4), z=scaled(x['z'], 100000), zmax=scaled(zm, 100000), one=bool(scaled(x['z'], 100000) in zz)))
        e['dens'] = dens(q, e['rows'])
        out.count('redmagic randoms', len(e['rows']))
        was = digest(d + '/rand.fit')
        res, _ = guard(gen.generate_randoms, 2, d + '/rand.fit', rng=np.random.RandomState(1))
        steps.append(dict(op='again', res=res, same=bool(digest(d + '/rand.fit') == was)))
        res, _ = guard(gen.generate_randoms, 2, d + '/rand.fit', clobber=True, rng=np.random.RandomState(1))
        steps.append(dict(op='replaced', res=res, n=int(getattr(table_of(d + '/rand.fit'), 'size', -1)), want=2))
    out.add('rand%d' % k, steps)


def main(part, nproc, out):
    for k in range(n(150, 1500)):
        if k % nproc == part:
            select(k, rng(21000 + k), out)
    for k in range(n(30, 250)):
        if k % nproc == part:
            task(k, rng(24000 + k), out)
    for k in range(n(24, 200)):
        if k % nproc == part:
            byname(k, rng(26000 + k), out)


if __name__ == '__main__':
    preload()
    shards(main, 6)
