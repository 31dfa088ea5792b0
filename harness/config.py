"""C17: histories of loading, copying, changing, writing and reloading configurations."""
import fitsio
import yaml
from harness.common import *   # noqa: F401,F403

JOB = ('outbase', 'hpix', 'nside')


def canon(v):
    if v is None:
        return 'null'
    if isinstance(v, np.ndarray):
        v = v.tolist() if v.ndim else v.item()
    if isinstance(v, np.generic):
        v = v.item()
    if v is None:
        return 'null'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return 's:' + v
    return '%.6g' % float(v)


def nums(v):
    v = v if isinstance(v, (list, tuple, np.ndarray)) else [v]
    o = []
    for x in v:
        if isinstance(x, (int, float, np.number, bool)):
            o.append(scaled(x, 1000))
    return o


def catalogues():
    from redmapper import GalaxyCatalogMaker
    cats = []
    for i, (nm, mode, tr, zs, bands) in enumerate([(5, 'SDSS', 0, 0, 'ugriz'), (4, 'DES', 1, 0, 'griz'), (3, 'LSST', 0, 1, 'gri'), (5, 'DES', 1, 1, 'grizy')]):
        info = dict(LIM_REF=20.5 + i, REF_IND=2, AREA=100.0 + 10 * i, NMAG=nm, MODE=mode, ZP=22.5 + i)
        for j, b in enumerate(bands):
            info[b.upper() + '_IND'] = j
        m = 3
        g = np.zeros(m, dtype=GalaxyCatalogMaker.get_galaxy_dtype(nm, truth=bool(tr), zspec=bool(zs)))
        g['id'] = np.arange(m) + 1
        g['ra'] = [10., 50., 100.]
        g['refmag'] = 18.0
        g['mag'] = 18.0
        g['mag_err'] = 0.1
        g['refmag_err'] = 0.1
        mk = GalaxyCatalogMaker('./cat%d' % i, info, nside=8, ingest_truth=bool(tr), ingest_zspec=bool(zs))
        mk.append_galaxies(g)
        mk.finalize_catalog()
        f = os.path.abspath('cat%d_master_table.fit' % i)
        b = fitsio.read(f, ext=1, lower=True)['b'][0]
        cats.append(dict(file=f, ok=True, nmag=nm, truth=bool(tr), zspec=bool(zs), bands=list(bands), area=scaled(info['AREA'], 1000),
                         vals=dict(galfile_pixelized='1', survey_mode=canon(['SDSS', 'DES', 'LSST'].index(mode)), area=canon(info['AREA']), limmag_ref=canon(info['LIM_REF']), nmag=canon(nm),
                                   zeropoint=canon(info['ZP']), galfile_nside='8', bands=canon(list(bands)), galfile_has_truth=canon(tr), galfile_has_zspec=canon(zs), b=canon(b))))
    # not pixelised: the numbers are in the header
    for mode in ('SDSS', 'XYZ'):
        g = np.zeros(3, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8')])
        f = os.path.abspath('flat_%s.fit' % mode)
        h = [dict(name='FITS', value=1), dict(name='PIXELS', value=0), dict(name='MODE', value=mode), dict(name='AREA', value=77.0), dict(name='LIM_REF', value=19.5), dict(name='NMAG', value=3), dict(name='ZP', value=25.0)]
        h += [dict(name='%s_IND' % b, value=j) for j, b in enumerate('GRI')]
        fitsio.write(f, g, header=h, clobber=True)
        cats.append(dict(file=f, ok=mode == 'SDSS', nmag=3, truth=False, zspec=False, bands=['g', 'r', 'i'], area=77000,
                         vals=dict(galfile_pixelized='0', survey_mode='0', area='77', limmag_ref='19.5', nmag='3', zeropoint='25', galfile_nside='0', bands=canon(['g', 'r', 'i']),
                                   galfile_has_truth='0', galfile_has_zspec='0', b='unset')))
    cats.append(dict(cats[0], file=os.path.abspath('none.fit'), ok=False))
    return cats


def main(part, nproc, out):
    from redmapper import Configuration
    import redmapper
    keyfile = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'ConfigKeys.tla')
    import re
    txt = open(keyfile).read()
    defaults = dict(re.findall(r'(\w+) \|-> "([^"]*)"', txt))
    seqs = set(re.findall(r'"(\w+)"', re.search(r'Arrays == \{(.*?)\}', txt).group(1) + re.search(r'Lists == \{(.*?)\}', txt).group(1)))
    keys = sorted(defaults)
    cats = catalogues()
    for ex in ('zz', 'bb', 'pp', 'll', 'rr'):
        open(ex + '.fit', 'w').close()
    wdt = [(x, 'f8') for x in ('delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma')]
    phi = [(x, 'f8') for x in ('phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')]
    wc = {}
    for nm, dt in (('wcen_old.fit', wdt), ('wcen_new.fit', wdt + phi)):
        w = np.zeros(1, dtype=dt)
        for j, x in enumerate(w.dtype.names):
            w[x] = 0.5 + j
        fitsio.write(nm, w, clobber=True)
        wc[nm] = {('wcen_' + x if x in ('sigma_m', 'pivot') else {'delta0': 'wcen_Delta0', 'delta1': 'wcen_Delta1'}.get(x, x)): canon(w[x][0]) for x in w.dtype.names}
    CATKEYS = set(cats[0]['vals']) | {'ref_ind'}
    # keys that are not varied freely
    SPECIAL = CATKEYS | {'galfile', 'refmag', 'zrange', 'outbase', 'outpath', 'plotpath', 'logpath', 'hpix', 'nside', 'mask_mode', 'maskfile', 'depthfile', 'has_truth', 'centering_use_zspec', 'wcenfile',
                         'vlim_depthfiles', 'vlim_bands', 'vlim_nsigs', 'bkg_local_annuli', 'redmagic_zrange', 'redmagic_names', 'redmagic_n0s', 'redmagic_etas', 'redmagic_zmaxes',
                         'calib_colormem_zbounds', 'calib_colormem_colormodes', 'calib_colormem_sigint', 'calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes',
                         'npzbins', 'percolation_maxcen', 'area', 'limmag_catalog', 'zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'randfile'}
    FREE = [k for k in keys if k not in SPECIAL]

    def value(r, k):
        d = defaults[k]
        if k in seqs:
            m = int(r.randint(0, 4))
            return [round(float(r.uniform(0, 9)), 3) for _ in range(m)]
        if d in ('0', '1'):
            return [True, False, 0, 1, 2.5][r.randint(5)]
        if d == 'null' or d.startswith('s:') or d == 'package':
            return ['file_%d.fit' % r.randint(99), 'a b', 'x', '7', 'yes_no'][r.randint(5)]
        return [int(r.randint(1, 50)), round(float(r.uniform(-2, 50)), 4), 0.0, 0, 1e-5, -1.0][r.randint(6)]

    def observe(c):
        return {k: canon(getattr(c, k)) for k in keys}

    def job(c):
        return [canon(getattr(c.d, x)) for x in JOB]

    def given(y):
        return [dict(k=k, null=v is None, seq=isinstance(v, list), len=len(v) if isinstance(v, list) else 1, s=canon(v), n=nums(v), w=[str(x) for x in v] if isinstance(v, list) else []) for k, v in y.items()]

    def gen(r):
        ci = int(r.choice([0, 0, 0, 1, 1, 2, 2, 3, 4]))
        y = dict(refmag='i', outbase=['run', 'run2', 'run_7_00012'][r.randint(3)], zrange=[0.05 * r.randint(1, 5), 0.6 + 0.05 * r.randint(5)])
        nm1 = cats[ci]['nmag'] - 1
        y.update(calib_color_nodesizes=[0.05] * nm1, calib_slope_nodesizes=[0.1] * nm1, calib_color_maxnodes=[-1.0] * nm1, calib_covmat_maxnodes=[0.5] * nm1)
        for k in r.choice(FREE, size=int(r.choice([0, 3, 12])), replace=False):
            y[str(k)] = value(r, k)
        if r.randint(3) == 0:
            y['outpath'] = './o%d' % r.randint(3)
        if r.randint(4) == 0:
            y['plotpath'] = 'p%d' % r.randint(3)
        if r.randint(3) == 0:
            y['nside'] = int(r.choice([0, 2, 8]))
            y['hpix'] = [[], [3], [3, 7], 5][r.randint(4)]
        if r.randint(3) == 0:
            y['area'] = float(r.choice([100.0, 100.0005, 50.0, 110.0, 77.25]))
        if r.randint(3) == 0:
            y['depthfile'] = 'dd.fit'
        if r.randint(3) == 0:
            y['limmag_catalog'] = 19.25
        if r.randint(4) == 0:
            y['maskfile'] = 'mm.fit'
            y['mask_mode'] = 3
        if r.randint(4) == 0:
            y['has_truth'] = bool(r.randint(2))
        if r.randint(4) == 0:
            y['centering_use_zspec'] = bool(r.randint(2))
        if r.randint(4) == 0:
            y['npzbins'] = int(r.randint(5, 30))
        if r.randint(4) == 0:
            y['percolation_maxcen'] = int(r.randint(2, 9))
        if r.randint(3) == 0:
            y['wcenfile'] = str(r.choice(['wcen_old.fit', 'wcen_new.fit', 'wcen_none.fit']))
        if r.randint(3) == 0:
            m = int(r.randint(0, 3))
            y.update(vlim_depthfiles=['d%d.fit' % j for j in range(m)], vlim_bands=[str(r.choice(cats[ci]['bands'])) for j in range(m)], vlim_nsigs=[5.0] * m)
        if r.randint(3) == 0:
            m = int(r.randint(1, 4))
            y.update(redmagic_names=['n%d' % j for j in range(m)], redmagic_n0s=[1.5] * m, redmagic_etas=[0.5] * m, redmagic_zmaxes=[0.7] * m)
        if r.randint(3) == 0:
            y['redmagic_zrange'] = [[0.1, 0.5], [], [-1.0, 0.5], [-1.0, -1.0]][r.randint(4)]
        if r.randint(3) == 0:
            y['bkg_local_annuli'] = [[1.0, 2.5], [3.0, 4.0]][r.randint(2)]
        if r.randint(3) == 0:
            m = int(r.randint(0, 4))
            y.update(calib_colormem_zbounds=[0.1 * (j + 3) for j in range(m)], calib_colormem_colormodes=[1] * (m + 1), calib_colormem_sigint=[0.05] * (m + 1))
        for k, f in (('zredfile', 'zz'), ('bkgfile', 'bb'), ('parfile', 'pp'), ('zlambdafile', 'll'), ('randfile', 'rr')):
            if r.randint(2):
                y[k] = ('' if r.randint(2) else 'no_') + f + '.fit'
        if r.randint(2):
            # something that may be wrong
            b = int(r.randint(12))
            if b == 0:
                y[str(r.choice(['zrang', 'Zrange', 'percolation_r', 'copy', 'validate', 'output_yaml', '__doc__', 'zrange_cushioned', 'configfile', 'd', 'logger', '_reset_vars', 'cosmo', 'galfil', 'wcen_delta0']))] = 1
            elif b == 1:
                y.pop(str(r.choice(['refmag', 'outbase', 'zrange', 'calib_color_nodesizes', 'calib_covmat_maxnodes'])))
            elif b == 2:
                k = str(r.choice([k for k in keys if k in REQ and k not in seqs and k not in CATKEYS]))
                y[k] = None
            elif b == 3:
                k = str(r.choice(['zrange', 'calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes', 'bkg_local_annuli', 'redmagic_n0s', 'redmagic_etas', 'redmagic_zmaxes',
                                  'vlim_nsigs', 'vlim_bands', 'calib_colormem_colormodes', 'calib_colormem_sigint']))
                y[k] = [0.5 + j for j in range(r.randint(1, 7))] if k != 'vlim_bands' else ['i'] * r.randint(1, 3)
            elif b == 4:
                ci = int(r.choice([5, 6]))
            elif b == 5:
                y.update(nside=8, hpix=[3])
            elif b == 6:
                y['has_truth'] = True
            elif b == 7:
                y['centering_use_zspec'] = True
            elif b == 8:
                y.update(maskfile='mm.fit', mask_mode=int(r.choice([0, 3])))
            elif b == 9:
                y.update(vlim_depthfiles=['a', 'b'], vlim_bands=['i', str(r.choice(['u', 'y', 'g', 'q']))], vlim_nsigs=[5.0, 5.0])
            elif b == 10:
                y['bkg_local_annuli'] = [2.0, float(r.choice([1.0, 2.0, 2.001]))]
            else:
                y['refmag'] = str(r.choice(['u', 'y', 'g', 'x']))
        y['galfile'] = cats[ci]['file']
        if r.randint(40) == 0:
            y.pop('galfile')
        items = list(y.items())
        return ci, dict(items[j] for j in r.permutation(len(items)))

    REQ = set(re.findall(r'"(\w+)"', re.search(r'Required == \{(.*?)\}', txt).group(1)))
    for h in range(n(420, 4000)):
        if h % nproc != part:
            continue
        r = rng(17000 + h)
        steps = [dict(op='setup', version=canon(redmapper.__version__) if hasattr(redmapper, '__version__') else canon(Configuration.__dict__ and __import__('redmapper._version', fromlist=['x']).__version__))]
        objs = []            # (config, is the last loaded)
        ncur = -1
        for s in range(int(r.choice([2, 4, 7, 10]))):
            u = r.randint(10) if objs else 0
            if u < 4:
                ci, y = gen(r)
                cat = dict(cats[ci])
                cat.pop('file')
                ref = y.get('refmag')
                cat['hasref'] = ref in cat['bands']
                if cat['hasref']:
                    cat['vals'] = dict(cat['vals'], ref_ind=canon(cat['bands'].index(ref)))
                with open('conf.yml', 'w') as f:
                    yaml.safe_dump(y, f, sort_keys=False)
                op = 'oo' if r.randint(4) == 0 else None
                res, c = guard(Configuration, 'conf.yml', outpath=op) if op else guard(Configuration, 'conf.yml')
                out.count('loads accepted' if res == 'ok' else 'loads refused')
                w = wc.get(y.get('wcenfile'), {})
                ev = dict(op='load', res='ok' if res == 'ok' else 'refused', exc=res, given=given(y), cat=cat, outpath=canon(op), wcen=[dict(k=k, s=v) for k, v in w.items()], obs={}, job=[], pathmade=True)
                if res == 'ok':
                    ev['obs'] = observe(c)
                    ev['job'] = job(c)
                    ev['pathmade'] = os.path.isdir(c.outpath) and os.path.isdir(os.path.join(c.outpath, c.plotpath))
                    objs.append(c)
                    ncur = len(objs) - 1
                steps.append(ev)
                if res != 'ok':
                    # what is observable after a refused load is not specified
                    ncur = -1
            elif u == 4:
                j = int(r.randint(len(objs)))
                res, c = guard(objs[j].copy)
                if res == 'ok':
                    objs.append(c)
                    if j == ncur:
                        pass
                steps.append(dict(op='copy', res=res, src=j + 1, jobs=[job(c) for c in objs]))
            elif u in (5, 6):
                j = int(r.randint(len(objs)))
                x = r.randint(3)
                if x == 0:
                    objs[j].d.outbase = str(r.choice(['run', 'run2', 'run_8_00004', 'other']))
                elif x == 1:
                    objs[j].d.hpix = [[], [int(r.randint(9))], [1, 2]][r.randint(3)]
                else:
                    objs[j].d.nside = int(r.choice([0, 4, 16]))
                steps.append(dict(op='setjob', who=j + 1, what=int(x) + 1, s=canon(getattr(objs[j].d, JOB[x])), jobs=[job(c) for c in objs]))
                out.count('job settings changed')
            elif u == 7 and ncur >= 0:
                # a value changed by the program, possibly in place
                c = objs[ncur]
                if r.randint(2):
                    k = str(r.choice(['percolation_niter', 'zlambdafile', 'consolidate_lambda_cuts', 'parfile', 'vlim_lstar']))
                    v = value(r, k)
                    setattr(c, k, v)
                else:
                    k = str(r.choice(['consolidate_lambda_cuts', 'consolidate_vlim_lstars', 'calib_colormem_zbounds', 'wcen_cal_zrange', 'bkg_local_annuli']))
                    a = getattr(c, k)
                    if len(a):
                        a[0] = 0.125
                    v = a
                steps.append(dict(op='set', k=k, s=canon(v), obs=observe(c), jobs=[job(x) for x in objs]))
                out.count('values changed')
            elif u == 8 and ncur >= 0:
                c = objs[ncur]
                before = observe(c)
                res, _ = guard(c.output_yaml, 'w.yml')
                res2, c2 = guard(Configuration, 'w.yml') if res == 'ok' else ('refused', None)
                steps.append(dict(op='reload', res=res, res2=res2, before=before, obs=observe(c2) if res2 == 'ok' else {}, job=job(c2) if res2 == 'ok' else []))
                out.count('write and reload')
                if res2 == 'ok':
                    objs.append(c2)
                    ncur = len(objs) - 1
                else:
                    ncur = -1
            elif u == 9 and ncur >= 0:
                c = objs[ncur]
                files = dict(zredfile='zz', bkgfile='bb', parfile='pp', zlambdafile='ll', randfile='rr')
                fl = {k: bool(r.randint(2)) for k in files}
                res, _ = guard(c.check_files, **{'check_' + k: v for k, v in fl.items()})
                steps.append(dict(op='checkfiles', res='ok' if res == 'ok' else 'refused', need=[dict(k=k, there=bool(getattr(c, k) and os.path.isfile(str(getattr(c, k))))) for k in fl if fl[k]]))
                out.count('file checks')
            if r.randint(3) == 0 and objs and ncur >= 0:
                c = objs[int(r.randint(len(objs)))]
                fs = []
                for _ in range(8):
                    name = str(r.choice(['cat', 'percolation', 'zreds']))
                    ft = str(r.choice(['fit', 'yml']))
                    ver = bool(r.randint(2))
                    pth = [None, ['a'], ['a', 'b'], ('c', ), ('b', 'a')][r.randint(5)]
                    ob = [None, 'o2', 'run'][r.randint(3)]
                    kw = dict(paths=pth, filetype=ft, withversion=ver, outbase=ob)
                    if ob is None and r.randint(2):
                        kw.pop('outbase')
                    res, fn = guard(c.redmapper_filename, name, **kw)
                    base = os.path.realpath(c.outpath)
                    fs.append(dict(res=res, key=['name ' + name, 'type ' + ft, 'version %s' % c.version if ver else '-', 'paths ' + '/'.join(pth or []), 'base ' + (ob or c.d.outbase)],
                                   fn=os.path.relpath(os.path.realpath(fn), base) if fn else '', inside=bool(fn and os.path.realpath(fn).startswith(base + os.sep))))
                res, _ = guard(c.redmapper_filename, 'cat', paths='abc')
                steps.append(dict(op='names', fs=fs, badpath=res != 'ok', jobs=[job(x) for x in objs], who=objs.index(c) + 1, base=canon(c.d.outbase)))
                out.count('file names', 8)
        out.add('h%d' % h, steps)


if __name__ == '__main__':
    shards(main, 6)
