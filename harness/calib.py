"""C16: the calibration driver, stopped at any point and restarted.

The calibration steps are stand-ins that record which files and settings they were given and write small marked files; the driver
(RedmapperCalibrator and its iteration classes), the seed and likelihood sub-catalogues it makes itself and the final configuration
are the real ones.  Every run is a process of its own; a stop ends it abruptly at the beginning of a step or before/after a write.
"""
import inspect
import os
import re
import sys
import fitsio
import numpy as np
import yaml
from harness.common import *   # noqa: F401,F403

from redmapper import Configuration
import redmapper.mask
import redmapper.calibration.calibrate as cal
from redmapper.background import BackgroundGenerator, ZredBackgroundGenerator
from redmapper.calibration.centeringcal import WcenCalibrator
from redmapper.calibration.prepmembers import PrepMembers
from redmapper.calibration.redsequencecal import RedSequenceCalibrator
from redmapper.calibration.selectspecred import SelectSpecRedGalaxies
from redmapper.calibration.selectspecseeds import SelectSpecSeeds
from redmapper.calibration.zlambdacal import ZLambdaCalibrator
from redmapper.color_background import ColorBackgroundGenerator
from redmapper.plotting import SpecPlot
from redmapper.redmapper_run import RedmapperRun
from redmapper.run_colormem import RunColormem
from redmapper.zlambda import ZlambdaCorrectionPar
from redmapper.zred_runner import ZredRunCatalog, ZredRunPixels

C = {}
NENT = 9


def log(ev):
    fd = os.open(C['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(ev, default=conv) + '\n').encode())
    os.close(fd)


def tick():
    """A point where the process may be stopped."""
    C['n'] += 1
    if C['n'] == C['crash']:
        log(dict(kind='crash'))
        os._exit(77)


def token(path):
    """The symbolic name of a file: the base name without the output base and the extension."""
    if path is None:
        return 'None'
    p = str(path)
    if os.path.abspath(p) == C['galfile']:
        return 'galfile'
    if os.path.abspath(p) == C['specfile']:
        return 'specfile'
    b = os.path.basename(p)
    d = os.path.dirname(os.path.abspath(p))
    incal = (d + '/').startswith(C['calpath'] + '/')
    for end in ('.fit', '.png', '.yml'):
        if b.endswith(end):
            b = b[:-len(end)]
    if incal and b.startswith(C['outbase'] + '_'):
        b = b[len(C['outbase']) + 1:]
    elif b.startswith(C['outbase_run'] + '_'):
        b = 'run_' + b[len(C['outbase_run']) + 1:]
    elif b.startswith('dr8_test_galaxies_'):
        b = 'run_' + b[len('dr8_test_galaxies_'):]
    elif b != 'run_default':
        b = 'other:' + p
    return re.sub(r'_pgt.*$', '', b)


def wcen_token(c):
    """Which iteration's centring calibration the configuration holds: 0 as configured, -1 a mixture."""
    v = [float(getattr(c, k)) for k in WC]
    for i in range(0, 5):
        if np.allclose(v, [C['wcen0'][k] if i == 0 else WC[k] + i * 0.01 for k in WC], atol=1e-6):
            return str(i)
    return 'mixed'


WC = dict(wcen_Delta0=-1.5, wcen_Delta1=-0.3, wcen_sigma_m=0.4, wcen_pivot=31.0, lnw_fg_mean=-0.6, lnw_fg_sigma=0.2,
          lnw_sat_mean=-0.1, lnw_sat_sigma=0.25, lnw_cen_mean=0.15, lnw_cen_sigma=0.35)


def region(c):
    same = int(c.d.nside) == C['nside'] and [int(x) for x in c.d.hpix] == C['hpix'] and abs(float(c.border) - C['border']) < 1e-9
    area = 2.5 if C['nside'] else float(c.galfile_area)
    if same and abs(float(c.area) - area) < 1e-6:
        return 'calibration'
    if int(c.d.nside) == 0 and len(c.d.hpix) == 0 and abs(float(c.area) - float(c.galfile_area)) < 1e-6:
        return 'whole'
    return 'other'


def step(name, c, outs, files=(), **more):
    ins = [[f, token(getattr(c, f))] for f in files]
    ins += [[k, str(v)] for k, v in more.items()]
    log(dict(kind='step', name=name, ins=ins, outs=[token(o) for o in outs]))
    tick()


def w(fn, a, **kw):
    fitsio.write(fn, a, **kw)


def mark(fn):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    w(fn, np.zeros(1, dtype=[('m', 'i4')]), clobber=True)


def keep_init(cls):
    """Remembers the constructor's arguments by name; the real constructor runs where it is light."""
    real = cls.__init__
    sig = inspect.signature(real)

    def init(self, *a, **kw):
        b = sig.bind(self, *a, **kw)
        b.apply_defaults()
        self.vp_args = dict(b.arguments)
        try:
            real(self, *a, **kw)
        except Exception:           # noqa: BLE001 - stand-in inputs
            pass
        conf = list(b.arguments.values())[1]
        if not hasattr(self, 'config'):
            self.config = conf if isinstance(conf, Configuration) else Configuration(conf)
    cls.__init__ = init


def bound(real, self, a, kw):
    b = inspect.signature(real).bind(self, *a, **kw)
    b.apply_defaults()
    return b.arguments


def entities(kind):
    """Rows of the stand-in catalogues: entity e sits at ra 10 + e/100."""
    r = np.random.RandomState(C['content'] + dict(seeds=1, like=2, final=3, full=4)[kind])
    if kind in ('seeds', 'full'):
        ents = list(range(1, NENT + 1))
    elif kind == 'like':
        ents = [e for e in range(1, NENT + 1) if r.randint(5)]
    else:
        ents = [e for e in range(1, NENT + 1) if r.randint(4)]
    r.shuffle(ents)
    if kind == 'final':
        ents = ents or [1]
    return ents, r


def pos(ents, r, jitter):
    j = (r.uniform(-1, 1, len(ents)) * jitter) / 3600.
    return 10. + np.array(ents) / 100. + j, np.zeros(len(ents)) + 5.


def seedrows(kind):
    ents, r = entities(kind)
    a = np.zeros(len(ents), dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('zspec', 'f4'),
                                   ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4')])
    a['id'] = np.array(ents) + (100 if kind == 'full' else 0)
    a['ra'], a['dec'] = pos(ents, r, 0.0)
    a['zred'] = -1
    return a


def install():
    def redgals(self, *a, **kw):
        c = self.config
        step('redgals', c, [c.redgalfile, c.redgalmodelfile], region=region(c))
        mark(c.redgalfile)
        mark(c.redgalmodelfile)
    SelectSpecRedGalaxies.run = redgals

    def bkgcolor(self, *a, **kw):
        c = self.config
        step('bkgcolor', c, [c.bkgfile_color], region=region(c))
        mark(c.bkgfile_color)
    ColorBackgroundGenerator.run = bkgcolor

    def maskgals(self, maskgalfile):
        step('maskgals', self.config, [maskgalfile])
        mark(maskgalfile)
    redmapper.mask.Mask.gen_maskgals = maskgals

    def colormem(self, *a, **kw):
        c = self.config
        step('colormem', c, [c.zmemfile], ('redgalfile', 'redgalmodelfile', 'bkgfile_color', 'maskgalfile'), region=region(c))
        self.vp_ran = True

    def colormem_out(self, *a, **kw):
        if getattr(self, 'vp_ran', False):
            mark(self.config.zmemfile)
    RunColormem.run = colormem
    RunColormem.output_training = colormem_out

    rs = SelectSpecSeeds.run

    def seeds(self, *a, **kw):
        c = self.config
        use = bound(rs, self, a, kw)['usetrain']
        # the zreds of the last iteration may be looked up when they exist
        step('seedstrain' if use else 'seedsfull', c, [c.seedfile], ('zredfile',) if not use else (), region=region(c))
        w(c.seedfile, seedrows('seeds' if use else 'full'), clobber=True)
    SelectSpecSeeds.run = seeds

    keep_init(RedSequenceCalibrator)

    def pars(self, *a, **kw):
        c = self.config
        step('pars', c, [c.parfile], ('bkgfile_color',), zmem=token(self.vp_args['galfile']))
        mark(c.parfile)
    RedSequenceCalibrator.run = pars

    def zreds(self, *a, **kw):
        c = self.config
        step('zreds', c, [c.zredfile], ('parfile', 'galfile'), region=region(c))
        mark(c.zredfile)
    ZredRunPixels.run = zreds
    rz = ZredRunCatalog.run

    def seedzreds(self, *a, **kw):
        c = self.config
        b = bound(rz, self, a, kw)
        step('seedzreds', c, [b['outfile']], ('parfile',), seeds=token(b['galaxyfile']))
        s = fitsio.read(b['galaxyfile'], ext=1, lower=True)
        it = int(re.search(r'iter(\d+)_pars', os.path.basename(str(c.parfile))).group(1))
        z = np.zeros(s.size, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4')])
        z['zred'] = s['id'] * 10 + it
        z['zred_e'] = s['id'] * 10 + it + 1000
        z['chisq'] = s['id'] * 10 + it + 2000
        w(b['outfile'], z, clobber=b['clobber'])
    ZredRunCatalog.run = seedzreds
    rb = BackgroundGenerator.run

    def has(fn, ext):
        if not os.path.isfile(fn):
            return False
        with fitsio.FITS(fn) as f:
            return ext in [x.get_extname() for x in f[1:]]

    def bkg(self, *a, **kw):
        c = self.config
        b = bound(rb, self, a, kw)
        if has(c.bkgfile, 'CHISQBKG') and not b['clobber']:
            return
        t = token(c.bkgfile)
        log(dict(kind='step', name='fullbkg' if b['deepmode'] else 'bkg', outs=[t + ':chisq'],
                 ins=[['parfile', token(c.parfile)], ['galfile', token(c.galfile)], ['region', region(c)], ['deepmode', str(bool(b['deepmode']))]]))
        tick()
        w(c.bkgfile, np.zeros(1, dtype=[('m', 'i4')]), extname='CHISQBKG', clobber=b['clobber'])
    BackgroundGenerator.run = bkg
    rzb = ZredBackgroundGenerator.run

    def zbkg(self, *a, **kw):
        c = self.config
        b = bound(rzb, self, a, kw)
        if has(c.bkgfile, 'ZREDBKG') and not b['clobber']:
            return
        log(dict(kind='step', name='zbkg', outs=[token(c.bkgfile) + ':zred'],
                 ins=[['parfile', token(c.parfile)], ['zredfile', token(c.zredfile)], ['galfile', token(c.galfile)], ['region', region(c)]]))
        tick()
        w(c.bkgfile, np.zeros(1, dtype=[('m', 'i4')]), extname='ZREDBKG', clobber=b['clobber'])
    ZredBackgroundGenerator.run = zbkg
    rr = RedmapperRun.run

    def run(self, *a, **kw):
        c = self.config
        b = bound(rr, self, a, kw)
        final = c.redmapper_filename('final')
        t = token(final)
        files = ['parfile', 'zredfile', 'bkgfile', 'zlambdafile', 'galfile']
        more = dict(centerclass=c.centerclass, wcen=wcen_token(c), region=region(c), check=bool(b['check']), keepz=bool(b['keepz']),
                    cleaninput=bool(b['cleaninput']), specmode=bool(b['specmode']), percolation_only=bool(b['percolation_only']),
                    consolidate_like=bool(b['consolidate_like']), consolidate=bool(b['consolidate']))
        if b['percolation_only']:
            more['input'] = token(c.catfile)
        else:
            more['input'] = token(b['seedfile'] if b['seedfile'] is not None else c.seedfile)
        step('run:' + t, c, [final], files, **more)
        like = c.redmapper_filename('like')
        if b['consolidate_like']:
            ents, r = entities('like')
            x = np.zeros(len(ents), dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lnlike', 'f4')])
            x['id'] = ents
            x['ra'], x['dec'] = pos(ents, r, 0.1)
            w(like, x, clobber=True)
        w(final[:-4] + '_members.fit', np.zeros(1, dtype=[('m', 'i4')]), clobber=True)
        ents, r = entities('final')
        x = np.zeros(len(ents), dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_spec_init', 'f4')])
        x['id'] = ents
        x['ra'], x['dec'] = pos(ents, r, 0.1)
        x['lambda'] = np.where(r.randint(0, 3, len(ents)) > 0, 50. + np.array(ents), 2.)
        x['lambda'][0] = 60.
        x['z_lambda'] = 0.3
        x['z_lambda_e'] = 0.01
        x['z_spec_init'] = 0.3
        w(final, x, clobber=True)
        return (final, like) if b['consolidate_like'] else final
    RedmapperRun.run = run

    keep_init(WcenCalibrator)

    def wcen(self, *a, **kw):
        c = self.config
        g = self.vp_args
        it = int(g['iteration'])
        step('wcen', c, [c.wcenfile], ('parfile', 'bkgfile', 'catfile'), it=it, rand=token(g['randcatfile']), randsat=token(g['randsatcatfile']),
             wcen=wcen_token(c))
        names = dict(wcen_Delta0='delta0', wcen_Delta1='delta1', wcen_sigma_m='sigma_m', wcen_pivot='pivot')
        x = np.zeros(1, dtype=[(names.get(k, k), 'f8') for k in WC])
        for k in WC:
            x[names.get(k, k)] = WC[k] + it * 0.01
        w(c.wcenfile, x, clobber=True)
    WcenCalibrator.run = wcen

    keep_init(ZLambdaCalibrator)

    def zlam(self, *a, **kw):
        c = self.config
        step('zlambda', c, [c.zlambdafile], ('catfile',), corrslope=bool(self.vp_args['corrslope']))
        mark(c.zlambdafile)
    ZLambdaCalibrator.run = zlam

    def zpar(self, parfile=None, pars=None, zrange=None, zbinsize=None, zlambda_pivot=None):
        C['corr'] = token(parfile)

    def zapply(self, lam, zlam, zlam_e, *a, **kw):
        return (zlam + 0.001, zlam_e)
    ZlambdaCorrectionPar.__init__ = zpar
    ZlambdaCorrectionPar.apply_correction = zapply
    rp = SpecPlot.plot_values

    def plot(self, *a, **kw):
        c = self.config
        b = bound(rp, self, a, kw)
        f = fitsio.read(c.catfile, ext=1, lower=True)
        nexp = int(np.sum(f['lambda'] > max(C['minlam'], C['zminlam'])))
        zp = np.atleast_1d(b['z_phot'])
        corrected = bool(zp.size and np.allclose(zp, 0.301, atol=1e-5))
        plain = bool(zp.size and np.allclose(zp, 0.3, atol=1e-5))
        rows = 'all' if (zp.size == nexp and np.atleast_1d(b['z_spec']).size == nexp) else 'wrong'
        step('plot', c, [self.filename], ('catfile',), values=C.get('corr', 'None') if corrected else ('plain' if plain else 'mixed'), rows=rows)
        os.makedirs(os.path.dirname(self.filename), exist_ok=True)
        tick()
        with open(self.filename, 'w') as f:
            f.write('plot')
        log(dict(kind='wrote', tok=token(self.filename)))
        tick()
    SpecPlot.plot_values = plot

    keep_init(PrepMembers)
    rm = PrepMembers.run

    def prep(self, *a, **kw):
        c = self.config
        step('zmem', c, [c.zmemfile], ('catfile',), mode=bound(rm, self, a, kw)['mode'])
        mark(c.zmemfile)
    PrepMembers.run = prep

    real = fitsio.write

    def write(fn, *a, **kw):
        tick()
        v = real(fn, *a, **kw)
        t = token(fn)
        if kw.get('extname') in ('CHISQBKG', 'ZREDBKG'):
            t += ':' + kw['extname'][:-3].lower()
        log(dict(kind='wrote', tok=t))
        tick()
        return v
    fitsio.write = write
    ry = Configuration.output_yaml

    def out_yaml(self, filename):
        tick()
        v = ry(self, filename)
        log(dict(kind='wrote', tok=token(filename)))
        tick()
        return v
    Configuration.output_yaml = out_yaml


def listing(top):
    toks = set()
    yml = []
    for dp, _, fns in os.walk(top):
        for fn in fns:
            full = os.path.join(dp, fn)
            if full == C['conffile'] or full == C['log'] or fn.endswith('.log'):
                continue
            if fn == 'run_default.yml':
                yml.append(full)
            t = token(full)
            if t.endswith('_bkg'):
                with fitsio.FITS(full) as f:
                    for x in f[1:]:
                        toks.add(t + ':' + x.get_extname()[:-3].lower())
            else:
                toks.add(t)
    return sorted(toks), yml


def rows(fn, *cols):
    a = np.atleast_1d(fitsio.read(fn, ext=1, lower=True))
    return [[int(np.rint(x[c])) for c in cols] for x in a]


def contents(steps):
    """The catalogues the driver makes itself."""
    base = os.path.join(C['calpath'], C['outbase'] + '_')
    n_ = C['niter']
    d = dict(op='contents')
    cols = ('id', 'zred', 'zred_e', 'zred_chisq')
    try:
        d['seeds'] = [rows(base + 'iter%d_specseeds.fit' % i, *cols) for i in range(1, n_ + 1)]
        d['seedsb'] = rows(base + 'iter%db_specseeds.fit' % n_, *cols)
        d['train'] = [x[0] for x in rows(base + 'specseeds_train.fit', 'id')]
        d['full'] = [x[0] for x in rows(base + 'specseeds.fit', 'id')]
        d['cut'] = [x[0] for x in rows(base + 'cut_specseeds.fit', 'id')]
        d['sub'] = [x[0] for x in rows(base + 'iter1_sub_like.fit', 'id')]
        d['like'] = [x[0] for x in rows(base + 'iter1_like.fit', 'id')]
        d['final'] = rows(base + 'iter1_final.fit', 'id', 'lambda')
        d['minlam'] = int(C['permin'])
        d['readable'] = True
    except Exception as e:       # noqa: BLE001
        if os.environ.get('VP_DEBUG'):
            print(repr(e))
        d = dict(op='contents', readable=False)
    steps.append(d)


def _eq(a, b):
    try:
        return bool(np.allclose(np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8'), rtol=1e-6))
    except (TypeError, ValueError):
        return a == b


def yaml_step(steps, yml):
    if len(yml) != 1:
        steps.append(dict(op='config', ok=False, ins=[]))
        return
    with open(yml[0]) as f:
        y = yaml.safe_load(f)
    ks = ['parfile', 'bkgfile', 'zredfile', 'zlambdafile', 'wcenfile', 'bkgfile_color', 'maskgalfile', 'redgalfile', 'redgalmodelfile',
          'catfile', 'seedfile', 'zmemfile', 'galfile', 'specfile']
    ab = all(y[k] is None or os.path.isabs(y[k]) for k in ks)
    ins = [[k, token(y[k])] for k in ks]
    ins += [['nside', str(y['nside'])], ['hpix', str(len(y['hpix']))], ['centerclass', y['centerclass']], ['border', '%.3f' % y['border']],
            ['outbase', 'run' if y['outbase'] == C['outbase_run'] else y['outbase']], ['area', str(y['area'])],
            ['firstpass_centerclass', y['firstpass_centerclass']]]
    skip = set(ks) | set(('nside', 'hpix', 'border', 'outbase', 'area', 'outpath', 'plotpath')) | set(WC)
    wc = [i for i in range(5) if all(abs(y[q] - (WC[q] + i * 0.01)) < 1e-6 for q in WC)]
    ins.append(['wcen', str(wc[0]) if wc else 'mixed'])
    other = all(k in y and _eq(y[k], v) for k, v in C['yaml'].items() if k not in skip)
    if os.environ.get('VP_DEBUG') and not (ab and other):
        print(ab, [(k, y.get(k), v) for k, v in C['yaml'].items() if k not in skip and not (k in y and _eq(y[k], v))])
    steps.append(dict(op='config', ok=bool(ab and other), ins=ins))


def scenario(k, out, niter=None, crashes=None, conf=None, tag='cal'):
    r = rng(1600 + k) if conf is None else rng(1600 + conf)
    top = os.path.abspath(fresh('c16'))
    outname = ['cal', 'abc_cal', 'cal_abc', 'plain', 'x/cal'][r.randint(5)]
    outbase = ['tst', 'tst_cal', 'iter1', 'tst_iter2_cal'][r.randint(4)]
    with open('data_for_tests/testconfig.yaml') as f:
        y = yaml.safe_load(f)
    niter = niter or int(r.choice([1, 2, 2, 3]))
    gal = os.path.abspath('data_for_tests/pixelized_dr8_test/dr8_test_galaxies_master_table.fit')
    whole = r.randint(4) == 0
    for key in ('zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'maskfile', 'depthfile', 'catfile', 'wcenfile', 'seedfile', 'bkgfile_color', 'randfile', 'redgalfile', 'redgalmodelfile', 'zmemfile'):
        y.pop(key, None)
    spec = os.path.abspath('data_for_tests/test_dr8_spec.fit')
    y.update(outbase=outbase, outpath=os.path.join(top, outname), plotpath=['plots', 'p2'][r.randint(2)], printlogging=False, galfile=gal, specfile=spec, calib_niter=niter,
             nside=0 if whole else 2, hpix=[] if whole else [26], border=0.0 if whole else 0.4, area=None if whole else 2.5, calib_pcut=0.7, calib_colormem_minlambda=10., calib_minlambda=float(r.choice([5., 10.])),
             percolation_minlambda=float(r.choice([3., 55.])), calib_zlambda_minlambda=float(r.choice([20., 5.])),
             firstpass_centerclass=['CenteringBCG', 'CenteringWcenZred'][r.randint(2)], centerclass=['CenteringWcenZred', 'CenteringBCG', 'CenteringRandom'][r.randint(3)],
             calib_make_full_bkg=bool(r.randint(2)), calib_nproc=1, calib_run_nproc=1, version='0.0.0', calib_run_min_nside=1, mask_mode=0)
    y.pop('version')
    # what an earlier calibration may have left in the configuration
    for key, fn in (('zlambdafile', 'test_dr8_zlambdacorr.fit'), ('parfile', 'test_dr8_pars.fit'), ('bkgfile', 'test_bkg.fit'), ('catfile', 'test_cluster_pos.fit'),
                    ('seedfile', 'test_dr8_specseeds.fit'), ('zredfile', 'zreds_test/dr8_test_zreds_master_table.fit')):
        if r.randint(2):
            y[key] = os.path.abspath('data_for_tests/' + fn)
    rel = rng(1700 + k if conf is None else 1700 + conf).randint(3) == 0     # started in the directory above the output, with a relative path
    if rel:
        y['outpath'] = outname
    conffile = os.path.join(top, 'conf.yml')
    with open(conffile, 'w') as f:
        yaml.safe_dump(y, f)
    C.clear()
    C.update(log=os.path.join(top, 'log'), galfile=gal, specfile=spec, calpath=os.path.join(top, outname), outbase=outbase,
             outbase_run=outbase.replace('_cal', '_run') if '_cal' in outbase else outbase + '_run', niter=niter, nside=y['nside'], hpix=y['hpix'],
             border=y['border'], content=int(r.randint(10**6)), minlam=y['calib_minlambda'], zminlam=y['calib_zlambda_minlambda'], permin=y['percolation_minlambda'],
             conffile=conffile, yaml=y)
    if crashes is None:
        crashes = [int(x) for x in r.randint(1, 50 + 60 * niter, r.randint(1, 4))]
    full = bool(y['nside'] > 0 and y['calib_make_full_bkg'])
    steps = [dict(op='setup', n=niter, full=full, region=bool(y['nside'] > 0), center=y['centerclass'], first=y['firstpass_centerclass'])]
    for crash in crashes + [0]:
        C.update(crash=crash, n=0)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                install()
                if rel:
                    os.chdir(top)

                def go():
                    conf_ = Configuration(conffile)
                    C['wcen0'] = {kk: float(getattr(conf_, kk)) for kk in WC}
                    cal.RedmapperCalibrator(conffile if k % 2 else conf_).run()
                res, _ = guard(go)
                log(dict(kind='end', res=res, n=C['n']))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(C['log']) as f:
            evs = [json.loads(x) for x in f]
        os.unlink(C['log'])
        toks, yml = listing(top)
        steps.append(dict(op='start'))
        res = 'died'
        crashed = False
        for e in evs:
            if e['kind'] == 'step':
                steps.append(dict(op='step', name=e['name'], ins=e['ins'], outs=e['outs']))
                out.count('steps')
            elif e['kind'] == 'wrote':
                steps.append(dict(op='wrote', tok=e['tok']))
            elif e['kind'] == 'crash':
                crashed = True
            elif e['kind'] == 'end':
                res = e['res']
                C['last_n'] = e['n']
        steps.append(dict(op='end', crashed=crashed, res=res, files=toks))
        out.count('runs')
        out.count('stops', int(crashed))
    contents(steps)
    yaml_step(steps, yml)
    out.add('%s%04d' % (tag, k), steps)
    shutil.rmtree(top)
    return C.get('last_n', 0)


def product(out, kind):
    """The two products that are written in several pieces, by the real code, stopped before and after every piece."""
    top = os.path.abspath(fresh('c16p'))

    def child(tag, crash):
        d = os.path.join(top, tag)
        os.makedirs(d, exist_ok=True)
        C.clear()
        C.update(log=os.path.join(top, 'log_' + tag), crash=crash, n=0)
        fn = os.path.join(d, 'product.fit')
        pid = os.fork()
        if pid == 0:
            try:
                rw, rr, rp = fitsio.write, os.rename, os.replace

                def wrap(f):
                    def g(*a, **kw):
                        tick()
                        v = f(*a, **kw)
                        tick()
                        return v
                    return g
                fitsio.write, os.rename, os.replace = wrap(rw), wrap(rr), wrap(rp)
                np.random.seed(5)

                def go():
                    c = Configuration('data_for_tests/testconfig.yaml')
                    c.outpath = d
                    if kind == 'bkgcolor':
                        c.bkgfile_color = fn
                        c.d.nside = 128
                        c.d.hpix = [8421]
                        c.border = 0.0
                        ColorBackgroundGenerator(c, minrangecheck=5).run()
                    else:
                        c.calib_use_pcol = True
                        c.zrange = [0.1, 0.2]
                        c.parfile = fn
                        # the plots at the end do not matter here
                        RedSequenceCalibrator._make_diagnostic_plots = lambda *a, **k_: None
                        RedSequenceCalibrator(c, 'data_for_tests/test_dr8_trainredseq_gals.fit').run(doRaise=False)
                res, _ = guard(go)
                log(dict(kind='end', res=res, n=C['n']))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(C['log']) as f:
            evs = [json.loads(x) for x in f]
        os.unlink(C['log'])
        return fn, evs[-1]

    def load(fn):
        if not os.path.isfile(fn):
            return None
        try:
            with fitsio.FITS(fn) as f:
                return [(h.get_extname(), {k: np.array(v) for k, v in zip(h.read().dtype.names, [h.read()[k] for k in h.read().dtype.names])}) for h in f[1:]]
        except Exception:        # noqa: BLE001
            return 'unreadable'

    def same(a, b):
        return (isinstance(a, list) and len(a) == len(b)
                and all(x[0] == z[0] and x[1].keys() == z[1].keys() and all(np.array_equal(x[1][k], z[1][k]) or np.allclose(x[1][k], z[1][k], equal_nan=True) for k in x[1])
                        for x, z in zip(a, b)))
    fn, e = child('ref', 0)
    ref = load(fn)
    if e.get('res') != 'ok' or not isinstance(ref, list):
        out.add('product_' + kind, [dict(op='product', name=kind, present=False, complete=False, res=str(e.get('res')), ended=True)])
        return
    total = e['n']
    points = list(range(1, total + 1)) if kind == 'bkgcolor' else sorted(set([1, 2, 3, total - 1, total]))
    if not THOROUGH:
        points = points[::3] + points[-2:] if kind == 'bkgcolor' else [2]
    for p in points:
        fn, e = child('p%d' % p, p)
        a = load(fn)
        steps = [dict(op='product', name=kind, present=a is not None, complete=bool(same(a, ref)), res='stopped', ended=False)]
        out.count('product_stops')
        if p == points[len(points) // 2]:
            fn, e = child('p%d' % p, 0)
            steps.append(dict(op='product', name=kind, present=True, complete=bool(same(load(fn), ref)), res=str(e.get('res')), ended=True))
        out.add('product_%s_%d' % (kind, p), steps)
    shutil.rmtree(top)


def main():
    def work(i, np_, out):
        if i < 2:
            product(out, ['pars', 'bkgcolor'][i])
            return
        i, np_ = i - 2, np_ - 2
        # every stopping point of a two-iteration calibration
        probe = scenario(0, Out(), niter=2, crashes=[], conf=7)
        out.count('points', probe if i == 0 else 0)
        for c in range(1 + i, probe + 1, np_):
            scenario(c, out, niter=2, crashes=[c], conf=7, tag='stop')
        if THOROUGH:
            for cf in (8, 9, 10):
                m = scenario(0, Out(), niter=cf - 7, crashes=[], conf=cf)
                for c in range(1 + i, m + 1, np_):
                    scenario(c, out, niter=cf - 7, crashes=[c], conf=cf, tag='stop%d_' % cf)
        for k in range(i, n(60, 700), np_):
            scenario(k, out)
    shards(work, 8)


if __name__ == '__main__':
    main()
