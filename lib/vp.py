"""Shared machinery of the checks: scratch build of /repo, harness runs, TLC runs, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def scratch(prefix):
    return tempfile.mkdtemp(prefix='vp-%s-' % prefix, dir='/tmp')


def env(tree, work):
    e = dict(os.environ)
    e.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0', PIP_NO_INDEX='1',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=tree + ':' + VERIF,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.path.join(work, 'mpl'), ASTROPY_CACHE_DIR=os.path.join(work, 'astropy'),
             XDG_CACHE_HOME=os.path.join(work, 'cache'), HOME=work, TMPDIR=os.path.join(work, 'tmp'),
             VP_TREE=tree, VP_WORK=work, VP_DATA=os.path.join(work, 'data'))
    return e


def build(work):
    """Copies the working tree of /repo and builds its C extensions there; returns the tree."""
    tree = os.path.join(work, 'tree')
    os.makedirs(tree)
    for d in ('mpl', 'astropy', 'cache', 'tmp', 'run'):
        os.makedirs(os.path.join(work, d), exist_ok=True)
    ign = shutil.ignore_patterns('*.so', '__pycache__', '*.o', '*.pyc')
    shutil.copytree(os.path.join(REPO, 'redmapper'), os.path.join(tree, 'redmapper'), ignore=ign)
    shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(tree, 'bin'), ignore=ign)
    for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md', 'LICENSE', 'MANIFEST.in', 'requirements.txt'):
        if os.path.isfile(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), tree)
    vf = os.path.join(tree, 'redmapper', '_version.py')
    if not os.path.exists(vf):
        with open(vf, 'w') as f:
            f.write("__version__ = version = '1.0.0'\n__version_tuple__ = version_tuple = (1, 0, 0)\n")
    shutil.copytree(os.path.join(REPO, 'tests', 'data_for_tests'), os.path.join(work, 'data'))
    e = env(tree, work)
    r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force',
                        '--build-temp', os.path.join(work, 'bt'), '--build-lib', os.path.join(work, 'bl')],
                       cwd=tree, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise MachineryError('build failed:\n' + r.stdout[-3000:])
    return tree


def run_harness(work, tree, module, args=(), timeout=800):
    """Runs harness/<module>.py in the scratch tree; it writes traces to work/run/<module>.json."""
    out = os.path.join(work, 'run', module + '.json')
    if tier() == 'thorough':
        timeout *= 4
    cwd = tempfile.mkdtemp(prefix='cwd-', dir=work)
    e = env(tree, work)
    e['VP_OUT'] = out
    e['VERIF_SEED'] = str(seed())
    e['VERIF_TIER'] = tier()
    cmd = [PY, '-W', 'ignore', os.path.join(VERIF, 'harness', module + '.py')] + list(args)
    log = os.path.join(work, 'run', module + '.log')
    with open(log, 'w') as lf:
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('harness %s timed out\n%s' % (module, open(log).read()[-3000:]))
    if r.returncode != 0 and os.path.isfile(out):
        with open(out) as f:
            doc = json.load(f)
        if doc.get('crash'):
            return out, doc
    if r.returncode != 0 or not os.path.isfile(out):
        raise MachineryError('harness %s failed (%d)\n%s' % (module, r.returncode, open(log).read()[-6000:]))
    with open(out) as f:
        return out, json.load(f)


FAIL = re.compile(r'^"VP-FAIL\|(.*)"$', re.M)
DONE = re.compile(r'^"VP-DONE\|(.*)"$', re.M)


def tlc(module, cfg=None, extra_env=None, workers=4, timeout=600, mem='4g', args=(), work=None):
    """Runs TLC; returns dict(ok, out, states, distinct, fails, done)."""
    if tier() == 'thorough':
        timeout *= 4
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work or '/tmp')
    e = dict(os.environ)
    e.update(extra_env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss128m', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or (module + '.cfg')] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    res = dict(ok=(r.returncode == 0 and 'No error has been found' in out), rc=r.returncode, out=out,
               states=states, distinct=distinct, fails=[x.strip() for x in FAIL.findall(out)],
               done=set(DONE.findall(out)))
    return res


def errtext(out):
    i = out.find('Error:')
    return out[i:i + 2500] if i >= 0 else out[-2500:]


class Check(object):
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.violations = []      # (clause, detail)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.work = scratch(pid)
        self.tree = None

    def build(self):
        self.tree = build(self.work)

    # design model
    def model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, work=self.work, **kw)
        if not r['ok']:
            raise MachineryError('design model %s/%s failed:\n%s' % (module, cfg, errtext(r['out'])))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['states']
        self.cov.setdefault('models', []).append(dict(module=module, cfg=cfg or module + '.cfg', distinct=r['distinct'],
                                                      generated=r['states']))
        return r

    # conformance
    def traces(self, module, harness, args=(), cfg=None, timeout=800, tlc_timeout=600, mem='6g', key=None):
        """Runs the harness, then lets TLC decide every recorded trace with the trace specification."""
        path, doc = run_harness(self.work, self.tree, harness, args, timeout)
        if doc.get('crash'):
            print(doc['crash'])
            self.violations.append(dict(trace='-', step='-', clause='the code failed where it must not: ' + doc['crash'].strip().splitlines()[-1],
                                        spec=module))
            return None
        return self.decide(module, path, doc, cfg=cfg, tlc_timeout=tlc_timeout, mem=mem)

    def decide(self, module, path, doc, cfg=None, tlc_timeout=600, mem='6g'):
        traces = doc['traces']
        tpath = path + '.traces'
        with open(tpath, 'w') as f:
            json.dump(traces, f)
        r = tlc(module, cfg, extra_env=dict(VP_TRACES=tpath), workers=1, timeout=tlc_timeout, mem=mem, work=self.work)
        ids = [str(t['id']) for t in traces]
        for f in r['fails']:
            parts = f.split('|', 2)
            self.violations.append(dict(trace=parts[0], step=parts[1], clause=parts[2], spec=module))
        missing = [i for i in ids if i not in r['done']]
        if not r['ok']:
            if re.search(r'Attempted to|In evaluation|was not in the domain|evaluating the expression', r['out']) and 'Semantic errors' not in r['out']:
                # an observation outside what the specification can even evaluate
                print(errtext(r['out'])[:1500])
                self.violations.append(dict(trace='-', step='-', clause='an observation is outside the domain of the specification', spec=module))
            elif all(self.listed(v) for v in self.violations):
                raise MachineryError('TLC failed on traces of %s:\n%s' % (module, errtext(r['out'])))
        else:
            for i in missing:
                self.violations.append(dict(trace=i, step='?', clause='trace is not a behaviour of the specification',
                                            spec=module))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['states']
        self.cov['traces_validated_against_impl'] += len(ids) - len(missing)
        for k, v in doc.get('stats', {}).items():
            self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        for t in traces[:2]:
            s = json.dumps(t)
            self.cov['samples'].append(json.loads(s) if len(s) < 4000 else s[:4000])
        self._docs = getattr(self, '_docs', [])
        self._docs.append((module, traces))
        return r

    def known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        out = []
        if os.path.isfile(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith('#'):
                    d = json.loads(line)
                    if d.get('property') == self.pid and d.get('status') == 'known':
                        out.append(d)
        return out

    def listed(self, v, known=None):
        """The known finding that a violation is, if any."""
        for d in self.known() if known is None else known:
            if d['clause'] == v['clause'] and (not d.get('trace') or re.fullmatch(d['trace'], v['trace'])):
                return d
        return None

    def finish(self):
        known = self.known()
        new, seen = [], {}
        for v in self.violations:
            k = self.listed(v, known)
            if k:
                seen[k['what']] = 1
            else:
                new.append(v)
        for w in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        ev = dict(property=self.pid, tier=tier(), seed=seed(), level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(edir, 'replay-%s.json' % self.pid)
            bad = set(v['trace'] for v in new)
            with open(rp, 'w') as f:
                json.dump(dict(property=self.pid, seed=seed(), tier=tier(), violations=new[:50],
                               traces=[t for m, ts in getattr(self, '_docs', []) for t in ts if str(t['id']) in bad][:5]),
                          f, indent=1)
            for v in new[:10]:
                print('  %(spec)s trace=%(trace)s step=%(step)s: %(clause)s' % v)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.0fs' % (self.pid, self.cov['states'],
              self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0

    def cleanup(self):
        if os.environ.get('VP_KEEP'):
            print('kept', self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)
