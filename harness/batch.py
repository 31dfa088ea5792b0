"""C18: the batch script under generated surveys and submission histories; the job files it writes are executed with stand-ins for the job commands."""
import glob
import hashlib
import re
import runpy
import subprocess
import hpgeom as hpg
import yaml
from harness.common import *   # noqa: F401,F403
from redmapper import GalaxyCatalogMaker
import redmapper

INFO = dict(LIM_REF=21.0, REF_IND=3, AREA=100.0, NMAG=5, MODE='SDSS', ZP=22.5, U_IND=0, G_IND=1, R_IND=2, I_IND=3, Z_IND=4)
TREE = os.environ['VP_TREE']
TASKS = ['RunRedmapperPixelTask', 'RunZredPixelTask', 'RuncatPixelTask', 'RunZmaskPixelTask', 'RunZScanPixelTask']
STUB = """#!/bin/bash
{ flock 9; printf '%s' "${0##*/}"; printf '\\t%s' "$@"; printf '\\t%s\\n' "MARK=$VPMARK"; } 9>>"$VPLOG.lock" >> "$VPLOG"
"""
SHIFTER = """#!/bin/bash
echo "$1" >> "$VPLOG.img"
cmd="${@: -1}"
cmd="${cmd//\\/opt\\/redmapper\\/startup.sh/$VPSTUB/startup.sh}"
exec /bin/bash -c "$cmd"
"""
PARSL = """
import subprocess, os, types, sys
class _Any(object):
    def __init__(self, *a, **k): pass
class Fut(object):
    def __init__(self, c, o):
        with open(os.environ['VPLOG'] + '.out', 'a') as f: f.write(str(o) + '\\n')
        subprocess.check_call(['/bin/bash', '-c', c])
    def result(self): return None
def bash_app(*a, **k):
    def deco(f):
        def g(*args, **kw): return Fut(f(*args, **kw), kw.get('stdout'))
        return g
    return deco(a[0]) if a and callable(a[0]) else deco
python_app = bash_app
def load(*a, **k): return _Any()
class SlurmProvider(object):
    def __init__(self, partition=None, walltime='', nodes_per_block=1, scheduler_options='', **k):
        p = [int(x) for x in walltime.split(':')]
        with open(os.environ['VPLOG'] + '.slurm', 'a') as f:
            f.write('%d %d %s\\n' % (p[0] * 60 + p[1], nodes_per_block, ' '.join(scheduler_options.split())))
for nm, what in (('executors', ['WorkQueueExecutor', 'ThreadPoolExecutor', 'HighThroughputExecutor']), ('providers', ['LocalProvider', 'SlurmProvider']), ('addresses', ['address_by_hostname']),
                 ('utils', ['get_all_checkpoints']), ('launchers', ['SrunLauncher']), ('config', ['Config'])):
    m = types.ModuleType('parsl.' + nm)
    for w in what: setattr(m, w, globals().get(w, _Any))
    sys.modules['parsl.' + nm] = m
    globals()[nm] = m
"""


def stubs(d):
    os.makedirs(d + '/parsl')
    for s in glob.glob(TREE + '/bin/*.py'):
        with open(d + '/' + os.path.basename(s), 'w') as f:
            f.write(STUB)
    with open(d + '/shifter', 'w') as f:
        f.write(SHIFTER)
    with open(d + '/startup.sh', 'w') as f:
        f.write('export VPMARK=image\n')
    with open(d + '/parsl/__init__.py', 'w') as f:
        f.write(PARSL)
    for s in os.listdir(d):
        if os.path.isfile(d + '/' + s):
            os.chmod(d + '/' + s, 0o755)


def script(name, argv, home, patch=None):
    """Runs a script of the package in a forked child; (result, what the stand-ins saw)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        seen = []
        res = 'ok'
        try:
            os.environ['HOME'] = home
            sys.argv = [name] + argv
            if not os.environ.get('VP_DEBUG'):
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            sys.path.insert(0, os.path.join(TREE, 'bin'))
            if patch:
                patch(seen)
            runpy.run_path(os.path.join(TREE, 'bin', name), run_name='__main__')
        except SystemExit as e:
            res = 'ok' if not e.code else 'SystemExit'
        except BaseException as e:   # noqa: BLE001
            res = type(e).__name__
            if os.environ.get('VP_DEBUG'):
                import traceback
                traceback.print_exc()
        os.write(w, json.dumps([res, seen]).encode())
        os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b) if b else ['died', []]


def recorders(seen):
    for nm in TASKS:
        class Rec(object):
            task = nm

            def __init__(self, configfile, pixel, nside, path=None, **k):
                self.a = [self.task, configfile, int(pixel), int(nside), path]

            def run(self):
                seen.append(self.a)
        setattr(redmapper.pipeline, nm, Rec)
    redmapper.pipeline.__dict__.setdefault('VP', 1)


def snap(jobs):
    return {os.path.basename(f): hashlib.md5(open(f, 'rb').read()).hexdigest() for f in glob.glob(jobs + '/*') if os.path.isfile(f)}


def execute(f, sysname, stub, log):
    env = dict(os.environ, PATH=stub + ':' + os.environ['PATH'], VPLOG=log, VPSTUB=stub, VPMARK='none', PYTHONPATH=stub)
    for x in glob.glob(log + '*'):
        os.unlink(x)
    rcs = 0
    head = dict(wall=-1, size=-1, nodes=-1, opts='')
    kw = dict(env=env, cwd=os.path.dirname(log), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if sysname.startswith('parsl'):
        rcs = abs(subprocess.call([sys.executable, f], **kw))
        if os.path.exists(log + '.slurm'):
            a = open(log + '.slurm').read().split('\n')[0].split(' ', 2)
            head.update(wall=int(a[0]), nodes=int(a[1]), opts=a[2])
    else:
        t = open(f).read()
        m = re.search(r'^#BSUB -J .*\[(\d+)-(\d+)\]', t, re.M)
        lo, hi = (int(m.group(1)), int(m.group(2))) if m else (1, 0)
        w = re.search(r'^#BSUB -W (\d+)', t, re.M)
        head.update(wall=int(w.group(1)) if w else -1, size=hi - lo + 1)
        for i in range(lo, min(hi, lo + 2000) + 1):
            rcs += abs(subprocess.call(['/bin/bash', f], **dict(kw, env=dict(env, LSB_JOBINDEX=str(i)))))
    cmds = [x.split('\t') for x in open(log).read().splitlines()] if os.path.exists(log) else []
    outs = open(log + '.out').read().split() if os.path.exists(log + '.out') else []
    imgs = open(log + '.img').read().split() if os.path.exists(log + '.img') else []
    return rcs, head, cmds, outs, imgs


def main(part, nproc, out):
    with open('data_for_tests/testconfig.yaml') as f:
        y0 = yaml.safe_load(f)
    stub = os.path.abspath('stub')
    stubs(stub)
    for k in range(n(60, 500)):
        if k % nproc != part:
            continue
        r = rng(18000 + k)
        d = os.path.abspath(fresh('c18_%d' % k))
        home, sub, surv = [d + '/' + x for x in ('home', 'sub', 'surv_%d' % r.randint(9))]
        for x in (home, sub, surv):
            os.makedirs(x)
        ntab = int(r.choice([2, 4, 8, 16, 32]))
        m = int(r.choice([1, 3, 10, 40]))
        big = k in (2, 3)           # a survey of many pixels
        if big:
            ntab, m = 16, 1500
        g = np.zeros(m, dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
        g['id'] = np.arange(m) + 1
        g['refmag'] = 18.0
        g['mag'] = 18.0
        g['mag_err'] = 0.1
        g['refmag_err'] = 0.1
        u = 0 if big else r.randint(3)
        if u == 0:
            g['ra'], g['dec'] = r.uniform(0, 360, m), np.degrees(np.arcsin(r.uniform(-1, 1, m)))
        else:
            g['ra'], g['dec'] = (r.uniform(0, 360) + r.uniform(-9, 9, m) * u) % 360., np.clip(r.uniform(-80, 80) + r.uniform(-8, 8, m) * u, -90, 90)
        mk = GalaxyCatalogMaker(os.path.join(surv, 'gals'), INFO, nside=ntab)
        mk.append_galaxies(g)
        mk.finalize_catalog()
        outbase = ['run', 'a_1', 'my_run_2', 'x.y'][r.randint(4)]
        region = r.randint(12) == 0 and not big
        y = dict(y0, galfile=surv + '/gals_master_table.fit', outbase=outbase, outpath=[surv, d + '/elsewhere', './'][r.randint(3)], specfile=None, maskgalfile=surv + '/mg.fit', mask_mode=0, maskfile=None, hpix=[], nside=0)
        if region:
            y.update(hpix=[3], nside=2)
        mg = k not in (0, 1)
        if mg:
            open(surv + '/mg.fit', 'w').close()
        sys_all = dict(L=dict(batch='lsf', setup='export VPMARK=set%d' % r.randint(5), requirements='linux64'), P=dict(batch='parsl'),
                       S=dict(batch='parsl', parsl_provider='slurm', constraint='haswell', qos='regular'), I=dict(batch='parsl', image='eli/red:1.%d' % r.randint(9)),
                       J=dict(batch='parsl', parsl_provider='slurm', constraint='cpu', qos='debug', image='eli/red:2'), M=dict(batch='lsf'))
        keys = list(r.permutation(sorted(sys_all)))[:int(r.choice([1, 2, 6]))]
        if big:
            keys = [['M', 'P'][k - 2]]
        with open(home + '/.redmapper_batch.yml', 'w') as f:
            yaml.safe_dump({str(q): sys_all[q] for q in keys}, f)
        with open(surv + '/conf.yml', 'w') as f:
            yaml.safe_dump(y, f)
        steps = [dict(op='setup', region=bool(region), ntab=ntab)]
        os.chdir(sub if r.randint(2) else surv)
        jobs = os.path.join(os.getcwd(), 'jobs')
        long = k % 12 == 5          # many submissions of one kind
        mode0, sys0 = int(r.randint(5)), keys[0]
        nsub = 1 if big else 12 if long else int(r.choice([1, 2, 4, 6]))
        if os.getcwd() == surv:
            cf = r.choice(['conf.yml', './conf.yml', surv + '/conf.yml'])
        else:
            cf = surv + '/conf.yml' if r.randint(2) else os.path.relpath(surv + '/conf.yml')
        for s in range(nsub):
            before = snap(jobs)
            if before and r.randint(5) == 0 and not long:
                v = sorted(before)[r.randint(len(before))]
                os.unlink(os.path.join(jobs, v))
                steps.append(dict(op='remove', name=v))
                before.pop(v)
            if r.randint(6) == 0 and not long:
                os.makedirs(jobs, exist_ok=True)
                nm = '%s_%s_old.%s' % (outbase, r.choice(['run', 'zred']), r.choice(['job', 'py']))
                if nm not in before:
                    open(os.path.join(jobs, nm), 'w').write('keep')
                    steps.append(dict(op='other', name=nm))
                    before = snap(jobs)
            mode = mode0 if long or r.randint(2) else int(r.randint(5))
            key = sys0 if long or r.randint(2) else keys[r.randint(len(keys))]
            nside = 16 if big else int(2**r.randint(0, int(np.log2(ntab)) + 1)) if ntab < 8 or r.randint(3) else None
            argv = ['-c', str(cf), '-r', str(mode)]
            if len(keys) > 1 or r.randint(2):
                argv += ['-b', str(key)]
            else:
                key = keys[0]
            if nside:
                argv += ['-n', str(nside)]
            nside = nside or 8
            wall = int(r.choice([0, 30, 600]))
            if wall:
                argv += ['-w', str(wall)]
            nodes = 2
            if r.randint(3) == 0:
                nodes = int(r.randint(1, 9))
                argv += ['-N', str(nodes)]
            res, _ = script('redmapper_batch.py', argv, home)
            out.count('submissions')
            after = snap(jobs)
            new = sorted(set(after) - set(before))
            sysd = sys_all[key]
            ev = dict(op='submit', res=res, mode=mode, nside=nside, sys='lsf' if sysd['batch'] == 'lsf' else 'parsl', new=new,
                      lost=sorted(x for x in before if after.get(x) != before[x]),
                      want=sorted(set(int(x) for x in hpg.angle_to_pixel(nside, g['ra'], g['dec'], nest=False))), wall=wall, rc=0, got=[], outs=[], imgs=[], size=-1, gotwall=-1,
                      maskgals=os.path.exists(surv + '/mg.fit'), marks=True, slurm=sysd.get('parsl_provider') == 'slurm', nodes=nodes, gotnodes=-1, opts=True, img=sysd.get('image', ''))
            if res == 'ok' and len(new) == 1:
                rc, head, cmds, outs, imgs = execute(os.path.join(jobs, new[0]), 'lsf' if sysd['batch'] == 'lsf' else 'parsl', stub, d + '/log')
                ev.update(rc=rc, size=head['size'], gotwall=head['wall'], gotnodes=head['nodes'], outs=outs,
                          opts=all(sysd.get(q, '') in head['opts'] for q in ('constraint', 'qos')) if ev['slurm'] else True, imgs=[x.replace('--image=', '') for x in imgs])
                mark = 'image' if sysd.get('image') else sysd['setup'].split('=')[1] if sysd.get('setup') else 'none'
                ev['marks'] = all(c[-1] == 'MARK=' + mark for c in cmds)
                for c in cmds[:1600]:
                    res2, seen = script(c[0], c[1:-1], home, recorders)
                    out.count('job commands run')
                    for a in seen or [['none', '', -1, -1, '']]:
                        ev['got'].append(dict(res=res2, task=a[0], pixel=a[2], nside=a[3], cfg=bool(a[1] and os.path.isabs(a[1]) and os.path.realpath(a[1]) == os.path.realpath(surv + '/conf.yml')),
                                              path=bool(a[4] and os.path.isabs(a[4]) and os.path.realpath(a[4]) == os.path.realpath(surv))))
            steps.append(ev)
        os.chdir(d + '/..')
        shutil.rmtree(d)
        out.add('batch%d' % k, steps)
    # the remaining batch system
    if part == 0:
        d = os.path.abspath(fresh('c18_pbs'))
        os.makedirs(d + '/home')
        g = np.zeros(1, dtype=GalaxyCatalogMaker.get_galaxy_dtype(5))
        g['ra'], g['dec'], g['refmag'], g['mag'], g['mag_err'], g['refmag_err'] = 30.0, 2.0, 18.0, 18.0, 0.1, 0.1
        mk = GalaxyCatalogMaker(d + '/gals', INFO, nside=8)
        mk.append_galaxies(g)
        mk.finalize_catalog()
        with open(d + '/conf.yml', 'w') as f:
            yaml.safe_dump(dict(y0, galfile=d + '/gals_master_table.fit', outbase='run', outpath=d, specfile=None, maskgalfile=d + '/mg.fit', mask_mode=0, maskfile=None, hpix=[], nside=0), f)
        with open(d + '/home/.redmapper_batch.yml', 'w') as f:
            yaml.safe_dump(dict(b=dict(batch='pbs', ppn=4, queue='q')), f)
        here = os.getcwd()
        os.chdir(d)
        res, _ = script('redmapper_batch.py', ['-c', 'conf.yml', '-r', '1'], d + '/home')
        os.chdir(here)
        out.add('pbs', [dict(op='pbs', res=res)])
    # many pixels on one node
    for k in range(n(6, 30)):
        if k % nproc != part:
            continue
        r = rng(18900 + k)
        pix = [int(x) for x in r.choice(3000, size=int(r.choice([1, 2, 3, 7])), replace=False)]
        if k % 3 == 0:
            pix[-1] = 0
        log = os.path.abspath('same_%d' % k)
        os.environ.update(VPLOG=log, VPSTUB=stub, VPMARK='none')
        path0 = os.environ['PATH']
        os.environ['PATH'] = stub + ':' + path0
        cmd = 'redmapper_run_zred_pixel.py -c a.yml -n 8 -d /x'
        res, _ = script('redmapper_run_many_pixels_same_node.py', ['-c', cmd, '-P', ','.join(str(x) for x in pix)], '/nowhere')
        os.environ['PATH'] = path0
        cmds = [x.split('\t')[:-1] for x in open(log).read().splitlines()] if os.path.exists(log) else []
        got = []
        for c in cmds[:60]:
            res2, seen = script(c[0], c[1:], '/nowhere', recorders)
            got += [dict(res=res2, task=a[0], pixel=a[2], nside=a[3], cfg=a[1] == 'a.yml', path=a[4] == '/x') for a in seen or [['none', '', -1, -1, '']]]
        out.count('same-node runs')
        out.add('same%d' % k, [dict(op='samenode', res=res, want=pix, got=got)])


if __name__ == '__main__':
    shards(main, 6)
