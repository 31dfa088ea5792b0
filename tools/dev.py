"""dev.py rebuild | dev.py <harness> [args]: runs a harness in a kept scratch build (development only)."""
import os, sys, shutil, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vp
W = '/tmp/dev/w'
if sys.argv[1] == 'rebuild':
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W); vp.build(W)
else:
    e = vp.env(W + '/tree', W); e['VP_OUT'] = W + '/out.json'; e.setdefault('VERIF_SEED', '1'); e['VP_DEBUG'] = '1'
    cwd = W + '/cwd'; shutil.rmtree(cwd, ignore_errors=True); os.makedirs(cwd)
    r = subprocess.run([vp.PY, '-W', 'ignore', vp.VERIF + '/harness/' + sys.argv[1] + '.py'] + sys.argv[2:], cwd=cwd, env=e)
    print('rc', r.returncode)
