"""Development only: writes spec/ConfigKeys.tla (the interface of the configuration file) from the current code; the result is committed and is part of the specification."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CODE = '''
import sys; sys.path.insert(0, %r)
from redmapper.configuration import Configuration, ConfigField
from harness.config import canon, nums
D = Configuration.__dict__
ks = [k for k in D if isinstance(D[k], ConfigField)]
q = lambda s: '"' + s + '"'
S = lambda l: '{' + ', '.join(q(x) for x in l) + '}'
print('----------------------------- MODULE ConfigKeys -----------------------------')
print('(* The keys of a configuration file: which there are, which are arrays or lists, which are required, and their defaults in canonical form. *)')
print('Arrays == ' + S([k for k in ks if D[k]._isArray]))
print('Lists == ' + S([k for k in ks if D[k]._isList]))
print('Required == ' + S([k for k in ks if D[k]._required]))
print('Defaults == [' + ',\\n  '.join('%%s |-> %%s' %% (k, q(canon(D[k]._default) if k != 'version' else 'package')) for k in ks) + ']')
print('Known == DOMAIN Defaults')
print('=============================================================================')
'''
from lib import vp
W = '/tmp/dev/w'
e = vp.env(W + '/tree', W); e['VP_OUT'] = '/dev/null'
r = subprocess.run([vp.PY, '-W', 'ignore', '-c', CODE % vp.VERIF], env=e, cwd='/tmp', stdout=subprocess.PIPE, check=True)
open(vp.VERIF + '/spec/ConfigKeys.tla', 'wb').write(r.stdout)
