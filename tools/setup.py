#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead of a check (each one builds /repo's tree in its own scratch directory); this only
makes sure that the tools and the specifications are usable."""
import os
import subprocess
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import vp   # noqa: E402
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
for f in sorted(os.listdir(vp.SPEC)):
    if f.endswith('MC.tla'):
        r = subprocess.run(['java', '-cp', vp.JARS, 'tla2sany.SANY', f], cwd=vp.SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or 'rror' in r.stdout.replace('Errors: 0', ''):
            print(r.stdout[-2000:])
            sys.exit(1)
print('ok')
