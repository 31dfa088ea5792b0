#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import inspect
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import checks   # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
claimed = [p['id'] for p in props if hasattr(checks, p['id'])]
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[], not_applicable=[],
         notes='TLA+ (TLC). Every check rebuilds /repo in a scratch directory, records executions of the real code and lets TLC judge them '
               'with the trace specification of the property; design models are checked exhaustively in the same run.')
for p in props:
    i = p['id']
    if i in claimed:
        f = getattr(checks, i)
        doc = inspect.getdoc(f) or ''
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py %s' % i,
                                thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                                technique='TLA+ specification checked with TLC; executions of the real code validated against it',
                                level='model_checking',
                                level_note=' '.join(doc.split()) or 'see DESIGN.md'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']], 'not')
