#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         hooks=dict(guard='none', enable='the checks need no hooks in /repo: they compile its '
                    'sources unchanged and take over allocation, OpenMP and memory accesses at link time',
                    source_commits=[]),
         notes='Stateless explicit enumeration of executions of the real code; see DESIGN.md.')
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(
            property=i, quick_cmd='python3 run.py %s --tier quick' % i,
            thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=c['technique'], level='model_checking', level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
