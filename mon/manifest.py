#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in mon/props."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'C17': 'runtime monitoring: ThreadSanitizer build, thread-count differential monitor, fault injection in worker threads',
    'C18': 'runtime monitoring: AddressSanitizer + UndefinedBehaviourSanitizer build with the backend assertions on, hostile workload',
}
NOTE = ('Held on the executions of this run only (counts in the evidence file). Trusts the independent reference formulas in mon/lib.py, '
        'numpy and scipy, and tolerances calibrated on the unchanged tree over many seeds.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mon', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3 mon/check.py {i} --tier quick', thorough_cmd=f'python3 mon/check.py {i} --tier thorough',
                           technique=TECH.get(i, 'runtime monitoring: oracle over recorded executions of generated workloads'),
                           level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 mon/setup.py', checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: every monitor sits at the public interface or in the sanitizer runtime.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
