"""Writes MANIFEST.json: a check for every property with a module in rt/props."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_YET = 'Runtime monitoring applies; the check is not built yet.'
tech = {}
for line in open(os.path.join(HERE, 'tools', 'technique.txt'), encoding='utf-8'):
    if line.strip():
        k, v = line.rstrip('\n').split('|', 1)
        tech[k.strip()] = v.strip()
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    r = json.loads(line)
    i = r['id']
    if os.path.exists(os.path.join(HERE, 'rt', 'props', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': tech.get(i, 'runtime monitoring'), 'level': 'exploration',
                       'level_note': 'The real code runs under seeded generated workloads; an independent oracle decides '
                                     'every observed execution. Nothing is claimed beyond the executions counted in the '
                                     'evidence file.'})
    else:
        na.append({'property': i, 'reason': NOT_YET})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything is observed through the public API. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
