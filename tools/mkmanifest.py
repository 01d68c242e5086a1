#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the properties that have a check in lib/checks.py.
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = open(V + '/lib/checks.py').read()
have = set(re.findall(r'^def (C\d\d)\(', src, re.M))
sys.path.insert(0, V + '/tools')
from manifest_notes import TECH, NOTE, NA
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
                           technique=TECH[i][0], level=TECH[i][1] if len(TECH[i]) > 1 else 'exploration', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='python3 -c "print(\'nothing to prepare: every check builds its harnesses from /repo\')"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: all monitors observe the library through its public interface, its raw fcontext functions, instrumented allocators/callables, '
               'interposed system interfaces, the trap flag and compiler sanitizers. Repairs are the fix: commits, listed in known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
