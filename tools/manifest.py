#!/usr/bin/env python3
# Writes MANIFEST.json from the table of claimed checks.
import json
import sys
NOTE = ("Every path of the listed harnesses over the listed template languages is decided: branches by the solver or by exact finite domains, "
        "assertions by the solver, each path replayed on the compiled code. Trusted: go/ssa, the engine's model of the Go runtime "
        "(cross-checked on every path), z3. Inputs outside the template languages are not covered.")
EXTRA = json.load(open('/verif/tools/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    c = EXTRA.get(p['id'])
    if c is None or 'reason' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('reason', 'no check built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': c.get('technique', 'symbolic execution of the Go SSA of /repo with z3'), 'level': 'model_checking',
                   'level_note': c['note'] + ' ' + NOTE})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses enter the package through an overlay.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('/verif/MANIFEST.json', 'a').write('\n')
