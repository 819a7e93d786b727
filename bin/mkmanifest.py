#!/usr/bin/env python3
"""Write MANIFEST.json: every property with at least one unit is claimed."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('check', os.path.join(V, 'bin', 'check.py'))
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'bin', 'na.json')))
checks, na = [], []
for p in props:
    us = check.units_for(p)
    if p in NA or not us:
        na.append(dict(property=p, reason=NA.get(p, 'no unit yet')))
        continue
    proved = [u['name'] for u in us if not u['bounded']]
    bnd = ['%s (%s)' % (u['name'], u['bounded']) for u in us if u['bounded']]
    fns = sorted({f for u in us for f in u['function']})
    note = 'Functions under contract: %s.' % ', '.join(fns)
    if proved:
        note += ' Units proved for all inputs: %s.' % ', '.join(proved)
    if bnd:
        note += ' Bounded units (not counted as proved): %s.' % '; '.join(bnd)
    ass = sorted({a for u in us for a in u['assume']})
    if ass:
        note += ' Assumes: %s.' % '; '.join(ass)
    note += ' Trusted throughout: C semantics of goto-cc/cbmc, two\'s complement wrap-around, allocation succeeds.'
    checks.append(dict(property=p, quick_cmd='python3 bin/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + p,
        technique='contract-based deductive verification of the real C functions (CBMC code contracts, loop contracts; SAT/SMT back end)',
        level='proof' if proved else 'other', level_note=note))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if 'ASM6809_VERIFY' in l]
m = dict(version=1, setup_cmd='python3 bin/setup.py',
         hooks=dict(guard='ASM6809_VERIFY', enable='-DASM6809_VERIFY given to goto-cc by bin/check.py (loop contracts; no other effect)', source_commits=hooks),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', 'not applicable:', [x['property'] for x in na])
