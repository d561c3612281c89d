#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the harnesses in props/."""
import json, os, re, ast
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    pid = p['id']; f = os.path.join(V, 'props', pid.lower() + '.py')
    if pid in NA: na.append(dict(property=pid, reason=NA[pid])); continue
    if not os.path.exists(f): na.append(dict(property=pid, reason='not built yet')); continue
    t = ast.parse(open(f).read())
    consts = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: consts[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    note = 'Exhaustive within bounds: every path and every assertion decided by z3 over all values. Bounds: ' + consts['BOUNDS'] + '. '
    if consts.get('ASSUMPTIONS'): note += 'Assumes: ' + '; '.join(consts['ASSUMPTIONS']) + '. '
    note += 'Trusts: z3, CPython and the instrumentation/library models in engine/ (validated on every run by replaying solver models on the real modules).'
    checks.append(dict(property=pid, quick_cmd='python3-vt engine/run.py %s --tier quick' % pid, thorough_cmd='python3-vt engine/run.py %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid, technique='symbolic execution of the real Python source (AST-lifted each run), z3 decides every branch and assertion; counterexamples replayed on the real modules',
        level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the engine instruments the source at load time, outside the tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
