#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directories."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
na_reason = {}
TECH = 'symbolic execution of the real Go code (SSA lowered from the current tree); an SMT solver (z3) decides branches and assertions and discharges verification conditions over the tree of inputs, faults and goroutine schedules (delay-bounded); counterexamples replayed against the compiled code'
TECH_TS = 'symbolic (concolic) execution of the real TypeScript code (lowered from the current tree): every value derived from an input, schedule or fault choice carries an SMT term, z3 decides both sides of every branch and every assertion until no side is open; counterexamples replayed against the unlowered code'
checks, na = [], []
for p in props:
    i = p['id']
    files = sorted(glob.glob(f'{root}/harness/{i.lower()}/*.go'))
    ts = sorted(glob.glob(f'{root}/tssym/h/{i.lower()}/*.ts'))
    files += ts
    if not files:
        na.append({'property': i, 'reason': na_reason.get(i, 'no check yet')})
        continue
    bounds, assumes, nh = [], [], 0
    for f in files:
        t = open(f).read()
        bounds += re.findall(r'^// bound: (.*)$', t, re.M)
        assumes += re.findall(r'^// assume: (.*)$', t, re.M)
        nh += len(re.findall(r'^(?:func|export async function) H_', t, re.M))
    note = f'{nh} harnesses. Bounds: ' + ' '.join(bounds)
    if assumes:
        note += ' Assumptions: ' + ' '.join(assumes)
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH_TS if ts else TECH,
        'level': 'model_checking',
        'level_note': note,
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
