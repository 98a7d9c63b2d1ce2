#!/usr/bin/env python3
"""Writes DESIGN.md (see tools/design_head.md)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = [open(root + '/tools/design_head.md').read()]
for l in open(root + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append(f'* {m[1]} (`{m[2]}`): {m[3]}.\n')
    m = re.match(r'finding: property=(\S+) (.*)', l)
    if m:
        out.append(f'* {m[1]} (recorded, not repaired): {m[2]}.\n')
out.append(open(root + '/tools/design_notes.md').read())
out.append('\n## 4. Properties: how each is decided\n')
cost = json.load(open(root + '/tools/cost.json')) if os.path.exists(root + '/tools/cost.json') else {}
for p in props:
    i = p['id']
    fs = sorted(glob.glob(f'{root}/harness/{i.lower()}/*.go')) + sorted(glob.glob(f'{root}/tssym/h/{i.lower()}/*.ts'))
    out.append(f"\n### {i}: {p['title']}\n\n")
    if not fs:
        out.append('No check.\n')
        continue
    files = ", ".join(p["anchors"]["files"])
    out.append(f'Anchored in {files}. ')
    if i in cost:
        c = cost[i]
        out.append(f"Quick run: {c['wall']} s, {c['paths']} paths, {c['queries']} solver queries of which {c['vcs']} {'assertions' if any(f.endswith('.ts') for f in fs) else 'verification conditions'}.")
    out.append('\n\n')
    for f in fs:
        t = open(f).read()
        if f.endswith('.ts'):
            for m in re.finditer(r'^((?:// .*\n)+)export async function (H_\w+)', t, re.M):
                doc = ' '.join(l[3:].strip() for l in m[1].splitlines() if not re.match(r'// (sym|bound|assume):', l))
                out.append(f'* `{m[2]}`: {doc}\n')
        for m in re.finditer(r'^// (H_\w+): (.*)\n((?:// ?.*\n)*)func H_', t, re.M):
            doc = m[2]
            for l in m[3].splitlines():
                l = l[2:].strip()
                if l.startswith('sym:'):
                    break
                if l:
                    doc += ' ' + l
            out.append(f'* `{m[1]}`: {doc}\n')
    for f in fs:
        t = open(f).read()
        for k, v in re.findall(r'^// (bound|assume): (.*)$', t, re.M):
            out.append(f"\n{'Bounds' if k == 'bound' else 'Assumed'}: {v}\n")
out.append('\n## 5. Planted bugs\n\nEach is in seeded/<id>/ with a demonstration; all build, pass the stable tests, and are reported by the '
           'quick check of their property (`tools/mkseeds.py check`). The ones marked * were missed when first planted; section 3 says what was added.\n\n'
           '| bug | what it breaks | needs |\n|---|---|---|\n')
missed = set(open(root + '/tools/missed.txt').read().split()) if os.path.exists(root + '/tools/missed.txt') else set()
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(f)); d = json.load(open(f))
    c = lambda x: x.replace('|', '/').replace('\n', ' ')
    out.append(f"| {s}{'*' if s in missed else ''} | {c(d['what_it_breaks'])} | {c(d['needs'])} |\n")
open(root + '/DESIGN.md', 'w').write(''.join(out))
