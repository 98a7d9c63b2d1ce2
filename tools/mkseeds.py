#!/usr/bin/env python3
"""Development tool (no check uses it): builds and validates the planted bugs in /verif/seeded.

  mkseeds.py gen [ID...]      write seeded/<id>/ from tools/seeds_*.py
  mkseeds.py verify [ID...]   build, tests, demo on both trees, in a scratch copy
  mkseeds.py check [-t TIER] [ID...]  apply to /repo, run the property's check, undo
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + '/seeded'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour is right, 1 if not.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/o.json"
go test -vet=off -overlay "$T/o.json" -count=1 -timeout 120s %(flags)s-run '^TestDemo$' ./%(pkg)s || exit 1
'''

DEMO_TS = '''#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour is right, 1 if not.
D=$(cd "$(dirname "$0")" && pwd)
node "$D/demo.mjs" || exit 1
'''

DEMO_JS = '''#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour is right, 1 if not. Builds for JavaScript and runs in node.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOOS=js GOARCH=wasm
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo/main.go\\": \\"$D/demo.go.txt\\"}}" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo.wasm" ./zz_demo || exit 1
timeout 60 env -i PATH="$PATH" HOME="$T" node "$(go env GOROOT)/lib/wasm/wasm_exec_node.js" "$T/demo.wasm" || exit 1
'''

def specs():
    out = {}
    for f in sorted(glob.glob(ROOT + '/tools/seeds_*.py')):
        s = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for e in m.SEEDS:
            assert e['id'] not in out, e['id']
            out[e['id']] = e
    return out

def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d

def gen(ids):
    sp = specs()
    d = scratch(); r = d + '/repo'
    for i in ids or sp:
        e = sp[i]
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        for f, old, new in e['edits']:
            t = open(f'{r}/{f}').read()
            n = t.count(old)
            assert n == 1, (i, f, n, old)
            open(f'{r}/{f}', 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        o = f'{SEED}/{i}'
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        if 'ts' in e:
            shutil.copytree(ROOT + '/tssym/stubs', o + '/stubs', dirs_exist_ok=True)
            for f in ('env.ts', 'hx.ts'): shutil.copy(f'{ROOT}/tssym/h/{f}', f'{o}/{f}')
            if e['property'] == 'C43':
                for f in ('msgs.ts', 'schema.ts'): shutil.copy(f'{ROOT}/tssym/h/c43/{f}', f'{o}/{f}')
            shutil.copy(ROOT + '/tools/tsdemo/lib.mjs', o + '/lib.mjs')
            open(o + '/demo.mjs', 'w').write(e['ts'].strip() + '\n')
            open(o + '/demo.sh', 'w').write(DEMO_TS)
        elif 'js' in e:
            open(o + '/demo.go.txt', 'w').write(e['js'].strip() + '\n')
            open(o + '/demo.sh', 'w').write(DEMO_JS)
        else:
            open(o + '/demo_test.go', 'w').write(e['demo'].strip() + '\n')
            open(o + '/demo.sh', 'w').write(DEMO % {'pkg': e['pkg'], 'flags': e.get('flags', '')})
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': e['property'], 'needs': e['needs'], 'what_it_breaks': e['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)

def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, shell=isinstance(cmd, str))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 99, 'timeout'

def verify(ids):
    bad = []
    for i in ids or sorted(os.listdir(SEED)):
        d = scratch(); r = d + '/repo'; o = d + '/seed'
        shutil.copytree(f'{SEED}/{i}', o)
        res = []
        def demo(): return sh(['bash', o + '/demo.sh'], r)
        a = demo(); res.append(('clean demo', a[0] == 0, a[1]))
        a = sh(['git', 'apply', o + '/patch.diff'], r); res.append(('apply', a[0] == 0, a[1]))
        a = sh('go build ./...', r); res.append(('build', a[0] == 0, a[1]))
        a = sh('go test -vet=off -count=1 ./...', r); res.append(('tests', a[0] == 0, a[1]))
        for k in range(3):
            a = demo(); res.append(('patched demo', a[0] != 0 and 'build failed' not in a[1] and 'setup failed' not in a[1], a[1]))
        ok = all(x[1] for x in res)
        print(i, 'ok' if ok else 'BAD', flush=True)
        for n, k, t in res:
            if not k: print('   ', n, t[-1500:])
        if '-v' in sys.argv: print(a[1][-800:])
        if not ok: bad.append(i)
        shutil.rmtree(d)
    print('bad:', bad)

def check1(i, tier):
    p = json.load(open(f'{SEED}/{i}/meta.json'))['property']
    d = scratch()
    subprocess.check_call(['git', '-C', d + '/repo', 'apply', f'{SEED}/{i}/patch.diff'])
    t = time.time()
    rc, out = sh(['./check.sh', p, tier, '-repo', d + '/repo', '-evidence', d + '/e.json'], ROOT, 1000)
    shutil.rmtree(d)
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    print(f'{i} {p} rc={rc} {"CAUGHT" if rc == 1 and v else "MISSED"} {time.time()-t:.0f}s {out.strip().splitlines()[-1][:150] if out.strip() else ""}', flush=True)
    if '-v' in sys.argv: print(out[-2500:])

def check(ids, tier='quick'):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as x:
        list(x.map(lambda i: check1(i, tier), ids or sorted(os.listdir(SEED))))

a = [x for x in sys.argv[1:] if not x.startswith('-')]
if a[0] == 'gen': gen(a[1:])
elif a[0] == 'verify': verify(a[1:])
elif a[0] == 'check': check(a[1:], 'thorough' if '-T' in sys.argv else 'quick')
