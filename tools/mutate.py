#!/usr/bin/env python3
"""Development tool (no check uses it): systematic mutants of the Go sources, run through the
existing tests and, if those pass, through the checks; lists the ones nothing catches.

  mutate.py OUT.jsonl [FILE...]     (run from a copy of /verif, resumes OUT.jsonl)
"""
import json, os, shutil, subprocess, sys, tempfile, time, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
PROPS = {
 'srpc/accept.go': 'C30', 'srpc/client-prefix.go': 'C17', 'srpc/client-rpc.go': 'C32 C09 C06 C11 C14 C13 C12 C10 C08 C07',
 'srpc/client-set.go': 'C19', 'srpc/client-verbose.go': 'C29', 'srpc/client.go': 'C32 C31 C06 C08 C10 C07 C27',
 'srpc/common-rpc.go': 'C09 C06 C14 C12 C13 C11 C32 C33 C10 C08 C07', 'srpc/invoker-prefix.go': 'C17', 'srpc/invoker.go': 'C18',
 'srpc/message.go': 'C20', 'srpc/msg-stream.go': 'C14 C06 C32 C08 C10', 'srpc/mux-verbose.go': 'C29', 'srpc/mux.go': 'C15 C16 C18',
 'srpc/muxed-conn.go': 'C31 C30 C32', 'srpc/net.go': 'C30', 'srpc/packet-rw.go': 'C03 C04 C05 C33', 'srpc/packet.go': 'C01 C13 C14 C06 C12 C07',
 'srpc/rwc-conn.go': 'C22 C33', 'srpc/server-http.go': 'C30', 'srpc/server-pipe.go': 'C08 C10', 'srpc/server-rpc.go': 'C12 C14 C13 C06 C10 C08 C07',
 'srpc/server.go': 'C31 C08 C13', 'srpc/stream-pipe.go': 'C23 C21', 'srpc/stream-rwc.go': 'C21 C22', 'srpc/stream.go': 'C29', 'srpc/strip-prefix.go': 'C17',
 'srpc/websocket.go': 'C30', 'srpc/writer.go': 'C29', 'rpcstream/proxy.go': 'C26 C25', 'rpcstream/raw-stream.go': 'C25 C26',
 'rpcstream/read-writer.go': 'C27 C21 C26 C33', 'rpcstream/rpcstream.go': 'C24 C25 C27', 'rpcstream/writer.go': 'C21 C27',
}
out = sys.argv[1]
files = sys.argv[2:] or list(PROPS)
seen = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); seen.add((d['file'], d['i'], d['what']))
mut = tempfile.mktemp(prefix='mutate')
subprocess.check_call(['go', 'build', '-o', mut, '.'], cwd=ROOT + '/tools/mutate', env=dict(ENV, GOFLAGS='-mod=mod'))
q = queue.Queue()
for f in files:
    for l in subprocess.check_output([mut, '/repo/' + f], text=True).splitlines():
        i, line, what = l.split('\t', 2)
        if what.startswith('swap case') or (f, int(i), what) in seen: continue
        q.put((f, int(i), int(line), what))
import random
l = list(q.queue); random.Random(5).shuffle(l); q.queue.clear(); [q.put(e) for e in l]
print(q.qsize(), 'mutants', flush=True)
lock = threading.Lock()
fo = open(out, 'a')
def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, GOMAXPROCS='4'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 99, 'timeout'
def work():
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp'); r = d + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', r])
    while True:
        try: f, i, line, what = q.get_nowait()
        except queue.Empty: break
        orig = open('/repo/' + f).read()
        new = subprocess.run([mut, '/repo/' + f, str(i)], capture_output=True, text=True)
        res = None; t0 = time.time()
        if new.returncode != 0: res = 'nomutant'
        else:
            open(f'{r}/{f}', 'w').write(new.stdout)
            if sh('go build ./...', r, 200)[0] != 0: res = 'nobuild'
            elif sh('go test -vet=off -count=1 -timeout 30s ./...', r, 120)[0] != 0: res = 'tests'
            else:
                for p in PROPS[f].split():
                    rc, o = sh(['./check.sh', p, 'quick', '-repo', r, '-evidence', d + '/e.json', '-nonative', '-maxv', '1'], ROOT, 900)
                    if rc == 1 and 'VIOLATION' in o: res = p; break
                    if rc != 0: res = f'{p} rc={rc} {o[-300:]}'; break
        open(f'{r}/{f}', 'w').write(orig)
        with lock:
            fo.write(json.dumps({'file': f, 'i': i, 'line': line, 'what': what, 'res': res, 't': round(time.time() - t0, 1)}) + '\n'); fo.flush()
    shutil.rmtree(d)
ts = [threading.Thread(target=work) for _ in range(int(os.environ.get('W', '3')))]
for t in ts: t.start()
for t in ts: t.join()
os.remove(mut)
