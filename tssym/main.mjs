// tssym: symbolic execution of the TypeScript sources of the repository.
//
// A harness is run with concrete inputs while every value derived from them carries an SMT term. At each branch on
// such a value the other side is put to the solver: satisfiable gives a new run, unsatisfiable closes it. When no
// side is left open the runs cover all values of the inputs. Assertions over symbolic values are solver queries.
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { spawn } from 'node:child_process'
import { fileURLToPath } from 'node:url'
import * as R from './rt.mjs'
const { S, Sym, isSym, con, term, truth, branch, bin, int, Unsupported, Abort, $, GLOBALS, U8 } = R

const here = path.dirname(fileURLToPath(import.meta.url))
const opt = { prop: '', tier: 'quick', repo: '/repo', verif: path.dirname(here), evidence: '', v: false, strict: false, maxv: 5, one: '', replay: '', dir: '', only: '', fix: '', fast: false }
{
  const a = process.argv.slice(2)
  for (let i = 0; i < a.length; i++) {
    const k = a[i].replace(/^--?/, '')
    if (!(k in opt)) { console.error('unknown flag ' + a[i]); process.exit(2) }
    if (typeof opt[k] === 'boolean') opt[k] = true
    else opt[k] = typeof opt[k] === 'number' ? Number(a[++i]) : a[++i]
  }
}
const hdir = opt.dir || path.join(here, 'h', opt.prop.toLowerCase())

// ---------------------------------------------------------------- solver
class Solver {
  constructor() {
    this.bin = fs.existsSync('/usr/local/bin/z3-new') ? 'z3-new' : 'z3'
    this.p = spawn(this.bin, ['-in', '-smt2', '-t:20000'], { stdio: ['pipe', 'pipe', 'inherit'] })
    this.buf = ''; this.wait = []
    this.p.stdout.on('data', (d) => { this.buf += d; this.pump() })
    this.p.on('exit', () => { for (const w of this.wait.splice(0)) w('error') })
    this.declared = new Map()
    this.n = { queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0 }
    this.stack = []
    this.send('(set-option :produce-models true)')
  }
  send(s) { this.p.stdin.write(s + '\n') }
  pump() {
    for (;;) {
      const i = this.buf.indexOf('<<end>>')
      if (i < 0) return
      const r = this.buf.slice(0, i).trim()
      this.buf = this.buf.slice(i + 7)
      const w = this.wait.shift()
      if (w) w(r)
    }
  }
  ask(s) { return new Promise((res) => { this.wait.push(res); this.send(s + '\n(echo "<<end>>")') }) }
  declare(inputs) {
    for (const x of inputs.values()) {
      if (x.k === 'const' || this.declared.has(x.id)) continue
      this.pop(0)
      this.declared.set(x.id, x)
      this.send(`(declare-const ${x.id} ${{ int: 'Int', bool: 'Bool', str: 'String' }[x.k]})`)
      for (const d of x.dom) this.send(`(assert ${d})`)
    }
  }
  pop(n) { if (this.stack.length > n) { this.send(`(pop ${this.stack.length - n})`); this.stack.length = n } }
  // check decides prefix and extra; the prefix stays asserted for the next query.
  async check(prefix, extra, want) {
    let n = 0
    while (n < this.stack.length && n < prefix.length && this.stack[n] === prefix[n]) n++
    this.pop(n)
    for (; n < prefix.length; n++) { this.send(`(push 1)\n(assert ${prefix[n]})`); this.stack.push(prefix[n]) }
    const t0 = process.hrtime.bigint()
    let r = await this.ask(`(push 1)\n(assert ${extra})\n(check-sat)`)
    this.n.time += Number(process.hrtime.bigint() - t0) / 1e9
    this.n.queries++
    if (r.includes('error')) throw new Error('solver: ' + r + ' for ' + extra)
    this.n[r in this.n ? r : 'unknown']++
    let model = null
    if (r === 'sat' && want) {
      model = new Map()
      const ids = [...this.declared.values()]
      if (ids.length) {
        const txt = await this.ask(`(get-value (${ids.map((x) => x.id).join(' ')}))`)
        for (const [id, val] of parseModel(txt)) model.set(id, val)
      }
    }
    this.send('(pop 1)')
    return { r, model }
  }
  kill() { this.p.kill() }
}
function parseModel(t) {
  let i = 0
  const ws = () => { while (/\s/.test(t[i])) i++ }
  const sexp = () => {
    ws()
    if (t[i] === '(') { i++; const l = []; for (;;) { ws(); if (t[i] === ')') { i++; return l } l.push(sexp()) } }
    if (t[i] === '"') {
      i++
      let s = ''
      for (;;) {
        if (t[i] === '"') { if (t[i + 1] === '"') { s += '"'; i += 2; continue } i++; return { s: unesc(s) } }
        s += t[i++]
      }
    }
    if (t[i] === '|') { const j = t.indexOf('|', i + 1) + 1; const s = t.slice(i, j); i = j; return s }
    let s = ''
    while (i < t.length && !/[\s()]/.test(t[i])) s += t[i++]
    return s
  }
  const unesc = (s) => s.replace(/\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})/g, (_, a, b) => String.fromCodePoint(parseInt(a || b, 16)))
  const out = []
  for (const [id, v] of sexp()) {
    let x = v
    if (Array.isArray(v)) x = -Number(v[1])
    else if (typeof v === 'object') x = v.s
    else if (v === 'true' || v === 'false') x = v === 'true'
    else x = Number(v)
    out.push([id, x])
  }
  return out
}

// ---------------------------------------------------------------- loader
let ts = null
const code = new Map()
async function loadCompiler() { ts ??= await import('./transform.mjs') }
const real = {}
function resolve(spec, from) {
  if (spec === 'hx') return path.join(here, 'h', 'hx.ts')
  if (spec === 'env') return path.join(here, 'h', 'env.ts')
  if (spec === 'starpc') return path.join(opt.repo, 'srpc', 'index.ts')
  let p
  if (spec.startsWith('gen:')) return spec
  if (spec === 'msgs') return path.join(hdir, 'msgs.ts')
  if (spec.startsWith('/')) return spec
  if (spec.startsWith('@repo/')) p = path.join(opt.repo, spec.slice(6))
  else if (spec.startsWith('.')) p = path.resolve(path.dirname(from), spec)
  else {
    p = path.join(here, 'stubs', spec.replaceAll('/', '__').replace('@aptre__it-ws__', '@aptre__it-ws__') + '.ts')
    if (!fs.existsSync(p)) throw new Unsupported('no stub for the module ' + spec)
    return p
  }
  if (fs.existsSync(p) && fs.statSync(p).isFile()) return p
  for (const c of [p.replace(/\.js$/, '.ts'), p + '.ts', path.join(p, 'index.ts')]) if (fs.existsSync(c)) return c
  throw new Unsupported('no module ' + p)
}
const label = (p) => (p.startsWith(opt.repo + '/') ? p.slice(opt.repo.length + 1) : p.startsWith(here) ? '~' + p.slice(here.length + 1) : p)
// generated is the text the repository's TypeScript generator gives for the schema of the property's harnesses.
let gen = null
function generated(name) {
  if (!gen) {
    const { need } = instantiate(false)
    const { out, schema } = need('@aptre/protobuf-es-lite/protoplugin/ecmascript', here).makeSchema(need(path.join(hdir, 'schema.ts'), here).files)
    need('@repo/cmd/protoc-gen-es-starpc/typescript.ts', here).generateTs(schema)
    gen = new Map([...out].map(([k, f]) => [k, f.text()]))
  }
  if (!gen.has(name)) throw new Error('the generator gave no file ' + name)
  return gen.get(name)
}
function instantiate(symbolic, log) {
  const mods = new Map()
  const globals = symbolic ? { ...GLOBALS } : {}
  globals.console = Object.fromEntries(['log', 'warn', 'error', 'info', 'debug', 'trace'].map((k) => [k, () => {}]))
  const need = (spec, from) => {
    const file = resolve(spec, from)
    if (mods.has(file)) return mods.get(file).exports
    const k = (symbolic ? 's:' : 'n:') + file
    if (!code.has(k)) code.set(k, ts.compile(file, label(file), symbolic, file.startsWith('gen:') ? generated(file.slice(4)) : undefined))
    const m = { exports: {} }
    mods.set(file, m)
    const names = Object.keys(globals)
    const fk = k + names.length
    if (!code.has('f:' + fk)) code.set('f:' + fk, new Function('$', 'require', 'exports', 'module', ...names, code.get(k) + '\n//# sourceURL=' + label(file)))
    code.get('f:' + fk)($, (s) => need(s, file), m.exports, m, ...names.map((n) => globals[n]))
    return m.exports
  }
  const env = need('env', here)
  Object.assign(globals, { setTimeout: env.setTimeout, clearTimeout: env.clearTimeout, setInterval: env.setInterval, clearInterval: env.clearInterval, performance: env.performance, Date: env.Date0, MessagePort: env.MessagePort, MessageChannel: env.MessageChannel, BroadcastChannel: env.BroadcastChannel })
  // the global object shows the same names.
  const view = new Proxy(globalThis, { get: (o, k) => (typeof k === 'string' && k !== 'globalThis' && k in globals ? globals[k] : o[k]), has: (o, k) => k in o || k in globals })
  Object.assign(globals, { globalThis: view })
  return { need, env }
}

// ---------------------------------------------------------------- one run
// A harness may be split over several workers by the value of an input: each has its share of the domain.
const FIX = new Map(opt.fix ? opt.fix.split(',').map((x) => { const [k, n] = x.split(':'); return [k + '#0', n.split('/').map(Number)] }) : [])
const rejections = []
process.on('unhandledRejection', (e) => { if (!(e instanceof Abort) && !(e instanceof Unsupported)) rejections.push(e) })
const imm = () => new Promise((r) => setImmediate(r))
class Failed extends Abort {}
const text = (e) => { try { return e instanceof Error ? `${e.name}: ${con(e.message)}` : String(con(e)) } catch { return '?' } }
const plain = (x) => {
  x = con(x)
  if (x instanceof U8 || x instanceof Uint8Array) return [...x].map(con)
  if (Array.isArray(x)) return x.map(plain)
  if (x instanceof Error) return text(x)
  if (x && typeof x === 'object') return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, plain(v)]))
  return x === undefined ? null : x
}

async function run(file, name, given, symbolic) {
  Object.assign(S, { trace: [], known: new Map(), asserts: [], ops: 0, unsupported: null, hang: false })
  rejections.length = 0
  const P = { inputs: new Map(), obs: [], reached: new Set(), asserts: 0, fail: null, pruned: false, allow: false, symAsserts: 0, busy: 0, calls: 0 }
  const cnt = new Map()
  const fresh = (n, k, dom, def) => {
    const i = cnt.get(n) || 0
    cnt.set(n, i + 1)
    const key = `${n}#${i}`
    const id = `|${n}#${i}${dom.tag}|`
    const fixed = FIX.has(key)
    if (fixed && dom.tag !== `:0:${FIX.get(key)[1] - 1}`) throw new Error('split does not fit ' + key)
    let c = given.has(id) ? given.get(id) : fixed ? FIX.get(key)[0] : def
    P.inputs.set(key, { id, k, dom: fixed ? [...dom.of(id), `(= ${id} ${term(FIX.get(key)[0])})`] : dom.of(id), c })
    return symbolic ? new Sym(k, c, id, dom.w) : c
  }
  const fail = (m) => { P.fail ??= { msg: m, pos: S.trace.length }; throw new Failed(m) }
  const v = {
    tier: opt.tier, thorough: opt.tier === 'thorough', symbolic,
    byte: (n) => fresh(n, 'int', { tag: ':b', w: 8, of: (x) => [`(and (>= ${x} 0) (<= ${x} 255))`] }, 0),
    int: (n, lo, hi) => fresh(n, 'int', { tag: `:${lo}:${hi}`, w: lo >= 0 && typeof hi === 'number' ? hi.toString(2).length : undefined, of: (x) => [`(and (>= ${x} ${term(lo)}) (<= ${x} ${term(hi)}))`] }, lo),
    bool: (n) => fresh(n, 'bool', { tag: ':t', of: () => [] }, false),
    str: (n, max) => fresh(n, 'str', { tag: ':s' + max, of: (x) => [`(<= (str.len ${x}) ${max})`, `(str.in_re ${x} (re.* (re.range " " "~")))`] }, ''),
    bytes: (n, len) => { const a = []; for (let i = 0; i < len; i++) a.push(v.byte(n)); return symbolic ? new U8(a) : Uint8Array.from(a) },
    choose: (n, k) => int(v.int(n, 0, k - 1)),
    pick: (n, a) => a[v.choose(n, a.length)],
    assume: (c) => { if (!truth(c)) { P.pruned = true; throw new Abort('assume') } },
    assert: (c, m) => {
      if (typeof m !== 'string') throw new Error('assert needs a message')
      P.asserts++
      c = R.tob(c)
      if (isSym(c)) {
        if (c.t !== 'true') { P.symAsserts++; S.asserts.push({ t: c.t, pos: S.trace.length, msg: m }) }
        if (!c.c) fail(m)
        return
      }
      if (!c) fail(m)
    },
    reach: (l) => { P.reached.add(l) },
    obs: (l, x) => { P.obs.push([l, plain(x)]) },
    quiesce: async () => { P.busy++; let n; do { n = S.nops; await imm() } while (n !== S.nops && symbolic); await imm(); await imm(); P.busy--; P.calls++; if (S.hang) throw new Abort('hang') },
    unhandled: () => rejections.map(text),
    allowUnhandled: () => { P.allow = true },
    con: (x) => plain(x),
  }
  v.tick = R.tick
  let inst
  try {
    inst = instantiate(symbolic)
    v.env = inst.env.env
    v.gen = (name) => inst.need('gen:' + name, here)
    v.advance = async (ms) => {
      const to = bin('+', v.env.now, ms)
      for (;;) {
        const t = inst.env.due(to)
        if (!t) break
        t.fn()
        await v.quiesce()
      }
      v.env.now = to
      await v.quiesce()
    }
    const h = inst.need(file, here)[name]
    if (typeof h !== 'function') throw new Error('no harness ' + name)
    let done = false, err = null
    h(v).then(() => { done = true }, (e) => { done = true; err = e })
    for (let idle = 0, n = -1, q = -1; !done && idle < 6;) {
      await imm()
      if (P.busy || n !== S.nops || q !== P.calls) idle = 0
      else idle++
      n = S.nops; q = P.calls
    }
    await imm(); await imm()
    if (!done && !P.fail) P.fail = { msg: 'a call of the code under test never returned', pos: S.trace.length }
    if (err && !(err instanceof Abort) && !(err instanceof Unsupported) && !P.fail) P.fail = { msg: 'exception: ' + text(err), pos: S.trace.length, stack: err.stack }
    if (!P.fail && !P.allow && rejections.length) P.fail = { msg: 'unhandled rejection: ' + rejections.map(text).join('; '), pos: S.trace.length }
    if (S.hang && !P.fail) P.fail = { msg: 'the code under test does not end (step limit)', pos: S.trace.length }
  } catch (e) {
    if (e instanceof Unsupported) S.unsupported ??= e.message
    else if (!(e instanceof Abort)) { S.unsupported ??= 'engine: ' + (e.stack || e) }
  }
  P.trace = S.trace; P.symbolicAsserts = S.asserts; P.unsupported = S.unsupported; P.ops = S.ops
  if (P.pruned) P.fail = null
  return P
}

// confirm runs a counterexample with the unlowered code in a process of its own: it may not end.
function confirm(name, file, given) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'tssym-'))
  const f = path.join(dir, 'replay.json')
  fs.writeFileSync(f, JSON.stringify({ property: opt.prop, file: path.basename(file), harness: name, given: [...given] }))
  return new Promise((done) => {
    const c = spawn(process.execPath, ['--stack-size=4000', '--max-old-space-size=1500', fileURLToPath(import.meta.url), '-prop', opt.prop, '-tier', opt.tier, '-repo', opt.repo, '-verif', opt.verif, '-replay', f], { stdio: ['ignore', 'pipe', 'ignore'] })
    let out = '', late = false
    c.stdout.on('data', (d) => { out += d })
    const kill = setTimeout(() => { late = true; c.kill('SIGKILL') }, 20000)
    c.on('close', (rc) => {
      clearTimeout(kill)
      fs.rmSync(dir, { recursive: true, force: true })
      const m = /^reproduced: ([^]*)$/m.exec(out)
      if (late) done({ fail: { msg: 'the code under test does not end (20 s)' } })
      else if (m) done({ fail: { msg: m[1].trim() } })
      else if (out.includes('not reproduced')) done({ fail: null })
      else done({ fail: rc === 134 || rc === null ? { msg: `the process ends (${rc})` } : null })
    })
  })
}

// ---------------------------------------------------------------- exploration of one harness
async function explore(file, name, dir) {
  await loadCompiler()
  R.patch()
  const solver = new Solver()
  const t0 = Date.now()
  const res = { harness: name, paths: 0, pruned: 0, states: 0, transitions: 0, asserts: 0, symAsserts: 0, folded: 0, violations: [], problems: [], reached: {}, validated: 0, mismatches: [], samples: [], complete: true }
  const nsample = opt.tier === 'thorough' ? 60 : 12
  S.fns.clear()
  S.limit = dir.steps
  const work = [{ given: new Map(), bound: 0 }]
  const replay = async (given) => run(file, name, given, false)
  const inputsOf = (P) => Object.fromEntries([...P.inputs].map(([k, x]) => [k, x.c]))
  const givenOf = (P) => new Map([...P.inputs.values()].map((x) => [x.id, x.c]))
  const violation = async (P, given, msg) => {
    const N = await confirm(name, file, given)
    const v = { harness: name, msg, inputs: inputsOf(P), given: [...given], native: N.fail ? N.fail.msg : null, stack: N.fail?.stack }
    if (!N.fail) { res.problems.push(`${name}: "${msg}" did not show natively with ${JSON.stringify(v.inputs)}`); res.complete = false; return }
    res.violations.push(v)
  }
  while (work.length) {
    if (res.paths >= dir.paths) { res.problems.push(`${name}: path limit`); res.complete = false; break }
    if (Date.now() - t0 > dir.budget * 1000) { res.problems.push(`${name}: time budget`); res.complete = false; break }
    if (res.violations.length >= opt.maxv) { res.complete = false; break }
    const { given, bound, prefix } = work.pop()
    const P = await run(file, name, given, true)
    solver.declare(P.inputs)
    res.paths++
    res.transitions += P.ops
    res.states += P.trace.length - bound + 1
    res.asserts += P.asserts
    res.symAsserts += P.symAsserts
    if (P.unsupported) { res.problems.push(`${name}: not analysed: ${P.unsupported} with ${JSON.stringify(inputsOf(P))}`); res.complete = false; if (res.problems.length > 20) break }
    if (prefix && !prefix.every((t, i) => P.trace[i] && (P.trace[i].c ? P.trace[i].t : `(not ${P.trace[i].t})`) === t)) { res.problems.push(`${name}: a run did not follow its path: ${JSON.stringify(inputsOf(P))} ${P.fail?.msg} at ${prefix.findIndex((t, i) => !(P.trace[i] && (P.trace[i].c ? P.trace[i].t : `(not ${P.trace[i].t})`) === t))} of ${prefix.length} (${P.trace.length})`); res.complete = false; continue }
    for (const l of P.reached) res.reached[l] = (res.reached[l] || 0) + 1
    if (P.pruned) res.pruned++
    const lits = P.trace.map((b) => (b.c ? b.t : `(not ${b.t})`))
    if (P.fail && !P.unsupported) await violation(P, givenOf(P), P.fail.msg)
    // assertions over symbolic values, for all values that take this path so far
    for (const a of P.symbolicAsserts) {
      if (a.pos < bound) continue
      if (res.violations.length >= opt.maxv) break
      const { r, model } = await solver.check(lits.slice(0, a.pos), `(not ${a.t})`, true)
      if (r === 'sat') {
        const g = new Map(givenOf(P))
        for (const [k, x] of model) g.set(k, x)
        const Q = await run(file, name, g, true)
        if (Q.fail && !Q.unsupported) await violation(Q, g, Q.fail.msg)
        else { res.problems.push(`${name}: model of a failed assertion does not fail: ${a.msg}`); res.complete = false }
      } else if (r !== 'unsat') { res.problems.push(`${name}: solver: ${r}`); res.complete = false }
    }
    for (let i = bound; i < lits.length; i++) {
      const neg = P.trace[i].c ? `(not ${P.trace[i].t})` : P.trace[i].t
      const { r, model } = await solver.check(lits.slice(0, i), neg, true)
      if (r === 'sat') work.push({ given: model, bound: i + 1, prefix: [...lits.slice(0, i), neg] })
      else if (r !== 'unsat') { res.problems.push(`${name}: solver: ${r}`); res.complete = false }
    }
    if (!P.fail && !P.pruned && !P.unsupported && (res.paths <= 4 || res.paths % 17 === 0) && res.validated < nsample) {
      const N = await replay(givenOf(P))
      const a = JSON.stringify([P.obs, [...P.reached], P.fail?.msg]), b = JSON.stringify([N.obs, [...N.reached], N.fail?.msg])
      if (a !== b) { res.mismatches.push(`${name}: ${JSON.stringify(inputsOf(P))}: ${a} natively ${b}`); res.complete = false }
      else res.validated++
      if (res.samples.length < 3) res.samples.push({ harness: name, inputs: inputsOf(P), observed: P.obs.slice(0, 6), reached: [...P.reached] })
    }
  }
  res.open = work.length
  res.solver = solver.n
  res.fns = [...S.fns].filter((x) => !x.startsWith('~'))
  res.wall = (Date.now() - t0) / 1000
  solver.kill()
  return res
}

// ---------------------------------------------------------------- driver
const list = () => {
  const out = []
  for (const f of fs.readdirSync(hdir).filter((x) => x.endsWith('.ts')).sort()) {
    const file = path.join(hdir, f), txt = fs.readFileSync(file, 'utf8').split('\n')
    let dirs = []
    for (const l of txt) {
      const m = l.match(/^\/\/ sym: (.*)$/)
      if (m) dirs.push(...m[1].trim().split(/\s+/))
      const h = l.match(/^export async function (H_\w+)/)
      if (h) {
        const d = { paths: 200000, budget: opt.tier === 'thorough' ? 1500 : 500, steps: 300000 }
        let skip = false
        for (const x of dirs) {
          const [k0, val] = x.split('=')
          const [k, tier] = k0.split('@')
          if (k === 'tier') { skip = val !== opt.tier; continue }
          if (!tier || tier === opt.tier) d[k] = k === 'split' ? val : Number(val)
        }
        if (skip || (opt.only && opt.only !== h[1])) { dirs = []; continue }
        let fix = ['']
        for (const x of (d.split || '').split(',').filter(Boolean)) {
          const [k, n] = x.split(':')
          fix = fix.flatMap((p) => Array.from({ length: Number(n) }, (_, i) => (p ? p + ',' : '') + k + ':' + i + '/' + n))
        }
        for (const x of fix) out.push({ name: h[1], file, dir: d, src: f, fix: x })
        dirs = []
      } else if (!l.startsWith('//')) dirs = []
    }
  }
  return out
}
const reachOf = (file, name) => {
  const txt = fs.readFileSync(file, 'utf8')
  const i = txt.indexOf('export async function ' + name + '(')
  let j = txt.indexOf('\nexport async function H_', i + 1)
  if (j < 0) j = txt.length
  return [...new Set([...txt.slice(i, j).matchAll(/v\.reach\('([^']+)'\)/g)].map((m) => m[1]))]
}

if (opt.replay) {
  const r = JSON.parse(fs.readFileSync(opt.replay, 'utf8'))
  opt.prop = r.property
  await loadCompiler()
  const file = path.join(here, 'h', r.property.toLowerCase(), r.file)
  const N = await run(file, r.harness, new Map(r.given), false)
  if (opt.v) for (const o of N.obs) console.log(JSON.stringify(o))
  console.log(N.fail ? 'reproduced: ' + N.fail.msg : 'not reproduced')
  process.exit(N.fail ? 1 : 0)
}
if (opt.one) {
  const h = list().find((x) => x.name === opt.one)
  const r = await explore(h.file, h.name, h.dir)
  fs.writeSync(3, JSON.stringify(r))
  process.exit(0)
}

const t0 = Date.now()
const hs = list()
const results = new Array(hs.length)
let next = 0
const running = new Set()
const worker = async () => {
  for (;;) {
    const i = next++
    if (i >= hs.length) return
    results[i] = await new Promise((done) => {
      const args = [fileURLToPath(import.meta.url), ...process.argv.slice(2), '-one', hs[i].name, ...(hs[i].fix ? ['-fix', hs[i].fix] : [])]
      const c = spawn(process.execPath, ['--stack-size=4000', ...args], { stdio: ['ignore', 'inherit', 'inherit', 'pipe'] })
      running.add(c)
      let out = ''
      c.stdio[3].on('data', (d) => { out += d })
      const kill = setTimeout(() => c.kill('SIGKILL'), (hs[i].dir.budget + 60) * 1000)
      c.on('close', (rc) => {
        clearTimeout(kill)
        running.delete(c)
        try { done(JSON.parse(out)) } catch { done({ harness: hs[i].name, dead: `worker ended (${rc})`, paths: 0, pruned: 0, states: 0, transitions: 0, asserts: 0, symAsserts: 0, violations: [], problems: [hs[i].name + ': worker ended: ' + rc], reached: {}, validated: 0, mismatches: [], samples: [], fns: [], solver: { queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0 }, complete: false, wall: 0 }) }
      })
    })
    const r = results[i]
    // fast: the first violation is enough
    if (opt.fast && r.violations.length) { console.log(r.violations[0].harness + ': ' + r.violations[0].msg); for (const c of running) c.kill('SIGKILL'); process.exit(1) }
    if (opt.v) console.error(`${r.harness}${hs[i].fix ? ' ' + hs[i].fix : ''}: paths=${r.paths} pruned=${r.pruned} queries=${r.solver.queries} asserts=${r.asserts} sym=${r.symAsserts} violations=${r.violations.length} complete=${r.complete} ${r.wall}s reached=${JSON.stringify(r.reached)}`)
  }
}
await Promise.all(Array.from({ length: 8 }, worker))

const findings = fs.readFileSync(path.join(opt.verif, 'known_findings.txt'), 'utf8').split('\n').filter((l) => l.startsWith(`finding: property=${opt.prop} `)).map((l) => l.slice(`finding: property=${opt.prop} `.length))
// the shares of a harness together
for (let i = 0; i < hs.length; i++) {
  const r = results[i]
  for (let j = i + 1; j < hs.length && hs[j].name === hs[i].name && hs[j].file === hs[i].file;) {
    const o = results[j]
    for (const k of ['paths', 'pruned', 'states', 'transitions', 'asserts', 'symAsserts', 'validated']) r[k] += o[k]
    for (const k of ['violations', 'problems', 'mismatches', 'samples', 'fns']) r[k].push(...o[k])
    for (const k in o.solver) r.solver[k] += o.solver[k]
    for (const [k, n] of Object.entries(o.reached)) r.reached[k] = (r.reached[k] || 0) + n
    r.complete &&= o.complete
    r.wall = Math.max(r.wall, o.wall)
    hs.splice(j, 1)
    results.splice(j, 1)
  }
}
const problems = [], known = new Set()
let nv = 0
const sum = (f) => results.reduce((a, r) => a + f(r), 0)
const vdir = path.join(opt.verif, 'evidence', 'replay')
if (!hs.length) problems.push('no harness')
results.forEach((r, i) => {
  problems.push(...r.problems, ...r.mismatches)
  const missing = reachOf(hs[i].file, r.harness).filter((l) => !r.reached[l])
  if (missing.length && r.violations.length === 0) problems.push(`${r.harness}: vacuity witnesses not reached: ${missing}`)
  for (const v of r.violations) {
    const f = findings.find((k) => `${v.harness}: ${v.msg}`.includes(k.split(' | ')[0]))
    if (f) { known.add(f); continue }
    fs.mkdirSync(vdir, { recursive: true })
    const p = path.join(vdir, `${opt.prop}-${v.harness}-${nv++}.json`)
    fs.writeFileSync(p, JSON.stringify({ property: opt.prop, file: hs[i].src, ...v }, null, 1))
    console.log(`${v.harness}: ${v.msg} with ${JSON.stringify(v.inputs)}`)
    if (v.stack && opt.v) console.log(v.stack)
    console.log(`VIOLATION property=${opt.prop} replay=${p}`)
  }
})
for (const k of known) console.log(`KNOWN-FINDING: property=${opt.prop} ${k}`)
const bounds = [], assumes = []
for (const f of new Set(hs.map((h) => h.file))) {
  const t = fs.readFileSync(f, 'utf8')
  bounds.push(...[...t.matchAll(/^\/\/ bound: (.*)$/gm)].map((m) => 'bound: ' + m[1]))
  assumes.push(...[...t.matchAll(/^\/\/ assume: (.*)$/gm)].map((m) => 'assume: ' + m[1]))
}
const fns = [...new Set(results.flatMap((r) => r.fns))].sort()
const ev = {
  property: opt.prop, tier: opt.tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking', wall_s: (Date.now() - t0) / 1000, violations: nv,
  coverage: {
    explanation: 'states: symbolic branch points plus path ends; transitions: lowered operations executed. Each run of a harness carries an SMT term for every value derived from its inputs; both sides of every branch on such a value are decided by the solver (a satisfiable side becomes a run, an unsatisfiable one is closed), so the runs cover all values of the inputs, and every assertion over symbolic values is a query under its path condition.',
    functions_encoded: fns, functions_encoded_count: fns.length,
    harnesses: results.map((r) => ({ harness: r.harness, paths: r.paths, pruned: r.pruned, asserts: r.asserts, asserts_decided_by_solver: r.symAsserts, complete: r.complete, reached: r.reached, solver_queries: r.solver.queries, wall_s: r.wall })),
    paths: sum((r) => r.paths), states: sum((r) => r.states), transitions: sum((r) => r.transitions), asserts: sum((r) => r.asserts), asserts_decided_by_solver: sum((r) => r.symAsserts),
    solver: 'z3', solver_queries: sum((r) => r.solver.queries), solver_sat: sum((r) => r.solver.sat), solver_unsat: sum((r) => r.solver.unsat), solver_unknown: sum((r) => r.solver.unknown), solver_time_s: Number(sum((r) => r.solver.time).toFixed(3)),
    traces_validated_against_impl: sum((r) => r.validated), native_mismatches: sum((r) => r.mismatches.length), samples: results.flatMap((r) => r.samples).slice(0, 12),
    exhaustive: problems.length === 0, incomplete: problems.slice(0, 30),
  },
  assumptions: ['the lowering of TypeScript operators and the runtime models of byte arrays, strings, maps and errors (validated by running sampled paths with the unlowered sources) are faithful', 'library modules (it-pushable, it-pipe, uint8arraylist, event-iterator, protobuf-es-lite) are replaced by the models in tssym/stubs', ...bounds, ...assumes],
}
const evp = opt.evidence || path.join(opt.verif, 'evidence', opt.prop + '.json')
fs.mkdirSync(path.dirname(evp), { recursive: true })
fs.writeFileSync(evp, JSON.stringify(ev, null, 1) + '\n')
for (const p of problems.slice(0, 10)) console.log('INCOMPLETE: ' + p)
console.log(`${opt.prop} ${opt.tier}: ${hs.length} harnesses, ${ev.coverage.paths} paths, ${ev.coverage.solver_queries} queries, ${nv} violations, ${ev.wall_s}s`)
process.exit(nv ? 1 : problems.length && opt.strict ? 2 : 0)
