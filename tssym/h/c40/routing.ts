// bound: every pair of service and method names of up to 14 (thorough 20) printable characters against muxes of up to 3 handlers, with lookup functions that answer, refuse, fail or forward to another mux.
import { createMux, StaticMux } from '@repo/srpc/mux.js'
import { StaticHandler, createHandler } from '@repo/srpc/handler.js'
import { settle, collect, wire, wireStart } from 'hx'
import { Server } from '@repo/srpc/server.js'

const fn = (): any => async () => {}

// A lookup gives the method registered under exactly these names and nothing for any other names.
export async function H_mux(v: any) {
  const len = v.thorough ? 20 : 14
  const a = fn(), b = fn(), c = fn(), d = fn()
  const mux = createMux()
  const order = v.choose('order', 2)
  const h1 = new StaticHandler('svc.A', { One: a, Two: b }), h2 = new StaticHandler('svc.B', { One: c })
  for (const h of order === 0 ? [h1, h2] : [h2, h1]) mux.register(h)
  if (v.choose('more', 2) === 1) mux.register(new StaticHandler('svc.A', { Three: d }))
  else d.absent = true
  const s = v.str('s', len), m = v.str('m', len)
  const r = settle(mux.lookupMethod(s, m))
  await v.quiesce()
  v.assert(r.done && !r.failed, 'a lookup does not fail')
  let want: any = null
  if (s === 'svc.A') {
    if (m === 'One') want = a
    else if (m === 'Two') want = b
    else if (m === 'Three') want = d.absent ? null : d
  } else if (s === 'svc.B') {
    if (m === 'One') want = c
  }
  v.assert(r.value === want, want ? 'the method registered under the names is found' : 'nothing is found under names that were not registered')
  if (want) v.reach('found')
  else v.reach('absent')
}

// A handler answers for its own service and methods only; an empty service name stands for its own.
export async function H_handler(v: any) {
  const len = v.thorough ? 20 : 14
  const a = fn(), b = fn()
  const h = new StaticHandler('svc.A', { One: a, Two: b })
  const s = v.str('s', len), m = v.str('m', len)
  const r = settle(h.lookupMethod(s, m))
  await v.quiesce()
  v.assert(r.done && !r.failed, 'a lookup does not fail')
  let want: any = null
  if (s === 'svc.A' || s === '') {
    if (m === 'One') want = a
    else if (m === 'Two') want = b
  }
  v.assert(r.value === want, want ? 'the method is found' : 'nothing is found under other names')
  v.assert(h.getServiceID() === 'svc.A' && h.getMethodIDs().join() === 'One,Two', 'names of the handler')
  if (want) v.reach('found')
  else v.reach('absent')
}

// Lookup functions are asked in order, only for what is not registered, until one answers; a failure is passed on.
export async function H_lookups(v: any) {
  const len = 8
  const own = fn()
  const mux = createMux()
  mux.register(new StaticHandler('svc', { M: own }))
  const n = v.choose('n', 3)
  const asked: any[] = [], plan: number[] = [], fns: any[] = []
  for (let i = 0; i < n; i++) {
    const what = v.choose('what', 3), f = fn()
    plan.push(what)
    fns.push(f)
    mux.registerLookupMethod(async (s: any, m: any) => {
      asked.push([i, s, m])
      if (what === 1) return f
      if (what === 2) throw new Error('lookup failed')
      return null
    })
  }
  const s = v.str('s', len), m = v.str('m', len)
  const r = settle(mux.lookupMethod(s, m))
  await v.quiesce()
  v.assert(r.done, 'the lookup ends')
  if (s === 'svc' && m === 'M') {
    v.assert(r.value === own && asked.length === 0, 'a registered method comes first')
    v.reach('own')
    return
  }
  let i = 0
  while (i < n && plan[i] === 0) i++
  v.assert(asked.length === Math.min(n, i + 1), 'lookup functions are asked until one answers')
  asked.forEach((x, k) => { v.assert(x[0] === k, 'lookup functions are asked in order'); v.assert(x[1] === s, 'service asked for'); v.assert(x[2] === m, 'method asked for') })
  if (i === n) { v.assert(!r.failed && r.value === null, 'nothing found'); v.reach('none') }
  else if (plan[i] === 1) { v.assert(!r.failed && r.value === fns[i], 'the answer of the first lookup function that has one'); v.reach('forwarded') }
  else { v.assert(r.failed && r.err.message === 'lookup failed', 'the failure of a lookup function'); v.reach('failed') }
}

// A mux may stand behind another one, and registering replaces the methods of the same name only.
export async function H_nested(v: any) {
  const a = fn(), b = fn(), c = fn()
  const inner = createMux(), outer = createMux()
  outer.register(new StaticHandler('svc', { M: a, N: b }))
  outer.register(new StaticHandler('svc', { M: c }))
  inner.register(new StaticHandler('svc', { M: a, X: a }))
  outer.registerLookupMethod(inner.lookupMethod)
  const m = v.str('m', 11), s = v.str('s', 11)
  const r = settle(outer.lookupMethod(s, m))
  await v.quiesce()
  let want: any = null
  if (s === 'svc') {
    if (m === 'M') want = c
    else if (m === 'N') want = b
    else if (m === 'X') want = a
  }
  v.assert(r.done && r.value === want, 'outer methods first, then those of the mux behind')
  if (want) v.reach('found')
}

// A handler without service name cannot be registered.
export async function H_register(v: any) {
  const mux = createMux()
  const s = v.pick('s', ['', 'svc', 'constructor', '__proto__'])
  let threw = false
  const f = fn()
  try { mux.register({ getServiceID: () => s, getMethodIDs: () => ['M'], lookupMethod: async (a: any, b: any) => { v.assert(a === s, 'the handler is asked for its service'); v.assert(b === 'M', 'and its method'); return f } } as any) } catch (e) { threw = true }
  v.assert(threw === (s === ''), 'a handler needs a service name')
  if (threw) { v.reach('refused'); return }
  const r = settle(mux.lookupMethod(s, 'M')), q = settle(mux.lookupMethod(s, v.str('m', 8)))
  await v.quiesce()
  v.assert(r.value === f, 'a registered handler is found whatever its name')
  v.assert(q.done && !q.failed, 'the lookup ends')
  v.obs('q', q.value === f)
}

// The methods a handler is made of are those of the definition its implementation has, each called with its object,
// under the name of the definition or the one given.
export async function H_create(v: any) {
  const has = [v.choose('has', 2) === 1, v.choose('has', 2) === 1]
  const impl: any = {}
  if (has[0]) impl.One = async () => ({})
  if (has[1]) impl.Two = async () => ({})
  impl.Other = async () => ({})
  const def: any = { typeName: 'pkg.Svc', methods: { a: { name: 'One', I: T, O: T, kind: 0 }, b: { name: 'Two', I: T, O: T, kind: 0 } } }
  const id = v.choose('id', 2) === 1 ? 'custom' : undefined
  const h = createHandler(def, impl, id)
  v.assert(h.getServiceID() === (id ?? 'pkg.Svc'), 'service name')
  const s = id ?? 'pkg.Svc'
  const m = v.str('m', 14)
  const r = settle(h.lookupMethod(s, m))
  await v.quiesce()
  let want = false
  if (m === 'One') want = has[0]
  else if (m === 'Two') want = has[1]
  v.assert(r.done && !r.failed, 'the lookup ends')
  v.assert(!!r.value === want, 'the methods of the definition that are implemented')
  if (want) v.reach('found')
}
const T: any = { fromBinary: (b: any) => ({ b }), toBinary: (m: any) => m.b }
