// bound: the files the generator gives for three proto files (a service with two methods of every kind, several services per file, one without methods or package, and the echo service of the repository), and the committed echo client; messages of up to 1 byte (thorough 2), up to 2 messages per stream, every way requests and responses can end.
// assume: method names start with an upper-case letter or contain an underscore (a method named like a field of the client does not compile); the plugin framework prints as protobuf-es-lite does (tssym/stubs).
import { Client, Server, createMux, createHandler } from 'starpc'
import * as Committed from '@repo/echo/echo_srpc.pb.js'
import { services } from './schema.js'
import { collect, settle, eqBytes, queue, pair, str, fLen, fLenAlways } from 'hx'

const EMPTY = new Uint8Array(0)
const message = (e: any) => (e instanceof Error ? e.message : String(e))

// what a message type is on the wire, by its name
const bytesMsg = (no: number): any => ({
  make: (b: any) => ({ data: b }), wire: (b: any) => new Uint8Array(fLen(no, b)), same: (x: any, b: any) => eqBytes(x.data ?? EMPTY, b), val: (v: any, n: string) => v.bytes(n, v.choose(n + 'len', v.thorough ? 3 : 2)),
})
const TYPES: any = {
  Req: bytesMsg(1), Resp: bytesMsg(2), Note: bytesMsg(3),
  EchoMsg: { make: (s: any) => ({ body: s }), wire: (s: any) => new Uint8Array(fLen(1, str(s))), same: (x: any, s: any) => (x.body ?? '') === s, val: (v: any, n: string) => v.pick(n, ['', 'hello']) },
  RpcStreamPacket: { make: (b: any) => ({ body: { case: 'data', value: b } }), wire: (b: any) => new Uint8Array(fLenAlways(3, b)), same: (x: any, b: any) => x.body.case === 'data' && eqBytes(x.body.value, b), val: (v: any, n: string) => v.bytes(n, 1) },
  Empty: { make: () => ({}), wire: () => EMPTY, same: () => true, val: () => null },
}
const BROKEN = new Uint8Array([10, 200])
const KIND = ['unary', 'server streaming', 'client streaming', 'bidi']

// pick chooses one generated service with methods.
function pick(v: any): any {
  const all: any[] = []
  for (const [file, list] of Object.entries(services) as any) for (const s of list) if (s.methods.length) all.push([file, s, false])
  all.push(['', services['sub/echo'][0], true])
  const [file, svc, committed] = v.pick('service', all)
  return [committed ? Committed : v.gen(file + '_srpc.pb.ts'), svc]
}

// Every method of a generated client calls its own method of its service, with the request encoded and the response decoded.
// sym: split=service:6
export async function H_client(v: any) {
  const [G, svc] = pick(v)
  const calls: any[] = []
  let reply: any = null
  const rpc: any = {}
  ;['request', 'serverStreamingRequest', 'clientStreamingRequest', 'bidirectionalStreamingRequest'].forEach((fn, kind) => {
    rpc[fn] = (service: any, method: any, data: any, signal: any) => { calls.push({ kind, service, method, data, signal }); return reply(data) }
  })
  const which = v.choose('override', 4)
  const c = which === 0 ? new G[svc.name + 'Client'](rpc) : new G[svc.name + 'Client'](rpc, [{}, { service: '' }, { service: 'other/svc' }][which - 1])
  const m = svc.methods[v.choose('method', svc.methods.length)]
  const signal = v.choose('signal', 2) === 1 ? new AbortController().signal : undefined
  const I = TYPES[m.input.name], O = TYPES[m.output.name]
  const streamIn = m.methodKind >= 2, streamOut = m.methodKind === 1 || m.methodKind === 3
  const nin = streamIn ? v.choose('nin', 3) : 1, nout = streamOut ? v.choose('nout', 3) : 1
  const inEnd = streamIn ? v.choose('inEnd', 2) : 0, end = v.choose('end', 3)
  const ins: any[] = [], outs: any[] = []
  for (let i = 0; i < nin; i++) ins.push(I.val(v, 'in'))
  for (let i = 0; i < nout; i++) outs.push(O.val(v, 'out'))
  let sent: any = null
  const outq = queue()
  reply = (data: any) => {
    if (streamIn) sent = collect(data)
    if (streamOut) return outq
    return end === 1 ? Promise.reject(new Error('remote')) : Promise.resolve(end === 2 ? BROKEN : O.wire(outs[0]))
  }
  // methods may be taken from their client
  const f = c[m.name]
  const inq = queue()
  const req = streamIn ? inq : I.make(ins[0])
  const r: any = streamOut ? collect(f(req, signal)) : settle(f(req, signal))
  await v.quiesce()
  if (streamIn) { for (const x of ins) { inq.push(I.make(x)); await v.quiesce() } inq.end(inEnd === 1 ? new Error('input') : undefined) }
  if (streamOut) {
    for (const x of outs) { outq.push(O.wire(x)); await v.quiesce() }
    if (end === 2) outq.push(BROKEN)
    outq.end(end === 1 ? new Error('remote') : undefined)
  }
  await v.quiesce()
  v.assert(calls.length === 1, 'one call')
  const call = calls[0]
  v.assert(call.kind === m.methodKind, 'a call of its kind')
  v.assert(call.service === (which === 3 ? 'other/svc' : svc.typeName), 'the service of the client')
  v.assert(call.method === m.name, 'the method of its name')
  v.assert(call.signal === signal, 'the abort signal is passed on')
  if (!streamIn) v.assert(eqBytes(call.data, I.wire(ins[0])), 'the request is encoded')
  else {
    v.assert(sent.items.length === nin, 'every request is sent')
    sent.items.forEach((x: any, i: number) => v.assert(eqBytes(x, I.wire(ins[i])), 'requests encoded in order'))
    v.assert(sent.done && (inEnd === 1 ? message(sent.err) === 'input' : !sent.err), 'the end of the requests is passed on')
  }
  v.assert(r.done, 'the call ends')
  if (streamOut) {
    v.assert(r.items.length === nout, 'every response is given')
    r.items.forEach((x: any, i: number) => v.assert(O.same(x, outs[i]), 'responses decoded in order'))
    v.assert(end === 0 ? !r.err : !!r.err, 'the stream ends like the call')
    if (end === 1) v.assert(message(r.err) === 'remote', 'the error of the call')
  } else if (end === 0) { v.assert(!r.failed && O.same(r.value, outs[0]), 'the response is decoded') }
  else { v.assert(r.failed && (end === 2 || message(r.err) === 'remote'), 'a failed call fails') }
  if (end === 0) v.reach('ok')
  if (end === 1) v.reach('error')
  if (end === 2) v.reach('undecodable')
  v.obs('data', streamIn ? sent.items : call.data)
}

// The generated definition describes the service: its id, its methods by name, their kinds and message types.
export async function H_definition(v: any) {
  const files = Object.keys(services)
  const file = v.pick('file', files), committed = file === 'sub/echo' && v.choose('committed', 2) === 1
  const G: any = committed ? Committed : v.gen(file + '_srpc.pb.ts')
  for (const s of services[file]) {
    const d = G[s.name + 'Definition']
    v.assert(d.typeName === s.typeName && G[s.name + 'ServiceName'] === s.typeName, 'id of the service')
    v.assert(Object.keys(d.methods).length === s.methods.length, 'number of methods')
    const impl: any = {}
    for (const m of s.methods) {
      const x = d.methods[m.name]
      v.assert(x.name === m.name && x.kind === m.methodKind, 'name and kind of a method')
      v.assert(x.I.typeName.endsWith('.' + m.input.name) && x.O.typeName.endsWith('.' + m.output.name), 'message types of a method')
      v.assert(x.idempotency === m.idempotency, 'idempotency of a method')
      impl[m.name] = () => {}
    }
    const h = createHandler(d, impl)
    v.assert(h.getServiceID() === s.typeName, 'id of the handler')
    v.assert(h.getMethodIDs().length === s.methods.length && s.methods.every((m: any) => h.getMethodIDs().includes(m.name)), 'methods of the handler')
    if (s.methods.length === 0) { v.assert(!(s.name + 'Client' in G), 'no client without methods'); v.reach('no methods') }
  }
  if (committed) v.reach('committed')
  v.reach('end')
}

// A generated client and a generated handler, connected by a client and a server, call exactly the implementation of
// the method named; requests, responses and failures pass through unchanged.
// sym: split=service:6
export async function H_pair(v: any) {
  const [G, svc] = pick(v)
  const sid = v.choose('custom', 2) === 1 ? 'custom' : undefined
  const m = svc.methods[v.choose('method', svc.methods.length)]
  const I = TYPES[m.input.name], O = TYPES[m.output.name]
  const streamIn = m.methodKind >= 2, streamOut = m.methodKind === 1 || m.methodKind === 3
  const nin = streamIn ? v.choose('nin', 3) : 1, nout = streamOut ? v.choose('nout', 3) : 1
  const fails = v.choose('fails', 2) === 1
  const ins: any[] = [], outs: any[] = []
  for (let i = 0; i < nin; i++) ins.push(I.val(v, 'in'))
  for (let i = 0; i < nout; i++) outs.push(O.val(v, 'out'))
  const invoked: string[] = [], got: any[] = []
  const read = async (x: any) => { if (streamIn) for await (const y of x) got.push(y); else got.push(x) }
  const mux = createMux()
  // every service has an implementation of every method
  const reg = (G: any, s: any, id: any) => {
    const impl: any = {}
    for (const x of s.methods) {
      impl[x.name] = (arg: any) => {
        invoked.push(s.name + '.' + x.name)
        if (streamOut) return (async function* () { await read(arg); for (const o of outs) yield O.make(o); if (fails) throw new Error('impl') })()
        return (async () => { await read(arg); if (fails) throw new Error('impl'); return O.make(outs[0]) })()
      }
    }
    mux.register(createHandler(G[s.name + 'Definition'], impl, id))
  }
  for (const s of services.two) if (s !== svc) reg(v.gen('two_srpc.pb.ts'), s, undefined)
  reg(G, svc, sid)
  const server = new Server(mux.lookupMethod)
  const client = new Client(async () => { const [a, b] = pair(); server.handlePacketStream(b); return a })
  const c = new G[svc.name + 'Client'](client, { service: sid })
  const inq = queue()
  const r: any = streamOut ? collect(c[m.name](streamIn ? inq : I.make(ins[0]))) : settle(c[m.name](streamIn ? inq : I.make(ins[0])))
  for (const x of ins) { inq.push(I.make(x)); if (v.thorough) await v.quiesce() }
  inq.end()
  await v.quiesce()
  v.assert(invoked.length === 1 && invoked[0] === svc.name + '.' + m.name, 'exactly the implementation of the method')
  v.assert(got.length === nin, 'every request arrives')
  got.forEach((x, i) => v.assert(I.same(x, ins[i]), 'requests unchanged'))
  v.assert(r.done, 'the call ends')
  if (streamOut) {
    // responses not yet sent when the implementation fails may be dropped
    v.assert(fails ? r.items.length <= nout : r.items.length === nout, 'every response arrives')
    r.items.forEach((x: any, i: number) => v.assert(O.same(x, outs[i]), 'responses unchanged'))
    v.assert(fails ? message(r.err) === 'impl' : !r.err, 'the end of the call')
  } else v.assert(fails ? r.failed && message(r.err) === 'impl' : !r.failed && O.same(r.value, outs[0]), 'the outcome of the call')
  if (fails) v.reach('fails')
  else v.reach('ok')
}
