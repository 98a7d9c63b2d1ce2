// bound: server calls against every sequence of 3 (thorough 4) client packets (start of a known, unknown or unnamed method, message, empty message, completion, error, cancel, empty packet), with handlers that answer each message, only at the end, or not at all; implementations of every method kind with up to 3 responses and every way of failing; one symbolic byte per message.
import { Server } from '@repo/srpc/server.js'
import { ERR_RPC_ABORT } from '@repo/srpc/errors.js'
import { createHandler } from '@repo/srpc/handler.js'
import { createMux } from '@repo/srpc/mux.js'
import { EchoMsg } from '@repo/echo/echo.pb.js'
import { MethodKind, createMessageType, ScalarType } from '@aptre/protobuf-es-lite'
import { collect, settle, eqBytes, queue, wire, wireStart, wireData, wireCancel } from 'hx'

const EMPTY = new Uint8Array(0)
const message = (e: any) => (e instanceof Error ? e.message : String(e))

// Every sequence of packets a client may send has the effect the protocol gives it.
export async function H_sequence(v: any) {
  const mode = v.choose('mode', 3)
  const calls: any[] = []
  const lookups: any[] = []
  const server = new Server(async (s: string, m: string) => {
    lookups.push([s, m])
    if (s !== 'svc' || m !== 'mth') return null
    return async (src: any, sink: any) => {
      const c: any = { got: [], end: null }
      calls.push(c)
      const out = queue()
      const written = sink(out)
      try {
        for await (const x of src) { c.got.push(x); if (mode === 0) out.push(x) }
        c.end = 'done'
        if (mode === 1) for (const x of c.got) out.push(x)
        out.end()
        await written
      } catch (e) { c.end = message(e); throw e }
    }
  })
  const w = wire()
  server.handlePacketStream(w.stream)
  // what the packets mean
  let started = false, over: any = null, reqEnd: any = null
  const want: any[] = []
  const n = v.thorough ? 4 : 3
  const spaced = v.choose('spaced', 2) === 1
  const answered = () => over === null && reqEnd === 'done' // the handler has returned
  for (let i = 0; i < n; i++) {
    const k = v.choose('pkt', 11)
    if (k === 10) break
    const b = v.bytes('b', 1)
    let p: any, bad: any = null
    const msg = (x: any) => { if (!started) bad = 'data'; else if (over === null && reqEnd === null) want.push(x) }
    switch (k) {
      case 0: p = wireStart('svc', 'mth', EMPTY, false); if (started) bad = 'start'; else started = true; break
      case 1: p = wireStart('svc', 'mth', b, false); if (started) bad = 'start'; else { started = true; if (over === null) want.push(b) } break
      case 2: p = wireStart('svc', 'other', b, false); bad = 'unknown'; break
      case 3: p = wireStart('', 'mth', b, false); bad = 'empty'; break
      case 4: p = wireData(b, false, false, ''); msg(b); break
      case 5: p = wireData(EMPTY, true, false, ''); msg(EMPTY); break
      case 6: p = wireData(EMPTY, false, true, ''); if (!started) bad = 'data'; else if (over === null) reqEnd ??= 'done'; break
      case 7: p = wireData(EMPTY, false, false, 'client failed'); if (!started) bad = 'data'; else if (over === null) reqEnd ??= 'client failed'; break
      case 8: p = wireCancel(true); if (over === null && !answered() && reqEnd === null) { over = ERR_RPC_ABORT } else over ??= 'after'; break
      case 9: p = new Uint8Array(0); break
    }
    if (bad && over === null) over = reqEnd === null ? 'bad' : 'after'
    if (bad && !started) started = false
    w.in.push(p)
    if (spaced) await v.quiesce()
    if (over !== null) break
  }
  await v.quiesce()
  v.assert(calls.length === (started && lookups.length > 0 && lookups[0][1] === 'mth' && lookups[0][0] === 'svc' ? 1 : 0), 'the method is invoked once, for its call start only')
  const data = w.sent.filter((p: any) => p.kind === 'data' && (p.data.length > 0 || p.zero))
  const fails = w.sent.filter((p: any) => p.kind === 'data' && p.error !== '')
  const completes = w.sent.filter((p: any) => p.kind === 'data' && p.complete && p.error === '')
  v.assert(fails.length <= 1 && completes.length <= 1, 'a call is ended once')
  for (const p of w.sent) v.assert(p.kind !== 'start', 'a server starts no call')
  const firstEnd = w.sent.findIndex((p: any) => p.kind === 'cancel' || (p.kind === 'data' && (p.complete || p.error !== '')))
  if (firstEnd >= 0) for (const p of w.sent.slice(firstEnd + 1)) v.assert(!(p.kind === 'data' && (p.data.length > 0 || p.zero)), 'a message after the end of the call')
  if (calls.length === 1) {
    const c = calls[0]
    v.assert(c.got.length <= want.length, 'no request message is invented or repeated')
    const hard = over !== null || (reqEnd !== null && reqEnd !== 'done')
    if (spaced || !hard) v.assert(c.got.length === want.length, 'every request message is delivered')
    c.got.forEach((x: any, i: number) => v.assert(eqBytes(x, want[i]), 'request messages in order'))
    if (over === null && reqEnd === null) { v.assert(c.end === null, 'the request is open'); v.assert(firstEnd < 0, 'the call is open'); v.reach('open') }
    if (over === null && reqEnd === 'done') { v.assert(c.end === 'done', 'completion ends the request'); v.assert(completes.length === 1 && fails.length === 0, 'a method that returns completes the call'); v.assert(w.ended, 'the stream of a finished call ends'); v.reach('done') }
    if (over === null && reqEnd === 'client failed') { v.assert(c.end === 'client failed', 'the error of the client is the error of the request'); v.assert(fails.length === 1 && fails[0].error === 'client failed', 'a failing method fails the call'); v.reach('client failed') }
    if (over === ERR_RPC_ABORT) { v.assert(c.end === ERR_RPC_ABORT, 'a cancelled call fails its request'); v.assert(w.ended, 'the stream of a cancelled call ends'); v.reach('cancel') }
    if (over === 'bad') { v.assert(c.end !== null && c.end !== 'done', 'a broken call fails its request'); v.assert(fails.length === 1 && w.ended, 'a broken call is ended with an error'); v.reach('bad') }
    const answers = mode === 0 ? c.got : mode === 1 && c.end === 'done' ? c.got : []
    v.assert(data.length <= answers.length, 'no response is invented or repeated')
    if (over === null && reqEnd !== 'client failed') v.assert(data.length === answers.length, 'every response is sent')
    data.forEach((p: any, i: number) => { v.assert(eqBytes(p.data, answers[i]), 'responses in order'); v.assert(p.zero === (answers[i].length === 0), 'an empty response is marked as such') })
  } else if (over === 'bad') {
    v.assert(data.length === 0 && fails.length === 1 && fails[0].complete && w.ended, 'a call that cannot be served is ended with an error')
    v.reach('refused')
  }
  v.obs('sent', w.raw)
  v.obs('calls', calls)
}

// The failure of the transport, or its end, ends the call for the handler.
export async function H_transport(v: any) {
  let c: any = null
  const server = new Server(async () => async (src: any, sink: any) => {
    c = { got: [], end: null }
    try { for await (const x of src) c.got.push(x); c.end = 'done' } catch (e) { c.end = message(e); throw e }
    await sink((async function* () {})())
  })
  const w = wire()
  server.handlePacketStream(w.stream)
  const b = v.bytes('b', 1)
  w.in.push(wireStart('svc', 'mth', b, false))
  await v.quiesce()
  v.assert(c !== null && c.end === null, 'the call runs')
  const what = v.choose('what', 3)
  if (what === 0) w.in.end(new Error('lost'))
  if (what === 1) w.in.push(new Uint8Array([10, 200]))
  if (what === 2) w.in.end()
  await v.quiesce()
  v.assert(c.end !== null, 'a lost stream ends the call')
  if (what === 0) { v.assert(c.end === 'lost', 'the failure of the transport is the failure of the request'); v.reach('lost') }
  if (what === 1) { v.assert(c.end !== 'done', 'an undecodable packet fails the call'); v.reach('undecodable') }
  if (what === 2) v.reach('ended')
  v.assert(eqBytes(c.got[0], b), 'messages before')
  v.assert(w.ended, 'the stream ends')
}

const Num: any = createMessageType({ typeName: 'Num', fields: [{ no: 1, name: 'data', kind: 'scalar', T: ScalarType.BYTES }] })
const num = (b: any) => Num.toBinary({ data: b })
const KINDS = [MethodKind.Unary, MethodKind.ServerStreaming, MethodKind.ClientStreaming, MethodKind.BiDiStreaming]

// Implementations of every kind: requests are decoded and given to the method, its responses are encoded and sent in
// order, and whatever way it fails the caller is told.
export async function H_methods(v: any) {
  const kind = v.choose('kind', 4), how = v.choose('how', 7)
  const streamOut = kind === 1 || kind === 3
  const nresp = streamOut ? v.choose('nresp', 4) : 1
  const pause = v.choose('pause', 2) === 1
  const resp: any[] = []
  for (let i = 0; i < nresp; i++) resp.push(v.bytes('r', 1))
  const got: any[] = []
  let gate: any = null
  const wait = () => new Promise<void>((r) => { gate = r })
  let self: any = null
  const read = async (req: any) => { if (kind >= 2) for await (const x of req) got.push(x.data); else got.push(req.data) }
  const impl: any = {
    tag: 7,
    M(req: any) {
      self = this.tag
      if (how === 1) throw new Error('sync')
      if (how === 2) return undefined
      if (how === 6) throw 'plain'
      if (streamOut) {
        return (async function* () {
          await read(req)
          for (const r of resp) { if (pause) await wait(); yield { data: r } }
          if (how === 3) { if (pause) await wait(); throw new Error('async') }
        })()
      }
      if (how === 4) return { data: resp[0] }
      return (async () => {
        await read(req)
        if (pause) await wait()
        if (how === 3) throw new Error('async')
        if (how === 5) return undefined
        return { data: resp[0] }
      })()
    },
  }
  if (streamOut && (how === 4 || how === 5)) return
  const mux = createMux()
  mux.register(createHandler({ typeName: 'svc', methods: { M: { name: 'M', I: Num, O: Num, kind: KINDS[kind] } } } as any, impl))
  const w = wire()
  // the method may be invoked through another lookup
  const wrap = v.choose('wrap', 2) === 1
  const lookup = mux.lookupMethod
  new Server(!wrap ? lookup : async (s: string, m: string) => {
    const fn = await lookup(s, m)
    return fn && (async (src: any, sink: any) => { await null; try { return await fn(src, sink) } finally { await null } })
  }).handlePacketStream(w.stream)
  const reqs: any[] = [v.bytes('q', v.choose('qlen', 2))]
  w.in.push(wireStart('svc', 'M', num(reqs[0]), num(reqs[0]).length === 0))
  if (kind >= 2) {
    if (v.choose('more', 2) === 1) { reqs.push(v.bytes('q', 1)); w.in.push(wireData(num(reqs[1]), false, false, '')) }
    w.in.push(wireData(EMPTY, false, true, ''))
  }
  await v.quiesce()
  for (let i = 0; i < 5 && gate; i++) { const g = gate; gate = null; g(); await v.quiesce() }
  const data = w.sent.filter((p: any) => p.kind === 'data' && (p.data.length > 0 || p.zero))
  const fails = w.sent.filter((p: any) => p.kind === 'data' && p.error !== '')
  const completes = w.sent.filter((p: any) => p.kind === 'data' && p.complete && p.error === '')
  v.assert(self === 7, 'the method runs with its object')
  v.assert(w.ended, 'the stream of the call ends')
  if (how === 0) {
    v.assert(got.length === reqs.length, 'requests given to the method')
    got.forEach((x, i) => v.assert(eqBytes(x ?? EMPTY, reqs[i]), 'content of the requests'))
    v.assert(data.length === resp.length, 'every response is sent')
    data.forEach((p: any, i: number) => v.assert(eqBytes(p.data, num(resp[i])), 'responses in order'))
    v.assert(fails.length === 0 && completes.length === 1, 'the call completes')
    v.reach('ok')
  } else if (how === 1 || how === 3) {
    v.assert(fails.length === 1 && fails[0].error === (how === 1 ? 'sync' : 'async'), 'the error of the method is sent')
    v.assert(data.length <= resp.length, 'responses before the failure')
    if (how === 3 && streamOut && pause) v.assert(data.length === resp.length, 'responses before the failure are sent')
    v.assert(w.sent.find((p: any) => p.kind === 'cancel' || p.complete || p.error !== '') === fails[0], 'a failed call is not reported as completed')
    v.reach('error')
  } else {
    v.assert(fails.length === 1 && data.length === 0, 'a method that gives no response fails the call')
    v.reach('no response')
  }
  v.obs('sent', w.raw)
}

// A unary call without request message fails, it does not reach the method.
export async function H_no_request(v: any) {
  const kind = v.choose('kind', 2)
  let called = 0
  const mux = createMux()
  mux.register(createHandler({ typeName: 'svc', methods: { M: { name: 'M', I: Num, O: Num, kind: KINDS[kind] } } } as any, { M() { called++; return kind === 0 ? Promise.resolve({}) : (async function* () {})() } }))
  const w = wire()
  new Server(mux.lookupMethod).handlePacketStream(w.stream)
  w.in.push(wireStart('svc', 'M', EMPTY, false))
  await v.quiesce()
  v.assert(called === 0, 'the method waits for its request')
  const what = v.choose('what', 4)
  if (what === 0) w.in.push(wireData(EMPTY, false, true, ''))
  if (what === 1) w.in.push(wireCancel(true))
  if (what === 2) w.in.push(wireData(new Uint8Array([10, 9]), false, false, ''))
  if (what === 3) w.in.push(wireData(EMPTY, false, false, 'gone'))
  await v.quiesce()
  v.assert(called === 0, 'the method is not called without a request')
  v.assert(w.ended, 'the call ends')
  v.assert(w.sent.some((p: any) => p.error !== ''), 'the caller is told')
  v.reach('end')
}
