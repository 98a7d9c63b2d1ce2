// bound: every first packet, outcome of the component lookup and sequence of 3 (thorough 4) packets in each direction with one symbolic byte per message; component ids of a set including the empty one; ends and failures of either side at every point. one stream of 40 (thorough 80) messages and messages of up to 70000 bytes.
import { openRpcStream, handleRpcStream, buildRpcStreamOpenStream, RpcStream } from '@repo/rpcstream/rpcstream.js'
import { pushable } from 'it-pushable'
import { collect, settle, eqBytes, queue } from 'hx'

const message = (e: any) => (e instanceof Error ? e.message : String(e))
const IDS = ['', 'comp', 'a/b', 'constructor']
const data = (b: any) => ({ body: { case: 'data', value: b } })
const ack = (e: any) => ({ body: { case: 'ack', value: { error: e } } })
const init = (c: any) => ({ body: { case: 'init', value: { componentId: c } } })

// Opening a stream sends the component id first; with an acknowledgement asked for, the opening succeeds exactly when
// the peer acknowledges without error, and fails with the error it gives.
export async function H_open(v: any) {
  const id = v.pick('id', IDS)
  const waitAck = v.choose('wait', 2) === 1
  let req: any = null
  const rx = queue()
  const caller = (r: any) => { req = collect(r); return rx }
  const o = settle(waitAck ? openRpcStream(id, caller as any, true) : v.choose('build', 2) === 1 ? buildRpcStreamOpenStream(id, caller as any)() : openRpcStream(id, caller as any))
  await v.quiesce()
  v.assert(req !== null && req.items.length === 1, 'the component id is sent at once')
  v.assert(req.items[0].body.case === 'init' && req.items[0].body.value.componentId === id, 'the first packet names the component')
  v.assert(o.done === !waitAck, 'waits for the acknowledgement exactly when asked to')
  const b = v.bytes('b', 1)
  const what = v.choose('first', 8)
  if (what === 0) rx.push(ack(''))
  if (what === 1) rx.push(ack('refused'))
  if (what === 2) rx.push(data(b))
  if (what === 3) rx.push(init('x'))
  if (what === 4) rx.push({})
  if (what === 5) rx.end()
  if (what === 6) rx.end(new Error('lost'))
  if (what === 7) rx.push(ack(undefined))
  await v.quiesce()
  v.assert(o.done, 'the opening ends')
  const ok = what === 0 || what === 7
  if (waitAck) {
    v.assert(!o.failed === ok, 'the opening succeeds exactly when acknowledged')
    if (what === 1) { v.assert(message(o.err).includes('refused'), 'the error of the peer'); v.reach('refused') }
    if (what === 6) v.assert(message(o.err) === 'lost', 'the failure of the call')
    if (!ok) return
    v.reach('acked')
  } else v.assert(!o.failed, 'without acknowledgement the opening succeeds')
  const got = collect(o.value.source)
  await v.quiesce()
  if (what === 1) { v.assert(got.done && message(got.err) === 'refused', 'the error of the acknowledgement fails the stream'); v.reach('late refusal'); return }
  if (what === 5) { v.assert(got.done && !got.err, 'end of the call'); return }
  if (what === 6) { v.assert(got.done && message(got.err) === 'lost', 'failure of the call'); return }
  v.assert(!got.done, 'the stream is open')
  rx.push(data(b))
  await v.quiesce()
  const n = what === 2 ? 2 : 1
  v.assert(got.items.length === n && eqBytes(got.items[n - 1], b), 'messages of the stream')
}

// An opened stream carries messages both ways in order and unchanged, empty ones included, until either side ends.
export async function H_stream(v: any) {
  const tx = pushable({ objectMode: true }), rx = queue()
  const s = new RpcStream(tx as any, rx as any)
  const sent = collect(tx), got = collect(s.source)
  const src = queue()
  const sink = settle(s.sink(src))
  const outs: any[] = [], ins: any[] = []
  let refused = false
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n; i++) {
    const k = v.choose('op', 6)
    const b = v.bytes('b', k < 2 ? v.choose('len', 2) : 0)
    if (k === 0) { outs.push(b); src.push(b) }
    if (k === 1) { if (!refused) ins.push(b); rx.push(data(b)) }
    if (k === 2) rx.push(ack(''))
    if (k === 3) rx.push({})
    if (k === 4) { rx.push(ack('bad')); refused = true }
    if (k === 5) break
    if (v.choose('pause', 2) === 1) await v.quiesce()
  }
  await v.quiesce()
  const check = () => {
    v.assert(sent.items.length === outs.length, 'every message is sent once')
    outs.forEach((b, i) => { v.assert(sent.items[i].body.case === 'data', 'messages are data packets'); v.assert(eqBytes(sent.items[i].body.value, b), 'messages sent in order') })
    v.assert(got.items.length === ins.length, 'every message is received once')
    ins.forEach((b, i) => v.assert(eqBytes(got.items[i], b), 'messages received in order'))
  }
  check()
  v.assert(!sink.done && !sent.done, 'the sending side is open')
  if (refused) { v.assert(got.done && message(got.err) === 'bad', 'an error acknowledgement fails the stream'); v.reach('refused') }
  else v.assert(!got.done, 'the receiving side is open')
  const end = v.choose('end', 4)
  if (end === 0) src.end()
  if (end === 1) src.end(new Error('source failed'))
  if (end === 2) rx.end()
  if (end === 3) rx.end(new Error('lost'))
  await v.quiesce()
  check()
  if (end === 0) v.assert(sink.done && !sink.failed && sent.done && !sent.err, 'end of the sender is passed on')
  if (end === 1) v.assert(sink.done && sent.done && message(sent.err) === 'source failed', 'failure of the sender is passed on')
  if (end === 2 && !refused) v.assert(got.done && !got.err, 'end of the peer')
  if (end === 3 && !refused) v.assert(got.done && message(got.err) === 'lost', 'failure of the call')
  if (end < 2 && !refused) v.assert(!got.done, 'the receiving side stays open')
  if (end >= 2) v.assert(!sent.done, 'the sending side stays open')
  v.obs('got', got.items)
  if (ins.length > 1 && outs.length > 0) v.reach('both')
}

// Accepting a stream reads the component id, looks the component up once and acknowledges the outcome before anything
// else; the handler then serves the stream until it returns or fails.
export async function H_handle(v: any) {
  const id = v.pick('id', IDS)
  const rx = queue()
  const asked: any[] = []
  const outcome = v.choose('outcome', 7)
  let strm: any = null, finish: any = null
  const handler = (s: any) => { strm = s; return new Promise<void>((res, rej) => { finish = (e: any) => (e ? rej(e) : res()) }) }
  const getter = async (c: any) => {
    asked.push(c)
    if (outcome === 0) return null
    if (outcome === 1) throw new Error('no such component')
    if (outcome === 2) throw undefined
    if (outcome === 5) throw new Error()
    if (outcome === 6) throw 'a text'
    return handler
  }
  const out = collect(handleRpcStream(rx as any, getter as any))
  await v.quiesce()
  v.assert(out.items.length === 0 && asked.length === 0, 'waits for the component id')
  const first = v.choose('first', 6)
  const b = v.bytes('b', 1)
  if (first === 0) rx.push(init(id))
  if (first === 1) rx.push(init(undefined))
  if (first === 2) rx.push(data(b))
  if (first === 3) rx.push({})
  if (first === 4) rx.end()
  if (first === 5) rx.end(new Error('lost'))
  await v.quiesce()
  if (first >= 2) {
    v.assert(out.done && !!out.err, 'a stream without component id fails')
    v.assert(asked.length === 0 && out.items.length === 0 && strm === null, 'nothing is looked up or served')
    v.reach('no init')
    return
  }
  v.assert(asked.length === 1 && asked[0] === (first === 0 ? id : ''), 'the component named is looked up once')
  v.assert(out.items.length === 1 && out.items[0].body.case === 'ack', 'one acknowledgement comes first')
  const e = out.items[0].body.value.error ?? ''
  if (outcome < 3 || outcome > 4) {
    v.assert(e !== '' && out.done && !!out.err && strm === null, 'a component that is not found refuses the stream')
    if (outcome === 0) v.assert(e === 'not implemented', 'no component')
    if (outcome === 1) v.assert(e === 'no such component' && message(out.err) === e, 'the error of the lookup is sent')
    v.reach('refused')
    return
  }
  v.assert(e === '' && !out.done && strm !== null, 'the stream is accepted and served')
  const got = collect(strm.source)
  const src = queue()
  let sink: any = null
  const c = [v.bytes('c', 1), v.bytes('c', v.choose('len', 2))]
  rx.push(data(b))
  if (outcome === 4) { sink = settle(strm.sink(src)); src.push(c[0]) }
  await v.quiesce()
  if (outcome === 4) { src.push(c[1]); await v.quiesce() }
  v.assert(got.items.length === 1 && eqBytes(got.items[0], b), 'messages to the handler')
  const sent = out.items.slice(1)
  v.assert(sent.length === (outcome === 4 ? 2 : 0), 'messages of the handler')
  sent.forEach((p: any, i: number) => { v.assert(p.body.case === 'data' && eqBytes(p.body.value, c[i]), 'messages of the handler in order') })
  const end = v.choose('end', 4)
  if (end === 0) finish(null)
  if (end === 1) finish(new Error('handler failed'))
  if (end === 2) rx.end()
  if (end === 3) rx.end(new Error('lost'))
  await v.quiesce()
  if (end === 0) { v.assert(out.done && !out.err, 'the stream ends with its handler'); v.reach('ended') }
  if (end === 1) { v.assert(out.done && message(out.err) === 'handler failed', 'the failure of the handler fails the stream'); v.reach('failed') }
  if (end === 2) v.assert(got.done && !got.err && !out.done, 'the end of the peer is the end of the handler input')
  if (end === 3) v.assert(got.done && message(got.err) === 'lost', 'the failure of the call is the failure of the handler input')
  v.assert(out.items.length === 1 + sent.length, 'nothing else is sent')
}

// A stream carries many messages, and large ones, both ways in order and unchanged.
// sym: steps=8000000
export async function H_long(v: any) {
  const tx = pushable({ objectMode: true }), rx = queue()
  const s = new RpcStream(tx as any, rx as any)
  const sent = collect(tx), got = collect(s.source)
  const src = queue()
  const sink = settle(s.sink(src))
  const large = v.choose('large', 2) === 1, paced = v.choose('paced', 2) === 1
  const n = large ? 3 : v.thorough ? 80 : 40
  const size = large ? v.pick('size', [127, 256, 1000, 4096, 17000, 70000]) : 1
  const outs: any[] = [], ins: any[] = []
  for (let i = 0; i < n; i++) {
    const b = new Uint8Array(i === 1 ? size : 2), c = new Uint8Array(i === 1 ? size : 3)
    for (const x of [b, c]) { x[0] = v.byte('x'); x[x.length - 1] = v.byte('y') }
    outs.push(b); ins.push(c)
    src.push(b); rx.push(data(c))
    if (paced) await v.quiesce()
  }
  await v.quiesce()
  src.end()
  rx.end()
  await v.quiesce()
  const same = (x: any, y: any, m: string) => { v.assert(x.length === y.length, m); for (const i of [0, 1, x.length - 1]) v.assert(x[i] === y[i], m) }
  v.assert(sent.items.length === n && got.items.length === n, 'every message once')
  outs.forEach((b, i) => same(sent.items[i].body.value, b, 'messages sent in order'))
  ins.forEach((b, i) => same(got.items[i], b, 'messages received in order'))
  v.assert(sink.done && !sink.failed && sent.done && !sent.err && got.done && !got.err, 'both ends are clean')
  v.reach(large ? 'large' : 'many')
}
