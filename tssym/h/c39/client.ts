// bound: client calls of every kind against every sequence of 3 (thorough 4) packets from the server (message, empty message, completion, message with completion, error, message with error, cancel, call start, empty packet) with one symbolic byte per message, delivered one by one or at once, followed by the end or failure of the stream; up to 3 request messages; an abort at every point.
import { Client } from '@repo/srpc/client.js'
import { ERR_RPC_ABORT, isAbortError } from '@repo/srpc/errors.js'
import { collect, settle, eqBytes, queue, wire, wireStart, wireData, wireCancel } from 'hx'

const EMPTY = new Uint8Array(0)
// responses builds a sequence of server packets and what it means to the reader.
function responses(v: any, n: number): any {
  const out: any = { packets: [], msgs: [], end: null }
  const msg = (b: any) => { if (!out.end) out.msgs.push(b) }
  const end = (e: any) => { out.end ??= e }
  for (let i = 0; i < n; i++) {
    const k = v.choose('resp', 10)
    if (k === 9) break
    const b = v.bytes('b', 1)
    switch (k) {
      case 0: out.packets.push(wireData(b, false, false, '')); msg(b); break
      case 1: out.packets.push(wireData(EMPTY, true, false, '')); msg(EMPTY); break
      case 2: out.packets.push(wireData(EMPTY, false, true, '')); end('done'); break
      case 3: out.packets.push(wireData(b, false, true, '')); msg(b); end('done'); break
      case 4: out.packets.push(wireData(EMPTY, false, true, 'remote failed')); end('remote failed'); break
      case 5: out.packets.push(wireData(b, false, false, 'remote failed')); msg(b); end('remote failed'); break
      case 6: out.packets.push(wireCancel(true)); end(ERR_RPC_ABORT); break
      case 7: out.packets.push(wireStart('s', 'm', b, false)); end('unexpected'); break
      case 8: out.packets.push(new Uint8Array(0)); break
    }
  }
  return out
}
async function deliver(v: any, w: any, packets: any[], spaced: boolean) {
  for (const p of packets) { w.in.push(p); if (spaced) await v.quiesce() }
  await v.quiesce()
}
const message = (e: any) => (e instanceof Error ? e.message : String(e))

// checkStart: the first packet of every call is its start, with exactly the request given.
function checkStart(v: any, w: any, data: any, unary: boolean) {
  v.assert(w.sent.length > 0 && w.sent[0].kind === 'start', 'the first packet is the call start')
  v.assert(w.sent[0].service === 'svc' && w.sent[0].method === 'mth', 'service and method of the call start')
  v.assert(eqBytes(w.sent[0].data, data), 'data of the call start')
  v.assert(w.sent[0].zero === (unary && data.length === 0), 'an empty request is marked as such')
  for (let i = 1; i < w.sent.length; i++) v.assert(w.sent[i].kind !== 'start', 'one call start')
}
// checkEnd: nothing follows the packet that ends the call for the peer, except its cancellation.
function checkSilence(v: any, w: any) {
  let over = false
  for (const p of w.sent) {
    if (over) v.assert(p.kind !== 'start' && !(p.kind === 'data' && (p.data.length > 0 || p.zero)), 'a message after the end of the call')
    if (p.kind === 'cancel' || (p.kind === 'data' && (p.complete || p.error !== ''))) over = true
  }
}

// A unary call sends its request and gives the first message, or the error of the call.
export async function H_unary(v: any) {
  const w = wire()
  const c = new Client(async () => w.stream)
  const req = v.bytes('req', v.choose('len', 3))
  const r = settle(c.request('svc', 'mth', req))
  await v.quiesce()
  checkStart(v, w, req, true)
  v.assert(!r.done, 'no result before the response')
  const s = responses(v, v.thorough ? 4 : 3)
  await deliver(v, w, s.packets, v.choose('spaced', 2) === 1)
  if (s.msgs.length === 0 && !s.end) {
    v.assert(!r.done, 'no result before the response')
    w.in.end(v.choose('fail', 2) === 1 ? new Error('lost') : undefined)
    await v.quiesce()
    v.assert(r.done && r.failed, 'a stream that ends without response fails the call')
    v.reach('lost')
  } else if (s.msgs.length > 0) {
    // a message immediately followed by an error may give either
    v.assert(r.done, 'the response ends the call')
    if (r.failed) v.assert(s.end && s.end !== 'done', 'a response was turned into an error')
    else { v.assert(eqBytes(r.value, s.msgs[0]), 'the response is the first message'); v.reach('value') }
  } else {
    v.assert(r.done && r.failed, 'an error or end without message fails the call')
    if (s.end === 'remote failed' || s.end === ERR_RPC_ABORT) v.assert(message(r.err) === s.end, 'the error of the call is the one sent')
    v.reach('error')
  }
  if (r.done && !r.failed) v.assert(w.ended, 'a finished call ends its stream')
  checkSilence(v, w)
  v.obs('sent', w.raw)
}
// A single message delivered with the reader waiting is the response also when an error follows.
export async function H_unary_first(v: any) {
  const w = wire()
  const c = new Client(async () => w.stream)
  const r = settle(c.request('svc', 'mth', EMPTY))
  await v.quiesce()
  const b = v.bytes('b', v.choose('len', 2))
  w.in.push(wireData(b, b.length === 0, v.bool('complete'), ''))
  await v.quiesce()
  v.assert(r.done && !r.failed && eqBytes(r.value, b), 'the message is the response')
  v.assert(w.ended, 'the stream of a finished call ends')
  v.reach('end')
}

// A server stream gives every message in order and then ends, or fails with the error sent.
export async function H_server_stream(v: any) {
  const w = wire()
  const c = new Client(async () => w.stream)
  const req = v.bytes('req', v.choose('len', 2))
  const r = collect(c.serverStreamingRequest('svc', 'mth', req))
  await v.quiesce()
  checkStart(v, w, req, true)
  await outcome(v, w, r)
}
async function outcome(v: any, w: any, r: any) {
  const s = responses(v, v.thorough ? 4 : 3)
  const spaced = v.choose('spaced', 2) === 1
  await deliver(v, w, s.packets, spaced)
  const failed = s.end && s.end !== 'done'
  v.assert(r.items.length <= s.msgs.length, 'no message is invented or repeated')
  if (spaced || !failed) v.assert(r.items.length === s.msgs.length, 'every message is delivered')
  for (let i = 0; i < r.items.length; i++) v.assert(eqBytes(r.items[i], s.msgs[i]), 'messages in order')
  if (!s.end) {
    v.assert(!r.done, 'the stream is open until it is ended')
    v.reach('open')
    w.in.end(new Error('lost'))
    await v.quiesce()
    v.assert(r.done && !!r.err, 'a failing transport fails the stream')
  } else if (s.end === 'done') {
    v.assert(r.done && !r.err, 'completion ends the stream')
    v.reach('done')
  } else {
    v.assert(r.done && !!r.err, 'an error fails the stream')
    if (s.end !== 'unexpected') v.assert(message(r.err) === s.end, 'the error of the stream is the one sent')
    v.reach('error')
  }
  checkSilence(v, w)
  v.obs('got', r.items)
}
// A two-way stream reads as a server stream does, whatever the request side does meanwhile.
export async function H_bidi(v: any) {
  const w = wire()
  const c = new Client(async () => w.stream)
  const reqs = queue()
  const r = collect(c.bidirectionalStreamingRequest('svc', 'mth', reqs))
  await v.quiesce()
  checkStart(v, w, EMPTY, false)
  if (v.choose('half', 2) === 1) { reqs.end(); await v.quiesce(); v.assert(w.sent.length === 2 && w.sent[1].complete, 'half-close is sent') }
  await outcome(v, w, r)
}

// Request messages are sent in order, empty ones included, followed by one completion.
export async function H_requests(v: any) {
  const w = wire()
  const c = new Client(async () => w.stream)
  const bidi = v.choose('bidi', 2) === 1
  const reqs = queue()
  const r: any = bidi ? collect(c.bidirectionalStreamingRequest('svc', 'mth', reqs)) : settle(c.clientStreamingRequest('svc', 'mth', reqs))
  const early = v.choose('early', 2) === 1
  if (!early) await v.quiesce()
  const n = v.choose('n', v.thorough ? 5 : 4)
  const msgs: any[] = []
  for (let i = 0; i < n; i++) {
    const b = v.bytes('m', v.choose('len', 3))
    msgs.push(b)
    reqs.push(b)
    if (v.choose('pause', 2) === 1) await v.quiesce()
  }
  const how = v.choose('how', 3)
  if (how === 1) reqs.end()
  if (how === 2) reqs.end(new Error('source failed'))
  await v.quiesce()
  checkStart(v, w, EMPTY, false)
  const data = w.sent.slice(1).filter((p: any) => p.kind === 'data' && !p.complete)
  v.assert(data.length === n, 'every request message is sent once')
  data.forEach((p: any, i: number) => {
    v.assert(eqBytes(p.data, msgs[i]), 'request messages in order')
    v.assert(p.zero === (msgs[i].length === 0), 'an empty message is marked as such')
    v.assert(p.error === '', 'no error')
  })
  const last = w.sent[w.sent.length - 1]
  const ends = w.sent.filter((p: any) => p.kind === 'data' && p.complete)
  if (how === 0) { v.assert(ends.length === 0 && !w.ended, 'no completion before the source ends'); v.reach('open') }
  if (how === 1) { v.assert(ends.length === 1 && last === ends[0] && last.error === '' && last.data.length === 0, 'one completion after the last message'); v.assert(!r.done, 'the call waits for the response'); v.reach('complete') }
  if (how === 2) { v.assert(ends.length === 1 && ends[0].error === 'source failed', 'a failing source is reported to the server'); v.assert(r.done && message(r.err) === 'source failed', 'a failing source fails the call'); v.reach('failed') }
  if (how < 2 && !bidi) {
    const b = v.bytes('resp', 1)
    w.in.push(wireData(b, false, true, ''))
    await v.quiesce()
    v.assert(r.done && !r.failed && eqBytes(r.value, b), 'the response of a client stream')
    v.assert(w.ended, 'a finished call ends its stream')
  }
  v.obs('sent', w.raw)
}

// An abort, whenever it comes, fails the call with the abort error and cancels it with the server.
export async function H_abort(v: any) {
  const w = wire()
  const ac = new AbortController()
  const at = v.choose('at', 6)
  if (at === 0) ac.abort()
  let opened = 0
  let open: any
  const gate = new Promise((r) => { open = r })
  const c = new Client(async () => { opened++; await gate; return w.stream })
  const kind = v.choose('kind', 4)
  const reqs = queue()
  const r = start(c, kind, reqs, ac.signal)
  await v.quiesce()
  if (at === 1) { ac.abort(); await v.quiesce() }
  open()
  if (at === 2) ac.abort()
  await v.quiesce()
  let msgs = 0
  if (at > 2) {
    v.assert(!r.done, 'the call is running')
    if (at === 4) { reqs.push(v.bytes('m', 1)); await v.quiesce() }
    if (at === 5 && (kind === 1 || kind === 3)) { w.in.push(wireData(v.bytes('b', 1), false, false, '')); await v.quiesce(); msgs = 1 }
    ac.abort()
    await v.quiesce()
  }
  v.assert(r.done, 'an aborted call ends')
  v.assert(!!r.err && isAbortError(r.err), 'an aborted call fails with the abort error')
  if (kind === 1 || kind === 3) v.assert(r.items.length === msgs, 'messages before the abort')
  if (at === 0) v.assert(opened === 0 && w.sent.length === 0, 'a call aborted from the start is not opened')
  else {
    v.assert(w.ended, 'the stream of an aborted call ends')
    if (w.sent.length > 0 && w.sent[0].kind === 'start') {
      v.assert(w.sent.some((p: any) => p.kind === 'cancel' || p.error !== ''), 'the server is told')
      v.reach('told')
    }
  }
  checkSilence(v, w)
  // what arrives later changes nothing
  w.in.push(wireData(v.bytes('late', 1), false, true, ''))
  w.in.end()
  await v.quiesce()
  v.assert(!!r.err && isAbortError(r.err), 'the outcome stays')
  v.reach('end')
}
function start(c: any, kind: number, reqs: any, signal?: any): any {
  if (kind === 0) return settle(c.request('svc', 'mth', EMPTY, signal))
  if (kind === 1) return collect(c.serverStreamingRequest('svc', 'mth', EMPTY, signal))
  if (kind === 2) return settle(c.clientStreamingRequest('svc', 'mth', reqs, signal))
  return collect(c.bidirectionalStreamingRequest('svc', 'mth', reqs, signal))
}

// A stream that cannot be opened, fails on writing or ends fails the call, and nothing is left unhandled.
export async function H_open(v: any) {
  const w = wire()
  const what = v.choose('what', 4)
  const kind = v.choose('kind', 4)
  const reqs = queue()
  const c = new Client(what === 3 ? undefined : async () => { if (what === 0) throw new Error('cannot open'); return w.stream })
  if (what === 1) w.refuse = v.choose('refuse', 2)
  const r = start(c, kind, reqs)
  await v.quiesce()
  if (what === 0) { v.assert(r.done && message(r.err) === 'cannot open', 'the failure to open is the error of the call'); v.reach('open') }
  if (what === 1) {
    if (kind > 1) reqs.push(v.bytes('m', 1))
    await v.quiesce()
    if (w.refuse === 0 || kind > 1) { v.assert(r.done && !!r.err, 'a failing write fails the call'); v.reach('write') }
  }
  if (what === 2) { w.in.end(new Error('lost')); await v.quiesce(); v.assert(r.done && message(r.err) === 'lost', 'a failing read fails the call'); v.reach('read') }
  if (what === 3) {
    v.assert(!r.done, 'the call waits for a way to open streams')
    c.setOpenStreamFn(async () => w.stream)
    await v.quiesce()
    v.assert(w.sent.length >= 1 && w.sent[0].kind === 'start', 'the call starts as soon as streams can be opened')
    w.in.push(wireData(EMPTY, true, true, ''))
    await v.quiesce()
    v.assert(r.done && !r.err, 'the call completes')
    v.reach('late')
  }
}

// Calls of one client are independent of each other.
export async function H_two(v: any) {
  const ws = [wire(), wire()]
  let n = 0
  const c = new Client(async () => ws[n++].stream)
  const a = [v.bytes('a', 1), v.bytes('a', 1)], b = [v.bytes('b', 1), v.bytes('b', 1)]
  const r = [settle(c.request('s0', 'm0', a[0])), settle(c.request('s1', 'm1', a[1]))]
  await v.quiesce()
  for (let i = 0; i < 2; i++) v.assert(ws[i].sent[0].service === 's' + i && eqBytes(ws[i].sent[0].data, a[i]), 'each call has its own stream')
  const first = v.choose('first', 2)
  const how = v.choose('how', 3)
  if (how === 0) ws[first].in.push(wireData(b[first], false, false, ''))
  if (how === 1) ws[first].in.push(wireData(EMPTY, false, true, 'failed'))
  if (how === 2) ws[first].in.end(new Error('lost'))
  await v.quiesce()
  v.assert(r[first].done, 'the answered call is done')
  if (how === 0) v.assert(eqBytes(r[first].value, b[first]), 'its answer')
  else v.assert(r[first].failed, 'its failure')
  v.assert(!r[1 - first].done, 'the other call is not touched')
  ws[1 - first].in.push(wireData(b[1 - first], false, false, ''))
  await v.quiesce()
  v.assert(r[1 - first].done && !r[1 - first].failed && eqBytes(r[1 - first].value, b[1 - first]), 'answer of the other call')
  v.reach('end')
}
