// bound: a connection over a message port, a pair of broadcast channels, a websocket or a bare duplex with a scripted muxer: every sequence of 3 (thorough 4) events (data and list of data from the muxer, data from the peer, end or failure of either, close with and without error), one symbolic byte per message. one connection with 40 (thorough 80) messages each way, some of 70000 bytes.
// bound: containers: every sequence of 4 (thorough 5) operations.
// assume: the muxer (yamux in production) ends its outgoing side when it is closed or its incoming side has ended, and fails it when it is aborted; what it multiplexes is outside.
import { StreamConn, MessagePortConn, BroadcastChannelConn, newBroadcastChannelDuplex, newMessagePortDuplex, WebSocketConn, OpenStreamCtr, HandleStreamCtr, ValueCtr, isAbortError, isStreamIdleError, castToError } from 'starpc'
import { MessageChannel, BroadcastChannel } from 'env'
import { created, hook } from '@chainsafe/libp2p-yamux'
import { Uint8ArrayList } from 'uint8arraylist'
import { collect, settle, queue, eqBytes, le32, concat } from 'hx'

const message = (e: any) => (e instanceof Error ? e.message : String(e))

// muxer is a scripted muxer: what arrives is recorded, what is sent is given by the harness.
function muxer(): any {
  const m: any = { inits: [], out: queue(), got: [], closed: 0, aborted: [], inEnd: false, inErr: undefined, streams: [], next: async () => { throw new Error('no stream') } }
  m.factory = {
    protocol: 'x',
    createStreamMuxer(init: any) {
      m.inits.push(init)
      return {
        streams: m.streams,
        source: m.out,
        sink: async (src: any) => {
          try { for await (const x of src) m.got.push(x); m.inEnd = true } catch (e) { m.inEnd = true; m.inErr = e; m.out.end(e); throw e }
          m.out.end()
        },
        close: () => { m.closed++; m.out.end() },
        abort: (e: any) => { m.aborted.push(e); m.out.end(e) },
        newStream: () => m.next(),
      }
    },
  }
  return m
}
// link is one end of a transport with the harness at the other end.
function link(v: any, kind: number, server: any, m: any, extra: any): any {
  const params = { muxerFactory: m.factory, ...extra }
  if (kind === 0) {
    const mc = new MessageChannel()
    const p: any = mc.port1, q: any = mc.port2
    return { conn: new MessagePortConn(p, server, params), tx: p, give: (x: any) => { q.postMessage(x); p.deliver() }, down: () => p.closed }
  }
  const d: any = newBroadcastChannelDuplex('r', 'w')
  const q: any = new BroadcastChannel('r')
  return { conn: new BroadcastChannelConn(d, server, params), tx: d.write, give: (x: any) => { q.postMessage(x); d.read.deliver() }, down: () => d.write.closed && d.read.closed }
}

// A connection over a message port or broadcast channels carries bytes both ways in order; when the peer leaves, the
// muxer ends or fails, or the connection is closed, the muxer is closed, the peer is told and the channel is closed, with nothing left unhandled.
// sym: split=kind:2,op:8
export async function H_conn(v: any) {
  const kind = v.choose('kind', 2)
  const m = muxer()
  const l = link(v, kind, undefined, m, {})
  await v.quiesce()
  const out: any[] = [], inn: any[] = []
  let end = ''
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n && !end; i++) {
    const k = v.choose('op', 8)
    const b = k < 3 ? v.bytes('b', v.choose('len', 2)) : null
    if (k === 0) { m.out.push(b); out.push(b) }
    if (k === 1) { const c = v.bytes('c', 1); m.out.push(new Uint8ArrayList(b, c)); out.push(concat(b, c)) }
    if (k === 2) { l.give(b); inn.push(b) }
    if (k === 3) { l.give(null); end = 'peer' }
    if (k === 4) { m.out.end(); end = 'muxer' }
    if (k === 5) { m.out.end(new Error('muxer failed')); end = 'failed' }
    if (k === 6) { l.conn.close(); end = 'close' }
    if (k === 7) { l.conn.close(new Error('torn down')); end = 'abort' }
    if (v.choose('pause', 2) === 1) await v.quiesce()
  }
  await v.quiesce()
  const data = l.tx.sent.filter((x: any) => x !== null)
  v.assert(m.got.length === inn.length, 'every message of the peer arrives once')
  inn.forEach((b, i) => v.assert(eqBytes(m.got[i], b), 'messages of the peer in order'))
  data.forEach((x: any) => v.assert(x instanceof Uint8Array, 'byte arrays only'))
  if (end === '' || end === 'muxer') v.assert(data.length === out.length, 'every message of the muxer is sent once')
  v.assert(data.length <= out.length, 'nothing is sent twice')
  data.forEach((b: any, i: number) => v.assert(eqBytes(b, out[i]), 'messages of the muxer in order'))
  if (!end) {
    v.assert(!l.down() && m.closed === 0 && m.aborted.length === 0 && data.length === l.tx.sent.length, 'open')
    if (out.length && inn.length) v.reach('both')
    return
  }
  v.assert(l.tx.sent[l.tx.sent.length - 1] === null, 'the peer is told')
  v.assert(l.down(), 'the channel is closed')
  v.assert(m.closed + m.aborted.length > 0, 'the muxer is closed')
  if (end === 'failed') { v.assert(m.aborted.length > 0 && message(m.aborted[0]) === 'muxer failed', 'with the failure'); v.reach('failed') }
  if (end === 'abort') v.assert(message(m.aborted[0]) === 'torn down', 'with the error given')
  if ((end === 'peer' || end === 'muxer' || end === 'close') && data.length === out.length) v.assert(m.aborted.length === 0, 'cleanly')
  l.conn.close()
  await v.quiesce()
  v.assert(l.tx.sent.filter((x: any) => x !== null).length === data.length, 'nothing is sent after the end')
  if (end === 'peer') v.reach('peer left')
}

// A duplex over a port or channels passes values both ways in order until one side ends, tells the peer, and does not fail when both directions end or it is closed again.
export async function H_duplex(v: any) {
  const kind = v.choose('kind', 2)
  let d: any, q: any, rx: any, tx: any
  if (kind === 0) { const mc = new MessageChannel(); d = newMessagePortDuplex(mc.port1 as any); q = mc.port2; rx = tx = mc.port1 } else { d = newBroadcastChannelDuplex('r', 'w'); q = new BroadcastChannel('r'); rx = d.read; tx = d.write }
  const got = collect(d.source)
  await v.quiesce()
  const src = queue()
  const sink = settle(d.sink(src))
  const out: any[] = [], inn: any[] = []
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n; i++) {
    const k = v.choose('op', 3)
    if (k === 2) break
    const b = v.bytes('b', 1)
    if (k === 0) { src.push(b); out.push(b) }
    if (k === 1) { q.postMessage(b); inn.push(b); rx.deliver() }
    if (v.choose('pause', 2) === 1) await v.quiesce()
  }
  const end = v.choose('end', 5)
  if (end === 0) src.end()
  if (end === 1) src.end(new Error('source failed'))
  if (end === 2) { q.postMessage(null); rx.deliver() }
  if (end === 3) { await v.quiesce(); d.close() }
  if (end === 4) { q.postMessage(null); rx.deliver(); src.end() }
  await v.quiesce()
  const sent = tx.sent.filter((x: any) => x !== null)
  v.assert(end === 2 || end === 4 || sent.length === out.length, 'everything is written')
  sent.forEach((b: any, i: number) => v.assert(eqBytes(b, out[i]), 'in order'))
  v.assert(got.items.length === inn.length, 'everything is read')
  inn.forEach((b, i) => v.assert(eqBytes(got.items[i], b), 'in order'))
  v.assert(tx.sent[tx.sent.length - 1] === null, 'the peer is told')
  v.assert(tx.closed && rx.closed, 'closed')
  if (end === 0 || end === 4) v.assert(sink.done && (end === 4 || !sink.failed), 'the sink ends')
  if (end === 1) v.assert(sink.done && sink.failed && message(sink.err) === 'source failed', 'the failure of the source is passed on')
  if (end === 2 || end === 4) { v.assert(got.done && !got.err, 'the end of the peer is the end of the source'); v.reach('peer') }
  d.close()
  await v.quiesce()
  v.reach('end')
}

// Incoming streams go to the server, framed; without a server they are refused. Streams opened are new streams of the muxer.
export async function H_streams(v: any) {
  const m = muxer()
  const handed: any[] = []
  const has = v.choose('server', 2) === 1
  const dir = v.choose('direction', 3)
  const conn = new StreamConn(has ? ({ handlePacketStream: (s: any) => { handed.push(s) } } as any) : undefined, { muxerFactory: m.factory, direction: dir === 0 ? undefined : dir === 1 ? 'inbound' : 'outbound' } as any)
  v.assert(m.inits.length === 1 && m.inits[0].direction === (dir === 1 ? 'inbound' : 'outbound'), 'the direction given, outbound by default')
  v.assert(conn.source === (m.out as any) && conn.streams === m.streams, 'the muxer of the connection')
  const rx = queue(), sent: any[] = []
  const strm: any = { aborted: [], closed: 0, source: rx, sink: async (s: any) => { for await (const x of s) sent.push(x.subarray()) }, abort: (e: any) => { strm.aborted.push(e) }, close: async () => { strm.closed++ } }
  const open = v.choose('open', 3)
  let ps: any = null
  if (open === 0) {
    m.inits[0].onIncomingStream(strm)
    if (!has) {
      v.assert(strm.aborted.length === 1 && strm.aborted[0] instanceof Error && handed.length === 0, 'refused without a server')
      v.reach('refused')
      return
    }
    v.assert(handed.length === 1 && strm.aborted.length === 0, 'handed to the server once')
    ps = handed[0]
  } else {
    m.next = async () => { if (open === 2) throw new Error('cannot open'); return strm }
    const how = v.choose('how', 2)
    const r = settle(how === 0 ? conn.openStream() : conn.buildOpenStreamFunc()())
    await v.quiesce()
    v.assert(r.done && r.failed === (open === 2 ? true : undefined), 'opening is the opening of the muxer')
    if (open === 2) { v.assert(message(r.err) === 'cannot open', 'with its error'); v.reach('failed'); return }
    ps = r.value
  }
  const got = collect(ps.source)
  const b = v.bytes('b', v.choose('len', 3)), c = v.bytes('c', 2)
  rx.push(concat(le32(b.length), b))
  const src = queue()
  const sink = settle(ps.sink(src))
  src.push(c)
  await v.quiesce()
  v.assert(got.items.length === 1 && eqBytes(got.items[0], b), 'packets in')
  v.assert(eqBytes(concat(...sent), concat(le32(2), c)), 'packets out')
  src.end()
  await v.quiesce()
  v.assert(sink.done && !sink.failed && strm.closed > 0, 'the stream is closed when its packets end')
  const e = v.choose('err', 2) === 1
  conn.close(e ? new Error('x') : undefined)
  v.assert(m.closed === (e ? 0 : 1) && m.aborted.length === (e ? 1 : 0), 'closed or aborted')
  v.reach('end')
}

// Without a muxer given yamux is used, with keep-alive only where the transport cannot tell that it is gone, unless configured otherwise.
export async function H_params(v: any) {
  const kind = v.choose('kind', 3)
  const given = v.choose('given', 4)
  const yp: any = given === 0 ? undefined : given === 1 ? { maxInboundStreams: 7 } : given === 2 ? { enableKeepAlive: kind === 0 } : { keepAliveInterval: 5, enableKeepAlive: true }
  const p: any = yp ? { yamuxParams: yp } : v.choose('params', 2) === 1 ? {} : undefined
  created.length = 0
  if (kind === 0) new StreamConn(undefined, p)
  if (kind === 1) new MessagePortConn(new MessageChannel().port1 as any, undefined, p)
  if (kind === 2) new BroadcastChannelConn(newBroadcastChannelDuplex('r', 'w'), undefined, p)
  v.assert(created.length === 1, 'one muxer')
  const q = created[0].params
  v.assert(q.enableKeepAlive === (yp && yp.enableKeepAlive !== undefined ? yp.enableKeepAlive : kind > 0), 'keep-alive')
  if (kind > 0 || given === 3) v.assert(q.keepAliveInterval === (given === 3 ? 5 : 1500), 'interval')
  v.assert(q.maxInboundStreams === (given === 1 ? 7 : undefined), 'other parameters')
  v.reach('end')
  await v.quiesce()
}

// A connection over a websocket carries bytes both ways in order, lists combined, and ends with the socket or its muxer.
export async function H_websocket(v: any) {
  created.length = 0
  const m = muxer()
  hook.factory = m.factory
  const rx = queue(), sent: any[] = []
  let ended = false, failed: any = null
  const socket: any = { duplex: { source: rx, sink: async (s: any) => { try { for await (const x of s) sent.push(x) } catch (e) { failed = e; throw e } finally { ended = true } } } }
  const dir = v.choose('direction', 2) === 0 ? 'inbound' : 'outbound'
  const handed: any[] = []
  const server = v.choose('server', 2) === 1
  const c: any = new WebSocketConn(socket, dir as any, server ? ({ handlePacketStream: (s: any) => { handed.push(s) } } as any) : undefined)
  v.assert(m.inits.length === 1 && m.inits[0].direction === dir, 'direction')
  v.assert(created.length === 1 && created[0].params.enableKeepAlive === false, 'no keep-alive')
  v.assert(c.getSocket() === socket, 'socket')
  const strm: any = { aborted: 0, source: queue(), sink: async () => {}, abort: () => { strm.aborted++ }, close: () => {} }
  m.inits[0].onIncomingStream(strm)
  v.assert(handed.length === (server ? 1 : 0) && strm.aborted === (server ? 0 : 1), 'incoming streams')
  const out: any[] = [], inn: any[] = []
  for (let i = 0; i < 3; i++) {
    const k = v.choose('op', 4)
    if (k === 3) break
    const b = v.bytes('b', 1)
    if (k === 0) { m.out.push(b); out.push(b) }
    if (k === 1) { const d = v.bytes('d', 1); m.out.push(new Uint8ArrayList(b, d)); out.push(concat(b, d)) }
    if (k === 2) { rx.push(b); inn.push(b) }
    if (v.choose('pause', 2) === 1) await v.quiesce()
  }
  await v.quiesce()
  v.assert(sent.length === out.length && m.got.length === inn.length, 'every message once')
  out.forEach((b, i) => { v.assert(sent[i] instanceof Uint8Array, 'byte arrays only'); v.assert(eqBytes(sent[i], b), 'sent in order') })
  inn.forEach((b, i) => v.assert(eqBytes(m.got[i], b), 'received in order'))
  v.assert(!ended && m.closed === 0 && m.aborted.length === 0, 'open')
  const end = v.choose('end', 5)
  if (end === 0) rx.end()
  if (end === 1) rx.end(new Error('lost'))
  if (end === 2) m.out.end()
  if (end === 3) m.out.end(new Error('muxer failed'))
  if (end === 4) c.close()
  await v.quiesce()
  v.assert(ended, 'the socket is done')
  if (end === 1 || end === 3) { v.assert(m.aborted.length > 0 && message(m.aborted[0]) === (end === 1 ? 'lost' : 'muxer failed'), 'aborted with the failure'); v.reach('failed') }
  else { v.assert(m.closed > 0 && m.aborted.length === 0 && failed === null, 'closed cleanly'); v.reach('end') }
}

// A container gives its value to everyone who waits as soon as it has one, and to later ones at once.
export async function H_ctr(v: any) {
  const kind = v.choose('kind', 3)
  const calls: any[] = []
  const fn = (i: number): any => async (...a: any[]) => { calls.push(i); if (i === 3) throw new Error('cannot'); return [i, ...a] }
  const init = v.choose('init', 2) === 1
  const c: any = kind === 0 ? new ValueCtr<any>(init ? v.pick('zero', [0, '', false, 7]) : undefined) : kind === 1 ? new OpenStreamCtr(init ? fn(9) : undefined) : new HandleStreamCtr(init ? fn(9) : undefined)
  const first = c.value
  v.assert((first !== undefined) === init, 'the initial value')
  // the function may have been taken from the container before anything was set
  const taken = kind === 0 ? null : v.choose('taken', 2) === 0 ? null : kind === 1 ? c.openStreamFunc : c.handleStreamFunc
  const ask = () => settle(kind === 0 ? c.wait() : taken ? (kind === 1 ? taken() : taken('s')) : kind === 1 ? c.openStreamFunc() : c.handleStreamFunc('s'))
  const waiting: any[] = []
  let cur: any = init ? first : undefined, id = 9
  const n = v.thorough ? 5 : 4
  const check = (r: any, val: any, i: number) => {
    v.assert(r.done, 'not kept waiting')
    if (kind === 0) v.assert(!r.failed && r.value === val, 'the value')
    else if (i === 3) v.assert(r.failed && message(r.err) === 'cannot', 'the error of the function')
    else v.assert(!r.failed && r.value[0] === i && r.value.length === (kind === 2 ? 2 : 1) && (kind === 1 || r.value[1] === 's'), 'the result of the function, with its argument')
  }
  for (let i = 0; i < n; i++) {
    const op = v.choose('op', 3)
    if (op === 0) {
      const r = ask()
      if (v.choose('pause', 2) === 1 || cur !== undefined) await v.quiesce()
      if (cur !== undefined) check(r, cur, id)
      else waiting.push(r)
      v.assert(r.done === (cur !== undefined), 'waits for a value')
    }
    if (op === 1) {
      cur = kind === 0 ? i : fn(i)
      id = i
      c.set(cur)
      v.assert(c.value === cur, 'set')
      await v.quiesce()
      for (const r of waiting) { check(r, cur, id); v.reach('woken') }
      waiting.length = 0
    }
    if (op === 2) { c.set(undefined); cur = undefined; await v.quiesce() }
  }
  v.assert(c.value === cur, 'the value set last')
  for (const r of waiting) v.assert(!r.done, 'still waiting')
}

// Errors are told apart by their message, whatever is thrown, and anything can be made an error.
export async function H_errors(v: any) {
  const text = v.str('text', 16)
  const k = v.choose('kind', 10)
  const x: any = [() => new Error(text), () => text, () => ({ message: text }), () => null, () => undefined, () => 0, () => v.int('n', 1, 9), () => ({}), () => [], () => ({ message: '', toString: () => text })][k]()
  const named = k === 0 || k === 2
  v.assert(isAbortError(x) === (named && text === 'ERR_RPC_ABORT'), 'abort errors')
  v.assert(isStreamIdleError(x) === (named && text === 'ERR_STREAM_IDLE'), 'idle errors')
  const d = v.choose('default', 2) === 1 ? 'none given' : undefined
  const e = castToError(x, d)
  const def = d || 'error'
  if (named && text !== '') v.assert(e === x, 'an error stays the same')
  if (k === 1 && text !== '') v.assert(e instanceof Error && e.message === text, 'a text becomes its message')
  if (k >= 3 && k <= 5) v.assert(e instanceof Error && e.message === def, 'nothing becomes the default')
  if (k === 9 && text !== '') v.assert(e.message === text, 'the text of an object')
  v.assert(e.message !== '' || text === '' || k === 8, 'never without message')
  v.reach('end')
}

// Many and large messages pass both ways over every kind of connection.
export async function H_long(v: any) {
  const kind = v.choose('kind', 3), paced = v.choose('paced', 2) === 1
  const m = muxer()
  let give: any, sent: any
  if (kind < 2) { const l = link(v, kind, undefined, m, {}); give = l.give; sent = l.tx.sent } else {
    created.length = 0
    hook.factory = m.factory
    const rx = queue()
    sent = []
    new WebSocketConn({ duplex: { source: rx, sink: async (s: any) => { for await (const x of s) sent.push(x) } } } as any, 'outbound' as any)
    give = (x: any) => rx.push(x)
  }
  await v.quiesce()
  const out: any[] = [], inn: any[] = []
  const n = v.thorough ? 80 : 40
  for (let i = 0; i < n; i++) {
    const b = new Uint8Array(i === 5 ? 70000 : 2), c = new Uint8Array(i === 6 ? 70000 : 3)
    for (const x of [b, c]) { x[0] = v.byte('x'); x[x.length - 1] = v.byte('y') }
    out.push(b); inn.push(c)
    m.out.push(i % 3 === 2 ? new Uint8ArrayList(b.subarray(0, 1), b.subarray(1)) : b)
    give(c)
    if (paced) await v.quiesce()
  }
  await v.quiesce()
  for (const [x, y, t] of [[sent, out, 'messages of the muxer in order'], [m.got, inn, 'messages of the peer in order']]) {
    v.assert(x.length === y.length, 'every message once')
    x.forEach((g: any, i: number) => { const w = y[i]; v.assert(g.length === w.length, t); for (const k of [0, w.length - 1]) v.assert(g[k] === w[k], t) })
  }
  v.assert(m.closed === 0 && m.aborted.length === 0, 'open')
  v.reach('many')
}
