// bound: two channel streams over a message port or a pair of broadcast channels, created in either order, 4 (thorough 6) steps of delivering one message, starting a sink or writing (one symbolic byte per message) in any order, then every way of ending on either side, with all pending messages delivered before or after; no clock.
// bound: idle timeouts and keep-alive intervals of 1 to 1000 ms with up to 3 (thorough 4) events at symbolic times of up to 2500 ms apart. one exchange of 40 (thorough 80) values, one of 70000 bytes.
import { ChannelStream, newBroadcastChannelStream, isStreamIdleError } from 'starpc'
import { Watchdog } from '@repo/srpc/watchdog.js'
import { MessageChannel, BroadcastChannel, due } from 'env'
import { collect, settle, queue, eqBytes } from 'hx'

const message = (e: any) => (e instanceof Error ? e.message : String(e))

// side is one end: the object it reads from, the one it writes to, and what went through.
function sides(v: any, kind: number, opts: any): any {
  const mc = new MessageChannel()
  const make = (i: number) => () => {
    let rx: any, tx: any, ch: any
    if (kind === 0) { rx = tx = i === 0 ? mc.port1 : mc.port2; ch = rx }
    else { tx = new BroadcastChannel(i === 0 ? 'x' : 'y'); rx = new BroadcastChannel(i === 0 ? 'y' : 'x'); ch = { tx, rx } }
    s[i].rx = rx
    s[i].tx = tx
    s[i].stream = new ChannelStream<any>(i === 0 ? 'a' : 'b', ch, opts)
    s[i].got = collect(s[i].stream.source)
  }
  const s: any[] = [0, 1].map((i) => ({
    make: make(i), stream: null, src: queue(), out: [], sink: null, opened: !!opts?.remoteOpen,
    start() { if (!this.sink) this.sink = settle(this.stream.sink(this.src)) },
    deliver() {
      if (!this.stream) return false
      const m = this.rx.inbox[0]
      if (!this.rx.deliver()) return false
      if (m.opened) this.opened = true
      return true
    },
    data() { return this.tx.sent.filter((m: any) => m.data !== undefined) },
  }))
  return s
}
async function drain(v: any, s: any[]) {
  for (let k = 0; k < 50; k++) {
    await v.quiesce()
    const a = s[0].deliver(), b = s[1].deliver()
    if (!a && !b) return
  }
  v.assert(false, 'messages go on for ever')
}
// early checks that nothing is written before the other side is known to be open.
const early = (v: any, s: any[]) => { for (const x of s) if (x.stream && !x.opened) v.assert(x.data().length === 0, 'no data before the other side has opened the stream') }
function received(v: any, to: any, from: any, all: boolean) {
  const n = to.got.items.length
  if (all) v.assert(n === from.out.length, 'every message arrives once')
  v.assert(n <= from.out.length, 'no message arrives twice')
  to.got.items.forEach((b: any, i: number) => v.assert(eqBytes(b, from.out[i]), 'messages arrive in order'))
}

// Both sides come up in any order of construction, delivery and use; data flows only after the other side has opened, and everything written arrives once, in order; then either side ends in any way.
// sym: split=kind:2,first:2,end:5
export async function H_pair(v: any) {
  const kind = v.choose('kind', 2)
  const remoteOpen = v.choose('remote open', 2) === 1
  const s = sides(v, kind, remoteOpen ? { remoteOpen: true } : undefined)
  const first = v.choose('first', 2)
  s[first].make()
  if (!remoteOpen && v.choose('late', 2) === 1) { s[first].start(); await v.quiesce() }
  s[1 - first].make()
  const n = v.thorough ? 6 : 4
  for (let i = 0; i < n; i++) {
    const op = v.choose('op', 5)
    if (op === 4) break
    const x = s[op % 2]
    if (op < 2) { if (!x.deliver()) break }
    else if (!x.sink) x.start()
    else if (x.out.length < 2) { const b = v.bytes('b', 1); x.out.push(b); x.src.push(b) }
    else break
    await v.quiesce()
    early(v, s)
  }
  const flush = v.choose('flush', 2) === 1
  if (flush) {
    await drain(v, s)
    for (const x of s) received(v, x, s[0] === x ? s[1] : s[0], !!s[0].sink && !!s[1].sink || remoteOpen)
    v.assert(!s[0].got.done && !s[1].got.done, 'the streams stay open')
  }
  const up = !!s[0].sink && !!s[1].sink
  const end = v.choose('end', 5)
  const a = s[0], b = s[1]
  if (end === 0) { a.start(); a.src.end() }
  if (end === 1) { a.start(); a.src.end(new Error('source failed')) }
  if (end === 2) a.stream.close()
  if (end === 3) a.stream.close(new Error('torn down'))
  if (end === 4) { a.start(); b.start() }
  const writer = !!a.sink
  await drain(v, s)
  early(v, s)
  if (end >= 2 && end <= 3) {
    v.assert(a.got.done && b.got.done, 'closing ends both sides')
    v.assert(end === 2 ? !a.got.err && !b.got.err : message(a.got.err) === 'torn down' && message(b.got.err) === 'torn down', 'with the error given')
    if (writer && (remoteOpen || (up && flush))) received(v, b, a, true)
    received(v, a, b, false)
    received(v, b, a, false)
    if (a.sink && !a.opened) { v.assert(a.sink.done && a.sink.failed && message(a.sink.err) === (end === 2 ? 'closed' : 'torn down'), 'a write waiting for the other side fails'); v.reach('gave up') }
    const w = settle(a.stream.waitRemoteOpen)
    await v.quiesce()
    v.assert(w.done && (a.opened ? !w.failed : w.failed), 'nothing waits for a closed stream')
    const sent = a.tx.sent.length
    v.assert(sent > 0 && a.tx.sent[sent - 1].closed === true, 'the close is announced')
    a.stream.close()
    await v.quiesce()
    v.assert(a.tx.sent.length === sent, 'closing again sends nothing')
    v.assert(a.tx.closed && a.rx.closed, 'the channel is closed')
    v.reach('closed')
    return
  }
  if (!b.sink) {
    if (!remoteOpen) v.assert(a.data().length === 0 && !b.got.done, 'waits for the other side')
    b.start()
    await drain(v, s)
  }
  received(v, b, a, true)
  received(v, a, b, true)
  v.assert(a.stream.isOpen && b.stream.isOpen && a.stream.isAcked && b.stream.isAcked, 'both sides are up')
  if (end < 2) {
    v.assert(a.sink.done && !a.sink.failed, 'the sink is done')
    v.assert(b.got.done && (end === 0 ? !b.got.err : message(b.got.err) === 'source failed'), 'the end is passed on')
    v.assert(!a.got.done && !b.sink.done, 'the other direction stays open')
    v.reach('half closed')
  } else v.assert(!a.got.done && !b.got.done, 'both directions stay open')
  const x = v.bytes('x', 1)
  b.out.push(x)
  b.src.push(x)
  await drain(v, s)
  received(v, a, b, true)
  b.src.end()
  await drain(v, s)
  v.assert(a.got.done && !a.got.err, 'the end of the other direction')
}

// Only messages of the other side count: what one wrote oneself and what is no message is ignored, and any
// message that carries data is passed on, in whatever combination its parts come.
export async function H_message(v: any) {
  const s = newBroadcastChannelStream<any>('a', 'r', 'w') as any
  const peer = new BroadcastChannel('r')
  const got = collect(s.source)
  const other = new BroadcastChannel('unrelated')
  other.postMessage({ from: 'b', data: v.bytes('u', 1) })
  const ack = v.choose('ack', 2) === 1, opened = v.choose('opened', 2) === 1, has = v.choose('data', 3), closed = v.choose('closed', 2) === 1, error = v.choose('error', 2) === 1
  const b = has === 1 ? v.bytes('b', 1) : new Uint8Array(0)
  const from = v.choose('from', 4)
  let m: any = { from: from === 0 ? 'b' : from === 1 ? 'a' : from === 2 ? '' : undefined }
  if (ack) m.ack = true
  if (opened) m.opened = true
  if (has) m.data = b
  if (closed) m.closed = true
  if (error) m.error = new Error('remote failed')
  if (v.choose('none', 5) === 4) { m = null; v.assume(from === 0) }
  peer.postMessage(m)
  v.assert(s.channel.rx.deliver(), 'delivered')
  await v.quiesce()
  const mine = m !== null && from === 0
  v.assert(s.isOpen === (mine && opened), 'open exactly when the other side says so')
  v.assert(s.isAcked === (mine && (opened || ack)), 'acknowledged exactly when the other side says so')
  v.assert(got.items.length === (mine && has ? 1 : 0), 'data of the other side only')
  if (mine && has) v.assert(eqBytes(got.items[0], b), 'data unchanged')
  v.assert(got.done === (mine && (closed || error)), 'ended exactly when the other side says so')
  v.assert(mine && error ? message(got.err) === 'remote failed' : !got.err, 'with its error')
  v.assert(s.channel.tx.sent.length === 1 && s.channel.tx.sent[0].ack === true && s.channel.tx.sent[0].from === 'a', 'announced once')
  if (mine && has && closed) v.reach('last')
}

// A stream with an idle timeout closes, telling the other side, exactly when it has heard nothing for that long; what
// is not a message of the other side does not count, and before the first message the clock does not run.
export async function H_idle(v: any) {
  const T = v.int('timeout', 1, 1000)
  const port = v.choose('port', 2) === 1
  const mc = new MessageChannel()
  const s = port ? new ChannelStream<any>('a', mc.port1 as any, { idleTimeoutMs: T }) : (newBroadcastChannelStream<any>('a', 'r', 'w', { idleTimeoutMs: T }) as any)
  const peer: any = port ? mc.port2 : new BroadcastChannel('r')
  const rx: any = port ? mc.port1 : s.channel.rx
  const tx: any = port ? mc.port1 : s.channel.tx
  const got = collect(s.source)
  await v.advance(v.int('wait', 0, 2500))
  v.assert(!got.done && tx.sent.length === 1, 'not started')
  peer.postMessage({ from: 'b', ack: true })
  rx.deliver()
  let left = T
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n; i++) {
    const g = v.int('gap', 0, 2500)
    await v.advance(g)
    if (g >= left) {
      v.assert(got.done && isStreamIdleError(got.err), 'closed after the timeout')
      v.assert(tx.sent.length === 2 && tx.sent[1].closed === true && isStreamIdleError(tx.sent[1].error) && tx.closed, 'and the other side is told')
      s.close()
      v.assert(v.env.timers.length === 0, 'no timer is left')
      await v.advance(5000)
      v.assert(tx.sent.length === 2, 'once')
      v.reach('idle')
      return
    }
    v.assert(!got.done && tx.sent.length === 1, 'not closed before the timeout')
    left = left - g
    const k = v.choose('kind', 5)
    peer.postMessage(k === 0 ? { from: 'b' } : k === 1 ? { from: 'b', data: v.bytes('b', 1) } : k === 2 ? { from: 'a' } : k === 3 ? {} : null)
    rx.deliver()
    if (k < 2) { left = T; v.reach('fed') }
  }
  const why = v.choose('close', 2)
  s.close(why === 1 ? new Error('x') : undefined)
  v.assert(v.env.timers.length === 0, 'no timer is left')
  await v.advance(5000)
  v.assert(got.done && (why === 1 ? message(got.err) === 'x' : !got.err) && tx.sent.length === 2, 'no timeout after close')
}

// A stream with a keep-alive interval never stays silent for longer than that, sends nothing it need not, and stops when closed, also when it has an idle timeout.
// sym: split=port:2,both:2
export async function H_keepalive(v: any) {
  const K = v.int('interval', 1, 1000)
  const mc = new MessageChannel()
  const port = v.choose('port', 2) === 1
  const both = v.choose('both', 2) === 1
  const opts = both ? { keepAliveMs: K, idleTimeoutMs: 20000, remoteOpen: true } : { keepAliveMs: K, remoteOpen: true }
  const s = port ? new ChannelStream<any>('a', mc.port1 as any, opts) : (newBroadcastChannelStream<any>('a', 'r', 'w', opts) as any)
  const tx: any = port ? mc.port1 : s.channel.tx
  const src = queue()
  const sink = settle(s.sink(src))
  await v.quiesce()
  if (both) { (port ? mc.port2 : new BroadcastChannel('r')).postMessage({ from: 'b' }); (port ? mc.port1 : s.channel.rx).deliver() }
  let sent = tx.sent.length, left = K
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n; i++) {
    const g = v.int('gap', 0, 2500)
    v.assume(g < left + K)
    await v.advance(g)
    if (g >= left) {
      v.assert(tx.sent.length === sent + 1, 'a keep-alive after the interval')
      const m = tx.sent[sent]
      v.assert(m.from === 'a' && m.data === undefined && m.closed === undefined && m.error === undefined && m.opened === undefined, 'that says nothing else')
      sent = sent + 1
      left = left + K - g
      v.reach('keep alive')
    } else {
      v.assert(tx.sent.length === sent, 'nothing before the interval')
      left = left - g
    }
    if (v.choose('write', 2) === 1) {
      src.push(v.bytes('b', 1))
      await v.quiesce()
      v.assert(tx.sent.length === sent + 1, 'written')
      sent = sent + 1
      left = K
    }
  }
  s.close()
  v.assert(tx.sent.length === sent + 1, 'closed')
  v.assert(v.env.timers.length === 0, 'no timer is left')
  if (v.choose('late', 2) === 1) {
    src.push(v.bytes('b', 1))
    await v.quiesce()
    v.assert(v.env.timers.length === 0, 'no timer is started after the close')
  }
  await v.advance(5000)
  v.assert(tx.sent.length === sent + 1, 'nothing after the close')
  v.obs('sink', sink.done)
}

// Two streams whose keep-alive interval is below the idle timeout keep each other alive as long as both exist, and when one
// disappears without a word the other one closes.
export async function H_alive(v: any) {
  const T = v.int('timeout', 2, 1000), K = v.int('interval', 1, 999)
  v.assume(K < T)
  v.assume(K + K >= T)
  const mc = new MessageChannel()
  const a = new ChannelStream<any>('a', mc.port1 as any, { keepAliveMs: K, idleTimeoutMs: T })
  const b = new ChannelStream<any>('b', mc.port2 as any, { keepAliveMs: K, idleTimeoutMs: T })
  const ga = collect(a.source), gb = collect(b.source)
  const p1: any = mc.port1, p2: any = mc.port2
  let gone = false
  const pump = () => { while (p1.deliver() || (!gone && p2.deliver())); }
  pump()
  for (let i = 0; i < (v.thorough ? 3 : 2); i++) { await v.advance(K); pump() }
  v.assert(!ga.done && !gb.done, 'alive')
  gone = true
  b.close = () => {}
  p2.closed = true
  await v.advance(T - 1)
  v.assert(!ga.done, 'not yet')
  await v.advance(1)
  v.assert(ga.done && isStreamIdleError(ga.err), 'the other one closes')
  v.reach('end')
}

// A watchdog calls back exactly when it has not been fed for its duration, once per feeding, also with timers that fire early or late, and never once cleared.
// sym: split=op:3,timer:3
export async function H_watchdog(v: any) {
  const D = v.int('duration', 1, 1000)
  let fired = 0
  const w = new Watchdog(D, () => { fired++ })
  await v.advance(2500)
  v.assert(fired === 0, 'does not run before it is fed')
  let running = false, left = D, want = 0
  const n = v.thorough ? 4 : 3
  for (let i = 0; i < n; i++) {
    const k = v.choose('op', 3)
    if (k === 0) { w.feed(); running = true; left = D; v.reach('fed') }
    if (k === 1) { w.clear(); running = false }
    const g = v.int('gap', 0, 2500)
    const off = v.choose('timer', 3)
    if (off === 1 && running) {
      // the timer fires early
      const t = v.env.timers[0]
      const e = v.int('early', 0, 999)
      v.assume(e < left)
      v.env.now = v.env.now + e
      left = left - e
      if (v.env.timers.length === 1) { v.env.timers = []; t.fn() }
      v.assert(fired === want, 'an early timer does not count')
      v.reach('early')
    }
    if (off === 2) {
      // the timer fires late
      v.env.now = v.env.now + g
      const now = v.env.now
      for (let n = 0, t = due(now); t && n < 8; t = due(now), n++) { v.env.now = now; t.fn() }
      v.env.now = now
    } else await v.advance(g)
    if (running && g >= left) { want = want + 1; running = false; v.reach('fired') }
    else left = left - g
    v.assert(fired === want, 'called exactly when not fed for the duration')
  }
}

// Values of any type arrive, also those that are false in a condition.
export async function H_values(v: any) {
  const s = sides(v, v.choose('kind', 2), undefined)
  for (const x of s) { x.make(); x.start() }
  const vals = [0, 1, '', 'a', false, true, [], { k: 1 }]
  const sent = [v.pick('val', vals), v.pick('val', vals), v.int('n', -2, 2), v.bool('t')]
  for (const x of sent) s[0].src.push(x)
  await drain(v, s)
  const got = s[1].got.items
  v.assert(got.length === sent.length, 'every value arrives')
  for (let i = 0; i < 2; i++) v.assert(typeof got[i] === typeof sent[i] && (typeof sent[i] === 'object' || got[i] === sent[i]), 'unchanged')
  v.assert(got[2] === sent[2] && got[3] === sent[3], 'unchanged')
  v.reach('end')
}

// Many and large values pass in order, whether they are written before the other side is up or after.
export async function H_long(v: any) {
  const s = sides(v, v.choose('kind', 2), v.choose('watched', 2) === 1 ? { keepAliveMs: 50, idleTimeoutMs: 100 } : undefined)
  const before = v.choose('before', 2) === 1, paced = v.choose('paced', 2) === 1
  const n = v.thorough ? 80 : 40
  const a = s[0], b = s[1]
  a.make()
  a.start()
  if (!before) { b.make(); b.start(); await settled(v, s) }
  for (let i = 0; i < n; i++) {
    const x = new Uint8Array(i === 3 ? 70000 : 2)
    x[0] = v.byte('x'); x[x.length - 1] = v.byte('y')
    a.out.push(x); a.src.push(x)
    if (i % 2) { const y = v.bytes('z', 1); b.out.push(y); b.src.push(y) }
    if (paced) { await v.quiesce(); if (b.stream) { a.deliver(); b.deliver() } }
  }
  if (before) { v.assert(a.data().length === 0, 'no data before the other side has opened the stream'); b.make(); b.start() }
  await settled(v, s)
  a.src.end()
  b.src.end()
  await settled(v, s)
  for (const [x, y] of [[a, b], [b, a]]) {
    v.assert(x.got.items.length === y.out.length, 'every message arrives once')
    x.got.items.forEach((g: any, i: number) => { const w = y.out[i]; v.assert(g.length === w.length, 'messages arrive in order'); for (const k of [0, w.length - 1]) v.assert(g[k] === w[k], 'messages arrive in order') })
    v.assert(x.got.done && !x.got.err, 'the end is passed on')
  }
  v.reach('many')
}
async function settled(v: any, s: any[]) {
  for (let k = 0; k < 500; k++) {
    await v.quiesce()
    const a = s[0].deliver(), b = s[1].deliver()
    if (!a && !b) return
  }
  v.assert(false, 'messages go on for ever')
}
