// bound: echo calls of every kind between a TypeScript client and server, also through a rpcstream, with bodies of a set of strings and up to 3 messages; requests answered in both orders of two concurrent calls; pushables filled from sources of up to 3 (thorough 4) messages; one conversation of 40 (thorough 80) messages and messages of up to 17000 (thorough 70000) characters.
import { Client, Server, createMux, createHandler, writeToPushable, buildPushableSink, messagePushable } from 'starpc'
import { EchoerServer, EchoerClient, EchoerDefinition } from '@repo/echo/index.js'
import { buildRpcStreamOpenStream, openRpcStream } from '@repo/rpcstream/rpcstream.js'
import { collect, settle, queue, pair } from 'hx'

const BODY = ['', 'a', 'hello']
const message = (e: any) => (e instanceof Error ? e.message : String(e))

function setup(v: any, proxied: boolean): any {
  const mux = createMux()
  const server = new Server(mux.lookupMethod)
  mux.register(createHandler(EchoerDefinition as any, new EchoerServer(server)))
  const client = new Client(async () => { const [a, b] = pair(); server.handlePacketStream(b); return a })
  if (!proxied) return new EchoerClient(client)
  const svc = new EchoerClient(client)
  const caller = svc.RpcStream.bind(svc)
  return new EchoerClient(new Client(v.choose('ack', 2) === 1 ? () => openRpcStream('c', caller, true) : buildRpcStreamOpenStream('c', caller)))
}

// Calls through the whole stack give what the echo service gives.
export async function H_echo(v: any) {
  const svc = setup(v, v.choose('proxied', 2) === 1)
  const kind = v.choose('kind', 5)
  const s = v.pick('body', BODY)
  if (kind === 0) {
    const r = settle(svc.Echo({ body: s }))
    await v.quiesce()
    v.assert(r.done && !r.failed && (r.value.body ?? '') === s, 'echo')
    v.reach('unary')
  } else if (kind === 1) {
    const r = collect(svc.EchoServerStream({ body: s }))
    await v.quiesce()
    v.assert(r.items.length === 1, 'the first copy comes at once')
    await v.advance(1500)
    v.assert(r.done && !r.err && r.items.length === 5, 'five copies and the end')
    for (const x of r.items) v.assert((x.body ?? '') === s, 'copies')
    v.reach('server stream')
  } else if (kind === 2) {
    const q = queue()
    const r = settle(svc.EchoClientStream(q))
    const n = v.choose('n', 3)
    for (let i = 0; i < n; i++) q.push({ body: i === 0 ? s : 'x' })
    q.end()
    await v.quiesce()
    v.assert(r.done, 'client stream ends')
    if (n === 0) v.assert(r.failed, 'no message fails')
    else v.assert(!r.failed && (r.value.body ?? '') === s, 'first message')
    v.reach('client stream')
  } else if (kind === 3) {
    const q = queue()
    const r = collect(svc.EchoBidiStream(q))
    const n = v.choose('n', 4)
    for (let i = 0; i < n; i++) { q.push({ body: s + i }); if (v.choose('pause', 2) === 1) await v.quiesce() }
    await v.quiesce()
    v.assert(r.items.length === n + 1 && !r.done, 'greeting and every message')
    v.assert(r.items[0].body === 'hello from server', 'greeting')
    for (let i = 0; i < n; i++) v.assert(r.items[i + 1].body === s + i, 'messages in order')
    q.end()
    await v.quiesce()
    v.assert(r.done && !r.err, 'half-close ends the stream')
    v.reach('bidi')
  } else {
    const r = settle(svc.DoNothing({}))
    await v.quiesce()
    v.assert(r.done && !r.failed, 'empty messages')
    v.reach('empty')
  }
}

// An aborted call fails with the abort error through the whole stack, and other calls go on.
export async function H_abort_e2e(v: any) {
  const svc = setup(v, v.choose('proxied', 2) === 1)
  const ac = new AbortController()
  const q = queue(), q2 = queue()
  const kind = v.choose('kind', 3)
  const r: any = kind === 0 ? collect(svc.EchoServerStream({ body: 'a' }, ac.signal)) : kind === 1 ? settle(svc.EchoClientStream(q, ac.signal)) : collect(svc.EchoBidiStream(q, ac.signal))
  const other = collect(svc.EchoBidiStream(q2))
  const when = v.choose('when', 3)
  if (when > 0) await v.quiesce()
  if (when > 1) await v.advance(250)
  v.assert(!r.done, 'running')
  ac.abort()
  await v.quiesce()
  await v.advance(1500)
  v.assert(r.done && message(r.err) === 'ERR_RPC_ABORT', 'aborted')
  q2.push({ body: 'still' })
  await v.quiesce()
  v.assert(!other.done && other.items.length === 2 && other.items[1].body === 'still', 'the other call goes on')
  v.reach('end')
}

// An unknown service or method fails the call with an error naming it.
export async function H_unknown(v: any) {
  const mux = createMux()
  const server = new Server(mux.lookupMethod)
  mux.register(createHandler(EchoerDefinition as any, new EchoerServer(server)))
  const client = new Client(async () => { const [a, b] = pair(); server.handlePacketStream(b); return a })
  const s = v.pick('s', ['echo.Echoer', 'echo.Other']), m = v.pick('m', ['Echo', 'Other'])
  const r = settle(client.request(s, m, new Uint8Array(0)))
  await v.quiesce()
  v.assert(r.done, 'the call ends')
  if (s === 'echo.Echoer' && m === 'Echo') v.assert(!r.failed, 'known method')
  else { v.assert(r.failed && message(r.err).includes(s + '/' + m), 'the error names the method'); v.reach('unknown') }
}

// A source written to a pushable, or to a sink made of one, arrives in order, with its end or its failure.
export async function H_pushables(v: any) {
  const n = v.choose('n', v.thorough ? 5 : 4), fails = v.choose('fails', 3), how = v.choose('how', 3)
  const want: any[] = []
  for (let i = 0; i < n; i++) want.push({ body: v.str('body', 1) })
  const err = new Error(fails === 2 ? '' : 'broken')
  const p: any = messagePushable<any>()
  const got = collect(p)
  let r: any
  if (how === 2) {
    const sync = function* () {
      for (const x of want) yield x
      if (fails) throw err
    }
    r = settle(buildPushableSink<any>(p)(sync() as any))
  } else {
    const src = queue()
    r = settle(how === 1 ? buildPushableSink<any>(p)(src) : writeToPushable<any>(src, p))
    for (const x of want) { src.push(x); if (v.choose('pause', 2) === 1) { await v.quiesce(); v.assert(got.items.length > 0 && got.items[got.items.length - 1] === x, 'a message arrives when it is written') } }
    await v.quiesce()
    v.assert(!got.done && !r.done, 'not ended before the source')
    src.end(fails ? err : undefined)
  }
  await v.quiesce()
  v.assert(got.done && (fails ? got.err === err : got.err === undefined), 'the end of the source is passed on')
  v.assert(r.done, 'and nothing is left running')
  // a failure overtakes the messages that wait in a pushable
  v.assert(fails && how === 2 ? got.items.length <= n : got.items.length === n, 'every message once')
  for (let i = 0; i < got.items.length; i++) v.assert(got.items[i] === want[i], 'in order')
  v.reach(fails ? 'failed' : 'ended')
}

// Long conversations and large messages pass through the whole stack like short ones.
// sym: split=proxied:2,kind:4 steps=8000000
export async function H_long(v: any) {
  const svc = setup(v, v.choose('proxied', 2) === 1)
  const kind = v.choose('kind', 4)
  const paced = v.choose('paced', 2) === 1
  if (kind === 0) {
    const n = v.thorough ? 80 : 40
    const q = queue(), r = collect(svc.EchoBidiStream(q))
    for (let i = 0; i < n; i++) { q.push({ body: 'm' + i }); if (paced) { await v.quiesce(); v.assert(r.items.length === i + 2, 'each is answered') } }
    await v.quiesce()
    v.assert(!r.done && r.items.length === n + 1, 'every message is answered once')
    for (let i = 0; i < n; i++) v.assert(r.items[i + 1].body === 'm' + i, 'messages in order')
    q.end()
    await v.quiesce()
    v.assert(r.done && !r.err, 'half-close ends the stream')
    v.reach('many')
    return
  }
  const body = 'x'.repeat(v.pick('size', [127, 255, 256, 1000, 4096, v.thorough ? 70000 : 17000]))
  if (kind === 1) {
    const r = settle(svc.Echo({ body }))
    await v.quiesce()
    v.assert(r.done && !r.failed && r.value.body === body, 'a large message is echoed')
  }
  if (kind === 2) {
    const q = queue(), r = settle(svc.EchoClientStream(q))
    q.push({ body })
    if (paced) await v.quiesce()
    q.push({ body: 'y' })
    q.end()
    await v.quiesce()
    v.assert(r.done && !r.failed && r.value.body === body, 'a large first message is returned')
  }
  if (kind === 3) {
    const q = queue(), r = collect(svc.EchoBidiStream(q))
    for (const b of ['a', body, 'b', body + 'z']) { q.push({ body: b }); if (paced) await v.quiesce() }
    await v.quiesce()
    v.assert(r.items.length === 5 && r.items[1].body === 'a' && r.items[2].body === body && r.items[3].body === 'b' && r.items[4].body === body + 'z', 'large and small messages in order')
  }
  v.reach('large')
}
