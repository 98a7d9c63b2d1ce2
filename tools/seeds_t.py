"""Planted bugs in the TypeScript implementation."""
H = "import { load, fake, globals, settle, advance, check, done } from './lib.mjs'\n"
HS = H + "const S = load('starpc'), X = load('hx')\n"
HF = H + "const env = fake()\nconst S = load('starpc'), X = load('hx')\n"
HG = HS.replace('load, fake,', 'load, generate, fake,') + "generate()\n"
SEEDS = [
dict(id='C38-a', property='C38',
  needs='two packets arriving in one chunk of the transport',
  breaks='When two frames arrive together, the second is held back until the next bytes arrive.',
  edits=[('srpc/packet.ts', 'while (buffer.length >= lengthDecoder.bytes) {', 'if (buffer.length >= lengthDecoder.bytes) {'),
         ('srpc/packet.ts', "if (buffer.length < totalLength) break // Wait", "if (buffer.length < totalLength) continue // Wait")],
  ts=HS + '''
const q = X.queue(), got = X.collect(S.parseLengthPrefixTransform()(q))
q.push(new Uint8Array([1, 0, 0, 0, 7, 1, 0, 0, 0, 8]))
await settle()
check(got.items.length === 2, 'both packets arrive')
done()
'''),
dict(id='C38-b', property='C38',
  needs='a packet of more than 65535 bytes',
  breaks='The length prefix written keeps only 16 bits, so frames above 64 KiB cannot be read.',
  edits=[('srpc/packet.ts', 'data.setUint32(0, value, true)', 'data.setUint16(0, value, true)')],
  ts=HS + '''
const out = []
for await (const x of S.prependLengthPrefixTransform()([new Uint8Array(70000)])) out.push(x.subarray())
const d = out[0]
check(d.length === 70004 && d[0] + d[1] * 256 + d[2] * 65536 === 70000, 'prefix')
done()
'''),
dict(id='C38-c', property='C38',
  needs='an empty frame as the last bytes received',
  breaks='An empty frame at the end of what has arrived is not delivered.',
  edits=[('srpc/packet.ts', 'while (buffer.length >= lengthDecoder.bytes) {', 'while (buffer.length > lengthDecoder.bytes) {')],
  ts=HS + '''
const q = X.queue(), got = X.collect(S.parseLengthPrefixTransform()(q))
q.push(new Uint8Array([0, 0, 0, 0]))
await settle()
check(got.items.length === 1, 'the empty packet arrives')
done()
'''),
dict(id='C38-d', property='C38',
  needs='a Go peer: both TypeScript ends agree with each other',
  breaks='Completion and emptiness of a message are written under swapped field numbers.',
  edits=[('srpc/rpcproto.pb.ts', """    { no: 2, name: 'data_is_zero', kind: 'scalar', T: ScalarType.BOOL },
    { no: 3, name: 'complete', kind: 'scalar', T: ScalarType.BOOL },
""", """    { no: 3, name: 'data_is_zero', kind: 'scalar', T: ScalarType.BOOL },
    { no: 2, name: 'complete', kind: 'scalar', T: ScalarType.BOOL },
""")],
  ts=HS + '''
const { Packet } = load('@repo/srpc/rpcproto.pb.js')
const p = Packet.fromBinary(X.wireData(new Uint8Array([1]), false, true, ''))
check(p.body.value.complete === true && !p.body.value.dataIsZero, 'completion')
done()
'''),
dict(id='C39-a', property='C39',
  needs='a packet that carries a message together with the completion',
  breaks='The last message of a call is lost when it comes in the packet that completes the call.',
  edits=[('srpc/common-rpc.ts', """    this.pushRpcData(packet.data, packet.dataIsZero)
    if (packet.error) {
      this._rpcDataSource.end(new Error(packet.error))
    } else if (packet.complete) {
      this._rpcDataSource.end()
    }
""", """    if (packet.error) {
      this._rpcDataSource.end(new Error(packet.error))
    } else if (packet.complete) {
      this._rpcDataSource.end()
    }
    this.pushRpcData(packet.data, packet.dataIsZero)
""")],
  ts=HS + '''
const w = X.wire()
const c = new S.Client(async () => w.stream)
const r = X.collect(c.serverStreamingRequest('s', 'm', new Uint8Array([1])))
await settle()
w.in.push(X.wireData(new Uint8Array([5]), false, true, ''))
await settle()
check(r.done && !r.err && r.items.length === 1, 'the message arrives')
done()
'''),
dict(id='C39-b', property='C39',
  needs='a client that cancels while the handler reads its requests',
  breaks='A cancelled call looks to the handler like a call whose requests ended normally.',
  edits=[('srpc/common-rpc.ts', """    this._source.end()
    this._rpcDataSource.end(err)
""", """    this._source.end()
    this._rpcDataSource.end(err?.message === ERR_RPC_ABORT ? undefined : err)
""")],
  ts=HS + '''
let r
const server = new S.Server(async () => async (src) => { r = X.collect(src); await new Promise(() => {}) })
const w = X.wire()
server.handlePacketStream(w.stream)
w.in.push(X.wireStart('s', 'm', new Uint8Array([1]), false))
await settle()
w.in.push(X.wireCancel(true))
await settle()
check(r.done && r.err, 'the handler sees the cancellation')
done()
'''),
dict(id='C39-c', property='C39',
  needs='an input of a client stream that fails after some messages',
  breaks='When the input of a streaming call fails, the server is told that it is complete.',
  edits=[('srpc/common-rpc.ts', """        await this.writeCallData(data)
      }
      await this.writeCallData(undefined, true)
    } catch (err) {
      this.close(err as Error)
    }
""", """        await this.writeCallData(data)
      }
    } catch (err) {
      this._rpcDataSource.end(err as Error)
    } finally {
      await this.writeCallData(undefined, true)
    }
""")],
  ts=HS + '''
const w = X.wire(), q = X.queue()
const c = new S.Client(async () => w.stream)
const r = X.settle(c.clientStreamingRequest('s', 'm', q))
q.push(new Uint8Array([1]))
await settle()
q.end(new Error('broken'))
await settle()
check(r.done && r.failed, 'the call fails')
check(!w.sent.some((p) => p.kind === 'data' && p.complete && !p.error), 'the server is not told that the input is complete')
done()
'''),
dict(id='C39-d', property='C39',
  needs='a streaming method that fails while messages it sent still wait to be read',
  breaks='A server stream that fails half-way ends as if it were complete.',
  edits=[('srpc/pushable.ts', """      out.push(data)
    }
    out.end()
  } catch (err) {
    out.end(err as Error)
  }
""", """      out.push(data)
    }
  } catch (err) {
    if (!out.readableLength) {
      out.end(err as Error)
    }
  }
  out.end()
""")],
  ts=HS + '''
const { writeToPushable } = load('@repo/srpc/pushable.js')
const { pushable } = load('it-pushable')
const p = pushable({ objectMode: true })
await writeToPushable((async function* () { yield 1; yield 2; throw new Error('broken') })(), p)
const r = X.collect(p)
await settle()
check(r.done && r.err, 'the failure arrives')
done()
'''),
dict(id='C39-e', property='C39',
  needs='a streaming call whose requests end: the completion is taken for a message',
  breaks='The packet that completes the requests also carries an empty message.',
  edits=[('srpc/common-rpc.ts', 'dataIsZero: !!data && data.length === 0,\n      complete: complete || false,', 'dataIsZero: !data?.length,\n      complete: complete || false,')],
  ts=HS + '''
const w = X.wire(), q = X.queue()
const c = new S.Client(async () => w.stream)
X.settle(c.clientStreamingRequest('s', 'm', q))
q.push(new Uint8Array([1]))
q.end()
await settle()
const last = w.sent[w.sent.length - 1]
check(last.kind === 'data' && last.complete && !last.zero, 'completion carries no message')
done()
'''),
dict(id='C40-a', property='C40',
  needs='two handlers registered for one service with different methods',
  breaks='Registering a second handler for a service drops the methods of the first.',
  edits=[('srpc/mux.ts', '    const methodIDs = handler.getMethodIDs()\n', '    const methodIDs = handler.getMethodIDs()\n    for (const id in serviceMethods) {\n      if (!methodIDs.includes(id)) delete serviceMethods[id]\n    }\n')],
  ts=HS + '''
const mux = S.createMux(), f = async () => {}, g = async () => {}
mux.register(new S.StaticHandler('s', { a: f }))
mux.register(new S.StaticHandler('s', { b: g }))
check((await mux.lookupMethod('s', 'a')) === f && (await mux.lookupMethod('s', 'b')) === g, 'both methods')
done()
'''),
dict(id='C40-b', property='C40',
  needs='two lookup functions of which only the second knows the method',
  breaks='Only the first lookup function is asked.',
  edits=[('srpc/mux.ts', """      const invokeFn = await lookupMethod(serviceID, methodID)
      if (invokeFn) {
        return invokeFn
      }
    }

    return null
  }
}""", """      return (await lookupMethod(serviceID, methodID)) ?? null
    }

    return null
  }
}""")],
  ts=HS + '''
const mux = S.createMux(), f = async () => {}
mux.registerLookupMethod(async () => null)
mux.registerLookupMethod(async () => f)
check((await mux.lookupMethod('s', 'a')) === f, 'the second lookup function answers')
done()
'''),
dict(id='C40-c', property='C40',
  needs='a component lookup that fails with an error without message',
  breaks='A component lookup that fails without message is acknowledged as a success.',
  edits=[('rpcstream/rpcstream.ts', """    } else if (!err.message) {
      err = new Error(`rpc getter failed: ${err}`)
    }
""", """    }
""")],
  ts=HS + '''
const { handleRpcStream } = load('@repo/rpcstream/rpcstream.js')
const q = X.queue()
q.push({ body: { case: 'init', value: { componentId: 'c' } } })
const r = X.collect(handleRpcStream(q, async () => { throw new Error() }))
await settle()
check(r.items[0].body.case === 'ack' && r.items[0].body.value.error, 'the refusal is sent')
done()
'''),
dict(id='C40-d', property='C40',
  needs='an rpc stream opened without waiting whose component is then refused',
  breaks='A refused rpc stream ends cleanly for the side that opened it.',
  edits=[('rpcstream/rpcstream.ts', 'throw new Error(body.value.error)', 'return')],
  ts=HS + '''
const { openRpcStream } = load('@repo/rpcstream/rpcstream.js')
const q = X.queue()
const s = await openRpcStream('c', () => q)
const r = X.collect(s.source)
q.push({ body: { case: 'ack', value: { error: 'no' } } })
await settle()
check(r.done && r.err, 'the refusal fails the stream')
done()
'''),
dict(id='C41-a', property='C41',
  needs='broadcast channels of which one side starts writing before the other side exists',
  breaks='The stream announces that it is open before the other side is there and the announcement is lost, so both wait for ever.',
  edits=[('srpc/channel.ts', """      await this.waitRemoteAck
      this.onLocalOpened()
""", """      this.onLocalOpened()
      await this.waitRemoteAck
""")],
  ts=HF + '''
const A = S.newBroadcastChannelStream('a', 'r', 'w')
const src = X.queue()
src.push(new Uint8Array([1]))
X.settle(A.sink(src))
await settle()
const B = S.newBroadcastChannelStream('b', 'w', 'r')
const back = X.queue()
back.push(new Uint8Array([2]))
X.settle(B.sink(back))
const got = X.collect(B.source), gotA = X.collect(A.source)
for (let i = 0; i < 10; i++) { A.channel.rx.deliver(); B.channel.rx.deliver(); await settle() }
check(got.items.length === 1 && gotA.items.length === 1, 'the messages arrive')
done()
'''),
dict(id='C41-b', property='C41',
  needs='an idle timeout and a peer that sends only keep-alive messages',
  breaks='Keep-alive messages do not keep an idle stream alive.',
  edits=[('srpc/channel.ts', """    this.idleWatchdog?.feed()
    if (msg.ack || msg.opened) {
""", """    if (msg.data || msg.ack || msg.opened) {
      this.idleWatchdog?.feed()
    }
    if (msg.ack || msg.opened) {
""")],
  ts=HF + '''
const A = S.newBroadcastChannelStream('a', 'r', 'w', { idleTimeoutMs: 100 })
const got = X.collect(A.source)
const peer = new globals.BroadcastChannel('r')
peer.postMessage({ from: 'b', ack: true })
A.channel.rx.deliver()
for (let i = 0; i < 3; i++) { await advance(env, 60); peer.postMessage({ from: 'b' }); A.channel.rx.deliver(); await settle() }
check(!got.done, 'alive')
done()
'''),
dict(id='C41-c', property='C41',
  needs='a source that fails while it is sent over a channel stream',
  breaks='A failing source ends the stream cleanly for the other side.',
  edits=[('srpc/channel.ts', 'this.postMessage({ closed: true, error: error as Error })', 'this.postMessage({ closed: true })')],
  ts=HF + '''
const mc = new globals.MessageChannel()
const A = new S.ChannelStream('a', mc.port1, { remoteOpen: true }), B = new S.ChannelStream('b', mc.port2, { remoteOpen: true })
const src = X.queue(), got = X.collect(B.source)
X.settle(A.sink(src))
src.end(new Error('broken'))
for (let i = 0; i < 5; i++) { await settle(); mc.port2.deliver() }
await settle()
check(got.done && got.err, 'the failure arrives')
done()
'''),
dict(id='C41-e', property='C41',
  needs='a stream with both a keep-alive interval and an idle timeout that is closed',
  breaks='A stream with an idle timeout keeps its keep-alive timer after it was closed and writes to the closed channel.',
  edits=[('srpc/channel.ts', """      delete this.idleWatchdog
    }
    if (this.keepAlive) {
      this.keepAlive.clear()""", """      delete this.idleWatchdog
    } else if (this.keepAlive) {
      this.keepAlive.clear()""")],
  ts=HF + '''
const A = S.newBroadcastChannelStream('a', 'r', 'w', { keepAliveMs: 100, idleTimeoutMs: 1000 })
const peer = new globals.BroadcastChannel('r')
peer.postMessage({ from: 'b', ack: true })
A.channel.rx.deliver()
A.close()
check(env.env.timers.length === 0, 'no timer is left')
done()
'''),
dict(id='C41-d', property='C41',
  needs='a watchdog fed between its timer being set and firing (two cooperating changes)',
  breaks='A watchdog that was fed meanwhile waits a full duration again when its timer fires, so it expires late.',
  edits=[('srpc/watchdog.ts', """    this.lastFeedTimestamp = Date.now()
    this.scheduleTickWatchdog(this.timeoutDuration)
""", """    this.lastFeedTimestamp = Date.now()
    if (this.timerId == null) {
      this.scheduleTickWatchdog(this.timeoutDuration)
    }
"""), ('srpc/watchdog.ts', 'this.scheduleTickWatchdog(this.timeoutDuration - elapsedSinceLastFeed)', 'this.scheduleTickWatchdog(this.timeoutDuration)')],
  ts=HF + '''
const { Watchdog } = load('@repo/srpc/watchdog.js')
let n = 0
const w = new Watchdog(100, () => { n++ })
w.feed()
await advance(env, 10)
w.feed()
await advance(env, 120)
check(n === 1, 'expired')
done()
'''),
dict(id='C42-a', property='C42',
  needs='a duplex over a message port whose source fails',
  breaks='When the source of a message port duplex fails, the other side is not told and the port stays open.',
  edits=[('srpc/message-port.ts', """      } catch (err: unknown) {
        this.close()
        throw err
""", """      } catch (err: unknown) {
        throw err
""")],
  ts=HF + '''
const mc = new globals.MessageChannel()
const d = S.newMessagePortDuplex(mc.port1)
const src = X.queue()
const r = X.settle(d.sink(src))
src.end(new Error('broken'))
await settle()
check(r.failed && mc.port1.closed, 'closed')
done()
'''),
dict(id='C42-b', property='C42',
  needs='two callers waiting for the same container when its value is set',
  breaks='Only the first caller waiting for a container is woken.',
  edits=[('srpc/value-ctr.ts', """    this._waiters = []
    for (const waiter of waiters) {
      waiter(val)
    }
""", """    const waiter = waiters.shift()
    waiter?.(val)
""")],
  ts=HS + '''
const c = new S.ValueCtr()
const a = X.settle(c.wait()), b = X.settle(c.wait())
await settle()
c.set(1)
await settle()
check(a.done && b.done, 'both are woken')
done()
'''),
dict(id='C42-c', property='C42',
  needs='a stream opened by the peer on a connection without server',
  breaks='A stream that nobody will serve is closed as if it had ended instead of being refused.',
  edits=[('srpc/conn.ts', "return strm.abort(new Error('server not implemented'))", "strm.close()\n      return")],
  ts=HS + '''
let init, aborted = 0
new S.StreamConn(undefined, { muxerFactory: { createStreamMuxer: (i) => { init = i; return {} } } })
init.onIncomingStream({ abort: () => { aborted++ }, close: async () => {} })
check(aborted === 1, 'refused')
done()
'''),
dict(id='C42-d', property='C42',
  needs='a broadcast channel connection whose muxer or transport fails',
  breaks='A connection that fails closes its muxer as if it had ended normally, so the calls on it do not see the failure.',
  edits=[('srpc/broadcast-channel.ts', """      .catch((err) => this.close(err))
      .then(() => this.close())
""", """      .catch(() => {})
      .then(() => this.close())
""")],
  ts=HF + '''
let aborted = [], src = X.queue()
const c = new S.BroadcastChannelConn(S.newBroadcastChannelDuplex('r', 'w'), undefined, { muxerFactory: { createStreamMuxer: () => ({ source: src, sink: async (s) => { for await (const x of s); }, close() {}, abort(e) { aborted.push(e) } }) } })
await settle()
src.end(new Error('broken'))
await settle()
check(aborted.length > 0 && aborted[0].message === 'broken', 'aborted with the failure')
done()
'''),
dict(id='C42-e', property='C42',
  needs='an open function that is replaced after a caller took the function of the container',
  breaks='Functions taken from a container keep using the function that was set when they were taken.',
  edits=[('srpc/open-stream-ctr.ts', """    return async () => {
      let openFn = this.value
""", """    let openFn = this.value
    return async () => {
""")],
  ts=HS + '''
const c = new S.OpenStreamCtr(async () => 1)
const f = c.openStreamFunc
c.set(async () => 2)
check((await f()) === 2, 'the function set last')
done()
'''),

dict(id='C43-a', property='C43',
  needs='a generated client configured with another service id, and a bidirectional method',
  breaks='Bidirectional methods of a generated client ignore the configured service id.',
  edits=[('cmd/protoc-gen-es-starpc/typescript.ts', '''      f.print("    const result = this.rpc.bidirectionalStreamingRequest(");
      f.print("      this.service,");''', '''      f.print("    const result = this.rpc.bidirectionalStreamingRequest(");
      f.print("      ", localName(service), "ServiceName,");''')],
  ts=HG + '''
const G = load('gen:all_srpc.pb.ts')
let got
new G.AllClient({ bidirectionalStreamingRequest: (s) => { got = s; return [] } }, { service: 'other' }).A3([])
check(got === 'other', 'service id')
done()
'''),
dict(id='C43-b', property='C43',
  needs='a client streaming method of a generated client called with an abort signal',
  breaks='Generated client streaming methods do not pass on the abort signal.',
  edits=[('cmd/protoc-gen-es-starpc/typescript.ts', '''      f.print("      ", buildEncodeMessageTransformSymbol, "(", method.input, ")(request),");
      f.print("      abortSignal || undefined,");
      f.print("    )");
      f.print("    return ", method.output, ".fromBinary(result)");''', '''      f.print("      ", buildEncodeMessageTransformSymbol, "(", method.input, ")(request),");
      f.print("    )");
      f.print("    return ", method.output, ".fromBinary(result)");''')],
  ts=HG + '''
const G = load('gen:all_srpc.pb.ts')
const ac = new AbortController()
let got
new G.AllClient({ clientStreamingRequest: async (s, m, d, x) => { got = x; return new Uint8Array(0) } }).A2([], ac.signal)
await settle()
check(got === ac.signal, 'signal')
done()
'''),
dict(id='C43-c', property='C43',
  needs='a method of a generated client taken from its client and called later',
  breaks='Only unary methods of a generated client can be passed around as functions.',
  edits=[('cmd/protoc-gen-es-starpc/typescript.ts', '''  for (const method of service.methods) {
    f.print("    this.", method.name,''', '''  for (const method of service.methods) {
    if (method.methodKind !== MethodKind.Unary) continue
    f.print("    this.", method.name,''')],
  ts=HG + '''
const G = load('gen:all_srpc.pb.ts')
const { A1 } = new G.AllClient({ serverStreamingRequest: () => [] })
let ok = true
try { A1({}) } catch { ok = false }
check(ok, 'unbound call')
done()
'''),
dict(id='C43-d', property='C43',
  needs='a server streaming method whose request and response messages have different types',
  breaks='Generated server streaming methods decode responses as the type of the request.',
  edits=[('cmd/protoc-gen-es-starpc/typescript.ts', '''      f.print("      ", method.input, ".toBinary(requestMsg),");
      f.print("      abortSignal || undefined,");
      f.print("    )");
      f.print("    return ", buildDecodeMessageTransformSymbol, "(", method.output, ")(result)");''', '''      f.print("      ", method.input, ".toBinary(requestMsg),");
      f.print("      abortSignal || undefined,");
      f.print("    )");
      f.print("    return ", buildDecodeMessageTransformSymbol, "(", method.input, ")(result)");''')],
  ts=HG + '''
const G = load('gen:all_srpc.pb.ts')
const M = load('msgs')
const r = X.collect(new G.AllClient({ serverStreamingRequest: () => [M.Resp.toBinary({ data: new Uint8Array([5]) })] }).A1({}))
await settle()
check(r.items[0]?.data?.[0] === 5, 'response')
done()
'''),
dict(id='C43-e', property='C43',
  needs='a service with a method whose name is not upper camel case',
  breaks='The name of a method on the wire is changed when it contains an underscore, so Go servers do not know it.',
  edits=[('cmd/protoc-gen-es-starpc/typescript.ts', '''f.print(`      name: `, f.string(method.name), `,`);''', '''f.print(`      name: `, f.string(method.name.replace(/_(.)/g, (_, c) => c.toUpperCase())), `,`);''')],
  ts=HG + '''
const G = load('gen:two_srpc.pb.ts')
check(G.FirstDefinition.methods.do_It.name === 'do_It', 'name')
done()
'''),
]
