// bound: every packet kind with data of 0 to 3 symbolic bytes and of 127 to 300 bytes, symbolic flags, names and errors from a set of strings including empty and non-ASCII ones.
// assume: the protobuf library encodes fields as its descriptors say (its model is in tssym/stubs).
import { Packet } from '@repo/srpc/rpcproto.pb.js'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb.js'
import { EchoMsg } from '@repo/echo/echo.pb.js'
import { decodePacketSource, encodePacketSource } from '@repo/srpc/packet.js'
import { buildDecodeMessageTransform, buildEncodeMessageTransform } from '@repo/srpc/message.js'
import { collect, eqBytes, str, wireStart, wireData, wireCancel, packetStart, packetData, packetCancel, fLen, fLenAlways } from 'hx'

async function* from(a: any[]) { for (const x of a) yield x }
const NAMES = ['', 'a', 'echo.Echoer', 'sérvice/ü']

function pick(v: any): any {
  const kind = v.choose('kind', 3)
  const big = v.choose('big', 3)
  const data = big === 2 ? new Uint8Array(v.pick('size', [127, 128, 300])) : v.bytes('d', v.choose('len', 4))
  if (big === 2) data[data.length - 1] = v.byte('d')
  const zero = v.bool('zero')
  if (kind === 0) { const s = v.pick('s', NAMES), m = v.pick('m', NAMES); return { p: packetStart(s, m, data, zero), w: wireStart(s, m, data, zero) } }
  if (kind === 1) { const c = v.bool('complete'), e = v.pick('e', NAMES); return { p: packetData(data, zero, c, e), w: wireData(data, zero, c, e) } }
  const x = v.bool('cancel')
  return { p: packetCancel(x), w: wireCancel(x) }
}
function same(v: any, a: any, b: any, what: string) {
  v.assert(a?.body?.case === b.body.case, what + ': kind')
  const x = a.body.value, y = b.body.value
  if (b.body.case === 'callCancel') { v.assert(x === y, what + ': cancel'); return }
  v.assert(eqBytes(x.data ?? new Uint8Array(0), y.data), what + ': data')
  v.assert((x.dataIsZero ?? false) === y.dataIsZero, what + ': data_is_zero')
  if (b.body.case === 'callStart') {
    v.assert((x.rpcService ?? '') === y.rpcService, what + ': service')
    v.assert((x.rpcMethod ?? '') === y.rpcMethod, what + ': method')
  } else {
    v.assert((x.complete ?? false) === y.complete, what + ': complete')
    v.assert((x.error ?? '') === y.error, what + ': error')
  }
}

// Every packet is written in the wire form of the protobuf definition and read back with the same content.
export async function H_packets(v: any) {
  const a = pick(v)
  const enc = collect(encodePacketSource(from([a.p])))
  await v.quiesce()
  v.assert(enc.done && !enc.err && enc.items.length === 1, 'one message per packet')
  v.assert(eqBytes(enc.items[0], a.w), 'wire form of a packet')
  const dec = collect(decodePacketSource(from([a.w])))
  await v.quiesce()
  v.assert(dec.done && !dec.err && dec.items.length === 1, 'one packet per message')
  same(v, dec.items[0], a.p, 'packet read')
  v.obs('wire', enc.items[0])
  if (a.p.body.case === 'callStart') v.reach('start')
  if (a.p.body.case === 'callData') v.reach('data')
  if (a.p.body.case === 'callCancel') v.reach('cancel')
}

// Sources may give packets one by one or in lists; order and number are kept.
export async function H_lists(v: any) {
  const n = v.choose('n', 4)
  const bs: any[] = []
  for (let i = 0; i < n; i++) bs.push(v.bytes('d', 1))
  const group = (xs: any[]) => {
    const out: any[] = []
    for (let i = 0; i < xs.length;) {
      const k = v.choose('group', 3)
      if (k === 0) out.push(xs[i++])
      else { out.push(xs.slice(i, i + k)); i += k }
    }
    if (v.choose('empty', 2) === 1) out.push([])
    return out
  }
  const enc = collect(encodePacketSource(from(group(bs.map((b) => packetData(b, false, false, ''))))))
  const dec = collect(decodePacketSource(from(group(bs.map((b) => wireData(b, false, false, ''))))))
  await v.quiesce()
  v.assert(enc.done && !enc.err && enc.items.length === n, 'messages written')
  v.assert(dec.done && !dec.err && dec.items.length === n, 'packets read')
  bs.forEach((b, i) => {
    v.assert(eqBytes(enc.items[i], wireData(b, false, false, '')), 'order of messages written')
    same(v, dec.items[i], packetData(b, false, false, ''), 'order of packets read')
  })
  if (n > 2) v.reach('several')
}

// A message that does not decode and a failing source are the reader's error.
export async function H_undecodable(v: any) {
  const b = v.bytes('d', 1)
  const what = v.choose('what', 3)
  const src = async function* () {
    yield wireData(b, false, false, '')
    if (what === 0) yield new Uint8Array([18, 5, 1])
    else if (what === 1) throw new Error('lost')
    else yield new Uint8Array([18])
    yield wireData(b, false, false, '')
  }
  const dec = collect(decodePacketSource(src()))
  await v.quiesce()
  v.assert(dec.done && !!dec.err, 'the failure is reported')
  v.assert(dec.items.length === 1, 'nothing is delivered after the failure')
  v.reach('end')
}

// The rpcstream and echo messages have the wire form of their definitions.
export async function H_rpcstream(v: any) {
  const kind = v.choose('kind', 3)
  const s = v.pick('s', NAMES), d = v.bytes('d', v.choose('len', 4))
  const p: any = kind === 0 ? { body: { case: 'init', value: { componentId: s } } } : kind === 1 ? { body: { case: 'ack', value: { error: s } } } : { body: { case: 'data', value: d } }
  const w = new Uint8Array(kind === 2 ? fLenAlways(3, d) : fLenAlways(kind + 1, fLen(1, str(s))))
  const enc = collect(buildEncodeMessageTransform(RpcStreamPacket)(from([p])))
  const dec = collect(buildDecodeMessageTransform(RpcStreamPacket)(from([w])))
  const echo = collect(buildEncodeMessageTransform(EchoMsg)(from([{ body: s }])))
  const decho = collect(buildDecodeMessageTransform(EchoMsg)(from([new Uint8Array(fLen(1, str(s)))])))
  await v.quiesce()
  v.assert(enc.items.length === 1 && eqBytes(enc.items[0], w), 'wire form of a rpcstream packet')
  const q = dec.items[0]
  v.assert(q?.body?.case === p.body.case, 'kind of a rpcstream packet')
  if (kind === 0) v.assert((q.body.value.componentId ?? '') === s, 'component id')
  if (kind === 1) v.assert((q.body.value.error ?? '') === s, 'ack error')
  if (kind === 2) v.assert(eqBytes(q.body.value, d), 'data')
  v.assert(eqBytes(echo.items[0], fLen(1, str(s))), 'wire form of an echo message')
  v.assert((decho.items[0].body ?? '') === s, 'echo message read')
  v.reach('end')
}
