// bound: up to 3 (thorough 4) packets of 0 to 2 (3) symbolic bytes and packets of 255 to 70000 bytes, the transport's bytes cut at every pair of positions; every byte sequence of 9 (thorough 12) symbolic bytes with every cut; every uint32.
import { Uint8ArrayList } from 'uint8arraylist'
import { lengthPrefixDecode, lengthPrefixEncode, uint32LEDecode, uint32LEEncode, prependLengthPrefixTransform, parseLengthPrefixTransform, encodeUint32Le, decodeUint32Le, prependPacketLen } from '@repo/srpc/packet.js'
import { combineUint8ArrayListTransform } from '@repo/srpc/array-list.js'
import { streamToPacketStream } from '@repo/srpc/stream.js'
import { collect, settle, eqBytes, concat, le32 } from 'hx'

const asList = (v: any, b: any) => (v.choose('list', 2) === 1 ? (b.length > 1 ? new Uint8ArrayList(b.subarray(0, 1), b.subarray(1)) : new Uint8ArrayList(b)) : b)
async function* from(a: any[]) { for (const x of a) yield x }
const flat = (x: any) => (x instanceof Uint8Array ? x : x.subarray())

// cuts of a byte sequence as the transport may deliver it
function cut(v: any, wire: any, n: number): any[] {
  const at: number[] = []
  let last = 0
  for (let i = 0; i < n; i++) { const c = last + v.choose('cut', wire.length - last + 1); at.push(c); last = c }
  const out: any[] = []
  let p = 0
  for (const c of at) { out.push(wire.subarray(p, c)); p = c }
  out.push(wire.subarray(p))
  return out
}

// Packets of every size framed one after the other give exactly length prefix and content, and reading them back
// from any division of the bytes gives the same packets.
export async function H_frames(v: any) {
  const n = v.choose('n', v.thorough ? 4 : 3)
  const pkts: any[] = []
  for (let i = 0; i < n; i++) pkts.push(v.bytes('p', v.choose('len', v.thorough ? 4 : 3)))
  const enc = collect(prependLengthPrefixTransform()(from(pkts.map((p) => asList(v, p)))))
  await v.quiesce()
  v.assert(enc.done && !enc.err, 'encoding did not end')
  v.assert(enc.items.length === n, 'one frame per packet')
  const wire = concat(...enc.items.map(flat))
  v.assert(eqBytes(wire, concat(...pkts.flatMap((p) => [le32(p.length), p]))), 'a frame is the length as uint32 little endian and the content')
  const dec = collect(combineUint8ArrayListTransform()(parseLengthPrefixTransform()(from(cut(v, wire, 2)))))
  await v.quiesce()
  v.assert(dec.done && !dec.err, 'decoding did not end')
  v.assert(dec.items.length === n, 'as many packets as were written')
  pkts.forEach((p, i) => {
    v.assert(dec.items[i] instanceof Uint8Array, 'packets are byte arrays')
    v.assert(eqBytes(dec.items[i], p), 'the packet read is the packet written')
  })
  v.obs('packets', dec.items)
  if (n > 1) v.reach('several')
  v.reach('end')
}

// Whatever bytes arrive, the packets read are those whose frames are complete, and nothing else.
export async function H_arbitrary(v: any) {
  const size = v.thorough ? 12 : 9
  const b = v.bytes('b', size)
  const c = v.choose('cut', size + 1)
  const chunks = [b.subarray(0, c), b.subarray(c)]
  const dec = collect(lengthPrefixDecode(from(v.choose('list', 2) === 1 ? chunks.map((x: any) => new Uint8ArrayList(x)) : chunks), uint32LEDecode))
  await v.quiesce()
  v.assert(dec.done && !dec.err, 'decoding did not end')
  let p = 0, k = 0
  while (size - p >= 4) {
    const len = b[p] + b[p + 1] * 256 + b[p + 2] * 65536 + b[p + 3] * 16777216
    if (len > size - p - 4) break
    let n = 0
    while (n < len) n++
    v.assert(k < dec.items.length, 'a complete frame was not delivered')
    v.assert(eqBytes(dec.items[k].subarray(), b.subarray(p + 4, p + 4 + n)), 'content of a complete frame')
    k++
    p += 4 + n
  }
  v.assert(dec.items.length === k, 'nothing is delivered beyond the complete frames')
  v.obs('packets', dec.items.map((x: any) => x.subarray()))
  if (k > 1) v.reach('two frames')
  if (k === 0) v.reach('no frame')
}

// A packet is delivered as soon as its last byte has arrived, without waiting for what follows.
export async function H_prompt(v: any) {
  const p = v.bytes('p', v.choose('len', 4)), q = v.bytes('q', 2)
  const wire = concat(le32(p.length), p, le32(2), q)
  const c = v.choose('cut', wire.length + 1)
  let more: any
  const gate = new Promise((r) => { more = r })
  const src = async function* () { if (c > 0) yield wire.subarray(0, c); await gate; if (c < wire.length) yield wire.subarray(c) }
  const dec = collect(parseLengthPrefixTransform()(src()))
  await v.quiesce()
  const want = c >= wire.length ? 2 : c >= 4 + p.length ? 1 : 0
  v.assert(dec.items.length === want, 'a complete packet waits for further bytes')
  more()
  await v.quiesce()
  v.assert(dec.items.length === 2 && dec.done, 'both packets delivered in the end')
  v.assert(eqBytes(dec.items[0].subarray(), p), 'first packet')
  v.assert(eqBytes(dec.items[1].subarray(), q), 'second packet')
  if (want === 1) v.reach('one')
}

// The prefix codecs agree with each other and with the definition for every length.
export async function H_prefix(v: any) {
  const n = v.int('n', 0, 4294967295)
  const b = encodeUint32Le(n)
  v.assert(b.length === 4, 'a prefix has four bytes')
  v.assert(b[0] + b[1] * 256 + b[2] * 65536 + b[3] * 16777216 === n, 'encodeUint32Le is little endian')
  v.assert(decodeUint32Le(b) === n, 'decodeUint32Le inverts encodeUint32Le')
  const l = uint32LEEncode(n)
  v.assert(l.length === 4 && uint32LEEncode.bytes === 4 && uint32LEDecode.bytes === 4, 'four bytes')
  v.assert(eqBytes(l.subarray(), b), 'uint32LEEncode gives the same bytes')
  v.assert(uint32LEDecode(l) === n, 'uint32LEDecode inverts uint32LEEncode')
  v.obs('b', b)
  v.reach('end')
}
export async function H_prefix_bytes(v: any) {
  const b = v.bytes('b', 4)
  v.assert(uint32LEDecode(new Uint8ArrayList(b)) === decodeUint32Le(b), 'decoders agree')
  v.assert(eqBytes(encodeUint32Le(decodeUint32Le(b)), b), 'encodeUint32Le inverts decodeUint32Le')
  const k = v.choose('short', 4)
  let threw = false
  try { uint32LEDecode(new Uint8ArrayList(b.subarray(0, k))) } catch { threw = true }
  v.assert(threw, 'a short prefix is refused')
  v.reach('end')
}
export async function H_prepend(v: any) {
  const p = v.bytes('p', v.choose('len', 5))
  const m = prependPacketLen(p)
  v.assert(eqBytes(m, concat(le32(p.length), p)), 'prependPacketLen')
  m[4] = 0
  const big = new Uint8Array(v.pick('big', [255, 256, 257, 65535, 65536]))
  big[0] = v.byte('first')
  big[big.length - 1] = v.byte('last')
  const r = prependPacketLen(big)
  v.assert(eqBytes(r.subarray(0, 4), le32(big.length)), 'prefix of a large packet')
  v.assert(r.length === big.length + 4, 'length of a large frame')
  v.assert(and2(r[4] === big[0], r[r.length - 1] === big[big.length - 1]), 'content of a large packet')
  v.reach('end')
}
const and2 = (a: any, b: any) => (a ? b : false)

// Large packets, in chunks of a transport's size.
// sym: steps=8000000
export async function H_large(v: any) {
  const size = v.pick('size', [255, 256, 300, 65535, 65536, 70000])
  const big = new Uint8Array(size)
  const at = [0, 1, 254, size - 1]
  for (const i of at) big[i] = v.byte('x')
  const small = v.bytes('s', 2)
  const enc = collect(lengthPrefixEncode(from([big, small]), uint32LEEncode))
  await v.quiesce()
  const wire = concat(...enc.items.map(flat))
  v.assert(wire.length === size + 10, 'length of the wire form')
  v.assert(eqBytes(wire.subarray(0, 4), le32(size)), 'prefix')
  const chunk = v.pick('chunk', [1024, 4096, 65536, 100000])
  const chunks: any[] = []
  for (let i = 0; i < wire.length; i += chunk) chunks.push(wire.subarray(i, Math.min(wire.length, i + chunk)))
  const dec = collect(combineUint8ArrayListTransform()(lengthPrefixDecode(from(chunks), uint32LEDecode)))
  await v.quiesce()
  v.assert(dec.done && dec.items.length === 2, 'two packets')
  v.assert(dec.items[0].length === size, 'length of the large packet')
  for (const i of at) v.assert(dec.items[0][i] === big[i], 'content of the large packet')
  v.assert(eqBytes(dec.items[1], small), 'packet after a large one')
  v.reach('end')
}

// The source's failure is the reader's failure, after the packets that were complete.
export async function H_source_error(v: any) {
  const p = v.bytes('p', 2)
  const wire = concat(le32(2), p, le32(2), p)
  const c = v.choose('cut', wire.length + 1)
  const src = async function* () { yield wire.subarray(0, c); throw new Error('lost') }
  const dec = collect(parseLengthPrefixTransform()(src()))
  await v.quiesce()
  v.assert(dec.done && dec.err?.message === 'lost', 'the error of the source is passed on')
  v.assert(dec.items.length === Math.floor(c / 6), 'complete packets are delivered before the error')
  v.reach('end')
}

// A stream turned into a packet stream frames what is written, closes the stream when the writer ends or fails, and
// reads packets from any division of the bytes.
export async function H_stream(v: any) {
  const n = v.choose('n', 3)
  const pkts: any[] = []
  for (let i = 0; i < n; i++) pkts.push(v.bytes('p', v.choose('len', 3)))
  const in_ = concat(...pkts.flatMap((p) => [le32(p.length), p]))
  const written: any[] = []
  let closed = 0
  const refuse = v.choose('refuse', 2) === 1
  const strm: any = {
    source: from(cut(v, in_, 1)),
    sink: async (s: any) => { for await (const x of s) { if (refuse) throw new Error('refused'); written.push(x) } },
    close: async () => { closed++ },
  }
  const ps = streamToPacketStream(strm)
  const got = collect(ps.source)
  const fails = v.choose('fails', 2) === 1
  const out = settle(ps.sink((async function* () { for (const p of pkts) { v.assert(closed === 0 || refuse, 'closed before the writer ended'); yield p } if (fails) throw new Error('writer failed') })()))
  await v.quiesce()
  v.assert(out.done, 'sink returns')
  v.assert(closed > 0, 'the stream is closed when the writer ends')
  if (!refuse) v.assert(eqBytes(concat(...written.map(flat)), in_), 'the framed bytes are written')
  v.assert(got.done && !got.err && got.items.length === n, 'packets of the stream')
  pkts.forEach((p, i) => v.assert(eqBytes(got.items[i], p), 'content of a packet of the stream'))
  v.obs('got', got.items)
  v.reach('end')
}
