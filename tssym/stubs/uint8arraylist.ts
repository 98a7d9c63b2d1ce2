// uint8arraylist v2: a list of byte arrays read as one.
export function isUint8ArrayList(x: any): boolean { return x instanceof Uint8ArrayList }
export class Uint8ArrayList {
  private bufs: Uint8Array[] = []
  public length = 0
  constructor(...data: any[]) { for (const d of data) this.append(d) }
  *[Symbol.iterator]() { yield* this.bufs }
  static fromUint8Arrays(bufs: Uint8Array[]) { return new Uint8ArrayList(...bufs) }
  appendAll(bufs: any[]) { for (const d of bufs) this.add(d, false) }
  prependAll(bufs: any[]) { for (const d of [...bufs].reverse()) this.add(d, true) }
  equals(o: any) {
    if (!(o instanceof Uint8ArrayList) || o.length !== this.length) return false
    for (let i = 0; i < this.length; i++) if (this.get(i) !== o.get(i)) return false
    return true
  }
  get byteLength() { return this.length }
  append(...data: any[]) { for (const d of data) this.add(d, false) }
  prepend(...data: any[]) { for (const d of data.reverse()) this.add(d, true) }
  private add(d: any, front: boolean) {
    if (d instanceof Uint8Array) {
      this.length += d.byteLength
      if (front) this.bufs.unshift(d)
      else this.bufs.push(d)
    } else if (d instanceof Uint8ArrayList) {
      this.length += d.byteLength
      if (front) this.bufs.unshift(...d.bufs)
      else this.bufs.push(...d.bufs)
    } else throw new Error('Could not append value, must be an Uint8Array or a Uint8ArrayList')
  }
  private range(begin: any, end: any) {
    begin = begin ?? 0
    end = end ?? this.length
    if (begin < 0) begin = this.length + begin
    if (end < 0) end = this.length + end
    if (begin < 0 || end > this.length) throw new RangeError('index is out of bounds')
    const out: Uint8Array[] = []
    let o = 0
    for (const b of this.bufs) {
      const s = o, e = o + b.length
      o = e
      if (begin >= e || end <= s) continue
      const from = begin > s ? begin - s : 0
      const to = end < e ? end - s : b.length
      if (to > from) out.push(b.subarray(from, to))
    }
    return out
  }
  consume(bytes: any) {
    bytes = Math.trunc(bytes)
    if (Number.isNaN(bytes) || bytes <= 0) return
    if (bytes === this.byteLength) { this.bufs = []; this.length = 0; return }
    while (this.bufs.length > 0) {
      if (bytes >= this.bufs[0].byteLength) {
        bytes -= this.bufs[0].byteLength
        this.length -= this.bufs[0].byteLength
        this.bufs.shift()
      } else {
        this.bufs[0] = this.bufs[0].subarray(bytes)
        this.length -= bytes
        break
      }
    }
  }
  private join(parts: Uint8Array[]) {
    let n = 0
    for (const p of parts) n += p.length
    const out = new Uint8Array(n)
    let o = 0
    for (const p of parts) { out.set(p, o); o += p.length }
    return out
  }
  slice(begin?: any, end?: any) { return this.join(this.range(begin, end)) }
  subarray(begin?: any, end?: any) {
    const parts = this.range(begin, end)
    return parts.length === 1 ? parts[0] : this.join(parts)
  }
  sublist(begin?: any, end?: any) {
    const l = new Uint8ArrayList()
    for (const p of this.range(begin, end)) l.append(p)
    return l
  }
  get(index: any) {
    if (index < 0 || index >= this.length) throw new RangeError('index is out of bounds')
    for (const b of this.bufs) { if (index < b.length) return b[index]; index -= b.length }
  }
  set(index: any, value: any) {
    for (const b of this.bufs) { if (index < b.length) { b[index] = value; return }; index -= b.length }
    throw new RangeError('index is out of bounds')
  }
  write(buf: any, offset: any = 0) { for (let i = 0; i < buf.length; i++) this.set(offset + i, buf[i]) }
  private view(o: any, n: number) { const b = this.slice(o, o + n); return new DataView(b.buffer, b.byteOffset, b.byteLength) }
  getUint8(o: any) { return this.view(o, 1).getUint8(0) }
  getUint16(o: any, le?: boolean) { return this.view(o, 2).getUint16(0, le) }
  getUint32(o: any, le?: boolean) { return this.view(o, 4).getUint32(0, le) }
  getInt32(o: any, le?: boolean) { return this.view(o, 4).getInt32(0, le) }
  private put(o: any, n: number, fn: (v: DataView) => void) { const b = new Uint8Array(n); fn(new DataView(b.buffer, b.byteOffset, b.byteLength)); this.write(b, o) }
  setUint8(o: any, v: any) { this.put(o, 1, (d) => d.setUint8(0, v)) }
  setUint16(o: any, v: any, le?: boolean) { this.put(o, 2, (d) => d.setUint16(0, v, le)) }
  setUint32(o: any, v: any, le?: boolean) { this.put(o, 4, (d) => d.setUint32(0, v, le)) }
  setInt32(o: any, v: any, le?: boolean) { this.put(o, 4, (d) => d.setInt32(0, v, le)) }
}
