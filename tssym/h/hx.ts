// Helpers of the harnesses.
export function eqBytes(a: any, b: any): any {
  if (a.length !== b.length) return false
  let ok: any = true
  for (let i = 0; i < a.length; i++) ok = and(ok, a[i] === b[i])
  return ok
}
export const and = (a: any, b: any): any => (a ? b : false)
// collect drains a source in the background and records what it gave and how it ended.
export function collect(source: any): any {
  const r: any = { items: [], done: false, err: undefined }
  ;(async () => {
    try {
      for await (const x of source) r.items.push(x)
      r.done = true
    } catch (e) {
      r.err = e
      r.done = true
    }
  })()
  return r
}
// settle records the outcome of a promise.
export function settle(p: any): any {
  const r: any = { done: false, value: undefined, err: undefined }
  Promise.resolve(p).then((x: any) => { r.done = true; r.value = x }, (e: any) => { r.done = true; r.err = e; r.failed = true })
  return r
}
export const str = (s: string) => new TextEncoder().encode(s)
export function concat(...a: any[]): any {
  let n = 0
  for (const x of a) n += x.length
  const out = new Uint8Array(n)
  let o = 0
  for (const x of a) { out.set(x, o); o += x.length }
  return out
}

// ---- the wire form of the messages, written from the protobuf definitions and not from the generated tables.
export function varint(n: number): number[] {
  const out: number[] = []
  while (n > 127) { out.push((n % 128) + 128); n = Math.floor(n / 128) }
  out.push(n)
  return out
}
export const fLen = (no: number, b: any): any[] => (b.length === 0 ? [] : fLenAlways(no, b))
export const fLenAlways = (no: number, b: any): any[] => [...varint(no * 8 + 2), ...varint(b.length), ...b]
export const fBool = (no: number, x: any): any[] => (x ? [no * 8, 1] : [])
export const wireStart = (s: string, m: string, data: any, zero: any): any => new Uint8Array(fLenAlways(1, [...fLen(1, str(s)), ...fLen(2, str(m)), ...fLen(3, data), ...fBool(4, zero)]))
export const wireData = (data: any, zero: any, complete: any, error: string): any => new Uint8Array(fLenAlways(2, [...fLen(1, data), ...fBool(2, zero), ...fBool(3, complete), ...fLen(4, str(error))]))
export const wireCancel = (x: any): any => new Uint8Array([24, x ? 1 : 0])
export const packetStart = (service: string, method: string, data: any, dataIsZero: any): any => ({ body: { case: 'callStart', value: { rpcService: service, rpcMethod: method, data, dataIsZero } } })
export const packetData = (data: any, dataIsZero: any, complete: any, error: string): any => ({ body: { case: 'callData', value: { data, dataIsZero, complete, error } } })
export const packetCancel = (x: any): any => ({ body: { case: 'callCancel', value: x } })
// parse reads one packet of the wire form back, in the protobuf definitions' own terms.
export function parse(b: any): any {
  const fields = (b: any): any[] => {
    const out: any[] = []
    let p = 0
    const uv = () => { let n: any = 0, m = 1; for (;;) { const c = b[p++]; if (c === undefined) throw new Error('parse: short'); if (c < 128) return n + c * m; n = n + (c - 128) * m; m = m * 128 } }
    while (p < b.length) {
      const tag = uv()
      if (tag % 8 === 0) out.push([Math.floor(tag / 8), uv()])
      else if (tag % 8 === 2) { const n = uv(); out.push([Math.floor(tag / 8), b.subarray(p, p + n)]); p = p + n }
      else throw new Error('parse: wire type')
    }
    return out
  }
  const txt = (x: any) => new TextDecoder().decode(x)
  let r: any = { kind: 'none' }
  for (const [no, v] of fields(b)) {
    if (no === 1) { r = { kind: 'start', service: '', method: '', data: new Uint8Array(0), zero: false }; for (const [n, x] of fields(v)) { if (n === 1) r.service = txt(x); if (n === 2) r.method = txt(x); if (n === 3) r.data = x; if (n === 4) r.zero = x !== 0 } }
    else if (no === 2) { r = { kind: 'data', data: new Uint8Array(0), zero: false, complete: false, error: '' }; for (const [n, x] of fields(v)) { if (n === 1) r.data = x; if (n === 2) r.zero = x !== 0; if (n === 3) r.complete = x !== 0; if (n === 4) r.error = txt(x) } }
    else if (no === 3) r = { kind: 'cancel', value: v !== 0 }
  }
  return r
}
// le32 is the length prefix.
export const le32 = (n: number): any => new Uint8Array([n % 256, Math.floor(n / 256) % 256, Math.floor(n / 65536) % 256, Math.floor(n / 16777216)])

// queue is an async iterable the harness feeds.
export function queue(): any {
  const buf: any[] = []
  let wake: any = null, ended = false, err: any = null, closed = false
  const poke = () => { if (wake) { const w = wake; wake = null; w() } }
  return {
    push: (x: any) => { if (!ended && !closed) { buf.push(x); poke() } },
    end: (e?: any) => { if (!ended) { ended = true; err = e ?? null; poke() } },
    get closed() { return closed },
    [Symbol.asyncIterator]() { return this },
    async next(): Promise<any> {
      for (;;) {
        if (buf.length) return { done: false, value: buf.shift() }
        if (closed) return { done: true, value: undefined }
        if (ended) { if (err) { const e = err; err = null; closed = true; throw e } return { done: true, value: undefined } }
        await new Promise<void>((r) => { wake = r })
      }
    },
    async return() { closed = true; poke(); return { done: true, value: undefined } },
  }
}
// wire is a packet stream whose other side is the harness.
export function wire(): any {
  const q = queue()
  const w: any = {
    raw: [], sent: [], ended: false, sinkErr: undefined, in: q, refuse: -1,
    stream: {
      source: q,
      sink: async (s: any) => {
        try {
          for await (const x of s) {
            if (w.refuse >= 0 && w.sent.length >= w.refuse) throw new Error('write failed')
            w.raw.push(x)
            w.sent.push(parse(x))
          }
          w.ended = true
        } catch (e) { w.sinkErr = e; w.ended = true; throw e }
      },
    },
  }
  return w
}
// pair is two packet streams connected to each other.
export function pair(): any {
  const a = queue(), b = queue()
  const sink = (q: any) => async (s: any) => {
    try { for await (const x of s) q.push(x); q.end() } catch (e) { q.end(e); throw e }
  }
  return [{ source: a, sink: sink(b) }, { source: b, sink: sink(a) }]
}
