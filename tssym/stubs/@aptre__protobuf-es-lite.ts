// The proto3 binary codec driven by the generated field tables.
declare const $: any
export const ScalarType: any = { DOUBLE: 1, FLOAT: 2, INT64: 3, UINT64: 4, INT32: 5, FIXED64: 6, FIXED32: 7, BOOL: 8, STRING: 9, BYTES: 12, UINT32: 13 }
const both = (o: any) => { for (const k of Object.keys(o)) Object.defineProperty(o, o[k], { value: k }); return o }
export const MethodKind: any = both({ Unary: 0, ServerStreaming: 1, ClientStreaming: 2, BiDiStreaming: 3 })
export const MethodIdempotency: any = both({ NoSideEffects: 1, Idempotent: 2 })
// localName is the name of a descriptor in the generated code.
const reserved = ['break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'enum', 'export', 'extends', 'false', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'null', 'return', 'super', 'switch', 'this', 'throw', 'true', 'try', 'typeof', 'var', 'void', 'while', 'with', 'yield', 'let', 'static', 'Object', 'Uint8Array', 'String', 'Promise', 'Math', 'Number', 'Array', 'AsyncIterable', 'BigInt', 'Boolean', 'DataView', 'Date', 'Error', 'Map', 'JSON']
export function localName(d: any): string {
  if (d.kind === 'rpc') { const n = d.name.charAt(0).toLowerCase() + d.name.slice(1); return ['constructor', 'toString', 'toJSON', 'valueOf'].includes(n) ? n + '$' : n }
  return reserved.includes(d.name) ? d.name + '$' : d.name
}

const camel = (s: string) => s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase())
const utf8enc = (s: any) => new TextEncoder().encode(s)
const utf8dec = (b: any) => new TextDecoder().decode(b)

function varint(out: any[], n: any) { while (n >= 128) { out.push((n & 127) | 128); n = Math.floor(n / 128) } out.push(n) }
function lendelim(out: any[], no: number, b: any) { varint(out, no * 8 + 2); varint(out, b.length); for (let i = 0; i < b.length; i++) out.push(b[i]) }

function write(def: any, msg: any): any[] {
  const out: any[] = []
  for (const f of def.fields) {
    const name = f.localName
    let v: any, always = false
    if (f.oneof) {
      const body = msg[camel(f.oneof)]
      if (!body || body.case !== name) continue
      v = body.value
      always = true
    } else v = msg[name]
    if (v === undefined || v === null) continue
    if (f.kind === 'message') { lendelim(out, f.no, write(f.T().def, v)); continue }
    switch (f.T) {
      case ScalarType.STRING:
        if (always || v !== '') lendelim(out, f.no, utf8enc(v))
        break
      case ScalarType.BYTES:
        if (always || v.length !== 0) lendelim(out, f.no, v)
        break
      case ScalarType.BOOL:
        if (always || v) { varint(out, f.no * 8); out.push(v ? 1 : 0) }
        break
      case ScalarType.INT32: case ScalarType.UINT32:
        if (always || v !== 0) { varint(out, f.no * 8); varint(out, v) }
        break
      default:
        throw $.unsup('stub: scalar type ' + f.T)
    }
  }
  return out
}
function read(def: any, b: any): any {
  const msg: any = {}
  let p = 0
  const byte = () => { if (p >= b.length) throw new RangeError('premature EOF'); return b[p++] }
  const uvar = () => {
    let n: any = 0, m = 1
    for (let i = 0; i < 10; i++) {
      const c = byte()
      if (c < 128) return n + c * m
      n = n + (c - 128) * m
      m = m * 128
      if (i > 5) throw $.unsup('stub: long varint')
    }
    throw new Error('invalid varint')
  }
  while (p < b.length) {
    const tag = uvar()
    const no = Math.floor(tag / 8), wt = tag & 7
    if (no <= 0) throw new Error('illegal tag: field no ' + no)
    let v: any
    if (wt === 0) v = uvar()
    else if (wt === 2) {
      const n = uvar()
      if (n > b.length - p) throw new RangeError('premature EOF')
      v = b.subarray(p, p + n)
      p = p + n
    } else if (wt === 5 || wt === 1) {
      const n = wt === 5 ? 4 : 8
      if (n > b.length - p) throw new RangeError('premature EOF')
      p = p + n
      continue
    } else throw new Error('invalid wire type ' + wt)
    const f = def.fields.find((x: any) => x.no === no)
    if (!f) continue
    const lend = f.kind === 'message' || f.T === ScalarType.STRING || f.T === ScalarType.BYTES
    if (lend !== (wt === 2)) throw $.unsup('stub: wire type mismatch')
    if (f.kind === 'message') v = read(f.T().def, v)
    else if (f.T === ScalarType.STRING) v = utf8dec(v)
    else if (f.T === ScalarType.BYTES) {} // a view of the input, as in the library
    else if (f.T === ScalarType.BOOL) v = v !== 0
    if (f.oneof) msg[camel(f.oneof)] = { case: f.localName, value: v }
    else msg[f.localName] = v
  }
  return msg
}
export function createMessageType(def: any): any {
  const d = { ...def, fields: def.fields.map((f: any) => ({ ...f, localName: camel(f.name) })) }
  return {
    def: d,
    typeName: def.typeName,
    fields: d.fields,
    create: (x: any = {}) => ({ ...x }),
    fromBinary: (b: any) => read(d, b),
    toBinary: (m: any) => new Uint8Array(write(d, m)),
  }
}
export const Empty: any = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })
