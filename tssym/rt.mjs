// The symbolic runtime: values that carry an SMT term beside their concrete value, and the operations on them.
export class Unsupported extends Error {}
export class Abort extends Error {} // ends a path

export class Sym {
  // w: the value is at least 0 and less than 2^w; z: the value is a multiple of 2^z
  constructor(k, c, t, w, z) { this.k = k; this.c = c; this.t = t; if (w !== undefined) this.w = w; if (z !== undefined) this.z = z }
  get length() { if (this.k !== 'str') return undefined; return new Sym('int', this.c.length, `(str.len ${this.t})`) }
  startsWith(o) { return new Sym('bool', this.c.startsWith(con(o)), `(str.prefixof ${term(o)} ${this.t})`) }
  endsWith(o) { return new Sym('bool', this.c.endsWith(con(o)), `(str.suffixof ${term(o)} ${this.t})`) }
  includes(o) { return new Sym('bool', this.c.includes(con(o)), `(str.contains ${this.t} ${term(o)})`) }
  concat(o) { return bin('+', this, o) }
  toString() { return str(this) }
  valueOf() { throw unsup('implicit conversion of a symbolic value') }
  [Symbol.toPrimitive]() { throw unsup('implicit conversion of a symbolic value') }
}

// A property neither Sym nor its kind has is undefined, one that the kind has is not modelled.
const fallback = (names) => new Proxy(Object.create(null), { get: (_, p, x) => { if (typeof p === 'string' && names(x).includes(p)) throw unsup('property ' + p + ' of a symbolic value'); return undefined }, has: () => false })
const STRP = Object.getOwnPropertyNames(String.prototype), NUMP = Object.getOwnPropertyNames(Number.prototype)
Object.setPrototypeOf(Sym.prototype, fallback((x) => (x.k === 'str' ? STRP : NUMP)))
Sym.prototype.toJSON = function () { throw unsup('JSON of a symbolic value') }

// state of the current path
export const S = { trace: [], known: new Map(), asserts: [], ops: 0, limit: 2000000, unsupported: null, hang: false, fns: new Set(), nops: 0 }

export function unsup(m) { S.unsupported ??= m; return new Unsupported(m) }
export const isSym = (x) => x instanceof Sym
export const con = (x) => (isSym(x) ? x.c : x)

const lit = (s) => '"' + [...s].map((ch) => { const c = ch.codePointAt(0); return ch === '"' ? '""' : c >= 32 && c < 127 && ch !== '\\' ? ch : `\\u{${c.toString(16)}}` }).join('') + '"'
const num = (n) => (n < 0 ? `(- ${-n})` : String(n))
export function term(x) {
  if (isSym(x)) return x.t
  switch (typeof x) {
    case 'number': if (!Number.isSafeInteger(x)) throw unsup('number ' + x); return num(x)
    case 'boolean': return String(x)
    case 'string': return lit(x)
  }
  throw unsup('term of ' + typeof x)
}
const kind = (x) => (isSym(x) ? x.k : { number: 'int', boolean: 'bool', string: 'str' }[typeof x])

export function tick(n = 1) {
  S.ops += n; S.nops += n
  if (S.ops > S.limit) { S.hang = true; throw new Abort('step limit') }
}

// branch decides a symbolic condition and records it.
export function branch(b) {
  if (!isSym(b)) return !!b
  if (b.t === 'true') return true
  if (b.t === 'false') return false
  const k = S.known.get(b.t)
  if (k !== undefined) return k
  S.known.set(b.t, b.c)
  S.trace.push({ t: b.t, c: b.c })
  return b.c
}
export const tob = (x) => {
  if (!isSym(x)) return x
  switch (x.k) {
    case 'bool': return x
    case 'int': return new Sym('bool', x.c !== 0, `(not (= ${x.t} 0))`)
    case 'str': return new Sym('bool', x.c.length !== 0, `(not (= ${x.t} ""))`)
  }
}
export function truth(x) { tick(); return isSym(x) ? branch(tob(x)) : !!x }
export const not = (x) => { x = tob(x); return isSym(x) ? new Sym('bool', !x.c, x.t.startsWith('(not ') ? x.t.slice(5, -1) : `(not ${x.t})`) : !x }

const nat = {
  '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b,
  '&': (a, b) => a & b, '|': (a, b) => a | b, '^': (a, b) => a ^ b, '<<': (a, b) => a << b, '>>': (a, b) => a >> b, '>>>': (a, b) => a >>> b,
  '==': (a, b) => a == b, '!=': (a, b) => a != b, '===': (a, b) => a === b, '!==': (a, b) => a !== b,
  '<': (a, b) => a < b, '>': (a, b) => a > b, '<=': (a, b) => a <= b, '>=': (a, b) => a >= b,
}
const toint = (x) => (kind(x) === 'bool' ? (isSym(x) ? new Sym('int', x.c ? 1 : 0, `(ite ${x.t} 1 0)`) : x ? 1 : 0) : x)
const pow2 = (n) => Number.isSafeInteger(n) && n > 0 && Number.isInteger(Math.log2(n))
const isInt = (x) => kind(x) === 'int'

export function bin(op, l, r) {
  if (!isSym(l) && !isSym(r)) { if (typeof op === 'string' && nat[op]) return nat[op](l, r) }
  const c = () => nat[op](con(l), con(r))
  switch (op) {
    case '===': case '!==': case '==': case '!=': {
      const eq = op === '===' || op === '=='
      if (kind(l) !== kind(r) || kind(l) === undefined) {
        if ((op === '==' || op === '!=') && kind(l) && kind(r)) throw unsup('loose comparison of ' + kind(l) + ' and ' + kind(r))
        return !eq
      }
      if (kind(l) === 'int' && (!Number.isSafeInteger(con(l)) || !Number.isSafeInteger(con(r)))) return !eq
      const t = term(l) === term(r) ? 'true' : `(= ${term(l)} ${term(r)})`
      return new Sym('bool', c(), eq ? t : `(not ${t})`)
    }
    case '<': case '>': case '<=': case '>=': {
      l = toint(l); r = toint(r)
      if (!isInt(l) || !isInt(r)) throw unsup('comparison of ' + kind(l) + ' and ' + kind(r))
      for (const [x, y, sw] of [[l, r, 1], [r, l, 0]]) {
        if (x === Infinity) return sw ? op[0] === '>' : op[0] === '<'
        if (x === -Infinity) return sw ? op[0] === '<' : op[0] === '>'
        if (Number.isNaN(x)) return false
      }
      return new Sym('bool', c(), `(${op} ${term(l)} ${term(r)})`)
    }
    case '+':
      if (kind(l) === 'str' || kind(r) === 'str') {
        l = str(l); r = str(r)
        return new Sym('str', con(l) + con(r), `(str.++ ${term(l)} ${term(r)})`)
      }
  }
  l = toint(l); r = toint(r)
  if (!isInt(l) || !isInt(r)) throw unsup(`operation ${op} on ${kind(l)} and ${kind(r)}`)
  const mk = (t, w, z) => { const v = nat[op](con(l), con(r)); if (!Number.isSafeInteger(v)) throw unsup('inexact result of ' + op); return new Sym('int', v, t, w, z) }
  const nonneg = (x) => branch(bin('>=', x, 0))
  const mask = (x, n) => (wd(x) <= n ? mk(term(x), wd(x)) : mk(`(mod ${term(x)} ${2 ** n})`, n))
  switch (op) {
    case '+': {
      const n = wd(l) <= tz(r) || wd(r) <= tz(l) ? Math.max(wd(l), wd(r)) : Math.max(wd(l), wd(r)) + 1
      return mk(`(+ ${term(l)} ${term(r)})`, n <= 50 ? n : undefined, Math.min(tz(l), tz(r)))
    }
    case '-': return mk(`(- ${term(l)} ${term(r)})`)
    case '*':
      if (isSym(l) && isSym(r)) throw unsup('product of symbolic values')
      for (const [x, y] of [[l, r], [r, l]]) if (!isSym(y) && pow2(y) && wd(x) + Math.log2(y) <= 50) return mk(`(* ${term(x)} ${y})`, wd(x) + Math.log2(y), Math.min(31, tz(x) + Math.log2(y)))
      return mk(`(* ${term(l)} ${term(r)})`)
    case '%':
      if (isSym(r) || r <= 0 || !nonneg(l)) break
      return mk(`(mod ${term(l)} ${r})`, pow2(r) ? Math.log2(r) : undefined)
    case '/':
      if (isSym(r) || r <= 0) break
      if (!branch(bin('===', new Sym('int', ((con(l) % r) + r) % r, `(mod ${term(l)} ${r})`), 0))) break
      return mk(`(div ${term(l)} ${r})`)
    case '&':
      if (!isSym(r) && r >= 0 && r < 0x7fffffff && pow2(r + 1)) return mask(l, Math.log2(r + 1))
      if (!isSym(l) && l >= 0 && l < 0x7fffffff && pow2(l + 1)) return mask(r, Math.log2(l + 1))
      break
    case '<<':
      if (isSym(r) || r < 0 || r > 31) break
      return wd(l) + r <= 31 ? mk(`(* ${term(l)} ${2 ** r})`, wd(l) + r, tz(l) + r) : signed(mk(sgn(wd(l) + r <= 32 ? `(* ${term(l)} ${2 ** r})` : `(mod (* ${term(l)} ${2 ** r}) 4294967296)`), undefined, Math.min(31, tz(l) + r)))
    case '>>':
      if (isSym(r) || r < 0 || r > 31) break
      return wd(l) <= 31 ? mk(`(div ${term(l)} ${2 ** r})`, Math.max(0, wd(l) - r)) : mk(`(div ${sgn(`(mod ${term(l)} 4294967296)`)} ${2 ** r})`)
    case '>>>':
      if (isSym(r) || r < 0 || r > 31) break
      return mk(wd(l) <= 32 ? `(div ${term(l)} ${2 ** r})` : `(div (mod ${term(l)} 4294967296) ${2 ** r})`, Math.max(0, Math.min(32, wd(l)) - r))
  }
  if ('&|^'.includes(op)) {
    if (op !== '&') {
      // numbers without common bits are added
      for (const [x, y] of [[l, r], [r, l]]) {
        const sx = i32(x), sy = i32(y)
        if (sx && sy && wd(x) <= tz(y)) return signed(mk(`(+ ${term(x)} ${term(y)})`, wd(y) <= 31 ? Math.max(wd(x), wd(y)) : undefined, Math.min(tz(x), tz(y))))
      }
    }
    const f = { '&': 'bvand', '|': 'bvor', '^': 'bvxor' }[op]
    const bv = (x) => `((_ int2bv 32) (mod ${term(x)} 4294967296))`
    return signed(mk(sgn(`(bv2int (${f} ${bv(l)} ${bv(r)}))`)))
  }
  throw unsup('operation ' + op)
}
const wd = (x) => (isSym(x) ? x.w ?? Infinity : x >= 0 ? x.toString(2).length - (x === 0) : Infinity)
const tz = (x) => { if (isSym(x)) return x.z ?? 0; if (x === 0) return 31; let n = 0; while (n < 31 && Math.abs(x) % 2 ** (n + 1) === 0) n++; return n }
// i32: known to be a 32 bit signed number
const i32 = (x) => (isSym(x) ? wd(x) <= 31 || x.s === true : (x | 0) === x)
const signed = (x) => { x.s = true; return x }
const sgn = (t) => `(let ((q ${t})) (ite (>= q 2147483648) (- q 4294967296) q))`
export function str(x) {
  if (isSym(x)) {
    if (x.k === 'str') return x
    if (x.k === 'bool') return branch(x) ? 'true' : 'false'
    if (branch(bin('>=', x, 0))) return new Sym('str', String(x.c), `(str.from_int ${x.t})`)
    return new Sym('str', String(x.c), `(str.++ "-" (str.from_int (- ${x.t})))`)
  }
  if (x !== null && typeof x === 'object' && typeof x.toString === 'function') {
    return x.toString()
  }
  return String(x)
}
export function tmpl(s, v) {
  let out = s[0]
  v.forEach((x, i) => { out = bin('+', out, str(x)); if (s[i + 1] !== '') out = bin('+', out, s[i + 1]) })
  return out
}

// int makes a symbolic integer concrete: every value is a path of its own.
export function int(x) {
  if (!isSym(x)) return x
  if (x.k !== 'int') throw unsup('integer of ' + x.k)
  if (!branch(bin('>=', x, 0))) {
    for (let i = 1; ; i++) { if (i > 64) throw unsup('enumeration of a negative number'); if (branch(bin('===', x, -i))) return -i }
  }
  for (let i = 0; i < 40; i++) if (branch(bin('===', x, i))) return i
  let lo = 40, hi = 80
  while (!branch(bin('<', x, hi))) { lo = hi; hi *= 2; if (hi > 2 ** 40) throw unsup('enumeration of a large number') }
  while (hi - lo > 1) { const m = Math.floor((lo + hi) / 2); if (branch(bin('<', x, m))) hi = m; else lo = m }
  return lo
}

// key resolves a symbolic property name of an object.
export function key(o, k) {
  if (!isSym(k)) return k
  if (k.k === 'int') return int(k)
  if (k.k !== 'str') throw unsup('property ' + k.k)
  if (isSym(o)) throw unsup('property of a symbolic value')
  const seen = new Set()
  for (let p = o; p !== null && p !== undefined; p = Object.getPrototypeOf(p)) {
    for (const n of Object.getOwnPropertyNames(p)) {
      if (seen.has(n)) continue
      seen.add(n)
      if (branch(bin('===', k, n))) return n
    }
  }
  return ABSENT
}
const ABSENT = Symbol('absent')

// U8 is a byte array whose bytes may be symbolic.
export class U8 {
  constructor(a, off, len) {
    a = isSym(a) ? int(a) : a
    if (a === undefined) a = 0
    if (typeof a === 'number') { if (a < 0 || a > 1 << 24) throw new RangeError('Invalid typed array length: ' + a); this.buf = new Array(a).fill(0); this.off = 0; this.length = a }
    else if (a instanceof Buf) { this.buf = a.b; this.off = off === undefined ? 0 : int(off); this.length = len === undefined ? this.buf.length - this.off : int(len) }
    else { this.buf = Array.from(a, byte); this.off = 0; this.length = this.buf.length }
    tick(1)
  }
  static from(x) { return new U8(x) }
  static of(...x) { return new U8(x) }
  get byteLength() { return this.length }
  get byteOffset() { return this.off }
  get buffer() { return new Buf(this.buf) }
  at(i) { i = int(i); return this.rd(i < 0 ? i + this.length : i) }
  rd(i) { return i >= 0 && i < this.length ? this.buf[this.off + i] : undefined }
  wr(i, v) { if (i >= 0 && i < this.length) this.buf[this.off + i] = byte(v) }
  set(a, off = 0) {
    off = int(off)
    const src = [...a]
    if (off < 0 || off + src.length > this.length) throw new RangeError('offset is out of bounds')
    src.forEach((x, i) => this.wr(off + i, x))
  }
  rng(s, e) {
    s = s === undefined ? 0 : int(s); e = e === undefined ? this.length : int(e)
    if (s < 0) s = Math.max(0, this.length + s)
    if (e < 0) e = Math.max(0, this.length + e)
    s = Math.min(s, this.length); e = Math.max(s, Math.min(e, this.length))
    return [s, e]
  }
  subarray(s, e) { [s, e] = this.rng(s, e); const r = new U8(0); r.buf = this.buf; r.off = this.off + s; r.length = e - s; return r }
  slice(s, e) { return new U8([...this.subarray(s, e)]) }
  fill(v, s, e) { [s, e] = this.rng(s, e); for (let i = s; i < e; i++) this.wr(i, v); return this }
  map(fn) { return new U8([...this].map((x, i) => fn(x, i, this))) }
  forEach(fn) { [...this].forEach((x, i) => fn(x, i, this)) }
  every(fn) { for (let i = 0; i < this.length; i++) if (!truth(fn(this.rd(i), i, this))) return false; return true }
  some(fn) { for (let i = 0; i < this.length; i++) if (truth(fn(this.rd(i), i, this))) return true; return false }
  reduce(fn, ...init) { return [...this].reduce(fn, ...init) }
  entries() { return [...this].entries() }
  keys() { return [...this].keys() }
  values() { return [...this].values() }
  *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this.buf[this.off + i] }
}
const TAP = [...Object.getOwnPropertyNames(Object.getPrototypeOf(Uint8Array.prototype)), ...Object.getOwnPropertyNames(Uint8Array.prototype)]
Object.setPrototypeOf(U8.prototype, new Proxy(Object.create(null), { get: (_, p) => { if (typeof p === 'string' && p !== 'constructor' && TAP.includes(p)) throw unsup('Uint8Array.' + p); return p === Symbol.toStringTag ? 'Uint8Array' : undefined }, has: () => false }))
class Buf { constructor(b) { this.b = b; this.byteLength = b.length } }
const byte = (x) => (isSym(x) ? bin('&', x, 255) : Number(x) & 255)
const index = (k) => { if (isSym(k)) return int(k); const n = typeof k === 'string' ? Number(k) : k; return typeof n === 'number' && Number.isInteger(n) ? n : undefined }

// DV is a DataView on a U8's buffer.
export class DV {
  constructor(b, off = 0, len) { if (!(b instanceof Buf)) throw new TypeError('First argument to DataView constructor must be an ArrayBuffer'); this.u = new U8(b, off, len) }
  get byteLength() { return this.u.length }
  chk(o, n) { o = int(o); if (o < 0 || o + n > this.u.length) throw new RangeError('Offset is outside the bounds of the DataView'); return o }
  getUint8(o) { o = this.chk(o, 1); return this.u.rd(o) }
  setUint8(o, v) { o = this.chk(o, 1); this.u.wr(o, v) }
  getN(o, n, le) { o = this.chk(o, n); let r = 0; for (let i = 0; i < n; i++) r = bin('+', bin('*', r, 256), this.u.rd(le ? o + n - 1 - i : o + i)); return r }
  setN(o, n, v, le) {
    o = this.chk(o, n)
    for (let i = 0; i < n; i++) {
      const p = le ? o + i : o + n - 1 - i
      this.u.wr(p, isSym(v) ? new Sym('int', Math.floor(v.c / 256 ** i) & 255, `(mod (div ${v.t} ${256 ** i}) 256)`, 8) : Math.floor(v / 256 ** i) % 256)
    }
  }
  getUint16(o, le) { return this.getN(o, 2, le) }
  setUint16(o, v, le) { this.setN(o, 2, v, le) }
  getUint32(o, le) { return this.getN(o, 4, le) }
  setUint32(o, v, le) { this.setN(o, 4, v, le) }
  getInt32(o, le) { const r = this.getN(o, 4, le); return isSym(r) ? new Sym('int', r.c | 0, sgn(r.t)) : r | 0 }
  setInt32(o, v, le) { this.setN(o, 4, v, le) }
}

let reg, swv
// The operations the lowered code calls.
export const $ = {
  unsup: (m) => { throw unsup(m) },
  b: (op, l, r) => { tick(); return bin(op, l, r) },
  u: (op, x) => {
    tick()
    if (op === '!') return not(x)
    if (!isSym(x)) return op === '-' ? -x : op === '+' ? +x : ~x
    if (op === '-') return bin('-', 0, x)
    if (op === '~') return bin('-', -1, toint(x))
    return toint(x)
  },
  t: truth,
  p: (x) => { reg = x; return truth(x) },
  n: (x) => { reg = x; return x === null || x === undefined },
  r: () => reg,
  ty: (x) => (isSym(x) ? { int: 'number', bool: 'boolean', str: 'string' }[x.k] : typeof x),
  io: (l, r) => (isSym(l) ? false : l instanceof r),
  in: (k, o) => (isSym(k) ? key(o, k) !== ABSENT : k in o),
  sw: (x) => { swv = x; return true },
  sc: (x) => truth(bin('===', swv, x)),
  tm: tmpl,
  get: (o, k) => {
    tick()
    if (o instanceof U8) { const i = index(k); return i !== undefined ? o.rd(i) : o[k] }
    if (isSym(o)) { if (o.k !== 'str') return undefined; throw unsup('character of a symbolic string') }
    const n = key(o, k)
    return n === ABSENT ? undefined : o[n]
  },
  set: (o, k, v) => {
    tick()
    if (o instanceof U8) { const i = index(k); if (i !== undefined) { o.wr(i, v); return v } }
    if (isSym(k)) {
      const n = key(o, k)
      if (n === ABSENT) throw unsup('new property with a symbolic name')
      o[n] = v
      return v
    }
    o[k] = v
    return v
  },
  upd: (o, k, op, v) => $.set(o, k, bin(op, $.get(o, k), v)),
  del: (o, k) => { const n = key(o, k); return n === ABSENT ? true : delete o[n] },
  ck: (o, k, args) => {
    const n = key(o, k)
    if (n === ABSENT) throw new TypeError('not a function')
    return o[n](...args)
  },
  fn: (name) => { S.fns.add(name); tick() },
}

// SymError keeps a symbolic message.
class SymError extends Error {
  constructor(m, o) { super(isSym(m) ? m.c : m, o); if (isSym(m)) Object.defineProperty(this, 'message', { value: m, writable: true, configurable: true, enumerable: false }) }
  toString() { return !isSym(this.message) ? super.toString() : truth(bin('===', this.message, '')) ? this.name : tmpl([this.name + ': ', ''], [this.message]) }
  static [Symbol.hasInstance](x) { return this === SymError ? Error[Symbol.hasInstance].call(Error, x) : Function.prototype[Symbol.hasInstance].call(this, x) }
}
const SymString = function (...a) { return a.length ? str(a[0]) : '' }
SymString.fromCharCode = String.fromCharCode
SymString.raw = String.raw
SymString.prototype = String.prototype
const SymNumber = function (x) { return isSym(x) ? toint(x) : Number(x) }
Object.setPrototypeOf(SymNumber, Number)
for (const n of ['isInteger', 'isSafeInteger', 'isFinite']) SymNumber[n] = (x) => (isSym(x) ? x.k === 'int' : Number[n](x))
SymNumber.isNaN = (x) => (isSym(x) ? false : Number.isNaN(x))
SymNumber.prototype = Number.prototype
const SymBoolean = function (x) { return isSym(x) ? tob(x) : Boolean(x) }
SymBoolean.prototype = Boolean.prototype
const SymMath = Object.create(Math)
SymMath.min = (...a) => a.reduce((x, y) => (truth(bin('<=', x, y)) ? x : y))
SymMath.max = (...a) => a.reduce((x, y) => (truth(bin('>=', x, y)) ? x : y))
for (const n of ['floor', 'trunc', 'ceil', 'round']) SymMath[n] = (x) => (isSym(x) ? x : Math[n](x))

const same = (x, y) => (x === y || (isSym(x) || isSym(y) ? truth(bin('===', x, y)) : x !== x && y !== y))
// SymMap and SymSet compare symbolic keys by value.
class SymMap {
  constructor(it) { this.m = new Map(); this.s = 0; if (it) for (const [k, v] of it) this.set(k, v) }
  f(k) {
    tick()
    if (!isSym(k) && this.s === 0) return this.m.has(k) ? k : ABSENT
    for (const x of this.m.keys()) if (same(x, k)) return x
    return ABSENT
  }
  get(k) { const x = this.f(k); return x === ABSENT ? undefined : this.m.get(x) }
  has(k) { return this.f(k) !== ABSENT }
  set(k, v) { const x = this.f(k); if (x === ABSENT && isSym(k)) this.s++; this.m.set(x === ABSENT ? k : x, v); return this }
  delete(k) { const x = this.f(k); if (x === ABSENT) return false; if (isSym(x)) this.s--; return this.m.delete(x) }
  clear() { this.m.clear(); this.s = 0 }
  get size() { return this.m.size }
  forEach(fn, t) { this.m.forEach((v, k) => fn.call(t, v, k, this)) }
  keys() { return this.m.keys() }
  values() { return this.m.values() }
  entries() { return this.m.entries() }
  [Symbol.iterator]() { return this.m[Symbol.iterator]() }
}
class SymSet extends SymMap {
  constructor(it) { super(); if (it) for (const k of it) this.add(k) }
  add(k) { this.set(k, k); return this }
  [Symbol.iterator]() { return this.m.keys() }
  values() { return this.m.keys() }
  entries() { return this.m.entries() }
}
const SymObject = function (x) { return Object(x) }
Object.setPrototypeOf(SymObject, Object)
SymObject.prototype = Object.prototype
SymObject.hasOwn = (o, k) => own(o, k)
SymObject.is = (x, y) => same(x, y)
const own = (o, k) => {
  if (!isSym(k)) return hasOwn.call(o, k)
  if (k.k === 'int') k = int(k)
  if (!isSym(k)) return hasOwn.call(o, k)
  for (const n of Object.getOwnPropertyNames(o)) if (truth(bin('===', k, n))) return true
  return false
}
const hasOwn = Object.prototype.hasOwnProperty

// patch makes the built-ins that compare values or take predicates see through symbolic values.
let patched = false
export function patch() {
  if (patched) return
  patched = true
  const A = Array.prototype
  const def = (o, n, fn) => Object.defineProperty(o, n, { value: fn, writable: true, configurable: true, enumerable: false })
  for (const n of ['find', 'findIndex', 'findLast', 'findLastIndex', 'filter', 'some', 'every']) {
    const old = A[n]
    def(A, n, function (fn, t) { return old.call(this, function (...a) { const r = fn.apply(t, a); return isSym(r) ? truth(r) : r }) })
  }
  const symIn = (a, x) => { if (isSym(x)) return true; for (let i = 0; i < a.length; i++) if (isSym(a[i])) return true; return false }
  for (const [n, res] of [['includes', (i) => i >= 0], ['indexOf', (i) => i]]) {
    const old = A[n]
    def(A, n, function (x, from) {
      if (x === undefined || typeof x === 'symbol' || !symIn(this, x)) return old.apply(this, arguments)
      for (let i = from || 0; i < this.length; i++) if (same(this[i], x)) return res(i)
      return res(-1)
    })
  }
  def(Object.prototype, 'hasOwnProperty', function (k) { return isSym(k) ? own(this, k) : hasOwn.call(this, k) })
}
const conc = (x, what) => { if (isSym(x)) throw unsup(what); return x }
class SymTextEncoder { encode(s = '') { return new U8(new TextEncoder().encode(conc(s, 'encoding of a symbolic string'))) } }
class SymTextDecoder {
  constructor(...a) { this.d = new TextDecoder(...a) }
  decode(u) { return this.d.decode(Uint8Array.from(u ? [...u] : [], (x) => conc(x, 'decoding of symbolic bytes'))) }
}
const refuse = (n) => new Proxy(function () {}, { get: (_, p) => { throw unsup(n + '.' + String(p)) }, apply: () => { throw unsup(n) }, construct: () => { throw unsup(n) } })
export const GLOBALS = {
  Uint8Array: U8, DataView: DV, Error: SymError, String: SymString, Number: SymNumber, Boolean: SymBoolean, Math: SymMath, Map: SymMap, Set: SymSet, Object: SymObject,
  TextEncoder: SymTextEncoder, TextDecoder: SymTextDecoder, Buffer: refuse('Buffer'), structuredClone: refuse('structuredClone'), ArrayBuffer: refuse('ArrayBuffer'),
  Uint32Array: refuse('Uint32Array'), Uint16Array: refuse('Uint16Array'), WeakMap, parseInt: (x, r) => (isSym(x) ? toint(x) : parseInt(x, r)),
}
