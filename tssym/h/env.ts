// The environment of the code under test: virtual time, message ports and broadcast channels whose deliveries
// the harness controls.
export const env: any = { now: 1000, timers: [], seq: 0, channels: [] }

export function setTimeout(fn: any, ms: any = 0, ...args: any[]) {
  const t: any = {
    at: 0, seq: 0, fn: () => fn(...args), every: null,
    unref: () => t, ref: () => t, hasRef: () => true,
    refresh: () => { clearTimeout(t); t.at = env.now + (ms > 0 ? ms : 0); t.seq = env.seq++; env.timers.push(t); return t },
  }
  return t.refresh()
}
export function clearTimeout(t: any) {
  env.timers = env.timers.filter((x: any) => x !== t)
}
export function setInterval(fn: any, ms: any = 1, ...args: any[]) {
  const t = setTimeout(fn, ms > 0 ? ms : 1, ...args)
  t.every = true
  return t
}
export const clearInterval = clearTimeout
export class Date0 {
  at = env.now
  static now() { return env.now }
  getTime() { return this.at }
  valueOf() { return this.at }
}
export const performance = { now: () => env.now }
// due takes the next timer due by the time given.
export function due(at: any): any {
  let best: any = null
  for (const t of env.timers) {
    if (t.at > at) continue
    if (best === null || t.at < best.at) best = t
    else if (best.at >= t.at && t.seq < best.seq) best = t
  }
  if (best) {
    clearTimeout(best)
    env.now = best.at
    if (best.every) best.refresh()
  }
  return best
}

export class Ev { constructor(public data: any) {} }

class Target {
  listeners: any[] = []
  _on: any = null
  inbox: any[] = []
  started = false
  closed = false
  addEventListener(type: any, fn: any) { if (type === 'message' && !this.listeners.includes(fn)) this.listeners.push(fn) }
  removeEventListener(type: any, fn: any) { this.listeners = this.listeners.filter((x: any) => x !== fn) }
  // deliver hands over the oldest message and reports whether there was one.
  deliver(): boolean {
    if (!this.started || this.closed || this.inbox.length === 0) return false
    const ev = new Ev(this.inbox.shift())
    if (this._on) this._on(ev)
    for (const l of [...this.listeners]) l(ev)
    return true
  }
}
const copy = (m: any) => (m !== null && typeof m === 'object' && Object.getPrototypeOf(m) === Object.prototype ? { ...m } : m)
export class MessagePort extends Target {
  peer: any
  sent: any[] = []
  get onmessage() { return this._on }
  set onmessage(fn: any) { this._on = fn; this.started = true }
  postMessage(m: any) {
    if (this.closed) return
    this.sent.push(copy(m))
    if (this.peer && !this.peer.closed) this.peer.inbox.push(copy(m))
  }
  start() { this.started = true }
  close() { this.closed = true }
}
export class MessageChannel {
  port1 = new MessagePort()
  port2 = new MessagePort()
  constructor() { this.port1.peer = this.port2; this.port2.peer = this.port1 }
}
export class BroadcastChannel extends Target {
  name: string
  sent: any[] = []
  constructor(name: string) { super(); this.name = name; this.started = true; env.channels.push(this) }
  get onmessage() { return this._on }
  set onmessage(fn: any) { this._on = fn }
  postMessage(m: any) {
    if (this.closed) { const e: any = new Error('BroadcastChannel is closed.'); e.name = 'InvalidStateError'; throw e }
    this.sent.push(copy(m))
    for (const c of env.channels) if (c !== this && c.name === this.name && !c.closed) c.inbox.push(copy(m))
  }
  close() { this.closed = true }
}
