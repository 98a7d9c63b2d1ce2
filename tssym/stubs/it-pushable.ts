// it-pushable v3: an async iterable queue with push and end.
export function pushable(options: any = {}) {
  let buffer: any[] = []
  let onNext: any = null
  let ended = false
  let self: any
  let told = false
  const finished = (err?: any) => { if (!told) { told = true; if (options.onEnd) options.onEnd(err) } }
  const take = () => {
    const next = buffer.shift()
    if (next.error != null) { finished(next.error); throw next.error }
    if (next.done) finished()
    return { done: next.done === true, value: next.done ? undefined : next.value }
  }
  const put = (next: any) => {
    if (onNext !== null) return onNext(next)
    buffer.push(next)
    return self
  }
  const putErr = (err: any) => {
    buffer = []
    if (onNext !== null) return onNext({ error: err })
    buffer.push({ error: err })
    return self
  }
  const push = (value: any) => {
    if (ended) return self
    if (options.objectMode !== true && value?.byteLength == null) throw new Error('objectMode was not true but tried to push non-Uint8Array value')
    return put({ done: false, value })
  }
  const end = (err?: any) => {
    if (ended) return self
    ended = true
    return err != null ? putErr(err) : put({ done: true })
  }
  self = {
    [Symbol.asyncIterator]() { return this },
    next: async () => {
      if (buffer.length > 0) return take()
      if (ended) return { done: true, value: undefined }
      return await new Promise((resolve, reject) => {
        onNext = (next: any) => {
          onNext = null
          buffer.push(next)
          try { resolve(take()) } catch (err) { reject(err) }
          return self
        }
      })
    },
    return: () => { buffer = []; end(); finished(); return { done: true, value: undefined } },
    throw: (err: any) => { end(err); finished(err); return { done: true, value: undefined } },
    push, end,
    get readableLength() { return buffer.length },
  }
  return self
}
// pushableV yields everything waiting at once.
export function pushableV(options: any = {}) {
  const p = pushable({ ...options })
  const next = p.next
  let pending: any = null
  p.next = async () => {
    if (pending) { const x = pending; pending = null; return x() }
    const first = await next()
    if (first.done) return first
    const value = [first.value]
    while (p.readableLength > 0) {
      try {
        const x = await next()
        if (x.done) { pending = () => x; break }
        value.push(x.value)
      } catch (e) { pending = () => { throw e }; break }
    }
    return { done: false, value }
  }
  return p
}
