// event-iterator v2: an async iterable of pushed events.
export class EventIterator {
  constructor(private listen: any) {}
  [Symbol.asyncIterator]() {
    const q: any[] = [], pulls: any[] = []
    let stopped = false, remove: any
    const off = () => { if (remove) { const r = remove; remove = undefined; r() } }
    const queue = {
      push: (value: any) => {
        if (stopped) return
        if (pulls.length) pulls.shift().resolve({ value, done: false })
        else q.push(Promise.resolve({ value, done: false }))
      },
      stop: () => {
        if (stopped) return
        stopped = true
        off()
        for (const p of pulls) p.resolve({ value: undefined, done: true })
        pulls.length = 0
      },
      fail: (error: any) => {
        if (stopped) return
        stopped = true
        off()
        if (pulls.length) { for (const p of pulls) p.reject(error); pulls.length = 0 }
        else { const r = Promise.reject(error); r.catch(() => {}); q.push(r) }
      },
    }
    remove = this.listen(queue)
    return {
      next: () => {
        const r = q.shift()
        if (r) return r
        if (stopped) return Promise.resolve({ value: undefined, done: true })
        return new Promise((resolve, reject) => { pulls.push({ resolve, reject }) })
      },
      return: () => { queue.stop(); return Promise.resolve({ value: undefined, done: true }) },
    }
  }
}
