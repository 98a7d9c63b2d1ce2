// it-pipe v3 (with it-merge).
import { pushable } from 'it-pushable'
const isAsync = (o: any) => o?.[Symbol.asyncIterator] != null
const isSyncIt = (o: any) => o?.[Symbol.iterator] != null
const isDuplex = (o: any) => o != null && o.sink != null && o.source != null
const isPromise = (o: any) => o?.then != null

async function* merge(...sources: any[]) {
  const output = pushable({ objectMode: true })
  Promise.resolve().then(async () => {
    try {
      await Promise.all(sources.map(async (source) => { for await (const item of source) output.push(item) }))
      output.end()
    } catch (err) { output.end(err) }
  })
  yield* output
}
const duplexFn = (duplex: any) => (source: any) => {
  const p = duplex.sink(source)
  if (isPromise(p)) {
    const stream = pushable({ objectMode: true })
    p.then(() => { stream.end() }, (err: any) => { stream.end(err) })
    const src = duplex.source
    if (!isAsync(src) && !isSyncIt(src)) throw new Error('Unknown duplex source type - must be Iterable or AsyncIterable')
    const wrap = async function* () { yield* src; stream.end() }
    return merge(stream, wrap())
  }
  return duplex.source
}
export function pipe(first: any, ...rest: any[]) {
  if (first == null) throw new Error('Empty pipeline')
  if (isDuplex(first)) { const d = first; first = () => d.source }
  else if (isSyncIt(first) || isAsync(first)) { const s = first; first = () => s }
  const fns = [first, ...rest]
  if (fns.length > 1 && isDuplex(fns[fns.length - 1])) fns[fns.length - 1] = fns[fns.length - 1].sink
  if (fns.length > 2) for (let i = 1; i < fns.length - 1; i++) if (isDuplex(fns[i])) fns[i] = duplexFn(fns[i])
  let res: any
  for (const fn of fns) res = fn(res)
  return res
}
