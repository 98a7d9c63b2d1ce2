// Records the parameters, the muxer itself is given by the harness.
export const created: any[] = []
export const hook: any = { factory: null }
export const yamux = (params: any) => (components: any) => ({
  createStreamMuxer: (init: any) => { const m: any = { params, init, streams: [], sink: async () => {}, source: (async function* () {})(), close: () => { m.closed = true }, abort: (e: any) => { m.aborted = e }, newStream: async () => { throw new Error('no stream') } }; created.push(m); return hook.factory ? hook.factory.createStreamMuxer(init) : m },
})
