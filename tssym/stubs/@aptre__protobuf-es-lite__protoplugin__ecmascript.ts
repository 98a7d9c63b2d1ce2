// The parts of the plugin framework that print files.
declare const $: any
export const createImportSymbol = (id: string, from: string): any => ({ kind: 'es_symbol', id, from })
const files = (f: any): any => {
  const imports = new Map<string, string>()
  const used = new Map<string, string>()
  let body = ''
  const symbol = (s: any): string => {
    const k = s.from + '#' + s.id
    let n = imports.get(k)
    if (n === undefined) {
      n = s.id
      for (let i = 1; used.has(n!) && used.get(n!) !== k; i++) n = s.id + '$' + i
      imports.set(k, n!)
      used.set(n!, k)
    }
    return n!
  }
  const show = (x: any): string => {
    if (Array.isArray(x)) return x.map(show).join('')
    if (typeof x === 'string') return x
    if (typeof x === 'number' || typeof x === 'boolean' || typeof x === 'bigint') return String(x)
    if (x && typeof x === 'object') {
      if (x.kind === 'es_symbol') return symbol(x)
      if (x.kind === 'message' || x.kind === 'enum') return symbol({ id: x.name, from: x.from })
      if (x.kind === 'es_text') return x.text
    }
    throw $.unsup('stub: printing ' + typeof x)
  }
  const print = (...a: any[]) => {
    if (a.length > 0 && Array.isArray(a[0]) && 'raw' in a[0]) { body += a[0].map((s: string, i: number) => s + (i + 1 < a.length ? show(a[i + 1]) : '')).join('') + '\n'; return }
    body += a.map(show).join('') + '\n'
  }
  const own: any = {
    print,
    preamble: () => {},
    string: (s: string) => ({ kind: 'es_text', text: JSON.stringify(s) }),
    jsDoc: (d: any, indent = '') => ({ kind: 'es_text', text: indent + '/** */' }),
    exportDecl: (decl: string, name: string) => ({ kind: 'es_text', text: 'export ' + decl + ' ' + name }),
    import: (a: any, from?: string) => (typeof a === 'string' ? createImportSymbol(a, from!) : { kind: 'es_symbol', id: a.name, from: a.from }),
    export: (decl: string, name: string) => ({ kind: 'es_text', text: 'export ' + decl + ' ' + name }),
    array: (x: any[], sep: string) => x.map((y, i) => (i ? [sep, y] : [y])),
  }
  f.text = () => [...imports].map(([k, n]) => { const [from, id] = k.split('#'); return `import { ${id}${id === n ? '' : ' as ' + n} } from ${JSON.stringify(from)}` }).join('\n') + '\n' + body
  return new Proxy(own, { get: (o, k) => (k in o ? o[k] : $.unsup('stub: GeneratedFile.' + String(k))) })
}
// makeSchema is the input of a generator: generated files are recorded.
export function makeSchema(protoFiles: any[]): any {
  const out = new Map<string, any>()
  const own: any = {
    files: protoFiles,
    allFiles: protoFiles,
    targets: ['ts'],
    runtime: { MethodKind: createImportSymbol('MethodKind', '@aptre/protobuf-es-lite'), MethodIdempotency: createImportSymbol('MethodIdempotency', '@aptre/protobuf-es-lite') },
    generateFile: (name: string) => { const f: any = {}; out.set(name, f); return files(f) },
    typesInFile: (f: any) => f.messages ?? [],
  }
  return { out, schema: new Proxy(own, { get: (o, k) => (k in o ? o[k] : $.unsup('stub: Schema.' + String(k))) }) }
}
