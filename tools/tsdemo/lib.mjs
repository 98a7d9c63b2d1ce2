// Loads the TypeScript sources of the repository (cwd) with stand-ins for the npm packages it imports.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const ts = createRequire('/opt/veriftools/node/node_modules/typescript/package.json')('typescript')
const here = path.dirname(fileURLToPath(import.meta.url)), repo = process.cwd()
const mods = new Map()
export const globals = { $: { unsup: (m) => { throw new Error(m) } } }
const texts = new Map()
function resolve(spec, from) {
  let p
  if (spec.startsWith('gen:')) return spec
  if (spec === 'starpc') p = path.join(repo, 'srpc/index.ts')
  else if (['hx', 'env', 'msgs', 'schema'].includes(spec)) p = path.join(here, spec + '.ts')
  else if (spec.startsWith('@repo/')) p = path.join(repo, spec.slice(6))
  else if (spec.startsWith('.')) p = path.resolve(path.dirname(from), spec)
  else p = path.join(here, 'stubs', spec.replaceAll('/', '__') + '.ts')
  for (const c of [p, p.replace(/\.js$/, '.ts'), p + '.ts', path.join(p, 'index.ts')]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c
  throw new Error('no module ' + spec)
}
export function load(spec, from = here) {
  const file = resolve(spec, from)
  if (mods.has(file)) return mods.get(file).exports
  const m = { exports: {} }
  mods.set(file, m)
  const js = ts.transpileModule(texts.get(file) ?? fs.readFileSync(file, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText
  const names = Object.keys(globals)
  new Function('require', 'exports', 'module', ...names, js)((s) => load(s, file), m.exports, m, ...names.map((n) => globals[n]))
  return m.exports
}
// generate runs the generator of the repository; the files it gives are loaded as gen:<name>.
export function generate() {
  const { out, schema } = load('@aptre/protobuf-es-lite/protoplugin/ecmascript').makeSchema(load('schema').files)
  load('@repo/cmd/protoc-gen-es-starpc/typescript.ts').generateTs(schema)
  for (const [k, f] of out) texts.set('gen:' + k, f.text())
}
// fake gives the sources virtual time, message ports and broadcast channels.
export function fake() {
  const env = load('env')
  Object.assign(globals, { setTimeout: env.setTimeout, clearTimeout: env.clearTimeout, Date: env.Date0, MessagePort: env.MessagePort, MessageChannel: env.MessageChannel, BroadcastChannel: env.BroadcastChannel })
  return env
}
export const settle = () => new Promise((r) => setTimeout(r, 30))
export async function advance(env, ms) {
  const to = env.env.now + ms
  for (;;) { const t = env.due(to); if (!t) break; t.fn(); await settle() }
  env.env.now = to
  await settle()
}
export function check(c, m) { if (!c) { console.error('FAILED: ' + m); process.exit(1) } }
process.on('unhandledRejection', (e) => { console.error('FAILED: unhandled rejection', e); process.exit(1) })
const guard = setTimeout(() => { console.error('FAILED: timeout'); process.exit(1) }, 60000)
export function done() { clearTimeout(guard); console.log('ok'); process.exit(0) }
