export default async function first(source: any) {
  for await (const x of source) return x
  return undefined
}
