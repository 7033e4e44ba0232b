export default async function first<T>(source: AsyncIterable<T>): Promise<T | undefined> {
  for await (const v of source) return v
  return undefined
}
