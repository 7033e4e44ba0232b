// Stand-in for it-pipe 3.0 with it-merge 3.0 (which waits until an item was taken).
import { pushable } from './it-pushable.js'

const isAsync = (o: any) => o?.[Symbol.asyncIterator] != null
const isSync = (o: any) => o?.[Symbol.iterator] != null
const isDuplex = (o: any) => o != null && o.sink != null && o.source != null

async function* merge(...sources: any[]): AsyncGenerator<any> {
  type Item = { value?: any; end?: boolean; err?: any; taken: () => void }
  const queue: Item[] = []
  let wake: (() => void) | null = null
  let stopped = false
  const put = (it: Partial<Item>) =>
    new Promise<void>((resolve) => {
      queue.push({ ...it, taken: resolve })
      wake?.()
    })
  void Promise.all(
    sources.map(async (source) => {
      for await (const item of source) {
        await put({ value: item })
        if (stopped) throw new Error('aborted')
      }
    }),
  ).then(
    () => put({ end: true }),
    (err) => put({ err }),
  )
  try {
    for (;;) {
      while (!queue.length) {
        await new Promise<void>((resolve) => (wake = resolve))
        wake = null
      }
      const it = queue.shift()!
      if (it.err !== undefined) {
        it.taken()
        throw it.err
      }
      if (it.end) {
        it.taken()
        return
      }
      yield it.value
      it.taken()
    }
  } finally {
    stopped = true
    for (const it of queue.splice(0)) it.taken()
  }
}

const duplexPipelineFn = (duplex: any) => (source: any) => {
  const p = duplex.sink(source)
  if (p?.then != null) {
    const stream = pushable({ objectMode: true })
    p.then(
      () => {
        stream.end()
      },
      (err: any) => {
        stream.end(err)
      },
    )
    const src = duplex.source
    if (!isAsync(src) && !isSync(src)) throw new Error('Unknown duplex source type - must be iterable')
    const wrap = async function* () {
      yield* src
      stream.end()
    }
    return merge(stream, wrap())
  }
  return duplex.source
}

export function pipe(first: any, ...rest: any[]): any {
  if (first == null) throw new Error('Empty pipeline')
  if (isDuplex(first)) {
    const duplex = first
    first = () => duplex.source
  } else if (isSync(first) || isAsync(first)) {
    const source = first
    first = () => source
  }
  const fns = [first, ...rest]
  if (fns.length > 1 && isDuplex(fns[fns.length - 1])) {
    fns[fns.length - 1] = fns[fns.length - 1].sink
  }
  for (let i = 1; i < fns.length - 1; i++) {
    if (isDuplex(fns[i])) fns[i] = duplexPipelineFn(fns[i])
  }
  let res: any
  while (fns.length > 0) res = fns.shift()(res)
  return res
}
