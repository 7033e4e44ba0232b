// Stand-in for it-pushable 3.2 (an unbounded queue with an end).
// As there: end(err) drops what was queued, push after the end is ignored.
type Next = { done?: boolean; value?: any; error?: any }
export interface Pushable<T> extends AsyncGenerator<T, void, unknown> {
  push(value: T): this
  end(err?: Error): this
  readonly readableLength: number
}
export const pushStats = { afterEnd: 0 }
export function pushable<T = any>(options: any = {}): Pushable<T> {
  let buffer: Next[] = []
  let onNext: ((n: Next) => any) | null = null
  let ended = false
  const getNext = () => {
    const next = buffer.shift()
    if (next == null) return { done: true, value: undefined }
    if (next.error != null) throw next.error
    return { done: next.done === true, value: next.value }
  }
  const bufferNext = (n: Next) => {
    if (onNext != null) return onNext(n)
    buffer.push(n)
    return p
  }
  const bufferError = (err: any) => {
    buffer = []
    return bufferNext({ error: err })
  }
  const p: any = {
    [Symbol.asyncIterator]() {
      return this
    },
    next: async () => {
      if (buffer.length) return getNext()
      if (ended) return { done: true, value: undefined }
      return await new Promise((resolve, reject) => {
        onNext = (n: Next) => {
          onNext = null
          buffer.push(n)
          try {
            resolve(getNext())
          } catch (err) {
            reject(err)
          }
          return p
        }
      })
    },
    push: (value: T) => {
      if (ended) {
        pushStats.afterEnd++
        return p
      }
      if (options?.objectMode !== true && (value as any)?.byteLength == null) {
        throw new Error('objectMode was not true but tried to push non-Uint8Array value')
      }
      return bufferNext({ done: false, value })
    },
    end: (err?: any) => {
      if (ended) return p
      ended = true
      return err != null ? bufferError(err) : bufferNext({ done: true })
    },
    return: () => {
      buffer = []
      p.end()
      return Promise.resolve({ done: true, value: undefined })
    },
    throw: (err: any) => {
      p.end(err)
      return Promise.resolve({ done: true, value: undefined })
    },
    get readableLength() {
      return buffer.length
    },
  }
  return p
}
