// Stand-in for event-iterator 2.0.
type Queue<T> = { push: (v: T) => void; stop: () => void; fail: (e: Error) => void }
export class EventIterator<T> implements AsyncIterable<T> {
  constructor(private listen: (q: Queue<T>) => void | (() => void)) {}
  [Symbol.asyncIterator](): AsyncIterator<T> {
    const items: T[] = []
    const waiting: { resolve: (v: any) => void; reject: (e: any) => void }[] = []
    let stopped = false
    let remove: void | (() => void)
    let pendingErr: Error | undefined
    const cleanup = () => {
      if (remove) {
        const r = remove
        remove = undefined
        r()
      }
    }
    remove = this.listen({
      push: (v) => {
        if (stopped) return
        if (waiting.length) waiting.shift()!.resolve({ value: v, done: false })
        else items.push(v)
      },
      stop: () => {
        if (stopped) return
        stopped = true
        cleanup()
        for (const w of waiting.splice(0)) w.resolve({ value: undefined, done: true })
      },
      fail: (e) => {
        if (stopped) return
        stopped = true
        cleanup()
        if (waiting.length) waiting.splice(0).forEach((w) => w.reject(e))
        else pendingErr = e
      },
    })
    return {
      next: () => {
        if (items.length) return Promise.resolve({ value: items.shift()!, done: false })
        if (pendingErr) {
          const e = pendingErr
          pendingErr = undefined
          return Promise.reject(e)
        }
        if (stopped) return Promise.resolve({ value: undefined as any, done: true })
        return new Promise((resolve, reject) => waiting.push({ resolve, reject }))
      },
      return: () => {
        stopped = true
        items.length = 0
        cleanup()
        return Promise.resolve({ value: undefined as any, done: true })
      },
    }
  }
}
