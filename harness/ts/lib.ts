// Random numbers, schedule, transports and monitors of the TypeScript checks.
import { Uint8ArrayList, isUint8ArrayList } from 'uint8arraylist'
import { pushable } from 'it-pushable'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { ChannelStream } from '@repo/srpc/channel.ts'
import { StreamConn } from '@repo/srpc/conn.ts'
import { createHash } from 'node:crypto'

export class Rng {
  private s: number
  constructor(...seeds: (number | string)[]) {
    const h = createHash('sha256').update(seeds.join('|')).digest()
    this.s = h.readUInt32LE(0)
  }
  u32(): number {
    this.s = (this.s + 0x6d2b79f5) | 0
    let t = Math.imul(this.s ^ (this.s >>> 15), 1 | this.s)
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t
    return (t ^ (t >>> 14)) >>> 0
  }
  int(n: number): number {
    return n <= 0 ? 0 : this.u32() % n
  }
  range(a: number, b: number): number {
    return a + this.int(b - a + 1)
  }
  p(x: number): boolean {
    return this.u32() / 4294967296 < x
  }
  pick<T>(l: readonly T[]): T {
    return l[this.int(l.length)]
  }
  bytes(n: number): Uint8Array {
    const b = new Uint8Array(n)
    for (let i = 0; i < n; i++) b[i] = this.u32() & 255
    return b
  }
  shuffle<T>(l: T[]): T[] {
    for (let i = l.length - 1; i > 0; i--) {
      const j = this.int(i + 1)
      ;[l[i], l[j]] = [l[j], l[i]]
    }
    return l
  }
}

export const immediate = () => new Promise<void>((r) => setImmediate(r))

// Sched knows if anything of the harness is still to happen.
export class Sched {
  pending = 0
  // external: events may come from outside of this thread's queues.
  external = false
  private last = Date.now()
  touch() {
    this.last = Date.now()
  }
  async pause(n: number) {
    if (n <= 0) return
    this.pending++
    try {
      for (let i = 0; i < n; i++) await immediate()
    } finally {
      this.pending--
    }
  }
  // idle resolves once nothing more can happen.
  async idle(stop: () => boolean, quiet = 20000): Promise<void> {
    let rounds = 0
    let turns = 0
    this.touch()
    while (!stop()) {
      if (this.external) {
        await new Promise((r) => setTimeout(r, 1))
        turns++
        if (this.pending > 0) {
          this.touch()
          turns = 0
        }
        if (Date.now() - this.last > quiet && turns > Math.min(quiet, 5000) / 10) return
      } else {
        await immediate()
        rounds = this.pending > 0 ? 0 : rounds + 1
        if (rounds > 8) return
      }
    }
  }
  // until waits for cond: false if nothing can happen any more and it does not hold.
  // (What became true once counts: a thing which starts later is not awaited.)
  async until(cond: () => boolean, quiet?: number): Promise<boolean> {
    let ok = false
    if (!this.external) await immediate()
    await this.idle(() => (ok = cond()), quiet)
    return ok || cond()
  }
  // settle waits until p settled (true) or nothing can happen any more (false).
  async settle(p: Promise<any>, quiet?: number): Promise<boolean> {
    let done = false
    const q = p.then(
      () => (done = true),
      () => (done = true),
    )
    await Promise.race([q, this.idle(() => done, quiet)])
    if (!done) await immediate()
    return done
  }
}

export class Gate {
  private resolve!: () => void
  open = false
  wait = new Promise<void>((r) => (this.resolve = r))
  release() {
    this.open = true
    this.resolve()
  }
}

export const hex = (b: Uint8Array | undefined) =>
  b === undefined ? 'undefined' : b.length > 24 ? Buffer.from(b.subarray(0, 24)).toString('hex') + '..(' + b.length + ')' : Buffer.from(b).toString('hex')
export const same = (a: Uint8Array, b: Uint8Array) => Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0
export const errText = (e: any): string => (e instanceof Error ? e.message : typeof e === 'string' ? e : e?.message ?? String(e))

// ---- half pipes --------------------------------------------------------

export interface Cut {
  // after: number of bytes (or packets) delivered before the end
  after: number
  error?: string
}
export interface PairOpts {
  rng: Rng
  sched: Sched
  // packets: items are passed as they are, otherwise bytes are cut anew
  packets: boolean
  maxPause: number
  lists?: boolean
}

class Half {
  queue: Uint8Array[] = []
  eof: { err?: Error } | null = null
  out = pushable<any>({ objectMode: true })
  ended = false
  cut?: Cut
  count = 0
  log: Uint8Array[] = []
  private running = false
  constructor(private o: PairOpts) {}
  write(b: Uint8Array) {
    if (this.eof || this.ended) return
    this.queue.push(b)
    this.run()
  }
  end(err?: Error) {
    if (this.eof) return
    this.eof = { err }
    this.run()
  }
  // stopRead: the reader is gone.
  stopRead(err?: Error) {
    if (!this.ended) {
      this.ended = true
      this.out.end(err)
    }
  }
  private async run() {
    if (this.running) return
    this.running = true
    const { rng, sched, packets, maxPause } = this.o
    while (!this.ended) {
      await sched.pause(rng.p(0.5) ? 1 : rng.range(1, 1 + maxPause))
      if (this.ended) break
      if (this.cut && this.count >= this.cut.after) {
        this.ended = true
        this.out.end(this.cut.error ? new Error(this.cut.error) : undefined)
        break
      }
      if (!this.queue.length) {
        if (this.eof) {
          this.ended = true
          this.out.end(this.eof.err)
        }
        break
      }
      if (packets) {
        this.count++
        this.out.push(this.queue.shift()!)
        continue
      }
      // cut the bytes anew
      let all = Buffer.concat(this.queue)
      this.queue = []
      let n = rng.p(0.3) ? all.length : rng.p(0.3) ? 1 : rng.range(1, all.length)
      if (this.cut) n = Math.min(n, this.cut.after - this.count)
      n = Math.min(n, all.length)
      if (n < all.length) this.queue.push(new Uint8Array(all.subarray(n)))
      const head = new Uint8Array(all.subarray(0, n))
      this.count += n
      if (this.o.lists && rng.p(0.5)) {
        const k = rng.int(n + 1)
        this.out.push(new Uint8ArrayList(head.slice(0, k), head.slice(k)))
      } else if (n > 0 || rng.p(0.2)) {
        this.out.push(head)
      }
    }
    this.running = false
  }
}

// End is one end of a pair: a Stream as of libp2p.
export class End {
  sinkStarted = false
  sinkDone = false
  source: AsyncGenerator<any>
  sink: (s: any) => Promise<void>
  id = ''
  constructor(
    public rd: Half,
    public wr: Half,
    private o: PairOpts,
    public log?: Uint8Array[],
  ) {
    this.source = rd.out as any
    this.sink = async (src: any) => {
      this.sinkStarted = true
      try {
        for await (const c of src) {
          const b = isUint8ArrayList(c) ? c.subarray() : c
          if (!(b instanceof Uint8Array)) throw new Error('harness: not bytes')
          // a copy: the writer may use the memory again
          this.log?.push(b.slice())
          wr.write(b.slice())
          if (o.rng.p(0.1)) await o.sched.pause(1)
        }
        wr.end()
      } catch (err) {
        wr.end(err as Error)
        throw err
      } finally {
        this.sinkDone = true
      }
    }
  }
  async close() {
    this.wr.end()
    this.rd.stopRead()
  }
  abort(err: Error) {
    this.wr.end(err)
    this.rd.stopRead(err)
  }
}

export function makePair(o: PairOpts): [End, End] {
  const a = new Half(o)
  const b = new Half(o)
  return [new End(b, a, o), new End(a, b, o)]
}

// ---- a stream muxer ----------------------------------------------------

const OPEN = 1
const DATA = 2
const FIN = 3
const RST = 4

class MuxStream {
  out = pushable<any>({ objectMode: true })
  source: AsyncGenerator<any> = this.out as any
  readEnded = false
  writeEnded = false
  sinkDone = false
  direction = 'outbound'
  status = 'open'
  constructor(
    public mux: any,
    public id: string,
    public num: number,
  ) {}
  sink = async (src: any) => {
    try {
      for await (const c of src) {
        if (this.writeEnded) break
        const b = isUint8ArrayList(c) ? c.subarray() : c
        for (let i = 0; i < b.length; i += 60000) this.mux.frame(this.num, DATA, b.subarray(i, i + 60000))
      }
      this.fin()
    } catch (err) {
      this.abort(err as Error)
      throw err
    } finally {
      this.sinkDone = true
    }
  }
  private fin() {
    if (!this.writeEnded) {
      this.writeEnded = true
      this.mux.frame(this.num, FIN)
      this.mux.done(this)
    }
  }
  async close() {
    this.fin()
    this.endRead()
  }
  abort(err: Error) {
    if (!this.writeEnded || !this.readEnded) this.mux.frame(this.num, RST)
    this.writeEnded = true
    this.endRead(err)
    this.mux.done(this)
  }
  endRead(err?: Error) {
    if (!this.readEnded) {
      this.readEnded = true
      this.out.end(err)
      this.mux.done(this)
    }
  }
}

export const muxStats = { made: 0, incoming: 0 }

// muxFactory: a small muxer with the interface of libp2p.
export function muxFactory(limitErr?: () => Error | undefined) {
  return {
    protocol: '/verif/1.0.0',
    createStreamMuxer(init: any) {
      muxStats.made++
      const out = pushable<any>({ objectMode: true })
      const byNum = new Map<number, MuxStream>()
      const sides = { outbound: 1, inbound: 2 } as any
      let next = sides[init.direction]
      if (!next) throw new Error('harness: direction ' + init.direction)
      let closed = false
      const m: any = {
        protocol: '/verif/1.0.0',
        get streams() {
          return [...byNum.values()]
        },
        frame(num: number, type: number, data: Uint8Array = new Uint8Array(0)) {
          const b = new Uint8Array(9 + data.length)
          const dv = new DataView(b.buffer)
          dv.setUint32(0, num, true)
          b[4] = type
          dv.setUint32(5, data.length, true)
          b.set(data, 9)
          out.push(b)
        },
        done(s: MuxStream) {
          if (s.readEnded && s.writeEnded) byNum.delete(s.num)
        },
        async newStream() {
          if (closed) throw new Error('muxer closed')
          const e = limitErr?.()
          if (e) throw e
          const s = new MuxStream(m, '' + next, next)
          next += 2
          byNum.set(s.num, s)
          m.frame(s.num, OPEN)
          return s
        },
        source: out,
        sink: async (src: any) => {
          const buf = new Uint8ArrayList()
          try {
            for await (const c of src) {
              buf.append(c)
              while (buf.length >= 9) {
                const h = buf.slice(0, 9)
                const dv = new DataView(h.buffer)
                const len = dv.getUint32(5, true)
                if (buf.length < 9 + len) break
                const data = buf.slice(9, 9 + len)
                buf.consume(9 + len)
                m.handle(dv.getUint32(0, true), h[4], data)
              }
            }
            m.stop(new Error('connection ended'))
          } catch (err) {
            m.stop(err as Error)
          }
        },
        handle(num: number, type: number, data: Uint8Array) {
          let s = byNum.get(num)
          if (type === OPEN) {
            if (s || num % 2 === sides[init.direction] % 2) throw new Error('muxer: stream id clash')
            s = new MuxStream(m, '' + num, num)
            s.direction = 'inbound'
            byNum.set(num, s)
            muxStats.incoming++
            init.onIncomingStream?.(s)
            return
          }
          if (!s) return
          if (type === DATA) {
            if (!s.readEnded) s.out.push(data)
          } else if (type === FIN) {
            s.endRead()
          } else if (type === RST) {
            s.writeEnded = true
            s.endRead(new Error('stream reset'))
          }
        },
        stop(err?: Error) {
          if (closed) return
          closed = true
          for (const s of [...byNum.values()]) {
            s.writeEnded = true
            s.endRead(err)
          }
          byNum.clear()
          out.end()
        },
        async close() {
          m.stop()
        },
        abort(err: Error) {
          m.stop(err)
        },
        get closed() {
          return closed
        },
      }
      return m
    },
  }
}

// ---- report ------------------------------------------------------------

export class Report {
  evaluations = 0
  sigs = new Set<string>()
  hists = new Set<string>()
  counters: Record<string, number> = {}
  samples: any[] = []
  violations: any[] = []
  slow = 0
  count(k: string, n = 1) {
    this.counters[k] = (this.counters[k] ?? 0) + n
  }
  violation(key: string, index: number, msg: string) {
    if (/hangs|leak/.test(key)) this.slow++
    if (this.violations.length < 20) this.violations.push({ key, index, msg })
  }
  sig(x: any) {
    this.sigs.add(createHash('sha256').update(typeof x === 'string' ? x : JSON.stringify(x)).digest('hex').slice(0, 16))
  }
  hist(x: string) {
    this.hists.add(createHash('sha256').update(x).digest('hex').slice(0, 16))
  }
  json() {
    return { ...this, sigs: [...this.sigs], hists: [...this.hists] }
  }
}

export interface Ctx {
  rep: Report
  seed: number
  tier: string
  scale: number
  shard: number
  shards: number
  only?: number
  env: Record<string, string>
}

// cases runs f for the indices of this shard.
export async function cases(c: Ctx, tag: string, n: number, f: (i: number, rng: Rng) => Promise<void>) {
  for (let i = c.shard; i < n * c.scale; i += c.shards) {
    if (c.only !== undefined && c.only !== i) continue
    try {
      await f(i, new Rng(c.seed, tag, i))
    } catch (err: any) {
      c.rep.violation('ts-throws', i, `case ${i} of ${tag}: ${err?.stack ?? err}`)
    }
    c.rep.evaluations++
    if (c.rep.violations.length >= 20 || c.rep.slow >= 2) return
  }
}
void ChannelStream
void StreamConn
void streamToPacketStream
