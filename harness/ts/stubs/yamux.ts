// Stand-in for @chainsafe/libp2p-yamux: the yamux protocol (version 0) with the interface of libp2p.
import { pushable } from 'it-pushable'
import { Uint8ArrayList, isUint8ArrayList } from 'uint8arraylist'

const DATA = 0
const WINDOW = 1
const PING = 2
const GOAWAY = 3
const SYN = 1
const ACK = 2
const FIN = 4
const RST = 8
const WINDOW_SIZE = 256 * 1024

export const yamuxStats = { made: 0, frames: 0, keepAlive: 0 }

class YamuxStream {
  out = pushable<any>({ objectMode: true })
  source: AsyncGenerator<any> = this.out as any
  readEnded = false
  writeEnded = false
  remoteEnded = false
  acked = false
  credit = WINDOW_SIZE
  status = 'open'
  private wake: (() => void) | null = null
  constructor(
    public mux: any,
    public id: string,
    public num: number,
    public direction: string,
  ) {}
  flags() {
    if (this.acked) return 0
    this.acked = true
    return this.direction === 'outbound' ? SYN : ACK
  }
  grant(n: number) {
    this.credit += n
    this.wake?.()
  }
  sink = async (src: any) => {
    try {
      for await (const c of src) {
        if (this.writeEnded) break
        if (!(c instanceof Uint8Array) && !isUint8ArrayList(c)) throw new Error('yamux: not bytes')
        let b: Uint8Array = (isUint8ArrayList(c) ? c.subarray() : c).slice()
        while (b.length && !this.writeEnded) {
          if (this.credit <= 0) {
            await new Promise<void>((r) => (this.wake = r))
            this.wake = null
            continue
          }
          const n = Math.min(b.length, this.credit, 60000)
          this.credit -= n
          this.mux.frame(DATA, this.flags(), this.num, b.subarray(0, n))
          b = b.subarray(n)
        }
      }
      this.fin()
    } catch (err) {
      this.abort(err as Error)
      throw err
    }
  }
  private fin() {
    if (this.writeEnded) return
    this.writeEnded = true
    this.wake?.()
    this.mux.frame(WINDOW, this.flags() | FIN, this.num)
    this.mux.done(this)
  }
  async close() {
    this.fin()
    this.endRead()
  }
  async closeRead() {
    this.endRead()
  }
  async closeWrite() {
    this.fin()
  }
  abort(err: Error) {
    if (!this.writeEnded || !this.remoteEnded) this.mux.frame(WINDOW, this.flags() | RST, this.num)
    this.kill(err)
    this.mux.done(this)
  }
  kill(err?: Error) {
    this.writeEnded = this.remoteEnded = true
    this.wake?.()
    this.endRead(err)
  }
  data(b: Uint8Array) {
    if (!this.readEnded) this.out.push(b)
    if (!this.remoteEnded && b.length) this.mux.frame(WINDOW, this.flags(), this.num, undefined, b.length)
  }
  remoteFin() {
    this.remoteEnded = true
    this.endRead()
    this.mux.done(this)
  }
  endRead(err?: Error) {
    if (!this.readEnded) {
      this.readEnded = true
      this.out.end(err)
      this.mux.done(this)
    }
  }
}

export const yamux =
  (params: any = {}) =>
  (_components: any) => ({
    protocol: '/yamux/1.0.0',
    createStreamMuxer(init: any) {
      yamuxStats.made++
      if (params.enableKeepAlive) yamuxStats.keepAlive++
      if (init.direction !== 'outbound' && init.direction !== 'inbound') throw new Error('yamux: direction ' + init.direction)
      const client = init.direction === 'outbound'
      const out = pushable<any>({ objectMode: true })
      const byNum = new Map<number, YamuxStream>()
      let next = client ? 1 : 2
      let closed = false
      const m: any = {
        protocol: '/yamux/1.0.0',
        get streams() {
          return [...byNum.values()]
        },
        get closed() {
          return closed
        },
        frame(type: number, flags: number, num: number, data: Uint8Array = new Uint8Array(0), len = data.length) {
          if (closed) return
          yamuxStats.frames++
          const b = new Uint8Array(12 + data.length)
          const dv = new DataView(b.buffer)
          b[1] = type
          dv.setUint16(2, flags)
          dv.setUint32(4, num)
          dv.setUint32(8, len)
          b.set(data, 12)
          // as a list, as the real one does
          out.push(data.length > 1 ? new Uint8ArrayList(b.subarray(0, 12), b.subarray(12)) : b)
        },
        done(s: YamuxStream) {
          if (s.readEnded && s.writeEnded) byNum.delete(s.num)
        },
        async newStream() {
          if (closed) throw new Error('muxer closed')
          const s = new YamuxStream(m, '' + next, next, 'outbound')
          next += 2
          byNum.set(s.num, s)
          m.frame(WINDOW, s.flags(), s.num)
          return s
        },
        source: out,
        sink: async (src: any) => {
          const buf = new Uint8ArrayList()
          try {
            for await (const c of src) {
              buf.append(c)
              while (!closed && buf.length >= 12) {
                const h = buf.slice(0, 12)
                const dv = new DataView(h.buffer, h.byteOffset)
                const type = h[1]
                const len = dv.getUint32(8)
                const body = type === DATA ? len : 0
                if (h[0] !== 0 || type > GOAWAY) throw new Error('yamux: invalid header')
                if (buf.length < 12 + body) break
                const data = buf.slice(12, 12 + body)
                buf.consume(12 + body)
                m.handle(type, dv.getUint16(2), dv.getUint32(4), len, data)
              }
            }
            m.stop(new Error('connection ended'))
          } catch (err) {
            m.stop(err as Error)
          }
        },
        handle(type: number, flags: number, num: number, len: number, data: Uint8Array) {
          if (type === PING) {
            if (flags & SYN) m.frame(PING, ACK, 0, undefined, len)
            return
          }
          if (type === GOAWAY) {
            m.stop(new Error('remote closed the muxer'))
            return
          }
          if (flags & SYN) {
            if (byNum.has(num) || num % 2 === (client ? 1 : 0)) throw new Error('yamux: stream id clash')
            const s = new YamuxStream(m, '' + num, num, 'inbound')
            byNum.set(num, s)
            m.frame(WINDOW, s.flags(), num)
            if (init.onIncomingStream) init.onIncomingStream(s)
            else s.abort(new Error('no handler'))
          }
          const s = byNum.get(num)
          if (!s) {
            // closed on this side: the remote may still send
            if (type === DATA && len && !(flags & (FIN | RST))) m.frame(WINDOW, 0, num, undefined, len)
            return
          }
          if (type === DATA) s.data(data)
          else if (len) s.grant(len)
          if (flags & RST) {
            s.kill(new Error('stream reset'))
            byNum.delete(num)
          } else if (flags & FIN) s.remoteFin()
        },
        stop(err?: Error, reason = 0) {
          if (closed) return
          m.frame(GOAWAY, 0, 0, undefined, reason)
          closed = true
          for (const s of [...byNum.values()]) s.kill(err)
          byNum.clear()
          out.end()
        },
        async close() {
          m.stop()
        },
        abort(err: Error) {
          m.stop(err, 2)
        },
      }
      return m
    },
  })
