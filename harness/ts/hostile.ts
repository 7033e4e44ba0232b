// Peers which send anything, at the level of packets and bytes (C29).
import { pushable } from 'it-pushable'
import { mode } from '@aptre/protobuf-es-lite'
import { Client, Server, createHandler, createMux } from '@repo/index.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { Blob, KINDS, ABORT, type Kind } from './calls.js'
import { Rng, Sched, Gate, hex, same, errText, makePair, immediate, type End, type Ctx } from './lib.js'

// ---- packets, encoded and decoded apart from the repository ---------------

const varint = (n: number): number[] => (n < 128 ? [n] : [(n & 127) | 128, ...varint(Math.floor(n / 128))])
const field = (no: number, b: Uint8Array | number[]): number[] => [...varint(no * 8 + 2), ...varint(b.length), ...b]
const str = (s: string) => new TextEncoder().encode(s)
const flag = (no: number, v: boolean) => (v ? [no * 8, 1] : [])

interface Pkt {
  t: 'start' | 'data' | 'cancel' | 'none'
  svc?: string
  met?: string
  data?: Uint8Array
  zero?: boolean
  complete?: boolean
  error?: string
  val?: boolean
}
export function encode(p: Pkt): Uint8Array {
  const d = p.data?.length ? p.data : undefined
  if (p.t === 'start') {
    return Uint8Array.from(field(1, [...(p.svc ? field(1, str(p.svc)) : []), ...(p.met ? field(2, str(p.met)) : []), ...(d ? field(3, d) : []), ...flag(4, !!p.zero)]))
  }
  if (p.t === 'data') {
    return Uint8Array.from(field(2, [...(d ? field(1, d) : []), ...flag(2, !!p.zero), ...flag(3, !!p.complete), ...(p.error ? field(4, str(p.error)) : [])]))
  }
  if (p.t === 'cancel') return Uint8Array.from([3 * 8, p.val ? 1 : 0])
  return new Uint8Array(0)
}
export function decode(b: Uint8Array): Pkt {
  const read = (b: Uint8Array, f: (no: number, v: any) => void) => {
    let o = 0
    const num = () => {
      let n = 0
      for (let m = 1; ; m *= 128) {
        if (o >= b.length) throw new Error('short packet')
        const x = b[o++]
        n += (x & 127) * m
        if (x < 128) return n
      }
    }
    while (o < b.length) {
      const tag = num()
      if (tag % 8 === 0) f(Math.floor(tag / 8), num())
      else if (tag % 8 === 2) {
        const n = num()
        if (o + n > b.length) throw new Error('short packet')
        f(Math.floor(tag / 8), b.slice(o, o + n))
        o += n
      } else throw new Error('wire type of ' + tag)
    }
  }
  const text = (v: any) => new TextDecoder('utf-8', { fatal: true }).decode(v)
  const p: Pkt = { t: 'none' }
  read(b, (no, v) => {
    if (no === 1) {
      Object.assign(p, { t: 'start', svc: '', met: '', data: new Uint8Array(0), zero: false })
      read(v, (no, v) => {
        if (no === 1) p.svc = text(v)
        else if (no === 2) p.met = text(v)
        else if (no === 3) p.data = v
        else if (no === 4) p.zero = !!v
      })
    } else if (no === 2) {
      Object.assign(p, { t: 'data', data: new Uint8Array(0), zero: false, complete: false, error: '' })
      read(v, (no, v) => {
        if (no === 1) p.data = v
        else if (no === 2) p.zero = !!v
        else if (no === 3) p.complete = !!v
        else if (no === 4) p.error = text(v)
      })
    } else if (no === 3) Object.assign(p, { t: 'cancel', val: !!v })
  })
  return p
}
const hasMsg = (p: Pkt) => p.zero || (p.data?.length ?? 0) > 0
const msgOf = (p: Pkt) => (p.zero ? new Uint8Array(0) : p.data!)

// bytes which are no packet, for any decoder
function garbage(rng: Rng): Uint8Array {
  return rng.pick([
    new Uint8Array([0x12, 0x7f, 1, 2]), // longer than the packet
    new Uint8Array([0x0a]), // no length
    new Uint8Array([0x12, 0x03, 0x0a, 0x20, 0x01]), // inner length
    new Uint8Array([0x0f, 1]), // no such wire type
    new Uint8Array([0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]), // no number
    new Uint8Array([0x18]), // cancel without value
  ])
}

interface Item {
  // one of a packet, or bytes which are none
  p?: Pkt
  junk?: Uint8Array
  pause?: number
}
interface Script {
  items: Item[]
  // end of the input: never, at once, or with an error
  eof?: { error?: string; pause: number }
  // framed streams: bytes after the last item which are no complete frame
  tail?: Uint8Array
}

const show = (s: Script) =>
  s.items.map((x) => (x.junk ? 'junk ' + hex(x.junk) : x.pause ? 'pause ' + x.pause : describe(x.p!))).join(', ') + (s.tail ? ', tail ' + hex(s.tail) : '') + (s.eof ? ', end ' + (s.eof.error ?? '') : ', stays open')
const describe = (p: Pkt) => p.t + (p.t === 'start' ? ` ${p.svc}/${p.met}` : '') + (p.data ? ' ' + hex(p.data) : '') + (p.zero ? ' zero' : '') + (p.complete ? ' complete' : '') + (p.error ? ' error ' + p.error : '') + (p.t === 'cancel' ? ' ' + p.val : '')

function frame(b: Uint8Array): Uint8Array {
  const h = new Uint8Array(4 + b.length)
  new DataView(h.buffer).setUint32(0, b.length, true)
  h.set(b, 4)
  return h
}

// peer writes a script to its end of a stream and takes what comes.
class Peer {
  got: Uint8Array[] = []
  ended = false
  error?: any
  script: Script
  private stop = new Gate()
  constructor(private end: End, private framed: boolean, s: Script, private sched: Sched, rng: Rng) {
    this.script = s
    const me = this
    async function* out() {
      for (const x of s.items) {
        if (x.pause) await sched.pause(x.pause)
        else {
          const b = x.junk ?? encode(x.p!)
          yield framed ? frame(b) : b
        }
        if (rng.p(0.3)) await sched.pause(1)
      }
      if (s.tail) yield s.tail
      if (s.eof) {
        await sched.pause(s.eof.pause)
        if (s.eof.error) throw new Error(s.eof.error)
        return
      }
      await me.stop.wait
    }
    end.sink(out()).catch(() => {})
    void this.read()
  }
  private async read() {
    try {
      for await (const x of this.end.source) this.got.push((x instanceof Uint8Array ? x : (x as any).subarray()).slice())
      this.ended = true
    } catch (err) {
      this.error = err
      this.ended = true
    }
  }
  finish() {
    this.stop.release()
  }
  // packets sent by the code under test
  packets(): { l: Pkt[]; bad?: string } {
    const l: Pkt[] = []
    try {
      if (!this.framed) {
        for (const b of this.got) l.push(decode(b))
        return { l }
      }
      const all = Buffer.concat(this.got)
      let o = 0
      while (o < all.length) {
        if (o + 4 > all.length) return { l, bad: 'part of a prefix' }
        const n = all.readUInt32LE(o)
        if (o + 4 + n > all.length) return { l, bad: 'part of a frame' }
        l.push(decode(new Uint8Array(all.subarray(o + 4, o + 4 + n))))
        o += 4 + n
      }
      return { l }
    } catch (err) {
      return { l, bad: String(err) }
    }
  }
}

const blob = (data: Uint8Array, n: number): Uint8Array => Blob.toBinary({ data, n })

// wreck changes a good script into a bad one.
function wreck(rng: Rng, s: Script, framed: boolean, server: boolean) {
  const at = rng.int(s.items.length + 1)
  const put = (...x: Item[]) => s.items.splice(at, 0, ...x)
  switch (rng.int(11)) {
    case 0:
      put({ junk: garbage(rng) })
      break
    case 1:
      put({ p: { t: 'start', svc: rng.pick(['', 'svc', 'other']), met: rng.pick(['', 'U', 'BD', 'none']) } })
      break
    case 2:
      put({ p: { t: 'cancel', val: rng.p(0.8) } })
      break
    case 3:
      put({ p: { t: 'data', data: blob(new Uint8Array([9, 9]), 99), complete: rng.p(0.4), error: rng.p(0.4) ? 'peer says no' : '' } })
      break
    case 4:
      put({ p: { t: 'none' } })
      break
    case 5:
      // something goes missing
      s.items.splice(rng.int(Math.max(1, s.items.length)), 1)
      break
    case 6:
      s.items.length = at
      s.eof = { pause: rng.int(4), error: rng.p(0.5) ? 'reset' : undefined }
      break
    case 7:
      s.items.length = at
      s.eof = undefined
      break
    case 8:
      if (framed) {
        s.tail = rng.pick([new Uint8Array([1]), new Uint8Array([4, 0, 0, 0, 1]), new Uint8Array([255, 255, 255, 255, 1, 2, 3]), new Uint8Array([0, 0, 0])])
      }
      break
    case 9:
      // twice
      if (at < s.items.length) put({ ...s.items[at] })
      break
    case 10:
      if (server && at < s.items.length) {
        // swapped
        const j = rng.int(s.items.length)
        ;[s.items[at], s.items[j]] = [s.items[j], s.items[at]]
      } else put({ p: { t: 'data', zero: true, data: rng.p(0.5) ? new Uint8Array([1]) : new Uint8Array(0) } })
      break
  }
}

// ---- a server with bad clients ------------------------------------------------

interface Run {
  started: number
  recv: any[]
  recvEnd?: string
  done?: string
  sent: number
}

async function badClients(c: Ctx, i: number, rng: Rng) {
  const sched = new Sched()
  mode.fill = rng.p(0.5)
  const n = rng.pick([1, 2, 3])
  const framed = rng.p(0.6)
  const f = (key: string, msg: string) => c.rep.violation(key, i, msg)
  const runs: Run[] = []
  const mux = createMux()
  const conns: { peer: Peer; s: Script; a: End; b: End; kind: Kind; met: string; throws?: string; stop: number; resp: number; run: Run }[] = []
  for (let k = 0; k < n; k++) {
    const kind = rng.pick(['U', 'CS', 'SS', 'BD'] as Kind[])
    const met = 'm' + k
    const run: Run = { started: 0, recv: [], sent: 0 }
    const throws = rng.p(0.25) ? 'handler says no' : undefined
    // the number of messages it reads
    const stop = rng.p(0.3) ? rng.int(4) : 1e9
    const resp = kind === 'U' || kind === 'CS' ? 1 : rng.int(5)
    const pauses = Array.from({ length: 4 }, () => rng.int(4))
    const read = async (req: any) => {
      if (stop === 0) return
      try {
        for await (const x of req) {
          run.recv.push(x)
          await sched.pause(pauses[run.recv.length % 4])
          if (run.recv.length >= stop) return
        }
        run.recvEnd = 'end'
      } catch (err) {
        run.recvEnd = 'error: ' + errText(err)
        throw err
      }
    }
    const finish = () => {
      if (throws) {
        run.done = 'error: ' + throws
        throw new Error(throws)
      }
      run.done = 'ok'
    }
    const impl = async (req: any) => {
      run.started++
      try {
        if (kind === 'CS') await read(req)
        else run.recv.push(req)
        await sched.pause(pauses[0])
      } catch (err) {
        run.done = run.recvEnd
        throw err
      }
      finish()
      run.sent++
      return { data: new Uint8Array([k, 1]), n: 1 }
    }
    const stream = (req: any) => {
      run.started++
      return (async function* () {
        try {
          if (kind === 'BD') await read(req)
          else run.recv.push(req)
          for (let j = 0; j < resp; j++) {
            await sched.pause(pauses[j % 4])
            run.sent++
            yield { data: new Uint8Array([k, j]), n: j + 1 }
          }
        } catch (err) {
          run.done = run.recvEnd ?? 'error'
          throw err
        }
        finish()
      })()
    }
    mux.register(
      createHandler(
        { typeName: 'svc', methods: { [met]: { name: met, I: Blob, O: Blob, kind: KINDS[kind] } } } as any,
        { [met]: kind === 'U' || kind === 'CS' ? impl : stream },
      ),
    )
    runs.push(run)
    // a good script, then a bad one
    const s: Script = { items: [] }
    const nmsg = kind === 'U' || kind === 'SS' ? 1 : rng.int(5)
    const inStart = nmsg > 0 && rng.p(0.5)
    let m = 0
    const msg = () => {
      m++
      if (rng.p(0.1)) return { data: new Uint8Array(0), zero: true }
      return { data: blob(rng.bytes(rng.pick([1, 5, 300])), m) }
    }
    s.items.push({ p: { t: 'start', svc: 'svc', met, ...(inStart ? msg() : {}) } })
    while (m < nmsg) {
      if (rng.p(0.3)) s.items.push({ pause: rng.range(1, 5) })
      s.items.push({ p: { t: 'data', ...msg() } })
    }
    if (kind === 'CS' || kind === 'BD' || rng.p(0.5)) {
      const last = s.items[s.items.length - 1]
      if (last.p?.t === 'data' && rng.p(0.3)) last.p.complete = true
      else s.items.push({ p: { t: 'data', complete: true } })
    }
    if (rng.p(0.3)) s.eof = { pause: rng.int(10) }
    for (let w = rng.pick([0, 1, 1, 2]); w > 0; w--) wreck(rng, s, framed, true)
    conns.push({ s, kind, met, throws, stop, resp, run, peer: null as any, a: null as any, b: null as any })
  }
  // a lookup which knows every method: ids must not be empty all the same
  const any = rng.p(0.4)
  const lookup = async (svc: string, met: string) => {
    if (any && (!svc || !met)) {
      return async () => f('hostile-handler', `a handler of ${JSON.stringify([svc, met])} runs`)
    }
    return mux.lookupMethod(svc, met)
  }
  const server: any = new Server(rng.p(0.5) ? mux.lookupMethod : lookup)
  for (const x of conns) {
    const [a, b] = makePair({ rng, sched, packets: !framed, maxPause: rng.pick([0, 2, 6]), lists: true })
    x.a = a
    x.b = b
    const ps = framed ? streamToPacketStream(b as any) : b
    if (rng.p(0.3)) void server.rpcStreamHandler(ps)
    else server.handlePacketStream(ps)
    x.peer = new Peer(a, framed, x.s, sched, rng)
  }
  const started = new Map<string, number>()
  // over: this side has ended its stream
  const over = (x: any) => (framed ? x.b.wr.eof && x.b.rd.ended : x.b.sinkDone) && x.peer.ended
  await sched.idle(() => conns.every((x) => over(x) && (!x.run.started || x.run.done)))
  for (const round of [0, 1]) {
    conns.forEach((x, k) => {
      const fail = (key: string, msg: string) => f(key, `stream ${k} of ${n} (${x.kind} ${x.met}${x.throws ? ', throws' : ''}, reads ${x.stop > 99 ? 'all' : x.stop}): ${msg}\n client: ${show(x.s)}\n handler: ${JSON.stringify({ started: x.run.started, recv: x.run.recv.length, end: x.run.recvEnd, sent: x.run.sent, done: x.run.done })}`)
      // what it all means
      const r = { started: false, msgs: [] as Uint8Array[], end: '', failed: '', cancelled: false, dead: false, target: '' }
      for (const it of x.s.items) {
        if (it.pause) continue
        if (it.junk) r.failed ||= 'junk'
        const p = it.p
        if (!p || r.failed || r.cancelled) {
          if (r.failed || r.cancelled) break
          continue
        }
        if (p.t === 'start') {
          if (r.started || !p.svc || !p.met || p.svc !== 'svc' || !conns.some((y) => y.met === p.met)) r.failed ||= 'start'
          else {
            r.started = true
            r.target = p.met
            if (hasMsg(p)) r.msgs.push(msgOf(p))
          }
        } else if (p.t === 'data') {
          if (!r.started) r.failed ||= 'data before start'
          else if (!r.end) {
            if (hasMsg(p)) r.msgs.push(msgOf(p))
            if (p.error) r.end = 'error: ' + p.error
            else if (p.complete) r.end = 'end'
          }
        } else if (p.t === 'cancel' && p.val) r.cancelled = true
      }
      const eof = !!x.s.eof || round > 0
      if (!r.started) started.set(x.met, started.get(x.met) ?? 0)
      else started.set(r.target, (started.get(r.target) ?? 0) + 1)
      // judged by the handler only if the stream calls its own method
      const own = r.target === x.met && !conns.some((y) => y !== x && y.s.items.some((it) => it.p?.t === 'start' && it.p.met === x.met))
      const terminal = r.failed || r.cancelled
      if (own) {
        const run = x.run
        const oneMsg = x.kind === 'U' || x.kind === 'SS'
        const got = run.recv.map((m) => Blob.toBinary(m))
        if (got.length > r.msgs.length) fail('hostile-messages', `the handler got ${got.length} messages, ${r.msgs.length} were sent`)
        else got.forEach((g, j) => !same(g, Blob.toBinary(Blob.fromBinary(r.msgs[j]))) && fail('hostile-messages', `message ${j} is ${hex(g)} instead of ${hex(r.msgs[j])}`))
        if (run.recvEnd === 'end') {
          if (r.end !== 'end') fail('hostile-end', 'the handler sees a regular end of the messages')
          else if (got.length !== r.msgs.length) fail('hostile-end', `the handler sees a regular end after ${got.length} of ${r.msgs.length} messages`)
        }
        if (!terminal && !x.s.eof?.error) {
          if (!oneMsg && !run.started) fail('hostile-not-run', 'the handler did not run')
          if (r.end === 'end' && !oneMsg && x.stop > 99 && run.recvEnd !== 'end') fail('hostile-end', `the handler sees ${run.recvEnd} instead of the end`)
          if (r.end.startsWith('error') && run.recvEnd && run.recvEnd !== r.end) fail('hostile-end', `the handler sees ${run.recvEnd} instead of ${r.end}`)
          if (oneMsg && r.msgs.length && r.end !== 'error: peer says no' && !run.started) fail('hostile-not-run', 'the handler did not run')
        }
        // it must not be left waiting
        const ends = eof || r.end || terminal
        if (ends && run.started && !run.done) fail('hostile-handler-hangs', 'the handler is left waiting')
      }
      const finished = terminal || (own && x.run.done !== undefined) || (eof && !r.started) || (r.started && !x.run.started && own && (r.end || eof))
      if (finished && !over(x)) fail('hostile-stream-open', `the server never ends its side (round ${round})`)
      // what it sent
      const out = x.peer.packets()
      if (out.bad) fail('hostile-output', 'the server sends ' + out.bad)
      if (over(x) && !terminal && own && x.run.done && !x.s.eof?.error) {
        const d = out.l.filter((p) => p.t === 'data')
        const replies = d.filter(hasMsg)
        const err = d.find((p) => p.error)
        if (x.run.done === 'ok') {
          if (replies.length !== x.run.sent) fail('hostile-replies', `${replies.length} of ${x.run.sent} replies arrive`)
          if (err || !d.some((p) => p.complete)) fail('hostile-replies', 'no regular end arrives: ' + out.l.map(describe).join(', '))
        } else if (!err || err.error !== x.run.done.slice(7)) fail('hostile-replies', `the error ${x.run.done} does not arrive: ` + out.l.map(describe).join(', '))
        replies.forEach((p, j) => {
          const m = Blob.fromBinary(msgOf(p))
          if (m.n !== j + 1) fail('hostile-replies', `reply ${j + 1} has the number ${m.n}`)
        })
      }
      if ((r.failed === 'start' || r.failed === 'data before start') && !r.started && x.peer.ended && !out.l.some((p) => p.t === 'data' && p.error) && !x.s.eof?.error) fail('hostile-replies', 'the client is not told of an error: ' + out.l.map(describe).join(', '))
    })
    // calls which were never made
    if (round === 0) {
      const possible = new Map<string, number>()
      for (const [k, v] of started) possible.set(k, v)
      conns.forEach((x) => {
        if (x.run.started > (possible.get(x.met) ?? 0)) f('hostile-handler-run', `the handler of ${x.met} ran ${x.run.started} times, there were ${possible.get(x.met) ?? 0} calls of it\n` + conns.map((y) => show(y.s)).join('\n '))
      })
      conns.forEach((x) => x.peer.finish())
      await sched.idle(() => conns.every((x) => over(x) && (!x.run.started || x.run.done)))
    }
  }
  conns.forEach((x) => {
    c.rep.count('streams of bad clients')
    c.rep.count('packets', x.s.items.length)
    c.rep.count('replies', x.run.sent)
    c.rep.count('handlers', x.run.started)
    c.rep.count('server ' + (x.run.done ? x.run.done.slice(0, 5) : 'no call'))
  })
  c.rep.sig(['srv', framed, conns.map((x) => [show(x.s), x.kind, x.throws, x.stop, x.resp])])
  c.rep.hist(JSON.stringify(conns.map((x) => [x.run.recv.length, x.run.recvEnd, x.run.done, x.peer.packets().l.map((p) => describe(p))])))
}

// ---- a client with a bad server -------------------------------------------------

async function badServer(c: Ctx, i: number, rng: Rng) {
  const sched = new Sched()
  mode.fill = rng.p(0.5)
  const framed = rng.p(0.6)
  const kind = rng.pick(['U', 'CS', 'SS', 'BD'] as Kind[])
  const s: Script = { items: [] }
  const nmsg = kind === 'U' || kind === 'CS' ? rng.pick([1, 1, 1, 0, 2]) : rng.int(5)
  for (let m = 0; m < nmsg; m++) {
    if (rng.p(0.3)) s.items.push({ pause: rng.range(1, 5) })
    s.items.push({ p: { t: 'data', ...(rng.p(0.1) ? { zero: true } : { data: blob(rng.bytes(rng.pick([1, 5, 300])), m + 1) }) } })
  }
  if (rng.p(0.25)) s.items.push({ p: { t: 'data', error: 'server says no', complete: rng.p(0.7) } })
  else {
    const last = s.items[s.items.length - 1]
    if (last?.p && rng.p(0.3)) last.p.complete = true
    else s.items.push({ p: { t: 'data', complete: true } })
  }
  if (rng.p(0.3)) s.eof = { pause: rng.int(10) }
  for (let w = rng.pick([0, 1, 1, 2]); w > 0; w--) wreck(rng, s, framed, false)
  const [a, b] = makePair({ rng, sched, packets: !framed, maxPause: rng.pick([0, 2, 6]), lists: true })
  const client: any = new Client(async () => {
    if (rng.p(0.3)) await sched.pause(2)
    return framed ? streamToPacketStream(a as any) : (a as any)
  })
  const peer = new Peer(b, framed, s, sched, rng)
  const ctrl = new AbortController()
  const sent: Uint8Array[] = []
  const nreq = kind === 'U' || kind === 'SS' ? 1 : rng.int(4)
  for (let k = 0; k < nreq; k++) sent.push(rng.p(0.15) ? new Uint8Array(0) : blob(rng.bytes(5), k + 1))
  async function* src() {
    for (const m of sent) {
      if (rng.p(0.3)) await sched.pause(rng.int(4))
      yield m
    }
  }
  const got: Uint8Array[] = []
  let outcome: string | undefined
  const run = (async () => {
    try {
      if (kind === 'U') got.push(await client.request('svc', 'met', sent[0], ctrl.signal))
      else if (kind === 'CS') got.push(await client.clientStreamingRequest('svc', 'met', src(), ctrl.signal))
      else {
        const it = kind === 'SS' ? client.serverStreamingRequest('svc', 'met', sent[0], ctrl.signal) : client.bidirectionalStreamingRequest('svc', 'met', src(), ctrl.signal)
        for await (const x of it) {
          got.push(x)
          if (rng.p(0.2)) await sched.pause(1)
        }
      }
      outcome = 'ok'
    } catch (err) {
      outcome = 'error: ' + errText(err)
    }
  })()
  const r = { msgs: [] as Uint8Array[], end: '', failed: false }
  for (const it of s.items) {
    if (it.pause) continue
    const p = it.p
    if (r.end) break
    if (!p || p.t === 'start') r.end = 'error'
    else if (p.t === 'cancel') {
      if (p.val) r.end = 'error: ' + ABORT
    } else if (p.t === 'data') {
      if (hasMsg(p)) r.msgs.push(msgOf(p))
      if (p.error) r.end = 'error: ' + p.error
      else if (p.complete) r.end = 'ok'
    }
  }
  const lost = !r.end && !!s.eof
  if (lost) r.end = 'error'
  const one = kind === 'U' || kind === 'CS'
  if (one && !r.msgs.length && r.end === 'ok') r.end = 'error'
  const fail = (key: string, msg: string) => c.rep.violation(key, i, `${kind}: ${msg}\n server: ${show(s)}\n client: ${got.length} messages, ${outcome}`)
  let settled = await sched.settle(run)
  const due = r.end !== '' || (one && r.msgs.length > 0)
  if (due && !settled) fail('hostile-client-hangs', 'the call does not end')
  if (!due && settled) fail('hostile-client-end', 'the call ends though the server said nothing')
  let aborted = false
  if (!settled) {
    aborted = true
    ctrl.abort()
    settled = await sched.settle(run)
    if (!settled) fail('hostile-client-hangs', 'the aborted call does not end')
    else if (outcome !== 'error: ' + ABORT) fail('hostile-client-end', 'the call was aborted')
  }
  if (got.length > r.msgs.length) fail('hostile-messages', `${r.msgs.length} messages were sent`)
  else got.forEach((g, j) => !same(g, r.msgs[j]) && fail('hostile-messages', `message ${j} is ${hex(g)} instead of ${hex(r.msgs[j])}`))
  if (settled && !aborted) {
    if (one) {
      if (outcome === 'ok' && !got.length) fail('hostile-client-end', 'success without a message')
      if (outcome !== 'ok' && r.end === 'ok') fail('hostile-client-end', 'the call fails')
      if (outcome !== 'ok' && r.end === '' && r.msgs.length) fail('hostile-client-end', 'the call fails')
      if (outcome !== 'ok' && r.end.length > 5 && outcome !== r.end) fail('hostile-client-end', `the call ends with ${outcome} instead of ${r.end}`)
      if (outcome === 'ok' && !r.msgs.length) fail('hostile-client-end', 'success')
    } else {
      if ((outcome === 'ok') !== (r.end === 'ok')) fail('hostile-client-end', `the call ends with ${outcome} instead of ${r.end}`)
      else if (r.end === 'ok' && got.length !== r.msgs.length) fail('hostile-client-end', `success after ${got.length} of ${r.msgs.length} messages`)
      else if (r.end.length > 5 && outcome !== r.end) fail('hostile-client-end', `the call ends with ${outcome} instead of ${r.end}`)
    }
  }
  // the call is over: its stream is closed though the server may keep its side open
  const over = () => (framed ? a.wr.eof && a.rd.ended : a.sinkDone) && peer.ended
  await sched.idle(() => !!over())
  if (!over()) fail('hostile-stream-open', 'the client never ends its side')
  const out = peer.packets()
  await sched.idle(() => peer.ended)
  if (out.bad) fail('hostile-output', 'the client sends ' + out.bad)
  const first = out.l[0]
  // a call which is over before it was started is only told to be so
  const early = first && (first.t === 'cancel' || first.error)
  if (first && !early && (first.t !== 'start' || first.svc !== 'svc' || first.met !== 'met')) fail('hostile-output', 'the client starts with ' + describe(first))
  if (out.l.filter((p) => p.t === 'start').length > 1) fail('hostile-output', 'the client starts twice')
  const reqs = out.l.filter((p) => p.t !== 'cancel' && hasMsg(p)).map(msgOf)
  if (reqs.length > sent.length) fail('hostile-output', `the client sends ${reqs.length} messages of ${sent.length}`)
  else reqs.forEach((g, j) => !same(g, sent[j]) && fail('hostile-output', `request ${j} is ${hex(g)} instead of ${hex(sent[j])}`))
  peer.finish()
  await immediate()
  c.rep.count('calls to bad servers')
  c.rep.count('packets', s.items.length)
  c.rep.count('client ' + (outcome ?? 'none').slice(0, 5))
  if (aborted) c.rep.count('aborted')
  c.rep.sig(['cli', framed, show(s), kind, sent.map((x) => x.length)])
  c.rep.hist(JSON.stringify([got.length, outcome, out.l.map(describe)]))
}

export async function hostile(c: Ctx, i: number, rng: Rng) {
  if (rng.p(0.5)) await badClients(c, i, rng)
  else await badServer(c, i, rng)
  if (c.rep.samples.length < 2) c.rep.samples.push({ case: i })
}
void pushable
