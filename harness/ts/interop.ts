// Calls between TypeScript and Go: the Go end is the process harness/tspeer.
import { spawn, type ChildProcess } from 'node:child_process'
import { pipe } from 'it-pipe'
import { mode } from '@aptre/protobuf-es-lite'
import { Client, Server, StreamConn, WebSocketConn, combineUint8ArrayListTransform } from '@repo/index.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { Rng, Sched, Gate, makePair, hex, type End, type Ctx } from './lib.js'
import { Blob, EMPTY, genNested, checkNested, checkComponents, genCall, muxOf, runCall, checkCall, numOf, svcOf, metOf, free, hangs, lateAborts, describe, type Call, type Fail, ABORT } from './calls.js'
import { nestedClient, nestedService } from './nested.js'

const JSONOP = 0
const OPEN = 1
const DATA = 2
const CLOSE = 3
const GONE = 4

export class GoPeer {
  proc: ChildProcess
  dead = ''
  stderr = ''
  private buf: Buffer = Buffer.alloc(0)
  onJson: (m: any) => void = () => {}
  onOpen: (id: number) => void = () => {}
  onFrame: () => void = () => {}
  conns = new Map<number, { data: (b: Uint8Array) => void; close: () => void }>()
  next = 1
  constructor(path: string, loader?: string) {
    this.proc = spawn(loader ? process.execPath : path, loader ? [loader, path] : [], { stdio: ['pipe', 'pipe', 'pipe'] })
    this.proc.stderr!.on('data', (d) => (this.stderr += d))
    this.proc.on('close', (code, sig) => (this.dead = `the Go process ended (${code ?? sig}): ${this.stderr.slice(0, 4000)}`))
    this.proc.stdin!.on('error', () => {})
    this.proc.stdout!.on('data', (d: Buffer) => {
      this.onFrame()
      this.buf = this.buf.length ? Buffer.concat([this.buf, d]) : d
      while (this.buf.length >= 9) {
        const n = this.buf.readUInt32LE(0)
        if (this.buf.length < 9 + n) break
        const id = this.buf.readUInt32LE(4)
        const op = this.buf[8]
        const data = this.buf.subarray(9, 9 + n)
        this.buf = this.buf.subarray(9 + n)
        if (op === JSONOP) this.onJson(JSON.parse(data.toString()))
        else if (op === OPEN) this.onOpen(id)
        else if (op === DATA) this.conns.get(id)?.data(new Uint8Array(data))
        else if (op === CLOSE) this.conns.get(id)?.close()
      }
    })
  }
  frame(id: number, op: number, data: Uint8Array = EMPTY) {
    const h = Buffer.alloc(9 + data.length)
    h.writeUInt32LE(data.length, 0)
    h.writeUInt32LE(id, 4)
    h[8] = op
    h.set(data, 9)
    this.proc.stdin!.write(h)
  }
  json(m: any) {
    this.frame(0, JSONOP, Buffer.from(JSON.stringify(m)))
  }
  reset(m: any): Promise<any> {
    return new Promise((resolve, reject) => {
      const t = setInterval(() => this.dead && (clearInterval(t), reject(new Error(this.dead))), 20)
      const before = this.onJson
      this.onJson = (r) => {
        if (r.reset === undefined) return before(r)
        clearInterval(t)
        this.onJson = before
        resolve(r)
      }
      this.json({ cmd: 'reset', ...m })
    })
  }
}

// link joins one end to a connection of the Go process and returns the other.
export function link(peer: GoPeer, id: number, rng: Rng, sched: Sched, maxPause: number, ended: () => void): [End, End] {
  const [a, b] = makePair({ rng, sched, packets: false, maxPause, lists: true })
  const hard = rng.p(0.5)
  peer.conns.set(id, {
    data: (d) => b.wr.write(d),
    close: () => b.wr.end(),
  })
  void (async () => {
    try {
      for await (const c of b.source) peer.frame(id, DATA, c.subarray())
      peer.frame(id, hard && a.rd.ended ? GONE : CLOSE)
    } catch {
      peer.frame(id, GONE)
    }
    ended()
  })()
  return [a, b]
}

const b64 = (b: Uint8Array) => Buffer.from(b.buffer, b.byteOffset, b.length).toString('base64')
let ids = 0

export interface InteropOpts {
  abort?: number
  fail?: number
  cut?: boolean
  nested?: boolean
  // many: many messages, n: many calls at once
  many?: boolean
  n?: boolean
  // mux: over one muxed connection, ws: over a WebSocket (to a Go HTTP server)
  via?: 'mux' | 'ws'
}

export async function interopCase(c: Ctx, i: number, rng: Rng, peer: GoPeer, o: InteropOpts): Promise<boolean> {
  if (peer.dead) throw new Error(peer.dead)
  const sched = new Sched()
  sched.external = true
  mode.fill = rng.p(0.5)
  const n = o.n ? rng.pick([40, 120, 250]) : rng.pick([1, 1, 2, 3, 5])
  const calls: (Call & { toGo?: boolean; goId?: number; res?: any; srvRes?: any })[] = []
  const missing = rng.pick(['gone', 'mi/ss\u00e9', ''])
  const failing = 'fail ' + rng.int(3)
  for (let k = 0; k < n; k++) {
    const x: (typeof calls)[0] = genCall(rng, k, o)
    x.goId = ++ids
    x.toGo = o.via === 'ws' || rng.p(0.5)
    if (o.nested) {
      genNested(x, rng, missing, failing)
    }
    x.client = x.client.filter((p) => !(p.t === 'wait' && (p.g.startsWith('sr') || (!x.toGo && p.g.startsWith('sr')))))
    x.server = x.server.filter((p) => p.t !== 'wait')
    if (!x.toGo) x.client = x.client.filter((p) => p.t !== 'throw')
    calls.push(x)
  }
  const failures: [string, string][] = []
  const fail: Fail = (key, msg) => failures.push([key, msg])
  const comps: string[] = []
  let running = 0
  const mux: any = muxOf(calls, sched, rng, (x: any) => !x.toGo)
  const nested = nestedService(
    async (id: string) => {
      comps.push(id)
      await sched.pause(rng.int(3))
      if (id === missing) return null
      if (id === failing) throw new Error('lookup failed: ' + id)
      return server.rpcStreamHandler
    },
    (k) => (running += k),
  )
  mux.register(nested)
  const server = new Server(mux.lookupMethod)
  const ends: End[] = []
  const bridges: End[] = []
  const maxPause = rng.pick([0, 2, 8])
  let opening = 0
  let linksEnded = 0
  peer.onFrame = () => sched.touch()
  peer.onOpen = (id) => {
    const [a, b] = link(peer, id, rng, sched, maxPause, () => linksEnded++)
    ends.push(a)
    bridges.push(b)
    if (rng.p(0.3)) void server.rpcStreamHandler(streamToPacketStream(a as any))
    else server.handlePacketStream(streamToPacketStream(a as any))
  }
  const waiting = new Map<number, (r: any) => void>()
  peer.onJson = (r) => {
    sched.touch()
    if (r.role === 'client') waiting.get(r.id)?.(r)
    else if (r.role === 'server') {
      const x = calls.find((y) => y.goId === r.id)
      if (x) {
        if (x.srvRes) fail('go-handler-twice', `call ${x.id}: the Go handler ran twice`)
        x.srvRes = r
      }
    }
  }
  const first = await peer.reset({ id: i, missing: [missing], fail: [failing] })
  if (first.goroutines > 2) fail('go-leak', 'before the case: ' + first.stacks)
  // one connection for all calls
  let conn: any
  let socket: WebSocket | undefined
  if (o.via === 'mux') {
    const id = peer.next
    peer.next += 2
    const outbound = rng.p(0.5)
    const [a, b] = link(peer, id, rng, sched, maxPause, () => linksEnded++)
    ends.push(a)
    bridges.push(b)
    conn = new StreamConn(server, outbound ? (rng.p(0.5) ? undefined : { direction: 'outbound' }) : { direction: 'inbound' })
    pipe(a, conn, combineUint8ArrayListTransform(), a as any)
      .catch((err: Error) => conn.close(err))
      .then(() => conn.close())
    peer.json({ cmd: 'mux', conn: id, outbound: !outbound })
  } else if (o.via === 'ws') {
    const before = peer.onJson
    const port = await new Promise<number>((resolve) => {
      peer.onJson = (r) => resolve(r.port)
      peer.json({ cmd: 'http' })
    })
    peer.onJson = before
    socket = new WebSocket(`ws://127.0.0.1:${port}/rpc`)
    socket.addEventListener('message', () => sched.touch())
    if (rng.p(0.5)) await new Promise((r) => (socket!.addEventListener('open', r), socket!.addEventListener('error', r)))
    conn = new WebSocketConn(socket as any, 'outbound', rng.p(0.5) ? server : undefined)
    if (conn.getSocket() !== socket) fail('ts-websocket', 'getSocket does not return the socket')
  }
  const openGo = async () => {
    opening++
    if (rng.p(0.3)) await sched.pause(rng.int(5))
    opening--
    if (conn) return conn.openStream()
    const id = peer.next
    peer.next += 2
    const [a, b] = link(peer, id, rng, sched, maxPause, () => linksEnded++)
    ends.push(a)
    bridges.push(b)
    peer.frame(id, OPEN)
    return streamToPacketStream(a as any)
  }
  const script = (x: (typeof calls)[0], msgs: Uint8Array[], ops: any[]) => ({
    id: x.goId, svc: svcOf(x), method: metOf(x), kind: x.kind, ops,
    msgs: msgs.map((m, k) => b64(Blob.toBinary({ data: m, n: numOf(m, k) }))),
  })
  for (const x of calls) if (x.toGo && x.target === 'ok') peer.json({ cmd: 'serve', ...script(x, x.resps, x.server) })
  if (o.via === 'ws') {
    // the commands do not take the way of the calls
    const before = peer.onJson
    await new Promise<void>((resolve) => {
      peer.onJson = (r) => (r.sync === undefined ? before(r) : resolve())
      peer.json({ cmd: 'sync', id: i })
    })
    peer.onJson = before
  }
  const done = calls.map(() => false)
  const runs = calls.map(async (x, k) => {
    await sched.pause(rng.int(6))
    if (x.toGo) {
      const opened = new Gate()
      let client: any = new Client(async () => {
        opened.release()
        return openGo()
      })
      if (conn && rng.p(0.3)) {
        opened.release()
        client = conn.buildClient()
      }
      for (const id of x.comp ?? []) client = nestedClient(client, id, !!x.ack)
      await runCall(x, client, sched, rng, opened.wait)
    } else {
      let cancel = -1
      if (x.abort) cancel = x.abort.at === 'recv' ? x.abort.n : 0
      const p = new Promise<any>((r) => waiting.set(x.goId!, r))
      peer.json({ cmd: 'call', ...script(x, x.reqs, x.client), cancel, nested: x.comp, waitAck: !!x.ack })
      lateAborts.set(x, () => peer.json({ cmd: 'cancel', id: x.goId }))
      const r = await p
      x.res = r
      x.sent = r.sent
      decode(x, r.recv, x.cliRecv)
      x.outcome = r.done
    }
    done[k] = true
  })
  const all = Promise.all(runs)
  if (o.cut && o.via === 'ws') {
    void (async () => {
      const how = rng.int(4)
      await sched.pause(rng.int(80))
      if (how === 0) conn.close()
      else if (how === 1) conn.close(new Error('gone'))
      else if (how === 2) socket!.close()
      else peer.json({ cmd: 'cut' })
      for (let k = 0; k < 20 && !done.every(Boolean); k++) await sched.pause(5)
      peer.json({ cmd: 'cut' })
    })()
  } else if (o.cut) {
    const err = rng.p(0.5) ? 'connection reset' : undefined
    void (async () => {
      await sched.pause(rng.int(80))
      for (const e of [...ends, ...bridges]) if (rng.p(0.7)) e.rd.cut = { after: e.rd.count + rng.int(60), error: err }
      for (let r = 0; r < 40 && !done.every(Boolean); r++) {
        await sched.pause(5)
        for (const e of [...ends, ...bridges]) {
          e.rd.cut ??= { after: e.rd.count + 40, error: err }
          if (r > 8) {
            e.rd.cut.after = e.rd.count
            ;(e.rd as any).run()
          }
        }
      }
    })()
  }
  const isDone = () => done.every(Boolean) || !!peer.dead
  if (o.cut || calls.some((x) => x.abort)) {
    await Promise.race([all, sched.idle(isDone, 40)])
    if (!isDone()) for (const x of calls) if (x.abort && x.outcome === undefined) lateAborts.get(x)?.()
  }
  if (!isDone()) await Promise.race([all, sched.idle(isDone)])
  const settled = done.every(Boolean)
  if (peer.dead) {
    fail('go-process-ended', peer.dead + '\n' + calls.map(describe).join('\n'))
  } else {
    // handlers which wait must learn of the end of their call
    const waits = (x: Call) => x.srvStarted > 0 && x.srvDone === undefined && !hangs(x)
    if (settled) {
      const over = await sched.until(() => !calls.some(waits))
      for (const x of calls) if (!over && waits(x)) fail('ts-handler-hangs', `call ${x.id} (${x.kind}): the call of the Go client is over, the TypeScript handler still waits for a message\n${describe(x)}`)
    }
    for (const x of calls) free(x)
    if (settled && conn && !failures.length) {
      // the handlers learn of the end of their calls before the connection ends
      if (!o.cut) await sched.until(() => calls.every((x) => !x.toGo || x.target !== 'ok' || !!x.abort || (x.lookup ?? 'ok') !== 'ok' || !!x.srvRes), 2000)
      // (what a call had sent beyond the window of the muxer and nobody read waits for the end of the connection)
      const full = calls.some((x) => [...x.reqs, ...x.resps].reduce((n, b) => n + b.length, 0) > 200000)
      if (!o.cut && !full && !(await sched.until(() => conn.streams.length === 0)))
        fail('ts-stream-leak', `${conn.streams.length} streams of the TypeScript muxer are open after the end of all calls\n` + calls.map(describe).join('\n'))
      if (!o.cut && o.via === 'ws' && socket!.readyState > 1) fail('ts-websocket', 'the WebSocket ended although nobody closed it')
      conn.close(rng.p(0.3) ? new Error('done') : undefined)
      if (socket && !(await sched.until(() => socket!.readyState >= 2))) fail('ts-websocket', 'the WebSocket is open after the connection was closed')
    }
    if (settled && !failures.length) {
      if (!(await sched.until(() => running === 0))) fail('ts-nested-leak', `${running} handlers of nested streams still run after the end of all calls\n` + calls.map(describe).join('\n'))
      const ended = await sched.until(() => opening === 0 && linksEnded === ends.length && !ends.some((e) => e.sinkStarted && !e.sinkDone))
      if (!ended) ends.forEach((e, k) => {
        if (e.sinkStarted && !e.sinkDone) fail('ts-stream-leak', `connection ${k}: the TypeScript end never ends its side after the end of the calls\n` + calls.map(describe).join('\n'))
      })
    }
    if (!settled) {
      for (const e of [...ends, ...bridges]) e.abort(new Error('harness: stop'))
      socket?.close()
    }
    const fin = await peer.reset({ id: i })
    for (const b of [...(first.bad ?? []), ...(fin.bad ?? [])]) fail('go-pushable', b + '\n' + calls.map(describe).join('\n'))
    if (settled && !failures.length) {
      if (fin.goroutines > 2) fail('go-leak', `${fin.goroutines - 2} goroutines of the Go process are left after the end of all calls\n${fin.stacks.slice(0, 3000)}\n` + calls.map(describe).join('\n'))
      else if (fin.open > 0) fail('go-leak', `${fin.open} connections are not closed by the Go process after the end of all calls`)
    }
    for (const x of calls) {
      if (x.srvRes) {
        x.srvStarted = x.srvRes.start
        x.srvSent = x.srvRes.sent
        decode(x, x.srvRes.recv, x.srvRecv)
        x.srvRecvEnd = x.srvRes.recvEnd || undefined
        x.srvDone = x.srvRes.done
      }
    }
    calls.forEach((x, k) => {
      if (x.lookup && x.lookup !== 'ok') {
        checkNested(x, fail, { lost: o.cut, clientDone: done[k], toGo: x.toGo, goClient: !x.toGo }, x.toGo ? 'multiple Read calls return no data or error' : 'lookup failed: ' + failing)
        return
      }
      checkCall(x, fail, { lost: o.cut, clientDone: done[k], go: x.toGo ? 'server' : 'client', nested: o.nested, reset: !!o.via })
    })
    if (o.nested && settled) checkComponents(calls, [...comps, ...(fin.components ?? [])], !!o.cut, fail)
  }
  for (const x of calls) {
    c.rep.count('calls ' + (x.toGo ? 'TypeScript to Go' : 'Go to TypeScript'))
    c.rep.count('messages received', x.cliRecv.length + x.srvRecv.length)
    c.rep.count('outcome ' + (x.outcome === 'ok' ? 'ok' : x.outcome === 'error: ' + ABORT || x.outcome === 'error: context canceled' ? 'abort' : x.outcome ? 'error' : 'none'))
    if (x.abort) c.rep.count('aborts')
    if (x.lookup && x.lookup !== 'ok') c.rep.count('failed lookups')
    if (x.srvRecvEnd?.startsWith('error')) c.rep.count('handlers which saw an error on their stream')
  }
  c.rep.sig([o.cut, calls.map((x) => [x.toGo, x.kind, x.client, x.server, x.reqs.map((b) => b.length), x.abort, x.target, x.comp, x.lookup])])
  c.rep.hist(calls.map((x) => [x.log.join(';'), x.outcome, x.srvDone, x.cliRecv.length, x.srvRecv.length].join('/')).join('|').replace(/\d+ (srv|cli|abort)/g, '$1'))
  if (c.rep.samples.length < 2) c.rep.samples.push({ calls: calls.map((x) => ({ toGo: x.toGo, kind: x.kind, client: x.client, server: x.server, outcome: x.outcome, comp: x.comp })) })
  for (const [key, msg] of failures) c.rep.violation(key, i, (o.cut ? '(cut) ' : '') + msg)
  peer.conns.clear()
  if (peer.dead || !settled) {
    peer.proc.kill('SIGKILL')
    return false
  }
  return true
}

function decode(x: Call, msgs: string[] | null, into: Uint8Array[]) {
  for (const s of msgs ?? []) {
    const raw = new Uint8Array(Buffer.from(s, 'base64'))
    let m: any
    try {
      m = Blob.fromBinary(raw)
    } catch (err) {
      x.log.push('recv with number: not a message: ' + hex(raw))
      m = {}
    }
    into.push(m.data ?? EMPTY)
    if ((m.n ?? 0) !== numOf(m.data ?? EMPTY, into.length - 1)) x.log.push(' recv with number ' + m.n)
  }
}
