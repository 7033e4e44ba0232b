// Scripted calls and what must hold of them.
import { createMessageType, ScalarType, MethodKind, mode } from '@aptre/protobuf-es-lite'
import { pipe } from 'it-pipe'
import { pushable } from 'it-pushable'
import { Client, Server, createHandler, createMux, StreamConn, ChannelStream, MessagePortConn, BroadcastChannelConn, BroadcastChannelDuplex, WebSocketConn, combineUint8ArrayListTransform } from '@repo/index.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { Rng, Sched, Gate, hex, same, errText, makePair, muxFactory, immediate, type End, type Ctx } from './lib.js'
import { nestedClient, nestedService } from './nested.js'

export const Blob: any = createMessageType({
  typeName: 'verif.Blob',
  fields: [
    { no: 1, name: 'data', kind: 'scalar', T: ScalarType.BYTES },
    { no: 2, name: 'n', kind: 'scalar', T: ScalarType.UINT32 },
  ],
  packedByDefault: true,
})
export type Kind = 'U' | 'CS' | 'SS' | 'BD'
export const KINDS: Record<Kind, any> = {
  U: MethodKind.Unary,
  CS: MethodKind.ClientStreaming,
  SS: MethodKind.ServerStreaming,
  BD: MethodKind.BiDiStreaming,
}
// numOf is the number sent with the k-th message: none with some empty messages.
export const numOf = (data: Uint8Array, k: number) => (data.length === 0 ? 0 : k + 1)
export const ABORT = 'ERR_RPC_ABORT'

export type Op =
  | { t: 'send'; k: number }
  | { t: 'recv' }
  | { t: 'recvAll' }
  | { t: 'pause'; n: number }
  | { t: 'wait'; g: string }
  | { t: 'throw'; text: string; raw?: boolean }
  | { t: 'hang' }

export interface Call {
  id: number
  kind: Kind
  svc: string
  method: string
  target: 'ok' | 'noMethod' | 'noService' | 'noServer'
  reqs: Uint8Array[]
  resps: Uint8Array[]
  client: Op[]
  server: Op[]
  abort?: { at: 'before' | 'open' | 'ticks' | 'recv' | 'sent'; n: number }
  consumePause: number
  reverse?: boolean
  // comp are the components of the nested streams the call goes through, outermost first
  comp?: string[]
  ack?: boolean
  lookup?: 'ok' | 'missing' | 'fail'
  // what happened
  log: string[]
  gates: Map<string, Gate>
  sent: number
  srvRecv: Uint8Array[]
  srvRecvEnd?: string
  srvStarted: number
  srvSent: number
  srvDone?: string
  srvDoneAt?: number
  cliRecv: Uint8Array[]
  outcome?: string
  outcomeAt?: number
  abortedAt?: number
  srcReturned?: boolean
  // free: nothing waits any more
  free?: boolean
}

export const EMPTY = new Uint8Array(0)
let clock = 0
export function payload(rng: Rng, id: number, dir: string, k: number): Uint8Array {
  const r = rng.int(20)
  if (r === 0) return new Uint8Array(0)
  const head = Buffer.from(`${dir}${id}.${k}:`)
  if (r === 1 && rng.p(0.08)) {
    const b = new Uint8Array(rng.pick([16384, 65536, 65536, 131072, 200000, 262144, 400000]) + rng.range(-8, 8))
    b.set(head)
    for (let i = head.length, x = rng.u32() | 1; i < b.length; i++) b[i] = (x = Math.imul(x, 1664525) + 1013904223) >>> 24
    return b
  }
  const n = r < 14 ? rng.int(40) : r < 18 ? rng.int(2000) : rng.int(9000)
  const b = new Uint8Array(head.length + n)
  b.set(head)
  for (let i = head.length; i < b.length; i++) b[i] = rng.u32() & 255
  return b
}
export const TEXTS = ['boom', 'error: with "quotes"', 'caf\u00e9 \u4e16\u754c', 'x'.repeat(700), 'ERR_OTHER', 'EOF', 'context canceled', 'not found: a/b', '\u0000nul', ' lead']

export function genCall(rng: Rng, id: number, opt: { abort?: number; fail?: number; fault?: boolean; many?: boolean; raw?: boolean } = {}): Call {
  const kind = rng.pick(['U', 'CS', 'SS', 'BD', 'BD'] as Kind[])
  const target = rng.p(0.06) ? (rng.p(0.5) ? 'noMethod' : 'noService') : 'ok'
  const counts = opt.many ? [1, 17, 40, 130, 300] : [0, 1, 2, 3, 5, 12]
  const nreq = kind === 'U' || kind === 'SS' ? 1 : rng.pick(counts)
  const nresp = kind === 'U' || kind === 'CS' ? 1 : rng.pick(counts)
  const c: Call = {
    id, kind, target,
    svc: `svc.${rng.int(3)}`, method: `M${id}`,
    reqs: [], resps: [], client: [], server: [], consumePause: rng.p(0.3) ? rng.range(1, 5) : 0,
    log: [], gates: new Map(), sent: 0, srvRecv: [], srvStarted: 0, srvSent: 0, cliRecv: [],
  }
  for (let k = 0; k < nreq; k++) c.reqs.push(payload(rng, id, 'q', k))
  for (let k = 0; k < nresp; k++) c.resps.push(payload(rng, id, 'r', k))
  const pause = (l: Op[]) => {
    if (rng.p(0.4)) l.push({ t: 'pause', n: rng.range(1, 8) })
  }
  const lockstep = kind === 'BD' && rng.p(0.4) && nreq > 0
  const willAbort = rng.p(opt.abort ?? 0)
  const willFail = rng.p(opt.fail ?? 0)
  if (lockstep) {
    // the client sends only after the answer to the message before
    const n = Math.min(nreq, nresp)
    for (let k = 0; k < n; k++) {
      if (k > 0) c.client.push({ t: 'wait', g: 'cr' + k })
      pause(c.client)
      c.client.push({ t: 'send', k })
      c.server.push({ t: 'recv' })
      pause(c.server)
      c.server.push({ t: 'send', k })
    }
    c.server.push({ t: 'recvAll' })
  } else {
    const seesAll = kind === 'CS' || kind === 'BD'
    const all = rng.p(0.75)
    if (seesAll) {
      for (let k = 0; k < nreq; k++) {
        pause(c.client)
        c.client.push({ t: 'send', k })
        if (all && rng.p(0.15) && kind === 'CS') c.client.push({ t: 'wait', g: 'sr' + (k + 1) })
      }
      pause(c.client)
    }
    let recvs = seesAll ? (all ? nreq : rng.int(nreq + 1)) : 0
    let sends = kind === 'SS' || kind === 'BD' ? nresp : 0
    let k = 0
    while (recvs > 0 || sends > 0) {
      pause(c.server)
      if (recvs > 0 && (sends === 0 || rng.p(0.5))) {
        recvs--
        c.server.push({ t: 'recv' })
      } else {
        sends--
        c.server.push({ t: 'send', k: k++ })
        if (rng.p(0.15) && kind === 'SS') c.server.push({ t: 'wait', g: 'cr' + k })
      }
    }
    if (seesAll && all) c.server.push({ t: 'recvAll' })
    pause(c.server)
  }
  if (rng.p(0.25)) c.server.push({ t: 'throw', text: rng.pick(TEXTS), raw: opt.raw && rng.p(0.2) })
  if (willFail && (kind === 'CS' || kind === 'BD')) {
    c.client.push({ t: 'throw', text: 'client source ' + rng.pick(TEXTS) })
  } else if (willAbort) {
    if (rng.p(0.4)) c.server.splice(rng.int(c.server.length + 1), 0, { t: 'hang' })
    if (rng.p(0.3) && (kind === 'CS' || kind === 'BD')) c.client.push({ t: 'hang' })
    const at = rng.pick(['before', 'open', 'ticks', 'ticks', 'ticks', 'recv', 'sent'] as const)
    c.abort = { at, n: at === 'ticks' ? rng.int(40) : at === 'recv' ? rng.int(c.resps.length + 1) : at === 'sent' ? rng.int(nreq + 1) : 0 }
    if (at === 'sent' && (kind === 'U' || kind === 'SS')) c.abort.n = 0
  }
  return c
}

function gate(c: Call, name: string): Gate {
  let g = c.gates.get(name)
  if (!g) {
    g = new Gate()
    c.gates.set(name, g)
    if (c.free) g.release()
  }
  return g
}
export function free(c: Call) {
  c.free = true
  for (const g of c.gates.values()) g.release()
}
function ev(c: Call, what: string) {
  clock++
  c.log.push(clock + ' ' + what)
  return clock
}

// implOf builds the implementation of the method of a call.
export function implOf(c: Call, sched: Sched, rng: Rng): any {
  const blob = (k: number) => Blob.create({ data: c.resps[k], n: numOf(c.resps[k], k) })
  const gotReq = (m: any) => {
    c.srvRecv.push(m.data ?? new Uint8Array(0))
    if ((m.n ?? 0) !== numOf(m.data ?? EMPTY, c.srvRecv.length - 1)) ev(c, 'srv recv with number ' + m.n)
    ev(c, 'srv recv ' + c.srvRecv.length)
    gate(c, 'sr' + c.srvRecv.length).release()
  }
  const done = (what: string) => {
    c.srvDone = what
    c.srvDoneAt = ev(c, 'srv done ' + what)
  }
  async function* body(it: AsyncIterator<any> | null): AsyncGenerator<any> {
    const next = async (): Promise<boolean> => {
      try {
        const r = await it!.next()
        if (r.done) {
          c.srvRecvEnd = 'end'
          ev(c, 'srv recv end')
          return false
        }
        gotReq(r.value)
        return true
      } catch (err) {
        c.srvRecvEnd = 'error: ' + errText(err)
        ev(c, 'srv recv ' + c.srvRecvEnd)
        throw err
      }
    }
    try {
      for (const op of c.server) {
        switch (op.t) {
          case 'pause':
            await sched.pause(op.n)
            break
          case 'wait':
            await gate(c, op.g).wait
            break
          case 'hang':
            await gate(c, 'hang').wait
            break
          case 'recv':
            await next()
            break
          case 'recvAll':
            while (await next());
            break
          case 'send':
            c.srvSent++
            ev(c, 'srv send ' + c.srvSent)
            yield blob(op.k)
            break
          case 'throw':
            if (op.raw) throw op.text
            throw new Error(op.text)
        }
      }
      done('ok')
    } catch (err) {
      done('error: ' + errText(err))
      throw err
    } finally {
      // as a handler does which reads with for await
      if (it && rng.p(0.5)) await it.return?.()
    }
  }
  const started = () => {
    c.srvStarted++
    ev(c, 'srv start')
  }
  switch (c.kind) {
    case 'U':
    case 'CS':
      return async (req: any) => {
        started()
        let it: any = null
        if (c.kind === 'U') gotReq(req)
        else it = req[Symbol.asyncIterator]()
        for await (const _ of body(it));
        c.srvSent++
        return blob(0)
      }
    case 'SS':
      return (req: any) => {
        started()
        gotReq(req)
        return body(null)
      }
    case 'BD':
      return (req: any) => {
        started()
        return body(req[Symbol.asyncIterator]())
      }
  }
}

// muxOf builds a mux with the handlers of the calls.
export function muxOf(calls: Call[], sched: Sched, rng: Rng, filter: (c: Call) => boolean = () => true): any {
  const mux = createMux()
  const bySvc = new Map<string, { methods: any; impl: any }>()
  for (const c of calls) {
    if (!filter(c) || c.target !== 'ok') continue
    let s = bySvc.get(c.svc)
    if (!s) bySvc.set(c.svc, (s = { methods: {}, impl: {} }))
    s.methods[c.method] = { name: c.method, I: Blob, O: Blob, kind: KINDS[c.kind] }
    s.impl[c.method] = implOf(c, sched, rng)
  }
  for (const [svc, s] of bySvc) {
    const own = rng.p(0.5)
    const h = createHandler({ typeName: own ? 'other.' + svc : svc, methods: s.methods } as any, s.impl, own ? svc : undefined)
    if (rng.p(0.3)) {
      const sub = createMux()
      sub.register(h)
      mux.registerLookupMethod(sub.lookupMethod)
    } else {
      mux.register(h)
    }
  }
  return mux
}

export const svcOf = (c: Call) => (c.target === 'noService' ? 'unknown.' + c.svc : c.svc)
export const metOf = (c: Call) => (c.target === 'noMethod' ? 'Unknown' + c.method : c.method)

// runCall makes the call through the client.
export async function runCall(c: Call, client: any, sched: Sched, rng: Rng, opened?: Promise<void>) {
  const ctl = new AbortController()
  const abort = () => {
    if (c.abortedAt === undefined && c.outcome === undefined) {
      c.abortedAt = ev(c, 'abort')
      ctl.abort()
    }
  }
  if (c.abort?.at === 'before') abort()
  if (c.abort?.at === 'ticks') void sched.pause(c.abort.n).then(abort)
  if (c.abort?.at === 'open') void opened?.then(abort)
  if (c.abort?.at === 'recv' && c.abort.n === 0) void sched.pause(rng.int(10)).then(abort)
  if (c.abort?.at === 'sent' && c.abort.n === 0) void sched.pause(rng.int(10)).then(abort)
  // an abort which did not come to its point comes once all else is quiet
  lateAborts.set(c, abort)
  const enc = (k: number) => Blob.toBinary({ data: c.reqs[k], n: numOf(c.reqs[k], k) })
  async function* source(): AsyncGenerator<Uint8Array> {
    try {
      for (const op of c.client) {
        switch (op.t) {
          case 'pause':
            await sched.pause(op.n)
            break
          case 'wait':
            await gate(c, op.g).wait
            break
          case 'hang':
            await gate(c, 'hang').wait
            break
          case 'send':
            c.sent++
            ev(c, 'cli send ' + c.sent)
            if (c.abort?.at === 'sent' && c.abort.n === c.sent) void sched.pause(rng.int(3)).then(abort)
            yield enc(op.k)
            break
          case 'throw':
            ev(c, 'cli source throws')
            throw new Error(op.text)
        }
      }
      ev(c, 'cli source end')
    } finally {
      c.srcReturned = true
    }
  }
  const got = async (b: Uint8Array) => {
    const m = Blob.fromBinary(b)
    c.cliRecv.push(m.data ?? new Uint8Array(0))
    if ((m.n ?? 0) !== numOf(m.data ?? EMPTY, c.cliRecv.length - 1)) ev(c, 'cli recv with number ' + m.n)
    ev(c, 'cli recv ' + c.cliRecv.length)
    gate(c, 'cr' + c.cliRecv.length).release()
    if (c.abort?.at === 'recv' && c.abort.n === c.cliRecv.length) {
      if (rng.p(0.5)) abort()
      else void sched.pause(1).then(abort)
    }
    if (c.consumePause) await sched.pause(rng.int(c.consumePause + 1))
  }
  const sig = c.abort || rng.p(0.3) ? ctl.signal : undefined
  const svc = svcOf(c)
  const met = metOf(c)
  try {
    if (c.kind === 'U') {
      c.sent = 1
      await got(await client.request(svc, met, enc(0), sig))
    } else if (c.kind === 'CS') {
      await got(await client.clientStreamingRequest(svc, met, source(), sig))
    } else {
      if (c.kind === 'SS') c.sent = 1
      const it = c.kind === 'SS' ? client.serverStreamingRequest(svc, met, enc(0), sig) : client.bidirectionalStreamingRequest(svc, met, source(), sig)
      for await (const b of it) await got(b)
    }
    c.outcome = 'ok'
  } catch (err) {
    c.outcome = 'error: ' + errText(err)
    if (!(err instanceof Error) && !((err as any)?.message)) ev(c, 'the failure is not an error: ' + typeof err)
  }
  c.outcomeAt = ev(c, 'cli ' + c.outcome)
}

export function describe(c: Call): string {
  const { log, gates, reqs, resps, srvRecv, cliRecv, ...rest } = c
  void gates
  return (
    JSON.stringify({ ...rest, reqs: reqs.map(hex), resps: resps.map(hex), srvRecv: srvRecv.map(hex), cliRecv: cliRecv.map(hex) }) +
    '\n' +
    log.slice(-60).join('\n')
  )
}

function prefix(got: Uint8Array[], want: Uint8Array[]): string | null {
  if (got.length > want.length) return `got ${got.length} messages of ${want.length}`
  for (let i = 0; i < got.length; i++) if (!same(got[i], want[i])) return `message ${i + 1} is ${hex(got[i])} but ${hex(want[i])} was sent`
  return null
}

// scriptOutcome is the end of the handler if nothing disturbs it.
function scriptThrow(c: Call): string | null {
  const t = c.server.find((o) => o.t === 'throw') as any
  return t ? 'error: ' + t.text : null
}

export type Fail = (key: string, msg: string) => void

// checkCall judges a finished call. lost: the connection was cut.
export function checkCall(c: Call, fail: Fail, o: { lost?: boolean; clientDone: boolean; go?: 'client' | 'server'; nested?: boolean; reset?: boolean }) {
  const f = (key: string, what: string) => fail(key, `call ${c.id} (${c.kind}): ${what}\n${describe(c)}`)
  const clientFails = c.client.find((x) => x.t === 'throw') as any
  if (!o.clientDone) {
    f('ts-call-hangs', 'the client never learns of the end of the call although nothing more can happen')
    return
  }
  const bad = c.log.find((l) => / recv with number /.test(l) || /not an error/.test(l))
  if (bad) f('ts-message-order', bad)
  const p1 = prefix(c.srvRecv, c.reqs.slice(0, Math.max(c.sent, 0)))
  if (p1) f('ts-request-changed', 'at the handler: ' + p1)
  const p2 = prefix(c.cliRecv, c.resps.slice(0, Math.max(c.srvSent, 0)))
  if (p2) f('ts-response-changed', 'at the client: ' + p2)
  if (c.srvStarted > 1) f('ts-handler-twice', 'the handler ran ' + c.srvStarted + ' times')
  if (c.target !== 'ok') {
    if (c.srvStarted) f('ts-wrong-handler', 'a handler ran')
    if (c.outcome === 'ok') f('ts-unregistered-ok', 'a call to a method nobody registered succeeded')
    else if (c.outcome !== 'ok' && !c.abort && !o.lost && !clientFails && c.target !== 'noServer' && o.go !== 'server') {
      if (!c.outcome!.includes(svcOf(c) + '/' + metOf(c))) f('ts-unregistered-text', 'the error does not name the method: ' + c.outcome)
    }
    return
  }
  const disturbed = c.abort !== undefined || o.lost || clientFails
  // success means that everything was there
  if (c.outcome === 'ok') {
    if (c.srvDone !== 'ok') f('ts-ok-but-failed', 'the client sees success, the handler: ' + c.srvDone)
    else if (c.cliRecv.length !== c.resps.length && (c.kind === 'U' || c.kind === 'CS' || c.cliRecv.length !== c.srvSent))
      f('ts-response-lost', `the client got ${c.cliRecv.length} of ${c.srvSent} messages and success`)
  }
  if (c.srvRecvEnd === 'end' && (c.kind === 'CS' || c.kind === 'BD')) {
    if (c.srvRecv.length !== c.sent || c.client.filter((x) => x.t === 'send').length !== c.sent)
      f('ts-request-lost', `the handler saw the end after ${c.srvRecv.length} of ${c.client.filter((x) => x.t === 'send').length} messages`)
    if (clientFails) f('ts-source-error-as-end', 'the source of the client failed, the handler saw a regular end')
    if (c.client.some((x) => x.t === 'hang')) f('ts-end-not-sent', 'the handler saw an end which the client did not send')
  }
  if (!disturbed) {
    if (!c.srvStarted) f('ts-handler-not-run', 'the handler did not run: ' + c.outcome)
    const want = scriptThrow(c) ?? 'ok'
    if (c.srvDone !== want) f('ts-handler-disturbed', `the handler ended with ${c.srvDone} instead of ${want}`)
    else if (c.server.some((x) => x.t === 'throw' && x.raw)) {
      // not an error: the client gets one all the same, of a single reply also with the text
      if (!c.outcome?.startsWith('error: ') || ((c.kind === 'U' || c.kind === 'CS') && !c.outcome.includes(want.slice(7))))
        f('ts-outcome', `the handler threw the text ${want}, the client ended with ${c.outcome}`)
    } else if (c.outcome !== want) f('ts-outcome', `the handler ended with ${want}, the client with ${c.outcome}`)
    return
  }
  if (o.go && c.abort && (o.go === 'client' || c.abortedAt !== undefined)) {
    // there is no common clock
    const aborted = 'error: ' + (o.go === 'client' ? 'context canceled' : ABORT)
    if (c.outcome !== aborted && c.outcome !== c.srvDone && !o.lost && !(o.go === 'client' && o.nested && /closed/.test(c.outcome!)) && !(o.reset && o.go === 'client' && c.outcome === 'error: stream reset'))
      f('ts-outcome', `the call was aborted, the handler ended with ${c.srvDone}, the client with ${c.outcome}`)
    return
  }
  if (c.abort?.at === 'before' && c.srvStarted) f('ts-aborted-call-made', 'the call was aborted before it was made, its handler ran')
  if (c.abortedAt !== undefined) {
    // an abort ends the call, or it came too late
    if (c.outcome !== 'error: ' + ABORT) {
      if (c.srvDoneAt === undefined || c.srvDoneAt > c.abortedAt) {
        if (!o.lost) f('ts-abort-ignored', `aborted before the handler ended, but the outcome is ${c.outcome}`)
      } else if (!o.lost && c.outcome !== c.srvDone) {
        f('ts-outcome', `the handler ended with ${c.srvDone}, the client with ${c.outcome}`)
      }
    }
    return
  }
  if (o.lost) {
    return
  }
  if (clientFails) {
    const own = 'error: ' + clientFails.text
    if (c.outcome !== own) {
      // the handler may end before it learns of the failure
      if (c.srvDone !== c.outcome) f('ts-outcome', `the source of the client failed (${own}), the handler ended with ${c.srvDone}, the client with ${c.outcome}`)
    }
    if (c.srvRecvEnd?.startsWith('error: ') && c.srvRecvEnd !== own) f('ts-source-error-text', `the source of the client failed (${own}), the handler saw ${c.srvRecvEnd}`)
  }
}

export function genNested(x: Call, rng: Rng, missing: string, failing: string) {
  x.ack = rng.p(0.5)
  x.lookup = rng.pick(['ok', 'ok', 'ok', 'ok', 'missing', 'fail'] as const)
  x.comp = []
  for (let d = rng.pick([1, 1, 1, 2, 3]); d > 0; d--) x.comp.push(rng.pick(['a', 'comp/' + x.id, 'x y\u00fc', '%41', 'a'.repeat(300), ' lead', '__proto__']))
  if (x.lookup !== 'ok') x.comp[x.comp.length - 1] = x.lookup === 'missing' ? missing : failing
}

// checkNested judges a call to a component whose lookup failed.
export function checkNested(x: Call, fail: Fail, o: { lost?: boolean; clientDone: boolean; toGo?: boolean; goClient?: boolean }, want: string) {
  const f = (key: string, what: string) => fail(key, `call ${x.id}: the lookup of its component failed (${x.lookup}) but ${what}\n` + describe(x))
  if (x.srvStarted) f('ts-wrong-component', 'a handler ran')
  if (!o.clientDone) f('ts-call-hangs', 'the client never learns of it')
  else if (x.outcome === 'ok') {
    if (!(o.goClient && (o.lost || x.abort))) f('ts-component-ok', 'the call succeeded')
  } else if (!o.lost && !x.abort && !x.client.some((p) => p.t === 'throw')) {
    // without waiting for the ack a Go client may fail to send instead
    if (o.goClient && !x.ack && /closed/.test(x.outcome!)) return
    // without a server the caller must not see an end or an abort
    if (/ABORT|context canceled|STREAM_CLOSED|EOF/.test(x.outcome!)) f('ts-component-error', 'the client sees ' + x.outcome)
    else if (x.lookup === 'fail' && !x.outcome!.includes(want)) f('ts-component-error', `the client sees ${x.outcome} instead of ${want}`)
  }
}

// checkComponents: only components which were asked for were looked up.
export function checkComponents(calls: Call[], got: string[], lost: boolean, fail: Fail) {
  const want = calls.flatMap((x) => x.comp ?? [])
  const bad = got.find((x) => !want.includes(x))
  if (bad !== undefined) fail('ts-component-id', `component ${JSON.stringify(bad)} was looked up, nobody asked for it: ${JSON.stringify(want)}`)
  else if (!lost && !calls.some((x) => x.abort || x.client.some((p) => p.t === 'throw'))) {
    if ([...got].sort().join('|') !== [...want].sort().join('|')) fail('ts-component-id', `looked up ${JSON.stringify(got)}, asked for ${JSON.stringify(want)}`)
  }
}

// ---- the transports ----------------------------------------------------

export type Transport = 'packet' | 'framed' | 'muxed' | 'channel' | 'muxchan' | 'portconn' | 'bcastconn' | 'wsconn'
export interface World {
  open: (reverse: boolean) => () => Promise<any>
  ends: End[]
  muxers: any[]
  openHook?: () => void
  close: () => void
  // conns are the connections over channels, which tell each other of their end.
  conns?: any[]
}

// socketPair makes two connected sockets with the interface of a WebSocket.
function socketPair(rng: Rng, sched: Sched): any[] {
  class Sock extends EventTarget {
    readyState = 0
    binaryType = 'blob'
    peer!: Sock
    queue: (() => void)[] = []
    running = false
    post(f: () => void) {
      this.queue.push(f)
      if (!this.running) void this.run()
    }
    async run() {
      this.running = true
      while (this.queue.length) {
        if (rng.p(0.5)) await immediate()
        this.queue.shift()!()
      }
      this.running = false
    }
    send(b: Uint8Array) {
      if (this.readyState === 0) throw new DOMException('still connecting', 'InvalidStateError')
      if (this.readyState !== 1) return
      const copy = b.slice()
      this.peer.post(() => {
        if (this.peer.readyState > 1) return
        sched.touch()
        const ev: any = new Event('message')
        ev.data = copy.buffer
        this.peer.dispatchEvent(ev)
      })
    }
    close() {
      if (this.readyState >= 2) return
      this.readyState = 2
      this.post(() => this.over())
      this.peer.post(() => this.peer.over())
    }
    over() {
      if (this.readyState === 3) return
      this.readyState = 3
      sched.touch()
      this.dispatchEvent(new Event('close'))
    }
  }
  const l = [new Sock(), new Sock()]
  l[0].peer = l[1]
  l[1].peer = l[0]
  l.forEach((s) => {
    const open = () => {
      if (s.readyState) return
      s.readyState = 1
      s.dispatchEvent(new Event('open'))
    }
    if (rng.p(0.5)) open()
    else s.post(open)
  })
  return l
}

export function makeWorld(kind: Transport, rng: Rng, sched: Sched, servers: [any, any], o: { maxPause: number; openPause?: number }): World {
  const w: World = { open: () => async () => null, ends: [], muxers: [], close: () => {} }
  const serve = (srv: any, ps: any) => {
    if (rng.p(0.2) && srv.rpcStreamHandler) void srv.rpcStreamHandler(ps)
    else srv.handlePacketStream(ps)
  }
  const delay = async () => {
    if (o.openPause) await sched.pause(rng.int(o.openPause + 1))
  }
  if (kind === 'packet' || kind === 'framed') {
    w.open = (reverse) => async () => {
      await delay()
      const [a, b] = makePair({ rng, sched, packets: kind === 'packet', maxPause: o.maxPause, lists: true })
      w.ends.push(a, b)
      const srv = servers[reverse ? 1 : 0]
      if (kind === 'packet') {
        serve(srv, b)
        return a
      }
      serve(srv, streamToPacketStream(b as any))
      return streamToPacketStream(a as any)
    }
    return w
  }
  if (kind === 'channel') {
    sched.external = true
    const open: any[] = []
    w.open = (reverse) => async () => {
      await delay()
      let mk: (id: string, side: number) => any
      if (rng.p(0.6)) {
        const { port1, port2 } = new MessageChannel()
        mk = (id, side) => new ChannelStream(id, side ? port2 : port1)
      } else {
        const base = 'verif-' + process.pid + '-' + clock++ + '-' + rng.u32()
        const chans = [new BroadcastChannel(base + 'a'), new BroadcastChannel(base + 'b'), new BroadcastChannel(base + 'a'), new BroadcastChannel(base + 'b')]
        mk = (id, side) => new ChannelStream(id, side ? ({ tx: chans[1], rx: chans[2] } as any) : ({ tx: chans[0], rx: chans[3] } as any))
      }
      let a: any, b: any
      const mkA = () => (a = mk('client', 0))
      const mkB = () => {
        b = mk('server', 1)
        serve(servers[reverse ? 1 : 0], b)
      }
      if (rng.p(0.5)) {
        mkA()
        if (rng.p(0.5)) setTimeout(mkB, 2)
        else mkB()
      } else {
        mkB()
        if (rng.p(0.5)) await new Promise((r) => setTimeout(r, 2))
        mkA()
      }
      open.push(() => {
        a?.close()
        b?.close()
      })
      return a
    }
    w.close = () => open.forEach((f) => f())
    return w
  }
  // one connection with a muxer
  const own = rng.p(0.5)
  const params = (i: number) => ({
    ...(own ? { muxerFactory: muxFactory() as any } : rng.p(0.5) ? { yamuxParams: { enableKeepAlive: false } } : {}),
    ...(i ? { direction: 'inbound' as const } : rng.p(0.5) ? { direction: 'outbound' as const } : {}),
  })
  let make = (i: number): any => new StreamConn(servers[1 - i], params(i))
  if (kind === 'portconn') {
    const { port1, port2 } = new MessageChannel()
    make = (i) => new MessagePortConn((i ? port2 : port1) as any, servers[1 - i], params(i))
  } else if (kind === 'bcastconn') {
    const base = 'verif-' + process.pid + '-' + clock++ + '-' + rng.u32()
    const chan = (x: string) => new BroadcastChannel(base + x) as any
    make = (i) => new BroadcastChannelConn(new BroadcastChannelDuplex(chan(i ? 'a' : 'b'), chan(i ? 'b' : 'a')), servers[1 - i], params(i))
  }
  if (kind === 'wsconn') {
    const socks = socketPair(rng, sched)
    make = (i) => {
      const conn = new WebSocketConn(socks[i] as any, i ? 'inbound' : 'outbound', servers[1 - i])
      if (conn.getSocket() !== (socks[i] as any)) throw new Error('getSocket does not return the socket')
      return conn
    }
  }
  const conns = [0, 1].map(make)
  w.muxers = conns.map((c) => c.muxer)
  if (kind === 'muxed') {
    const pair = makePair({ rng, sched, packets: false, maxPause: o.maxPause, lists: true })
    w.ends.push(...pair)
    conns.forEach((conn, i) => {
      pipe(pair[i], conn, combineUint8ArrayListTransform(), pair[i])
        .catch((err: Error) => conn.close(err))
        .then(() => conn.close())
    })
  } else if (kind !== 'muxchan') {
    sched.external = true
    w.conns = conns
  } else {
    sched.external = true
    const { port1, port2 } = new MessageChannel()
    const chans = [new ChannelStream('one', port1), new ChannelStream('two', port2)]
    conns.forEach((conn, i) => {
      pipe(chans[i], conn, combineUint8ArrayListTransform(), chans[i])
        .catch((err: Error) => conn.close(err))
        .then(() => conn.close())
    })
    w.close = () => chans.forEach((c) => c.close())
  }
  w.open = (reverse) => {
    const f = rng.p(0.5) ? conns[reverse ? 1 : 0].buildOpenStreamFunc() : conns[reverse ? 1 : 0].openStream.bind(conns[reverse ? 1 : 0])
    return async () => {
      await delay()
      return f()
    }
  }
  const inner = w.close
  w.close = () => {
    conns.forEach((c) => c.close())
    inner()
  }
  return w
}

// callCase runs one case.
export async function callCase(c: Ctx, i: number, rng: Rng, kind: Transport, o: { abort?: number; fail?: number; cut?: boolean; n?: number; nested?: boolean; many?: boolean; raw?: boolean }) {
  const sched = new Sched()
  mode.fill = rng.p(0.5)
  const n = o.n ?? rng.pick([1, 1, 1, 2, 3, 6])
  const muxed = kind !== 'packet' && kind !== 'framed' && kind !== 'channel'
  const calls: Call[] = []
  const noServer = muxed && rng.p(0.2)
  for (let k = 0; k < n; k++) {
    const x = genCall(rng, k, o)
    x.reverse = muxed && rng.p(0.4)
    if (noServer && x.reverse) x.target = 'noServer'
    calls.push(x)
  }
  const failures: [string, string][] = []
  const fail: Fail = (key, msg) => failures.push([key, msg])
  const comps: string[] = []
  let nestedOpen = 0
  const missing = rng.pick(['gone', 'mi/ss\u00e9', ''])
  const failing = 'fail ' + rng.int(3)
  const mkServer = (reverse: boolean) => {
    const mux = muxOf(calls, sched, rng, (x) => !!x.reverse === reverse)
    const srv: any = new Server(mux.lookupMethod)
    if (o.nested) {
      mux.register(
        nestedService(
          async (id: string) => {
            comps.push(id)
            await sched.pause(rng.int(3))
            if (id === missing) return null
            if (id === failing) throw new Error('lookup failed: ' + id)
            return srv.rpcStreamHandler
          },
          (k) => (nestedOpen += k),
        ),
      )
    }
    return srv
  }
  if (o.nested) for (const x of calls) if (x.target !== 'noServer') genNested(x, rng, missing, failing)
  const servers: [any, any] = [mkServer(false), noServer ? undefined : mkServer(true)]
  const opening = calls.map(() => new Gate())
  const w = makeWorld(kind, rng, sched, servers, { maxPause: rng.pick([0, 2, 8]), openPause: rng.pick([0, 3, 10]) })
  const shared: any[] = []
  const share = rng.p(0.3)
  const late = rng.p(0.15)
  const done = calls.map(() => false)
  // a shared client may have had calls which could not open their streams, or
  // which still wait for them: other calls do not notice
  const hung: { ctl: AbortController; out: Promise<string>; kind: string; over?: string }[] = []
  const decoy = async (reverse: boolean, how: string) => {
    const called = new Gate()
    decoys[reverse ? 1 : 0] = (): any => {
      called.release()
      if (how === 'throw') throw new Error('cannot open: thrown')
      if (how === 'reject') return sched.pause(rng.int(4)).then(() => Promise.reject(new Error('cannot open: rejected')))
      return new Promise(() => {})
    }
    const ctl = new AbortController()
    const kind = rng.pick(['unary', 'client', 'server', 'bidi'])
    const client = shared[reverse ? 1 : 0]
    const one = async function* () {
      yield new Uint8Array([1])
    }
    const run = async () => {
      switch (kind) {
        case 'unary':
          return void (await client.request('decoy', kind, new Uint8Array([1]), ctl.signal))
        case 'client':
          return void (await client.clientStreamingRequest('decoy', kind, one(), ctl.signal))
        case 'server':
          for await (const _ of client.serverStreamingRequest('decoy', kind, new Uint8Array([1]), ctl.signal));
          return
        default:
          for await (const _ of client.bidirectionalStreamingRequest('decoy', kind, one(), ctl.signal));
      }
    }
    const d: any = { ctl, kind }
    d.out = run().then(
      () => (d.over = 'ok'),
      (e: any) => (d.over = 'error: ' + e?.message),
    )
    if (!(await sched.until(() => called.open))) {
      fail('ts-client-hangs', `a ${kind} call does not open a stream: others of its client wait for theirs or failed`)
      ctl.abort()
      return
    }
    delete decoys[reverse ? 1 : 0]
    c.rep.count('calls which could not open their stream')
    if (how === 'hang') {
      hung.push(d)
      return
    }
    const want = how === 'throw' ? 'error: cannot open: thrown' : 'error: cannot open: rejected'
    if (!(await sched.until(() => d.over !== undefined))) fail('ts-client-hangs', `a ${kind} call whose stream cannot be opened does not end`)
    else if (d.over !== want) fail('ts-outcome', `a ${kind} call whose stream cannot be opened: ended with ${d.over}, want ${want}`)
  }
  const decoys: ((() => any) | undefined)[] = []
  if (share && !late) {
    for (const reverse of [false, true]) {
      if (!calls.some((x) => !!x.reverse === reverse) || rng.p(0.4)) continue
      const open = w.open(reverse)
      shared[reverse ? 1 : 0] = new Client(() => {
        const d = decoys[reverse ? 1 : 0]
        if (d) return d()
        opening.forEach((g, j) => !!calls[j].reverse === reverse && g.release())
        return open()
      })
      for (let k = rng.int(3); k >= 0; k--) await decoy(reverse, rng.pick(['throw', 'reject', 'hang']))
    }
  }
  const runs = calls.map(async (x, k) => {
    let client: any
    const open = w.open(!!x.reverse)
    const f = async () => {
      opening[k].release()
      return open()
    }
    if (late) {
      client = new Client()
      const base = client
      void sched.pause(rng.int(20)).then(() => base.setOpenStreamFn(f))
    } else if (share) {
      client = shared[x.reverse ? 1 : 0] ??= new Client(() => {
        opening.forEach((g, j) => !!calls[j].reverse === !!x.reverse && g.release())
        return open()
      })
    } else {
      client = new Client(f)
    }
    for (const id of x.comp ?? []) client = nestedClient(client, id, !!x.ack)
    await sched.pause(rng.int(6))
    await runCall(x, client, sched, rng, opening[k].wait)
    done[k] = true
  })
  let lost = false
  if (o.cut && w.ends.length === 0 && !muxed) await sched.pause(rng.int(12))
  const all = Promise.all(runs)
  if (o.cut) {
    lost = true
    const cut = { after: 0, error: rng.p(0.5) ? 'connection reset' : undefined }
    const doCut = () => {
      for (const e of muxed ? w.ends : w.ends.slice()) {
        if (rng.p(0.7) || !e.rd.cut) {
          e.rd.cut = { after: e.rd.count + rng.int(40) * (kind === 'packet' ? 0 : 1) + rng.int(3), error: cut.error }
        }
      }
    }
    void (async () => {
      if (w.conns) {
        await new Promise((r) => setTimeout(r, rng.int(12)))
        rng.pick(w.conns).close(cut.error ? new Error(cut.error) : undefined)
        return
      }
      await sched.pause(rng.int(60))
      doCut()
      // and a flood which meets the cut
      for (let r = 0; r < 50 && !done.every(Boolean); r++) {
        await sched.pause(5)
        for (const e of w.ends) {
          e.rd.cut ??= { after: e.rd.count, error: cut.error }
          if (e.rd.cut) {
            e.rd.cut.after = Math.min(e.rd.cut.after, e.rd.count + 40)
            if (r > 8) {
              e.rd.cut.after = e.rd.count
              ;(e.rd as any).run()
            }
          }
        }
      }
    })()
  }
  let settled = await sched.settle(all, calls.some((x) => x.abort) ? 40 : undefined)
  if (!settled) {
    // an abort which did not come yet
    let again = false
    for (const x of calls) {
      if (x.abort && x.abortedAt === undefined && x.outcome === undefined) {
        again = true
        lateAborts.get(x)?.()
      }
    }
    if (again || sched.external) settled = await sched.settle(all)
  }
  for (const d of hung) {
    if (d.over !== undefined) fail('ts-outcome', `a ${d.kind} call whose stream is not open yet: ended with ${d.over}`)
    d.ctl.abort()
    if (!(await sched.until(() => d.over !== undefined))) fail('ts-client-hangs', `a ${d.kind} call aborted while its stream is opening does not end`)
    else if (d.over !== 'error: ' + ABORT) fail('ts-outcome', `a ${d.kind} call aborted while its stream is opening: ended with ${d.over}`)
  }
  calls.forEach((x, k) => {
    if (x.lookup && x.lookup !== 'ok') checkNested(x, fail, { lost, clientDone: done[k] }, 'lookup failed: ' + failing)
    else checkCall(x, fail, { lost, clientDone: done[k] })
  })
  if (o.nested && settled) checkComponents(calls, comps, lost, fail)
  if (settled && !failures.length) {
    // handlers which read must have learned of the end of their calls
    const waits = (x: Call) => x.srvStarted > 0 && x.srvDone === undefined && !hangs(x)
    const over = await sched.until(() => !calls.some(waits))
    for (const x of calls) {
      if (!over && waits(x)) {
        fail('ts-handler-hangs', `call ${x.id} (${x.kind}): the call is over, the handler still waits for a message\n${describe(x)}`)
      }
    }
    const openStreams = async (when: string) => {
      if (kind === 'packet' || kind === 'framed') {
        if (await sched.until(() => !w.ends.some((e) => e.sinkStarted && !e.sinkDone))) return
        w.ends.forEach((e, k) => {
          if (e.sinkStarted && !e.sinkDone) fail('ts-stream-leak', `stream ${k >> 1}: the ${k % 2 ? 'server' : 'client'} never ends its side after the end of the call${when}\n` + calls.map(describe).join('\n'))
        })
      } else if (kind === 'muxed' && !lost) {
        if (await sched.until(() => !w.muxers.some((m) => m.streams.length))) return
        w.muxers.forEach((m, k) => {
          if (m.streams.length) fail('ts-stream-leak', `${m.streams.length} streams of the muxer of the ${k ? 'server' : 'client'} are open after the end of all calls${when}\n` + calls.map(describe).join('\n'))
        })
      }
    }
    // a stream does not stay open because its handler heeds nothing
    if (!lost && !failures.length) await openStreams(', while handlers go on')
    // and everything is released
    for (const x of calls) free(x)
    if (o.nested) {
      if (!(await sched.until(() => nestedOpen === 0))) fail('ts-nested-leak', `${nestedOpen} handlers of nested streams still run after the end of all calls\n` + calls.map(describe).join('\n'))
    }
    await openStreams('')
  }
  for (const x of calls) free(x)
  if (w.conns && !failures.length) {
    // closing one end ends the other
    if (!lost) rng.pick(w.conns).close(rng.p(0.3) ? new Error('going away') : undefined)
    await sched.idle(() => w.muxers.every((m) => m.closed), 3000)
    w.muxers.forEach((m, k) => {
      if (!m.closed) fail('ts-conn-open', `the ${k ? 'server' : 'client'} does not learn that its connection was closed`)
    })
  }
  w.close()
  await immediate()
  c.rep.count('transport ' + kind)
  for (const x of calls) {
    c.rep.count('calls')
    c.rep.count('kind ' + x.kind)
    c.rep.count('messages received', x.cliRecv.length + x.srvRecv.length)
    c.rep.count('outcome ' + (x.outcome === 'ok' ? 'ok' : x.outcome === 'error: ' + ABORT ? 'abort' : x.outcome ? 'error' : 'none'))
    if (x.lookup && x.lookup !== 'ok') c.rep.count('failed lookups')
    if (x.abortedAt !== undefined) c.rep.count('aborts')
    if (x.srvRecvEnd?.startsWith('error')) c.rep.count('handlers which saw an error on their stream')
    c.rep.count('events', x.log.length)
  }
  c.rep.sig([kind, lost, calls.map((x) => [x.kind, x.client, x.server, x.reqs.map((b) => b.length), x.abort, x.target, x.comp, x.ack, x.lookup])])
  c.rep.hist(calls.map((x) => x.log.join(';')).join('|').replace(/\d+ (srv|cli|abort)/g, '$1'))
  if (c.rep.samples.length < 2) c.rep.samples.push({ transport: kind, calls: calls.map((x) => ({ kind: x.kind, client: x.client, server: x.server, outcome: x.outcome })) })
  for (const [key, msg] of failures) c.rep.violation(key, i, `transport ${kind}${o.cut ? ' (cut)' : ''}: ${msg}`)
}

// hangs: the script of the handler waits for something which needs the client.
export function hangs(x: Call): boolean {
  return x.server.some((o) => o.t === 'hang' || o.t === 'wait')
}
export const lateAborts = new WeakMap<Call, () => void>()
void pushable
