// Calls through the stubs which the generator made (C27).
import { MethodKind, Empty } from '@aptre/protobuf-es-lite'
import { Client, Server, createHandler, createMux } from '@repo/index.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import * as echo from '@repo/echo/echo_srpc.pb.ts'
import { EchoMsg } from '@repo/echo/echo.pb.ts'
import * as mock from '@repo/mock/mock_srpc.pb.ts'
import { MockMsg } from '@repo/mock/mock.pb.ts'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb.ts'
import { services as generated } from '@gen/index.ts'
import { Rng, Sched, hex, makePair, immediate, errText, type Ctx } from './lib.js'

const ABORT = 'ERR_RPC_ABORT'
// the services whose stubs are committed
const committed: any[] = [
  {
    file: 'echo', mod: echo, name: 'Echoer', typeName: 'echo.Echoer', form: 'body',
    methods: [
      { name: 'Echo', kind: 'Unary', I: EchoMsg, O: EchoMsg },
      { name: 'EchoServerStream', kind: 'ServerStreaming', I: EchoMsg, O: EchoMsg },
      { name: 'EchoClientStream', kind: 'ClientStreaming', I: EchoMsg, O: EchoMsg },
      { name: 'EchoBidiStream', kind: 'BiDiStreaming', I: EchoMsg, O: EchoMsg },
      { name: 'RpcStream', kind: 'BiDiStreaming', I: RpcStreamPacket, O: RpcStreamPacket, form: 'packet' },
      { name: 'DoNothing', kind: 'Unary', I: Empty, O: Empty, empty: [true, true] },
    ],
  },
  { file: 'mock', mod: mock, name: 'Mock', typeName: 'e2e.mock.Mock', form: 'body', methods: [{ name: 'MockRequest', kind: 'Unary', I: MockMsg, O: MockMsg }] },
]
const all = () => (generated.length ? [...generated, ...committed] : committed)

// defs checks the definitions in all stubs.
export function defs(c: Ctx) {
  for (const [i, s] of all().entries()) {
    const f = (msg: string) => c.rep.violation('gen-definition', i, `${s.file}: service ${s.typeName}: ${msg}`)
    const d = s.mod[s.name + 'Definition']
    c.rep.count('services generated')
    if (!d) {
      f('there is no definition')
      continue
    }
    if (d.typeName !== s.typeName) f('the definition names ' + d.typeName)
    if (s.mod[s.name + 'ServiceName'] !== s.typeName) f('the constant of the name is ' + s.mod[s.name + 'ServiceName'])
    if (Object.keys(d.methods).join() !== s.methods.map((m: any) => m.name).join()) f('the methods are ' + Object.keys(d.methods))
    for (const m of s.methods) {
      const x = d.methods[m.name]
      c.rep.count('methods generated')
      if (!x) continue
      if (x.name !== m.name || x.I !== m.I || x.O !== m.O || x.kind !== MethodKind[m.kind] || x.idempotency !== m.idempotency)
        f(`method ${m.name} is defined as ${x.name} ${x.I?.typeName} ${x.O?.typeName} ${MethodKind[x.kind]} ${x.idempotency}`)
    }
    if (s.methods.length && typeof s.mod[s.name + 'Client'] !== 'function') f('there is no client')
  }
}

type Plan = {
  svc: any; m: any; reqs: any[]; replies: any[]; fail?: string; hang: boolean; abortAt: number; half: number
  ran: number; got: any[]; gotEnd?: string; thisOk: boolean; out: any[]; outcome?: string; aborted: boolean; release?: () => void; unknown: boolean
}
const norm = (form: string | undefined, empty: boolean, x: any): string =>
  x === undefined || x === null || typeof x !== 'object'
    ? 'no message: ' + String(x)
    : empty
      ? 'empty'
      : form === 'body'
        ? 'body ' + (x.body ?? '')
        : form === 'packet'
          ? `packet ${x.body?.case} ${hex(x.body?.value)}`
          : `n=${x.n ?? 0} text=${x.text ?? ''} data=${x.data ? hex(x.data) : ''}`

export async function genCalls(c: Ctx, i: number, rng: Rng) {
  const sched = new Sched()
  const pool = all()
  const svcs: any[] = []
  for (let k = rng.range(1, 4); k > 0; k--) {
    const s = rng.pick(pool)
    if (s.methods.length) svcs.push(s)
  }
  if (!svcs.length) return
  const fails: [string, string][] = []
  let serial = 1
  const mk = (s: any, m: any, k: number) => {
    const T = k ? m.O : m.I
    if (m.empty?.[k]) return rng.p(0.5) ? {} : T.create()
    const id = serial++
    const form = m.form ?? s.form
    if (form === 'body') return rng.p(0.1) ? {} : { body: `${id}:${rng.pick(['', 'x', '\u00e9\u4e16', 'long '.repeat(200)])}` }
    if (form === 'packet') return { body: { case: 'data', value: new Uint8Array([id & 255, id >> 8, ...rng.bytes(rng.int(20))]) } }
    const v: any = {}
    if (rng.p(0.9)) v.n = id
    if (rng.p(0.5)) v.text = rng.pick(['', 'text', '\u00e9\u4e16\u0000'])
    if (rng.p(0.7)) v.data = rng.bytes(rng.pick([0, 1, 30, 300]))
    return rng.p(0.5) ? v : T.create(v)
  }
  // the implementations
  const mux = createMux()
  const plans: Plan[] = []
  const ids = new Map<any, string>()
  const taken = new Set<string>()
  for (const [k, s] of svcs.entries()) {
    const own = rng.p(0.4) || taken.has(s.typeName) ? 'own.' + rng.pick(['svc', s.typeName]) + k : undefined
    const id = own ?? s.typeName
    if (taken.has(id)) continue
    taken.add(id)
    const entry = { s, id, own }
    const impl: any = { tag: {} }
    ids.set(entry, id)
    const chosen = rng.shuffle(s.methods.slice()).slice(0, rng.range(1, 4)) as any[]
    for (const m of s.methods) {
      const p: Plan = {
        svc: entry, m, reqs: [], replies: [], hang: false, abortAt: -1, half: 0, ran: 0, got: [], thisOk: true, out: [], aborted: false, unknown: false,
      }
      const streamIn = m.kind === 'ClientStreaming' || m.kind === 'BiDiStreaming'
      const streamOut = m.kind === 'ServerStreaming' || m.kind === 'BiDiStreaming'
      for (let n = streamIn ? rng.pick([0, 1, 2, 5]) : 1; n > 0; n--) p.reqs.push(mk(s, m, 0))
      for (let n = streamOut ? rng.pick([0, 1, 2, 5]) : 1; n > 0; n--) p.replies.push(mk(s, m, 1))
      p.half = rng.int(p.replies.length + 1)
      if (rng.p(0.25)) p.fail = 'failure ' + serial++
      if (chosen.includes(m)) {
        plans.push(p)
        if (rng.p(0.15)) p.hang = true
      }
      const start = (self: any) => {
        p.ran++
        if (self !== impl) p.thisOk = false
      }
      const readAll = async (l: AsyncIterable<any>) => {
        try {
          for await (const x of l) p.got.push(x)
          p.gotEnd = 'end'
        } catch (err) {
          p.gotEnd = 'error: ' + errText(err)
          throw err
        }
      }
      const end = async () => {
        await sched.pause(rng.int(4))
        if (p.hang) {
          p.release?.()
          await new Promise(() => {})
        }
        if (p.fail) throw new Error(p.fail)
      }
      if (m.kind === 'Unary')
        impl[m.name] = async function (r: any) {
          start(this)
          p.got.push(r)
          await end()
          return p.replies[0]
        }
      else if (m.kind === 'ClientStreaming')
        impl[m.name] = async function (r: any) {
          start(this)
          await readAll(r)
          await end()
          return p.replies[0]
        }
      else if (m.kind === 'ServerStreaming')
        impl[m.name] = async function* (r: any) {
          start(this)
          p.got.push(r)
          for (const x of p.replies) {
            await sched.pause(rng.int(3))
            yield x
          }
          await end()
        }
      else
        impl[m.name] = async function* (r: any) {
          start(this)
          for (const x of p.replies.slice(0, p.half)) yield x
          await readAll(r)
          for (const x of p.replies.slice(p.half)) {
            await sched.pause(rng.int(3))
            yield x
          }
          await end()
        }
    }
    mux.register(createHandler(s.mod[s.name + 'Definition'], impl, own))
  }
  const server = new Server(mux.lookupMethod)
  const framed = rng.p(0.5)
  const rpc = new Client(async () => {
    await sched.pause(rng.int(3))
    const [a, b] = makePair({ rng, sched, packets: !framed, maxPause: rng.pick([0, 3]), lists: true })
    if (!framed) {
      server.handlePacketStream(b as any)
      return a as any
    }
    server.handlePacketStream(streamToPacketStream(b as any))
    return streamToPacketStream(a as any)
  })
  const runs = plans.map(async (p) => {
    const { s, own } = p.svc
    p.unknown = rng.p(0.06)
    const name = p.unknown ? 'unknown.' + s.typeName : own
    const client = new s.mod[s.name + 'Client'](rpc, name !== undefined ? { service: name } : rng.p(0.3) ? {} : rng.p(0.2) ? { service: '' } : undefined)
    // methods may be taken off the client
    let f = (...a: any[]) => client[p.m.name](...a)
    if (rng.p(0.3)) f = client[p.m.name]
    let ctl: AbortController | undefined
    if (p.hang) {
      ctl = new AbortController()
      const late = rng.p(0.3)
      p.release = () => {
        void (async () => {
          await sched.pause(late ? 20 : 1)
          p.aborted = true
          ctl!.abort()
        })()
      }
      if (p.unknown) p.release()
    }
    const signal = ctl?.signal ?? (rng.p(0.3) ? new AbortController().signal : undefined)
    async function* reqs() {
      for (const x of p.reqs) {
        await sched.pause(rng.int(3))
        yield x
      }
    }
    const streamIn = p.m.kind === 'ClientStreaming' || p.m.kind === 'BiDiStreaming'
    const arg = streamIn ? reqs() : p.reqs[0]
    const a = signal ? [arg, signal] : [arg]
    try {
      if (p.m.kind === 'Unary' || p.m.kind === 'ClientStreaming') p.out.push(await f(...a))
      else for await (const x of f(...a) as any) p.out.push(x)
      p.outcome = 'ok'
    } catch (err) {
      p.outcome = 'error: ' + errText(err)
    }
  })
  const settled = await sched.settle(Promise.all(runs))
  for (const p of plans) {
    const { s, id } = p.svc
    const form = p.m.form ?? s.form
    const show = (l: any[], k: number) => l.map((x) => norm(form, !!p.m.empty?.[k], x))
    const f = (key: string, msg: string) =>
      fails.push([key, `${s.file}: ${id} ${p.m.name} (${p.m.kind}): ${msg}\n  sent ${JSON.stringify(show(p.reqs, 0))}, replies ${JSON.stringify(show(p.replies, 1))}, fail ${p.fail}, hang ${p.hang}`])
    const prefix = (a: string[], b: string[]) => a.length <= b.length && a.every((x, k) => x === b[k])
    c.rep.count('calls')
    c.rep.count('kind ' + p.m.kind)
    if (p.outcome === undefined) {
      f('gen-hangs', 'the call never ends although nothing more can happen')
      continue
    }
    const want = p.unknown ? 'error' : p.hang ? 'error: ' + ABORT : p.fail ? 'error: ' + p.fail : 'ok'
    if (p.unknown ? !p.outcome.startsWith('error') : p.outcome !== want) f('gen-outcome', `the outcome is ${p.outcome} instead of ${want}`)
    if (p.ran !== (p.unknown ? 0 : 1)) f('gen-runs', `the implementation ran ${p.ran} times`)
    if (!p.thisOk) f('gen-this', 'the implementation ran without its object')
    const got = show(p.got, 0)
    const sent = show(p.reqs, 0)
    if (p.unknown ? got.length : got.join('|') !== sent.join('|')) f('gen-requests', `the implementation got ${JSON.stringify(got)}`)
    const out = show(p.out, 1)
    const replies = show(p.replies, 1)
    if (p.outcome === 'ok' ? out.join('|') !== replies.join('|') : !prefix(out, replies)) f('gen-replies', `the client got ${JSON.stringify(out)}`)
    if (p.aborted) c.rep.count('aborts')
    if (p.unknown) c.rep.count('unknown services')
    c.rep.count('messages', got.length + out.length)
  }
  if (!settled && !fails.length) fails.push(['gen-hangs', 'the calls do not end'])
  // each method which was not called must not have run
  await immediate()
  c.rep.sig([framed, plans.map((p) => [p.svc.s.file, p.svc.s.name, p.svc.own, p.m.name, p.reqs.length, p.replies.length, p.fail, p.hang, p.unknown])])
  c.rep.hist(plans.map((p) => [p.outcome, p.out.length, p.got.length].join()).join(';'))
  if (c.rep.samples.length < 2) c.rep.samples.push(plans.map((p) => ({ service: p.svc.id, method: p.m.name, kind: p.m.kind, requests: p.reqs.length, replies: p.replies.length, outcome: p.outcome })))
  for (const [key, msg] of fails) c.rep.violation(key, i, msg)
}
