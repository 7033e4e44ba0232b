// The echo service of the repository, with its own stubs.
import { mode } from '@aptre/protobuf-es-lite'
import { pushable } from 'it-pushable'
import { Client, Server, createMux, createHandler, StaticHandler } from '@repo/index.ts'
import { EchoerClient, EchoerDefinition } from '@repo/echo/echo_srpc.pb.ts'
import { EchoerServer } from '@repo/echo/server.ts'
import { EchoMsg } from '@repo/echo/echo.pb.ts'
import { buildRpcStreamOpenStream, openRpcStream } from '@repo/rpcstream/rpcstream.ts'
import { MockClient, MockDefinition } from '@repo/mock/mock_srpc.pb.ts'
import { Sched, Gate, type Ctx, type Rng } from './lib.js'
import { makeWorld } from './calls.js'

const HELLO = 'hello from server'

interface EchoCall {
  kind: 'echo' | 'server' | 'client' | 'bidi' | 'nothing' | 'mock'
  bodies: string[]
  nested: string[]
  ack: boolean
  lock: boolean
  abort: number
  svc: boolean
  detached: boolean
  fails: boolean
  got: string[]
  end?: string
}

const BODIES = ['', 'a', 'caf\u00e9 \u4e16\u754c', '\u0000', '"\\', '\ud83d\ude00']

export async function echoCalls(c: Ctx, i: number, rng: Rng, ticking: boolean) {
  const sched = new Sched()
  sched.external = ticking
  mode.fill = rng.p(0.5)
  const deep = rng.p(0.5)
  const hasInner = !rng.p(0.2)
  const innerMux = createMux()
  const inner: any = new Server(innerMux.lookupMethod)
  innerMux.register(createHandler(EchoerDefinition as any, new EchoerServer(deep ? inner : undefined) as any))
  const mux = createMux()
  const impl: any = new EchoerServer(hasInner ? inner : undefined)
  mux.register(createHandler(EchoerDefinition as any, impl))
  mux.register(createHandler(EchoerDefinition as any, impl, 'other.Echo'))
  mux.register(
    createHandler(MockDefinition as any, {
      async MockRequest(m: any) {
        if ((m.body ?? '').startsWith('fail')) throw new Error('mock: ' + m.body)
        return { body: (m.body ?? '') + '!' }
      },
    } as any),
  )
  const server: any = new Server(mux.lookupMethod)
  const w = makeWorld(rng.pick(['packet', 'framed', 'muxed'] as const), rng, sched, [server, undefined], { maxPause: rng.pick([0, 2, 8]), openPause: rng.pick([0, 3]) })
  const calls: EchoCall[] = []
  const n = ticking ? 20 : rng.pick([1, 1, 2, 3, 5])
  for (let k = 0; k < n; k++) {
    const x: EchoCall = {
      kind: ticking ? rng.pick(['server', 'server', 'server', 'bidi'] as const) : rng.pick(['echo', 'client', 'bidi', 'bidi', 'nothing', 'mock'] as const),
      bodies: Array.from({ length: rng.pick([0, 1, 1, 2, 3, 8]) }, (_, j) => (rng.p(0.15) ? '' : `${k}.${j}:` + rng.pick(BODIES).repeat(rng.pick([1, 1, 5, 200])))),
      nested: [], ack: rng.p(0.5), lock: rng.p(0.4), abort: -1, svc: rng.p(0.2), detached: rng.p(0.3), fails: rng.p(0.1), got: [],
    }
    if (x.kind === 'mock' && rng.p(0.4)) x.bodies = ['fail ' + k]
    if (x.kind === 'server' && rng.p(0.3)) x.abort = rng.int(6)
    if (x.kind !== 'mock' && rng.p(0.25)) x.nested = rng.p(0.7) ? ['test'] : [rng.pick(['', 'a/b', 'test']), 'x']
    if (x.nested.length) x.svc = false
    calls.push(x)
  }
  const failures: string[] = []
  const done = calls.map(() => false)
  const all = Promise.all(
    calls.map(async (x, k) => {
      await sched.pause(rng.int(5))
      try {
        await run(x, w.open(false), sched, rng)
        x.end = 'ok'
      } catch (err: any) {
        x.end = 'error: ' + (err?.message ?? err)
      }
      done[k] = true
    }),
  )
  await sched.settle(all)
  for (const [k, x] of calls.entries()) {
    const bad = done[k] ? check(x, hasInner, deep) : 'the call never ends'
    if (bad) failures.push(`call ${k}: ${bad}\n ${JSON.stringify(x).slice(0, 600)}`)
    c.rep.count('calls of ' + x.kind)
    c.rep.count('messages received', x.got.length)
    c.rep.sig(['echo', x.kind, x.bodies, x.nested, x.lock, x.abort, x.svc])
  }
  w.close()
  await new Promise((r) => setImmediate(r))
  for (const f of failures) c.rep.violation('echo', i, f)
  c.rep.hist(JSON.stringify(calls.map((x) => [x.got.length, x.end])))
}

async function run(x: EchoCall, open: any, sched: Sched, rng: Rng) {
  let client: any = new Client(open)
  for (const id of x.nested) {
    const outer = new EchoerClient(client)
    const caller = outer.RpcStream.bind(outer) as any
    client = new Client(x.ack ? () => openRpcStream(id, caller, true) : buildRpcStreamOpenStream(id, caller))
  }
  if (x.kind === 'mock') {
    x.got.push((await new MockClient(client).MockRequest({ body: x.bodies[0] })).body ?? '')
    return
  }
  const stub: any = new EchoerClient(client, x.svc ? { service: 'other.Echo' } : undefined)
  const m = (name: string) => (x.detached ? stub[name] : stub[name].bind(stub))
  const first = { body: x.bodies[0] }
  if (x.kind === 'nothing') await m('DoNothing')({})
  else if (x.kind === 'echo') x.got.push((await m('Echo')(first)).body ?? '')
  else if (x.kind === 'server') {
    const ac = new AbortController()
    if (x.abort === 0) ac.abort()
    for await (const r of m('EchoServerStream')(first, ac.signal)) {
      x.got.push(r.body ?? '')
      if (x.abort === x.got.length) ac.abort()
    }
  } else {
    const gates = Array.from({ length: x.bodies.length + 2 }, () => new Gate())
    const src = (async function* () {
      for (const [k, b] of x.bodies.entries()) {
        if (x.lock && x.kind === 'bidi') await gates[k].wait
        if (rng.p(0.3)) await sched.pause(rng.int(6))
        yield { body: b }
      }
      if (x.lock && x.kind === 'bidi') await gates[x.bodies.length].wait
      if (x.fails && x.kind === 'bidi') throw new Error('source failed')
    })()
    if (x.kind === 'client') {
      if (rng.p(0.5)) x.got.push((await m('EchoClientStream')(src)).body ?? '')
      else {
        const p = pushable<any>({ objectMode: true })
        for (const b of x.bodies) p.push({ body: b })
        p.end()
        x.got.push((await m('EchoClientStream')(p)).body ?? '')
      }
      return
    }
    for await (const r of m('EchoBidiStream')(src)) {
      x.got.push(r.body ?? '')
      gates[x.got.length - 1]?.release()
    }
  }
}

function check(x: EchoCall, inner: boolean, deep: boolean): string {
  const is = (want: string[], end: string) => {
    if (x.got.length !== want.length) return `${x.got.length} messages instead of ${want.length}, end ${x.end}`
    const k = want.findIndex((v, j) => v !== x.got[j])
    if (k >= 0) return `message ${k} is ${JSON.stringify(x.got[k]).slice(0, 80)}`
    if (end === 'error' ? !x.end!.startsWith('error') : x.end !== end) return `the call ends with ${x.end} instead of ${end}`
    return ''
  }
  if ((x.nested.length && !inner) || (x.nested.length > 1 && !deep)) {
    const bad = is([], 'error')
    if (bad) return bad
    const own = (x.fails && x.end!.includes('source failed')) || (x.abort >= 0 && x.end!.includes('ERR_RPC_ABORT'))
    if (!own && !x.end!.includes('rpc stream proxy server not set')) return 'a nested call without a server fails with ' + x.end
    return ''
  }
  const body = x.bodies[0] ?? ''
  switch (x.kind) {
    case 'nothing':
      return is([], 'ok')
    case 'mock':
      return body.startsWith('fail') ? is([], 'error: mock: ' + body) : is([body + '!'], 'ok')
    case 'echo':
      return is([body], 'ok')
    case 'client':
      return x.bodies.length ? is([body], 'ok') : is([], 'error: received no messages')
    case 'server':
      if (x.abort >= 0) {
        if (x.got.some((g) => g !== body)) return 'a wrong message'
        if (x.got.length > 5 || x.got.length < Math.min(5, x.abort)) return `${x.got.length} messages of a call aborted after ${x.abort}`
        if (x.end !== 'error: ERR_RPC_ABORT' && x.abort < 5) return 'an aborted call ends with ' + x.end
        return ''
      }
      return is([body, body, body, body, body], 'ok')
    case 'bidi': {
      const want = [HELLO, ...x.bodies]
      if (!x.fails) return is(want, 'ok')
      // what was queued before an error may be dropped
      if (x.got.some((g, j) => g !== want[j])) return 'a wrong message'
      if (!x.end!.includes('source failed')) return 'a call with a failed source ends with ' + x.end
      return ''
    }
  }
}
