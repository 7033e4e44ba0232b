import fs from 'node:fs'
import { Report, cases, type Ctx, type Rng } from './lib.js'
import { callCase } from './calls.js'
import { framing, pushing, lookups, handlersOf, containers, watchdogs, channels } from './units.js'
import { defs, genCalls } from './gencalls.js'
import { directCalls } from './rpcunit.js'
import { hostile } from './hostile.js'
import { echoCalls } from './echounit.js'
import { nestedStreams } from './nestedunit.js'
import { GoPeer, interopCase, type InteropOpts } from './interop.js'

const args: Record<string, string> = {}
for (let i = 2; i < process.argv.length; i += 2) args[process.argv[i].replace(/^-+/, '')] = process.argv[i + 1]
const c: Ctx = {
  rep: new Report(),
  seed: Number(args.seed ?? 1),
  tier: args.tier ?? 'quick',
  scale: Number(args.scale ?? 1),
  shard: Number(args.shard ?? 0),
  shards: Number(args.shards ?? 1),
  only: args.only !== undefined ? Number(args.only) : undefined,
  env: args,
}
let current = -1
const at = (i: number) => {
  current = i
  fs.writeFileSync(args.out + '.cur', String(i))
  return i
}
for (const e of ['unhandledRejection', 'uncaughtException'] as const) {
  process.on(e, (err: any) => {
    c.rep.violation('ts-' + e, current, e + ': ' + (err?.stack ?? String(err)))
  })
}
// interop runs cases with the Go process and starts a new one after a failure.
let peer: GoPeer | undefined
const interop = async (base: number, tag: string, n: number, o: InteropOpts) => {
  await cases(c, tag, n, async (i, rng) => {
    at(base + i)
    const used = (peer ??= new GoPeer(args.peer, args.loader))
    peer = undefined
    if (await interopCase(c, current, rng, used, o)) peer = used
  })
}
const units = (tag: string, base: number, n: number, f: (c: Ctx, i: number, rng: Rng) => Promise<void>) =>
  cases(c, tag, n, (i, rng) => f(c, at(base + i), rng))
const props: Record<string, () => Promise<void>> = {
  async C22() {
    await cases(c, 'C22a', 3000, async (i, rng) => {
      at(i)
      await callCase(c, i, rng, rng.pick(['packet', 'framed', 'muxed'] as const), { raw: true })
    })
    await cases(c, 'C22b', 2000, async (i, rng) => {
      at(100000 + i)
      await callCase(c, current, rng, rng.pick(['packet', 'framed', 'muxed'] as const), { abort: 0.6, fail: 0.3 })
    })
    await cases(c, 'C22c', 2000, async (i, rng) => {
      at(200000 + i)
      await callCase(c, current, rng, rng.pick(['packet', 'framed', 'muxed'] as const), { cut: true })
    })
    await cases(c, 'C22d', 700, async (i, rng) => {
      at(300000 + i)
      await callCase(c, current, rng, rng.pick(['channel', 'muxchan', 'portconn', 'bcastconn'] as const), { fail: 0.1, abort: 0.1 })
    })
    await cases(c, 'C22e', 300, async (i, rng) => {
      at(400000 + i)
      await callCase(c, current, rng, rng.pick(['portconn', 'bcastconn'] as const), { cut: true })
    })
    await cases(c, 'C22h', 600, async (i, rng) => {
      at(450000 + i)
      await callCase(c, current, rng, 'wsconn', rng.p(0.5) ? { fail: 0.1, abort: 0.2 } : { cut: true })
    })
    // many calls at once, calls with many messages
    await cases(c, 'C22f', 64, async (i, rng) => {
      at(500000 + i)
      await callCase(c, current, rng, rng.pick(['packet', 'framed', 'muxed', 'muxed'] as const), { n: rng.pick([40, 130, 300]), fail: 0.1, abort: 0.1 })
    })
    await cases(c, 'C22g', 240, async (i, rng) => {
      at(600000 + i)
      await callCase(c, current, rng, rng.pick(['packet', 'framed', 'muxed', 'muxchan'] as const), { n: rng.pick([1, 1, 3]), many: true })
    })
  },
  async C23() {
    await interop(0, 'C23a', 6000, {})
    await interop(100000, 'C23b', 3600, { abort: 0.6, fail: 0.3 })
    await interop(200000, 'C23c', 2400, { cut: true })
    await interop(220000, 'C23g', 120, { many: true })
    await interop(230000, 'C23h', 32, { n: true })
    await interop(240000, 'C23i', 64, { via: 'mux', many: true })
    await interop(250000, 'C23j', 32, { via: 'mux', n: true })
    for (const [k, via] of (['mux', 'ws'] as const).entries()) {
      const n = [800, 400][k]
      await interop(300000 + 100000 * k, 'C23d' + k, n, { via })
      await interop(330000 + 100000 * k, 'C23e' + k, n, { via, abort: 0.6, fail: 0.3 })
      await interop(360000 + 100000 * k, 'C23f' + k, n, { via, cut: true })
    }
  },
  async C30() {
    await interop(0, 'C30a', 2000, {})
    await interop(100000, 'C30b', 1500, { abort: 0.6, fail: 0.3 })
    await interop(200000, 'C30c', 700, { cut: true })
    await interop(220000, 'C30g', 80, { many: true })
    await interop(230000, 'C30h', 24, { n: true })
    await interop(300000, 'C30d', 800, { nested: true, abort: 0.2, fail: 0.1 })
  },
  async C31() {
    await units('calls', 0, 6000, (c, i, rng) => echoCalls(c, i, rng, false))
    await units('ticking', 1000000, 32, (c, i, rng) => echoCalls(c, i, rng, true))
  },
  async C24() {
    await units('framing', 0, 40000, framing)
    await units('pushing', 1000000, 15000, pushing)
  },
  async C26() {
    await units('lookups', 0, 40000, lookups)
    await units('handlers', 1000000, 10000, handlersOf)
    await units('containers', 2000000, 25000, containers)
  },
  async C27() {
    if (c.shard === 0) defs(c)
    await units('calls', 0, 12000, genCalls)
  },
  async C28() {
    await units('watchdogs', 0, 20000, watchdogs)
    await units('channels', 1000000, 15000, channels)
  },
  async C29() {
    await units('hostile', 0, 20000, hostile)
    await units('direct', 1000000, 20000, directCalls)
  },
  async C25() {
    await units('streams', 2000000, 20000, nestedStreams)
    for (const [k, o] of [{}, { abort: 0.6, fail: 0.3 }, { cut: true }].entries()) {
      await cases(c, 'C25t' + k, [3000, 2400, 1600][k], async (i, rng) => {
        at(1000000 + k * 100000 + i)
        await callCase(c, current, rng, rng.pick(['packet', 'framed', 'muxed'] as const), { nested: true, ...o })
      })
    }
    await interop(0, 'C25a', 3000, { nested: true })
    await interop(100000, 'C25b', 2000, { nested: true, abort: 0.6, fail: 0.3 })
    await interop(200000, 'C25c', 1500, { nested: true, cut: true })
    await interop(300000, 'C25d', 400, { nested: true, via: 'mux' })
    await interop(400000, 'C25e', 300, { nested: true, via: 'mux', abort: 0.6, fail: 0.3 })
    await interop(500000, 'C25f', 200, { nested: true, via: 'ws' })
  },
}
await props[args.prop]()
peer?.proc.kill('SIGKILL')
fs.writeFileSync(args.out, JSON.stringify(c.rep.json()))
process.exit(0)
