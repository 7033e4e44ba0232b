// Framing (C24), lookup of methods (C26), channels and timeouts (C28).
import { Uint8ArrayList, isUint8ArrayList } from 'uint8arraylist'
import { pushable } from 'it-pushable'
import {
  createMux, createHandler, ChannelStream, MessagePortDuplex, BroadcastChannelDuplex, Watchdog, isAbortError, isStreamIdleError, castToError,
  combineUint8ArrayListTransform, prependLengthPrefixTransform, parseLengthPrefixTransform, ERR_RPC_ABORT, ERR_STREAM_IDLE,
} from '@repo/index.ts'
import { StaticHandler } from '@repo/srpc/handler.ts'
import { streamToPacketStream } from '@repo/srpc/stream.ts'
import { ValueCtr } from '@repo/srpc/value-ctr.ts'
import { OpenStreamCtr } from '@repo/srpc/open-stream-ctr.ts'
import { HandleStreamCtr } from '@repo/srpc/handle-stream-ctr.ts'
import { encodeUint32Le, decodeUint32Le, prependPacketLen, uint32LEEncode, uint32LEDecode } from '@repo/srpc/packet.ts'
import { buildPushableSink, writeToPushable, messagePushable } from '@repo/srpc/pushable.ts'
import { Blob, KINDS } from './calls.js'
import { Rng, Sched, hex, same, immediate, errText, type Ctx } from './lib.js'

const bad = (c: Ctx, i: number, key: string, msg: string) => c.rep.violation(key, i, msg)
const nameOf = (x: any): string => {
  try {
    return String(x)
  } catch {
    return 'an object without text'
  }
}
const flat = (x: any): Uint8Array => (isUint8ArrayList(x) ? (x as any).subarray() : x)

// asList gives the same bytes as an array or as a list of pieces.
function asList(rng: Rng, b: Uint8Array): any {
  if (rng.p(0.4)) return b
  const l = new Uint8ArrayList()
  let o = 0
  while (o < b.length) {
    const n = rng.range(1, b.length - o)
    l.append(b.subarray(o, o + n))
    o += n
  }
  if (rng.p(0.2)) l.append(new Uint8Array(0))
  return l
}

function messages(rng: Rng): Uint8Array[] {
  const l: Uint8Array[] = []
  for (let n = rng.pick([0, 1, 1, 2, 3, 8]); n > 0; n--) {
    const big = rng.p(0.02)
    l.push(rng.bytes(big ? rng.pick([65535, 65536, 70000]) : rng.pick([0, 0, 1, 2, 3, 4, 5, 40, 255, 256, 257, 1000])))
  }
  return l
}

// ---- C24 ---------------------------------------------------------------

export async function framing(c: Ctx, i: number, rng: Rng) {
  const f = (key: string, msg: string) => bad(c, i, key, msg)
  // numbers
  const v = rng.pick([0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, rng.u32(), rng.u32(), rng.u32() >>> rng.int(32)])
  const want = new Uint8Array([v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255])
  const e1 = encodeUint32Le(v)
  const e2 = uint32LEEncode(v)
  if (!same(e1, want)) f('frame-number', `encodeUint32Le(${v}) is ${hex(e1)}`)
  if (!same(e2.subarray(), want)) f('frame-number', `uint32LEEncode(${v}) is ${hex(e2.subarray())}`)
  if (decodeUint32Le(want) !== v) f('frame-number', `decodeUint32Le(${hex(want)}) is ${decodeUint32Le(want)}`)
  const tail = rng.bytes(rng.int(4))
  const d = uint32LEDecode(new Uint8ArrayList(want.subarray(0, 2), want.subarray(2), tail))
  if (d !== v) f('frame-number', `uint32LEDecode(${hex(want)}) is ${d}`)
  c.rep.count('numbers')
  // encode
  const msgs = messages(rng)
  const copies = msgs.map((m) => m.slice())
  const bytes: Uint8Array = Buffer.concat(
    msgs.flatMap((m) => {
      const h = Buffer.alloc(4)
      h.writeUInt32LE(m.length)
      return [h, m]
    }),
  )
  if (msgs.length) {
    const p = prependPacketLen(msgs[0])
    if (!same(p, new Uint8Array(bytes.subarray(0, 4 + msgs[0].length)))) f('frame-encode', `prependPacketLen of ${hex(msgs[0])} is ${hex(p)}`)
  }
  async function* src(l: Uint8Array[], slow: boolean) {
    for (const m of l) {
      if (slow && rng.p(0.3)) await immediate()
      yield asList(rng, m)
    }
  }
  const got: Uint8Array[] = []
  const sync = rng.p(0.3)
  const list = msgs.map((m) => asList(rng, m))
  for await (const x of prependLengthPrefixTransform()(sync ? (list as any) : src(msgs, true)) as any) got.push(flat(x))
  if (!same(Buffer.concat(got), bytes)) f('frame-encode', `${msgs.map(hex)} is written as ${hex(Buffer.concat(got))} instead of ${hex(bytes)}`)
  // decode, cut anew, with a cut or bad end
  const cut = rng.p(0.3) ? rng.int(bytes.length + 1) : bytes.length
  let end = bytes.subarray(0, cut)
  if (rng.p(0.1)) end = Buffer.concat([end, cut === bytes.length ? Buffer.from([0xff, 0xff, 0xff, rng.pick([0x7f, 0x80, 0xff])]) : Buffer.alloc(0)])
  const chunks: Uint8Array[] = []
  for (let o = 0; o < end.length; ) {
    const n = rng.p(0.3) ? 1 : rng.p(0.2) ? end.length - o : rng.range(1, Math.min(end.length - o, 300))
    chunks.push(new Uint8Array(end.subarray(o, o + n)))
    o += n
    if (rng.p(0.1)) chunks.push(new Uint8Array(0))
    if (chunks.length > 400) {
      chunks.push(new Uint8Array(end.subarray(o)))
      break
    }
  }
  const chunkCopies = chunks.map((x) => x.slice())
  // the messages which are complete after each chunk
  const due: number[] = []
  {
    let o = 0
    let k = 0
    let have = 0
    for (const x of chunks) {
      have += x.length
      while (k < msgs.length && have >= o + 4 + msgs[k].length) o += 4 + msgs[k++].length
      due.push(k)
    }
  }
  const feed = pushable<any>({ objectMode: true })
  const fail = rng.p(0.2) ? new Error('read failed') : undefined
  const decoded: Uint8Array[] = []
  const views: any[] = []
  let error: any
  let ended = false
  const useStream = rng.p(0.3)
  const out: any = useStream
    ? streamToPacketStream({ source: feed, sink: async () => {}, close: async () => {} } as any).source
    : rng.p(0.5)
      ? combineUint8ArrayListTransform()(parseLengthPrefixTransform()(feed) as any)
      : parseLengthPrefixTransform()(feed)
  const reader = (async () => {
    try {
      for await (const x of out) {
        views.push(x)
        decoded.push(flat(x).slice())
      }
      ended = true
    } catch (err) {
      error = err
    }
  })()
  const stepwise = rng.p(0.5)
  let step = 0
  for (const x of chunks) {
    feed.push(asList(rng, x))
    step++
    if (stepwise) {
      await immediate()
      if (decoded.length !== due[step - 1]) {
        f('frame-decode-late', `after ${step} chunks ${due[step - 1]} messages are complete but ${decoded.length} were given out`)
        break
      }
    }
  }
  await immediate()
  if (!stepwise && fail) await immediate()
  if (fail) feed.end(fail)
  else feed.end()
  await Promise.race([reader, (async () => { for (let k = 0; k < 50; k++) await immediate() })()])
  const complete = due.length ? due[due.length - 1] : 0
  if (!ended && !error) f('frame-hangs', 'the decoded source does not end after its input ended')
  if (fail ? error !== fail : error) f('frame-end', `the input ended with ${fail}, the output with ${error ?? 'a regular end'}`)
  if (!fail && decoded.length !== complete) f('frame-decode', `${complete} complete messages, ${decoded.length} given out`)
  for (let k = 0; k < decoded.length; k++) {
    if (k >= complete || !same(decoded[k], msgs[k])) {
      f('frame-decode', `message ${k} is ${hex(decoded[k])} instead of ${k < complete ? hex(msgs[k]) : 'none'}`)
      break
    }
    if (!same(flat(views[k]), decoded[k])) {
      f('frame-decode-reuse', `message ${k} changed after it was given out`)
      break
    }
  }
  chunks.forEach((x, k) => !same(x, chunkCopies[k]) && f('frame-input-written', 'a chunk of the input was written to'))
  msgs.forEach((x, k) => !same(x, copies[k]) && f('frame-input-written', 'a message was written to'))
  c.rep.count('messages framed', msgs.length)
  c.rep.count('chunks', chunks.length)
  c.rep.sig([msgs.map((m) => m.length), chunks.map((x) => x.length), cut, !!fail, stepwise, useStream, v])
  if (c.rep.samples.length < 2) c.rep.samples.push({ messages: msgs.map((m) => m.length), chunks: chunks.map((x) => x.length).slice(0, 40) })
}

// the sinks and pushables which carry messages
export async function pushing(c: Ctx, i: number, rng: Rng) {
  const n = rng.int(20)
  const items = Array.from({ length: n }, () => rng.pick([0, '', false, { a: 1 }, 'x', rng.u32()]))
  const fail = rng.p(0.4) ? new Error('source failed') : undefined
  const at = rng.int(n + 1)
  async function* asyncSrc() {
    for (let k = 0; k < n; k++) {
      if (fail && k === at) throw fail
      if (rng.p(0.3)) await immediate()
      yield items[k]
    }
    if (fail && at >= n) throw fail
  }
  function* syncSrc() {
    for (let k = 0; k < n; k++) {
      if (fail && k === at) throw fail
      yield items[k]
    }
    if (fail && at >= n) throw fail
  }
  const out = messagePushable<any>()
  const how = rng.int(3)
  const got: any[] = []
  let error: any
  let ended = false
  const early = rng.p(0.5)
  const read = async () => {
    try {
      for await (const x of out) got.push(x)
      ended = true
    } catch (err) {
      error = err
    }
  }
  const r = early ? read() : undefined
  let rejected: any
  try {
    if (how === 0) await writeToPushable(asyncSrc(), out)
    else await buildPushableSink(out)(how === 1 ? asyncSrc() : (syncSrc() as any))
  } catch (err) {
    rejected = err
  }
  await Promise.race([r ?? read(), (async () => { for (let k = 0; k < 20; k++) await immediate() })()])
  const f = (key: string, msg: string) => bad(c, i, key, msg)
  if (rejected) f('pushable-rejects', 'writing to a pushable rejects with ' + rejected)
  if (fail ? error !== fail : !ended) f('pushable-end', `the source ended with ${fail ?? 'a regular end'}, the pushable with ${error ?? (ended ? 'a regular end' : 'nothing')}`)
  const want = fail ? Math.min(at, n) : n
  if (got.length > want || (!fail && got.length !== want) || got.some((x, k) => x !== items[k])) f('pushable-items', `wrote ${want} of ${JSON.stringify(items)}, got ${JSON.stringify(got)}`)
  c.rep.count('pushables')
  c.rep.sig(['push', n, fail ? at : -1, how, early])
}

// ---- C26 ---------------------------------------------------------------

const NAMES = ['a', 'b', 'svc', 'Svc', 'svc.', 'svc/x', 'constructor', 'toString', '__proto__', 'hasOwnProperty', 'valueOf', ' a', 'a.b', 'A', 'watch', 'caf\u00e9']

export async function lookups(c: Ctx, i: number, rng: Rng) {
  const f = (key: string, msg: string) => bad(c, i, key, `${msg}\n${log.join('\n')}`)
  const log: string[] = []
  const names = rng.shuffle(NAMES.slice()).slice(0, rng.range(3, 8))
  const mux = createMux()
  type Fn = any
  const model = { svcs: new Map<string, Map<string, { lookup: (s: string, m: string) => Fn | null }>>(), lookups: [] as ((s: string, m: string) => Fn | null)[] }
  let serial = 0
  const fnNames = new Map<Fn, string>()
  const mk = (what: string): Fn => {
    const fn = async () => {}
    fnNames.set(fn, what)
    return fn
  }
  const handlers: { h: any; lookup: (s: string, m: string) => Fn | null; what: string }[] = []
  const bound = mux.lookupMethod
  const steps = rng.range(3, 25)
  for (let k = 0; k < steps; k++) {
    const op = rng.int(10)
    if (op < 3) {
      // a handler
      const svc = rng.p(0.05) ? '' : rng.pick(names)
      const ms = rng.shuffle(names.slice()).slice(0, rng.int(4))
      const id = ++serial
      const own = new Map<string, Fn>()
      let h: any
      let lookup: (s: string, m: string) => Fn | null
      const kind = rng.int(4)
      if (kind < 2) {
        const methods: any = rng.p(0.5) ? {} : Object.create(null)
        for (const m of ms) {
          const fn = mk(`h${id}.${m}`)
          own.set(m, fn)
          Object.defineProperty(methods, m, { value: fn, enumerable: true, configurable: true, writable: true })
        }
        h = new StaticHandler(svc, methods)
        lookup = (s, m) => (s && s !== svc ? null : (own.get(m) ?? null))
      } else {
        // a handler of another kind which refuses some of its methods
        const refuse = new Set(ms.filter(() => rng.p(0.3)))
        for (const m of ms) own.set(m, mk(`c${id}.${m}`))
        lookup = (s, m) => (refuse.has(m) ? null : (own.get(m) ?? null))
        h = {
          getServiceID: () => svc,
          getMethodIDs: () => ms,
          lookupMethod: async (s: string, m: string) => {
            if (rng.p(0.3)) await immediate()
            return lookup(s, m)
          },
        }
      }
      const what = `handler ${id} (${kind < 2 ? 'static' : 'custom'}) ${JSON.stringify(svc)} ${JSON.stringify(ms)}`
      handlers.push({ h, lookup, what })
      log.push('register ' + what)
      let threw = false
      try {
        mux.register(h)
      } catch (err) {
        threw = true
        if (svc) f('mux-register', 'throws ' + err)
      }
      if (!svc) {
        if (!threw) f('mux-register', 'a handler without a service id was registered')
      } else {
        const m = model.svcs.get(svc) ?? new Map()
        for (const x of ms) m.set(x, { lookup })
        model.svcs.set(svc, m)
      }
    } else if (op === 3) {
      // a lookup function
      const id = ++serial
      let lookup: (s: string, m: string) => Fn | null
      if (handlers.length && rng.p(0.4)) {
        const x = rng.pick(handlers)
        lookup = x.lookup
        log.push(`lookup ${id}: ${x.what}`)
        mux.registerLookupMethod(x.h.lookupMethod.bind(x.h))
      } else {
        const known = new Map<string, Fn>()
        for (const s of [...names, '']) for (const m of names) if (rng.p(0.1)) known.set(s + '\n' + m, mk(`l${id}:${s}/${m}`))
        lookup = (s, m) => known.get(s + '\n' + m) ?? null
        log.push(`lookup ${id}: ${JSON.stringify([...known.keys()])}`)
        mux.registerLookupMethod(async (s, m) => {
          if (rng.p(0.3)) await immediate()
          return lookup(s, m)
        })
      }
      model.lookups.push(lookup)
    } else {
      const s = rng.p(0.1) ? '' : rng.pick(names)
      const m = rng.p(0.05) ? '' : rng.pick(names)
      let want: Fn | null = null
      if (s) want = model.svcs.get(s)?.get(m)?.lookup(s, m) ?? null
      for (const l of model.lookups) want ??= l(s, m)
      let got: any
      try {
        got = await (rng.p(0.5) ? bound(s, m) : mux.lookupMethod(s, m))
      } catch (err) {
        f('mux-lookup-throws', `lookup of ${JSON.stringify([s, m])} throws ${errText(err)}`)
        return
      }
      if ((got ?? null) !== want) {
        f('mux-lookup', `lookup of ${JSON.stringify([s, m])} finds ${got ? (fnNames.get(got) ?? 'something foreign') : got} instead of ${want ? fnNames.get(want) : null}`)
        return
      }
      c.rep.count(want ? 'methods found' : 'methods not found')
      if (handlers.length && rng.p(0.3)) {
        const x = rng.pick(handlers)
        const g = await x.h.lookupMethod(s, m)
        if ((g ?? null) !== x.lookup(s, m)) {
          f('handler-lookup', `lookup of ${JSON.stringify([s, m])} in ${x.what} finds ${g ? (fnNames.get(g) ?? 'something foreign') : g}`)
          return
        }
      }
    }
  }
  c.rep.sig(log.concat(String(steps)))
  if (c.rep.samples.length < 2) c.rep.samples.push(log.slice(0, 12))
  // nothing may be written to the prototypes all objects share
  const foreign = [...Object.keys(Object.prototype), ...Object.keys(Object)]
  if (foreign.length) {
    for (const k of foreign) {
      delete (Object.prototype as any)[k]
    }
    f('mux-pollutes', 'registration changed Object: ' + foreign)
  }
}

// handlers made from definitions run the implementation with its this
export async function handlersOf(c: Ctx, i: number, rng: Rng) {
  const f = (key: string, msg: string) => bad(c, i, key, msg)
  const names = rng.shuffle(['Echo', 'Get', 'constructor2', 'A', 'a', 'Watch', 'do_it', 'Z9']).slice(0, rng.range(1, 6))
  const methods: any = {}
  const ran: string[] = []
  class Impl {
    tag = 'impl' + i
  }
  const impl: any = new Impl()
  const has = new Set<string>()
  for (const [k, n] of names.entries()) {
    const kind = rng.pick(['U', 'SS'] as const)
    // the key of the map need not be the name
    methods[rng.p(0.5) ? n : 'key' + k] = { name: n, I: Blob, O: Blob, kind: KINDS[kind] }
    if (rng.p(0.8)) {
      has.add(n)
      const fn =
        kind === 'U'
          ? async function (this: any, r: any) {
              ran.push(n + ':' + this?.tag + ':' + r.n)
              return Blob.create({ n: k + 100 })
            }
          : async function* (this: any, r: any) {
              ran.push(n + ':' + this?.tag + ':' + r.n)
              yield Blob.create({ n: k + 100 })
            }
      if (rng.p(0.5)) impl[n] = fn
      else (Impl.prototype as any)[n] = fn
    }
  }
  const own = rng.p(0.5) ? 'own.svc' : rng.p(0.5) ? '' : undefined
  const h = createHandler({ typeName: 'type.svc', methods } as any, impl, own)
  const svc = own || 'type.svc'
  if (h.getServiceID() !== svc) f('handler-service', `the service id is ${h.getServiceID()} instead of ${svc}`)
  const ids = h.getMethodIDs().slice().sort().join()
  if (ids !== [...has].sort().join()) f('handler-methods', `the methods are ${ids} instead of ${[...has]}`)
  for (const n of names) {
    const fn = await h.lookupMethod(rng.p(0.8) ? svc : '', n)
    if (!!fn !== has.has(n)) f('handler-methods', `method ${n} is ${fn ? '' : 'not '}found`)
    if (await h.lookupMethod('other', n)) f('handler-service', `method ${n} is found under another service`)
    if (!fn) continue
    const out: Uint8Array[] = []
    ran.length = 0
    const src = pushable<any>({ objectMode: true })
    src.push(Blob.toBinary({ n: 7 }))
    src.end()
    let finished = false
    void fn(src as any, async (s: any) => {
      for await (const x of s) out.push(x)
      finished = true
    })
    for (let k = 0; k < 30 && !finished; k++) await immediate()
    if (ran.join() !== `${n}:${impl.tag}:7`) f('handler-run', `method ${n} ran ${ran.join()}`)
    if (!finished || out.length !== 1 || Blob.fromBinary(out[0]).n !== names.indexOf(n) + 100) f('handler-run', `method ${n} gave ${out.map(hex)}`)
    c.rep.count('handlers run')
  }
  c.rep.sig(['handler', names, [...has], own, Object.keys(methods)])
}

// containers of a value which comes later, and the checks of errors
export async function containers(c: Ctx, i: number, rng: Rng) {
  const f = (key: string, msg: string) => bad(c, i, key, `${msg}\n${log.join('\n')}`)
  const log: string[] = []
  const vals = [0, '', false, null, 'x', 5, { o: 1 }, NaN]
  const kind = rng.int(3)
  const mkFn = () => {
    const fn: any = async (...a: any[]) => [fn, a]
    return fn
  }
  const value = () => (kind === 0 ? rng.pick(vals) : mkFn())
  const init = rng.p(0.4) ? value() : undefined
  const ctr: any = kind === 0 ? new ValueCtr<any>(init) : kind === 1 ? new OpenStreamCtr(init) : new HandleStreamCtr(init)
  log.push(`kind ${kind} init ${String(init)}`)
  let cur = init
  type W = { want: any; set: boolean; got?: any; n: number; at: number; early?: any }
  let setting: { v: any } | undefined
  const waiters: W[] = []
  const resolveAll = (v: any) => {
    for (const w of waiters) if (!w.set) (w.want = v), (w.set = true)
  }
  for (let k = rng.range(2, 12); k > 0; k--) {
    const op = rng.int(5)
    if (op === 0) {
      const v = rng.p(0.3) ? undefined : value()
      log.push('set ' + String(v))
      setting = { v }
      const nested = waiters.length
      ctr.set(v)
      setting = undefined
      cur = v
      // a callback added by a callback gets this value or the next one
      const added = waiters.splice(nested)
      if (v !== undefined) resolveAll(v)
      waiters.push(...added)
    } else if (op === 1) {
      if (!Object.is(ctr.value, cur)) f('ctr-value', `the value is ${String(ctr.value)} instead of ${String(cur)}`)
    } else if (op === 2) {
      const w: W = { want: cur, set: cur !== undefined, n: 0, at: log.push('wait') }
      waiters.push(w)
      void ctr.wait().then((v: any) => ((w.got = v), w.n++))
    } else if (op === 3) {
      const w: W = { want: undefined, set: false, n: 0, at: log.push('waitWithCb') }
      waiters.push(w)
      const again = rng.p(0.4)
      ctr.waitWithCb((v: any) => {
        w.got = v
        w.n++
        if (!again || !setting) return
        const x: W = { want: undefined, set: false, n: 0, at: log.push('waitWithCb in the callback'), early: setting.v }
        waiters.push(x)
        ctr.waitWithCb((v: any) => ((x.got = v), x.n++))
      })
    } else if (kind > 0) {
      const w: W = { want: cur, set: cur !== undefined, n: 0, at: log.push('call') }
      waiters.push(w)
      const fn = kind === 1 ? ctr.openStreamFunc : ctr.handleStreamFunc
      void fn('arg').then((r: any) => {
        w.got = r[0]
        w.n++
        if (kind === 2 && r[1][0] !== 'arg') f('ctr-call', 'the stream was not passed on')
      })
    } else await immediate()
    if (rng.p(0.4)) for (let t = 0; t < 3; t++) await immediate()
  }
  for (let t = 0; t < 6; t++) await immediate()
  for (const w of waiters) {
    if (w.early !== undefined && w.n === 1 && Object.is(w.got, w.early)) continue
    if (w.n !== (w.set ? 1 : 0)) f('ctr-wait', `the waiter of line ${w.at} was called ${w.n} times, a value was ${w.set ? '' : 'not '}set`)
    else if (w.set && !Object.is(w.got, w.want)) f('ctr-wait', `the waiter of line ${w.at} got ${String(w.got)} instead of ${String(w.want)}`)
  }
  c.rep.count('waiters', waiters.length)
  // errors
  const some: [any, boolean, boolean][] = [
    [null, false, false], [undefined, false, false], [0, false, false], ['', false, false], [ERR_RPC_ABORT, false, false], [{}, false, false],
    [new Error(ERR_RPC_ABORT), true, false], [{ message: ERR_RPC_ABORT }, true, false], [new Error(ERR_STREAM_IDLE), false, true], [new Error('x' + ERR_RPC_ABORT), false, false], [new Error(''), false, false],
    ['text', false, false], [5, false, false], [{ toString: () => 'own text' }, false, false], [{ toString: () => '' }, false, false], [Object.create(null), false, false],
  ]
  const [e, abort, idle] = rng.pick(some)
  try {
    if (isAbortError(e) !== abort || isStreamIdleError(e) !== idle) f('error-kind', `isAbortError(${nameOf(e)}) is ${isAbortError(e)}, isStreamIdleError is ${isStreamIdleError(e)}`)
    const x = castToError(e, 'fallback')
    if (!(x instanceof Error) && !x?.message) f('error-cast', `castToError(${nameOf(e)}) is ${String(x)}`)
    if (typeof e === 'string' && e && x.message !== e) f('error-cast', `castToError(${e}) is ${String(x)}`)
    if (e?.message && x !== e) f('error-cast', 'castToError does not keep an error')
    const own = e && !e.message && typeof e !== 'string' ? (typeof e.toString === 'function' ? e.toString() : '') || 'fallback' : undefined
    if (own !== undefined && x.message !== own) f('error-cast', `castToError(${typeof e}, 'fallback') has the message ${x.message} instead of ${own}`)
    if (!castToError(e).message) f('error-cast', 'castToError gives an error without a message')
    if (!e && x.message !== 'fallback') f('error-cast', `castToError(${nameOf(e)}, 'fallback') is ${x}`)
  } catch (err) {
    f('error-kind', `the checks of ${nameOf(e)} throw ${errText(err)}`)
  }
  c.rep.sig(['ctr', log, nameOf(e)])
}

// ---- C28 ---------------------------------------------------------------

// Clock is a virtual clock in place of the timers and the time.
class Clock {
  now = 1e12
  private timers = new Map<number, { at: number; fn: () => void }>()
  private next = 1
  private real = { s: globalThis.setTimeout, c: globalThis.clearTimeout, si: globalThis.setInterval, ci: globalThis.clearInterval, d: Date.now, p: performance.now }
  constructor(private rng: Rng, private early: boolean) {}
  install() {
    globalThis.setTimeout = ((fn: () => void, d: number) => {
      const id = this.next++
      const jitter = this.rng.p(0.7) ? 0 : this.rng.p(0.5) || !this.early ? this.rng.int(3) : -1
      this.timers.set(id, { at: this.now + Math.max(0, (d ?? 0) + jitter), fn })
      return id
    }) as any
    globalThis.clearTimeout = ((id: number) => {
      this.timers.delete(id)
    }) as any
    globalThis.setInterval = ((fn: () => void, d: number) => {
      const id = this.next++
      const set = () => this.timers.set(id, { at: this.now + Math.max(1, d ?? 0), fn: () => (set(), fn()) })
      set()
      return id
    }) as any
    globalThis.clearInterval = globalThis.clearTimeout as any
    Date.now = () => this.now
    performance.now = () => this.now
  }
  restore() {
    globalThis.setTimeout = this.real.s
    globalThis.clearTimeout = this.real.c
    globalThis.setInterval = this.real.si
    globalThis.clearInterval = this.real.ci
    Date.now = this.real.d
    performance.now = this.real.p
  }
  get pending() {
    return this.timers.size
  }
  // advance moves the time to t and fires what is due on the way.
  async advance(t: number, after: () => Promise<void>) {
    for (let n = 0; n < 100000; n++) {
      let best: [number, { at: number; fn: () => void }] | undefined
      for (const x of this.timers) if (x[1].at <= t && (!best || x[1].at < best[1].at)) best = x
      if (!best) break
      this.timers.delete(best[0])
      this.now = Math.max(this.now, best[1].at)
      best[1].fn()
      await after()
    }
    this.now = Math.max(this.now, t)
  }
}

export async function watchdogs(c: Ctx, i: number, rng: Rng) {
  const clock = new Clock(rng, true)
  const dur = rng.pick([1, 2, 5, 10, 50, 1000])
  const log: string[] = []
  const f = (key: string, msg: string) => bad(c, i, key, `${msg} (duration ${dur})\n${log.join('\n')}`)
  let fed: number | null = null
  let expired = 0
  clock.install()
  try {
    const w = new Watchdog(dur, () => {
      expired++
      log.push(`${clock.now - 1e12} expired`)
      if (fed === null) f('watchdog-unfed', 'expired although it is not fed')
      else if (clock.now < fed + dur) f('watchdog-early', `expired ${clock.now - fed} after it was fed`)
      fed = null
      if (rng.p(0.2)) {
        fed = clock.now
        log.push(`${clock.now - 1e12} feed in the callback`)
        w.feed()
      }
    })
    for (let k = rng.range(3, 30); k > 0; k--) {
      const op = rng.int(10)
      if (op < 5) {
        fed = clock.now
        log.push(`${clock.now - 1e12} feed`)
        w.feed()
      } else if (op < 6) {
        fed = null
        log.push(`${clock.now - 1e12} clear`)
        w.clear()
      }
      const t = clock.now + (rng.p(0.3) ? dur + rng.int(8) - 2 : rng.int(dur + 3))
      await clock.advance(t, async () => {})
      if (fed !== null && clock.now > fed + dur + 8) f('watchdog-late', `not expired ${clock.now - fed} after it was fed`)
    }
    // it must expire or be quiet in the end
    const was = fed
    const n = expired
    if (was !== null) {
      for (let k = 0; k < 6 && fed === was; k++) await clock.advance(clock.now + dur + 8, async () => {})
      if (expired === n) f('watchdog-late', 'never expired after it was fed')
    } else if (clock.pending) f('watchdog-leak', 'a timer is left although it was cleared or expired')
    w.clear()
    if (clock.pending) f('watchdog-leak', 'a timer is left after clear')
    fed = null
    await clock.advance(clock.now + 10 * dur, async () => {})
  } finally {
    clock.restore()
  }
  c.rep.count('watchdogs')
  c.rep.count('watchdogs expired', expired)
  c.rep.sig(['watchdog', dur, log])
}

// FakePort is one end of a message channel under control.
class FakePort {
  onmessage: any = null
  listeners = new Set<any>()
  started = false
  closed = false
  queue: any[] = []
  posts: any[] = []
  constructor(public onPost: (m: any) => void) {}
  postMessage(m: any) {
    if (this.closed) return
    const x = structuredClone(m)
    this.posts.push(x)
    this.onPost(x)
  }
  addEventListener(_: string, l: any) {
    this.listeners.add(l)
  }
  removeEventListener(_: string, l: any) {
    this.listeners.delete(l)
  }
  start() {
    this.started = true
  }
  close() {
    this.closed = true
  }
  deliver(m: any) {
    if (this.closed) return
    this.onmessage?.({ data: m })
    for (const l of [...this.listeners]) l({ data: m })
  }
}
function asMessagePort(p: FakePort): any {
  const o: any = Object.create(MessagePort.prototype)
  for (const k of ['postMessage', 'addEventListener', 'removeEventListener', 'start', 'close'] as const) Object.defineProperty(o, k, { value: (p as any)[k].bind(p) })
  Object.defineProperty(o, 'onmessage', {
    get: () => p.onmessage,
    set: (v) => {
      p.onmessage = v
      // as a real port does
      p.started = true
    },
  })
  return o
}
// Broadcast is one channel of a broadcast pair: posting to a closed one throws.
class FakeBroadcast extends FakePort {
  override postMessage(m: any) {
    if (this.closed) throw new DOMException('BroadcastChannel is closed.', 'InvalidStateError')
    super.postMessage(m)
  }
}

type ItemSrc = { items: any[]; fail?: Error }
const ITEMS = [0, '', false, 'x', { k: 1 }, 17]

export async function channels(c: Ctx, i: number, rng: Rng) {
  const clock = new Clock(rng, false)
  clock.install()
  const log: string[] = []
  const ev = (s: string) => log.push(`${clock.now - 1e12} ${s}`)
  const f = (key: string, msg: string) => bad(c, i, key, `${msg}\n${log.slice(0, 120).join('\n')}`)
  const ends: any[] = []
  const settle = async () => {
    for (let k = 0; k < 4; k++) await immediate()
  }
  try {
    const broadcast = rng.p(0.4)
    const duplex = rng.p(0.3)
    const maxDelay = rng.pick([0, 1, 5, 40])
    const lossAt = rng.p(0.25) ? rng.int(12) : -1
    let posts = 0
    let lost = false
    const last = [0, 0]
    const mkEnd = (side: number) => {
      const e: any = {
        side, got: [], sent: 0, lastRecv: undefined, lastPost: undefined, openSeen: undefined, closedAt: undefined, posts: 0,
        items: [] as any[], fail: undefined as Error | undefined, nullSeen: false, dataPosts: 0,
      }
      const onPost = (m: any) => {
        if (e.closedAt !== undefined && !(m === null || m?.closed)) f('channel-post-after-close', `end ${side} posts ${JSON.stringify(m)} after it was closed`)
        e.posts++
        e.lastPost = clock.now
        if (m === null) e.sentBeforeNull ??= e.dataPosts
        else e.dataPosts++
        if (m?.closed && m.error?.message === ERR_STREAM_IDLE) e.idleAt = clock.now
        ev(`end ${side} posts ${JSON.stringify(m)}`)
        if (!duplex && m?.data !== undefined && !e.mustOpen) f('channel-data-before-open', `end ${side} sends data before the remote opened the stream`)
        if (lossAt >= 0 && posts++ >= lossAt) lost = true
        if (lost) return
        // in order
        const at = Math.max(last[side], clock.now + rng.int(maxDelay + 1))
        last[side] = at
        timers.push({ at, fn: () => ends[1 - side].receive(m) })
      }
      e.receive = (m: any) => {
        if (!e.made) {
          if (broadcast) return
          e.early.push(m)
          return
        }
        const p = broadcast ? e.rx : e.tx
        if (p.closed) return
        if (!broadcast && !p.started) {
          e.early.push(m)
          return
        }
        if (!duplex && m && typeof m === 'object' && m.from && m.from !== 'id' + side) e.lastRecv = clock.now
        if (m?.opened) e.mustOpen = true
        if (m?.opened || m?.ack) e.mustAck = true
        if (m === null) e.nullSeen = true
        if (m?.closed || m?.error) e.endSeen = true
        p.deliver(m)
      }
      e.early = []
      e.tx = broadcast ? new FakeBroadcast(onPost) : new FakePort(onPost)
      e.rx = broadcast ? new FakeBroadcast(() => {}) : e.tx
      return e
    }
    const timers: { at: number; fn: () => void }[] = []
    ends.push(mkEnd(0), mkEnd(1))
    const remoteOpen = !duplex && rng.p(0.15)
    for (const e of ends) {
      e.opts = duplex ? {} : { remoteOpen: remoteOpen || undefined, idleTimeoutMs: rng.p(0.4) ? rng.pick([100, 300]) : undefined, keepAliveMs: rng.p(0.4) ? rng.pick([30, 80, 200]) : undefined }
      if (remoteOpen) e.mustOpen = e.mustAck = true
      for (let k = rng.pick([0, 1, 3, 8]); k > 0; k--) e.items.push(rng.pick(ITEMS))
      if (rng.p(0.15)) e.fail = new Error('source of ' + e.side + ' failed')
      e.hang = rng.p(0.2)
      e.makeAt = clock.now + (broadcast && (duplex || remoteOpen) ? 0 : rng.int(30))
      e.sinkAt = e.makeAt + (rng.p(0.5) ? 0 : rng.int(60))
      e.closeAt = rng.p(0.2) ? e.makeAt + rng.int(400) : undefined
      e.closeErr = rng.p(0.5) ? new Error('closed by ' + e.side) : undefined
    }
    const make = (e: any) => {
      e.made = true
      const port = broadcast ? { tx: e.tx, rx: e.rx } : asMessagePort(e.tx)
      e.s = duplex
        ? broadcast
          ? new BroadcastChannelDuplex<any>(e.rx as any, e.tx as any)
          : new MessagePortDuplex<any>(port as any)
        : new ChannelStream<any>('id' + e.side, port as any, e.opts)
      if (!duplex) {
        e.s.waitRemoteOpen.then(() => (e.openState = 'open'), (err: any) => (e.openState = errText(err)))
        e.s.waitRemoteAck.then(() => (e.ackState = 'ack'), (err: any) => (e.ackState = errText(err)))
      }
      ev(`end ${e.side} made`)
      void (async () => {
        try {
          for await (const x of e.s.source) {
            e.got.push(x)
            ev(`end ${e.side} gets ${JSON.stringify(x)}`)
          }
          e.readEnd = 'end'
        } catch (err) {
          e.readEnd = 'error: ' + errText(err)
        }
        e.readEndAt = clock.now
        ev(`end ${e.side} reads ${e.readEnd}`)
      })()
      const flush = async () => {
        await settle()
        if (!broadcast && e.tx.started) for (const m of e.early.splice(0)) e.receive(m)
      }
      e.flush = flush
    }
    const startSink = (e: any) => {
      e.sinkStarted = true
      ev(`end ${e.side} starts its sink`)
      async function* src() {
        for (const x of e.items) {
          if (rng.p(0.4)) await e.step()
          e.sent++
          yield x
        }
        if (e.hang) await new Promise(() => {})
        if (e.fail) throw e.fail
      }
      e.s.sink(src()).then(
        () => (e.sinkEnd = 'end'),
        (err: any) => (e.sinkEnd = 'error: ' + errText(err)),
      )
    }
    for (const e of ends) {
      e.waiting = []
      e.step = () => new Promise<void>((r) => e.waiting.push(r))
    }
    const noise = () => {
      const e = rng.pick(ends)
      if (e.made && !duplex) {
        const m = rng.pick([null, {}, 'text', { data: 'noise' }, { from: 'id' + e.side, data: 'own', closed: true }, { from: '', data: 'noise' }, 7])
        const p = broadcast ? e.rx : e.tx
        p.deliver(m)
      }
    }
    const total = rng.pick([300, 600, 1200])
    const start = clock.now
    while (clock.now < start + total) {
      for (const e of ends) {
        if (!e.made && clock.now >= e.makeAt) make(e)
        if (e.made && e.flush) await e.flush()
        if (e.made && !e.sinkStarted && clock.now >= e.sinkAt) startSink(e)
        if (e.made && e.closeAt !== undefined && e.closedAt === undefined && clock.now >= e.closeAt) {
          ev(`end ${e.side} close`)
          e.openWas = e.openState
          e.ackWas = e.ackState
          try {
            e.s.close(duplex ? undefined : e.closeErr)
            e.closedAt = clock.now
            if (rng.p(0.3)) e.s.close()
          } catch (err) {
            f('channel-close-throws', 'close throws ' + errText(err))
          }
        }
        if (e.waiting.length && rng.p(0.7)) e.waiting.shift()()
      }
      if (rng.p(0.1)) noise()
      await settle()
      const step = clock.now + rng.range(1, 12)
      for (;;) {
        let best = -1
        timers.forEach((t, k) => {
          if (t.at <= step && (best < 0 || t.at < timers[best].at)) best = k
        })
        if (best < 0) break
        const t = timers.splice(best, 1)[0]
        await clock.advance(t.at, settle)
        t.fn()
        await settle()
      }
      await clock.advance(step, settle)
      // the timeouts
      for (const e of ends) {
        if (!e.made || duplex) continue
        if (e.s.isOpen !== (e.openState === 'open') && e.closedAt === undefined) f('channel-open', `isOpen of end ${e.side} is ${e.s.isOpen}, waiting for it gave ${e.openState}`)
        if (e.s.isAcked !== (e.ackState === 'ack') && e.closedAt === undefined) f('channel-open', `isAcked of end ${e.side} is ${e.s.isAcked}, waiting for it gave ${e.ackState}`)
        const idle = e.opts.idleTimeoutMs
        const over = e.closedAt !== undefined || e.tx.closed
        if (idle !== undefined && e.lastRecv !== undefined && !over && clock.now > e.lastRecv + idle + 20) {
          f('channel-idle-missed', `end ${e.side} is not closed ${clock.now - e.lastRecv} after the last message, its idle timeout is ${idle}`)
          return
        }
        if (!over && e.opts.keepAliveMs !== undefined && clock.now > e.lastPost + e.opts.keepAliveMs + 20) {
          f('channel-keepalive-missed', `end ${e.side} sent nothing for ${clock.now - e.lastPost}, its keep-alive is ${e.opts.keepAliveMs}`)
          return
        }
        if (e.tx.closed && e.closedAt === undefined) {
          // closed by itself
          e.closedAt = clock.now
          e.idled = true
          if (idle === undefined) f('channel-closed-itself', `end ${e.side} closed itself without an idle timeout`)
          else if (e.idleAt === undefined || e.idleAt < e.lastRecv + idle) f('channel-idle-early', `end ${e.side} is idle ${e.idleAt - e.lastRecv} after the last message, its idle timeout is ${idle}`)
          c.rep.count('idle timeouts')
        }
      }
    }
    await settle()
    // what was received
    for (const e of ends) {
      const o = ends[1 - e.side]
      const sent = o.items.slice(0, o.sent)
      if (e.got.length > sent.length || e.got.some((x: any, k: number) => JSON.stringify(x) !== JSON.stringify(sent[k]))) f('channel-data', `end ${e.side} got ${JSON.stringify(e.got)}, the other sent ${JSON.stringify(sent)}`)
      const quiet = !lost && ends.every((x) => x.closedAt === undefined && !x.tx.closed)
      if (quiet && !duplex && e.sinkStarted && o.sinkStarted) {
        if (o.sinkEnd !== undefined && o.sinkEnd !== 'end') f('channel-sink', `the sink of end ${o.side} ended with ${o.sinkEnd}`)
        if (!o.fail && e.got.length !== o.sent && timers.length === 0) f('channel-data', `end ${e.side} got ${e.got.length} of ${o.sent}`)
        if (o.sinkEnd && timers.length === 0 && o.items.length === o.sent && !o.hang) {
          const want = o.fail ? 'error: ' + o.fail.message : 'end'
          if (e.readEnd !== want) f('channel-end', `the source of end ${o.side} ended with ${want}, end ${e.side} reads ${e.readEnd}`)
        }
        if (o.hang && e.readEnd) f('channel-end', `end ${e.side} reads ${e.readEnd}, the other has not ended`)
        if (e.openState !== 'open' || e.ackState !== 'ack' || !e.s.isOpen || !e.s.isAcked) f('channel-open', `end ${e.side} is not open: ${e.openState} ${e.ackState}`)
        if (o.items.length && o.sent === 0 && !o.waiting.length) f('channel-open', `end ${o.side} never starts to send`)
      }
      if (duplex && e.made && e.tx.closed && e.closedAt === undefined && e.sinkEnd === undefined && !e.nullSeen) f('channel-closed-itself', `end ${e.side} closed itself, nothing ended`)
      if (duplex && !lost && e.made) {
        // the end of one direction closes both
        if (e.nullSeen) {
          if (e.got.length !== o.sentBeforeNull) f('channel-data', `end ${e.side} got ${e.got.length} of ${o.sentBeforeNull} before the end`)
          if (e.readEnd !== 'end') f('channel-end', `end ${o.side} was closed, end ${e.side} reads ${e.readEnd}`)
          if (!e.tx.closed) f('channel-end', `end ${o.side} was closed, end ${e.side} is left open`)
          c.rep.count('duplexes ended by the remote')
        } else if (timers.length === 0 && !e.tx.closed && o.made) {
          if (e.got.length !== o.sent) f('channel-data', `end ${e.side} got ${e.got.length} of ${o.sent}`)
          if (e.readEnd) f('channel-end', `end ${e.side} reads ${e.readEnd}, the other has not ended`)
          if (o.sinkEnd || o.closedAt !== undefined) f('channel-end', `end ${o.side} ended, the other is not told`)
        }
        if (o.fail && o.sinkEnd === 'end') f('channel-sink', `the source of end ${o.side} failed, its sink ended without an error`)
      }
      if (e.made && !duplex && ((e.openState === 'open' && !e.mustOpen) || (e.ackState === 'ack' && !e.mustAck))) f('channel-open', `end ${e.side} says that the remote opened (${e.openState}) and acknowledged (${e.ackState}) the stream, but it did not`)
      if (e.made && e.closedAt !== undefined && !duplex) {
        if (!e.idled && e.readEnd === undefined) f('channel-close', `end ${e.side} was closed, its reader is not told`)
        const why = e.idled ? ERR_STREAM_IDLE : e.closeErr ? e.closeErr.message : 'closed'
        for (const [state, ok] of [[e.openState, 'open'], [e.ackState, 'ack']]) if (state !== undefined && state !== ok && state !== why) f('channel-close', `end ${e.side} was closed (${why}), waiting for the remote gave ${state}`)
        // who reads learns why, unless the remote ended the stream before
        const seen = e.idled ? 'error: ' + ERR_STREAM_IDLE : e.closeErr ? 'error: ' + e.closeErr.message : 'end'
        if (!e.endSeen && e.readEnd !== undefined && e.readEnd !== seen) f('channel-close', `end ${e.side} was closed (${why}), its reader gets ${e.readEnd}`)
        if (e.openState === undefined || e.ackState === undefined) f('channel-close', `end ${e.side} was closed, but waiting for the remote does not end`)
        if (!lost && timers.length === 0 && o.made && !o.tx.closed && o.closedAt === undefined && o.readEnd === undefined && !(broadcast && o.makeAt > e.closedAt)) f('channel-close', `end ${e.side} was closed, the other is not told`)
        if (e.idled && e.readEnd === undefined) f('channel-idle', `end ${e.side} timed out but its reader is not told`)
      }
      c.rep.count('channel messages', e.got.length)
    }
    c.rep.count(duplex ? 'duplexes' : 'channel streams')
    c.rep.sig(['channel', broadcast, duplex, maxDelay, lossAt, ends.map((e) => [e.opts, e.items.length, e.hang, !!e.fail, e.makeAt - start, e.sinkAt - start, e.closeAt, !!e.closeErr])])
    c.rep.hist(log.join('\n'))
    if (c.rep.samples.length < 2) c.rep.samples.push(log.slice(0, 20))
    for (const e of ends) {
      try {
        e.s?.close()
      } catch {
        // closed
      }
    }
    if (!duplex && clock.pending) {
      f('channel-timer-leak', `${clock.pending} timers are left after both ends were closed`)
      // no timer of a stream may be left: they would keep a process alive
      const before = ends.map((e) => e.posts)
      await clock.advance(clock.now + 5000, settle)
      if (ends.some((e, k) => e.posts !== before[k])) f('channel-post-after-close', 'a closed stream still sends')
      if (clock.pending) f('channel-timer-leak', 'timers are left after both ends were closed')
    }
  } finally {
    clock.restore()
  }
}
void Sched
