// Nested streams by themselves: ids, lookups, packets and ends (C25).
import { pushable } from 'it-pushable'
import { openRpcStream, handleRpcStream, buildRpcStreamOpenStream } from '@repo/rpcstream/rpcstream.ts'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb.ts'
import { Rng, Sched, hex, same, errText, type Ctx } from './lib.js'

const IDS = ['', 'a', 'plugin/b', ' padded ', 'UPPER', 'ünïcode/\u0000x', '__proto__', 'a'.repeat(300), '/', 'init']

interface Out {
  packets: Uint8Array[]
  fail?: string
}
const outOf = (rng: Rng, tag: number): Out => ({
  packets: Array.from({ length: rng.pick([0, 1, 1, 2, 3, 6, 20]) }, (_, k) => {
    const b = rng.bytes(rng.pick([0, 1, 2, 8, 40, 300]))
    if (b.length) b[0] = tag
    if (b.length > 1) b[1] = k
    return b
  }),
  fail: rng.p(0.25) ? 'source failed ' + tag + ' ' + rng.int(1000) : undefined,
})

interface Got {
  packets: Uint8Array[]
  ended?: boolean
  error?: string
}
const collect = async (source: any, g: Got, mid?: (n: number) => Promise<void>) => {
  try {
    for await (const x of source) {
      g.packets.push(x instanceof Uint8Array ? x.slice() : x)
      await mid?.(g.packets.length)
    }
    g.ended = true
  } catch (err) {
    g.error = errText(err)
  }
}

// relay passes items on, encoded and decoded, with pauses.
function relay(rng: Rng, sched: Sched, src: any, log?: (p: any) => void): any {
  const coded = rng.p(0.5)
  return (async function* () {
    for await (const x of src) {
      if (rng.p(0.3)) await sched.pause(rng.range(1, 5))
      log?.(x)
      yield coded ? RpcStreamPacket.fromBinary(RpcStreamPacket.toBinary(x as any)) : x
    }
  })()
}

export async function nestedStreams(c: Ctx, i: number, rng: Rng) {
  const sched = new Sched()
  const mode = rng.pick(['both', 'both', 'server', 'client'] as const)
  const id = rng.pick(IDS)
  const ack = rng.p(0.5)
  const up = outOf(rng, 1)
  const down = outOf(rng, 2)
  const lookup = rng.pick(['ok', 'ok', 'ok', 'ok', 'null', 'error', 'reject', 'bare', 'string'] as const)
  const handling = rng.pick(['ends', 'ends', 'fails-early', 'slow'] as const)
  const desc = JSON.stringify({ mode, id: id.slice(0, 20), ack, up: [up.packets.map(hex), up.fail], down: [down.packets.map(hex), down.fail], lookup, handling })
  c.rep.sig(desc)
  const bad = (key: string, msg: string) => c.rep.violation(key, i, msg + '\n' + desc)

  const srcOf = (o: Out) =>
    (async function* () {
      for (const p of o.packets) {
        if (rng.p(0.4)) await sched.pause(rng.range(1, 6))
        yield p
      }
      if (rng.p(0.4)) await sched.pause(rng.range(1, 6))
      if (o.fail) throw new Error(o.fail)
    })()

  // ---- the server side
  const asked: string[] = []
  let handlers = 0
  const server: Got = { packets: [] }
  let handlerErr: string | undefined
  const handler = async (stream: any) => {
    handlers++
    if (handling === 'fails-early') {
      await sched.pause(rng.int(4))
      handlerErr = 'handler failed ' + rng.int(1000)
      throw new Error(handlerErr)
    }
    const reading = collect(stream.source, server, async () => {
      if (handling === 'slow' && rng.p(0.5)) await sched.pause(rng.range(1, 8))
    })
    await Promise.all([stream.sink(srcOf(down)), reading])
  }
  const getter: any = async (x: string) => {
    asked.push(x)
    if (rng.p(0.5)) await sched.pause(rng.range(1, 5))
    switch (lookup) {
      case 'null':
        return null
      case 'error':
        throw new Error('no such component')
      case 'reject':
        return Promise.reject(new Error('no such component'))
      case 'bare':
        throw null
      case 'string':
        throw 'plain text'
    }
    return handler
  }
  const lookupText = { ok: '', null: 'not implemented', error: 'no such component', reject: 'no such component', bare: 'rpc getter failed', string: 'plain text' }[lookup]

  // check compares what one end got with what the other end gave.
  const check = (who: string, g: Got, o: Out, err?: string) => {
    for (const [k, p] of g.packets.entries()) {
      if (!(p instanceof Uint8Array) || k >= o.packets.length || !same(p, o.packets[k])) {
        return bad('nested-data', `the ${who} got as packet ${k}: ${p instanceof Uint8Array ? hex(p) : p}; all: ${g.packets.map((x: any) => hex(x))}`)
      }
    }
    c.rep.count('packets', g.packets.length)
    const fail = err ?? o.fail
    if (fail === undefined) {
      if (!g.ended) bad('nested-end', `the ${who} did not see the regular end: ${g.error ?? 'nothing'}`)
      else if (g.packets.length !== o.packets.length) bad('nested-lost', `the ${who} got ${g.packets.length} of ${o.packets.length} packets`)
      else c.rep.count('ends')
      return
    }
    if (g.error === undefined || !g.error.includes(fail)) bad('nested-failure', `the ${who} did not see the failure '${fail}' but ${g.error ?? (g.ended ? 'the regular end' : 'nothing')}`)
    else c.rep.count('failures')
  }

  if (mode === 'both') {
    const inits: any[] = []
    const caller = (request: any) => relay(rng, sched, handleRpcStream(relay(rng, sched, request, (p) => inits.push(p))[Symbol.asyncIterator](), getter))
    let openErr: string | undefined
    const client: Got = { packets: [] }
    const run = (async () => {
      let stream: any
      try {
        stream = await (rng.p(0.5) && !ack ? buildRpcStreamOpenStream(id, caller as any)() : openRpcStream(id, caller as any, ack))
      } catch (err) {
        openErr = errText(err)
        return
      }
      if (ack && (asked.length !== 1 || lookup !== 'ok')) bad('nested-ack', `the stream was opened with ${asked.length} lookups`)
      await Promise.all([stream.sink(srcOf(up)), collect(stream.source, client)])
    })()
    if (!(await sched.settle(run))) return bad('nested-hangs', `the client does not end; got ${client.packets.length}, ${client.ended} ${client.error}`)
    await sched.idle(() => false)
    if (asked.length !== 1) return bad('nested-lookup', `${asked.length} lookups: ${asked}`)
    if (asked[0] !== id) return bad('nested-id', `looked up ${JSON.stringify(asked[0])} for ${JSON.stringify(id)}`)
    if (handlers !== (lookup === 'ok' ? 1 : 0)) return bad('nested-handlers', `${handlers} handlers ran`)
    c.rep.hist([lookup, ack, openErr, client.packets.length, client.ended, client.error, server.packets.length, server.ended, server.error].join('|'))
    if (lookup !== 'ok') {
      const e = ack ? openErr : client.error
      if (e === undefined || !e.includes(lookupText)) bad('nested-refusal', `the client saw ${e} instead of '${lookupText}'`)
      if (client.packets.length) bad('nested-data', 'the client got packets of nobody')
      c.rep.count('refusals')
      return
    }
    if (openErr !== undefined) return bad('nested-open', 'opening failed: ' + openErr)
    check('client', client, handling === 'fails-early' ? { packets: [] } : down, handlerErr)
    if (handling !== 'fails-early' && !down.fail) check('server', server, up)
    return
  }

  // ---- a scripted other end
  const items: any[] = []
  const first = rng.pick(['right', 'right', 'right', 'right', 'data', 'none', 'empty', 'other', 'nothing', 'fails'] as const)
  const other = mode === 'server' ? { body: { case: 'ack', value: { error: '' } } } : { body: { case: 'init', value: { componentId: id } } }
  const right =
    mode === 'server' ? { body: { case: 'init', value: rng.p(0.2) && !id ? {} : { componentId: id } } } : { body: { case: 'ack', value: rng.p(0.3) ? {} : { error: '' } } }
  const firstErr = mode === 'client' && first === 'right' && rng.p(0.2) ? 'refused ' + rng.int(1000) : ''
  if (firstErr) (right.body.value as any).error = firstErr
  const data = (b: Uint8Array) => ({ body: { case: 'data', value: b } })
  if (first === 'right') items.push(right)
  if (first === 'data') items.push(data(new Uint8Array([1, 2])))
  if (first === 'none') items.push({ body: { case: undefined } })
  if (first === 'empty') items.push({})
  if (first === 'other') items.push(other)
  const want: Out = { packets: [] }
  let wantErr: string | undefined
  const script = mode === 'server' ? up : down
  // 'client' which does not wait: the first packet is one like any other
  if (mode === 'client' && !ack && first === 'data') want.packets.push(new Uint8Array([1, 2]))
  if (mode === 'client' && !ack && firstErr) wantErr = firstErr
  for (const p of script.packets) {
    if (rng.p(0.15)) items.push(rng.pick([other, { body: { case: undefined } }, {}, { body: { case: 'ack', value: {} } }, { body: { case: 'init', value: { componentId: 'x' } } }]))
    if (rng.p(0.04)) {
      const e = 'late refusal ' + rng.int(1000)
      items.push({ body: { case: 'ack', value: { error: e } } })
      wantErr ??= e
    }
    items.push(data(p))
    if (wantErr === undefined) want.packets.push(p)
  }
  const inputFail = script.fail ?? (first === 'fails' ? 'input failed' : undefined)
  const input = (async function* () {
    if (first !== 'nothing' && first !== 'fails') {
      for (const x of items) {
        if (rng.p(0.3)) await sched.pause(rng.range(1, 5))
        yield x
      }
    }
    if (rng.p(0.3)) await sched.pause(rng.range(1, 5))
    if (inputFail) throw new Error(inputFail)
  })()
  if (first === 'nothing' || first === 'fails') {
    want.packets = []
    wantErr = undefined
  }
  want.fail = inputFail
  c.rep.count('scripted')

  if (mode === 'server') {
    const sent: any[] = []
    let end: string | undefined
    const run = (async () => {
      try {
        for await (const p of handleRpcStream(input as any, getter) as any) {
          if (rng.p(0.2)) await sched.pause(rng.range(1, 4))
          sent.push(p)
        }
        end = ''
      } catch (err) {
        end = errText(err) || 'an error'
      }
    })()
    if (!(await sched.settle(run))) return bad('nested-hangs', 'the handler of the stream does not end')
    await sched.idle(() => false)
    c.rep.hist([first, lookup, end, sent.length, server.packets.length, server.ended, server.error].join('|'))
    const started = first === 'right'
    if (asked.length !== (started ? 1 : 0)) return bad('nested-lookup', `${asked.length} lookups after a first packet '${first}'`)
    if (started && asked[0] !== id) return bad('nested-id', `looked up ${JSON.stringify(asked[0])} for ${JSON.stringify(id)}`)
    if (handlers !== (started && lookup === 'ok' ? 1 : 0)) return bad('nested-handlers', `${handlers} handlers ran after a first packet '${first}'`)
    if (!started) {
      if (!end) bad('nested-failure', `the stream ended regularly after a first packet '${first}'`)
      if (sent.length) bad('nested-data', 'sent ' + JSON.stringify(sent))
      return
    }
    // first the answer, then the packets of the handler
    const a = sent[0]?.body
    if (a?.case !== 'ack' || (lookup === 'ok' ? a.value.error : !a.value.error?.includes(lookupText))) {
      return bad('nested-ack', `the answer is ${JSON.stringify(sent[0])}, lookup ${lookup}`)
    }
    if (lookup !== 'ok') {
      if (!end?.includes(lookupText)) bad('nested-refusal', `the stream ended with '${end}'`)
      if (sent.length !== 1) bad('nested-data', 'sent ' + JSON.stringify(sent))
      return
    }
    const odd = sent.slice(1).find((p) => p.body?.case !== 'data')
    if (odd) return bad('nested-data', 'sent ' + JSON.stringify(odd))
    const g: Got = { packets: sent.slice(1).map((p) => p.body.value), ended: end === '', error: end || undefined }
    check('caller', g, handling === 'fails-early' ? { packets: [] } : down, handlerErr)
    if (handling !== 'fails-early' && !down.fail) check('handler', server, want, wantErr)
    return
  }

  // a client of a scripted server
  const sent: any[] = []
  const sentEnd: { err?: string; ended?: boolean } = {}
  const caller = (request: any) => {
    void (async () => {
      try {
        for await (const p of request) sent.push(p)
        sentEnd.ended = true
      } catch (err) {
        sentEnd.err = errText(err)
      }
    })()
    return input
  }
  const client: Got = { packets: [] }
  let openErr: string | undefined
  const run = (async () => {
    let stream: any
    try {
      stream = await openRpcStream(id, caller as any, ack)
    } catch (err) {
      openErr = errText(err) || 'an error'
      return
    }
    await Promise.all([stream.sink(srcOf(up)), collect(stream.source, client)])
  })()
  if (!(await sched.settle(run))) return bad('nested-hangs', 'the client does not end')
  await sched.idle(() => false)
  c.rep.hist([first, ack, openErr, sent.length, client.packets.length, client.ended, client.error].join('|'))
  const init = sent[0]?.body
  if (init?.case !== 'init' || (init.value.componentId ?? '') !== id) return bad('nested-id', `the first packet is ${JSON.stringify(sent[0])}`)
  if (ack) {
    const ok = first === 'right' && !firstErr
    if (ok !== (openErr === undefined)) return bad('nested-ack', `after the first packet '${first}' opening gave ${openErr ?? 'a stream'}`)
    if (!ok) {
      if (firstErr && !openErr!.includes(firstErr)) bad('nested-refusal', `opening failed with '${openErr}' instead of '${firstErr}'`)
      if (sent.length !== 1) bad('nested-data', 'sent ' + JSON.stringify(sent))
      // nobody can end the stream any more but openRpcStream
      if (!sentEnd.ended && sentEnd.err === undefined) bad('nested-left-open', `opening failed with '${openErr}' but the stream it opened was not ended`)
      c.rep.count('refusals')
      return
    }
  } else if (openErr !== undefined) return bad('nested-open', 'opening failed: ' + openErr)
  check('client', client, want, wantErr)
  const odd = sent.slice(1).find((p) => p.body?.case !== 'data')
  if (odd) return bad('nested-data', 'sent ' + JSON.stringify(odd))
  check('scripted server', { packets: sent.slice(1).map((p) => p.body.value), ended: sentEnd.ended, error: sentEnd.err }, up)
}
void pushable
