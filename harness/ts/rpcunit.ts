// The ends of single calls without a stream, fed in every way they offer (C29).
import { ServerRPC } from '@repo/srpc/server-rpc.ts'
import { ClientRPC } from '@repo/srpc/client-rpc.ts'
import { Packet, isAbortError, decodePacketSource, encodePacketSource } from '@repo/index.ts'
import { encode } from './hostile.js'
import { Rng, hex, same, errText, immediate, type Ctx } from './lib.js'

const EMPTY = new Uint8Array(0)
const settle = async () => {
  for (let k = 0; k < 6; k++) await immediate()
}

export async function directCalls(c: Ctx, i: number, rng: Rng) {
  const log: string[] = []
  const f = (key: string, msg: string) => c.rep.violation(key, i, `${msg}\n${log.join('\n')}`)
  const server = rng.p(0.5)
  const msgs = Array.from({ length: rng.int(5) }, () => (rng.p(0.3) ? EMPTY : rng.bytes(rng.range(1, 40))))
  const end = rng.pick(['complete', 'complete', 'error', 'cancel', 'nothing'] as const)
  const badStart = rng.p(0.15)
  const svc = 'svc ' + rng.int(3)
  const met = 'met' + rng.int(3)
  const handlerErr = rng.p(0.3) ? 'handler failed ' + rng.int(9) : ''
  const resps = Array.from({ length: rng.int(4) }, () => (rng.p(0.3) ? EMPTY : rng.bytes(rng.range(1, 40))))
  // what the remote sends
  const pkts: any[] = []
  const raw: Uint8Array[] = []
  const add = (p: any) => {
    const b = encode(p)
    raw.push(b)
    pkts.push(Packet.fromBinary(b))
    log.push('packet ' + JSON.stringify({ ...p, data: p.data && hex(p.data) }))
  }
  const first = server && msgs.length > 0 && rng.p(0.4)
  const data = (d: Uint8Array) => ({ data: d, zero: d.length === 0 })
  if (server !== badStart) add({ t: 'start', svc: svc, met: met, ...(first ? data(msgs[0]) : {}) })
  const rest = first ? msgs.slice(1) : msgs
  const joined = rest.length > 0 && rng.p(0.3) && (end === 'complete' || end === 'error')
  rest.forEach((m, k) => {
    const last = joined && k === rest.length - 1
    add({ t: 'data', ...data(m), complete: last && end === 'complete', error: last && end === 'error' ? 'remote failed' : '' })
  })
  if (!joined) {
    if (end === 'complete') add({ t: 'data', complete: true })
    else if (end === 'error') add({ t: 'data', complete: rng.p(0.5), error: 'remote failed' })
    else if (end === 'cancel') add({ t: 'cancel', val: true })
  }
  const how = rng.int(5)
  log.unshift(`${server ? 'server' : 'client'}, fed by ${['a list', 'an async source', 'packets', 'messages', 'encoded lists'][how]}, end ${end}${badStart ? ', wrong start' : ''}, ${handlerErr || 'handler ok'}`)

  const got: Uint8Array[] = []
  let gotEnd: string | undefined
  let looked: string[] = []
  let ran = 0
  const read = async (src: any) => {
    try {
      for await (const m of src) got.push(m)
      gotEnd = 'end'
    } catch (err) {
      gotEnd = 'error: ' + errText(err)
    }
  }
  const rpc: any = server
    ? new ServerRPC(async (s: string, m: string) => {
        looked.push(s + '/' + m)
        await settle()
        return async (src: any, sink: any) => {
          ran++
          await read(src)
          if (handlerErr) throw new Error(handlerErr)
          await sink(
            (async function* () {
              for (const r of resps) {
                if (rng.p(0.3)) await immediate()
                yield r
              }
            })(),
          )
        }
      })
    : new ClientRPC(svc, met)
  if (rpc.isClosed !== false) f('rpc-is-closed', 'a new call is closed: ' + rpc.isClosed)
  const out: any[] = []
  let outEnd = ''
  void (async () => {
    try {
      for await (const p of rpc.source) out.push(p)
      outEnd = 'end'
    } catch (err) {
      outEnd = 'error: ' + errText(err)
    }
  })()
  if (!server) {
    void read(rpc.rpcDataSource)
    await rpc.writeCallStart(rng.p(0.5) ? EMPTY : undefined)
  }
  try {
    if (how === 0) await rpc.sink(pkts)
    else if (how === 1)
      await rpc.sink(
        (async function* () {
          for (const p of pkts) {
            if (rng.p(0.5)) await immediate()
            yield p
          }
        })(),
      )
    else if (how === 4) {
      // encoded, alone or some together
      const chunks: any[] = []
      for (let k = 0; k < raw.length; ) {
        const n = rng.int(4)
        chunks.push(n === 0 ? raw[k++] : raw.slice(k, (k += n)))
      }
      log.push('chunks ' + chunks.map((x) => (Array.isArray(x) ? x.length : 'one')))
      await rpc.sink(decodePacketSource(chunks) as any)
    } else for (const [k, p] of pkts.entries()) await (how === 2 ? rpc.handlePacket(p) : rpc.handleMessage(raw[k]))
  } catch (err) {
    f('rpc-throws', 'feeding the call throws ' + errText(err))
  }
  await settle()
  await settle()
  // what must have happened
  const ended = how < 2 || how === 4
  const wantMsgs = badStart ? [] : msgs
  if (got.length !== wantMsgs.length && !(end === 'cancel' && got.length < wantMsgs.length) || got.some((m, k) => !same(m, wantMsgs[k])))
    f('rpc-messages', `got ${got.map(hex)} instead of ${wantMsgs.map(hex)}`)
  let want: string | undefined
  if (end === 'complete') want = 'end'
  else if (end === 'error') want = 'error: remote failed'
  else if (end === 'cancel') want = 'error: ERR_RPC_ABORT'
  else if (ended) want = 'error: ERR_STREAM_CLOSED'
  if (badStart) {
    if (server) {
      // data without a start: nothing runs and the call fails
      if (ran || looked.length) f('rpc-no-start', 'a handler ran without a call start')
      if (pkts.length && !(rpc.isClosed instanceof Error)) f('rpc-no-start', 'packets without a call start do not fail the call: ' + rpc.isClosed)
    } else {
      if (gotEnd === undefined || gotEnd === 'end') f('rpc-start-at-client', `a client which got a call start reads ${gotEnd}`)
      if (!(rpc.isClosed instanceof Error)) f('rpc-start-at-client', 'a call start does not fail the call of a client: ' + rpc.isClosed)
    }
  } else {
    if (server && (ran !== 1 || looked.join() !== svc + '/' + met)) f('rpc-handler', `the handler ran ${ran} times, looked up: ${looked}`)
    if (gotEnd !== want) f('rpc-end', `the end is ${gotEnd} instead of ${want}`)
    if (end === 'cancel' && !(rpc.isClosed instanceof Error && isAbortError(rpc.isClosed))) f('rpc-is-closed', 'a cancelled call is closed with ' + rpc.isClosed)
  }
  // what was sent reads the same however it is encoded
  const groups: any[] = []
  for (let k = 0; k < out.length; ) {
    const n = rng.int(3)
    groups.push(n === 0 ? out[k++] : out.slice(k, (k += n)))
  }
  const enc: Uint8Array[] = []
  for await (const b of encodePacketSource(groups)) enc.push(b)
  const wantEnc = out.map((p) => Packet.toBinary(p))
  if (enc.length !== wantEnc.length || enc.some((b, k) => !same(b, wantEnc[k]))) f('rpc-encode', `${out.length} packets, encoded in groups of ${groups.map((g) => (Array.isArray(g) ? g.length : 'one'))}, are ${enc.map(hex)} instead of ${wantEnc.map(hex)}`)
  const kinds = out.map((p) => p.body?.case)
  if (server && !badStart) {
    const datas = out.filter((p) => p.body?.case === 'callData').map((p) => p.body.value)
    const sent = datas.filter((d) => d.dataIsZero || d.data?.length).map((d) => d.data as Uint8Array)
    const wantSent = handlerErr || end === 'cancel' ? [] : resps
    if (want !== undefined && (sent.length !== wantSent.length || sent.some((m, k) => !same(m, wantSent[k]))) && end !== 'cancel')
      f('rpc-responses', `sent ${sent.map(hex)} instead of ${wantSent.map(hex)}`)
    if (want !== undefined && end !== 'cancel') {
      const last = datas[datas.length - 1]
      if (!last?.complete || (last.error ?? '') !== handlerErr) f('rpc-outcome', `the last packet is ${JSON.stringify(last)}, the handler ended with ${handlerErr || 'ok'}`)
      if (datas.filter((d) => d.complete || d.error).length !== 1) f('rpc-outcome', 'the end was sent ' + datas.filter((d) => d.complete || d.error).length + ' times')
      if (outEnd !== 'end') f('rpc-outcome', 'the packets of the call do not end: ' + outEnd)
      const closed = rpc.isClosed
      if (handlerErr ? !(closed instanceof Error) || closed.message !== handlerErr : closed !== true) f('rpc-is-closed', `the handler ended with ${handlerErr || 'ok'}, isClosed is ${closed}`)
      if (kinds.some((k, n) => k !== 'callData' && !(k === 'callCancel' && n === kinds.length - 1))) f('rpc-packets', 'sent ' + kinds)
    }
  }
  if (!server) {
    if (kinds[0] !== 'callStart' || kinds.filter((k) => k === 'callStart').length !== 1) f('rpc-packets', 'the client sent ' + kinds)
    const s = out[0]?.body?.value
    if (s?.rpcService !== svc || s?.rpcMethod !== met) f('rpc-packets', 'the client started ' + JSON.stringify(s))
    // close ends everything, once
    const was = rpc.isClosed
    const err = rng.p(0.5) ? new Error('own end') : undefined
    await rpc.close(err)
    await rpc.close(new Error('another'))
    await settle()
    if (was === false ? rpc.isClosed !== (err ?? true) : rpc.isClosed !== was) f('rpc-is-closed', `closed with ${err}, isClosed is ${rpc.isClosed}, before ${was}`)
    if (outEnd !== 'end') f('rpc-close', 'the packets of a closed call do not end: ' + outEnd)
    if (gotEnd === undefined) f('rpc-close', 'who reads from a closed call waits on')
    if (was === false && want === undefined && !badStart && gotEnd !== (err ? 'error: own end' : 'end')) f('rpc-close', `closed with ${err}, the reader sees ${gotEnd}`)
    const n = got.length
    await rpc.handlePacket({ body: { case: 'callData', value: { data: new Uint8Array([1]), dataIsZero: false, complete: false, error: '' } } })
    await settle()
    if (got.length !== n) f('rpc-close', 'a closed call hands over messages')
  } else {
    await rpc.close()
  }
  c.rep.count('direct calls ' + (server ? 'server' : 'client'))
  c.rep.sig(['direct', server, how, end, joined, first, badStart, handlerErr, msgs.map((m) => m.length), resps.map((m) => m.length)])
}
