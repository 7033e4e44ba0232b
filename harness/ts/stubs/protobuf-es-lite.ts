// Stand-in for @aptre/protobuf-es-lite: plain objects, binary encoding.
export enum ScalarType {
  DOUBLE = 1, FLOAT = 2, INT64 = 3, UINT64 = 4, INT32 = 5, FIXED64 = 6, FIXED32 = 7, BOOL = 8, STRING = 9,
  BYTES = 12, UINT32 = 13, SFIXED32 = 15, SFIXED64 = 16, SINT32 = 17, SINT64 = 18,
}
export enum MethodKind { Unary, ServerStreaming, ClientStreaming, BiDiStreaming }
export enum MethodIdempotency { NoSideEffects = 1, Idempotent = 2 }
export type PartialFieldInfo = any
export type Message<T> = Partial<T>
export type CompleteMessage<T> = any
export type MessageType<T> = any
export type DescService = any
export function localName(d: any): string {
  return d.localName ?? d.name
}
// mode.fill: fields which are not on the wire get their zero value.
export const mode = { fill: false }

const enc = new TextEncoder()
const dec = new TextDecoder('utf-8', { fatal: true })
const camel = (s: string) => s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase())

class Writer {
  out: number[] = []
  varint(v: bigint | number) {
    let n = BigInt.asUintN(64, BigInt(v))
    while (n > 127n) {
      this.out.push(Number(n & 127n) | 128)
      n >>= 7n
    }
    this.out.push(Number(n))
  }
  bytes(b: Uint8Array) {
    this.varint(b.length)
    for (let i = 0; i < b.length; i++) this.out.push(b[i])
  }
}
class Reader {
  pos = 0
  constructor(public buf: Uint8Array) {}
  varint(): bigint {
    let n = 0n
    for (let i = 0n; i < 70n; i += 7n) {
      if (this.pos >= this.buf.length) throw new RangeError('premature EOF')
      const b = this.buf[this.pos++]
      n |= BigInt(b & 127) << i
      if (b < 128) return BigInt.asUintN(64, n)
    }
    throw new Error('invalid varint')
  }
  bytes(): Uint8Array {
    const len = Number(this.varint())
    if (this.pos + len > this.buf.length) throw new RangeError('premature EOF')
    const b = this.buf.subarray(this.pos, this.pos + len)
    this.pos += len
    return b
  }
  skip(wt: number) {
    if (wt === 0) this.varint()
    else if (wt === 1) this.adv(8)
    else if (wt === 2) this.bytes()
    else if (wt === 5) this.adv(4)
    else throw new Error('cant skip wire type ' + wt)
  }
  adv(n: number) {
    this.pos += n
    if (this.pos > this.buf.length) throw new RangeError('premature EOF')
  }
}
function scalarZero(T: ScalarType): any {
  if (T === ScalarType.STRING) return ''
  if (T === ScalarType.BYTES) return new Uint8Array(0)
  if (T === ScalarType.BOOL) return false
  if (T === ScalarType.UINT64 || T === ScalarType.INT64) return 0n
  return 0
}
function isZero(v: any) {
  return v === undefined || v === null || v === '' || v === false || v === 0 || v === 0n || (v instanceof Uint8Array && v.length === 0)
}
function wireType(f: any) {
  if (f.kind === 'message') return 2
  return f.T === ScalarType.STRING || f.T === ScalarType.BYTES ? 2 : 0
}
function writeValue(w: Writer, f: any, v: any) {
  w.varint((f.no << 3) | wireType(f))
  if (f.kind === 'message') {
    w.bytes(f.T().toBinary(v))
  } else if (f.T === ScalarType.STRING) {
    if (typeof v !== 'string') throw new Error('not a string')
    w.bytes(enc.encode(v))
  } else if (f.T === ScalarType.BYTES) {
    if (!(v instanceof Uint8Array)) throw new Error('not bytes')
    w.bytes(v)
  } else if (f.T === ScalarType.BOOL) {
    w.varint(v ? 1 : 0)
  } else {
    w.varint(v)
  }
}
function readValue(r: Reader, f: any): any {
  if (f.kind === 'message') return f.T().fromBinary(r.bytes())
  if (f.T === ScalarType.STRING) return dec.decode(r.bytes())
  if (f.T === ScalarType.BYTES) return r.bytes()
  const n = r.varint()
  if (f.T === ScalarType.BOOL) return n !== 0n
  if (f.T === ScalarType.UINT64) return n
  if (f.T === ScalarType.INT64) return BigInt.asIntN(64, n)
  if (f.T === ScalarType.INT32) return Number(BigInt.asIntN(32, n))
  return Number(BigInt.asUintN(32, n))
}
export function createMessageType(p: any): any {
  const fields = p.fields.map((f: any) => ({ ...f, localName: f.localName ?? camel(f.name) }))
  const t = {
    typeName: p.typeName,
    fields,
    create(v?: any) {
      return t.clone(v ?? {})
    },
    clone(m: any) {
      const o: any = {}
      for (const f of fields) {
        if (f.oneof) {
          const v = m?.[f.oneof]
          if (v?.case === f.localName) o[f.oneof] = { case: v.case, value: f.kind === 'message' ? f.T().clone(v.value) : v.value }
        } else if (m?.[f.localName] !== undefined) {
          const v = m[f.localName]
          o[f.localName] = f.repeated ? [...v] : f.kind === 'message' ? f.T().clone(v) : v
        }
      }
      return o
    },
    toBinary(m: any): Uint8Array {
      const w = new Writer()
      for (const f of fields) {
        if (f.oneof) {
          const v = m?.[f.oneof]
          if (v?.case === f.localName) writeValue(w, f, v.value)
          continue
        }
        const v = m?.[f.localName]
        if (f.repeated) {
          for (const x of v ?? []) writeValue(w, f, x)
          continue
        }
        if (f.kind === 'message') {
          if (v !== undefined) writeValue(w, f, v)
        } else if (!isZero(v)) {
          writeValue(w, f, v)
        }
      }
      return Uint8Array.from(w.out)
    },
    fromBinary(b: Uint8Array): any {
      const r = new Reader(b)
      const o: any = {}
      if (mode.fill) {
        for (const f of fields) {
          if (f.oneof) o[f.oneof] = { case: undefined }
          else if (f.repeated) o[f.localName] = []
          else if (f.kind === 'scalar') o[f.localName] = scalarZero(f.T)
        }
      }
      while (r.pos < b.length) {
        const tag = Number(r.varint())
        const wt = tag & 7
        const no = tag >>> 3
        const f = fields.find((x: any) => x.no === no)
        if (!f || wireType(f) !== wt) {
          r.skip(wt)
          continue
        }
        const v = readValue(r, f)
        if (f.oneof) o[f.oneof] = { case: f.localName, value: v }
        else if (f.repeated) (o[f.localName] ??= []).push(v)
        else o[f.localName] = v
      }
      return o
    },
    equals(a: any, b: any) {
      return Buffer.compare(Buffer.from(t.toBinary(a)), Buffer.from(t.toBinary(b))) === 0
    },
  }
  return t
}
export type Empty = object
export const Empty = createMessageType({ typeName: 'google.protobuf.Empty', fields: [] })
