// Stand-in for uint8arraylist 2.4 (a list of byte arrays without copies).
const symbol = Symbol.for('@achingbrain/uint8arraylist')
type Bytes = Uint8Array | Uint8ArrayList
export class Uint8ArrayList implements Iterable<Uint8Array> {
  private bufs: Uint8Array[] = []
  public length = 0
  public readonly [symbol] = true
  constructor(...data: Bytes[]) {
    this.appendAll(data)
  }
  *[Symbol.iterator](): Iterator<Uint8Array> {
    yield* this.bufs
  }
  get byteLength() {
    return this.length
  }
  append(...bufs: Bytes[]) {
    this.appendAll(bufs)
  }
  appendAll(bufs: Bytes[]) {
    for (const b of bufs) {
      if (b instanceof Uint8Array) {
        this.length += b.byteLength
        this.bufs.push(b)
      } else if (isUint8ArrayList(b)) {
        this.length += b.byteLength
        this.bufs.push(...b.bufs)
      } else {
        throw new Error('Could not append value, must be an Uint8Array or a Uint8ArrayList')
      }
    }
  }
  consume(bytes: number) {
    bytes = Math.trunc(bytes)
    if (Number.isNaN(bytes) || bytes <= 0) return
    if (bytes === this.byteLength) {
      this.bufs = []
      this.length = 0
      return
    }
    while (this.bufs.length > 0) {
      if (bytes >= this.bufs[0].byteLength) {
        bytes -= this.bufs[0].byteLength
        this.length -= this.bufs[0].byteLength
        this.bufs.shift()
      } else {
        this.bufs[0] = this.bufs[0].subarray(bytes)
        this.length -= bytes
        break
      }
    }
  }
  private range(begin?: number, end?: number): { bufs: Uint8Array[]; length: number } {
    begin = begin ?? 0
    end = end ?? this.length
    if (begin < 0) begin = this.length + begin
    if (end < 0) end = this.length + end
    if (begin < 0 || end > this.length) throw new RangeError('index is out of bounds')
    const bufs: Uint8Array[] = []
    let off = 0
    let length = 0
    for (const b of this.bufs) {
      const s = Math.max(begin, off)
      const e = Math.min(end, off + b.byteLength)
      if (s < e) {
        bufs.push(b.subarray(s - off, e - off))
        length += e - s
      }
      off += b.byteLength
    }
    return { bufs, length }
  }
  slice(begin?: number, end?: number): Uint8Array {
    const { bufs, length } = this.range(begin, end)
    return concat(bufs, length)
  }
  subarray(begin?: number, end?: number): Uint8Array {
    const { bufs, length } = this.range(begin, end)
    if (bufs.length === 1) return bufs[0]
    return concat(bufs, length)
  }
  sublist(begin?: number, end?: number): Uint8ArrayList {
    const { bufs, length } = this.range(begin, end)
    const l = new Uint8ArrayList()
    l.length = length
    l.bufs = [...bufs]
    return l
  }
  get(index: number): number {
    for (const b of this.bufs) {
      if (index < b.byteLength) return b[index]
      index -= b.byteLength
    }
    throw new RangeError('index is out of bounds')
  }
  set(index: number, value: number) {
    for (const b of this.bufs) {
      if (index < b.byteLength) {
        b[index] = value
        return
      }
      index -= b.byteLength
    }
    throw new RangeError('index is out of bounds')
  }
  write(buf: Uint8Array, offset = 0) {
    for (let i = 0; i < buf.length; i++) this.set(offset + i, buf[i])
  }
  getUint32(o: number, le?: boolean): number {
    const b = this.subarray(o, o + 4)
    return new DataView(b.buffer, b.byteOffset, b.byteLength).getUint32(0, le)
  }
  setUint32(o: number, v: number, le?: boolean) {
    const b = new Uint8Array(4)
    new DataView(b.buffer).setUint32(0, v, le)
    this.write(b, o)
  }
  getUint8(o: number): number {
    return this.get(o)
  }
}
function concat(bufs: Uint8Array[], length: number) {
  const out = new Uint8Array(length)
  let o = 0
  for (const b of bufs) {
    out.set(b, o)
    o += b.byteLength
  }
  return out
}
export function isUint8ArrayList(v: any): v is Uint8ArrayList {
  return Boolean(v?.[symbol])
}
