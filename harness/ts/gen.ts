// Generates service definitions and runs the generator of the repository on
// them: node gen.mjs -out DIR -seed N -files N
import fs from 'node:fs'
import path from 'node:path'
import { protocGenEsStarpc } from '@repo/cmd/protoc-gen-es-starpc/plugin.ts'
import { Schema } from '@aptre/protobuf-es-lite/protoplugin'
import { MethodKind } from '@aptre/protobuf-es-lite'
import { Rng } from './lib.js'

const args: Record<string, string> = {}
for (let i = 2; i < process.argv.length; i += 2) args[process.argv[i].replace(/^-+/, '')] = process.argv[i + 1]
const rng = new Rng('gen', args.seed)
const out = args.out
fs.mkdirSync(out, { recursive: true })

const SVC = ['Echo', 'Echoer', 'EchoerV2', 'echo', 'Foo', 'FooBar', 'Foo_Bar', 'foo_bar', 'Svc1', 'Svc', 'X', 'x', 'Access', 'Stream', 'StreamService', 'LongNameOfAServiceWithManyWords', 'Z9_']
const METHOD = ['Echo', 'echo', 'EchoStream', 'Echo_Stream', 'Get', 'get', 'Set', 'Delete', 'delete', 'class', 'Watch', 'watch_all', 'name', 'length', 'request', 'A', 'a', 'a1', 'DoNothing', 'List', 'ListAll', 'typeof', 'arguments', 'default', '_x', 'X_', 'create', 'toBinary', 'methods', 'kind', 'close']
const PKG = ['', 'a', 'a.b', 'ab', 'a.b.v1', 'echo', 'long.package.name.v1beta1']
const COMMENT = ['', 'A comment.', 'Two lines\nof text', 'ends */ early', 'with "quotes" and `ticks` ${x}']
const KINDS = [MethodKind.Unary, MethodKind.ServerStreaming, MethodKind.ClientStreaming, MethodKind.BiDiStreaming]

const files: any[] = []
const seen = new Set<string>()
const shared: any[] = []
for (let k = 0; k < Number(args.files); k++) {
  const file: any = { kind: 'file', name: 'f' + k, messages: [], services: [] }
  const module = `./f${k}.pb.js`
  for (let m = rng.range(1, 4); m > 0; m--) {
    const name = rng.pick(['Msg', 'Req', 'Resp', 'msg_', 'EchoMsg']) + m
    const msg = { kind: 'message', name, module, typeName: `p${k}.${name}`, tag: `t${k}_${m}`, no: 3 * file.messages.length + 1 + 30 * rng.int(4) }
    file.messages.push(msg)
    if (rng.p(0.1)) shared.push(msg)
  }
  const empty = { kind: 'message', name: 'Empty', module: '@aptre/protobuf-es-lite', typeName: 'google.protobuf.Empty', empty: true }
  const pick = () => (rng.p(0.1) ? empty : shared.length && rng.p(0.2) ? rng.pick(shared) : rng.pick(file.messages))
  const pkg = rng.pick(PKG)
  const names = new Set<string>()
  for (let s = rng.range(1, 3); s > 0; s--) {
    const name = rng.pick(SVC)
    const typeName = pkg ? pkg + '.' + name : name
    // names which clash are not supported
    if (names.has(name)) continue
    names.add(name)
    // services of the same full name do not live in one program
    const svc: any = { kind: 'service', name, typeName, twin: seen.has(typeName), comment: rng.pick(COMMENT), methods: [] }
    seen.add(typeName)
    const ms = rng.shuffle(METHOD.slice()).slice(0, rng.p(0.08) ? 0 : rng.range(1, 6))
    for (const m of ms) {
      svc.methods.push({
        kind: 'rpc', name: m, localName: m[0].toLowerCase() + m.slice(1), parent: svc, comment: rng.pick(COMMENT),
        input: pick(), output: pick(), methodKind: rng.pick(KINDS), idempotency: rng.p(0.2) ? rng.pick([1, 2]) : undefined,
      })
    }
    file.services.push(svc)
  }
  files.push(file)
}
// the messages
for (const f of files) {
  let s = "import type { MessageType, PartialFieldInfo } from '@aptre/protobuf-es-lite'\nimport { createMessageType, ScalarType } from '@aptre/protobuf-es-lite'\n"
  for (const m of f.messages) {
    s += `export interface ${m.name} { data?: Uint8Array; n?: number; text?: string; tag?: '${m.tag}' }\n`
    s += `export const ${m.name}: MessageType<${m.name}> = createMessageType({ typeName: '${m.typeName}', fields: [
  { no: ${m.no}, name: 'data', kind: 'scalar', T: ScalarType.BYTES }, { no: ${m.no + 1}, name: 'n', kind: 'scalar', T: ScalarType.UINT32 },
  { no: ${m.no + 2}, name: 'text', kind: 'scalar', T: ScalarType.STRING }] as readonly PartialFieldInfo[], packedByDefault: true })\n`
  }
  fs.writeFileSync(path.join(out, f.name + '.pb.ts'), s)
}
// the stubs: in runs of one to some files, as protoc does
const violations: any[] = []
for (let k = 0; k < files.length; ) {
  const some = files.slice(k, k + rng.range(1, 5))
  const schema = new Schema(some)
  try {
    ;(protocGenEsStarpc as any).generateTs(schema)
  } catch (err: any) {
    violations.push({ key: 'gen-fails', index: k, msg: `the generator fails for the files ${some.map((f) => f.name)}: ${err?.stack ?? err}` })
  }
  const names = schema.out.map((f) => f.name)
  const want = some.map((f) => f.name + '_srpc.pb.ts')
  if (names.join() !== want.join()) violations.push({ key: 'gen-files', index: k, msg: `files ${names} were generated instead of ${want}` })
  for (const g of schema.out) fs.writeFileSync(path.join(out, path.basename(g.name)), g.content())
  k += some.length
}
// an index with the descriptions, and the types as they should be
let index = ''
let types = `import type { MessageStream } from 'starpc'\ntype Fits<A extends B, B> = A\n`
const list: string[] = []
const kinds = ['Unary', 'ServerStreaming', 'ClientStreaming', 'BiDiStreaming']
let serial = 0
for (const f of files) {
  index += `import * as ${f.name} from './${f.name}.pb.ts'\nimport * as ${f.name}_s from './${f.name}_srpc.pb.ts'\n`
  types += `import * as ${f.name} from './${f.name}.pb.js'\nimport type * as ${f.name}_s from './${f.name}_srpc.pb.js'\n`
  const ref = (m: any) => (m.empty ? 'Empty' : m.module.slice(2).replace('.pb.js', '') + '.' + m.name)
  for (const s of f.services) {
    const ms = s.methods.map((m: any) => `{ name: ${JSON.stringify(m.name)}, kind: '${kinds[m.methodKind]}', idempotency: ${m.idempotency}, I: ${ref(m.input)}, O: ${ref(m.output)}, empty: [${!!m.input.empty}, ${!!m.output.empty}] }`)
    list.push(`{ file: '${f.name}', mod: ${f.name}_s, name: '${s.name}', typeName: '${s.typeName}', methods: [${ms.join(', ')}] }`)
    for (const m of s.methods) {
      const I = ref(m.input)
      const O = ref(m.output)
      const req = m.methodKind >= MethodKind.ClientStreaming ? `MessageStream<${I}>` : I
      const res = m.methodKind === MethodKind.Unary || m.methodKind === MethodKind.ClientStreaming ? `Promise<${O}>` : `MessageStream<${O}>`
      const fn = `(request: ${req}, abortSignal?: AbortSignal) => ${res}`
      const id = serial++
      types += `type F${id} = ${fn}\n`
      for (const t of [`${f.name}_s.${s.name}`, `${f.name}_s.${s.name}Client`]) types += `export type T${serial++} = [Fits<F${id}, ${t}['${m.name}']>, Fits<${t}['${m.name}'], F${id}>]\n`
    }
  }
}
index = `import { Empty } from '@aptre/protobuf-es-lite'\n${index}void Empty\nexport const services: any[] = [\n  ${list.join(',\n  ')}\n]\n`
types = `import type { Empty } from '@aptre/protobuf-es-lite'\n${types}export type E = Empty\n`
fs.writeFileSync(path.join(out, 'index.ts'), index)
fs.writeFileSync(path.join(out, 'types.ts'), types)
fs.writeFileSync(path.join(out, 'violations.json'), JSON.stringify(violations))
