// Stand-in for the plugin framework of @aptre/protobuf-es-lite: takes the
// descriptors from the harness and prints the files.
export interface ImportSymbol { kind: 'es_symbol'; name: string; from: string; typeOnly?: boolean; toTypeOnly(): ImportSymbol }
export type DescService = any
export type Printable = any
export function createImportSymbol(name: string, from: string, typeOnly = false): ImportSymbol {
  return { kind: 'es_symbol', name, from, typeOnly, toTypeOnly: () => createImportSymbol(name, from, true) }
}
const LIB = '@aptre/protobuf-es-lite'
export class GeneratedFile {
  private head = ''
  private parts: any[] = []
  private exported = new Set<string>()
  constructor(public name: string) {}
  preamble(file: any) {
    this.head = `// @generated from file ${file.name}.proto\n/* eslint-disable */\n`
  }
  print(...l: any[]) {
    this.add(l)
    this.parts.push('\n')
  }
  private add(x: any) {
    if (Array.isArray(x)) x.forEach((y) => this.add(y))
    else if (x !== undefined && x !== null) this.parts.push(x)
  }
  string(s: string) {
    return '"' + s.replace(/[\\"]/g, '\\$&').replace(/\n/g, '\\n') + '"'
  }
  jsDoc(d: any, indentation = '') {
    const text = [...(d.comment ? d.comment.split('\n') : []), '', `@generated from ${d.kind} ${d.typeName ?? d.name}`]
    return [indentation + '/**', ...text.map((t: string) => indentation + ' * ' + t.replaceAll('*/', '*\\/')), indentation + ' */'].join('\n')
  }
  exportDecl(decl: string, name: any) {
    const n = typeof name === 'string' ? name : localName(name)
    this.exported.add(n)
    return `export ${decl} ${n}`
  }
  import(a: any, from?: string) {
    return typeof a === 'string' ? createImportSymbol(a, from!) : this.symbol(a)
  }
  private symbol(m: any) {
    return createImportSymbol(m.localName ?? m.name, m.module)
  }
  content(): string {
    const imports = new Map<string, Map<string, string>>()
    const used = new Set(this.exported)
    let body = ''
    for (let p of this.parts) {
      if (p.kind === 'message') p = this.symbol(p)
      if (p.kind === 'es_symbol') {
        let m = imports.get(p.from)
        if (!m) imports.set(p.from, (m = new Map()))
        let as = m.get(p.name)
        if (!as) {
          as = p.name as string
          while (used.has(as)) as += '$1'
          used.add(as)
          m.set(p.name, as)
        }
        body += as
      } else body += String(p)
    }
    let out = this.head
    for (const [from, m] of imports) out += `import { ${[...m].map(([n, as]) => (n === as ? n : `${n} as ${as}`)).join(', ')} } from ${JSON.stringify(from)}\n`
    return out + '\n' + body
  }
}
export class Schema {
  out: GeneratedFile[] = []
  runtime = {
    MethodKind: createImportSymbol('MethodKind', LIB),
    MethodIdempotency: createImportSymbol('MethodIdempotency', LIB),
  }
  target = 'ts'
  targets = ['ts']
  constructor(public files: any[]) {}
  get allFiles() {
    return this.files
  }
  generateFile(name: string) {
    const f = new GeneratedFile(name)
    this.out.push(f)
    return f
  }
}
export function localName(d: any): string {
  return d.localName ?? d.name
}
export const createEcmaScriptPlugin = (x: any) => x
export const runNodeJs = () => {}
