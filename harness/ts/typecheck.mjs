// usage: node typecheck.mjs REPO DIR   checks the types of the generated files, prints the errors as JSON
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const require = createRequire('/opt/veriftools/node/node_modules/')
const ts = require('typescript')
const [repo, dir] = process.argv.slice(2)
const here = path.dirname(fileURLToPath(import.meta.url))
const entry = path.join(dir, 'starpc.ts')
fs.writeFileSync(entry, `export * from '${repo}/srpc/proto-rpc.js'\nexport * from '${repo}/srpc/message.js'\n`)
const roots = fs.readdirSync(dir).filter((f) => f.endsWith('.ts') && f !== 'index.ts').map((f) => path.join(dir, f))
const prog = ts.createProgram(roots, {
  target: ts.ScriptTarget.ES2022,
  module: ts.ModuleKind.ESNext,
  moduleResolution: ts.ModuleResolutionKind.Bundler,
  strict: true,
  noImplicitOverride: true,
  noEmit: true,
  skipLibCheck: true,
  types: [],
  lib: ['lib.es2022.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'],
  baseUrl: dir,
  paths: {
    starpc: [entry],
    '@aptre/protobuf-es-lite': [path.join(here, 'types/es-lite.d.ts')],
    'it-stream-types': [path.join(here, 'types/it-stream-types.d.ts')],
  },
})
const out = []
for (const f of prog.getSourceFiles()) {
  if (!f.fileName.startsWith(dir + path.sep)) continue
  for (const d of [...prog.getSyntacticDiagnostics(f), ...prog.getSemanticDiagnostics(f)]) {
    const at = f.getLineAndCharacterOfPosition(d.start ?? 0)
    out.push(`${path.basename(f.fileName)}:${at.line + 1}: ${ts.flattenDiagnosticMessageText(d.messageText, '\n')}\n  ${f.text.split('\n')[at.line]}`)
  }
}
process.stdout.write(JSON.stringify({ files: roots.length, errors: out }))
