// usage: node build.mjs REPO ENTRY OUT   bundles ENTRY with the sources of REPO
import { createRequire } from 'node:module'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')
const [repo, entry, out, extra] = process.argv.slice(2)
const here = path.dirname(fileURLToPath(import.meta.url))
const stub = (n) => path.join(here, 'stubs', n + '.ts')
const alias = {
  'it-pipe': stub('it-pipe'),
  'it-pushable': stub('it-pushable'),
  'it-first': stub('it-first'),
  'event-iterator': stub('event-iterator'),
  uint8arraylist: stub('uint8arraylist'),
  '@aptre/protobuf-es-lite': stub('protobuf-es-lite'),
  '@aptre/protobuf-es-lite/protoplugin': stub('protoplugin'),
  '@aptre/protobuf-es-lite/protoplugin/ecmascript': stub('protoplugin'),
  '@chainsafe/libp2p-yamux': stub('yamux'),
  '@libp2p/logger': stub('dummy'),
  '@libp2p/interface': stub('dummy'),
  '@aptre/it-ws/duplex': stub('it-ws-duplex'),
  'isomorphic-ws': stub('dummy'),
  'it-stream-types': stub('dummy'),
  starpc: path.join(repo, 'index.ts'),
  // the stubs made by the generator
  '@gen/index.ts': extra ? path.join(extra, 'index.ts') : stub('gen-none'),
}
const plugin = {
  name: 'repo',
  setup(b) {
    b.onResolve({ filter: /^@repo\// }, (a) => ({ path: path.join(repo, a.path.slice(6)) }))
    b.onResolve({ filter: /^[a-z@][^:]*$/ }, (a) => (Object.hasOwn(alias, a.path) ? { path: alias[a.path] } : undefined))
  },
}
const r = await esbuild.build({
  entryPoints: [entry],
  bundle: true,
  platform: 'node',
  format: 'esm',
  target: 'es2022',
  outfile: out,
  sourcemap: 'inline',
  logLevel: 'error',
  plugins: [plugin],
  tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: false, useDefineForClassFields: true } },
})
