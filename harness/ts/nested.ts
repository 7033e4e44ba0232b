// Calls through nested streams, as the generated code makes them.
import { MethodKind } from '@aptre/protobuf-es-lite'
import { Client, createHandler, buildEncodeMessageTransform, buildDecodeMessageTransform } from '@repo/index.ts'
import { openRpcStream, handleRpcStream, buildRpcStreamOpenStream } from '@repo/rpcstream/rpcstream.ts'
import { RpcStreamPacket } from '@repo/rpcstream/rpcstream.pb.ts'

// nestedClient makes its calls through a nested stream of the other client.
export function nestedClient(outer: any, component: string, ack: boolean): any {
  const caller = (request: any) => {
    const src = buildEncodeMessageTransform(RpcStreamPacket as any)(request)
    const res = outer.bidirectionalStreamingRequest('nested', 'RpcStream', src)
    return buildDecodeMessageTransform(RpcStreamPacket as any)(res) as any
  }
  return new Client(ack ? () => openRpcStream(component, caller, true) : buildRpcStreamOpenStream(component, caller))
}

// nestedService is the service which nested streams go to.
export function nestedService(getter: (id: string) => Promise<any>, running: (n: number) => void): any {
  return createHandler(
    {
      typeName: 'nested',
      methods: { RpcStream: { name: 'RpcStream', I: RpcStreamPacket, O: RpcStreamPacket, kind: MethodKind.BiDiStreaming } },
    } as any,
    {
      RpcStream(request: any) {
        const it = handleRpcStream(request[Symbol.asyncIterator](), getter)
        return (async function* () {
          running(1)
          try {
            yield* it as any
          } finally {
            running(-1)
          }
        })()
      },
    },
  )
}
