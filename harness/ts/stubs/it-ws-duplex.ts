// Stand-in for @aptre/it-ws/duplex over a WebSocket as of browsers.
import { pushable } from 'it-pushable'

export default function duplex(socket: any) {
  socket.binaryType = 'arraybuffer'
  const out = pushable<any>({ objectMode: true })
  const opened = new Promise<void>((resolve, reject) => {
    if (socket.readyState === 1) return resolve()
    if (socket.readyState > 1) return reject(new Error('socket closed'))
    socket.addEventListener('open', () => resolve())
    socket.addEventListener('close', () => reject(new Error('socket closed')))
    socket.addEventListener('error', () => reject(new Error('connection failed')))
  })
  opened.catch(() => {})
  let closed = false
  socket.addEventListener('message', (ev: any) => out.push(new Uint8Array(ev.data)))
  socket.addEventListener('close', () => {
    closed = true
    out.end()
  })
  socket.addEventListener('error', (ev: any) => out.end(ev.error ?? new Error('socket error')))
  return {
    remoteAddress: '',
    remotePort: 0,
    socket,
    source: out,
    async connected() {
      await opened
    },
    async close() {
      socket.close()
    },
    destroy() {
      socket.close()
    },
    sink: async (src: any) => {
      await opened
      try {
        for await (const c of src) {
          // only byte arrays can be sent
          if (Object.prototype.toString.call(c) !== '[object Uint8Array]') throw new Error('it-ws: not a byte array')
          if (closed) break
          socket.send(c)
        }
      } finally {
        if (socket.readyState < 2) socket.close()
      }
    },
  }
}
