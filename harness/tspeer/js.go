//go:build js

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall/js"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// idle is the number of goroutines while nothing is done but a reset (one handles events).
const idle = 3

// newPushable makes a JavaScript pushable which checks how it is used.
var newPushable = js.Global().Call("eval", `(bad) => {
  const q = []
  let ended = 0
  let wake = null
  const notify = () => {
    if (!wake) return
    const w = wake
    wake = null
    setImmediate(w)
  }
  const p = {
    pushed: 0,
    push(...a) {
      p.pushed++
      if (ended) bad('a push after the end')
      if (a.length !== 1 || Object.prototype.toString.call(a[0]) !== '[object Uint8Array]') return bad('pushed ' + a.length + ' values: ' + a)
      q.push([a[0], new Uint8Array(a[0])])
      notify()
      return p
    },
    end(...a) {
      if (a.length && a[0] !== undefined) bad('ended with ' + a[0])
      if (ended++) bad('ended ' + ended + ' times')
      notify()
      return p
    },
    last() {
      return q.length ? q[q.length - 1][0] : undefined
    },
    take() {
      const x = q.shift()
      if (x) {
        if (x[0].length !== x[1].length || x[0].some((b, i) => b !== x[1][i])) bad('an array was changed after it was pushed')
        return x[1]
      }
      return ended ? false : undefined
    },
    wait(f) {
      wake = f
      if (q.length || ended) notify()
    },
  }
  return p
}`)

var (
	badMtx sync.Mutex
	bad    []string
)

func addBad(s string) {
	badMtx.Lock()
	defer badMtx.Unlock()
	if len(bad) < 10 {
		bad = append(bad, s)
	}
}

func takeBad() []string {
	badMtx.Lock()
	defer badMtx.Unlock()
	b := bad
	bad = nil
	return b
}

var badFunc = js.FuncOf(func(_ js.Value, args []js.Value) any {
	addBad(args[0].String())
	return nil
})

// monWriter watches a writer on a pushable.
type monWriter struct {
	w        *srpc.PushablePacketWriter
	pushable js.Value
	closed   atomic.Bool
}

func (m *monWriter) WritePacket(p *srpc.Packet) error {
	closed := m.closed.Load()
	want, merr := p.MarshalVT()
	// there is but one thread
	n := m.pushable.Get("pushed").Int()
	err := m.w.WritePacket(p)
	d := m.pushable.Get("pushed").Int() - n
	switch {
	case closed && err == nil:
		addBad("a write after Close succeeds")
	case closed && d != 0:
		addBad("a write after Close pushes")
	case !closed && merr == nil && err != nil:
		addBad("a write fails: " + err.Error())
	case err == nil && d != 1:
		addBad(fmt.Sprintf("a write pushes %d times", d))
	case err == nil:
		a := m.pushable.Call("last")
		got := make([]byte, a.Get("length").Int())
		js.CopyBytesToGo(got, a)
		if !bytes.Equal(got, want) {
			addBad(fmt.Sprintf("pushed %x instead of %x", got, want))
		}
	}
	return err
}

func (m *monWriter) Close() error {
	err := m.w.Close()
	m.closed.Store(true)
	return err
}

// writerOf returns a writer on a pushable whose arrays are sent by the connection.
func writerOf(c *vconn, _ *srpc.PacketReadWriter) srpc.PacketWriter {
	p := newPushable.Invoke(badFunc)
	rng := rand.New(rand.NewSource(int64(c.id) + 7))
	go func() {
		woken := make(chan struct{}, 1)
		f := js.FuncOf(func(js.Value, []js.Value) any {
			woken <- struct{}{}
			return nil
		})
		defer f.Release()
		for {
			v := p.Call("take")
			if v.IsUndefined() {
				p.Call("wait", f)
				<-woken
				continue
			}
			if rng.Intn(4) == 0 {
				for i := rng.Intn(6); i > 0; i-- {
					runtime.Gosched()
				}
				if rng.Intn(8) == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			if v.Type() == js.TypeBoolean {
				c.endWrite()
				return
			}
			data := make([]byte, 4+v.Get("length").Int())
			binary.LittleEndian.PutUint32(data, uint32(len(data)-4))
			js.CopyBytesToGo(data[4:], v)
			_, _ = c.Write(data)
		}
	}()
	return &monWriter{w: srpc.NewPushablePacketWriter(p), pushable: p}
}

func (p *peer) handleConn(c *vconn) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	prw := srpc.NewPacketReadWriter(c)
	rpc := srpc.NewServerRPC(ctx, p, writerOf(c, prw))
	prw.ReadPump(rpc.HandlePacketData, rpc.HandleStreamClose)
}

func (p *peer) muxed(*vconn, bool) { panic("not for JavaScript") }

func (p *peer) http(*script) { panic("not for JavaScript") }
