package lib

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// ErrCut is the error of a connection which was cut.
var ErrCut = errors.New("simulated connection failure")

// CutKind is how a direction fails.
type CutKind int

const (
	// CutNone: no failure.
	CutNone CutKind = iota
	// CutEOF: the reader gets io.EOF after the bytes before the cut, the writer io.ErrClosedPipe.
	CutEOF
	// CutErr: both get ErrCut (the reader after the bytes before the cut).
	CutErr
	// CutErrWithData: as CutErr, but the error is returned by the same Read as the last bytes.
	CutErrWithData
)

// ConnOpts are the options of one direction of a connection.
type ConnOpts struct {
	// MaxRead limits the bytes returned by a Read: random in [1, MaxRead] (0 = unlimited).
	MaxRead int
	// Cap is the number of bytes buffered before Write blocks (0 = unlimited).
	Cap int
	// EOFWithData returns io.EOF (on close) together with the last bytes.
	EOFWithData bool
	// Cut is the failure of the direction after CutAt bytes.
	Cut   CutKind
	CutAt int64
	// CutBoth: if the cut happens the other direction fails with it.
	CutBoth bool
	// Rand drives the chunking.
	Rand *Rand
}

// half is one direction.
type half struct {
	o       ConnOpts
	mtx     sync.Mutex
	cond    *sync.Cond
	buf     []byte
	total   int64 // bytes accepted
	rtotal  int64 // bytes read
	wclosed bool  // writer closed
	rclosed bool  // reader closed
	cut     bool
	cutErr  CutKind
	rdl     time.Time
	rdt     *time.Timer
	wdt     *time.Timer
	wdl     time.Time
	peer    *half // other direction
	log     []byte
	record  bool
}

func newHalf(o ConnOpts) *half {
	h := &half{o: o}
	if h.o.Rand == nil {
		h.o.Rand = NewRand(1)
	}
	h.cond = sync.NewCond(&h.mtx)
	if o.Cut != CutNone && o.CutAt <= 0 {
		h.cut, h.cutErr = true, o.Cut
	}
	return h
}

// forceCut fails the direction now.
func (h *half) forceCut(k CutKind) {
	h.mtx.Lock()
	if !h.cut {
		h.cut, h.cutErr = true, k
	}
	h.cond.Broadcast()
	h.mtx.Unlock()
}

// fineBytes is the number of bytes transferred in small pieces.
const fineBytes = 6000

func (h *half) capNow() int {
	if h.o.Cap != 0 && h.total > fineBytes {
		return max(h.o.Cap, 5000)
	}
	return h.o.Cap
}

func (h *half) write(p []byte) (int, error) {
	n := 0
	for {
		h.mtx.Lock()
		for {
			if h.wclosed {
				h.mtx.Unlock()
				return n, io.ErrClosedPipe
			}
			if h.rclosed {
				h.mtx.Unlock()
				return n, io.ErrClosedPipe
			}
			if h.cut {
				k := h.cutErr
				h.mtx.Unlock()
				if k == CutEOF {
					return n, io.ErrClosedPipe
				}
				return n, ErrCut
			}
			if len(p) == 0 {
				h.mtx.Unlock()
				return n, nil
			}
			if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
				h.mtx.Unlock()
				return n, os.ErrDeadlineExceeded
			}
			if cp := h.capNow(); cp == 0 || len(h.buf) < cp {
				break
			}
			h.cond.Wait()
		}
		m := len(p)
		if cp := h.capNow(); cp != 0 && m > cp-len(h.buf) {
			m = cp - len(h.buf)
		}
		cutNow := false
		if h.o.Cut != CutNone && h.total+int64(m) >= h.o.CutAt {
			m = int(h.o.CutAt - h.total)
			h.cut, h.cutErr = true, h.o.Cut
			cutNow = true
		}
		h.buf = append(h.buf, p[:m]...)
		if h.record {
			h.log = append(h.log, p[:m]...)
		}
		h.total += int64(m)
		n += m
		p = p[m:]
		h.cond.Broadcast()
		both, k, peer := h.o.CutBoth, h.o.Cut, h.peer
		h.mtx.Unlock()
		if cutNow && both && peer != nil {
			peer.forceCut(k)
		}
		if len(p) == 0 && !cutNow {
			return n, nil
		}
	}
}

func (h *half) read(p []byte) (int, error) {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	for {
		if h.rclosed {
			return 0, io.ErrClosedPipe
		}
		if len(p) == 0 {
			return 0, nil
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.buf) != 0 {
			m := len(h.buf)
			if m > len(p) {
				m = len(p)
			}
			if h.o.MaxRead > 0 {
				lim := h.o.MaxRead
				if h.rtotal > fineBytes {
					lim = max(lim, 3000)
				}
				if k := 1 + h.o.Rand.Intn(lim); m > k {
					m = k
				}
			}
			copy(p, h.buf[:m])
			h.rtotal += int64(m)
			h.buf = h.buf[m:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			if len(h.buf) == 0 {
				if h.cut && h.cutErr == CutErrWithData {
					return m, ErrCut
				}
				if h.wclosed && h.o.EOFWithData {
					return m, io.EOF
				}
			}
			return m, nil
		}
		if h.cut {
			if h.cutErr == CutEOF {
				return 0, io.EOF
			}
			return 0, ErrCut
		}
		if h.wclosed {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (h *half) closeWrite() {
	h.mtx.Lock()
	h.wclosed = true
	h.cond.Broadcast()
	h.mtx.Unlock()
}

func (h *half) closeRead() {
	h.mtx.Lock()
	h.rclosed = true
	h.buf = nil
	h.cond.Broadcast()
	h.mtx.Unlock()
}

// SimConn is one end of an in-memory connection.
type SimConn struct {
	rd, wr *half
	name   string
	closes atomic.Int32
}

// NewSimPair makes a connection: ab are the options from a to b.
func NewSimPair(ab, ba ConnOpts) (a, b *SimConn) {
	h1, h2 := newHalf(ab), newHalf(ba)
	h1.peer, h2.peer = h2, h1
	if h1.cut && ab.CutBoth {
		h2.cut, h2.cutErr = true, ab.Cut
	}
	if h2.cut && ba.CutBoth && !h1.cut {
		h1.cut, h1.cutErr = true, ba.Cut
	}
	return &SimConn{rd: h2, wr: h1, name: "a"}, &SimConn{rd: h1, wr: h2, name: "b"}
}

// Read implements net.Conn.
func (c *SimConn) Read(p []byte) (int, error) { return c.rd.read(p) }

// Write implements net.Conn.
func (c *SimConn) Write(p []byte) (int, error) { return c.wr.write(p) }

// Close implements net.Conn.
func (c *SimConn) Close() error {
	c.closes.Add(1)
	c.wr.closeWrite()
	c.rd.closeRead()
	c.stopTimers()
	return nil
}

// Closes is the number of times the end was closed.
func (c *SimConn) Closes() int { return int(c.closes.Load()) }

// CloseWrite closes the writing direction only.
func (c *SimConn) CloseWrite() { c.wr.closeWrite() }

// Written is the number of bytes written by this end.
func (c *SimConn) Written() int64 {
	c.wr.mtx.Lock()
	defer c.wr.mtx.Unlock()
	return c.wr.total
}

// Unread is the number of bytes this end can read now.
func (c *SimConn) Unread() int {
	c.rd.mtx.Lock()
	defer c.rd.mtx.Unlock()
	return len(c.rd.buf)
}

// CutHappened tells if the writing direction was cut.
func (c *SimConn) CutHappened() bool {
	c.wr.mtx.Lock()
	defer c.wr.mtx.Unlock()
	return c.wr.cut
}

// Cut fails both directions now.
func (c *SimConn) Cut(k CutKind) {
	c.wr.forceCut(k)
	c.rd.forceCut(k)
}

// Record records the bytes written by this end.
func (c *SimConn) Record() {
	c.wr.mtx.Lock()
	c.wr.record = true
	c.wr.mtx.Unlock()
}

// Recorded returns the bytes written by this end.
func (c *SimConn) Recorded() []byte {
	c.wr.mtx.Lock()
	defer c.wr.mtx.Unlock()
	return append([]byte(nil), c.wr.log...)
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

// LocalAddr implements net.Conn.
func (c *SimConn) LocalAddr() net.Addr { return simAddr(c.name) }

// RemoteAddr implements net.Conn.
func (c *SimConn) RemoteAddr() net.Addr { return simAddr("peer-of-" + c.name) }

func (c *SimConn) stopTimers() {
	for _, h := range []*half{c.rd, c.wr} {
		h.mtx.Lock()
		if h.rdt != nil && h == c.rd {
			h.rdt.Stop()
		}
		if h.wdt != nil && h == c.wr {
			h.wdt.Stop()
		}
		h.mtx.Unlock()
	}
}

// SetDeadline implements net.Conn.
func (c *SimConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *SimConn) SetReadDeadline(t time.Time) error {
	h := c.rd
	h.mtx.Lock()
	defer h.mtx.Unlock()
	h.rdl = t
	h.rdt = resetDL(h, h.rdt, t)
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *SimConn) SetWriteDeadline(t time.Time) error {
	h := c.wr
	h.mtx.Lock()
	defer h.mtx.Unlock()
	h.wdl = t
	h.wdt = resetDL(h, h.wdt, t)
	return nil
}

func resetDL(h *half, tm *time.Timer, t time.Time) *time.Timer {
	if tm != nil {
		tm.Stop()
	}
	h.cond.Broadcast()
	if t.IsZero() {
		return nil
	}
	return time.AfterFunc(time.Until(t), func() {
		h.mtx.Lock()
		h.cond.Broadcast()
		h.mtx.Unlock()
	})
}

var _ net.Conn = (*SimConn)(nil)
