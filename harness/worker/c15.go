package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C15"] = c15 }

func c15(x *Ctx) {
	x.Each("read", 12000, x.c15read)
	x.Each("write", 4000, x.c15write)
	x.Each("deadline", 320, x.c15deadline)
	x.Each("close", 1600, x.c15close)
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	x.Each("calls", 1000, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, []string{"yamux-rwc", "yamux-mrwc"}, lib.GenOpts{Mix: mix, MaxMsgs: 6, Big: 2}, r.Weighted(0, 3, 2, 1, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
}

// chunkRwc is a scripted read-write-closer.
type chunkRwc struct {
	closeErr error // result of Close, which closes all the same
	mtx      sync.Mutex
	cond     *sync.Cond
	chunks   [][]byte
	// with: the end is returned with the last bytes
	with   bool
	end    error // nil: blocks
	zero   int   // return 0, nil that often before a chunk
	closed int
	reads  int
	// writing
	short []int // results of the writes in turn (0: all)
	wn    int
	werr  error // after errAt bytes
	errAt int
	wrote []byte
}

func newChunkRwc() *chunkRwc {
	c := &chunkRwc{errAt: -1}
	c.cond = sync.NewCond(&c.mtx)
	return c
}

func (c *chunkRwc) Read(p []byte) (int, error) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	c.reads++
	for {
		if c.closed != 0 {
			return 0, io.ErrClosedPipe
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.chunks) != 0 {
			if c.zero > 0 {
				c.zero--
				return 0, nil
			}
			n := copy(p, c.chunks[0])
			if n == len(c.chunks[0]) {
				c.chunks = c.chunks[1:]
			} else {
				c.chunks[0] = c.chunks[0][n:]
			}
			if len(c.chunks) == 0 && c.with && c.end != nil {
				return n, c.end
			}
			return n, nil
		}
		if c.end != nil {
			return 0, c.end
		}
		c.cond.Wait()
	}
}

func (c *chunkRwc) push(b []byte) {
	c.mtx.Lock()
	c.chunks = append(c.chunks, b)
	c.cond.Broadcast()
	c.mtx.Unlock()
}

func (c *chunkRwc) Write(p []byte) (int, error) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	n := len(p)
	if len(c.short) != 0 {
		if k := c.short[c.wn%len(c.short)]; k != 0 && k < n {
			n = k
		}
		c.wn++
	}
	if c.errAt >= 0 && len(c.wrote) > c.errAt {
		return 0, c.werr
	}
	if c.errAt >= 0 && len(c.wrote)+n >= c.errAt {
		n = c.errAt - len(c.wrote)
		c.wrote = append(c.wrote, p[:n]...)
		return n, c.werr
	}
	c.wrote = append(c.wrote, p[:n]...)
	return n, nil
}

func (c *chunkRwc) Close() error {
	c.mtx.Lock()
	c.closed++
	err := c.closeErr
	c.cond.Broadcast()
	c.mtx.Unlock()
	return err
}

type c15addr string

func (c15addr) Network() string  { return "t" }
func (a c15addr) String() string { return string(a) }

func isTimeout(err error) bool {
	var ne net.Error
	return errors.Is(err, os.ErrDeadlineExceeded) && errors.As(err, &ne) && ne.Timeout()
}

// c15read: all reads of one connection, with deadlines in the past between.
func (x *Ctx) c15read(idx int, r *lib.Rand) {
	u := newChunkRwc()
	var want []byte
	var sizes []int
	for i := range r.Weighted(1, 2, 3, 3, 3, 2, 2, 1, 1) {
		sz := r.Range(1, 40)
		switch r.Weighted(4, 2, 1) {
		case 1:
			sz = r.Range(1, 3000)
		case 2:
			sz = lib.PickOf(r, 2047, 2048, 2049, 4096, 6000, 20000)
		}
		b := lib.Content(idx, 1, i, sz)
		want = append(want, b...)
		sizes = append(sizes, sz)
		u.chunks = append(u.chunks, b)
	}
	u.end = lib.PickOf[error](r, io.EOF, io.EOF, errRead, io.ErrUnexpectedEOF)
	u.with = r.OneIn(2)
	u.zero = r.Weighted(3, 1, 1)
	bufN := lib.PickOf(r, -1, 0, 1, 2, 10)
	mode := readMode(r, sizes)
	desc := map[string]any{"chunks": sizes, "end": u.end.Error(), "with_data": u.with, "zero": u.zero, "buffer": bufN, "mode": mode}
	ctx := lib.NewCountCtx()
	defer ctx.Cancel()
	c := srpc.NewRwcConn(ctx, u, c15addr("l"), c15addr("r"), bufN)
	if c.LocalAddr() != net.Addr(c15addr("l")) || c.RemoteAddr() != net.Addr(c15addr("r")) {
		x.Rep.Violate("addr", idx, desc, "addresses are %v and %v", c.LocalAddr(), c.RemoteAddr())
	}
	var got []byte
	var end error
	var bad string
	timeouts := 0
	dl := r.OneIn(2)
	// a write deadline has no effect on reads
	if r.OneIn(2) {
		_ = c.SetWriteDeadline(lib.PickOf(r, time.Unix(1, 0), time.Now(), time.Time{}, time.Now().Add(time.Hour)))
		desc["write_deadline"] = true
	}
	rr := r.Fork()
	s := x.Sched(r)
	if !x.Do(idx, desc, "reading", s, r.Fork(), func() {
		end, bad = readAll(readerFunc(func(p []byte) (int, error) {
			if dl && rr.OneIn(3) {
				if rr.OneIn(2) {
					_ = c.SetReadDeadline(time.Unix(1, 0))
				} else {
					_ = c.SetDeadline(time.Now())
				}
				for range rr.Range(1, 2) {
					n, err := c.Read(p)
					if len(p) == 0 && n == 0 && err == nil {
						break
					}
					if n != 0 || !isTimeout(err) {
						return n, fmt.Errorf("not a timeout after the deadline: %d, %v", n, err)
					}
					timeouts++
				}
				if rr.OneIn(2) {
					_ = c.SetReadDeadline(time.Time{})
				} else {
					_ = c.SetReadDeadline(time.Now().Add(time.Hour))
				}
			}
			return c.Read(p)
		}), r, mode, func(b []byte) { got = append(got, b...) })
		if dl {
			_ = c.SetReadDeadline(time.Time{})
		}
		for range 3 {
			if n, err := c.Read(make([]byte, 10)); (n != 0 || err != end) && bad == "" {
				bad = fmt.Sprintf("after the end %v, Read returned %d, %v", end, n, err)
			}
		}
	}) {
		return
	}
	_ = c.Close()
	// a reader which goes on after timeouts must learn of the close
	if idx%3 != 0 {
		_ = c.SetReadDeadline(time.Unix(1, 0))
	}
	for range 2 {
		if n, err := c.Read(make([]byte, 10)); (n != 0 || err == nil || isTimeout(err)) && bad == "" {
			bad = fmt.Sprintf("after Close, Read returned %d, %v", n, err)
		}
	}
	if bad != "" {
		x.Rep.Violate("read-contract", idx, desc, "%s", bad)
		return
	}
	if d := diffBytes(got, want, true); d != "" {
		x.Rep.Violate("wrong-bytes", idx, desc, "%s (ended with %v)", d, end)
	}
	if end != u.end {
		x.Rep.Violate("wrong-end", idx, desc, "reading ended with %v instead of %v", end, u.end)
	}
	x.Rep.Count("bytes-read", len(got))
	x.Rep.Count("timeouts", timeouts)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), s.SchedSig()))
	if idx%1000 == 0 {
		x.Rep.Sample(desc)
	}
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

func (x *Ctx) c15write(idx int, r *lib.Rand) {
	u := newChunkRwc()
	for range r.Intn(4) {
		u.short = append(u.short, lib.PickOf(r, 0, 1, 2, 7, 100))
	}
	if r.OneIn(3) {
		u.errAt, u.werr = r.Intn(200), errCall
	}
	ctx := lib.NewCountCtx()
	defer ctx.Cancel()
	c := srpc.NewRwcConn(ctx, u, nil, nil, r.Intn(3))
	defer c.Close()
	sz := []int{}
	for range r.Range(1, 6) {
		sz = append(sz, lib.PickOf(r, 0, 1, 30, r.Intn(300), r.Intn(5000)))
	}
	desc := map[string]any{"writes": sz, "short": u.short, "fail_at": u.errAt}
	var want []byte
	for i, n := range sz {
		b := lib.Content(idx, 1, i, n)
		keep := bytes.Clone(b)
		before := len(u.wrote)
		var k int
		var err error
		if !x.Do(idx, desc, "writing", nil, nil, func() { k, err = c.Write(b) }) {
			return
		}
		if !bytes.Equal(b, keep) {
			x.Rep.Violate("write-contract", idx, desc, "Write changed the buffer")
		}
		if k < 0 || k > n || k != len(u.wrote)-before {
			x.Rep.Violate("write-contract", idx, desc, "Write returned %d, %v but %d bytes were written", k, err, len(u.wrote)-before)
			return
		}
		if (k < n) != (err != nil) && !(k == n && err == errCall && u.errAt == len(u.wrote)) {
			x.Rep.Violate("write-contract", idx, desc, "Write of %d bytes returned %d, %v", n, k, err)
			return
		}
		want = append(want, keep[:k]...)
		if err != nil {
			if err != errCall || u.errAt < 0 {
				x.Rep.Violate("write-contract", idx, desc, "Write failed: %v", err)
			}
			break
		}
	}
	if d := diffBytes(u.wrote, want, true); d != "" {
		x.Rep.Violate("wrong-bytes", idx, desc, "writing: %s", d)
	}
	x.Rep.Count("bytes-written", len(u.wrote))
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
}

// c15deadline: reads which wait while the deadline moves.
func (x *Ctx) c15deadline(idx int, r *lib.Rand) {
	u := newChunkRwc()
	ctx := lib.NewCountCtx()
	defer ctx.Cancel()
	c := srpc.NewRwcConn(ctx, u, nil, nil, r.Intn(3))
	defer c.Close()
	type set struct {
		t0, t1 time.Time // when it was set
		d      time.Time
	}
	var mtx sync.Mutex
	var sets []set
	setDL := func(d time.Time) {
		mtx.Lock()
		defer mtx.Unlock()
		t0 := time.Now()
		if r.OneIn(3) {
			_ = c.SetDeadline(d)
		} else {
			_ = c.SetReadDeadline(d)
		}
		sets = append(sets, set{t0, time.Now(), d})
	}
	type rd struct {
		t0, t1 time.Time
		n      int
		err    error
	}
	var reads []rd
	var got, want []byte
	var script []string
	steps := r.Range(2, 5)
	var ops []func()
	for i := range steps {
		switch k := r.Intn(6); k {
		case 5:
			script = append(script, "write")
			ops = append(ops, func() { _ = c.SetWriteDeadline(time.Unix(7, 0)) })
		case 0:
			script = append(script, "past")
			ops = append(ops, func() { setDL(time.Unix(5, 0)) })
		case 1, 2:
			d := time.Duration(r.Range(0, 8)) * time.Millisecond
			script = append(script, fmt.Sprint("in ", d))
			ops = append(ops, func() { setDL(time.Now().Add(d)) })
		case 3:
			script = append(script, "none")
			ops = append(ops, func() { setDL(time.Time{}) })
		case 4:
			b := lib.Content(idx, 1, i, r.Range(1, 30))
			script = append(script, fmt.Sprint("data ", len(b)))
			want = append(want, b...)
			ops = append(ops, func() { u.push(b) })
		}
		if r.OneIn(2) {
			d := time.Duration(r.Range(0, 3000)) * time.Microsecond
			script = append(script, "pause")
			ops = append(ops, func() { time.Sleep(d) })
		}
	}
	// at the end a deadline makes the reader return
	lastD := time.Duration(r.Range(-1, 5)) * time.Millisecond
	script = append(script, fmt.Sprint("in ", lastD))
	desc := map[string]any{"script": script}
	s := x.Sched(r)
	over := false
	finish := time.Time{}
	opsDone := make(chan struct{})
	idle := func() bool { // a timer is pending
		select {
		case <-opsDone:
			mtx.Lock()
			defer mtx.Unlock()
			if finish.IsZero() {
				finish = time.Now()
			}
			if time.Since(finish) > 3*time.Second {
				return false
			}
		default:
		}
		time.Sleep(time.Millisecond)
		return true
	}
	if !x.DoOpt(idx, desc, "a read whose deadline has passed", lib.WaitOpts{Sched: s, Rand: r.Fork(), Idle: idle}, func() {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; ; n++ {
				buf := make([]byte, 1+n%17)
				t0 := time.Now()
				k, err := c.Read(buf)
				reads = append(reads, rd{t0, time.Now(), k, err})
				got = append(got, buf[:k]...)
				mtx.Lock()
				stop := over
				mtx.Unlock()
				if err != nil && (stop || !isTimeout(err)) {
					return
				}
				if err != nil {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}()
		for _, f := range ops {
			f()
		}
		setDL(time.Now().Add(lastD))
		mtx.Lock()
		over = true
		mtx.Unlock()
		close(opsDone)
		wg.Wait()
	}) {
		return
	}
	for _, q := range reads {
		if q.err == nil {
			continue
		}
		if !isTimeout(q.err) || q.n != 0 {
			x.Rep.Violate("wrong-error", idx, desc, "a read returned %d, %v", q.n, q.err)
			continue
		}
		// some deadline which was in effect during the read had passed
		ok := false
		for i, st := range sets {
			if st.d.IsZero() || st.d.After(q.t1) || st.t0.After(q.t1) {
				continue
			}
			if i+1 < len(sets) && sets[i+1].t1.Before(q.t0) {
				continue // was replaced before the read
			}
			if i+1 < len(sets) && st.d.After(sets[i+1].t1) {
				continue // was replaced before it passed
			}
			ok = true
		}
		if !ok {
			x.Rep.Violate("early-timeout", idx, desc, "a read timed out although no deadline had passed (%v)", script)
		}
		x.Rep.Count("timeouts", 1)
	}
	// no data was lost
	_ = c.SetReadDeadline(time.Time{})
	u.mtx.Lock()
	u.end = io.EOF
	u.cond.Broadcast()
	u.mtx.Unlock()
	var end error
	var bad string
	if !x.Do(idx, desc, "reading the rest", nil, nil, func() {
		end, bad = readAll(c, r, 1, func(b []byte) { got = append(got, b...) })
	}) {
		return
	}
	if d := diffBytes(got, want, true); d != "" || bad != "" {
		x.Rep.Violate("wrong-bytes", idx, desc, "%s %s (ended with %v)", d, bad, end)
	}
	x.Rep.Count("reads", len(reads))
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), s.SchedSig()))
	if idx%100 == 0 {
		x.Rep.Sample(desc)
	}
}

// c15close: closing or cancelling ends all.
func (x *Ctx) c15close(idx int, r *lib.Rand) {
	u := newChunkRwc()
	var want []byte
	for i := range r.Intn(20) {
		b := lib.Content(idx, 1, i, r.Range(1, 50))
		want = append(want, b...)
		u.chunks = append(u.chunks, b)
	}
	how := lib.PickOf(r, "close", "close", "cancel", "cancel-close", "close-twice", "end-close")
	if how == "end-close" {
		u.end = io.EOF
	}
	readers := r.Weighted(1, 3, 1)
	base := starpcGoroutines(lib.Snapshot())
	ctx := lib.NewCountCtx()
	c := srpc.NewRwcConn(ctx, u, nil, nil, lib.PickOf(r, 0, 1, 3, 30))
	if r.OneIn(3) {
		_ = c.SetReadDeadline(time.Now().Add(time.Hour))
	}
	limit := r.Intn(12) // reads of each reader before the close
	if r.OneIn(4) {
		u.closeErr = errCall
	}
	desc := map[string]any{"how": how, "close_error": u.closeErr != nil, "bytes": len(want), "readers": readers, "reads": limit, "idle": idx%2 == 0}
	var mtx sync.Mutex
	var got [][]byte
	s := x.Sched(r)
	var closing bool
	var wg sync.WaitGroup
	goOn := make(chan struct{})
	steps := 0
	idle := func() bool {
		steps++
		if steps == 1 {
			close(goOn)
			return true
		}
		return false
	}
	if !x.DoOpt(idx, desc, "a pending read after "+how, lib.WaitOpts{Sched: s, Rand: r.Fork(), Idle: idle}, func() {
		for k := range readers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					if k == 0 && i == limit && limit < 4 { // stops reading: the pump blocks
						return
					}
					buf := make([]byte, 1+i%13)
					n, err := c.Read(buf)
					mtx.Lock()
					if k == 0 && readers == 1 {
						got = append(got, buf[:n])
					}
					mtx.Unlock()
					if err != nil {
						mtx.Lock()
						if !closing && how != "end-close" {
							x.Rep.Violate("early-end", idx, desc, "Read returned %v before the connection was closed", err)
						}
						mtx.Unlock()
						return
					}
				}
			}()
		}
		if idx%2 == 0 {
			<-goOn // all is blocked
		}
		mtx.Lock()
		closing = true
		mtx.Unlock()
		switch how {
		case "close", "end-close":
			_ = c.Close()
		case "close-twice":
			_ = c.Close()
			_ = c.Close()
		default:
			ctx.Cancel()
		}
		wg.Wait()
		if how == "cancel-close" || how == "cancel" {
			// reads return an error
			b := make([]byte, 5)
			for i := 0; ; i++ {
				_, err := c.Read(b)
				if err != nil {
					break
				}
				if i > 10000 {
					x.Rep.Violate("no-end", idx, desc, "reads go on after the context was cancelled")
					break
				}
			}
			_ = c.Close()
		}
	}) {
		ctx.Cancel()
		_ = c.Close()
		return
	}
	if u.closed == 0 {
		x.Rep.Violate("not-closed", idx, desc, "closing did not close the stream below")
	}
	gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	for k, v := range starpcGoroutines(gs) {
		if v > base[k] {
			x.Rep.Violate("goroutine-leak", idx, desc, "goroutines are left after %s: %s", how, k)
		}
	}
	if n := ctx.Registered(); n != 0 {
		x.Rep.Violate("ctx-leak", idx, desc, "%d registrations with the context are left after %s", n, how)
	}
	if readers == 1 {
		if d := diffBytes(bytes.Join(got, nil), want, false); d != "" {
			x.Rep.Violate("wrong-bytes", idx, desc, "%s", d)
		}
	}
	x.Rep.Count("closed:"+how, 1)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), s.SchedSig()))
	if idx%200 == 0 {
		x.Rep.Sample(desc)
	}
}

var _ = context.Canceled
