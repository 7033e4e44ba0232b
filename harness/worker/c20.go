package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C20"] = c20 }

func c20(x *Ctx) {
	x.Each("pipe", 12000, x.c20pipe)
	x.Each("sequential", 8000, x.c20seq)
}

// pipeMsg is a message which may fail to encode or decode.
type pipeMsg struct {
	srpc.RawMessage
	fail error
}

var errCodec = errors.New("codec")

func (m *pipeMsg) MarshalVT() ([]byte, error) {
	if m.fail != nil {
		return nil, m.fail
	}
	b, err := m.RawMessage.MarshalVT()
	return append([]byte(nil), b...), err
}

func (m *pipeMsg) UnmarshalVT(b []byte) error {
	_ = m.RawMessage.UnmarshalVT(append([]byte(nil), b...))
	return m.fail
}

type pipeOp struct {
	t0, t1 int64 // t1 = 0: pending
	err    error
	data   string
	codec  bool
}

// pipeEnd is the log of one end.
type pipeEnd struct {
	strm         srpc.Stream
	ctx          context.Context
	sends, recvs []*pipeOp
	// closeSend and close: first call of each (0: none).
	csT0, csT1, clT0, clT1 int64
}

type pipeLog struct {
	mtx    sync.Mutex
	clock  int64
	ends   [2]*pipeEnd
	cancT0 int64
	cancT1 int64
	bad    []string
}

func (l *pipeLog) tick() int64 {
	l.clock++
	return l.clock
}

func (l *pipeLog) send(e int, data string, fail bool) error {
	op := &pipeOp{data: data, codec: fail}
	m := &pipeMsg{}
	m.SetData([]byte(data))
	if fail {
		m.fail = errCodec
	}
	l.mtx.Lock()
	op.t0 = l.tick()
	l.ends[e].sends = append(l.ends[e].sends, op)
	l.mtx.Unlock()
	err := l.ends[e].strm.MsgSend(m)
	l.mtx.Lock()
	op.t1, op.err = l.tick(), err
	l.mtx.Unlock()
	return err
}

func (l *pipeLog) recv(e int, fail bool) error {
	op := &pipeOp{codec: fail}
	m := &pipeMsg{}
	if fail {
		m.fail = errCodec
	}
	l.mtx.Lock()
	op.t0 = l.tick()
	l.ends[e].recvs = append(l.ends[e].recvs, op)
	l.mtx.Unlock()
	err := l.ends[e].strm.MsgRecv(m)
	l.mtx.Lock()
	op.t1, op.err, op.data = l.tick(), err, string(m.GetData())
	l.mtx.Unlock()
	return err
}

// act does a named action on an end.
func (l *pipeLog) act(what string, e int, cancel func()) {
	l.mtx.Lock()
	t := l.tick()
	var t1 *int64
	set := func(a, b *int64) {
		if *a == 0 {
			*a = t
			t1 = b
		}
	}
	p := l.ends[e]
	switch what {
	case "close-send":
		set(&p.csT0, &p.csT1)
	case "close":
		set(&p.clT0, &p.clT1)
	case "cancel":
		set(&l.cancT0, &l.cancT1)
	}
	l.mtx.Unlock()
	var err error
	switch what {
	case "close-send":
		err = p.strm.CloseSend()
	case "close":
		err = p.strm.Close()
	case "cancel":
		cancel()
	}
	l.mtx.Lock()
	if t1 != nil {
		*t1 = l.tick()
	}
	if err != nil {
		l.bad = append(l.bad, fmt.Sprintf("%s of end %d failed: %v", what, e, err))
	}
	if what == "close" && p.ctx.Err() == nil {
		l.bad = append(l.bad, fmt.Sprintf("the context of end %d is not ended after its Close", e))
	}
	l.mtx.Unlock()
}

// before tells if t (a start or end time, 0 = never) is before u.
func before(t, u int64) bool { return t != 0 && t < u }

// check judges a log; mtx is held. idle: everything is blocked.
func (l *pipeLog) check(idle bool) (out []string) {
	bad := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	out = append(out, l.bad...)
	for e := range 2 {
		p, q := l.ends[e], l.ends[1-e]
		// receives of e: the sends of q
		next := 0 // next send of q
		eof := int64(0)
		// a send of q which overlapped the close of q's sending side
		overlap := func(s *pipeOp) bool {
			end := s.t1
			if end == 0 {
				end = l.clock + 1
			}
			return before(q.csT0, end) || before(q.clT0, end)
		}
		for i, r := range p.recvs {
			pending := r.t1 == 0
			until := r.t1
			if pending {
				until = l.clock + 1
			}
			ended := before(p.clT0, until) || before(l.cancT0, until)
			remoteEnd := before(q.csT0, until) || before(q.clT0, until)
			switch {
			case pending:
				if !idle {
					continue
				}
				if ended {
					bad("end %d: MsgRecv is blocked though the end was closed or its context ended", e)
				}
				if remoteEnd {
					bad("end %d: MsgRecv is blocked though the other end will send nothing more", e)
				}
				for _, s := range q.sends[next:] {
					if s.t1 == 0 || s.err == nil {
						bad("end %d: MsgRecv is blocked though message %q was sent", e, s.data)
						break
					}
				}
			case r.err == nil || errors.Is(r.err, errCodec):
				if (r.err != nil) != r.codec {
					bad("end %d: MsgRecv %d returned %v", e, i, r.err)
				}
				for next < len(q.sends) && q.sends[next].t1 != 0 && q.sends[next].err != nil {
					next++
				}
				if next == len(q.sends) {
					bad("end %d received %q which was not sent", e, r.data)
					return
				}
				s := q.sends[next]
				next++
				if s.data != r.data {
					bad("end %d received %q instead of %q", e, r.data, s.data)
					return
				}
				if s.t0 > r.t1 {
					bad("end %d received %q before it was sent", e, r.data)
				}
				if before(eof, r.t0) && !overlap(s) {
					bad("end %d received %q after io.EOF", e, r.data)
				}
			case r.err == io.EOF:
				if !remoteEnd {
					bad("end %d: MsgRecv returned io.EOF though the other end is not closed", e)
				}
				if eof == 0 {
					eof = r.t1
				}
				if !ended {
					for _, s := range q.sends[next:] {
						if s.t1 != 0 && s.err == nil && !overlap(s) {
							bad("end %d: io.EOF before message %q", e, s.data)
							break
						}
					}
				}
			default:
				if !ended {
					bad("end %d: MsgRecv failed: %v", e, r.err)
				}
				if r.err != context.Canceled && ended {
					bad("end %d: MsgRecv failed with %v after the end was closed or its context ended", e, r.err)
				}
			}
		}
		// sends of e
		for i, s := range p.sends {
			pending := s.t1 == 0
			until := s.t1
			if pending {
				until = l.clock + 1
			}
			may := before(p.csT0, until) || before(p.clT0, until) || before(q.clT0, until) || before(l.cancT0, until)
			must := before(p.csT1, s.t0) || before(p.clT1, s.t0) || before(q.clT1, s.t0) || before(l.cancT1, s.t0)
			switch {
			case pending:
				if !idle {
					continue
				}
				if may {
					bad("end %d: MsgSend is blocked though the stream was closed or its context ended", e)
				}
				if n := len(q.recvs); n != 0 && q.recvs[n-1].t1 == 0 {
					bad("end %d: MsgSend is blocked though the other end is receiving", e)
				}
			case s.codec:
				if s.err == nil {
					bad("end %d: send %d of a message which can not be encoded succeeded", e, i)
				}
			case s.err == nil:
				if must {
					bad("end %d: sending %q succeeded after the end was closed, its peer closed or its context ended", e, s.data)
				}
			case !may:
				bad("end %d: sending %q failed: %v", e, s.data, s.err)
			}
		}
		if err := p.ctx.Err(); err != nil && p.clT0 == 0 && l.cancT0 == 0 {
			bad("the context of end %d ended though it was not closed", e)
		}
	}
	return
}

func newPipeLog(ctx context.Context) *pipeLog {
	l := &pipeLog{}
	a, b := srpc.NewPipeStream(ctx)
	l.ends[0], l.ends[1] = &pipeEnd{strm: a, ctx: a.Context()}, &pipeEnd{strm: b, ctx: b.Context()}
	return l
}

type pipeStep struct {
	What  string `json:"what"`
	End   int    `json:"end"`
	Yield int    `json:"yield"` // -1: when all is blocked
}

func (x *Ctx) c20pipe(idx int, r *lib.Rand) {
	type side struct {
		Send      int  `json:"send"`
		CloseSend bool `json:"close_send"`
		Recv      int  `json:"recv"` // -1: until an error
		After     int  `json:"after"`
		Fail      int  `json:"fail"`  // every n-th message fails to encode or decode
		Empty     int  `json:"empty"` // every n-th message is empty
	}
	var sd [2]side
	for e := range 2 {
		sd[e] = side{r.Weighted(2, 2, 2, 2, 1, 1, 1, 1, 1, 1), r.OneIn(2), -1, r.Intn(3), 0, 0}
		if r.OneIn(4) {
			sd[e].Recv = r.Intn(4)
		}
		if r.OneIn(6) {
			sd[e].Fail = r.Range(2, 4)
		}
		if r.OneIn(4) {
			sd[e].Empty = r.Range(1, 4)
		}
		if r.OneIn(20) {
			sd[e].Send = r.Range(20, 60)
		}
	}
	var steps []pipeStep
	for range r.Weighted(3, 3, 2, 2, 1) {
		s := pipeStep{lib.PickOf(r, "close", "close", "close-send", "close-send", "cancel"), r.Intn(2), -1}
		if r.OneIn(2) {
			s.Yield = r.Intn(60)
		}
		steps = append(steps, s)
	}
	desc := map[string]any{"sides": sd, "steps": steps}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := x.Sched(r)
	l := newPipeLog(ctx)
	var wg sync.WaitGroup
	var idle []pipeStep
	var started atomic.Bool
	for _, st := range steps {
		if st.Yield < 0 {
			idle = append(idle, st)
		}
	}
	var probs []string
	final := false
	var rem sync.WaitGroup
	// run by the driver
	next := func() bool {
		l.mtx.Lock()
		if len(probs) == 0 {
			probs = l.check(true)
		}
		l.mtx.Unlock()
		if len(probs) != 0 {
			return false
		}
		if len(idle) != 0 {
			st := idle[0]
			idle = idle[1:]
			rem.Add(1)
			go func() {
				defer rem.Done()
				l.act(st.What, st.End, cancel)
			}()
			return true
		}
		if final {
			return false
		}
		final = true
		rem.Add(1)
		go func() {
			defer rem.Done()
			l.act("cancel", 0, cancel)
		}()
		return true
	}
	done := x.DoOpt(idx, desc, "a pipe stream", lib.WaitOpts{Sched: s, Rand: r.Fork(), Idle: func() bool {
		if !started.Load() {
			return false
		}
		if next() {
			return true
		}
		if len(probs) != 0 && !final {
			// reported; end it
			final = true
			go cancel()
			return true
		}
		return false
	}}, func() {
		for e := range 2 {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := range sd[e].Send {
					fail := sd[e].Fail != 0 && i%sd[e].Fail == 1
					data := fmt.Sprintf("%d-%d", e, i)
					if n := sd[e].Empty; n != 0 && i%n == n-1 {
						data = ""
					}
					if err := l.send(e, data, fail); err != nil && !fail {
						break
					}
				}
				if sd[e].CloseSend {
					l.act("close-send", e, nil)
					for range sd[e].After {
						_ = l.send(e, "late", false)
					}
				}
			}()
			go func() {
				defer wg.Done()
				for i := 0; i != sd[e].Recv; i++ {
					fail := sd[e].Fail != 0 && i%sd[e].Fail == 0
					if err := l.recv(e, fail); err != nil && !errors.Is(err, errCodec) {
						for range sd[e].After {
							_ = l.recv(e, false)
						}
						break
					}
				}
			}()
		}
		for _, st := range steps {
			if st.Yield < 0 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range st.Yield {
					runtime.Gosched()
				}
				l.act(st.What, st.End, cancel)
			}()
		}
		started.Store(true)
		wg.Wait()
	})
	rem.Wait()
	l.mtx.Lock()
	defer l.mtx.Unlock()
	if len(probs) == 0 && done {
		probs = l.check(true)
	}
	if len(probs) != 0 {
		x.Rep.Violate("pipe-stream", idx, desc, "%s", probs[0])
	}
	h := uint64(7)
	for e := range 2 {
		for _, o := range append(append([]*pipeOp{}, l.ends[e].sends...), l.ends[e].recvs...) {
			h = lib.Mix(h, uint64(o.t0), uint64(o.t1))
			x.Rep.Count("operations", 1)
			if o.err == io.EOF {
				x.Rep.Count("eof", 1)
			} else if o.err != nil {
				x.Rep.Count("failed-operations", 1)
			}
		}
	}
	x.Rep.Hist(h)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), s.SchedSig()))
	if idx%3000 == 0 {
		x.Rep.Sample(desc)
	}
}

// c20seq: operations one after another; blocking ones run until everything is
// blocked and then stay pending.
func (x *Ctx) c20seq(idx int, r *lib.Rand) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := newPipeLog(ctx)
	var ops []string
	var busy [2][2]atomic.Bool // [end][send, recv]
	n := 0
	total := r.Range(2, 25)
	w := []int{6, 6, 1, 1, 0}
	if r.OneIn(3) {
		w = []int{6, 3, 2, 1, 1}
	}
	var probs []string
	var wg sync.WaitGroup
	begin := make(chan struct{})
	end := make(chan struct{})
	ended := false
	cnt := 0
	ok := x.DoOpt(idx, nil, "a pipe stream", lib.WaitOpts{Idle: func() bool {
		if ended {
			return false
		}
		l.mtx.Lock()
		if len(probs) == 0 {
			probs = l.check(true)
		}
		l.mtx.Unlock()
		if n == total || len(probs) != 0 {
			ended = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				l.act("cancel", 0, cancel)
				close(end)
			}()
			return true
		}
		// the next batch
		for range r.Range(1, 3) {
			if n == total {
				break
			}
			n++
			e := r.Intn(2)
			k := r.Weighted(w...)
			if k < 2 {
				if !busy[e][k].CompareAndSwap(false, true) {
					k = 2 + r.Weighted(w[2:]...)
					if !r.OneIn(4) {
						continue
					}
				}
			}
			name := []string{"send", "recv", "close-send", "close", "cancel"}[k]
			ops = append(ops, fmt.Sprint(name, e))
			cnt++
			msg := fmt.Sprint(cnt)
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch k {
				case 0:
					_ = l.send(e, msg, false)
					busy[e][0].Store(false)
				case 1:
					_ = l.recv(e, false)
					busy[e][1].Store(false)
				default:
					l.act(name, e, cancel)
				}
			}()
		}
		return true
	}}, func() {
		close(begin)
		<-end
		wg.Wait()
	})
	l.mtx.Lock()
	defer l.mtx.Unlock()
	if ok && len(probs) == 0 {
		probs = l.check(true)
	}
	if len(probs) != 0 {
		x.Rep.Violate("pipe-stream", idx, map[string]any{"ops": ops}, "%s (%v)", probs[0], ops)
	}
	x.Rep.Count("operations", len(ops))
	x.Rep.Eval(lib.HashStr(fmt.Sprint(ops)))
	if idx%2000 == 0 {
		x.Rep.Sample(ops)
	}
}
