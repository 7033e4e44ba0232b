package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"verifharness/lib"
	"verifharness/vhook"
)

// Fault is a failure of the connection.
type Fault struct {
	Dir   int         `json:"dir"` // 0: client to server
	At    int64       `json:"at"`
	Kind  lib.CutKind `json:"kind"`
	Both  bool        `json:"both"`
	Async int         `json:"async,omitempty"` // cut both at some time (yields)
	Conn  int         `json:"conn"`            // -1: all
	// Stop: the context of the server is cancelled instead (Async).
	Stop bool `json:"stop,omitempty"`
}

// Case is a case with calls over a transport.
type Case struct {
	Kind   string          `json:"transport"`
	Calls  []*lib.CallSpec `json:"calls"`
	Stalls map[int32]int32 `json:"stalls,omitempty"`
	Yield  uint64          `json:"yield,omitempty"`
	Sleep  bool            `json:"sleep,omitempty"`
	SSeed  uint64          `json:"sseed,omitempty"`
	TSeed  uint64          `json:"tseed"`
	Fault  *Fault          `json:"fault,omitempty"`
	// Record records the bytes of the connections.
	Record bool `json:"record,omitempty"`
}

// GenSched makes the schedule of a case.
func (x *Ctx) GenSched(r *lib.Rand, cs *Case) {
	if raceMode {
		return
	}
	cs.SSeed = r.Uint64()
	switch r.Weighted(2, 4, 4) {
	case 1:
		cs.Yield = lib.PickOf(r, uint64(1), 3, 7, 15, 63)
		cs.Sleep = r.OneIn(3)
	case 2:
		seen := vhook.Seen()
		if len(seen) == 0 {
			return
		}
		cs.Stalls = map[int32]int32{}
		for range r.Range(1, 3) {
			cs.Stalls[seen[r.Intn(len(seen))]] = int32(r.Weighted(5, 3, 2, 1, 1) + 1)
		}
		if r.OneIn(3) {
			cs.Yield = lib.PickOf(r, uint64(3), 15)
		}
	}
}

// Outcome is the result of running a case.
type Outcome struct {
	World  *lib.World
	T      *lib.Transport
	Res    lib.WaitResult
	Stuck  []*lib.Goroutine
	Errs   [][2]string
	Sched  *vhook.Sched
	Parked int
	// Forced: the connections were cut when everything was idle.
	Forced bool
}

// RunCalls runs a case. after, if set, is called before the teardown, with all
// calls done.
func (x *Ctx) RunCalls(idx int, cs *Case, after func(o *Outcome)) *Outcome {
	o := &Outcome{}
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); d > 300*time.Millisecond && os.Getenv("SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", idx, d, cs.Kind, len(cs.Calls), o.Parked, cs.Yield)
		}
	}()
	w := lib.NewWorld(cs.Calls)
	w.Clock.Off = raceMode
	o.World = w
	r := lib.NewRand(cs.TSeed)
	var gen lib.ConnGen
	if f := cs.Fault; f != nil {
		base := lib.DefaultConn(r.Fork())
		gen = func(i int) (ab, ba lib.ConnOpts) {
			ab, ba = base(i)
			if f.Async == 0 && (f.Conn < 0 || f.Conn == i) {
				if f.Dir == 0 {
					ab.Cut, ab.CutAt, ab.CutBoth = f.Kind, f.At, f.Both
				} else {
					ba.Cut, ba.CutAt, ba.CutBoth = f.Kind, f.At, f.Both
				}
			}
			return
		}
	}
	wr := r.Fork()
	s := &vhook.Sched{YieldMask: cs.Yield, Sleep: cs.Sleep, Seed: cs.SSeed, Stalls: cs.Stalls}
	o.Sched = s
	if !raceMode {
		vhook.Set(s)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		t, err := lib.NewTransport(cs.Kind, w.Invoker(), r.Fork(), gen, cs.Record)
		if err != nil {
			if cs.Fault == nil {
				x.Rep.Violate("transport", idx, cs, "connecting over a working %s transport failed: %v", cs.Kind, err)
			}
			return
		}
		o.T = t
		w.Hook = func() {
			for _, p := range t.Conns() {
				p[0].Cut(lib.CutErr)
			}
		}
		if f := cs.Fault; f != nil && f.Async > 0 {
			go func() {
				for range f.Async {
					runtime.Gosched()
				}
				if f.Stop {
					t.SrvCtx.Cancel()
					return
				}
				for i, p := range t.Conns() {
					if f.Conn < 0 || f.Conn == i {
						p[0].Cut(f.Kind)
					}
				}
			}()
		}
		w.Run(t.Client)
	}()
	o.Res, o.Stuck = lib.Wait(done, lib.WaitOpts{Sched: s, Rand: wr, Watchdog: 60 * time.Second, Net: strings.HasSuffix(cs.Kind, "-tcp")})
	if o.Res == lib.WaitStuck && cs.Fault != nil && o.T != nil {
		// all is blocked: fail what is left of the connections
		o.Forced = true
		x.Rep.Count("cut-when-idle", 1)
		for _, p := range o.T.Conns() {
			k := cs.Fault.Kind
			if k == lib.CutNone {
				k = lib.CutErr
			}
			p[0].Cut(k)
		}
		o.Res, o.Stuck = lib.Wait(done, lib.WaitOpts{Sched: s, Rand: wr, Watchdog: 60 * time.Second, Net: strings.HasSuffix(cs.Kind, "-tcp")})
	}
	o.Parked, _ = s.TotalParked()
	s.ReleaseAll()
	x.Rep.Count("parked", o.Parked)
	switch o.Res {
	case lib.WaitDone:
		if !raceMode {
			o.Errs = w.Check(lib.CheckOpts{Faulted: cs.Fault != nil, Nested: strings.Contains(cs.Kind, "nested") || strings.Contains(cs.Kind, "proxy")})
		}
		x.Rep.Count("events", w.Clock.Events())
		if !raceMode {
			x.Rep.Hist(w.HistSig())
		}
	case lib.WaitStuck:
		o.Errs = append(o.Errs, [2]string{"stuck", "calls never end:" + w.Pending() + "\n" + Describe(o.Stuck)})
	case lib.WaitTimeout:
		x.Rep.Inconclusive(idx, "watchdog:%s", w.Pending())
	}
	if after != nil && o.T != nil && o.Res == lib.WaitDone {
		after(o)
	}
	if t := o.T; t != nil {
		t.Close()
	}
	w.ReleaseCtxs()
	for i := 0; o.T != nil && i < 200 && (o.T.Handles.Load() != 0 || o.T.Loops.Load() != 0); i++ {
		runtime.Gosched()
	}
	vhook.Set(nil)
	for _, e := range o.Errs {
		if x.Keys == nil || x.Keys[e[0]] {
			x.Rep.Violate(e[0], idx, cs, "%s", e[1])
		} else {
			x.Rep.Count("failures-of-other-properties:"+e[0], 1)
		}
	}
	return o
}

// Do runs f, which must end: reports "stuck" if everything is blocked before it
// does. Tells if f ended.
func (x *Ctx) Do(idx int, c any, what string, s *vhook.Sched, r *lib.Rand, f func()) bool {
	return x.DoOpt(idx, c, what, lib.WaitOpts{Sched: s, Rand: r}, f)
}

// DoOpt is Do with options.
func (x *Ctx) DoOpt(idx int, c any, what string, o lib.WaitOpts, f func()) bool {
	o.Watchdog = 60 * time.Second
	done := make(chan struct{})
	if o.Sched != nil && !raceMode {
		vhook.Set(o.Sched)
		defer func() {
			o.Sched.ReleaseAll()
			vhook.Set(nil)
		}()
	}
	go func() {
		defer close(done)
		f()
	}()
	switch res, gs := lib.Wait(done, o); res {
	case lib.WaitStuck:
		x.Rep.Violate("stuck", idx, c, "%s never ends:\n%s", what, Describe(gs))
	case lib.WaitTimeout:
		x.Rep.Inconclusive(idx, "watchdog: %s\n%s", what, Describe(gs))
	default:
		return true
	}
	return false
}

// Sched makes a random schedule.
func (x *Ctx) Sched(r *lib.Rand) *vhook.Sched {
	cs := &Case{}
	x.GenSched(r, cs)
	return &vhook.Sched{YieldMask: cs.Yield, Sleep: cs.Sleep, Seed: cs.SSeed, Stalls: cs.Stalls}
}

// Describe lists the blocked goroutines in the code under test.
func Describe(gs []*lib.Goroutine) string {
	var sb strings.Builder
	n := 0
	for _, g := range gs {
		if !strings.Contains(g.Stack, "aperturerobotics/starpc/") && os.Getenv("ALLG") == "" {
			continue
		}
		if n++; n > 12 {
			break
		}
		fs := g.Funcs()
		if len(fs) > 7 {
			fs = fs[:7]
		}
		for i, f := range fs {
			fs[i] = strings.ReplaceAll(f, "github.com/aperturerobotics/starpc/", "")
		}
		fmt.Fprintf(&sb, "  [%s] %s\n", g.State, strings.Join(fs, " < "))
	}
	return sb.String()
}

func (x *Ctx) keys(ks ...string) {
	x.Keys = map[string]bool{"stuck": true, "online": true, "transport": true}
	for _, k := range ks {
		x.Keys[k] = true
	}
}

// Sig is the signature of a case.
func (cs *Case) Sig() uint64 {
	h := lib.Mix(lib.HashStr(cs.Kind), cs.Yield, uint64(len(cs.Stalls)), cs.TSeed)
	for _, c := range cs.Calls {
		h = lib.Mix(h, c.Sig())
	}
	for p, n := range cs.Stalls {
		h ^= lib.Mix(uint64(p), uint64(n))
	}
	if f := cs.Fault; f != nil {
		h = lib.Mix(h, uint64(f.Dir), uint64(f.At), uint64(f.Kind), uint64(f.Async), uint64(f.Conn+1))
		if f.Both {
			h = lib.Mix(h, 1)
		}
	}
	return h
}

// Brief is a short form of a case for the evidence.
func (cs *Case) Brief() any {
	type bc struct {
		Arche  string `json:"call"`
		Script string `json:"script"`
	}
	var l []bc
	for i, c := range cs.Calls {
		if i == 3 {
			break
		}
		l = append(l, bc{c.Arche, c.Script()})
	}
	return map[string]any{"transport": cs.Kind, "calls": len(cs.Calls), "first_calls": l, "stalls": cs.Stalls, "yield_mask": cs.Yield, "fault": cs.Fault}
}
