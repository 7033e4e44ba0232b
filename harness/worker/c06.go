package main

import (
	"fmt"

	"verifharness/lib"
)

func init() { Props["C06"] = c06 }

var c06Keys = []string{"extra-message", "wrong-message", "retained-message-changed", "early-message", "wrong-response", "fabricated-response", "message-after-end", "outcome-changed", "lost-arrived", "early-eof", "failure-as-success", "lost-message"}

// c06: the connection fails after each byte.
func c06(x *Ctx) {
	x.keys(c06Keys...)
	arches := []int{lib.AUnary, lib.AUnaryErr, lib.ANoResponse, lib.AClientStream, lib.AServerStream, lib.AEcho, lib.ADuplex, lib.AServerHalfFirst, lib.AClientHalfFirst, lib.AEarlyReturn, lib.AErrMidway, lib.AEmpty, lib.AUnhandled, lib.AFaultWait, lib.AFaultExec}
	gen := func(r *lib.Rand, a int) *lib.CallSpec {
		sp := lib.GenArche(r, 0, a, lib.GenOpts{Small: true, MaxMsgs: 2})
		sp.Svc, sp.Method = "s", "m-0"
		if len(sp.SRet) > 4000 { // each byte is cut
			sp.SRet = sp.SRet[:4000]
		}
		return sp
	}
	kinds := []lib.CutKind{lib.CutEOF, lib.CutErr, lib.CutErrWithData}
	// every byte of the packet streams of small calls
	x.Each("every-byte", len(arches)*4, func(idx int, r *lib.Rand) {
		sp := gen(r, arches[idx%10_000_000%len(arches)])
		waits := sp.Arche == "fault-wait" || sp.Arche == "fault-exec"
		base := &Case{Kind: "sim", Calls: []*lib.CallSpec{sp}, TSeed: r.Uint64(), Record: true}
		if waits {
			base.Fault = &Fault{Kind: lib.CutErr, At: 1 << 40}
		}
		if x.Override != nil {
			x.cutCase(idx, x.Override, nil)
			return
		}
		var total [2]int64
		var msgEnds [2][]int64
		o := x.RunCalls(idx, base, func(o *Outcome) {
			c := o.T.Conns()
			if len(c) == 0 {
				return
			}
			for d := range 2 {
				rec := c[0][d].Recorded()
				total[d] = int64(len(rec))
				ps, ends, _, _ := lib.DecodeStream(rec)
				for i, p := range ps {
					if p.IsMsg() {
						msgEnds[d] = append(msgEnds[d], ends[i])
					}
				}
			}
		})
		if o.Res != lib.WaitDone {
			return
		}
		x.record(base, o)
		for d := range 2 {
			for at := int64(0); at <= total[d]; at++ {
				for _, k := range kinds {
					for both := range 2 {
						if x.Rep.NumViolations() >= 3 {
							return
						}
						cs := &Case{Kind: "sim", Calls: base.Calls, TSeed: base.TSeed, Fault: &Fault{Dir: d, At: at, Kind: k, Both: both == 1}}
						if r.OneIn(3) {
							x.GenSched(r, cs)
						}
						x.cutCase(idx, cs, msgEnds[d])
					}
				}
			}
		}
		x.Rep.Count("byte-positions-cut", int(total[0]+total[1])+2)
	})
	// muxed and nested transports, several calls, cut at sampled bytes
	tk := []string{"yamux-sim", "yamux-sim", "yamux-rwc", "nested-sim", "nested-yamux", "nested2-sim", "proxy-sim", "proxy-yamux"}
	x.Each("muxed", 6000, func(idx int, r *lib.Rand) {
		if x.Override != nil {
			x.cutCase(idx, x.Override, nil)
			return
		}
		cs := &Case{Kind: tk[r.Intn(len(tk))], TSeed: r.Uint64()}
		n := r.Weighted(0, 5, 3, 1)
		for i := range n {
			sp := lib.GenArche(r, i, arches[r.Intn(len(arches))], lib.GenOpts{Small: r.OneIn(2), MaxMsgs: 4})
			cs.Calls = append(cs.Calls, sp)
		}
		lim := lib.PickOf(r, 60, 300, 1500, 10000)
		cs.Fault = &Fault{Dir: r.Intn(2), At: int64(r.Intn(lim)), Kind: kinds[r.Intn(3)], Both: r.OneIn(2)}
		if r.OneIn(4) {
			cs.Fault.Async = r.Range(1, 400)
		}
		if cs.Kind != "yamux-sim" && cs.Kind != "yamux-rwc" && cs.Kind != "nested-yamux" {
			cs.Fault.Conn = r.Range(-1, n)
		}
		x.GenSched(r, cs)
		x.cutCase(idx, cs, nil)
	})
	// larger calls over a packet connection
	x.Each("large", 800, func(idx int, r *lib.Rand) {
		if x.Override != nil {
			x.cutCase(idx, x.Override, nil)
			return
		}
		cs := &Case{Kind: "sim", TSeed: r.Uint64()}
		cs.Calls = append(cs.Calls, lib.GenArche(r, 0, arches[r.Intn(len(arches))], lib.GenOpts{MaxMsgs: 6, Big: 1}))
		lim := lib.PickOf(r, 300, 3000, 30000, 200000)
		cs.Fault = &Fault{Dir: r.Intn(2), At: int64(r.Intn(lim)), Kind: kinds[r.Intn(3)], Both: r.OneIn(2)}
		x.GenSched(r, cs)
		x.cutCase(idx, cs, nil)
	})
}

func (x *Ctx) cutCase(idx int, cs *Case, msgEnds []int64) {
	o := x.RunCalls(idx, cs, nil)
	x.Rep.Eval(cs.Sig())
	x.Rep.Count(fmt.Sprintf("cut:%s:%d", cs.Kind, cs.Fault.Kind), 1)
	if x.Rep.Evaluations%97 == 0 {
		x.Rep.Sample(cs.Brief())
	}
	if o.Res != lib.WaitDone || msgEnds == nil || o.Forced {
		return
	}
	// messages which arrived at the client before the failure are received.
	// (Not checked for the handler: the client ends the call when it sees the
	// failure, and what the handler did not read yet is dropped then.)
	if cs.Fault.Dir != 1 {
		return
	}
	c := o.World.Calls[0]
	side, name := &c.C, "client"
	if side.EndErr == nil || c.Spec.Exec {
		return
	}
	n := 0
	for _, e := range msgEnds {
		if e <= cs.Fault.At {
			n++
		}
	}
	if len(side.Recv) < n {
		x.Rep.Violate("lost-arrived", idx, cs, "%d messages arrived before the connection failed (after byte %d), the %s received %d and then %v", n, cs.Fault.At, name, len(side.Recv), side.EndErr)
	}
	x.Rep.Count("arrived-messages-checked", n)
}
