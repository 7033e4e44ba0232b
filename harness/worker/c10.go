package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C10"] = c10 }

// mhandler is a handler with an identity.
type mhandler struct {
	id      int
	svc     string
	methods []string
	calls   *[]string // log of the invoked handlers
	handled bool
	err     error
	reply   bool
	during  func() // runs while the handler is invoked
}

func (h *mhandler) GetServiceID() string   { return h.svc }
func (h *mhandler) GetMethodIDs() []string { return h.methods }
func (h *mhandler) InvokeMethod(svc, method string, strm srpc.Stream) (bool, error) {
	if h.calls != nil {
		*h.calls = append(*h.calls, fmt.Sprintf("%d:%q/%q", h.id, svc, method))
	}
	if c, ok := strm.(*capStream); ok {
		c.id.Store(int32(h.id))
		if h.during != nil {
			h.during()
		}
		return h.handled, h.err
	}
	if h.reply && h.err == nil && h.handled {
		return true, strm.MsgSend(srpc.NewRawMessage(fmt.Appendf(nil, "%d:%q/%q", h.id, svc, method), true))
	}
	return h.handled, h.err
}

// capStream captures the identity of the handler.
type capStream struct {
	srpc.Stream
	id atomic.Int32
}

var (
	muxSvcs = []string{"a", "b", "ab", "a.B", ""}
	muxMeth = []string{"M", "N", "MN", "m", ""}
)

// muxModel is the model of a mux.
type muxModel struct {
	m    map[[2]string]*mhandler
	fall []*muxNode
}

// muxNode is an invoker of a tree: a mux, a leaf, or nil.
type muxNode struct {
	real  srpc.Mux
	inv   srpc.Invoker
	model *muxModel
	leaf  *mhandler
	null  bool
	sub   []*muxNode
}

// cand returns the possible results of an invocation of the node: the
// sequences of the handlers invoked with the result.
func (n *muxNode) cand(svc, method string) (out []mres) {
	switch {
	case n.null:
		return []mres{{}}
	case n.leaf != nil:
		return []mres{{calls: []string{fmt.Sprintf("%d:%q/%q", n.leaf.id, svc, method)}, handled: n.leaf.handled, err: n.leaf.err}}
	}
	var hs []*mhandler
	for k, h := range n.model.m {
		if k[1] == method && (k[0] == svc || svc == "") {
			hs = append(hs, h)
		}
	}
	if len(hs) != 0 {
		for _, h := range hs {
			out = append(out, mres{calls: []string{fmt.Sprintf("%d:%q/%q", h.id, svc, method)}, handled: h.handled, err: h.err})
		}
		return out
	}
	// fallbacks
	cur := []mres{{}}
	for _, f := range n.model.fall {
		var next []mres
		for _, c := range cur {
			if c.handled || c.err != nil {
				next = append(next, c)
				continue
			}
			for _, r := range f.cand(svc, method) {
				next = append(next, mres{calls: append(append([]string{}, c.calls...), r.calls...), handled: r.handled, err: r.err})
			}
		}
		cur = next
	}
	return cur
}

type mres struct {
	calls   []string
	handled bool
	err     error
}

func (r mres) String() string {
	return fmt.Sprintf("(handlers %v, handled=%v, err=%v)", r.calls, r.handled, r.err)
}

func (r mres) eq(o mres) bool {
	if len(r.calls) != len(o.calls) || r.err != o.err || r.err == nil && r.handled != o.handled {
		return false
	}
	for i := range r.calls {
		if r.calls[i] != o.calls[i] {
			return false
		}
	}
	return true
}

type mop struct {
	Op      string   `json:"op"`
	Svc     string   `json:"svc"`
	Method  string   `json:"method,omitempty"`
	Methods []string `json:"methods,omitempty"`
	ID      int      `json:"id,omitempty"`
	Node    int      `json:"node,omitempty"`
}

var errMuxHandler = errors.New("handler failed")

func c10(x *Ctx) {
	x.Each("sequential", 40000, x.c10seq)
	x.Each("calls", 2000, x.c10calls)
	x.Each("concurrent", 24000, x.c10conc)
}

func genHandler(r *lib.Rand, id int, calls *[]string) *mhandler {
	h := &mhandler{id: id, svc: lib.PickOf(r, muxSvcs...), calls: calls, handled: true}
	for range r.Weighted(1, 4, 3, 2) {
		h.methods = append(h.methods, lib.PickOf(r, muxMeth...))
	}
	switch r.Weighted(6, 1, 1) {
	case 1:
		h.handled = false
	case 2:
		h.err = errMuxHandler
		h.handled = r.OneIn(2)
	}
	return h
}

func (x *Ctx) c10tree(r *lib.Rand, depth int, calls *[]string, ids *int, all *[]*muxNode) *muxNode {
	n := &muxNode{model: &muxModel{m: map[[2]string]*mhandler{}}}
	var invs []srpc.Invoker
	for range r.Weighted(3, 3, 2, 1) {
		var f *muxNode
		switch {
		case r.OneIn(6):
			f = &muxNode{null: true}
		case depth > 0 && r.OneIn(2):
			f = x.c10tree(r, depth-1, calls, ids, all)
			f.inv = f.real
		default:
			*ids++
			h := genHandler(r, *ids, calls)
			if r.OneIn(2) {
				h.handled, h.err = false, nil
			}
			f = &muxNode{leaf: h, inv: h}
		}
		n.model.fall = append(n.model.fall, f)
		invs = append(invs, f.inv)
	}
	n.real = srpc.NewMux(invs...)
	*all = append(*all, n)
	return n
}

func (n *muxNode) register(h *mhandler) {
	for _, m := range h.methods {
		if m != "" {
			n.model.m[[2]string{h.svc, m}] = h
		}
	}
}

func (n *muxNode) hasService(svc string) bool {
	for k := range n.model.m {
		if k[0] == svc && svc != "" {
			return true
		}
	}
	return false
}

func (x *Ctx) c10seq(idx int, r *lib.Rand) {
	var calls []string
	ids := 0
	var all []*muxNode
	root := x.c10tree(r, 2, &calls, &ids, &all)
	var ops []mop
	sig := uint64(0)
	for range r.Range(5, 30) {
		k := r.Intn(len(all))
		if r.OneIn(2) {
			k = len(all) - 1 // the root
		}
		n := all[k]
		op := mop{Svc: lib.PickOf(r, muxSvcs...), Method: lib.PickOf(r, muxMeth...), Node: k}
		bad := func(key, format string, args ...any) {
			x.Rep.Violate(key, idx, map[string]any{"ops": ops}, format, args...)
		}
		switch r.Weighted(4, 6, 2, 2) {
		case 0:
			ids++
			h := genHandler(r, ids, &calls)
			op = mop{Op: "register", Svc: h.svc, Methods: h.methods, ID: h.id, Node: k}
			ops = append(ops, op)
			err := n.real.Register(h)
			if (err != nil) != (h.svc == "") {
				bad("register", "registering a handler for service %q returned %v", h.svc, err)
				return
			}
			if err == nil {
				n.register(h)
			}
		case 1:
			op.Op = "invoke"
			ops = append(ops, op)
			calls = calls[:0]
			handled, err := n.real.InvokeMethod(op.Svc, op.Method, nil)
			got := mres{append([]string{}, calls...), handled, err}
			want := n.cand(op.Svc, op.Method)
			ok := false
			for _, w := range want {
				ok = ok || w.eq(got)
			}
			if !ok {
				bad("wrong-route", "invoking %q %q did %v; registered and fallbacks allow %v", op.Svc, op.Method, got, want)
				return
			}
			x.Rep.Count("routed:"+fmt.Sprint(len(got.calls) != 0), 1)
		case 2:
			op.Op = "has-service"
			ops = append(ops, op)
			if got, want := n.real.HasService(op.Svc), n.hasService(op.Svc); got != want {
				bad("wrong-query", "HasService(%q) is %v", op.Svc, got)
				return
			}
		case 3:
			op.Op = "has-method"
			ops = append(ops, op)
			_, want := n.model.m[[2]string{op.Svc, op.Method}]
			if got := n.real.HasServiceMethod(op.Svc, op.Method); got != want {
				bad("wrong-query", "HasServiceMethod(%q, %q) is %v", op.Svc, op.Method, got)
				return
			}
		}
		sig = lib.Mix(sig, lib.HashStr(fmt.Sprint(op)))
		x.Rep.Count("op:"+op.Op, 1)
	}
	_ = root
	x.Rep.Eval(sig)
	if idx%500 == 0 {
		x.Rep.Sample(map[string]any{"ops": ops})
	}
}

// c10calls: the routing of real calls.
func (x *Ctx) c10calls(idx int, r *lib.Rand) {
	ids := 0
	var all []*muxNode
	var ops []mop
	root := x.c10tree(r, 1, nil, &ids, &all)
	for range r.Range(1, 6) {
		ids++
		h := genHandler(r, ids, nil)
		ops = append(ops, mop{Op: "register", Svc: h.svc, Methods: h.methods, ID: h.id})
		if root.real.Register(h) == nil {
			root.register(h)
		}
	}
	for _, n := range all {
		for _, h := range n.model.m {
			h.reply = true
		}
		for _, f := range n.model.fall {
			if f.leaf != nil {
				f.leaf.reply = true
			}
		}
	}
	ctx := lib.NewCountCtx()
	defer ctx.Cancel()
	cl := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(root.real)))
	for range 8 {
		op := mop{Op: "call", Svc: muxSvcs[r.Intn(len(muxSvcs)-1)], Method: muxMeth[r.Intn(len(muxMeth)-1)]}
		ops = append(ops, op)
		var err error
		out := srpc.NewRawMessage(nil, true)
		desc := map[string]any{"ops": ops}
		if !x.Do(idx, desc, "a call to a mux", nil, r, func() {
			err = cl.ExecCall(ctx, op.Svc, op.Method, srpc.NewRawMessage([]byte("x"), true), out)
		}) {
			return
		}
		got := "error " + fmt.Sprint(err)
		if err == nil {
			got = string(out.GetData())
		}
		want := ""
		ok := false
		for _, w := range root.cand(op.Svc, op.Method) {
			switch {
			case w.err != nil:
				want = "error " + w.err.Error()
			case !w.handled:
				want = "error " + srpc.ErrUnimplemented.Error()
			default:
				want = w.calls[len(w.calls)-1]
			}
			ok = ok || want == got
		}
		if !ok {
			x.Rep.Violate("wrong-route", idx, desc, "calling %q %q gave %s, expected %s", op.Svc, op.Method, got, want)
			return
		}
		x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(ops))))
	}
}

// hop is an operation of a concurrent history.
type hop struct {
	mop
	Inv, Ret int64
	Res      int `json:"res"` // handler id, or 1/0
	h        *mhandler
}

func (x *Ctx) c10conc(idx int, r *lib.Rand) {
	mx := srpc.NewMux()
	var clock atomic.Int64
	threads := r.Range(2, 4)
	var mtx sync.Mutex
	var hist []*hop
	id := 0
	var plan [][]*hop
	total := 0
	svcs, meths := muxSvcs[:r.Range(1, 2)], muxMeth[:r.Range(1, 3)]
	for range threads {
		var l []*hop
		for range r.Range(1, 5) {
			o := &hop{mop: mop{Svc: lib.PickOf(r, svcs...), Method: lib.PickOf(r, meths...)}}
			switch r.Weighted(4, 4, 1, 2, 1) {
			case 0:
				id++
				o.Op, o.Method, o.ID = "register", "", id
				for range r.Range(1, len(meths)) {
					o.Methods = append(o.Methods, lib.PickOf(r, meths...))
				}
				o.h = &mhandler{id: id, svc: o.Svc, methods: o.Methods, handled: true}
			case 1:
				o.Op = "invoke"
			case 2:
				o.Op = "has-service"
			case 3:
				o.Op = "has-method"
			case 4:
				o.Op, o.Svc = "invoke", ""
			}
			l = append(l, o)
			total++
		}
		plan = append(plan, l)
	}
	// handlers which take long, and ones which use the mux: neither delays or
	// hinders other users of the mux
	var held struct {
		sync.Mutex
		waits, done int // threads which wait in a handler, or are done
		gate        chan struct{}
	}
	held.gate = make(chan struct{})
	arrive := func(wait bool) chan struct{} {
		held.Lock()
		defer held.Unlock()
		g := held.gate
		if wait {
			held.waits++
		} else {
			held.done++
		}
		if held.waits+held.done == threads {
			close(g)
			held.waits, held.gate = 0, make(chan struct{})
		}
		return g
	}
	var nested atomic.Int32
	for _, l := range plan {
		for _, o := range l {
			if o.h == nil {
				continue
			}
			switch r.Weighted(6, 2, 1) {
			case 1:
				var once atomic.Bool
				o.h.during = func() {
					if !once.Swap(true) {
						<-arrive(true)
					}
				}
			case 2:
				o.h.during = func() {
					sub := &mhandler{id: 1000 + o.h.id, svc: fmt.Sprint("during ", o.h.id), methods: []string{"of its own"}, handled: true}
					st := &capStream{}
					if err := mx.Register(sub); err != nil || !mx.HasService(sub.svc) || !mx.HasServiceMethod(sub.svc, "of its own") {
						nested.Add(1)
					} else if done, err := mx.InvokeMethod(sub.svc, "of its own", st); !done || err != nil || int(st.id.Load()) != sub.id {
						nested.Add(1)
					}
				}
			}
		}
	}
	ok := x.Do(idx, plan, "concurrent use of a mux", x.Sched(r), r.Fork(), func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, l := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer arrive(false)
				<-start
				for _, o := range l {
					o.Inv = clock.Add(1)
					switch o.Op {
					case "register":
						_ = mx.Register(o.h)
					case "invoke":
						st := &capStream{}
						done, _ := mx.InvokeMethod(o.Svc, o.Method, st)
						o.Res = int(st.id.Load())
						if done != (o.Res != 0) {
							o.Res = -1
						}
					case "has-service":
						if mx.HasService(o.Svc) {
							o.Res = 1
						}
					case "has-method":
						if mx.HasServiceMethod(o.Svc, o.Method) {
							o.Res = 1
						}
					}
					o.Ret = clock.Add(1)
					mtx.Lock()
					hist = append(hist, o)
					mtx.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	if !ok {
		return
	}
	sort.Slice(hist, func(i, j int) bool { return hist[i].Inv < hist[j].Inv })
	overlaps := 0
	sig := uint64(0)
	for i, o := range hist {
		sig = lib.Mix(sig, lib.HashStr(fmt.Sprint(o.mop)), uint64(o.Res), uint64(o.Inv), uint64(o.Ret))
		for _, p := range hist[i+1:] {
			if p.Inv < o.Ret {
				overlaps++
			}
		}
	}
	if nested.Load() != 0 {
		x.Rep.Violate("use-in-handler", idx, map[string]any{"history": hist}, "a handler registered a service while it was invoked, and the mux does not route to it")
	}
	if !linearizable(hist) {
		x.Rep.Violate("not-linearizable", idx, map[string]any{"history": hist}, "no order of the operations explains the results")
	}
	x.Rep.Eval(sig)
	x.Rep.Hist(sig)
	x.Rep.Count("overlapping-pairs", overlaps)
	x.Rep.Count("history-ops", len(hist))
}

// linearizable searches an order of the operations which explains the results
// (Wing and Gong, with memory).
func linearizable(hist []*hop) bool {
	type state map[[2]string]int
	seen := map[string]bool{}
	var rec func(done uint64, st state) bool
	rec = func(done uint64, st state) bool {
		if done == 1<<len(hist)-1 {
			return true
		}
		key := fmt.Sprint(done, st)
		if seen[key] {
			return false
		}
		seen[key] = true
		minRet := int64(1 << 62)
		for i, o := range hist {
			if done>>i&1 == 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range hist {
			if done>>i&1 != 0 || o.Inv > minRet {
				continue
			}
			next := st
			ok := false
			switch o.Op {
			case "register":
				next = state{}
				for k, v := range st {
					next[k] = v
				}
				for _, m := range o.Methods {
					next[[2]string{o.Svc, m}] = o.ID
				}
				ok = true
			case "invoke":
				if o.Svc != "" {
					ok = st[[2]string{o.Svc, o.Method}] == o.Res
					break
				}
				any := false
				for k, v := range st {
					if k[1] == o.Method {
						any = true
						ok = ok || v == o.Res
					}
				}
				ok = ok || !any && o.Res == 0
			case "has-service":
				for k := range st {
					ok = ok || k[0] == o.Svc
				}
				ok = ok == (o.Res == 1)
			case "has-method":
				_, has := st[[2]string{o.Svc, o.Method}]
				ok = has == (o.Res == 1)
			}
			if ok && rec(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return rec(0, state{})
}
