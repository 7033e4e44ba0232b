package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/sirupsen/logrus"
	"verifharness/lib"
)

func init() { Props["C11"] = c11 }

func quietLog() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(l)
}

// remoteErr is an error of a remote with the given text.
type remoteErr string

func (e remoteErr) Error() string { return string(e) }

var (
	wrapPrefixes = []string{"a", "ab", "a/", "b/", "abc/", "x.y/", "b", "é"}
	wrapSvcs     = []string{"", "a", "ab", "abc", "a/b/c", "b/a/b", "abc/d", "x.y/z", "é/a", "q", "aab/x"}
)

// cleaf is a fake client.
type cleaf struct {
	id   int
	errs []error // result of the calls in turn
	// cancels the context of the caller during call n (1..)
	cancelAt int
	n        int
	w        *wrapCase
	strm     *idStream
}

type idStream struct {
	srpc.Stream
	id int
}

type wrapCase struct {
	log    []string
	ctx    *lib.CountCtx
	in     srpc.Message
	out    srpc.Message
	strm   srpc.Stream
	svc    string
	badArg string
}

func (c *cleaf) call(ctx context.Context, kind, svc, method string, in, out srpc.Message) error {
	w := c.w
	if ctx != context.Context(w.ctx) || in != w.in || out != w.out || method != "meth" {
		w.badArg = fmt.Sprintf("leaf %d: other context, messages or method %q", c.id, method)
	}
	w.log = append(w.log, fmt.Sprintf("%s %d %q", kind, c.id, svc))
	err := c.errs[c.n%len(c.errs)]
	if c.n++; c.n == c.cancelAt {
		w.ctx.Cancel()
	}
	return err
}

func (c *cleaf) ExecCall(ctx context.Context, svc, method string, in, out srpc.Message) error {
	return c.call(ctx, "exec", svc, method, in, out)
}

func (c *cleaf) NewStream(ctx context.Context, svc, method string, first srpc.Message) (srpc.Stream, error) {
	if err := c.call(ctx, "stream", svc, method, first, c.w.out); err != nil {
		return nil, err
	}
	return c.strm, nil
}

// cnode is a tree of clients.
type cnode struct {
	desc string
	real srpc.Client
	// model: returns the leaf and error, logging the calls
	run func(s *cstate, kind, svc string) (leaf int, err error)
}

type cstate struct {
	log       []string
	n         map[int]int
	cancelled bool
}

func c11client(r *lib.Rand, depth int, w *wrapCase, id *int) *cnode {
	k := r.Intn(4)
	if depth == 0 {
		k = 0
	}
	switch k {
	case 1: // prefix
		sub := c11client(r, depth-1, w, id)
		ps := prefixes(r)
		return &cnode{desc: fmt.Sprintf("prefix%q(%s)", ps, sub.desc), real: srpc.NewPrefixClient(sub.real, ps), run: func(s *cstate, kind, svc string) (int, error) {
			svc, ok := stripFirst(svc, ps)
			if !ok {
				return 0, srpc.ErrUnimplemented
			}
			return sub.run(s, kind, svc)
		}}
	case 2: // set
		var subs []*cnode
		var reals []srpc.Client
		var ds []string
		for range r.Weighted(1, 2, 3, 3, 1) {
			if r.OneIn(8) {
				reals = append(reals, nil)
				ds = append(ds, "nil")
				continue
			}
			sub := c11client(r, depth-1, w, id)
			subs = append(subs, sub)
			reals = append(reals, sub.real)
			ds = append(ds, sub.desc)
		}
		return &cnode{desc: "set(" + strings.Join(ds, ", ") + ")", real: srpc.NewClientSet(reals), run: func(s *cstate, kind, svc string) (int, error) {
			if len(subs) == 0 {
				return 0, srpc.ErrNoAvailableClients
			}
			for _, c := range subs {
				leaf, err := c.run(s, kind, svc)
				if err == nil {
					return leaf, nil
				}
				if err == context.Canceled && !s.cancelled || err.Error() == srpc.ErrUnimplemented.Error() {
					continue
				}
				return 0, err
			}
			return 0, srpc.ErrUnimplemented
		}}
	case 3:
		sub := c11client(r, depth-1, w, id)
		return &cnode{desc: "verbose(" + sub.desc + ")", real: srpc.NewVClient(sub.real, quietLog()), run: sub.run}
	}
	*id++
	l := &cleaf{id: *id, w: w, strm: &idStream{id: *id}}
	for range r.Range(1, 3) {
		l.errs = append(l.errs, lib.PickOf[error](r, nil, nil, srpc.ErrUnimplemented, srpc.ErrUnimplemented, remoteErr(srpc.ErrUnimplemented.Error()), remoteErr("backend: "+srpc.ErrUnimplemented.Error()), remoteErr(srpc.ErrUnimplemented.Error()+": x"), context.Canceled, context.Canceled, errors.New("failed"), remoteErr("context canceled"), context.DeadlineExceeded, io.EOF))
	}
	if r.OneIn(6) {
		l.cancelAt = 1
	}
	return &cnode{desc: fmt.Sprintf("leaf%d%v", l.id, l.errs), real: l, run: func(s *cstate, kind, svc string) (int, error) {
		s.log = append(s.log, fmt.Sprintf("%s %d %q", kind, l.id, svc))
		err := l.errs[s.n[l.id]%len(l.errs)]
		if s.n[l.id]++; s.n[l.id] == l.cancelAt {
			s.cancelled = true
		}
		return l.id, err
	}}
}

func prefixes(r *lib.Rand) (ps []string) {
	for range r.Weighted(1, 3, 3, 2) {
		ps = append(ps, lib.PickOf(r, wrapPrefixes...))
	}
	return
}

func stripFirst(svc string, ps []string) (string, bool) {
	if len(ps) == 0 {
		return svc, true
	}
	for _, p := range ps {
		if len(svc) >= len(p) && svc[:len(p)] == p {
			return svc[len(p):], true
		}
	}
	return svc, false
}

func c11(x *Ctx) {
	x.Each("clients", 40000, x.c11clients)
	x.Each("invokers", 40000, x.c11invokers)
	x.Each("wrapped-calls", 1200, x.c11calls)
}

func sameErr(a, b error) bool {
	return a == b || a != nil && b != nil && a.Error() == b.Error()
}

func (x *Ctx) c11clients(idx int, r *lib.Rand) {
	w := &wrapCase{ctx: lib.NewCountCtx(), in: srpc.NewRawMessage([]byte("in"), false), out: srpc.NewRawMessage(nil, false)}
	id := 0
	t := c11client(r, 4, w, &id)
	s := &cstate{n: map[int]int{}}
	desc := map[string]any{"client": t.desc}
	for range r.Range(1, 4) {
		svc := lib.PickOf(r, wrapSvcs...)
		if r.OneIn(2) {
			svc = lib.PickOf(r, wrapPrefixes...) + svc
		}
		kind := lib.PickOf(r, "exec", "stream")
		if r.OneIn(12) {
			w.ctx.Cancel()
			s.cancelled = true
		}
		w.log, s.log = nil, nil
		leaf, want := t.run(s, kind, svc)
		var err error
		var got srpc.Stream
		if kind == "exec" {
			err = t.real.ExecCall(w.ctx, svc, "meth", w.in, w.out)
		} else {
			got, err = t.real.NewStream(w.ctx, svc, "meth", w.in)
		}
		desc["call"] = kind + " " + svc
		if w.badArg != "" {
			x.Rep.Violate("changed-call", idx, desc, "%s", w.badArg)
		}
		if fmt.Sprint(w.log) != fmt.Sprint(s.log) {
			x.Rep.Violate("wrong-route", idx, desc, "%s %q reached %v, expected %v", kind, svc, w.log, s.log)
			return
		}
		if !sameErr(err, want) {
			x.Rep.Violate("wrong-result", idx, desc, "%s %q returned %v, expected %v", kind, svc, err, want)
			return
		}
		if kind == "stream" && err == nil {
			if st, ok := got.(*idStream); !ok || st.id != leaf {
				x.Rep.Violate("wrong-result", idx, desc, "opening %q returned a stream of another client", svc)
				return
			}
		}
		x.Rep.Eval(lib.Mix(lib.HashStr(t.desc), lib.HashStr(svc), lib.HashStr(fmt.Sprint(s.log))))
		x.Rep.Count("leaf-calls", len(s.log))
	}
	if idx%1000 == 0 {
		x.Rep.Sample(desc)
	}
	w.ctx.Cancel()
}

// inode is a tree of invokers.
type inode struct {
	desc string
	real srpc.Invoker
	run  func(s *cstate, svc string) (bool, error)
}

type ileaf struct {
	id  int
	res []mres
	n   int
	w   *wrapCase
}

func (l *ileaf) InvokeMethod(svc, method string, strm srpc.Stream) (bool, error) {
	if strm != l.w.strm || method != "meth" {
		l.w.badArg = fmt.Sprintf("leaf %d: other stream or method %q", l.id, method)
	}
	l.w.log = append(l.w.log, fmt.Sprintf("%d %q", l.id, svc))
	m := l.res[l.n%len(l.res)]
	l.n++
	return m.handled, m.err
}

// hleaf is a handler.
type hleaf struct {
	*ileaf
	svc     string
	methods []string
}

func (h *hleaf) GetServiceID() string   { return h.svc }
func (h *hleaf) GetMethodIDs() []string { return h.methods }

func c11invoker(r *lib.Rand, depth int, w *wrapCase, id *int) *inode {
	k := r.Intn(5)
	if depth == 0 {
		k = 0
	}
	list := func() (subs []*inode, reals []srpc.Invoker, ds string) {
		for range r.Weighted(1, 2, 3, 3, 1) {
			if r.OneIn(8) {
				reals = append(reals, nil)
				ds += " nil"
				continue
			}
			sub := c11invoker(r, depth-1, w, id)
			subs = append(subs, sub)
			reals = append(reals, sub.real)
			ds += " " + sub.desc
		}
		return
	}
	runList := func(subs []*inode, s *cstate, svc string) (bool, error) {
		for _, c := range subs {
			if h, err := c.run(s, svc); h || err != nil {
				return h, err
			}
		}
		return false, nil
	}
	leaf := func() *ileaf {
		*id++
		l := &ileaf{id: *id, w: w}
		for range r.Range(1, 3) {
			l.res = append(l.res, lib.PickOf(r, mres{}, mres{}, mres{handled: true}, mres{handled: true, err: errMuxHandler}, mres{err: errMuxHandler}))
		}
		return l
	}
	runLeaf := func(l *ileaf, s *cstate, svc string) (bool, error) {
		s.log = append(s.log, fmt.Sprintf("%d %q", l.id, svc))
		m := l.res[s.n[l.id]%len(l.res)]
		s.n[l.id]++
		return m.handled, m.err
	}
	switch k {
	case 1:
		sub := c11invoker(r, depth-1, w, id)
		ps := prefixes(r)
		return &inode{desc: fmt.Sprintf("prefix%q(%s)", ps, sub.desc), real: srpc.NewPrefixInvoker(sub.real, ps), run: func(s *cstate, svc string) (bool, error) {
			svc, ok := stripFirst(svc, ps)
			if !ok {
				return false, nil
			}
			return sub.run(s, svc)
		}}
	case 2:
		subs, reals, ds := list()
		return &inode{desc: "list(" + ds + ")", real: srpc.InvokerSlice(reals), run: func(s *cstate, svc string) (bool, error) { return runList(subs, s, svc) }}
	case 3:
		if r.OneIn(6) {
			return &inode{desc: "nilfunc", real: srpc.InvokerFunc(nil), run: func(*cstate, string) (bool, error) { return false, nil }}
		}
		sub := c11invoker(r, depth-1, w, id)
		return &inode{desc: "func(" + sub.desc + ")", real: srpc.InvokerFunc(sub.real.InvokeMethod), run: sub.run}
	case 4: // a mux, maybe verbose
		subs, reals, ds := list()
		var mx srpc.Mux = srpc.NewMux(reals...)
		name := "mux"
		if r.OneIn(2) {
			name = "vmux"
			mx = srpc.NewVMux(mx, quietLog(), r.OneIn(2))
		}
		regs := map[string]*ileaf{}
		for range r.Intn(3) {
			h := &hleaf{ileaf: leaf(), svc: lib.PickOf(r, wrapSvcs...), methods: []string{"meth"}}
			err := mx.Register(h)
			if (err != nil) != (h.svc == "") {
				w.badArg = fmt.Sprintf("%s: registering %q returned %v", name, h.svc, err)
			}
			if h.svc != "" {
				regs[h.svc] = h.ileaf
			}
			ds += fmt.Sprintf(" %d:%q", h.id, h.svc)
		}
		for _, s := range wrapSvcs {
			if mx.HasService(s) != (regs[s] != nil) || mx.HasServiceMethod(s, "meth") != (regs[s] != nil) || mx.HasServiceMethod(s, "other") {
				w.badArg = fmt.Sprintf("%s: wrong answer about %q", name, s)
			}
		}
		return &inode{desc: name + "(" + ds + ")", real: mx, run: func(s *cstate, svc string) (bool, error) {
			l := regs[svc]
			if svc == "" && len(regs) != 0 {
				s.log = append(s.log, "any")
				return false, nil
			}
			if l != nil {
				return runLeaf(l, s, svc)
			}
			return runList(subs, s, svc)
		}}
	}
	l := leaf()
	return &inode{desc: fmt.Sprintf("leaf%d%v", l.id, l.res), real: l, run: func(s *cstate, svc string) (bool, error) { return runLeaf(l, s, svc) }}
}

func (x *Ctx) c11invokers(idx int, r *lib.Rand) {
	w := &wrapCase{strm: &idStream{id: 1}}
	id := 0
	t := c11invoker(r, 4, w, &id)
	s := &cstate{n: map[int]int{}}
	desc := map[string]any{"invoker": t.desc}
	if w.badArg != "" {
		x.Rep.Violate("wrong-query", idx, desc, "%s", w.badArg)
	}
	for range r.Range(1, 4) {
		svc := lib.PickOf(r, wrapSvcs...)
		if r.OneIn(2) {
			svc = lib.PickOf(r, wrapPrefixes...) + svc
		}
		w.log, s.log = nil, nil
		wh, werr := t.run(s, svc)
		for _, l := range s.log {
			if l == "any" { // some handler: see C10
				return
			}
		}
		h, err := t.real.InvokeMethod(svc, "meth", w.strm)
		desc["service"] = svc
		if w.badArg != "" {
			x.Rep.Violate("changed-call", idx, desc, "%s", w.badArg)
		}
		if fmt.Sprint(w.log) != fmt.Sprint(s.log) {
			x.Rep.Violate("wrong-route", idx, desc, "%q reached %v, expected %v", svc, w.log, s.log)
			return
		}
		if err != werr || err == nil && h != wh {
			x.Rep.Violate("wrong-result", idx, desc, "%q returned %v, %v, expected %v, %v", svc, h, err, wh, werr)
			return
		}
		x.Rep.Eval(lib.Mix(lib.HashStr(t.desc), lib.HashStr(svc), lib.HashStr(fmt.Sprint(s.log))))
		x.Rep.Count("leaf-calls", len(s.log))
	}
	if idx%1000 == 0 {
		x.Rep.Sample(desc)
	}
}

// c11calls: real calls through wrappers on both sides.
func (x *Ctx) c11calls(idx int, r *lib.Rand) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	cs := x.CallCase(r, []string{"wrapped-pipe", "wrapped-sim", "wrapped-yamux"}, lib.GenOpts{Mix: mix, MaxMsgs: 5}, r.Weighted(0, 5, 2, 1))
	x.record(cs, x.RunCalls(idx, cs, nil))
}
