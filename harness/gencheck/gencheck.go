// Package gencheck judges calls made through generated stubs. The driver
// generated for each schema registers its services with Add, as the schema
// declares them.
package gencheck

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// Kinds of methods.
const (
	Unary = iota
	ClientStream
	ServerStream
	Bidi
)

// Method is a method of the schema.
type Method struct {
	Name    string
	Kind    int
	In, Out func(r *lib.Rand) []byte
	// Call makes the call of the run through a client of the stubs.
	Call func(c any, r *Run)
}

// Service is a service of the schema with its stubs.
type Service struct {
	ID          string
	DefaultID   string
	Methods     []*Method
	NewClient   func(cc srpc.Client) any
	NewClientID func(cc srpc.Client, id string) any
	ClientOf    func(c any) srpc.Client
	NewHandler  func(h *Impl, id string) srpc.Handler
	Register    func(mux srpc.Mux, h *Impl) error
}

// Schema is a set of services generated together.
type Schema struct {
	Name     string
	Services []*Service
}

var schemas []*Schema

// Add adds a schema.
func Add(s *Schema) { schemas = append(schemas, s) }

// Impl is a registered implementation.
type Impl struct{ Name string }

// Run is one call.
type Run struct {
	Ctx       context.Context
	Want      string // implementation and method which must run
	Kind      int
	Req, Resp [][]byte
	Err       string
	Flags     int // variants of the calls of the stubs

	entered        []string
	srvGot, cliGot [][]byte
	srvErr, cliErr error
	problems       []string
}

const (
	fRecvTo       = 1 << iota // receive with RecvTo
	fSendAndClose             // end with SendAndClose(last)
	fSendAndCloseNil
	fLockstep
	fSplitClose   // CloseSend and MsgRecv instead of CloseAndRecv
	fExpectEnd    // the server checks that nothing more comes
	fMsgSend      // send with MsgSend
	fCloseMsgRecv // CloseAndMsgRecv, if there
	flagBits      = 8
)

func (r *Run) bad(f string, a ...any) { r.problems = append(r.problems, fmt.Sprintf(f, a...)) }

var cur *Run

func msg(p any) srpc.Message { return p.(srpc.Message) }

// Mk makes a message of its wire form.
func Mk[T any](w []byte) *T {
	m := new(T)
	if err := msg(m).UnmarshalVT(bytes.Clone(w)); err != nil {
		panic(err)
	}
	return m
}

func wire(p any) []byte {
	b, err := msg(p).MarshalVT()
	if err != nil {
		panic(err)
	}
	return b
}

func (h *Impl) enter(svc, m string, ctx context.Context) *Run {
	r := cur
	r.entered = append(r.entered, h.Name+" "+svc+"/"+m)
	if ctx == nil {
		r.bad("the handler got no context")
	} else if ctx.Err() != nil {
		r.bad("the handler started with an ended context: %v", ctx.Err())
	}
	return r
}

func (r *Run) srvFail() error {
	if r.Err != "" {
		return errors.New(r.Err)
	}
	return nil
}

// SrvUnary implements a unary method.
func SrvUnary[O any](h *Impl, svc, m string, ctx context.Context, in any) (*O, error) {
	r := h.enter(svc, m, ctx)
	r.srvGot = append(r.srvGot, wire(in))
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return Mk[O](r.Resp[0]), nil
}

type srvSend[O any] interface {
	srpc.Stream
	Send(*O) error
	SendAndClose(*O) error
}

type recver[I any] interface {
	srpc.Stream
	Recv() (*I, error)
	RecvTo(*I) error
}

func recv[I any](r *Run, i int, st recver[I]) (*I, error) {
	if r.Flags&fRecvTo != 0 && i%2 == 0 {
		m := new(I)
		return m, st.RecvTo(m)
	}
	return st.Recv()
}

func sendAll[O any](r *Run, st srvSend[O], from int) error {
	for i := from; i < len(r.Resp); i++ {
		m := Mk[O](r.Resp[i])
		var err error
		switch {
		case r.Flags&fSendAndClose != 0 && r.Err == "" && i == len(r.Resp)-1:
			err = st.SendAndClose(m)
		case r.Flags&fMsgSend != 0:
			err = st.MsgSend(msg(m))
		default:
			err = st.Send(m)
		}
		if err != nil {
			r.bad("the server's send %d failed: %v", i, err)
			return err
		}
	}
	if r.Flags&(fSendAndClose|fSendAndCloseNil) == fSendAndCloseNil && r.Err == "" {
		if err := st.SendAndClose(nil); err != nil {
			r.bad("SendAndClose(nil) failed: %v", err)
			return err
		}
	}
	return r.srvFail()
}

// SrvStream implements a server streaming method.
func SrvStream[O any, S srvSend[O]](h *Impl, svc, m string, in any, st S) error {
	r := h.enter(svc, m, st.Context())
	r.srvGot = append(r.srvGot, wire(in))
	if r.Flags&fExpectEnd != 0 {
		if err := st.MsgRecv(srpc.NewRawMessage(nil, true)); err != io.EOF {
			r.bad("after the request the handler received %v instead of io.EOF", err)
		}
	}
	return sendAll[O](r, st, 0)
}

// SrvCollect implements a client streaming method.
func SrvCollect[I, O any, S recver[I]](h *Impl, svc, m string, st S) (*O, error) {
	r := h.enter(svc, m, st.Context())
	for i := 0; ; i++ {
		in, err := recv[I](r, i, st)
		if err != nil {
			r.srvErr = err
			break
		}
		r.srvGot = append(r.srvGot, wire(in))
	}
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return Mk[O](r.Resp[0]), nil
}

// SrvBidi implements a bidirectional streaming method.
func SrvBidi[I, O any, S interface {
	srvSend[O]
	recver[I]
}](h *Impl, svc, m string, st S) error {
	r := h.enter(svc, m, st.Context())
	n := 0
	for i := 0; ; i++ {
		in, err := recv[I](r, i, st)
		if err != nil {
			r.srvErr = err
			break
		}
		r.srvGot = append(r.srvGot, wire(in))
		if r.Flags&fLockstep != 0 && n < len(r.Resp)-1 {
			if err := st.Send(Mk[O](r.Resp[n])); err != nil {
				r.bad("the server's send %d failed: %v", n, err)
				return err
			}
			n++
		}
	}
	return sendAll[O](r, st, n)
}

// CliUnary takes the result of a unary call.
func CliUnary[O any](r *Run, out *O, err error) {
	r.cliErr = err
	if err == nil {
		if out == nil {
			r.bad("no response and no error")
			return
		}
		r.cliGot = append(r.cliGot, wire(out))
	} else if out != nil {
		r.bad("a response and an error")
	}
}

func (r *Run) opened(st srpc.Stream, err error) bool {
	if err != nil {
		r.bad("the call could not be started: %v", err)
		return false
	}
	if st.Context() == nil {
		r.bad("the stream has no context")
	}
	return true
}

func cliRecv[O any](r *Run, st recver[O]) {
	for i := 0; ; i++ {
		out, err := recv[O](r, i, st)
		if err != nil {
			r.cliErr = err
			return
		}
		r.cliGot = append(r.cliGot, wire(out))
	}
}

// CliStream receives the messages of a server streaming call.
func CliStream[O any, S recver[O]](r *Run, st S, err error) {
	if r.opened(st, err) {
		cliRecv[O](r, st)
		_ = st.Close()
	}
}

// CliCollect makes a client streaming call.
func CliCollect[I, O any, S interface {
	srpc.Stream
	Send(*I) error
	CloseAndRecv() (*O, error)
}](r *Run, st S, err error) {
	if !r.opened(st, err) {
		return
	}
	for i, w := range r.Req {
		var err error
		if r.Flags&fMsgSend != 0 {
			err = st.MsgSend(msg(Mk[I](w)))
		} else {
			err = st.Send(Mk[I](w))
		}
		if err != nil {
			r.bad("the client's send %d failed: %v", i, err)
		}
	}
	cm, hasCM := any(st).(interface{ CloseAndMsgRecv(*O) error })
	if r.Flags&fCloseMsgRecv != 0 && hasCM {
		out := new(O)
		err := cm.CloseAndMsgRecv(out)
		if err != nil {
			out = nil
		}
		CliUnary(r, out, err)
	} else if r.Flags&fSplitClose != 0 {
		if err := st.CloseSend(); err != nil {
			r.bad("CloseSend: %v", err)
		}
		out := new(O)
		err := st.MsgRecv(msg(out))
		if err != nil {
			out = nil
		}
		CliUnary(r, out, err)
	} else {
		out, err := st.CloseAndRecv()
		CliUnary(r, out, err)
	}
	_ = st.Close()
}

// CliBidi makes a bidirectional streaming call.
func CliBidi[I, O any, S interface {
	recver[O]
	Send(*I) error
}](r *Run, st S, err error) {
	if !r.opened(st, err) {
		return
	}
	for i, w := range r.Req {
		if err := st.Send(Mk[I](w)); err != nil {
			r.bad("the client's send %d failed: %v", i, err)
		}
		if r.Flags&fLockstep != 0 && i < len(r.Resp)-1 {
			out, err := recv[O](r, i, st)
			if err != nil {
				r.bad("the client received %v instead of message %d", err, i)
				break
			}
			r.cliGot = append(r.cliGot, wire(out))
		}
	}
	if err := st.CloseSend(); err != nil {
		r.bad("CloseSend: %v", err)
	}
	cliRecv[O](r, st)
	_ = st.Close()
}

func same(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }

// check judges a finished call.
func (r *Run) check() []string {
	if want := []string{r.Want}; !slices.Equal(r.entered, want) {
		r.bad("ran %q instead of %q", r.entered, want)
	}
	if !same(r.srvGot, r.Req) {
		r.bad("the handler received %x instead of %x", r.srvGot, r.Req)
	}
	if (r.Kind == ClientStream || r.Kind == Bidi) && r.srvErr != io.EOF {
		r.bad("the handler's messages ended with %v instead of io.EOF", r.srvErr)
	}
	resp := r.Resp
	if r.Err != "" && (r.Kind == Unary || r.Kind == ClientStream) {
		resp = nil
	}
	if !same(r.cliGot, resp) {
		r.bad("the client received %x instead of %x", r.cliGot, resp)
	}
	switch {
	case r.Err != "":
		if r.cliErr == nil || r.cliErr.Error() != r.Err {
			r.bad("the client got the error %v instead of %q", r.cliErr, r.Err)
		}
	case r.Kind == Unary || r.Kind == ClientStream:
		if r.cliErr != nil {
			r.bad("the client got the error %v", r.cliErr)
		}
	default:
		if r.cliErr != io.EOF {
			r.bad("the client's messages ended with %v instead of io.EOF", r.cliErr)
		}
	}
	return r.problems
}

type report struct {
	Evaluations int            `json:"evaluations"`
	Sigs        []string       `json:"sigs"`
	Counters    map[string]int `json:"counters"`
	Samples     []any          `json:"samples"`
	Violations  []any          `json:"violations"`
}

var kindNames = []string{"unary", "client-stream", "server-stream", "bidi"}

// Main runs all schemas.
func Main() {
	seed := flag.Uint64("seed", 1, "seed")
	per := flag.Int("per", 6, "calls per method and registration")
	out := flag.String("out", "", "report file")
	flag.Parse()
	rep := &report{Counters: map[string]int{}}
	var progress atomic.Int64
	go func() {
		for last, n := int64(-1), 0; ; n++ {
			time.Sleep(5 * time.Second)
			if p := progress.Load(); p != last {
				last, n = p, 0
			} else if n == 6 {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "\nfatal error: the call does not end\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	sigs := map[string]bool{}
	fail := func(s *Schema, desc any, msgs ...string) {
		if len(rep.Violations) < 20 {
			rep.Violations = append(rep.Violations, map[string]any{"key": "stubs", "index": -1,
				"msg": s.Name + ": " + strings.Join(msgs, "; ") + fmt.Sprintf(" (%+v)", desc)})
		}
	}
	for si, s := range schemas {
		rep.Counters["schemas"]++
		r := lib.NewRand(*seed, uint64(si), lib.HashStr(s.Name))
		mux := srpc.NewMux()
		client := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		type target struct {
			svc    *Service
			client any
			impl   string
			how    string
		}
		var targets []target
		have := map[string]bool{} // service id / method id
		for i, svc := range s.Services {
			rep.Counters["services"]++
			if svc.DefaultID != svc.ID {
				fail(s, svc.ID, "the default service id is "+svc.DefaultID)
			}
			ids := map[string]string{}
			reg := func(id string, viaHelper bool) {
				im := &Impl{Name: fmt.Sprintf("impl-%d-%s", i, id)}
				var err error
				if viaHelper {
					err = svc.Register(mux, im)
				} else {
					h := svc.NewHandler(im, id)
					want := id
					if want == "" {
						want = svc.ID
					}
					if h.GetServiceID() != want {
						fail(s, svc.ID, fmt.Sprintf("handler for id %q has the id %q", id, h.GetServiceID()))
					}
					var names []string
					for _, m := range svc.Methods {
						names = append(names, m.Name)
					}
					got := slices.Clone(h.GetMethodIDs())
					slices.Sort(got)
					slices.Sort(names)
					if !slices.Equal(got, names) {
						fail(s, svc.ID, fmt.Sprintf("methods %q instead of %q", got, names))
					}
					err = mux.Register(h)
					// a handler does not answer for others
					cur = &Run{Ctx: context.Background()}
					for _, q := range [][2]string{{svc.ID, firstName(svc)}, {s.Services[0].ID, firstName(svc)}, {"alt/" + svc.ID, firstName(svc)}, {strings.ToLower(want), firstName(svc)}, {svc.ID + "x", "M"}, {"other", firstName(svc)}, {want + ".", firstName(svc)}, {want, "no-such-method"}, {"", "no-such-method"}, {want, ""}, {want, firstName(svc) + "_"}} {
						if slices.Contains(names, q[1]) && (q[0] == "" || q[0] == want) {
							continue
						}
						if ok, err := h.InvokeMethod(q[0], q[1], nil); ok || err != nil {
							fail(s, svc.ID, fmt.Sprintf("handler of %q handled %q: %v, %v", want, q, ok, err))
						}
						rep.Counters["handler-refusals"]++
					}
					if len(cur.entered) != 0 {
						fail(s, svc.ID, fmt.Sprintf("handler of %q ran %q for an unknown method", want, cur.entered))
					}
				}
				if err != nil {
					fail(s, svc.ID, "register: "+err.Error())
				}
				if id == "" {
					id = svc.ID
				}
				ids[id] = im.Name
				for _, m := range svc.Methods {
					have[id+"/"+m.Name] = true
					if !mux.HasServiceMethod(id, m.Name) {
						fail(s, svc.ID, fmt.Sprintf("the mux has no %q %q", id, m.Name))
					}
				}
			}
			switch r.Intn(4) {
			case 0:
				reg("", true)
			case 1:
				reg("", false)
			case 2:
				reg(svc.ID, false)
			case 3: // not under its default id
			}
			for range r.Intn(3) {
				id := []string{"alt/" + svc.ID, svc.ID + "2", "x", fmt.Sprintf("svc-%d", i), "a b"}[r.Intn(5)] + fmt.Sprint(i)
				if ids[id] == "" {
					reg(id, false)
				}
			}
			for _, id := range sortedKeys(ids) {
				if id == svc.ID {
					targets = append(targets, target{svc, svc.NewClient(client), ids[id], "default id"})
					targets = append(targets, target{svc, svc.NewClientID(client, ""), ids[id], "empty id"})
				}
				targets = append(targets, target{svc, svc.NewClientID(client, id), ids[id], "id " + id})
			}
			if len(ids) == 0 {
				targets = append(targets, target{svc, svc.NewClient(client), "", "not registered"})
			}
			targets = append(targets, target{svc, svc.NewClientID(client, fmt.Sprintf("none-%d", i)), "", "unknown id"})
		}
		for _, t := range targets {
			if cc := t.svc.ClientOf(t.client); cc != client {
				fail(s, t.svc.ID, "SRPCClient returns another client")
			}
			for _, m := range t.svc.Methods {
				n := *per
				if t.impl == "" {
					n = 1
				}
				for k := range n {
					run := &Run{Ctx: context.Background(), Want: t.impl + " " + t.svc.ID + "/" + m.Name, Kind: m.Kind, Flags: r.Intn(1 << flagBits)}
					nq, np := 1, 1
					if m.Kind&ClientStream != 0 {
						nq = r.Intn(5)
					}
					if m.Kind&ServerStream != 0 {
						np = r.Intn(5)
					}
					for range nq {
						run.Req = append(run.Req, m.In(r))
					}
					for range np {
						run.Resp = append(run.Resp, m.Out(r))
					}
					if run.Flags&fLockstep != 0 && np < nq {
						run.Flags &^= fLockstep
					}
					if np == 0 {
						run.Flags &^= fSendAndClose
					}
					if r.OneIn(4) {
						run.Err = lib.PickOf(r, "failed", "x: y: z", "no such file", "error \u00e9\n2", strings.Repeat("long ", 300))
					}
					desc := fmt.Sprintf("%s/%s %s, %s, requests %d, responses %d, error %.20q, flags %x", t.svc.ID, m.Name, kindNames[m.Kind], t.how, nq, np, run.Err, run.Flags)
					cur = run
					fmt.Fprintln(os.Stderr, "CALL", s.Name, desc)
					progress.Add(1)
					m.Call(t.client, run)
					var problems []string
					if t.impl == "" {
						// nobody handles it
						if len(run.entered) != 0 {
							problems = append(problems, fmt.Sprintf("ran %q", run.entered))
						}
						if run.cliErr == nil || run.cliErr.Error() != srpc.ErrUnimplemented.Error() {
							if !slices.ContainsFunc(run.problems, func(p string) bool { return strings.Contains(p, srpc.ErrUnimplemented.Error()) }) {
								problems = append(problems, fmt.Sprintf("a call to an unregistered service got %v", run.cliErr))
							}
						}
						rep.Counters["unregistered-calls"]++
					} else {
						problems = run.check()
						rep.Counters["calls:"+kindNames[m.Kind]]++
						rep.Counters["messages"] += len(run.srvGot) + len(run.cliGot)
					}
					if len(problems) != 0 {
						fail(s, desc, problems...)
					}
					rep.Evaluations++
					sigs[fmt.Sprintf("%x", lib.HashStr(fmt.Sprint(s.Name, desc, run.Req, run.Resp)))] = true
					if k == 0 && len(rep.Samples) < 3 {
						rep.Samples = append(rep.Samples, s.Name+": "+desc)
					}
				}
			}
		}
		// names which are near to those of methods
		for _, svc := range s.Services {
			for _, m := range svc.Methods {
				for _, q := range []string{strings.ToLower(m.Name), strings.ToUpper(m.Name), strings.Title(m.Name), camel(m.Name), m.Name + "2", m.Name + "_", strings.ReplaceAll(m.Name, "_", ""), "/" + svc.ID + "/" + m.Name} { //nolint
					if q == "" || have[svc.ID+"/"+q] {
						continue
					}
					cur = &Run{Ctx: context.Background()}
					err := client.ExecCall(cur.Ctx, svc.ID, q, srpc.NewRawMessage(nil, true), srpc.NewRawMessage(nil, true))
					if err == nil || err.Error() != srpc.ErrUnimplemented.Error() || len(cur.entered) != 0 {
						fail(s, svc.ID, fmt.Sprintf("method %q (near %q) ran %q and returned %v", q, m.Name, cur.entered, err))
					}
					rep.Counters["near-names"]++
				}
			}
		}
	}
	for k := range sigs {
		rep.Sigs = append(rep.Sigs, k)
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}

func firstName(s *Service) string {
	if len(s.Methods) == 0 {
		return "None"
	}
	return s.Methods[0].Name
}

func sortedKeys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return
}

func camel(s string) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			b.WriteString(strings.ToUpper(p[:1]) + p[1:])
		}
	}
	return b.String()
}

// Wires of message types.

func tag(b []byte, n, t int) []byte { return append(b, byte(n<<3|t)) }

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func field(b []byte, n int, data []byte) []byte {
	b = varint(tag(b, n, 2), uint64(len(data)))
	return append(b, data...)
}

func text(r *lib.Rand) []byte {
	n := r.Weighted(2, 4, 1)
	l := []int{0, r.Range(1, 12), r.Range(100, 2000)}[n]
	b := make([]byte, l)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return b
}

// Empty is the wire form of an empty message.
func Empty(*lib.Rand) []byte { return nil }

// Str is the wire form of a message with a string as field 1.
func Str(r *lib.Rand) []byte {
	t := text(r)
	if len(t) == 0 {
		return nil
	}
	return field(nil, 1, t)
}

// Rich is the wire form of a message with a string, bytes, a varint and
// repeated strings as fields 1 to 4.
func Rich(r *lib.Rand) []byte {
	b := Str(r)
	if r.OneIn(2) {
		b = field(b, 2, []byte{0, byte(r.Intn(256)), 0xff})
	}
	if r.OneIn(2) {
		b = varint(tag(b, 3, 0), 1+r.Uint64()>>uint(r.Intn(60)+2))
	}
	for range r.Intn(3) {
		b = field(b, 4, text(r))
	}
	return b
}

// Stamp is the wire form of a timestamp.
func Stamp(r *lib.Rand) []byte {
	b := varint(tag(nil, 1, 0), 1+uint64(r.Intn(1<<30)))
	if r.OneIn(2) {
		b = varint(tag(b, 2, 0), 1+uint64(r.Intn(999999999)))
	}
	return b
}

// Packet is the wire form of a message with bytes as field 3.
func Packet(r *lib.Rand) []byte { return field(nil, 3, text(r)) }
