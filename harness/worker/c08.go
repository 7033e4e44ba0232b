package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C08"] = c08 }

// wmsg is a message type with its independent codec.
type wmsg interface {
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	UnmarshalVT([]byte) error
	SizeVT() int
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

// codec is the view of one message type.
type codec struct {
	name string
	// fresh makes an empty message.
	fresh func() wmsg
	// build makes a message from the oracle value.
	build func(v any) wmsg
	// read reads a message.
	read func(m wmsg) any
	// decode is the oracle.
	decode func(b []byte) (any, error)
	// equal compares oracle values.
	equal func(a, b any) bool
	// equalVT and cloneVT are of the library.
	equalVT func(a, b wmsg) bool
	cloneVT func(a wmsg) wmsg
	// poison overwrites the buffers of the message.
	poison func(a wmsg)
	// gen makes a random value.
	gen func(r *lib.Rand) any
	// encode makes a random valid encoding.
	encode func(r *lib.Rand, v any) []byte
	// json is the expected JSON form.
	json func(v any) map[string]any
	show func(v any) string
}

func (c *codec) String() string { return c.name }

var strs = []string{"", "a", "srpc", "echo.Echoer", "Echo", "é", "日本語", "\x00", "a\"b\\c\n<>&\u2028", "😀/x", " ", "\u007f\u0080"}

func genStr(r *lib.Rand) string {
	switch r.Weighted(6, 3, 1) {
	case 0:
		return strs[r.Intn(len(strs))]
	case 1:
		return strings.Repeat(strs[r.Intn(len(strs))], r.Range(1, 30))
	}
	return strings.Repeat("x", lib.PickOf(r, 126, 127, 128, 129, 16382, 16383, 16384, 300))
}

func genData(r *lib.Rand) []byte {
	switch r.Weighted(3, 5, 2, 1) {
	case 0:
		return nil
	case 1:
		return r.Bytes(r.Range(1, 20))
	case 2:
		return r.Bytes(lib.PickOf(r, 100, 125, 126, 127, 128, 129, 130, 255, 256))
	}
	return r.Bytes(lib.PickOf(r, 16370, 16383, 16384, 16385, 70000, 2097151, 2097152))
}

// vint is a random encoding of v.
func vint(r *lib.Rand, v uint64) []byte {
	b := binary.AppendUvarint(nil, v)
	if !r.OneIn(4) {
		return b
	}
	for n := r.Range(1, 10); len(b) < n; {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func vtag(r *lib.Rand, num, typ int) []byte { return vint(r, uint64(num)<<3|uint64(typ)) }

func vlen(r *lib.Rand, num int, d []byte) []byte {
	return append(append(vtag(r, num, 2), vint(r, uint64(len(d)))...), d...)
}

func vbool(r *lib.Rand, num int, v bool) []byte {
	var x uint64
	if v {
		x = lib.PickOf(r, uint64(1), 1, 1, 2, 0x80, 256, 1<<31, 1<<32, 1<<62, 1<<63, 1<<64-1)
	}
	return append(vtag(r, num, 0), vint(r, x)...)
}

// vunknown is an unknown field with a number from min.
func vunknown(r *lib.Rand, min int) []byte {
	num := lib.PickOf(r, min, min+1, 15, 16, 100, 2047, 2048, 1<<29-1)
	if num < min {
		num = min
	}
	switch r.Intn(5) {
	case 0:
		return append(vtag(r, num, 0), vint(r, r.Uint64())...)
	case 1:
		return append(vtag(r, num, 1), r.Bytes(8)...)
	case 2:
		return vlen(r, num, r.Bytes(r.Intn(20)))
	case 3:
		return append(vtag(r, num, 5), r.Bytes(4)...)
	}
	// a group
	g := vtag(r, num, 3)
	for range r.Intn(3) {
		g = append(g, vunknown(r, 1)...)
	}
	return append(g, vtag(r, num, 4)...)
}

type wfield struct {
	num int
	b   []byte
}

// vfields encodes the fields: shuffled, with overwritten earlier values and
// unknown fields. alt makes another value of a field.
func vfields(r *lib.Rand, fs []wfield, min int, alt func(num int) []byte, nums []int) []byte {
	l := append([]wfield{}, fs...)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	// overwritten values, before the last one
	for range r.Weighted(5, 2, 1) {
		if len(l) == 0 || alt == nil {
			break
		}
		at := r.Intn(len(l))
		num := l[at].num
		pos := r.Intn(at + 1)
		// before all of this number
		for i := range pos {
			if l[i].num == num {
				pos = i
				break
			}
		}
		l = append(l[:pos], append([]wfield{{num, alt(num)}}, l[pos:]...)...)
	}
	for range r.Weighted(5, 2, 1) {
		pos := r.Intn(len(l) + 1)
		l = append(l[:pos], append([]wfield{{0, vunknown(r, min)}}, l[pos:]...)...)
	}
	var out []byte
	for _, f := range l {
		out = append(out, f.b...)
	}
	return out
}

func encStart(r *lib.Rand, p *lib.WPacket) []byte {
	var fs []wfield
	str := func(n int, s string) {
		if s != "" || r.OneIn(4) {
			fs = append(fs, wfield{n, vlen(r, n, []byte(s))})
		}
	}
	str(1, p.Service)
	str(2, p.Method)
	str(3, string(p.Data))
	if p.DataIsZero || r.OneIn(4) {
		fs = append(fs, wfield{4, vbool(r, 4, p.DataIsZero)})
	}
	return vfields(r, fs, 5, func(num int) []byte {
		if num == 4 {
			return vbool(r, 4, r.OneIn(2))
		}
		return vlen(r, num, []byte(genStr(r)))
	}, nil)
}

func encData(r *lib.Rand, p *lib.WPacket) []byte {
	var fs []wfield
	if len(p.Data) != 0 || r.OneIn(4) {
		fs = append(fs, wfield{1, vlen(r, 1, p.Data)})
	}
	if p.DataIsZero || r.OneIn(4) {
		fs = append(fs, wfield{2, vbool(r, 2, p.DataIsZero)})
	}
	if p.Complete || r.OneIn(4) {
		fs = append(fs, wfield{3, vbool(r, 3, p.Complete)})
	}
	if p.Error != "" || r.OneIn(4) {
		fs = append(fs, wfield{4, vlen(r, 4, []byte(p.Error))})
	}
	return vfields(r, fs, 5, func(num int) []byte {
		if num == 2 || num == 3 {
			return vbool(r, num, r.OneIn(2))
		}
		return vlen(r, num, []byte(genStr(r)))
	}, nil)
}

func genW(kind int) func(r *lib.Rand) any {
	return func(r *lib.Rand) any {
		p := &lib.WPacket{Kind: kind}
		if kind < 0 {
			p.Kind = r.Weighted(1, 6, 6, 2)
		}
		switch p.Kind {
		case lib.WStart:
			p.Service, p.Method, p.Data, p.DataIsZero = genStr(r), genStr(r), genData(r), r.OneIn(3)
		case lib.WData:
			p.Data, p.DataIsZero, p.Complete = genData(r), r.OneIn(3), r.OneIn(3)
			if r.OneIn(2) {
				p.Error = genStr(r)
			}
		case lib.WCancel:
			p.Cancel = r.OneIn(2)
		}
		return p
	}
}

// encPacket encodes with earlier bodies which are replaced and with the body
// split into parts which merge.
func encPacket(r *lib.Rand, v any) []byte {
	p := v.(*lib.WPacket)
	var parts [][]byte
	body := func(p *lib.WPacket) []byte {
		switch p.Kind {
		case lib.WStart:
			return vlen(r, 1, encStart(r, p))
		case lib.WData:
			return vlen(r, 2, encData(r, p))
		case lib.WCancel:
			return vbool(r, 3, p.Cancel)
		}
		return nil
	}
	if r.OneIn(4) && p.Kind != lib.WNone { // another body first
		q := genW(-1)(r).(*lib.WPacket)
		if q.Kind != lib.WNone && q.Kind != p.Kind {
			parts = append(parts, body(q))
		}
	}
	if (p.Kind == lib.WStart || p.Kind == lib.WData) && r.OneIn(4) {
		// the fields in two parts
		a, b := *p, *p
		if r.OneIn(2) {
			a.Data = nil
		} else {
			b.Data = nil
		}
		if p.Service != "" {
			b.Service = ""
		}
		if p.Error != "" {
			a.Error = ""
		}
		strict := lib.NewRand(r.Uint64())
		// without explicit defaults: they would overwrite
		enc := func(q *lib.WPacket) []byte {
			c := q.Encode()
			fs, err := lib.ParseFields(c)
			if err != nil || len(fs) != 1 {
				panic("oracle")
			}
			var l []wfield
			sub, _ := lib.ParseFields(fs[0].B)
			for _, f := range sub {
				if f.Type == 2 {
					l = append(l, wfield{f.Num, vlen(strict, f.Num, f.B)})
				} else {
					l = append(l, wfield{f.Num, vbool(strict, f.Num, true)})
				}
			}
			return vlen(strict, q.Kind, vfields(strict, l, 5, nil, nil))
		}
		parts = append(parts, enc(&a), enc(&b))
	} else if b := body(p); b != nil {
		parts = append(parts, b)
	}
	var out []byte
	for _, b := range parts {
		if r.OneIn(5) {
			out = append(out, vunknown(r, 4)...)
		}
		out = append(out, b...)
	}
	if r.OneIn(5) {
		out = append(out, vunknown(r, 4)...)
	}
	return out
}

func jset(m map[string]any, k string, v any) {
	switch t := v.(type) {
	case string:
		if t != "" {
			m[k] = t
		}
	case bool:
		if t {
			m[k] = t
		}
	case []byte:
		if len(t) != 0 {
			m[k] = base64.StdEncoding.EncodeToString(t)
		}
	}
}

func jsonW(p *lib.WPacket) map[string]any {
	m := map[string]any{}
	switch p.Kind {
	case lib.WStart:
		jset(m, "rpcService", p.Service)
		jset(m, "rpcMethod", p.Method)
		jset(m, "data", p.Data)
		jset(m, "dataIsZero", p.DataIsZero)
	case lib.WData:
		jset(m, "data", p.Data)
		jset(m, "dataIsZero", p.DataIsZero)
		jset(m, "complete", p.Complete)
		jset(m, "error", p.Error)
	}
	return m
}

func eqW(a, b any) bool { return a.(*lib.WPacket).Equal(b.(*lib.WPacket)) }
func eqR(a, b any) bool {
	p, q := a.(*lib.RPacket), b.(*lib.RPacket)
	return p.Kind == q.Kind && p.Str == q.Str && bytes.Equal(p.Data, q.Data)
}

func trash(b []byte) {
	for i := range b[:cap(b)] {
		b[:cap(b)][i] ^= 0xff
	}
}

// sub wraps a body in a packet for the oracle.
func sub(kind int) func(b []byte) (any, error) {
	return func(b []byte) (any, error) {
		p, err := lib.Decode(append(append(binary.AppendUvarint(nil, uint64(kind)<<3|2), binary.AppendUvarint(nil, uint64(len(b)))...), b...))
		return p, err
	}
}

func subR(kind int) func(b []byte) (any, error) {
	return func(b []byte) (any, error) {
		p, err := lib.DecodeR(append(append(binary.AppendUvarint(nil, uint64(kind)<<3|2), binary.AppendUvarint(nil, uint64(len(b)))...), b...))
		return p, err
	}
}

func toR(p *lib.RPacket) *rpcstream.RpcStreamPacket {
	switch p.Kind {
	case lib.RInit:
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: p.Str}}}
	case lib.RAck:
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: p.Str}}}
	case lib.RData:
		if p.Data == nil {
			p.Data = []byte{} // nil has no JSON form
		}
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: p.Data}}
	}
	return &rpcstream.RpcStreamPacket{}
}

func fromR(p *rpcstream.RpcStreamPacket) *lib.RPacket {
	switch b := p.GetBody().(type) {
	case *rpcstream.RpcStreamPacket_Init:
		return &lib.RPacket{Kind: lib.RInit, Str: b.Init.GetComponentId()}
	case *rpcstream.RpcStreamPacket_Ack:
		return &lib.RPacket{Kind: lib.RAck, Str: b.Ack.GetError()}
	case *rpcstream.RpcStreamPacket_Data:
		return &lib.RPacket{Kind: lib.RData, Data: b.Data}
	}
	return &lib.RPacket{}
}

func genR(kind int) func(r *lib.Rand) any {
	return func(r *lib.Rand) any {
		p := &lib.RPacket{Kind: kind}
		if kind < 0 {
			p.Kind = r.Weighted(1, 5, 5, 5)
		}
		switch p.Kind {
		case lib.RInit, lib.RAck:
			p.Str = genStr(r)
		case lib.RData:
			p.Data = genData(r)
		}
		return p
	}
}

func encRBody(r *lib.Rand, p *lib.RPacket) []byte {
	var fs []wfield
	if p.Str != "" || r.OneIn(4) {
		fs = append(fs, wfield{1, vlen(r, 1, []byte(p.Str))})
	}
	return vfields(r, fs, 2, func(num int) []byte { return vlen(r, 1, []byte(genStr(r))) }, nil)
}

func encR(r *lib.Rand, v any) []byte {
	p := v.(*lib.RPacket)
	body := func(p *lib.RPacket) []byte {
		switch p.Kind {
		case lib.RInit, lib.RAck:
			return vlen(r, p.Kind, encRBody(r, p))
		case lib.RData:
			return vlen(r, 3, p.Data)
		}
		return nil
	}
	var out []byte
	if r.OneIn(4) && p.Kind != lib.RNone {
		q := genR(-1)(r).(*lib.RPacket)
		if q.Kind != lib.RNone && (q.Kind != p.Kind || q.Kind == lib.RData) {
			out = append(out, body(q)...)
		}
	}
	if r.OneIn(5) {
		out = append(out, vunknown(r, 4)...)
	}
	out = append(out, body(p)...)
	if r.OneIn(5) {
		out = append(out, vunknown(r, 4)...)
	}
	return out
}

func jsonR(p *lib.RPacket) map[string]any {
	m := map[string]any{}
	switch p.Kind {
	case lib.RInit:
		jset(m, "componentId", p.Str)
	case lib.RAck:
		jset(m, "error", p.Str)
	}
	return m
}

var codecs = []*codec{
	{
		name:    "srpc.Packet",
		fresh:   func() wmsg { return &srpc.Packet{} },
		build:   func(v any) wmsg { return toPacket(v.(*lib.WPacket)) },
		read:    func(m wmsg) any { return fromPacket(m.(*srpc.Packet)) },
		decode:  func(b []byte) (any, error) { return lib.Decode(b) },
		equal:   eqW,
		equalVT: func(a, b wmsg) bool { return a.(*srpc.Packet).EqualVT(b.(*srpc.Packet)) },
		cloneVT: func(a wmsg) wmsg { return a.(*srpc.Packet).CloneVT() },
		poison: func(a wmsg) {
			trash(a.(*srpc.Packet).GetCallStart().GetData())
			trash(a.(*srpc.Packet).GetCallData().GetData())
			if b := a.(*srpc.Packet).GetCallStart(); b != nil {
				b.RpcMethod += "x"
			}
			if b := a.(*srpc.Packet).GetCallData(); b != nil {
				b.Error += "x"
			}
		},
		gen:    genW(-1),
		encode: encPacket,
		json: func(v any) map[string]any {
			p := v.(*lib.WPacket)
			switch p.Kind {
			case lib.WStart:
				return map[string]any{"callStart": jsonW(p)}
			case lib.WData:
				return map[string]any{"callData": jsonW(p)}
			case lib.WCancel:
				return map[string]any{"callCancel": p.Cancel}
			}
			return map[string]any{}
		},
		show: func(v any) string { return v.(*lib.WPacket).String() },
	},
	{
		name:  "srpc.CallStart",
		fresh: func() wmsg { return &srpc.CallStart{} },
		build: func(v any) wmsg { return toPacket(v.(*lib.WPacket)).GetCallStart() },
		read: func(m wmsg) any {
			return fromPacket(&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: m.(*srpc.CallStart)}})
		},
		decode:  sub(1),
		equal:   eqW,
		equalVT: func(a, b wmsg) bool { return a.(*srpc.CallStart).EqualVT(b.(*srpc.CallStart)) },
		cloneVT: func(a wmsg) wmsg { return a.(*srpc.CallStart).CloneVT() },
		poison:  func(a wmsg) { trash(a.(*srpc.CallStart).GetData()) },
		gen:     genW(lib.WStart),
		encode:  func(r *lib.Rand, v any) []byte { return encStart(r, v.(*lib.WPacket)) },
		json:    func(v any) map[string]any { return jsonW(v.(*lib.WPacket)) },
		show:    func(v any) string { return v.(*lib.WPacket).String() },
	},
	{
		name:  "srpc.CallData",
		fresh: func() wmsg { return &srpc.CallData{} },
		build: func(v any) wmsg { return toPacket(v.(*lib.WPacket)).GetCallData() },
		read: func(m wmsg) any {
			return fromPacket(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: m.(*srpc.CallData)}})
		},
		decode:  sub(2),
		equal:   eqW,
		equalVT: func(a, b wmsg) bool { return a.(*srpc.CallData).EqualVT(b.(*srpc.CallData)) },
		cloneVT: func(a wmsg) wmsg { return a.(*srpc.CallData).CloneVT() },
		poison:  func(a wmsg) { trash(a.(*srpc.CallData).GetData()) },
		gen:     genW(lib.WData),
		encode:  func(r *lib.Rand, v any) []byte { return encData(r, v.(*lib.WPacket)) },
		json:    func(v any) map[string]any { return jsonW(v.(*lib.WPacket)) },
		show:    func(v any) string { return v.(*lib.WPacket).String() },
	},
	{
		name:    "rpcstream.RpcStreamPacket",
		fresh:   func() wmsg { return &rpcstream.RpcStreamPacket{} },
		build:   func(v any) wmsg { return toR(v.(*lib.RPacket)) },
		read:    func(m wmsg) any { return fromR(m.(*rpcstream.RpcStreamPacket)) },
		decode:  func(b []byte) (any, error) { return lib.DecodeR(b) },
		equal:   eqR,
		equalVT: func(a, b wmsg) bool { return a.(*rpcstream.RpcStreamPacket).EqualVT(b.(*rpcstream.RpcStreamPacket)) },
		cloneVT: func(a wmsg) wmsg { return a.(*rpcstream.RpcStreamPacket).CloneVT() },
		poison: func(a wmsg) {
			trash(a.(*rpcstream.RpcStreamPacket).GetData())
			if b := a.(*rpcstream.RpcStreamPacket).GetInit(); b != nil {
				b.ComponentId += "x"
			}
			if b := a.(*rpcstream.RpcStreamPacket).GetAck(); b != nil {
				b.Error += "x"
			}
		},
		gen:    genR(-1),
		encode: encR,
		json: func(v any) map[string]any {
			p := v.(*lib.RPacket)
			switch p.Kind {
			case lib.RInit:
				return map[string]any{"init": jsonR(p)}
			case lib.RAck:
				return map[string]any{"ack": jsonR(p)}
			case lib.RData:
				return map[string]any{"data": base64.StdEncoding.EncodeToString(p.Data)}
			}
			return map[string]any{}
		},
		show: func(v any) string { return fmt.Sprintf("%+v", v) },
	},
	{
		name:  "rpcstream.RpcStreamInit",
		fresh: func() wmsg { return &rpcstream.RpcStreamInit{} },
		build: func(v any) wmsg { return toR(v.(*lib.RPacket)).GetInit() },
		read: func(m wmsg) any {
			return &lib.RPacket{Kind: lib.RInit, Str: m.(*rpcstream.RpcStreamInit).GetComponentId()}
		},
		decode:  subR(1),
		equal:   eqR,
		equalVT: func(a, b wmsg) bool { return a.(*rpcstream.RpcStreamInit).EqualVT(b.(*rpcstream.RpcStreamInit)) },
		cloneVT: func(a wmsg) wmsg { return a.(*rpcstream.RpcStreamInit).CloneVT() },
		poison:  func(a wmsg) {},
		gen:     genR(lib.RInit),
		encode:  func(r *lib.Rand, v any) []byte { return encRBody(r, v.(*lib.RPacket)) },
		json:    func(v any) map[string]any { return jsonR(v.(*lib.RPacket)) },
		show:    func(v any) string { return fmt.Sprintf("%+v", v) },
	},
	{
		name:    "rpcstream.RpcAck",
		fresh:   func() wmsg { return &rpcstream.RpcAck{} },
		build:   func(v any) wmsg { return toR(v.(*lib.RPacket)).GetAck() },
		read:    func(m wmsg) any { return &lib.RPacket{Kind: lib.RAck, Str: m.(*rpcstream.RpcAck).GetError()} },
		decode:  subR(2),
		equal:   eqR,
		equalVT: func(a, b wmsg) bool { return a.(*rpcstream.RpcAck).EqualVT(b.(*rpcstream.RpcAck)) },
		cloneVT: func(a wmsg) wmsg { return a.(*rpcstream.RpcAck).CloneVT() },
		poison:  func(a wmsg) {},
		gen:     genR(lib.RAck),
		encode:  func(r *lib.Rand, v any) []byte { return encRBody(r, v.(*lib.RPacket)) },
		json:    func(v any) map[string]any { return jsonR(v.(*lib.RPacket)) },
		show:    func(v any) string { return fmt.Sprintf("%+v", v) },
	},
}

type codecCase struct {
	Type  string `json:"type"`
	Value string `json:"value,omitempty"`
	Bytes []byte `json:"bytes,omitempty"`
}

// text is the text of the value.
func (c *codec) text(v any) string {
	switch t := v.(type) {
	case *lib.WPacket:
		return t.Service + t.Method + t.Error
	case *lib.RPacket:
		return t.Str
	}
	return ""
}

// guard reports a panic of the code under test.
func (x *Ctx) guard(idx int, c any, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			x.Rep.Violate("panic", idx, c, "%s: panic: %v\n%s", what, e, debug.Stack())
		}
	}()
	f()
}

func c08(x *Ctx) {
	x.Each("values", 24000, func(idx int, r *lib.Rand) {
		c := codecs[r.Weighted(6, 2, 2, 4, 1, 1)]
		v := c.gen(r)
		cc := &codecCase{Type: c.name, Value: c.show(v)}
		x.guard(idx, cc, "codec", func() { x.codecValue(idx, c, cc, v, r) })
		if idx%2000 == 0 {
			x.Rep.Sample(cc)
		}
	})
	x.Each("hostile", 60000, func(idx int, r *lib.Rand) {
		c := codecs[r.Weighted(6, 2, 2, 4, 1, 1)]
		b := hostile(r, c)
		cc := &codecCase{Type: c.name, Bytes: b}
		x.guard(idx, cc, "decoding", func() { x.codecBytes(idx, c, cc, b) })
	})
	// every byte string up to 3 bytes, and every truncation and every value of
	// each byte of short encodings
	x.Each("short", 256, func(idx int, r *lib.Rand) {
		if idx%10_000_000 >= 256 {
			return
		}
		a := byte(idx % 10_000_000)
		for _, c := range codecs {
			cc := &codecCase{Type: c.name}
			try := func(b []byte) {
				x.guard(idx, cc, "decoding", func() {
					cc.Bytes = b
					x.codecBytes(idx, c, cc, b)
				})
			}
			try([]byte{})
			try([]byte{a})
			for b := range 256 {
				try([]byte{a, byte(b)})
				if a < 0x24 { // tags of known fields
					for d := range 256 {
						try([]byte{a, byte(b), byte(d)})
					}
				}
			}
		}
	})
	x.Each("bytes", 300, func(idx int, r *lib.Rand) {
		c := codecs[r.Intn(len(codecs))]
		var enc []byte
		for i := 0; i < 100; i++ {
			if enc = c.encode(r, c.gen(r)); len(enc) > 0 && len(enc) < 60 {
				break
			}
		}
		if len(enc) >= 60 {
			return
		}
		for i := range enc {
			cc := &codecCase{Type: c.name}
			x.guard(idx, cc, "decoding", func() {
				cc.Bytes = enc[:i:i]
				x.codecBytes(idx, c, cc, cc.Bytes)
				for v := range 256 {
					b := bytes.Clone(enc)
					b[i] = byte(v)
					cc.Bytes = b
					x.codecBytes(idx, c, cc, b)
				}
			})
		}
	})
	x.Each("validate", 8000, x.c08validate)
}

func (x *Ctx) codecValue(idx int, c *codec, cc *codecCase, v any, r *lib.Rand) {
	bad := func(key, f string, a ...any) {
		x.Rep.Violate(key, idx, cc, c.name+" "+cc.Value+": "+f, a...)
	}
	m := c.build(v)
	enc, err := m.MarshalVT()
	if err != nil {
		bad("encode", "MarshalVT: %v", err)
		return
	}
	x.Rep.Eval(lib.Mix(lib.HashStr(c.name), lib.HashStr(string(enc))))
	if w, err := c.decode(enc); err != nil || !c.equal(w, v) {
		bad("encode", "the encoding %x does not decode to the value (%v %v)", head(enc), w, err)
	}
	if n := m.SizeVT(); n != len(enc) {
		bad("size", "SizeVT is %d, the encoding has %d bytes", n, len(enc))
	}
	buf := bytes.Repeat([]byte{0xa5}, len(enc)+9)
	n, err := m.MarshalToVT(buf[:len(enc)])
	if err != nil || n != len(enc) || !bytes.Equal(buf[:n], enc) || buf[len(enc)] != 0xa5 {
		bad("encode", "MarshalToVT: %d %v", n, err)
	}
	// a larger buffer: at its end
	buf = bytes.Repeat([]byte{0xa5}, len(enc)+9)
	n, err = m.MarshalToSizedBufferVT(buf)
	if err != nil || n != len(enc) || !bytes.Equal(buf[9:], enc) || buf[8] != 0xa5 {
		bad("encode", "MarshalToSizedBufferVT: %d %v", n, err)
	}
	// decoding of its own and of other valid encodings
	for i := range 4 {
		b := enc
		if i > 0 {
			b = c.encode(r, v)
			if w, err := c.decode(b); err != nil || !c.equal(w, v) {
				panic(fmt.Sprintf("oracle: %s %v %x -> %v %v", c.name, cc.Value, b, w, err))
			}
		}
		d := c.fresh()
		keep := bytes.Clone(b)
		if err := d.UnmarshalVT(b); err != nil {
			bad("decode", "the valid encoding %x is rejected: %v", head(b), err)
		} else if !c.equal(c.read(d), v) {
			bad("decode", "the valid encoding %x decodes to %s", head(b), c.show(c.read(d)))
		}
		if !bytes.Equal(keep, b) {
			bad("decode", "decoding changes the buffer")
		}
		x.Rep.Count("encodings-decoded", 1)
	}
	// equality
	same := c.fresh()
	_ = same.UnmarshalVT(enc)
	if !c.equalVT(m, same) || !c.equalVT(same, m) || !c.equalVT(m, m) {
		bad("equal", "EqualVT is false for equal messages")
	}
	other := mutate(r, c, v)
	if got, want := c.equalVT(m, c.build(other)), c.equal(v, other); got != want {
		bad("equal", "EqualVT is %v with %s", got, c.show(other))
	}
	if got, want := c.equalVT(c.build(other), m), c.equal(v, other); got != want {
		bad("equal", "EqualVT of %s with it is %v", c.show(other), got)
	}
	// clone
	cl := c.cloneVT(m)
	if !c.equal(c.read(cl), v) || !c.equalVT(cl, m) {
		bad("clone", "CloneVT is %s", c.show(c.read(cl)))
	}
	c.poison(cl)
	if w, err := func() (any, error) { b, _ := m.MarshalVT(); return c.decode(b) }(); err != nil || !c.equal(w, c.read(m)) {
		bad("clone", "the message is damaged by a change of its clone")
	} else if !bytes.Equal(mustMarshal(m), enc) {
		bad("clone", "changing the clone changes the message")
	}
	// JSON (the JSON library does not escape control characters correctly)
	if strings.ContainsFunc(c.text(v), func(r rune) bool { return r < 0x20 && r != '\n' || r >= 0x7f && r < 0xa0 }) {
		return
	}
	x.Rep.Count("json-forms", 1)
	j, err := m.MarshalJSON()
	if err != nil {
		bad("json", "MarshalJSON: %v", err)
		return
	}
	var got map[string]any
	if err := json.Unmarshal(j, &got); err != nil {
		bad("json", "the JSON form is invalid: %v: %s", err, head(j))
		return
	}
	wantJ, _ := json.Marshal(c.json(v))
	gotJ, _ := json.Marshal(got)
	if !bytes.Equal(wantJ, gotJ) {
		bad("json", "the JSON form is %s, expected %s", head(gotJ), head(wantJ))
	}
	for _, in := range [][]byte{j, wantJ} {
		d := c.fresh()
		if err := d.UnmarshalJSON(in); err != nil {
			bad("json", "UnmarshalJSON of %s: %v", head(in), err)
		} else if !c.equal(c.read(d), v) {
			bad("json", "UnmarshalJSON of %s: %s", head(in), c.show(c.read(d)))
		}
	}
}

func mustMarshal(m wmsg) []byte {
	b, err := m.MarshalVT()
	if err != nil {
		return nil
	}
	return b
}

func head(b []byte) string {
	if len(b) > 80 {
		return string(b[:80]) + "..."
	}
	return string(b)
}

// mutate changes at most one field.
func mutate(r *lib.Rand, c *codec, v any) any {
	if r.OneIn(6) {
		return c.gen(r)
	}
	switch t := v.(type) {
	case *lib.WPacket:
		p := *t
		switch r.Intn(8) {
		case 0:
			if p.Kind == lib.WStart {
				p.Service += "x"
			}
		case 1:
			if p.Kind == lib.WStart {
				p.Method = "x" + p.Method
			}
		case 2:
			if p.Kind == lib.WStart || p.Kind == lib.WData {
				p.Data = append(bytes.Clone(p.Data), 0)
			}
		case 3:
			if p.Kind == lib.WStart || p.Kind == lib.WData {
				p.DataIsZero = !p.DataIsZero
			}
		case 4:
			if p.Kind == lib.WData {
				p.Complete = !p.Complete
			}
		case 5:
			if p.Kind == lib.WData {
				p.Error += " "
			}
		case 6:
			if p.Kind == lib.WCancel {
				p.Cancel = !p.Cancel
			}
		case 7:
			if len(p.Data) > 0 {
				p.Data = bytes.Clone(p.Data)
				p.Data[r.Intn(len(p.Data))] ^= 1
			}
		}
		return &p
	case *lib.RPacket:
		p := *t
		switch r.Intn(3) {
		case 0:
			if p.Kind == lib.RInit || p.Kind == lib.RAck {
				p.Str += "x"
			}
		case 1:
			if p.Kind == lib.RData {
				p.Data = append(bytes.Clone(p.Data), 1)
			}
		case 2:
			if c.name == "rpcstream.RpcStreamPacket" && (p.Kind == lib.RInit || p.Kind == lib.RAck) {
				p.Kind = lib.RInit + lib.RAck - p.Kind
			}
		}
		return &p
	}
	return v
}

// hostile makes bytes which may be invalid.
func hostile(r *lib.Rand, c *codec) []byte {
	switch r.Weighted(6, 2, 2) {
	case 1:
		return r.Bytes(r.Intn(30))
	case 2: // random fields
		var b []byte
		for range r.Range(1, 5) {
			num := r.Range(0, 6)
			typ := r.Intn(8)
			b = append(b, vint(r, uint64(num)<<3|uint64(typ))...)
			switch r.Intn(4) {
			case 0:
				b = append(b, vint(r, lib.PickOf(r, 0, 1, 2, 1<<31, 1<<63, uint64(1<<64-1), r.Uint64()))...)
			case 1:
				b = append(b, vint(r, lib.PickOf(r, uint64(0), 1, 5, 1<<31-1, 1<<31, 1<<32, 1<<62, 1<<63-1, 1<<63, 1<<64-1))...)
				b = append(b, r.Bytes(r.Intn(8))...)
			case 2:
				b = append(b, r.Bytes(r.Intn(12))...)
			}
		}
		return b
	}
	b := bytes.Clone(c.encode(r, c.gen(r)))
	if len(b) > 400 {
		b = b[:400]
	}
	for range r.Range(1, 3) {
		if len(b) == 0 {
			break
		}
		i := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= 1 << r.Intn(8)
		case 2:
			b[i] = byte(lib.PickOf(r, 0, 1, 0x7f, 0x80, 0xff, r.Intn(256)))
		case 3:
			b = append(b[:i:i], append(r.Bytes(r.Range(1, 4)), b[i:]...)...)
		case 4:
			b = append(b[:i:i], b[min(len(b), i+r.Range(1, 3)):]...)
		}
	}
	return b
}

func (x *Ctx) codecBytes(idx int, c *codec, cc *codecCase, b []byte) {
	want, werr := c.decode(b)
	d := c.fresh()
	err := d.UnmarshalVT(b)
	sig := lib.Mix(lib.HashStr(c.name), lib.HashStr(string(b)))
	if sig%128 != 0 { // the list of all would be too long
		sig = 0
	}
	x.Rep.Eval(sig)
	switch {
	case werr == lib.ErrGrey:
		x.Rep.Count("unspecified-inputs", 1)
	case werr == lib.ErrWire:
		x.Rep.Count("invalid-inputs", 1)
		if err == nil {
			x.Rep.Violate("invalid-accepted", idx, cc, "%s: the invalid input %x is accepted as %s", c.name, b, c.show(c.read(d)))
		}
	default:
		x.Rep.Count("valid-inputs", 1)
		if err != nil {
			x.Rep.Violate("decode", idx, cc, "%s: the valid input %x (%s) is rejected: %v", c.name, b, c.show(want), err)
		} else if !c.equal(c.read(d), want) {
			x.Rep.Violate("decode", idx, cc, "%s: the input %x is decoded as %s, expected %s", c.name, b, c.show(c.read(d)), c.show(want))
		}
	}
	if p, ok := d.(*srpc.Packet); ok && err == nil && werr == nil {
		if got, want := p.Validate() == nil, want.(*lib.WPacket).Valid(); got != want {
			x.Rep.Violate("validate", idx, cc, "the packet %x is valid: %v, accepted by Validate: %v", b, want, got)
		}
	}
	if err == nil {
		// what was accepted is encoded again
		e, err := d.MarshalVT()
		if err != nil || len(e) != d.SizeVT() {
			x.Rep.Violate("size", idx, cc, "%s decoded from %x: encoded with %d bytes, size %d (%v)", c.name, b, len(e), d.SizeVT(), err)
		}
	}
}

func (x *Ctx) c08validate(idx int, r *lib.Rand) {
	p := genW(-1)(r).(*lib.WPacket)
	if r.OneIn(2) { // sparse
		if r.OneIn(2) {
			p.Data = nil
		}
		if r.OneIn(2) {
			p.DataIsZero = false
		}
		if r.OneIn(2) {
			p.Complete = false
		}
		if r.OneIn(2) {
			p.Error = ""
		}
		if r.OneIn(2) && p.Kind == lib.WStart {
			p.Method = ""
		}
		if r.OneIn(2) && p.Kind == lib.WStart {
			p.Service = ""
		}
	}
	cc := &codecCase{Type: "srpc.Packet", Value: p.String()}
	x.guard(idx, cc, "Validate", func() {
		pk := toPacket(p)
		err := pk.Validate()
		if (err == nil) != p.Valid() {
			x.Rep.Violate("validate", idx, cc, "%s: Validate returns %v", p, err)
		}
		var werr error
		switch {
		case p.Kind == lib.WStart && p.Method == "" && p.Service != "":
			werr = srpc.ErrEmptyMethodID
		case p.Kind == lib.WStart && p.Service == "" && p.Method != "":
			werr = srpc.ErrEmptyServiceID
		case p.Kind == lib.WNone:
			werr = srpc.ErrUnrecognizedPacket
		case p.Kind == lib.WData && !p.Valid():
			werr = srpc.ErrEmptyPacket
		}
		if werr != nil && err != werr {
			x.Rep.Violate("validate", idx, cc, "%s: Validate returns %v, expected %v", p, err, werr)
		}
		x.Rep.Eval(lib.Mix(1, lib.HashStr(p.String())))
		x.Rep.Count(fmt.Sprintf("validated:valid=%v", p.Valid()), 1)
		// nil messages
		var np *srpc.Packet
		if np.Validate() == nil || (&srpc.Packet{}).Validate() == nil {
			x.Rep.Violate("validate", idx, cc, "a packet without a body is valid")
		}
		if np.CloneVT() != nil || !np.EqualVT(nil) || np.EqualVT(&srpc.Packet{}) || np.SizeVT() != 0 {
			x.Rep.Violate("equal", idx, cc, "wrong result for a nil packet")
		}
		// the constructors
		var e error
		if r.OneIn(2) {
			e = fmt.Errorf("%s", genStr(r))
		}
		data, zero, complete := genData(r), r.OneIn(2), r.OneIn(2)
		cd := fromPacket(srpc.NewCallDataPacket(data, zero, complete, e))
		if cd.Kind != lib.WData || !bytes.Equal(cd.Data, data) || cd.DataIsZero != zero || cd.Complete != (complete || e != nil) || (cd.Error != "") != (e != nil) || e != nil && e.Error() != "" && cd.Error != e.Error() {
			x.Rep.Violate("constructor", idx, cc, "NewCallDataPacket(%d bytes, %v, %v, %v) is %v", len(data), zero, complete, e, cd)
		}
		s, m := genStr(r), genStr(r)
		cs := fromPacket(srpc.NewCallStartPacket(s, m, data, zero))
		if !cs.Equal(&lib.WPacket{Kind: lib.WStart, Service: s, Method: m, Data: data, DataIsZero: zero}) {
			x.Rep.Violate("constructor", idx, cc, "NewCallStartPacket is %v", cs)
		}
		if cx := fromPacket(srpc.NewCallCancelPacket()); cx.Kind != lib.WCancel || !cx.Cancel {
			x.Rep.Violate("constructor", idx, cc, "NewCallCancelPacket is %v", cx)
		}
	})
}
