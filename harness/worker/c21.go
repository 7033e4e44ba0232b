package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C21"] = c21 }

func c21(x *Ctx) {
	x.Each("sequence", 40000, x.c21seq)
}

// extBuf is a buffer which the caller knows.
type extBuf struct {
	b []byte // up to its capacity
	// want is what it must hold: changed by the caller only.
	want []byte
	n    int // length given to the message
	what string
	// loose: the message may write to it (handed over by NewRawMessage).
	loose bool
}

func newExt(r *lib.Rand, content []byte, what string) *extBuf {
	e := &extBuf{n: len(content), what: what}
	e.b = make([]byte, len(content)+lib.PickOf(r, 0, 0, 1, 8, 40))
	copy(e.b, content)
	for i := len(content); i < len(e.b); i++ {
		e.b[i] = byte(0xc0 + i&15)
	}
	e.want = bytes.Clone(e.b)
	return e
}

func (e *extBuf) buf() []byte { return e.b[:e.n] }

func (x *Ctx) c21seq(idx int, r *lib.Rand) {
	var ops []string
	bad := func(format string, args ...any) {
		x.Rep.Violate("raw-message", idx, map[string]any{"ops": ops}, "after %v: %s", ops, fmt.Sprintf(format, args...))
	}
	size := func() int { return lib.PickOf(r, 0, 0, 1, 2, r.Intn(20), r.Intn(20), r.Intn(300)) }
	fresh := 0
	content := func() []byte { fresh++; return lib.Content(idx, 0, fresh, size()) }
	var bufs []*extBuf
	add := func(e *extBuf) *extBuf { bufs = append(bufs, e); return e }
	copyMode := r.OneIn(2)
	var m *srpc.RawMessage
	var want []byte
	var shared *extBuf // without copy mode: the buffer which is shared
	switch k := r.Intn(4); {
	case k == 0 && !copyMode:
		m = &srpc.RawMessage{}
		ops = append(ops, "zero")
	case k == 1:
		m = srpc.NewRawMessage(nil, copyMode)
		ops = append(ops, fmt.Sprintf("new(nil,%v)", copyMode))
	default:
		e := add(newExt(r, content(), "new"))
		e.loose = copyMode
		m = srpc.NewRawMessage(e.buf(), copyMode)
		want = bytes.Clone(e.buf())
		if !copyMode {
			shared = e
		}
		ops = append(ops, fmt.Sprintf("new(%d of %d bytes,%v)", e.n, len(e.b), copyMode))
	}
	ptr := func(b []byte) unsafe.Pointer {
		if cap(b) == 0 {
			return nil
		}
		return unsafe.Pointer(unsafe.SliceData(b))
	}
	check := func() bool {
		if !bytes.Equal(m.GetData(), want) {
			bad("the content is %x instead of %x", trunc(m.GetData()), trunc(want))
			return false
		}
		if n := m.SizeVT(); n != len(want) {
			bad("SizeVT is %d instead of %d", n, len(want))
			return false
		}
		if !copyMode && shared != nil && len(want) != 0 && ptr(m.GetData()) != ptr(shared.b) {
			bad("without copy mode the buffer given to %s is not shared", shared.what)
			return false
		}
		for i, e := range bufs {
			if !e.loose && !bytes.Equal(e.b, e.want) {
				bad("buffer %d (%s) is %x instead of %x", i, e.what, trunc(e.b), trunc(e.want))
				return false
			}
		}
		return true
	}
	if !check() {
		return
	}
	steps := r.Range(1, 14)
	for range steps {
		switch r.Weighted(5, 5, 2, 1, 5, 3, 5, 1, 1) {
		case 0, 1: // set or decode
			dec := r.OneIn(2)
			name := "set"
			if dec {
				name = "decode"
			}
			var b []byte
			var e *extBuf
			if r.OneIn(12) {
				name += "(nil)"
			} else if len(bufs) != 0 && r.OneIn(4) {
				// a buffer used before
				i := r.Intn(len(bufs))
				e = bufs[i]
				if e.loose {
					continue
				}
				b = e.buf()
				name += fmt.Sprintf("(buffer %d again)", i)
			} else {
				e = add(newExt(r, content(), name))
				b = e.buf()
				name += fmt.Sprintf("(%d of %d bytes)", e.n, len(e.b))
			}
			ops = append(ops, name)
			if dec {
				if err := m.UnmarshalVT(b); err != nil {
					bad("decoding failed: %v", err)
					return
				}
			} else {
				m.SetData(b)
			}
			want = bytes.Clone(b)
			shared = nil
			if !copyMode {
				shared = e
			}
		case 2:
			ops = append(ops, "clear")
			m.Clear()
			want, shared = nil, nil
		case 3:
			ops = append(ops, "reset")
			m.Reset()
			want, shared = nil, nil
		case 4: // encode
			ops = append(ops, "encode")
			b, err := m.MarshalVT()
			if err != nil || !bytes.Equal(b, want) {
				bad("encode gave %x, %v instead of %x", trunc(b), err, trunc(want))
				return
			}
			if copyMode {
				e := &extBuf{b: b[:cap(b):cap(b)], n: len(b), what: "encode"}
				e.want = bytes.Clone(e.b)
				add(e)
			} else if shared != nil && len(b) != 0 && ptr(b) != ptr(shared.b) {
				bad("without copy mode encode copied")
				return
			}
		case 5: // encode into a buffer
			d := len(want)
			if r.OneIn(4) {
				d = max(0, d+lib.PickOf(r, -1, 1, -len(want), 7))
			}
			e := newExt(r, make([]byte, d), "encode-to")
			for i := range e.b[:d] {
				e.b[i] = 0x55
			}
			e.want = bytes.Clone(e.b)
			ops = append(ops, fmt.Sprintf("encode-to(%d)", d))
			n, err := m.MarshalToSizedBufferVT(e.buf())
			switch {
			case d == len(want):
				if err != nil || n != d || !bytes.Equal(e.buf(), want) {
					bad("encoding into a buffer of the size gave %d, %v: %x instead of %x", n, err, trunc(e.buf()), trunc(want))
					return
				}
			case d < len(want):
				if err == nil {
					bad("encoding %d bytes into %d did not fail", len(want), d)
					return
				}
			default:
				if err == nil && (n != len(want) || !bytes.Equal(e.b[d-n:d], want)) {
					bad("encoding %d bytes into %d gave %d, %x", len(want), d, n, trunc(e.buf()))
					return
				}
			}
			if !bytes.Equal(e.b[d:], e.want[d:]) {
				bad("encoding wrote after the buffer")
				return
			}
			e.want = bytes.Clone(e.b)
			add(e)
		case 6: // the caller writes to a buffer
			if len(bufs) == 0 {
				continue
			}
			i := r.Intn(len(bufs))
			e := bufs[i]
			if len(e.b) == 0 || e.loose {
				continue
			}
			ops = append(ops, fmt.Sprintf("scribble(buffer %d)", i))
			for k := range e.b {
				if r.OneIn(3) {
					e.b[k] ^= byte(r.Range(1, 255))
				}
			}
			e.want = bytes.Clone(e.b)
			if !copyMode && shared == e {
				want = bytes.Clone(e.buf())
			}
		case 7: // part of the own content
			d := m.GetData()
			if len(d) == 0 || !copyMode {
				continue
			}
			a := r.Intn(len(d))
			b := r.Range(a, len(d))
			ops = append(ops, fmt.Sprintf("set(own[%d:%d])", a, b))
			want = bytes.Clone(want[a:b])
			if r.OneIn(2) {
				m.SetData(d[a:b])
			} else {
				_ = m.UnmarshalVT(d[a:b])
			}
		case 8: // through another message
			ops = append(ops, "transfer")
			b, err := m.MarshalVT()
			if err != nil {
				bad("encode failed: %v", err)
				return
			}
			o := srpc.NewRawMessage(nil, true)
			if err := o.UnmarshalVT(b); err != nil || !bytes.Equal(o.GetData(), want) {
				bad("decoding into another message gave %x, %v instead of %x", trunc(o.GetData()), err, trunc(want))
				return
			}
		}
		if !check() {
			return
		}
	}
	x.Rep.Count("operations", steps)
	x.Rep.Eval(lib.HashStr(fmt.Sprint(ops)))
	if idx%5000 == 0 {
		x.Rep.Sample(ops)
	}
}

func trunc(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}
