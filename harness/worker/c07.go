package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C07"] = c07 }

const frameLimit = 10_000_000

// chunkReader returns the bytes in the given chunks, then the error.
type chunkReader struct {
	data   []byte
	cuts   []int // sizes of the reads
	end    error
	with   bool // return the end together with the last bytes
	zero   int  // every zero-th read returns 0, nil
	n      int
	reads  int
	after  int // reads after the end
	closed int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if c.zero > 0 && c.reads%c.zero == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		c.after++
		return 0, c.end
	}
	k := len(c.data)
	if c.n < len(c.cuts) && c.cuts[c.n] < k {
		k = c.cuts[c.n]
	}
	c.n++
	k = copy(p, c.data[:k])
	c.data = c.data[k:]
	if len(c.data) == 0 && c.with {
		return k, c.end
	}
	return k, nil
}
func (c *chunkReader) Write(p []byte) (int, error) { return len(p), nil }
func (c *chunkReader) Close() error                { c.closed++; return nil }

type frameCase struct {
	Sizes  []int  `json:"sizes"`
	Tail   string `json:"tail"`
	Cuts   []int  `json:"cuts"`
	With   bool   `json:"end_with_data"`
	Zero   int    `json:"zero_reads"`
	End    string `json:"end"`
	ErrAt  int    `json:"handler_error_at"`
	stream []byte
	frames [][]byte
	bad    bool // the tail is invalid
}

var errRead = errors.New("read failed")
var errHandler = errors.New("handler failed")

// runFrames reads the stream and compares with the frames it is made of.
func (x *Ctx) runFrames(idx int, fc *frameCase) {
	var end error
	switch fc.End {
	case "eof":
		end = io.EOF
	case "err":
		end = errRead
	case "unexpected":
		end = io.ErrUnexpectedEOF
	}
	cr := &chunkReader{data: fc.stream, cuts: fc.Cuts, end: end, with: fc.With, zero: fc.Zero}
	i := 0
	failed := false
	handler := func(d []byte) error {
		switch {
		case failed:
			x.Rep.Violate("after-error", idx, fc, "the handler was called again after it returned an error")
		case i >= len(fc.frames):
			x.Rep.Violate("extra-packet", idx, fc, "packet #%d of %d bytes was delivered, the stream has %d packets", i, len(d), len(fc.frames))
		case !bytes.Equal(d, fc.frames[i]):
			x.Rep.Violate("wrong-packet", idx, fc, "packet #%d has %d bytes and differs from the one in the stream (%d bytes)", i, len(d), len(fc.frames[i]))
		}
		i++
		if fc.ErrAt != 0 && i == fc.ErrAt {
			failed = true
			return errHandler
		}
		return nil
	}
	var err error
	closes := 0
	prw := srpc.NewPacketReadWriter(cr)
	if idx%2 == 0 {
		err = prw.ReadToHandler(handler)
	} else {
		prw.ReadPump(handler, func(e error) {
			closes++
			err = e
		})
		if closes != 1 {
			x.Rep.Violate("close-count", idx, fc, "the close handler was called %d times", closes)
		}
	}
	x.Rep.Count("packets-read", i)
	want := len(fc.frames)
	if fc.ErrAt != 0 && fc.ErrAt <= want {
		if err != errHandler {
			x.Rep.Violate("wrong-end", idx, fc, "the handler failed at packet %d but reading ended with %v", fc.ErrAt, err)
		}
		return
	}
	if i < want {
		x.Rep.Violate("lost-packet", idx, fc, "%d of %d packets were delivered, then reading ended with %v", i, want, err)
		return
	}
	switch {
	case fc.bad:
		if err == nil || err == errRead {
			x.Rep.Violate("invalid-length", idx, fc, "an invalid length (%s) ended reading with %v", fc.Tail, err)
		}
		if cr.after > 0 && !fc.With {
			x.Rep.Violate("invalid-length", idx, fc, "reading continued to the end of the stream after an invalid length (%s)", fc.Tail)
		}
	case fc.End == "eof":
		if err != nil {
			x.Rep.Violate("wrong-end", idx, fc, "the stream ended but reading ended with %v", err)
		}
	default:
		if err != end {
			x.Rep.Violate("wrong-end", idx, fc, "the stream failed with %v but reading ended with %v", end, err)
		}
	}
}

func frameSize(r *lib.Rand) int {
	switch r.Weighted(6, 6, 4, 3) {
	case 0:
		return r.Range(1, 12)
	case 1:
		return r.Range(1, 300)
	case 2:
		return lib.PickOf(r, 2040, 2044, 2048, 4092, 4096, 255, 256, 257, 65535, 65536) + r.Range(-4, 4)
	default:
		return r.Range(500, 9000)
	}
}

func (fc *frameCase) build(r *lib.Rand) {
	for i, n := range fc.Sizes {
		b := r.Bytes(n)
		if r.OneIn(3) { // bytes which look like lengths
			for j := range b {
				b[j] = byte(lib.PickOf(r, 0, 0, 0, 1, 2, i))
			}
		}
		fc.frames = append(fc.frames, b)
		fc.stream = append(fc.stream, lib.Frame(b)...)
	}
	switch fc.Tail {
	case "none":
	case "partial-length":
		fc.stream = append(fc.stream, lib.Frame(r.Bytes(5))[:r.Range(1, 3)]...)
	case "partial-body":
		f := lib.Frame(r.Bytes(r.Range(1, 3000)))
		fc.stream = append(fc.stream, f[:r.Range(4, len(f)-1)]...)
	case "zero":
		fc.stream = append(fc.stream, 0, 0, 0, 0)
		fc.bad = true
	case "over":
		fc.stream = binary.LittleEndian.AppendUint32(fc.stream, lib.PickOf(r, uint32(frameLimit+1), frameLimit+2, 1<<31-1, 1<<31, 1<<31+5, 1<<32-1, 1<<32-4, 20_000_000, uint32(r.Range(frameLimit+1, 1<<31))))
		fc.bad = true
	}
	if fc.bad { // valid packets follow: not to be read
		for range r.Range(1, 3) {
			fc.stream = append(fc.stream, lib.Frame(r.Bytes(r.Range(1, 40)))...)
		}
		fc.stream = append(fc.stream, make([]byte, lib.PickOf(r, 0, 5000))...)
	}
}

func (fc *frameCase) sig() uint64 {
	h := lib.Mix(lib.HashStr(fc.Tail), lib.HashStr(fc.End), uint64(fc.ErrAt), uint64(fc.Zero), lib.HashStr(string(fc.stream)))
	for _, c := range fc.Cuts {
		h = lib.Mix(h, uint64(c))
	}
	return h
}

func c07(x *Ctx) {
	// every split of short streams into up to three reads
	x.Each("splits", 60, func(idx int, r *lib.Rand) {
		base := &frameCase{Tail: lib.PickOf(r, "none", "none", "partial-length", "partial-body", "zero", "over")}
		for range r.Range(1, 4) {
			base.Sizes = append(base.Sizes, r.Range(1, 9))
		}
		if r.OneIn(4) {
			base.ErrAt = r.Range(1, 4)
		}
		base.build(r)
		if len(base.stream) > 60 {
			if base.bad {
				base.stream = base.stream[:60]
			} else {
				base.Tail = "none"
				base.stream, base.frames = nil, nil
				base.build(r)
			}
		}
		n := len(base.stream)
		for _, end := range []string{"eof", "err"} {
			for _, with := range []bool{false, true} {
				for a := 1; a <= n; a++ {
					for b := a; b <= n; b++ {
						fc := *base
						fc.End, fc.With = end, with
						fc.Cuts = []int{a, b - a, n - b}
						if b == a {
							fc.Cuts = []int{a, n - a}
						}
						x.runFrames(idx, &fc)
						x.Rep.Eval(fc.sig())
						if x.Rep.NumViolations() >= 3 {
							return
						}
					}
				}
			}
		}
		x.Rep.Sample(base)
	})
	// random streams and chunks
	x.Each("streams", 6000, func(idx int, r *lib.Rand) {
		fc := &frameCase{Tail: lib.PickOf(r, "none", "none", "none", "partial-length", "partial-body", "zero", "over"), End: lib.PickOf(r, "eof", "eof", "err", "unexpected"), With: r.OneIn(2)}
		for range r.Range(0, lib.PickOf(r, 3, 10, 60)) {
			fc.Sizes = append(fc.Sizes, frameSize(r))
		}
		if r.OneIn(5) && len(fc.Sizes) > 0 {
			fc.ErrAt = r.Range(1, len(fc.Sizes))
		}
		if r.OneIn(5) {
			fc.Zero = r.Range(2, 4)
		}
		fc.build(r)
		m := lib.PickOf(r, 1, 3, 50, 2048, 5000, 100000)
		for left := len(fc.stream); left > 0; {
			k := r.Range(1, m)
			fc.Cuts = append(fc.Cuts, k)
			left -= k
			if len(fc.Cuts) > 20000 {
				break
			}
		}
		if fc.With && fc.bad {
			fc.With = false
		}
		x.runFrames(idx, fc)
		x.Rep.Eval(fc.sig())
		fc.Cuts = nil
		if idx%500 == 0 {
			x.Rep.Sample(fc)
		}
	})
	// the size limit
	x.Each("limit", 24, func(idx int, r *lib.Rand) {
		n := frameLimit + []int{0, -1, -4, 0, -100, 0, -2048, -r.Intn(1000000)}[idx%8]
		fc := &frameCase{Sizes: []int{r.Range(1, 50), n, r.Range(1, 50)}, Tail: "none", End: "eof", With: r.OneIn(2)}
		m := lib.PickOf(r, 2048, 100000, 2047)
		for left := n; left > 0; left -= m {
			fc.Cuts = append(fc.Cuts, m)
		}
		fc.build(r)
		x.runFrames(idx, fc)
		x.Rep.Eval(fc.sig())
	})
	x.Each("writers", 800, func(idx int, r *lib.Rand) { x.c07writers(idx, r, false) })
	x.Each("large-writes", 32, func(idx int, r *lib.Rand) { x.c07writers(idx, r, true) })
}

// shortWriter accepts a part of each write and fails at some byte.
type shortWriter struct {
	mtx    sync.Mutex
	buf    bytes.Buffer
	r      *lib.Rand
	max    int
	failAt int
	in     int
	over   int
	closes int
}

func (s *shortWriter) Read(p []byte) (int, error) { return 0, io.EOF }
func (s *shortWriter) Close() error               { s.closes++; return nil }
func (s *shortWriter) Write(p []byte) (int, error) {
	s.mtx.Lock()
	s.in++
	if s.in > 1 {
		s.over++
	}
	k := len(p)
	if s.max > 0 && k > s.max {
		k = s.r.Range(1, s.max)
	}
	fail := s.failAt >= 0 && s.buf.Len()+k > s.failAt
	if fail {
		k = s.failAt - s.buf.Len()
	}
	s.buf.Write(p[:k])
	s.mtx.Unlock()
	runtime.Gosched()
	s.mtx.Lock()
	s.in--
	s.mtx.Unlock()
	if fail {
		return k, errRead
	}
	return k, nil
}

// c07writers: several goroutines write packets.
func (x *Ctx) c07writers(idx int, r *lib.Rand, large bool) {
	sw := &shortWriter{r: r.Fork(), failAt: -1}
	if !r.OneIn(3) {
		sw.max = lib.PickOf(r, 1, 2, 5, 100, 3000)
	}
	ng := r.Range(1, 6)
	if large {
		ng = r.Range(1, 2)
		if sw.max > 0 {
			sw.max = lib.PickOf(r, 4096, 65535, 1<<20)
		}
	}
	pkts := make([][]*lib.WPacket, ng)
	total := 0
	for g := range pkts {
		n := r.Range(1, 12)
		if large {
			n = r.Range(1, 2)
		}
		for i := range n {
			size := lib.PickOf(r, 1, 5, 40, 2040, 5000) + r.Intn(30)
			if large {
				size = lib.PickOf(r, 1<<16, 1<<18, 1<<20, 1<<22, 1<<23, frameLimit-100, r.Range(1<<20, frameLimit-100)) + r.Range(-20, 20)
			}
			p := &lib.WPacket{Kind: lib.WData, Data: r.Bytes(size)}
			copy(p.Data, fmt.Sprintf("%d/%d", g, i))
			if sw.max > 0 && sw.max < 10 && len(p.Data) > 100 {
				p.Data = p.Data[:100]
			}
			if r.OneIn(4) {
				p = &lib.WPacket{Kind: lib.WStart, Service: fmt.Sprint(g), Method: fmt.Sprint(i), Data: p.Data}
			}
			pkts[g] = append(pkts[g], p)
			total += len(p.Encode()) + 4
		}
	}
	if r.OneIn(3) {
		sw.failAt = r.Intn(total)
	}
	desc := map[string]any{"writers": ng, "bytes": total, "max_write": sw.max, "fail_at": sw.failAt}
	prw := srpc.NewPacketReadWriter(sw)
	ok := make([]int, ng)
	rawOne := make([]bool, ng)
	for g := range rawOne {
		rawOne[g] = sw.max == 0 && sw.failAt < 0 && r.OneIn(3)
	}
	done := x.Do(idx, desc, "writing packets", x.Sched(r), r.Fork(), func() {
		var wg sync.WaitGroup
		for g := range pkts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range pkts[g] {
					if rawOne[g] {
						// whole frames from elsewhere
						b := p.Encode()
						if n, err := prw.Write(append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)); err != nil || n != len(b)+4 {
							return
						}
					} else if err := prw.WritePacket(toPacket(p)); err != nil {
						return
					}
					ok[g]++
				}
			}()
		}
		wg.Wait()
	})
	if !done {
		return
	}
	got, _, rest, err := lib.DecodeStream(sw.buf.Bytes())
	if err != nil {
		x.Rep.Violate("corrupt-stream", idx, desc, "the written bytes are not a sequence of packets: packet %d is invalid", len(got))
		return
	}
	if sw.failAt < 0 && len(rest) != 0 {
		x.Rep.Violate("corrupt-stream", idx, desc, "%d bytes are left after %d packets although no write failed", len(rest), len(got))
		return
	}
	next := make([]int, ng)
	for k, p := range got {
		found := false
		for g := range pkts {
			if next[g] < len(pkts[g]) && pkts[g][next[g]].Equal(p) {
				next[g]++
				found = true
				break
			}
		}
		if !found {
			x.Rep.Violate("order", idx, desc, "packet #%d of the stream (%v) is not the next packet of any writer", k, p)
			return
		}
	}
	for g := range pkts {
		if ok[g] > next[g] {
			x.Rep.Violate("lost-packet", idx, desc, "writer %d wrote %d packets successfully, %d are in the stream", g, ok[g], next[g])
		}
		if sw.failAt < 0 && ok[g] != len(pkts[g]) {
			x.Rep.Violate("write-failed", idx, desc, "writer %d: writing packet %d failed on a working stream", g, ok[g])
		}
	}
	x.Rep.Count("packets-written", len(got))
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(total), uint64(sw.max), uint64(sw.failAt)))
	if idx%100 == 0 {
		x.Rep.Sample(desc)
	}
}

// toPacket builds the packet of the library.
func toPacket(p *lib.WPacket) *srpc.Packet {
	switch p.Kind {
	case lib.WStart:
		return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: p.Service, RpcMethod: p.Method, Data: p.Data, DataIsZero: p.DataIsZero}}}
	case lib.WData:
		return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: p.Data, DataIsZero: p.DataIsZero, Complete: p.Complete, Error: p.Error}}}
	case lib.WCancel:
		return &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: p.Cancel}}
	}
	return &srpc.Packet{}
}

// fromPacket reads the packet of the library.
func fromPacket(p *srpc.Packet) *lib.WPacket {
	switch b := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		return &lib.WPacket{Kind: lib.WStart, Service: b.CallStart.GetRpcService(), Method: b.CallStart.GetRpcMethod(), Data: b.CallStart.GetData(), DataIsZero: b.CallStart.GetDataIsZero()}
	case *srpc.Packet_CallData:
		return &lib.WPacket{Kind: lib.WData, Data: b.CallData.GetData(), DataIsZero: b.CallData.GetDataIsZero(), Complete: b.CallData.GetComplete(), Error: b.CallData.GetError()}
	case *srpc.Packet_CallCancel:
		return &lib.WPacket{Kind: lib.WCancel, Cancel: b.CallCancel}
	}
	return &lib.WPacket{}
}
