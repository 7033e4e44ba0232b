package lib

import (
	"strconv"
	"strings"
)

// Archetypes of calls.
const (
	AUnary = iota
	AUnaryErr
	AUnhandled
	ANoResponse
	AClientStream
	AServerStream
	AEcho
	ADuplex
	AServerHalfFirst
	AClientHalfFirst
	AEarlyReturn
	AErrMidway
	AEmpty
	ADrainOnly
	// cancelling
	AXPre
	AXExecBlocked
	AXExecRace
	AXRecvBlocked
	AXServerSending
	AXClosePending
	AXStreamRace
	AXHandlerRecv
	AXAfterMessages
	// abandoned
	AAbandonUnread
	ASrvClose
	// the outcome stays the same after the connection failed, the cancel, the close
	AOutcomeKept
	// waits until the connection fails
	AFaultWait
	AFaultExec
	// does not read until the other calls ended
	AStaller
	// many small messages are sent before the receiver reads
	ABacklog
	numArche
)

var archeNames = [...]string{"unary", "unary-err", "unhandled", "no-response", "client-stream", "server-stream", "echo", "duplex", "server-half-first", "client-half-first", "early-return", "err-midway", "empty", "drain-only",
	"x-pre", "x-exec-blocked", "x-exec-race", "x-recv-blocked", "x-server-sending", "x-close-pending", "x-stream-race", "x-handler-recv", "x-after-messages", "abandon-unread", "server-close", "outcome-kept", "fault-wait", "fault-exec", "staller", "backlog"}

// Mixes.
var (
	PlainMix  = []int{AUnary, AUnary, AUnaryErr, AUnhandled, ANoResponse, AClientStream, AServerStream, AEcho, AEcho, ADuplex, ADuplex, AServerHalfFirst, AClientHalfFirst, AEarlyReturn, AErrMidway, AEmpty}
	CancelMix = []int{AXPre, AXExecBlocked, AXExecRace, AXExecRace, AXRecvBlocked, AXServerSending, AXServerSending, AXClosePending, AXStreamRace, AXStreamRace, AXHandlerRecv, AXAfterMessages}
)

// GenOpts are the options of the generator.
type GenOpts struct {
	Mix []int
	// MaxMsgs limits the number of messages per direction.
	MaxMsgs int
	// Big is the weight of big messages.
	Big int
	// Small: only tiny messages.
	Small bool
	// Huge: messages up to the largest possible.
	Huge bool
}

var errTexts = []string{"", "boom", "unimplemented", "EOF", "context canceled", "x", "näïve ☃ error", "line1\nline2\x00z", strings.Repeat("long ", 700), strings.Repeat("longer ", 10000), " ", "unexpected packet after rpc was completed", "EOF", "unexpected EOF", "context deadline exceeded", "read: EOF", "wait: context canceled", "io: read/write on closed pipe", "i/o timeout", "use of closed network connection"}

var svcNames = []string{"verif.Svc", "a", "x.y.z.VeryLongServiceName.With.Many.Parts", "svc/with/slash", "сервис", "S", " s ", "a\x00b", strings.Repeat("long.", 60), strings.Repeat("longer/", 900)}

// GenCall makes a call.
func GenCall(r *Rand, id int, o GenOpts) *CallSpec {
	a := o.Mix[r.Intn(len(o.Mix))]
	return GenArche(r, id, a, o)
}

// GenArche makes a call of the archetype.
func GenArche(r *Rand, id, a int, o GenOpts) *CallSpec {
	if o.MaxMsgs == 0 {
		o.MaxMsgs = 8
	}
	sz := func() int {
		if o.Small {
			return PickOf(r, 0, 0, 1, 3, 10, 40)
		}
		if o.Huge && r.OneIn(2) {
			return PickOf(r, 1<<20, 1<<22, 1<<22, 5_000_000, 1<<23, 9_980_000) + r.Range(-9, 9)
		}
		return Size(r, o.Big)
	}
	sp := &CallSpec{ID: id, Svc: svcNames[r.Intn(len(svcNames))], Arche: archeNames[a]}
	sp.Method = PickOf(r, "M", "Do/It", "m.x", "метод", " m", strings.Repeat("Long", 80)) + "-" + strconv.Itoa(id)
	sp.Reuse = r.OneIn(4)
	n := func() int {
		if r.OneIn(4) {
			return r.Range(0, o.MaxMsgs*3)
		}
		return r.Range(1, o.MaxMsgs)
	}
	sends := func(k int) (out []Op) {
		for range k {
			out = append(out, Op{OpSend, sz()})
			if r.OneIn(4) {
				out = append(out, Op{OpYield, r.Range(1, 20)})
			}
		}
		return
	}
	first := func() {
		if r.OneIn(2) {
			sp.HasFirst, sp.FirstSz = true, sz()
		}
	}
	exec := func() { sp.Exec, sp.HasFirst, sp.FirstSz = true, true, sz() }
	more := Op{OpRecvMore, 2}
	cat := func(xs ...[]Op) (out []Op) {
		for _, x := range xs {
			out = append(out, x...)
		}
		return
	}
	ops := func(x ...Op) []Op { return x }
	errRet := func() {
		sp.Ret, sp.SRet = RetErr, errTexts[r.Intn(len(errTexts))]
		if r.OneIn(5) {
			sp.Ret = RetErrUnhandled
		}
		if r.OneIn(6) {
			sp.Ret = RetCtxErr
		}
	}
	yield := Op{OpYield, r.Range(0, 40)}
	switch a {
	case AUnary:
		exec()
		sp.S = [][]Op{cat(ops(Op{OpRecv, 1}, yield), ops(Op{OpSend, sz()}))}
		if r.OneIn(6) { // the first of several messages is the response
			sp.S[0] = append(sp.S[0], sends(r.Range(1, 3))...)
		}
	case AUnaryErr:
		exec()
		errRet()
		sp.S = [][]Op{ops(Op{OpRecv, 1}, yield)}
		if r.OneIn(4) {
			sp.S = [][]Op{ops(yield)}
		}
	case AUnhandled:
		sp.Ret = RetUnhandled
		if r.OneIn(2) {
			exec()
			break
		}
		first()
		sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more)}
		if r.OneIn(2) {
			sp.C = append(sp.C, cat(sends(r.Range(0, 3)), ops(Op{OpCloseSend, 0})))
		}
	case ANoResponse:
		exec()
		sp.S = [][]Op{ops(Op{OpRecv, 1}, yield)}
		if r.OneIn(3) {
			sp.S[0] = append(sp.S[0], Op{OpCloseSend, 0})
		}
	case AClientStream:
		first()
		sp.C = [][]Op{cat(sends(n()), ops(Op{OpCloseSend, 0}, Op{OpRecv, 1}, Op{OpRecvEnd, 0}, more))}
		sp.S = [][]Op{cat(ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}), sends(1))}
	case AServerStream:
		sp.HasFirst, sp.FirstSz = true, sz()
		sp.C = [][]Op{ops(Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, more)}
		if r.OneIn(3) {
			sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more)}
		}
		sp.S = [][]Op{cat(ops(Op{OpRecv, 1}), sends(n()))}
		if r.OneIn(3) {
			errRet()
		}
	case AEcho:
		first()
		k := n()
		lock := r.OneIn(2)
		var c, s []Op
		if sp.HasFirst {
			s = append(s, Op{OpRecvSend, sz()})
			if lock {
				c = append(c, Op{OpRecv, 1})
			}
		}
		for range k {
			if lock {
				c = append(c, Op{OpSend, sz()}, Op{OpRecv, 1})
			} else {
				c = append(c, Op{OpSend, sz()})
			}
			s = append(s, Op{OpRecvSend, sz()})
		}
		c = append(c, Op{OpCloseSend, 0})
		s = append(s, Op{OpRecvEnd, 0})
		if lock {
			sp.C = [][]Op{append(c, Op{OpRecvEnd, 0}, more)}
		} else {
			sp.C = [][]Op{c, ops(Op{OpRecvEnd, 0}, more)}
		}
		sp.S = [][]Op{s}
	case ADuplex:
		first()
		sp.C = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1})}
		if r.OneIn(3) {
			sp.S[0] = sp.S[0][:len(sp.S[0])-1]
		}
		if r.OneIn(4) {
			sp.Ret, sp.SRet = RetErr, "done with error"
			sp.S[0] = sends(n())
		}
	case AServerHalfFirst:
		// the server ends its side first, the client keeps sending
		first()
		sp.C = [][]Op{cat(ops(Op{OpRecvEnd, 0}, more), sends(n()), ops(Op{OpCloseSend, 0}, Op{OpSignal, 0}), ops(more))}
		sp.S = [][]Op{cat(sends(n()), ops(Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}))}
	case AClientHalfFirst:
		// the client ends its side first, the server keeps sending after it saw the end
		first()
		sp.C = [][]Op{cat(sends(n()), ops(Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, more))}
		sp.S = [][]Op{cat(ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 2}), sends(n()), ops(Op{OpCloseSend, 0}))}
		if r.OneIn(3) {
			sp.S[0] = append(cat(ops(Op{OpRecvEnd, 0}), sends(n())), Op{OpRecvMore, 1})
		}
	case AEarlyReturn:
		// the handler returns without reading what the client sends
		first()
		if r.OneIn(2) {
			errRet()
		}
		sp.C = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{cat(ops(Op{OpRecv, r.Range(0, 1)}), sends(r.Range(0, 4)), ops(yield))}
		if !sp.HasFirst {
			sp.S[0][0].Arg = 0
		}
	case AErrMidway:
		first()
		errRet()
		sp.C = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{cat(sends(n()), ops(yield), sends(r.Range(0, 3)))}
	case AEmpty:
		if r.OneIn(2) {
			sp.C = [][]Op{ops(Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 2})}
		} else {
			sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{ops(yield)}
		}
	case ADrainOnly:
		first()
		sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{sends(n())}

	case AXPre:
		sp.PreCancl = true
		sp.Cancels = true
		if r.OneIn(2) {
			exec()
			sp.S = [][]Op{ops(Op{OpRecv, 1}, Op{OpSend, sz()})}
		} else {
			first()
			sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more), append(sends(n()), Op{OpCloseSend, 0})}
			sp.S = [][]Op{ops(Op{OpRecvEnd, 0}, Op{OpWaitCtx, 0})}
		}
	case AXExecBlocked:
		exec()
		sp.Cancels = true
		sp.C = [][]Op{ops(Op{OpWaitSig, 0}, yield, Op{OpCancel, 0})}
		if r.OneIn(2) {
			sp.S = [][]Op{ops(Op{OpRecv, 1}, Op{OpSignal, 0}, Op{OpWaitCtx, 0})}
		} else {
			sp.S = [][]Op{ops(Op{OpSignal, 0}, Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}, Op{OpWaitCtx, 0})}
		}
	case AXExecRace:
		exec()
		sp.Cancels = true
		sp.C = [][]Op{ops(yield, Op{OpCancel, 0})}
		sp.S = [][]Op{ops(Op{OpRecv, 1}, Op{OpYield, r.Range(0, 40)}, Op{OpSend, sz()})}
		switch r.Intn(4) {
		case 0:
			errRet()
			sp.S[0] = sp.S[0][:2]
		case 1:
			sp.S[0] = append(sp.S[0][:2], Op{OpWaitCtx, 0})
		}
	case AXRecvBlocked:
		first()
		sp.Cancels = true
		k := PickOf(r, OpCancel, OpClose)
		sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more), append(sends(r.Range(0, 3)), Op{OpWaitSig, 0}, yield, Op{k, 0})}
		sp.S = [][]Op{append(sends(r.Range(0, 3)), Op{OpSignal, 0}, Op{OpWaitCtx, 0})}
		if r.OneIn(2) {
			sp.S = [][]Op{sp.S[0], ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1})}
		}
	case AXServerSending:
		// cancelled while the peer is sending (and until it fails)
		first()
		sp.Cancels = true
		k := PickOf(r, OpCancel, OpClose)
		if r.OneIn(2) {
			sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, more), ops(Op{OpWaitSig, 0}, yield, Op{k, 0})}
		} else {
			sp.C = [][]Op{ops(Op{OpRecv, r.Range(0, 4)}, yield, Op{k, 0}, Op{OpRecvEnd, 0}, more)}
		}
		sp.S = [][]Op{ops(Op{OpWaitCtx, 0}), cat(sends(3), ops(Op{OpSignal, 0}), sends(60))}
	case AXClosePending:
		// the client closes without waiting for the server at all
		first()
		sp.Cancels = true
		sp.C = [][]Op{append(sends(r.Range(0, 4)), yield, Op{PickOf(r, OpCancel, OpClose), 0})}
		sp.S = [][]Op{ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}, Op{OpWaitCtx, 0})}
	case AXStreamRace:
		first()
		sp.Cancels = true
		k := PickOf(r, OpCancel, OpClose)
		sp.C = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, more), ops(yield, Op{k, 0})}
		sp.S = [][]Op{append(sends(n()), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0})}
		if k == OpClose { // Close concurrently with a send is fine, log is per kind
			sp.C = [][]Op{sp.C[0], sp.C[1], ops(yield, Op{k, 0})}
		}
		if r.OneIn(3) {
			errRet()
		}
	case AXHandlerRecv:
		// the handler waits for messages when the caller cancels
		first()
		sp.Cancels = true
		sp.C = [][]Op{append(sends(n()), Op{OpWaitSig, 0}, yield, Op{PickOf(r, OpCancel, OpClose), 0})}
		sp.S = [][]Op{ops(Op{OpSignal, 0}, Op{OpRecvEnd, 0}, Op{OpRecvMore, 2}, Op{OpWaitCtx, 0})}
		if r.OneIn(2) {
			sp.S = [][]Op{ops(Op{OpSignal, 0}, Op{OpRecvEnd, 0}), ops(Op{OpWaitCtx, 0})}
		}
		if sp.C[0][len(sp.C[0])-1].K == OpCancel {
			// the cancelled caller is waiting on the call
			sp.C = append(sp.C, ops(Op{OpRecvEnd, 0}, more))
		}
	case AXAfterMessages:
		first()
		sp.Cancels = true
		k := r.Range(1, 5)
		sp.C = [][]Op{ops(Op{OpRecv, k}, yield, Op{PickOf(r, OpCancel, OpClose), 0}, Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{cat(sends(k+r.Range(0, 2)), ops(Op{OpWaitCtx, 0}))}
	case AAbandonUnread:
		// the client never reads what the server sends, then closes
		first()
		sp.Cancels = true
		sp.C = [][]Op{append(sends(n()), Op{OpWaitSig, 0}, yield, Op{OpClose, 0})}
		sp.S = [][]Op{cat(sends(n()), ops(Op{OpSignal, 0}, Op{OpWaitCtx, 0}))}
	case AOutcomeKept:
		first()
		if r.OneIn(4) {
			sp.Ret = RetUnhandled
		} else if !r.OneIn(3) {
			errRet()
		}
		sp.Cancels = true
		sp.C = [][]Op{ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}, Op{PickOf(r, OpHook, OpHook, OpCancel, OpClose), 0}, yield, Op{OpRecvMore, 2}, Op{OpHook, 0}, Op{OpRecvMore, 2})}
		if r.OneIn(2) {
			sp.C[0] = append(append(sends(r.Range(0, 2)), Op{OpCloseSend, 0}), sp.C[0]...)
		}
		sp.S = [][]Op{cat(sends(r.Range(0, 4)), ops(yield))}
		if sp.Ret == RetNil && r.OneIn(2) {
			// half-close and wait for the end
			sp.S[0] = append(sp.S[0], Op{OpCloseSend, 0}, Op{OpWaitCtx, 0})
		}
	case AFaultWait:
		first()
		sp.C = [][]Op{sends(r.Range(0, 3)), ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{sends(r.Range(0, 3)), ops(Op{OpRecvEnd, 0}, more), ops(Op{OpWaitCtx, 0})}
		if r.OneIn(2) { // one side or both half-closed before
			sp.C[0] = append(sp.C[0], Op{OpCloseSend, 0})
		}
		if r.OneIn(3) {
			sp.S[0] = append(sp.S[0], Op{OpCloseSend, 0})
		}
	case AFaultExec:
		exec()
		sp.S = [][]Op{ops(Op{OpRecv, 1}, Op{OpWaitCtx, 0})}
		if r.OneIn(2) {
			sp.S = [][]Op{ops(Op{OpRecvEnd, 0}, more)}
		}
	case AStaller:
		first()
		sp.Waits, sp.Cancels = true, true
		big := func(k int) (out []Op) {
			for range k {
				out = append(out, Op{OpSend, PickOf(r, 1000, 30000, 100000)})
			}
			return
		}
		switch r.Intn(3) {
		case 0: // the client does not read
			sp.C = [][]Op{ops(Op{OpOthers, 0}, Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{big(r.Range(1, 12))}
		case 1: // the handler does not read
			sp.C = [][]Op{append(big(r.Range(1, 12)), Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{ops(Op{OpOthers, 0}, Op{OpRecvEnd, 0}, Op{OpSend, 5})}
		case 2: // nobody reads, then it is closed
			sp.C = [][]Op{append(big(r.Range(1, 12)), Op{OpOthers, 0}, Op{OpClose, 0})}
			sp.S = [][]Op{append(big(r.Range(1, 12)), Op{OpWaitCtx, 0})}
		}
	case ABacklog:
		first()
		k := PickOf(r, 100, 300, 1500, 5000)
		many := func() (out []Op) {
			for range k {
				out = append(out, Op{OpSend, r.Weighted(1, 2, 2) * r.Range(0, 10)})
			}
			return
		}
		if r.OneIn(2) { // to the server
			sp.C = [][]Op{append(many(), Op{OpSignal, 0}, Op{OpCloseSend, 0}, Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{ops(Op{OpWaitSig, 0}, yield, Op{OpRecvEnd, 0}, Op{OpRecvMore, 1})}
		} else {
			sp.C = [][]Op{ops(Op{OpWaitSig, 0}, yield, Op{OpRecvEnd, 0}, more)}
			sp.S = [][]Op{append(many(), Op{OpSignal, 0})}
		}
	case ASrvClose:
		// the handler closes its stream
		first()
		sp.Cancels = true
		sp.C = [][]Op{append(sends(r.Range(0, 4)), Op{OpCloseSend, 0}), ops(Op{OpRecvEnd, 0}, more)}
		sp.S = [][]Op{cat(sends(r.Range(0, 3)), ops(yield, Op{OpClose, 0}))}
		if r.OneIn(2) {
			sp.S = [][]Op{ops(Op{OpRecvEnd, 0}, Op{OpRecvMore, 1}), sp.S[0]}
		}
	}
	switch a {
	case AXPre, AXRecvBlocked, AXServerSending, AXHandlerRecv, AXAfterMessages:
		// the cancel alone, without a close, ends a call its caller receives on
		cancels, closes, recvs := false, false, false
		for _, s := range sp.C {
			for _, o := range s {
				cancels = cancels || o.K == OpCancel
				closes = closes || o.K == OpClose
				recvs = recvs || o.K == OpRecvEnd
			}
		}
		if (cancels || sp.PreCancl) && recvs && !closes && r.OneIn(2) {
			sp.NoClose = true
		}
	}
	return sp
}

// Sig is a signature of the shape of the call.
func (sp *CallSpec) Sig() uint64 {
	h := Mix(HashStr(sp.Arche), uint64(sp.Ret), HashStr(sp.SRet))
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	h = Mix(h, b(sp.Exec), b(sp.HasFirst), uint64(sp.FirstSz), b(sp.Reuse), b(sp.PreCancl))
	for _, l := range [][][]Op{sp.C, sp.S} {
		for _, s := range l {
			for _, o := range s {
				h = Mix(h, uint64(o.K), uint64(o.Arg))
			}
			h = Mix(h, 99)
		}
	}
	return h
}

// Msgs is the number of messages in the scripts.
func (sp *CallSpec) Msgs() int {
	n := 0
	for _, l := range [][][]Op{sp.C, sp.S} {
		for _, s := range l {
			for _, o := range s {
				if o.K == OpSend || o.K == OpRecvSend {
					n++
				}
			}
		}
	}
	return n
}

// Script is a short form of the scripts.
func (sp *CallSpec) Script() string {
	var sb strings.Builder
	names := [...]string{"send", "closesend", "yield", "recv", "recv-to-end", "recv-more", "wait-ctx", "close", "cancel", "signal", "wait-signal", "recv+send", "hook", "wait-others"}
	if sp.Exec {
		sb.WriteString("exec ")
	}
	if sp.HasFirst {
		sb.WriteString("first(" + strconv.Itoa(sp.FirstSz) + ") ")
	}
	for i, l := range [][][]Op{sp.C, sp.S} {
		for _, s := range l {
			if i == 0 {
				sb.WriteString("C[")
			} else {
				sb.WriteString("S[")
			}
			for j, o := range s {
				if o.K == OpYield {
					continue
				}
				if j == 12 {
					sb.WriteString("...")
					break
				}
				sb.WriteString(names[o.K] + ":" + strconv.Itoa(o.Arg) + " ")
			}
			sb.WriteString("] ")
		}
	}
	return sb.String()
}
