package lib

import (
	"bytes"
	"runtime"
	"strings"
	"time"

	"verifharness/vhook"
)

// Goroutine is one goroutine of a snapshot.
type Goroutine struct {
	ID    string
	State string
	Stack string
}

// Key is the stack without addresses and ids, for grouping.
func (g *Goroutine) Funcs() []string {
	var out []string
	for _, l := range strings.Split(g.Stack, "\n") {
		if l == "" || l[0] == '\t' {
			continue
		}
		if i := strings.LastIndexByte(l, '('); i > 0 && !strings.HasPrefix(l, "created by ") {
			l = l[:i]
		}
		if strings.HasPrefix(l, "created by ") {
			if i := strings.Index(l, " in goroutine"); i > 0 {
				l = l[:i]
			}
		}
		out = append(out, l)
	}
	return out
}

var stackBuf = make([]byte, 1<<20)

// Snapshot stops the world and returns all goroutines except the caller.
// Must only be called from one goroutine at a time.
func Snapshot() []*Goroutine {
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			return parseStacks(stackBuf[:n])
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

func parseStacks(b []byte) []*Goroutine {
	out := []*Goroutine{}
	for i, blk := range bytes.Split(b, []byte("\n\n")) {
		if i == 0 {
			continue // the caller
		}
		head, rest, _ := bytes.Cut(blk, []byte("\n"))
		h := string(head)
		if !strings.HasPrefix(h, "goroutine ") {
			continue
		}
		id, st, _ := strings.Cut(h[len("goroutine "):], " ")
		st = strings.TrimPrefix(st, "[")
		if j := strings.IndexByte(st, ']'); j >= 0 {
			st = st[:j]
		}
		if j := strings.IndexByte(st, ','); j >= 0 {
			st = st[:j]
		}
		out = append(out, &Goroutine{ID: id, State: st, Stack: string(rest)})
	}
	return out
}

// Blocked tells if a goroutine in that state only progresses if another does
// (or the network or a timer).
func Blocked(state string) bool {
	switch state {
	case "chan receive", "chan send", "select", "select (no cases)",
		"chan receive (nil chan)", "chan send (nil chan)",
		"sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock",
		"sync.Cond.Wait", "sync.WaitGroup.Wait", "semacquire", "IO wait",
		"finalizer wait", "force gc (idle)", "GC sweep wait", "GC scavenge wait",
		"GC worker (idle)", "cleanup wait", "debug call", "trace reader (blocked)":
		return true
	}
	return false
}

// Quiescent tells if every other goroutine is blocked.
func Quiescent(gs []*Goroutine) bool {
	for _, g := range gs {
		if !Blocked(g.State) {
			return false
		}
	}
	return true
}

// ForeignNetwork is set if real sockets are used: quiescence then needs a
// number of equal consecutive snapshots.
type WaitOpts struct {
	// Net: the case uses real sockets.
	Net bool
	// Sched is the schedule control, if any.
	Sched *vhook.Sched
	// Rand picks the goroutine to release.
	Rand *Rand
	// Idle, if set, is called when everything is blocked: may do the next step of
	// the case, and returns false if there is none.
	Idle func() bool
	// Watchdog is the wall clock limit (inconclusive).
	Watchdog time.Duration
}

// WaitResult is the result of Wait.
type WaitResult int

const (
	WaitDone WaitResult = iota
	// WaitStuck: everything is blocked and done was not signalled.
	WaitStuck
	// WaitTimeout: the watchdog fired: inconclusive.
	WaitTimeout
)

// Wait waits for done, releasing parked goroutines when everything else is
// blocked. If everything is blocked and nothing is parked: stuck.
func Wait(done <-chan struct{}, o WaitOpts) (WaitResult, []*Goroutine) {
	if o.Watchdog == 0 {
		o.Watchdog = 60 * time.Second
	}
	select {
	case <-done:
		return WaitDone, nil
	default:
	}
	start := time.Now()
	tick := 200 * time.Microsecond
	tm := time.NewTimer(tick)
	defer tm.Stop()
	quiet := 0
	var lastHits uint64
	var parkedSince time.Time
	for {
		select {
		case <-done:
			return WaitDone, nil
		case <-tm.C:
		}
		parked := o.Sched != nil && o.Sched.NumParked() != 0
		if !parked {
			parkedSince = time.Time{}
		} else if parkedSince.IsZero() {
			parkedSince = time.Now()
		} else if time.Since(parkedSince) > 100*time.Millisecond {
			// something polls: do not wait until everything is blocked
			o.Sched.Release(o.Rand.Intn(1 << 20))
			parkedSince = time.Time{}
		}
		var hits uint64
		if o.Sched != nil {
			hits = o.Sched.Hits()
		}
		if hits == lastHits {
			gs := Snapshot()
			if Quiescent(gs) {
				quiet++
				need := 3
				if o.Net {
					need = 40
				}
				if parked {
					need = 1
					if o.Net {
						need = 5
					}
				}
				if quiet >= need {
					if parked {
						o.Sched.Release(o.Rand.Intn(1 << 20))
						parkedSince = time.Time{}
						quiet = 0
					} else {
						select {
						case <-done:
							return WaitDone, nil
						default:
						}
						if o.Idle == nil || !o.Idle() {
							return WaitStuck, gs
						}
						quiet = 0
						tick = 200 * time.Microsecond
					}
				}
			} else {
				quiet = 0
			}
		} else {
			quiet = 0
		}
		lastHits = hits
		if time.Since(start) > o.Watchdog {
			return WaitTimeout, Snapshot()
		}
		if !parked && tick < 10*time.Millisecond {
			tick = tick * 3 / 2
		}
		if o.Net && tick > 2*time.Millisecond && quiet > 0 {
			tm.Reset(25 * time.Millisecond)
		} else {
			tm.Reset(tick)
		}
	}
}

// Settle waits until every other goroutine is blocked (best effort within the
// watchdog) and returns the snapshot, or nil if it did not settle.
func Settle(o WaitOpts) []*Goroutine {
	never := make(chan struct{})
	r, gs := Wait(never, o)
	if r == WaitStuck {
		return gs
	}
	return nil
}
