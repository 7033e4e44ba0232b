// Package vhook is called from scheduling points which the instrumenter inserts
// into a build copy of the code under test (through go build -overlay).
package vhook

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// RaceMode makes P perturb the schedule without any synchronisation, so that
// the race detector sees no happens-before edges made by the hooks.
// Must be set before any instrumented code runs.
var RaceMode bool

// RaceMask: yield if rand & RaceMask == 0.
var RaceMask uint32 = 7

// Sched is the schedule control of one case.
type Sched struct {
	// YieldMask: yield randomly if hash & YieldMask == 0 (0 = never).
	YieldMask uint64
	// Sleep: use short sleeps among the yields.
	Sleep bool
	// Seed of the yields.
	Seed uint64
	// Stalls: hit number (1-based) of the point at which to park, by point.
	Stalls map[int32]int32
	// Stop disables parking.
	Stop atomic.Bool

	hits   atomic.Uint64
	mtx    sync.Mutex
	counts map[int32]int32
	parked []*Parked
	nPark  atomic.Int32
	total  int
	log    []int32
}

// Parked is a goroutine parked at a point.
type Parked struct {
	Point int32
	ch    chan struct{}
}

var cur atomic.Pointer[Sched]

// seen are the points which were hit (bitmap by id).
var seen [1 << 14]atomic.Bool

// Set sets the current schedule (nil = none).
func Set(s *Sched) {
	if s != nil && len(s.Stalls) != 0 {
		s.counts = make(map[int32]int32, len(s.Stalls))
	}
	cur.Store(s)
}

// Seen returns the ids of the points hit so far.
func Seen() []int32 {
	var out []int32
	for i := range seen {
		if seen[i].Load() {
			out = append(out, int32(i))
		}
	}
	return out
}

// P is a scheduling point.
func P(id int32) {
	if RaceMode {
		if r := rand.Uint32(); r&RaceMask == 0 {
			if r>>16&15 == 0 {
				time.Sleep(time.Duration(r>>20) * 20 * time.Nanosecond)
			} else {
				runtime.Gosched()
			}
		}
		return
	}
	s := cur.Load()
	if s == nil {
		return
	}
	if !seen[id].Load() {
		seen[id].Store(true)
	}
	s.hit(id)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (s *Sched) hit(id int32) {
	n := s.hits.Add(1)
	if len(s.Stalls) != 0 {
		if nth, ok := s.Stalls[id]; ok && !s.Stop.Load() {
			s.mtx.Lock()
			c := s.counts[id] + 1
			s.counts[id] = c
			if c == nth && !s.Stop.Load() {
				pk := &Parked{Point: id, ch: make(chan struct{})}
				s.parked = append(s.parked, pk)
				s.total++
				s.log = append(s.log, id)
				s.nPark.Add(1)
				s.mtx.Unlock()
				<-pk.ch
				return
			}
			s.mtx.Unlock()
		}
	}
	if s.YieldMask != 0 {
		h := mix(s.Seed ^ uint64(id)<<32 ^ n)
		if h&s.YieldMask == 0 {
			switch h >> 40 & 7 {
			case 0:
				if s.Sleep {
					time.Sleep(time.Duration(h>>50&1023) * 20 * time.Nanosecond)
				} else {
					runtime.Gosched()
				}
			case 1, 2:
				for range h >> 50 & 7 {
					runtime.Gosched()
				}
			default:
				runtime.Gosched()
			}
		}
	}
}

// Hits is the number of points hit.
func (s *Sched) Hits() uint64 { return s.hits.Load() }

// NumParked is the number of goroutines parked now.
func (s *Sched) NumParked() int { return int(s.nPark.Load()) }

// TotalParked is the number of parkings so far, and the points.
func (s *Sched) TotalParked() (int, []int32) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return s.total, append([]int32(nil), s.log...)
}

// Release releases the i%n-th parked goroutine. Returns false if there is none.
func (s *Sched) Release(i int) bool {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	n := len(s.parked)
	if n == 0 {
		return false
	}
	i %= n
	pk := s.parked[i]
	s.parked = append(s.parked[:i], s.parked[i+1:]...)
	s.nPark.Add(-1)
	close(pk.ch)
	return true
}

// ReleaseAll stops parking and releases all.
func (s *Sched) ReleaseAll() {
	s.Stop.Store(true)
	for s.Release(0) {
	}
}

// SchedSig is a signature of the schedule.
func (s *Sched) SchedSig() uint64 {
	h := mix(s.Seed ^ s.YieldMask)
	for p, n := range s.Stalls {
		h ^= mix(uint64(p)<<32 | uint64(n))
	}
	return h
}
