package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"sync"
)

// Violation is a violation of the property.
type Violation struct {
	// Key identifies the kind of failure (for known findings).
	Key string `json:"key"`
	// Msg describes the violation.
	Msg string `json:"msg"`
	// Case is the case which failed.
	Case any `json:"case,omitempty"`
	// Index is the index of the case.
	Index int `json:"index"`
}

// Report is the result of one worker.
type Report struct {
	mtx         sync.Mutex
	Evaluations int                 `json:"evaluations"`
	Sigs        map[uint64]int      `json:"-"`
	SigList     []string            `json:"sigs"`
	Counters    map[string]int      `json:"counters"`
	Samples     []any               `json:"samples"`
	Violations  []*Violation        `json:"violations"`
	Findings    []*Violation        `json:"findings"`
	Inconcl     []Inconclusive      `json:"inconclusive"`
	HistList    []string            `json:"hists"`
	Sets        map[string][]string `json:"sets"`
	sets        map[string]map[string]struct{}
	hists       map[uint64]struct{}
}

// Inconclusive is a case which gave no answer in time.
type Inconclusive struct {
	Index int    `json:"index"`
	Msg   string `json:"msg"`
}

// Hist records the signature of an observed history.
func (r *Report) Hist(h uint64) {
	r.mtx.Lock()
	if r.hists == nil {
		r.hists = map[uint64]struct{}{}
	}
	r.hists[h] = struct{}{}
	r.mtx.Unlock()
}

// NewReport makes a report.
func NewReport() *Report {
	return &Report{Sigs: map[uint64]int{}, Counters: map[string]int{}, sets: map[string]map[string]struct{}{}}
}

// Eval counts a case with a signature; nontrivial cases only have sig != 0.
func (r *Report) Eval(sig uint64) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.Evaluations++
	if sig != 0 {
		r.Sigs[sig]++
	}
}

// Count adds to a counter.
func (r *Report) Count(name string, n int) {
	if n == 0 {
		return
	}
	r.mtx.Lock()
	r.Counters[name] += n
	r.mtx.Unlock()
}

// Set adds an element to a named set (distinct things observed).
func (r *Report) Set(name, el string) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	m := r.sets[name]
	if m == nil {
		m = map[string]struct{}{}
		r.sets[name] = m
	}
	m[el] = struct{}{}
}

// Sample records a sample case (a few only).
func (r *Report) Sample(v any) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, v)
	}
}

// Violate records a violation.
func (r *Report) Violate(key string, idx int, c any, format string, args ...any) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, &Violation{Key: key, Msg: fmt.Sprintf(format, args...), Case: c, Index: idx})
	}
}

// Finding records a failure which may be a listed known finding (once per key).
func (r *Report) Finding(key string, idx int, c any, format string, args ...any) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.Counters["finding:"+key]++
	if r.Counters["finding:"+key] == 1 {
		r.Findings = append(r.Findings, &Violation{Key: key, Msg: fmt.Sprintf(format, args...), Case: c, Index: idx})
	}
}

// NumViolations is the number of violations.
func (r *Report) NumViolations() int {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	return len(r.Violations)
}

// Inconclusive records an inconclusive case.
func (r *Report) Inconclusive(idx int, format string, args ...any) {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.Inconcl = append(r.Inconcl, Inconclusive{idx, fmt.Sprintf(format, args...)})
}

// Write writes the report.
func (r *Report) Write(path string) error {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.SigList = r.SigList[:0]
	for s := range r.Sigs {
		r.SigList = append(r.SigList, fmt.Sprintf("%016x", s))
	}
	sort.Strings(r.SigList)
	r.HistList = r.HistList[:0]
	for h := range r.hists {
		r.HistList = append(r.HistList, fmt.Sprintf("%016x", h))
	}
	r.Sets = map[string][]string{}
	for n, m := range r.sets {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		r.Sets[n] = l
	}
	data, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(path, data, 0o644)
}
