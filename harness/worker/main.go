// Command worker runs the workloads and monitors of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"

	"verifharness/lib"
	"verifharness/vhook"
)

// Ctx is the context of a worker.
type Ctx struct {
	Prop    string
	Seed    uint64
	Shard   int
	NShards int
	Tier    string
	Rep     *lib.Report
	// Only, if >= 0, runs that case only, Repeat times.
	Only   int
	Repeat int
	// Scale multiplies the number of cases.
	Scale int
	// Keys are the failures of this property (nil = all).
	Keys map[string]bool

	// Override is the case to run (replay).
	Override *Case
}

// Thorough tells the tier.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Each runs f for each case index of the shard.
func (x *Ctx) Each(name string, n int, f func(idx int, r *lib.Rand)) {
	base := int(lib.HashStr(name)%1000) * 10_000_000
	if x.Scale > 1 {
		n *= x.Scale
	}
	if x.Only >= 0 {
		if x.Only < base || x.Only >= base+n {
			return
		}
		for range x.Repeat {
			f(x.Only, lib.NewRand(x.Seed, lib.HashStr(x.Prop), uint64(x.Only)))
			if x.Rep.NumViolations() != 0 || len(x.Rep.Inconcl) != 0 {
				return
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		if i%x.NShards != x.Shard {
			continue
		}
		if x.Rep.NumViolations() >= 3 || len(x.Rep.Inconcl) != 0 {
			return
		}
		cur = fmt.Sprintf("%s case %d", x.Prop, base+i)
		f(base+i, lib.NewRand(x.Seed, lib.HashStr(x.Prop), uint64(base+i)))
	}
	x.Rep.Count("cases:"+name, (n+x.NShards-1-x.Shard)/x.NShards)
}

var cur string

// Props are the checks by property.
var Props = map[string]func(x *Ctx){}

func main() {
	x := &Ctx{Rep: lib.NewReport()}
	var out string
	var race bool
	flag.StringVar(&x.Prop, "prop", "", "property")
	flag.Uint64Var(&x.Seed, "seed", 1, "seed")
	flag.IntVar(&x.Shard, "shard", 0, "shard")
	flag.IntVar(&x.NShards, "shards", 1, "shards")
	flag.StringVar(&x.Tier, "tier", "quick", "tier")
	flag.StringVar(&out, "out", "", "report file")
	flag.BoolVar(&race, "racemode", false, "race detector mode")
	flag.IntVar(&x.Only, "only", -1, "run that case only")
	flag.IntVar(&x.Repeat, "repeat", 300, "repetitions with -only")
	flag.IntVar(&x.Scale, "scale", 1, "multiply the number of cases")
	caseFile := flag.String("case", "", "replay the case in the file (with -only)")
	flag.Parse()
	if *caseFile != "" {
		b, err := os.ReadFile(*caseFile)
		if err == nil {
			var f struct {
				Case *Case `json:"case"`
			}
			if json.Unmarshal(b, &f) == nil && f.Case != nil && len(f.Case.Calls) != 0 {
				x.Override = f.Case
			}
		}
	}
	f := Props[x.Prop]
	if f == nil {
		var l []string
		for k := range Props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Fprintln(os.Stderr, "unknown property; have", l)
		os.Exit(2)
	}
	debug.SetMemoryLimit(3 << 30)
	if x.NShards > 1 {
		runtime.GOMAXPROCS(4)
	}
	vhook.RaceMode = race
	if race {
		raceMode = true
	}
	f(x)
	x.Rep.Count("vhook_points_seen", len(vhook.Seen()))
	for _, p := range vhook.Seen() {
		x.Rep.Set("points", fmt.Sprint(p))
	}
	if out != "" {
		if err := x.Rep.Write(out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		if err := x.Rep.Write("/dev/null"); err != nil {
			panic(err)
		}
		b, _ := json.MarshalIndent(map[string]any{"evals": x.Rep.Evaluations, "distinct": len(x.Rep.SigList), "counters": x.Rep.Counters, "violations": brief(x.Rep.Violations), "inconclusive": x.Rep.Inconcl}, "", " ")
		fmt.Println(string(b))
	}
}

var raceMode bool

func brief(vs []*lib.Violation) (out []string) {
	for _, v := range vs {
		c, _ := json.Marshal(v.Case)
		if len(c) > 700 {
			c = c[:700]
		}
		out = append(out, fmt.Sprintf("%s #%d: %s | %s", v.Key, v.Index, v.Msg, c))
	}
	return
}
