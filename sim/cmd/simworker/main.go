// Command simworker executes simulated runs and reports what they did as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
	"zntr.io/solid/zz_verif/worlds"
)

// Found is a violation together with everything needed to repeat it.
type Found struct {
	kit.Violation
	World string          `json:"world"`
	Batch string          `json:"batch"`
	Index int64           `json:"index"`
	Seed  uint64          `json:"seed"`
	Vals  map[int][]int32 `json:"vals"`
	Hash  string          `json:"hash"`
	Steps int64           `json:"steps"`
	Min   string          `json:"minimised,omitempty"`
	Log   []string        `json:"trace,omitempty"`
}

// Report is the outcome of a batch.
type Report struct {
	Runs, Nontrivial, Aborted  int64
	Ops, Steps, Yields         int64
	Switches, Preempts         int64
	Crashes                    int64
	SimSecs                    int64
	MaxOver                    int
	Faults, Probes, Notes      map[string]int64
	Others                     map[string]int64 // violations of other properties seen
	Found                      []Found
	Hashes                     []string
	States                     int64
	Rechecked, RecheckMismatch int64
	Mismatch                   string
	Harness                    []string
	Samples                    []Sample
	NextIndex                  int64
	Stuck                      bool
	Wall                       float64
	Entropy                    int64
}

// Sample is one run written out.
type Sample struct {
	Index    int64
	Profile  string
	Nodes    int
	Agents   int
	Ops      int64
	Switches int64
	Faults   map[string]int64
	Decided  map[string]int64
	Trace    []string
}

func execute(world, prop string, seed uint64, vals map[int][]int32, verbose, race bool) (*kit.Run, bool) {
	r := kit.New(prop, world, seed, vals, race)
	r.E.Verbose = verbose
	fn := worlds.All[world]
	ok := simrt.Run(func() { fn(r) })
	e := r.E
	rlog.collect(r)
	hang := func(sig, f string, a ...any) {
		for _, p := range append([]string{"C22", "C21"}, r.Live...) {
			r.Fail(p, sig+":"+world, f, a...)
		}
	}
	switch {
	case e.Deadlock:
		hang("deadlock", "every task is blocked: %s", e.Reason)
	case !ok || e.ExtStuck:
		hang("stuck", "a call never returns (blocked outside the simulator)")
	case e.Aborted && strings.HasPrefix(e.Reason, "step limit"):
		hang("no-progress", "the run makes no progress: %s", e.Reason)
	case e.Aborted && strings.HasPrefix(e.Reason, "panic in task go") && strings.Contains(e.Reason, simrt.ErrEntropy.Error()):
		// some components panic by design when the entropy source fails
	case e.Aborted && strings.HasPrefix(e.Reason, "panic in task go"):
		r.Fail("C21", "goroutine-panic:"+world, "a goroutine of the code panicked: %s\n%s", e.Reason, simrt.PanicStack)
	}
	return r, ok
}

func used(e *simrt.Engine) map[int][]int32 {
	m := map[int][]int32{}
	for i := range e.Streams {
		s := &e.Streams[i]
		n := s.Pos
		if n > len(s.Vals) {
			n = len(s.Vals)
		}
		if n > 0 {
			m[i] = append([]int32(nil), s.Vals[:n]...)
		}
	}
	return m
}

func harnessError(r *kit.Run) string {
	if r.E.Aborted && strings.HasPrefix(r.E.Reason, "panic in task ") && !strings.HasPrefix(r.E.Reason, "panic in task go") {
		return r.E.Reason + "\n" + simrt.PanicStack
	}
	return ""
}

func main() {
	mode := flag.String("mode", "batch", "batch, min or replay")
	world := flag.String("world", "oauth", "")
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int64("from", 0, "")
	count := flag.Int64("count", 100, "")
	stride := flag.Int64("stride", 1, "")
	wall := flag.Float64("wall", 30, "")
	race := flag.Bool("race", false, "")
	known := flag.String("known", "", "signatures to keep counting instead of stopping on")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	budget := flag.Float64("budget", 20, "")
	progress := flag.String("progress", "", "")
	flag.Parse()
	if f := os.Getenv("SIMPROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil && pprof.StartCPUProfile(w) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	switch *mode {
	case "batch":
		batch(*world, *prop, *seed, *from, *count, *stride, *wall, *race, *known, *out, *progress)
	case "trace":
		// prints the trace of one run
		r, _ := execute(*world, *prop, simrt.Mix(*seed, uint64(*from)+1), nil, true, *race)
		for i := int64(1); i < *count; i++ {
			h := r.E.Hash
			r, _ = execute(*world, *prop, simrt.Mix(*seed, uint64(*from)+1), nil, true, *race)
			if r.E.Hash != h {
				fmt.Println("differs at repetition", i)
				break
			}
		}
		for _, l := range r.E.Log {
			fmt.Println(l)
		}
		fmt.Printf("hash %016x steps %d\n", r.E.Hash, r.E.Steps)
	case "min":
		minimise(*in, *out, *budget, *race)
	case "replay":
		replay(*in, *out, *race)
	}
}

func batch(world, prop string, seed uint64, from, count, stride int64, wall float64, race bool, known, out, progress string) {
	start := time.Now()
	rep := &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, Notes: map[string]int64{}, Others: map[string]int64{}}
	kn := map[string]bool{}
	for _, k := range strings.Split(known, "\n") {
		if k != "" {
			kn[k] = true
		}
	}
	var pf *os.File
	if progress != "" {
		pf, _ = os.Create(progress)
	}
	hashes := map[uint64]bool{}
	states := map[uint64]struct{}{}
	seen := map[string]int{}
	i := from
	fresh := 0
	for n := int64(0); n < count; n++ {
		if time.Since(start).Seconds() > wall || fresh >= 3 {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		rs := simrt.Mix(seed, uint64(i)+1)
		r, ok := execute(world, prop, rs, nil, n == 0 && from < 3, race)
		e := r.E
		rep.Runs++
		rep.Ops += r.Ops
		rep.Steps += e.Steps
		rep.Yields += e.Yields
		rep.Switches += e.Switches
		rep.Preempts += e.Preempts
		rep.Crashes += e.Crashes
		rep.SimSecs += (e.Now - r.Start) / 1e9
		rep.Entropy += e.EntropyReads
		if e.MaxOver > rep.MaxOver {
			rep.MaxOver = e.MaxOver
		}
		if e.Aborted {
			rep.Aborted++
		}
		nf, nn := int64(0), int64(0)
		for k, v := range r.Faults {
			rep.Faults[k] += v
			nf += v
		}
		for k, v := range r.Probes {
			rep.Probes[k] += v
		}
		for k, v := range r.Notes {
			rep.Notes[k] += v
			nn += v
		}
		for k := range r.States {
			states[k] = struct{}{}
		}
		if nn > 0 && (nf > 0 || e.Switches > 4) {
			if !hashes[e.Hash] {
				hashes[e.Hash] = true
				rep.Nontrivial++
			}
		}
		if n == 0 && from < 3 {
			tr := e.Log
			if len(tr) > 40 {
				tr = tr[:40]
			}
			rep.Samples = append(rep.Samples, Sample{i, r.Cfg.Profile, r.Cfg.Nodes, r.Cfg.Agents, r.Ops, e.Switches, r.Faults, r.Notes, tr})
		}
		if h := harnessError(r); h != "" {
			rep.Harness = append(rep.Harness, fmt.Sprintf("run %d: %s", i, h))
			if len(rep.Harness) > 3 {
				break
			}
		}
		for _, v := range r.Viol {
			if v.Prop != prop {
				rep.Others[v.Prop+" "+v.Sig]++
				continue
			}
			key := v.Prop + " " + v.Sig
			seen[key]++
			if seen[key] == 1 {
				rep.Found = append(rep.Found, Found{Violation: v, World: world, Batch: prop, Index: i, Seed: rs, Vals: used(e), Hash: fmt.Sprintf("%016x", e.Hash), Steps: e.Steps})
				if !kn[v.Sig] {
					fresh++
				}
			} else {
				rep.Others[key]++
			}
		}
		if !ok {
			rep.Stuck = true
			i += stride
			break
		}
		if n%50 == 7 {
			r2, ok2 := execute(world, prop, rs, nil, false, race)
			rep.Rechecked++
			if r2.E.Hash != e.Hash || r2.E.Steps != e.Steps {
				rep.RecheckMismatch++
				rep.Mismatch = fmt.Sprintf("run %d: %016x/%d vs %016x/%d", i, e.Hash, e.Steps, r2.E.Hash, r2.E.Steps)
			}
			if !ok2 {
				rep.Stuck = true
				break
			}
		}
		i += stride
	}
	rep.NextIndex = i
	for h := range hashes {
		rep.Hashes = append(rep.Hashes, fmt.Sprintf("%x", h))
	}
	rep.States = int64(len(states))
	rep.Wall = time.Since(start).Seconds()
	write(out, rep)
}

func write(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if path == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func load(path string) *Found {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil {
		panic(err)
	}
	return f
}

func has(r *kit.Run, f *Found) bool {
	for _, v := range r.Viol {
		if v.Prop == f.Prop && v.Sig == f.Sig {
			return true
		}
	}
	return false
}

func replay(in, out string, race bool) {
	f := load(in)
	vals := f.Vals
	if vals == nil {
		vals = map[int][]int32{}
	}
	r, ok := execute(f.World, f.Batch, f.Seed, vals, true, race)
	for i := 0; i < 4 && race && ok && !has(r, f); i++ {
		r, ok = execute(f.World, f.Batch, f.Seed, vals, true, race)
	}
	g := *f
	g.Log, g.Hash, g.Steps = r.E.Log, fmt.Sprintf("%016x", r.E.Hash), r.E.Steps
	g.Sig = ""
	for _, v := range r.Viol {
		if v.Prop == f.Prop && v.Sig == f.Sig {
			g.Violation = v
		}
	}
	write(out, &g)
}

func clone(m map[int][]int32) map[int][]int32 {
	c := map[int][]int32{}
	for k, v := range m {
		c[k] = append([]int32(nil), v...)
	}
	return c
}

func size(m map[int][]int32) (n int) {
	for _, v := range m {
		n += len(v)
	}
	return
}

func minimise(in, out string, budget float64, race bool) {
	f := load(in)
	start := time.Now()
	tries, kept := 0, 0
	best := clone(f.Vals)
	before := size(best)
	stuck := false
	over := func() bool { return time.Since(start).Seconds() > budget || stuck }
	try := func(c map[int][]int32) bool {
		if over() {
			return false
		}
		tries++
		r, ok := execute(f.World, f.Batch, f.Seed, c, false, race)
		if !ok {
			stuck = true
			return false
		}
		if !has(r, f) {
			return false
		}
		if race {
			// the pools of the Go runtime order tasks at random under the race
			// detector: keep what shows itself again and again
			for i := 0; i < 3; i++ {
				if r, ok = execute(f.World, f.Batch, f.Seed, c, false, race); !ok || !has(r, f) {
					stuck = !ok
					return false
				}
			}
		}
		kept++
		u := used(r.E)
		best = map[int][]int32{}
		for k, v := range u {
			for len(v) > 0 && v[len(v)-1] == 0 {
				v = v[:len(v)-1]
			}
			if len(v) > 0 {
				best[k] = v
			}
		}
		return true
	}
	if !try(clone(best)) {
		f.Min = "the violation did not reproduce in the minimiser; recorded choices kept"
		write(out, f)
		return
	}
	keys := func() []int {
		var k []int
		for i := 0; i < simrt.NumStreams; i++ {
			if len(best[i]) > 0 {
				k = append(k, i)
			}
		}
		return k
	}
	for round := 0; round < 6 && !over(); round++ {
		k0 := kept
		for _, k := range keys() {
			c := clone(best)
			delete(c, k)
			try(c)
		}
		// cut tails
		for _, k := range keys() {
			for n := len(best[k]) / 2; n > 0 && !over(); n /= 2 {
				for len(best[k]) >= n && n > 0 {
					c := clone(best)
					c[k] = c[k][:len(c[k])-n]
					if !try(c) {
						break
					}
				}
			}
		}
		// delete blocks, then zero blocks
		for _, zero := range []bool{false, true} {
			for _, k := range keys() {
				for n := len(best[k]) / 2; n > 0 && !over(); n /= 2 {
					if n > 64 && zero {
						continue
					}
					for i := 0; i+n <= len(best[k]) && !over(); {
						c := clone(best)
						if zero {
							all := true
							for j := i; j < i+n; j++ {
								if c[k][j] != 0 {
									all = false
								}
								c[k][j] = 0
							}
							if all {
								i += n
								continue
							}
						} else {
							c[k] = append(c[k][:i:i], c[k][i+n:]...)
						}
						if !try(c) || zero {
							i += n
						}
					}
				}
			}
		}
		// lower values
		for _, k := range keys() {
			for i := 0; i < len(best[k]) && !over(); i++ {
				for _, d := range []int32{1, 2} {
					if i < len(best[k]) && best[k][i] > 1 {
						c := clone(best)
						if d == 1 {
							c[k][i] = 1
						} else {
							c[k][i] /= 2
						}
						try(c)
					}
				}
			}
		}
		if kept == k0 {
			break
		}
	}
	r, _ := execute(f.World, f.Batch, f.Seed, best, true, race)
	for i := 0; i < 4 && race && !has(r, f); i++ {
		r, _ = execute(f.World, f.Batch, f.Seed, best, true, race)
	}
	if !has(r, f) {
		f.Min = "minimisation is not stable; recorded choices kept"
		write(out, f)
		return
	}
	f.Vals = best
	for _, v := range r.Viol {
		if v.Prop == f.Prop && v.Sig == f.Sig {
			f.Violation = v
		}
	}
	f.Hash, f.Steps, f.Log = fmt.Sprintf("%016x", r.E.Hash), r.E.Steps, r.E.Log
	f.Min = fmt.Sprintf("choices %d -> %d in %d runs", before, size(best), tries)
	write(out, f)
}
