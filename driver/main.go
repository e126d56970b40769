// Command check decides one property: it instruments and builds the current
// tree of the repository, explores seeded simulated runs of it in parallel
// worker processes, and reports violations with a minimised replay file.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type found struct {
	Prop  string             `json:"property"`
	Sig   string             `json:"signature"`
	Msg   string             `json:"message"`
	World string             `json:"world"`
	Batch string             `json:"batch"`
	Index int64              `json:"index"`
	Seed  uint64             `json:"seed"`
	Vals  map[string][]int32 `json:"vals"`
	Hash  string             `json:"hash"`
	Steps int64              `json:"steps"`
	Min   string             `json:"minimised,omitempty"`
	Log   []string           `json:"trace,omitempty"`
	Race  bool               `json:"race,omitempty"`
	Note  string             `json:"note,omitempty"`
	// for runs that end the process
	Crash string `json:"process_output,omitempty"`
	Base  uint64 `json:"base_seed,omitempty"`
}

type report struct {
	Runs, Nontrivial, Aborted  int64
	Ops, Steps, Yields         int64
	Switches, Preempts         int64
	Crashes                    int64
	SimSecs                    int64
	MaxOver                    int
	Faults, Probes, Notes      map[string]int64
	Others                     map[string]int64
	Found                      []found
	Hashes                     []string
	States                     int64
	Rechecked, RecheckMismatch int64
	Mismatch                   string
	Harness                    []string
	Samples                    []json.RawMessage
	NextIndex                  int64
	Stuck                      bool
	Wall                       float64
	Entropy                    int64
}

var (
	root, repo string
	seed       uint64 = 1
	tier              = "quick"
)

func die(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func main() {
	root, _ = os.Getwd()
	repo = os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			die(2, "bad VERIF_SEED %q", v)
		}
		seed = uint64(n)
	}
	if v := os.Getenv("VERIF_TIER"); v != "" {
		tier = v
	}
	args := os.Args[1:]
	switch {
	case len(args) == 2 && args[0] == "-replay":
		os.Exit(replayCmd(args[1]))
	case len(args) == 1 && args[0] == "-setup":
		_, clean := build(false)
		clean()
		if _, err := os.Stat("sim/race"); err == nil {
			_, clean = build(true)
			clean()
		}
		fmt.Println("setup ok")
	case len(args) == 1:
		os.Exit(check(args[0]))
	default:
		die(2, "usage: check PROPERTY | -replay FILE | -setup")
	}
}

func run(dir string, limit time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.String(), err
}

func goenv(k string) string {
	o, err := run(root, time.Minute, "go", "env", k)
	if err != nil {
		die(2, "go env: %v %s", err, o)
	}
	return strings.TrimSpace(o)
}

// build instruments and compiles the current tree; it returns the worker.
func build(race bool) (string, func()) {
	dir := filepath.Join(root, ".build", fmt.Sprintf("w%d-%v", os.Getpid(), race))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die(2, "%v", err)
	}
	clean := func() { os.RemoveAll(dir) }
	instr := filepath.Join(dir, "instr")
	if o, err := run(root, 10*time.Minute, "go", "build", "-o", instr, "./tools/instr"); err != nil {
		clean()
		die(2, "building the instrumenter: %v\n%s", err, o)
	}
	if o, err := run(root, 5*time.Minute, instr, "-repo", repo, "-sim", filepath.Join(root, "sim"), "-out", dir, "-goroot", goenv("GOROOT"), "-modcache", goenv("GOMODCACHE")); err != nil {
		clean()
		die(2, "instrumenting: %v\n%s", err, o)
	}
	bin := filepath.Join(dir, "simworker")
	a := []string{"build", "-mod=mod", "-modfile=" + filepath.Join(dir, "go.mod"), "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin}
	if race {
		a = append(a, "-race")
	}
	a = append(a, "./zz_verif/cmd/simworker")
	if o, err := run(repo, 13*time.Minute, "go", a...); err != nil {
		clean()
		die(2, "building the simulation: %v\n%s", err, o)
	}
	return bin, clean
}

type finding struct{ prop, sig, text string }

// knownFindings reads the committed list of findings.
func knownFindings(prop string) []finding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var l []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "known: property=") {
			continue
		}
		t = strings.TrimPrefix(t, "known: property=")
		head, text, _ := strings.Cut(t, " | ")
		p, s, _ := strings.Cut(head, " signature=")
		if strings.TrimSpace(p) == prop {
			l = append(l, finding{prop, strings.TrimSpace(s), strings.TrimSpace(text)})
		}
	}
	return l
}

type state struct {
	rep    report
	hashes map[string]bool
	crash  []found
	// workers that ended for a reason that lies outside their runs
	lost    int
	lostWhy string
	err     []string
}

func add(m map[string]int64, n map[string]int64) {
	for k, v := range n {
		m[k] += v
	}
}

func (s *state) merge(r *report, race bool) {
	t := &s.rep
	t.Runs += r.Runs
	t.Aborted += r.Aborted
	t.Ops += r.Ops
	t.Steps += r.Steps
	t.Yields += r.Yields
	t.Switches += r.Switches
	t.Preempts += r.Preempts
	t.Crashes += r.Crashes
	t.SimSecs += r.SimSecs
	t.Entropy += r.Entropy
	if r.MaxOver > t.MaxOver {
		t.MaxOver = r.MaxOver
	}
	add(t.Faults, r.Faults)
	add(t.Probes, r.Probes)
	add(t.Notes, r.Notes)
	add(t.Others, r.Others)
	for i := range r.Found {
		r.Found[i].Race = race
	}
	t.Found = append(t.Found, r.Found...)
	for _, h := range r.Hashes {
		s.hashes[h] = true
	}
	t.States += r.States
	t.Rechecked += r.Rechecked
	t.RecheckMismatch += r.RecheckMismatch
	if r.Mismatch != "" {
		t.Mismatch = r.Mismatch
	}
	t.Harness = append(t.Harness, r.Harness...)
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.Wall += r.Wall
}

func workerEnv(bin string, race bool) []string {
	e := append(os.Environ(), "TZ=UTC")
	if race {
		// every report counts, also one that looks like an earlier one
		l := filepath.Join(filepath.Dir(bin), "race")
		e = append(e, "SIMRACELOG="+l, "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+l)
	}
	return e
}

// explore runs the batches of one world in parallel worker processes.
func (s *state) explore(bin, prop string, b batch, total int64, wall float64, known []finding) {
	workers := int64(runtime.NumCPU())
	if workers > 8 {
		workers = 8
	}
	if workers < 1 {
		workers = 1
	}
	var sigs []string
	for _, k := range known {
		sigs = append(sigs, k.sig)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	dir := filepath.Dir(bin)
	for w := int64(0); w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			left := (total + workers - 1) / workers
			next := w
			end := time.Now().Add(time.Duration(wall * float64(time.Second)))
			for restarts := 0; left > 0 && restarts < 6; restarts++ {
				lim := time.Until(end).Seconds()
				if lim < 1 && restarts > 0 {
					return
				}
				out := filepath.Join(dir, fmt.Sprintf("out-%s-%d-%d.json", b.World, w, restarts))
				prog := filepath.Join(dir, fmt.Sprintf("prog-%s-%d", b.World, w))
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration((lim+60)*float64(time.Second)))
				c := exec.CommandContext(ctx, bin, "-mode", "batch", "-world", b.World, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(next), "-stride", fmt.Sprint(workers), "-count", fmt.Sprint(left), "-wall", fmt.Sprint(lim), "-known", strings.Join(sigs, "\n"), "-out", out, "-progress", prog, fmt.Sprintf("-race=%v", b.Race))
				c.Env = workerEnv(bin, b.Race)
				var buf bytes.Buffer
				c.Stdout, c.Stderr = &buf, &buf
				err := c.Run()
				cancel()
				var r report
				data, rerr := os.ReadFile(out)
				if err != nil || rerr != nil || json.Unmarshal(data, &r) != nil {
					// the process died: which run was it?
					pb, _ := os.ReadFile(prog)
					idx, perr := strconv.ParseInt(strings.TrimSpace(string(pb)), 10, 64)
					if perr != nil {
						mu.Lock()
						s.err = append(s.err, fmt.Sprintf("worker %d: %v %s", w, err, cut(buf.String())))
						mu.Unlock()
						return
					}
					// a run that ends its process does so again on its own
					text, again := dies(bin, found{World: b.World, Batch: prop, Index: idx, Race: b.Race, Base: seed})
					if again != "" {
						mu.Lock()
						s.crash = append(s.crash, found{Prop: prop, Sig: again + ":" + b.World, Msg: fmt.Sprintf("run %d ends the whole process (%v): %s", idx, err, firstLine(text)), World: b.World, Batch: prop, Index: idx, Crash: text, Race: b.Race, Base: seed})
						mu.Unlock()
						return
					}
					mu.Lock()
					s.lost++
					s.lostWhy = fmt.Sprintf("%v %s", err, cut(buf.String()))
					mu.Unlock()
					done := (idx - next) / workers
					left -= done
					next = idx
					continue
				}
				mu.Lock()
				s.merge(&r, b.Race)
				mu.Unlock()
				left -= r.Runs
				next = r.NextIndex
				if !r.Stuck {
					return
				}
			}
		}()
	}
	wg.Wait()
}

func cut(s string) string {
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

// dies repeats one run in a process of its own and tells whether that process
// ends abnormally.
func dies(bin string, f found) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-mode", "batch", "-world", f.World, "-prop", f.Batch, "-seed", fmt.Sprint(f.Base), "-from", fmt.Sprint(f.Index), "-count", "1", "-out", os.DevNull, fmt.Sprintf("-race=%v", f.Race))
	c.Env = workerEnv(bin, f.Race)
	o, err := c.CombinedOutput()
	switch {
	case err == nil:
		return "", ""
	case ctx.Err() != nil:
		return "no answer within two minutes " + cut(string(o)), "process-hang"
	}
	return fmt.Sprintf("%v %s", err, cut(string(o))), "process-crash"
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic:") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func check(prop string) int {
	start := time.Now()
	bs, ok := plan[prop]
	if !ok {
		die(2, "no check for %s", prop)
	}
	known := knownFindings(prop)
	s := &state{hashes: map[string]bool{}}
	s.rep.Faults, s.rep.Probes, s.rep.Notes, s.rep.Others = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	bins := map[bool]string{}
	for _, b := range bs {
		if bins[b.Race] == "" {
			bin, clean := build(b.Race)
			bins[b.Race] = bin
			defer clean()
		}
	}
	built := time.Since(start).Seconds()
	budget := 120.0
	if tier == "thorough" {
		budget = 900
	}
	simStart := time.Now()
	size := func(b batch) int64 {
		if tier == "thorough" {
			return b.Thorough
		}
		return b.Quick
	}
	var rest int64
	for _, b := range bs {
		rest += size(b)
	}
	for _, b := range bs {
		left := budget - time.Since(simStart).Seconds()
		s.explore(bins[b.Race], prop, b, size(b), math.Max(5, left*float64(size(b))/float64(rest)), known)
		rest -= size(b)
	}
	simWall := time.Since(simStart).Seconds()
	if len(s.err) > 0 {
		for _, e := range s.err {
			fmt.Println("ERROR", e)
		}
		return 2
	}
	isKnown := func(sig string) bool {
		for _, k := range known {
			if k.sig == sig {
				return true
			}
		}
		return false
	}
	bysig := map[string]found{}
	for _, f := range append(s.rep.Found, s.crash...) {
		o, ok := bysig[f.Sig]
		if !ok || f.Index < o.Index {
			bysig[f.Sig] = f
		}
	}
	var sigs []string
	for k := range bysig {
		sigs = append(sigs, k)
	}
	sort.Strings(sigs)
	nviol := 0
	for _, k := range known {
		_, seen := bysig[k.sig]
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s; observed in this run: %v]\n", prop, k.text, k.sig, seen)
	}
	for _, sig := range sigs {
		if isKnown(sig) {
			continue
		}
		nviol++
		if nviol > 4 {
			continue
		}
		f := bysig[sig]
		path := s.publish(bins[f.Race], f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	s.evidence(prop, bs, time.Since(start).Seconds(), built, simWall, nviol, known)
	fmt.Printf("%s: %d simulated runs (%d distinct non-trivial), %d calls, %.0f s simulated time, %d fault kinds, %.1f s build, %.1f s simulation, %d violations\n", prop, s.rep.Runs, len(s.hashes), s.rep.Ops, float64(s.rep.SimSecs), len(s.rep.Faults), built, simWall, nviol)
	if nviol > 0 {
		return 1
	}
	if len(s.rep.Harness) > 0 {
		fmt.Println("HARNESS ERROR", s.rep.Harness[0])
		return 2
	}
	if s.lost > 0 {
		fmt.Printf("WARNING %d worker processes ended for no reason of their own and were continued: %s\n", s.lost, firstLine(s.lostWhy))
	}
	if s.rep.RecheckMismatch > 0 {
		// the verdict stands: every violation is replayed on its own
		fmt.Println("WARNING some runs did not repeat step for step:", s.rep.Mismatch)
	}
	if s.rep.Runs == 0 || len(s.hashes) == 0 {
		fmt.Println("nothing explored")
		return 2
	}
	return 0
}

// publish minimises a violation, writes its replay file and replays it in a
// fresh process.
func (s *state) publish(bin string, f found) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, f.Sig)
	if len(clean) > 60 {
		clean = clean[:60]
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", f.Prop, clean, f.Index))
	if f.Crash != "" {
		f.Note = "the run ends the process; repeat it with the recorded seed and index"
		save(path, &f)
		return path
	}
	tmp := path + ".tmp"
	save(tmp, &f)
	defer os.Remove(tmp)
	if err := minimise(bin, tmp, path, f.Race); err != nil {
		save(path, &f)
	}
	var m found
	if !read(path, &m) {
		m = f
	}
	m.Race = f.Race
	g, err := replayOnce(bin, path, f.Race)
	for i := 0; i < 3 && err == nil && g.Sig != f.Sig; i++ {
		// the pools of the Go runtime order tasks at random under the detector,
		// and code may range over a map
		g, err = replayOnce(bin, path, f.Race)
	}
	switch {
	case err != nil:
		m.Note = "replay failed: " + err.Error()
	case g.Sig != f.Sig:
		m.Note = "the violation did not reproduce in a fresh process"
		if len(f.Vals) > 0 {
			m.Vals = f.Vals
		}
	case m.Log != nil && (g.Hash != m.Hash || g.Steps != m.Steps):
		m.Note = "reproduced in a fresh process, but not step for step"
	default:
		m.Note = "reproduced exactly in a fresh process"
	}
	if m.Log == nil {
		m.Log = g.Log
	}
	m.Msg = f.Msg
	if g.Sig == f.Sig && g.Msg != "" {
		m.Msg = g.Msg
	}
	save(path, &m)
	fmt.Printf("  %s [%s] %s\n  %s; %s\n", f.Prop, f.Sig, m.Msg, m.Min, m.Note)
	n := len(m.Log)
	for i, l := range m.Log {
		if i < 60 || i > n-10 {
			fmt.Println("    " + l)
		}
	}
	return path
}

func minimise(bin, in, out string, race bool) error {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-mode", "min", "-in", in, "-out", out, "-budget", "20", fmt.Sprintf("-race=%v", race))
	c.Env = workerEnv(bin, race)
	return c.Run()
}

func save(path string, f *found) {
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0o644)
}

func read(path string, f *found) bool {
	b, err := os.ReadFile(path)
	return err == nil && json.Unmarshal(b, f) == nil
}

func replayOnce(bin, path string, race bool) (found, error) {
	out := path + ".out"
	defer os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-mode", "replay", "-in", path, "-out", out, fmt.Sprintf("-race=%v", race))
	c.Env = workerEnv(bin, race)
	o, err := c.CombinedOutput()
	var g found
	if err != nil {
		return g, fmt.Errorf("%v: %.300s", err, o)
	}
	if !read(out, &g) {
		return g, fmt.Errorf("no replay output")
	}
	return g, nil
}

func replayCmd(path string) int {
	var f found
	if !read(path, &f) {
		die(2, "cannot read %s", path)
	}
	bin, clean := build(f.Race)
	defer clean()
	if f.Crash != "" {
		text, what := dies(bin, f)
		fmt.Println(text)
		if what != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
			return 1
		}
		fmt.Println("the violation does not occur")
		return 0
	}
	g, err := replayOnce(bin, path, f.Race)
	for i := 0; i < 3 && err == nil && g.Sig != f.Sig; i++ {
		g, err = replayOnce(bin, path, f.Race)
	}
	if err != nil {
		die(2, "%v", err)
	}
	for _, l := range g.Log {
		fmt.Println(l)
	}
	if g.Sig != f.Sig {
		fmt.Println("the violation does not occur")
		return 0
	}
	fmt.Printf("%s [%s] %s\nhash %s (recorded %s), steps %d (recorded %d)\n", g.Prop, g.Sig, g.Msg, g.Hash, f.Hash, g.Steps, f.Steps)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
	return 1
}

func (s *state) evidence(prop string, bs []batch, wall, built, simWall float64, nviol int, known []finding) {
	r := &s.rep
	perHour := 0.0
	if simWall > 0 {
		perHour = float64(r.Runs) / simWall * 3600
	}
	comp := map[string]any{}
	var worlds []string
	for _, b := range bs {
		worlds = append(worlds, b.World)
		comp[b.World] = map[string]any{"real": about[b.World].Real, "stub": about[b.World].Stub}
	}
	var kf []string
	for _, k := range known {
		kf = append(kf, k.sig)
	}
	injected := int64(0)
	for _, v := range r.Faults {
		injected += v
	}
	if r.Samples == nil {
		r.Samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":                    r.Runs,
		"distinct_nontrivial":            len(s.hashes),
		"rule":                           "a case is one seeded simulated run (configuration, schedule, operations and faults all drawn from the seed); it is non-trivial if the oracles decided at least one instance in it and it contained an injected fault or more than four task switches; two runs are distinct if the hash over every task switch point and every observable event differs",
		"samples":                        r.Samples,
		"worlds":                         worlds,
		"simulated_runs":                 r.Runs,
		"seeds_per_hour":                 int64(perHour),
		"simulated_time_s":               r.SimSecs,
		"calls_into_the_system":          r.Ops,
		"scheduler_steps":                r.Steps,
		"task_switches":                  r.Switches,
		"preemptions":                    r.Preempts,
		"most_calls_in_progress_at_once": r.MaxOver,
		"faults_injected_total":          injected,
		"faults_injected":                r.Faults,
		"node_crashes":                   r.Crashes,
		"rare_conditions_reached":        r.Probes,
		"oracle_decisions":               r.Notes,
		"distinct_states":                r.States,
		"runs_cut_short":                 r.Aborted,
		"determinism_rechecks":           r.Rechecked,
		"determinism_mismatches":         r.RecheckMismatch,
		"entropy_reads":                  r.Entropy,
		"known_findings":                 kf,
		"workers_continued":              s.lost,
		"signatures_of_other_properties": r.Others,
		"components":                     comp,
		"build_s":                        built,
		"simulation_s":                   simWall,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": commonAssumptions, "wall_s": wall, "violations": nviol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(2, "%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
}
