// Package kit is the common part of every simulated world: run configuration,
// fault accounting, violations and operation records.
package kit

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
	_ "time/tzdata" // zones without files

	"github.com/gofrs/uuid"

	"zntr.io/solid/zz_verif/simmathrand"
	"zntr.io/solid/zz_verif/simrt"
)

// Violation is one broken property.
type Violation struct {
	Prop string `json:"property"`
	Sig  string `json:"signature"`
	Msg  string `json:"message"`
}

// Run is one simulated run.
type Run struct {
	Prop   string // property the batch is about (weights), never used by oracles
	World  string
	Seed   uint64
	Race   bool
	E      *simrt.Engine
	Viol   []Violation
	Faults map[string]int64
	Probes map[string]int64
	Ops    int64
	States map[uint64]struct{}

	FaultsOn bool
	Cfg      Cfg
	Start    int64 // true time at the start, ns

	names  map[string]string
	active [simrt.MaxTasks + 1]*Op
	AllOps []*Op
	// Notes counts what the oracles actually decided (antecedents met).
	Notes map[string]int64
	// Live are the further properties a run without progress breaks.
	Live []string
	// Soft are violations after which a run goes on: findings already on record.
	Soft map[string]bool
}

// Cfg is the swarm configuration of a run: which faults are possible and how
// often, in 1/1000 per opportunity.
type Cfg struct {
	ErrBefore, ErrAfter int
	NilRead             int
	Latency             int
	CrashSeam           int
	GenFault            int
	Cancel              int
	CrashAgent          bool
	Skew                bool
	Jump                bool
	Nodes               int
	Agents              int
	OpsPer              int
	Profile             string
}

// New prepares a run.
func New(prop, world string, seed uint64, vals map[int][]int32, race bool) *Run {
	r := &Run{Prop: prop, World: world, Seed: seed, Race: race, Faults: map[string]int64{}, Probes: map[string]int64{}, States: map[uint64]struct{}{}, Notes: map[string]int64{}, names: map[string]string{}}
	r.E = simrt.Reset(seed, vals, race)
	time.Local = time.UTC
	// what a call does in goroutines of its own is part of the call
	simrt.OnGo = func(parent, child *simrt.Task) {
		r.active[child.ID] = nil
		if parent != nil {
			r.active[child.ID], child.Op = r.active[parent.ID], parent.Op
		}
	}
	// process-wide state of a library, as after a fresh start
	uuid.DefaultGenerator = uuid.NewGen()
	simmathrand.Reset()
	return r
}

// Fail records a violation. sig must be stable across runs.
func (r *Run) Fail(prop, sig, format string, a ...any) {
	v := Violation{prop, sig, fmt.Sprintf(format, a...)}
	for _, o := range r.Viol {
		if o.Prop == v.Prop && o.Sig == v.Sig {
			return
		}
	}
	simrt.EventS("VIOLATION " + prop + " " + sig)
	simrt.LogOnly("    " + v.Msg)
	r.Viol = append(r.Viol, v)
}

// Broken reports whether the property the batch is about is already violated.
func (r *Run) Broken() bool {
	for _, v := range r.Viol {
		if v.Prop == r.Prop && !r.Soft[v.Sig] {
			return true
		}
	}
	return false
}

// Logf records an event of the run.
func (r *Run) Logf(format string, a ...any) {
	if r.Race {
		return
	}
	simrt.EventS(fmt.Sprintf(format, a...))
}

// Fault counts an injected fault.
func (r *Run) Fault(kind string) {
	r.Faults[kind]++
	if r.E.Verbose {
		simrt.EventS("FAULT " + kind)
	}
}

// Probe counts a rare condition that was reached.
func (r *Run) Probe(name string) { r.Probes[name]++ }

// Pick chooses a value in [0,n) on the plan stream of the running agent.
func (r *Run) Pick(stream, n int) int { return simrt.Choose(stream, n) }

// Name gives a value a stable symbolic name for logs.
func (r *Run) Name(kind, v string) string {
	if v == "" {
		return kind + ":<empty>"
	}
	if n, ok := r.names[v]; ok {
		return n
	}
	n := fmt.Sprintf("%s#%d", kind, len(r.names)+1)
	r.names[v] = n
	return n
}

// SwarmConfig draws the run's configuration from the configuration stream.
func (r *Run) SwarmConfig() {
	c := &r.Cfg
	ch := func(n int) int { return simrt.Choose(simrt.StCfg, n) }
	c.Nodes = 1 + ch(3)
	c.Agents = 2 + ch(3)
	c.OpsPer = 3 + ch(6)
	// statement-level preemption: off, dense .. sparse
	r.E.Fine = []int{1, 0, 1, 2, 4, 1}[ch(6)]
	r.E.Coarse = []int{0, 2, 3, 5, 3, 2}[ch(6)]
	prof := []string{"none", "none", "none", "errors", "acks", "latency", "crash", "skew", "mix", "mix"}[ch(10)]
	c.Profile = prof
	rate := []int{20, 40, 80, 150}[ch(4)]
	switch prof {
	case "errors":
		c.ErrBefore, c.GenFault, c.NilRead = rate, rate/2, rate/4
	case "acks":
		c.ErrAfter = rate
	case "latency":
		c.Latency = 300
	case "crash":
		c.CrashSeam, c.CrashAgent = rate/3, true
	case "skew":
		c.Skew, c.Jump = true, true
		c.Latency = 100
	case "mix":
		c.ErrBefore, c.ErrAfter, c.Latency, c.CrashSeam, c.GenFault, c.NilRead = rate/3, rate/3, 100, rate/6, rate/4, rate/8
		c.Skew, c.Jump, c.CrashAgent = ch(2) == 1, ch(2) == 1, ch(3) == 1
	}
	switch prof {
	case "errors", "latency", "mix":
		c.Cancel = []int{0, 60, 150}[ch(3)]
	}
	r.FaultsOn = true
}

var zones = func() (l [2]*time.Location) {
	for i, n := range []string{"America/New_York", "Europe/Paris"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		l[i] = z
	}
	return
}()

// Calendar moves some runs to another time zone, shortly before its clocks
// change. It must be called before anything reads the clock.
func (r *Run) Calendar() {
	day := int64(86400) * 1000000000
	k := simrt.Choose(simrt.StCfg, 10)
	if k < 6 {
		return
	}
	k -= 6
	time.Local = zones[k%2]
	// 2026-03-05 / 2026-10-29 (New York), 2026-03-26 / 2026-10-22 (Paris)
	r.E.Now = []int64{63, 84, 301, 294}[k] * day
	r.Start = r.E.Now
	r.Probe("other-time-zone")
}

// CallResult is how a call into the system under test ended.
type CallResult struct {
	Crashed bool
	Panic   any
	Stack   string
}

// Call runs fn (a call into the code under test) catching crashes of the node
// and panics of the code.
func Call(fn func()) (res CallResult) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case simrt.Crash:
				res.Crashed = true
			case simrt.Abort:
				panic(p)
			default:
				res.Panic = p
				buf := make([]byte, 16384)
				res.Stack = trimStack(string(buf[:runtime.Stack(buf, false)]))
			}
		}
	}()
	fn()
	return
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/zz_verif/") || strings.Contains(l, "panic") {
			continue
		}
		if strings.HasPrefix(l, "zntr.io/solid") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

// SortedKeys returns the keys of a counter map.
func SortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Debugf writes to stderr when SIMDEBUG is set.
func Debugf(f string, a ...any) {
	if os.Getenv("SIMDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Errs lists the registered OAuth error codes a response may carry.
var Errs = map[string]bool{
	"invalid_request": true, "invalid_client": true, "invalid_grant": true, "unauthorized_client": true,
	"unsupported_grant_type": true, "invalid_scope": true, "access_denied": true, "unsupported_response_type": true,
	"server_error": true, "temporarily_unavailable": true, "interaction_required": true, "login_required": true,
	"account_selection_required": true, "consent_required": true, "invalid_request_uri": true, "invalid_request_object": true,
	"request_not_supported": true, "request_uri_not_supported": true, "registration_not_supported": true,
	"authorization_pending": true, "slow_down": true, "expired_token": true, "token_expired": true, "invalid_dpop_proof": true,
	"use_dpop_nonce": true, "invalid_token": true, "insufficient_scope": true, "unsupported_token_type": true,
	"invalid_redirect_uri": true, "invalid_client_metadata": true, "invalid_software_statement": true,
	"unapproved_software_statement": true, "invalid_target": true, "insufficient_user_authentication": true,
}
