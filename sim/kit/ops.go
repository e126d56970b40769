package kit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"

	"zntr.io/solid/zz_verif/simrt"
)

// StoreDom is the clock domain of the shared storage.
const StoreDom = simrt.MaxNodes

// Op is one call of a client into the system under test.
type Op struct {
	ID          int64
	Kind        string
	Node        int
	Inv, Ret    int64 // global sequence numbers
	T0, T1      int64 // true time, ns
	S0, S1      int64 // storage clock, unix ns
	NMin, NMax  int64 // range of the node clock during the call, unix ns
	Jumped      bool  // the node clock jumped during the call
	Faults      []string
	Effects     []string
	Begun       []string // storage calls that reached the store, whatever came of them
	Crashed     bool
	Panic       any
	Stack       string
	Done        bool
	OverlapOthr bool
	Cancelled   bool // the caller gave up meanwhile

	cancelAt int // before which point of the call that happens, 0: never
	points   int
	obey     bool // the storage refuses calls for a caller who gave up
	gone     chan struct{}
	then     []func()
}

// Clean reports that nothing abnormal was injected into the call.
func (o *Op) Clean() bool {
	return !o.Crashed && !o.Cancelled && len(o.Faults) == 0 && !o.Jumped && o.Done
}

// Had reports whether the storage call of that name took effect.
func (o *Op) Had(effect string) bool {
	for _, e := range o.Effects {
		if e == effect {
			return true
		}
	}
	return false
}

// Tried reports whether the storage call of that name may have taken effect:
// it did, or it is in progress.
func (o *Op) Tried(name string) bool {
	if o.Had(name) {
		return true
	}
	if !o.Done {
		for _, e := range o.Begun {
			if e == name {
				return true
			}
		}
	}
	return false
}

// CurOp is the call the running task executes.
func (r *Run) CurOp() *Op {
	t := simrt.Cur()
	if t == nil {
		return nil
	}
	return r.active[t.ID]
}

// Do executes fn as a call on a node (node < 0: outside any node).
func (r *Run) Do(kind string, node int, fn func()) *Op {
	t := simrt.Cur()
	simrt.Seam()
	o := &Op{ID: simrt.NextSeq(), Kind: kind, Node: node}
	o.Inv = o.ID
	o.T0, o.S0 = r.E.Now, simrt.ClockOf(StoreDom)
	if node >= 0 {
		n := simrt.ClockOf(node)
		o.NMin, o.NMax = n, n
	}
	r.AllOps = append(r.AllOps, o)
	r.Ops++
	old := r.active[t.ID]
	r.active[t.ID] = o
	t.Op = int(o.ID)
	if node >= 0 {
		simrt.EnterNode(node)
		if r.FaultsOn && r.Cfg.Cancel > 0 && simrt.Choose(simrt.StFault, 1000) >= 1000-r.Cfg.Cancel {
			o.cancelAt = 1 + simrt.Choose(simrt.StFault, 9)
			o.obey = o.cancelAt%2 == 0
		}
		r.point(o)
	}
	res := Call(fn)
	if node >= 0 {
		simrt.LeaveNode()
	}
	t.Op = 0
	r.active[t.ID] = old
	o.Done = true
	o.Crashed, o.Panic, o.Stack = res.Crashed, res.Panic, res.Stack
	o.Ret = simrt.NextSeq()
	o.T1, o.S1 = r.E.Now, simrt.ClockOf(StoreDom)
	if node >= 0 {
		r.clockSeen(o, simrt.ClockOf(node))
	}
	return o
}

func (r *Run) clockSeen(o *Op, n int64) {
	if n < o.NMin {
		o.NMin = n
	}
	if n > o.NMax {
		o.NMax = n
	}
}

// Jump moves the clock of a node by d ns.
func (r *Run) Jump(node int, d int64) {
	before := simrt.ClockOf(node)
	simrt.SetSkew(node, simrt.GetSkew(node)+d)
	after := simrt.ClockOf(node)
	for _, o := range r.active {
		if o != nil && o.Node == node {
			r.clockSeen(o, before)
			r.clockSeen(o, after)
			o.Jumped = true
		}
	}
	r.Fault("clock-jump")
	r.Logf("node %d clock jumps by %dms", node, d/1000000)
}

// point is where the caller of a call may give up.
func (r *Run) point(o *Op) {
	if o == nil || o.cancelAt == 0 || o.Done {
		return
	}
	o.points++
	if o.points != o.cancelAt {
		return
	}
	o.Cancelled = true
	r.Fault("caller-gone")
	if o.gone != nil {
		close(o.gone)
	}
	for _, f := range o.then {
		f()
	}
	simrt.Seam()
}

// Ctx is the context callers pass: it ends when the caller of the running call
// gives up.
type Ctx struct {
	context.Context
	r *Run
}

// Ctx makes a context.
func (r *Run) Ctx(parent context.Context) Ctx { return Ctx{parent, r} }

func (c Ctx) op() *Op {
	if !simrt.Active() {
		return nil
	}
	return c.r.CurOp()
}

// Err is as in package context.
func (c Ctx) Err() error {
	if o := c.op(); o != nil && o.Cancelled {
		return context.Canceled
	}
	return nil
}

// Done is as in package context.
func (c Ctx) Done() <-chan struct{} {
	o := c.op()
	if o == nil || o.cancelAt == 0 {
		return nil
	}
	if o.gone == nil {
		o.gone = make(chan struct{})
		if o.Cancelled {
			close(o.gone)
		}
	}
	return o.gone
}

// AfterFunc spares package context a goroutine of its own.
func (c Ctx) AfterFunc(f func()) func() bool {
	o := c.op()
	if o == nil || o.Cancelled {
		if o != nil {
			f()
		}
		return func() bool { return false }
	}
	on := true
	o.then = append(o.then, func() {
		if on {
			on = false
			f()
		}
	})
	return func() bool {
		was := on
		on = false
		return was
	}
}

// late is what a network library reports when its peer does not answer.
type late struct{}

func (late) Error() string   { return "i/o timeout" }
func (late) Timeout() bool   { return true }
func (late) Temporary() bool { return true }

// failure draws an error of the storage.
func failure(name string) error {
	switch simrt.Choose(simrt.StFault, 12) {
	case 6:
		return context.DeadlineExceeded
	case 7:
		return fmt.Errorf("%s: %w", name, context.DeadlineExceeded)
	case 8:
		return context.Canceled
	case 9:
		return io.ErrUnexpectedEOF
	case 10:
		return io.EOF
	case 11:
		return &net.OpError{Op: "read", Net: "tcp", Err: late{}}
	}
	return &Injected{name}
}

// Injected is the error injected by the simulated storage.
type Injected struct{ At string }

func (e *Injected) Error() string { return "simulated fault at " + e.At }

// ErrNil asks a storage wrapper to return a nil record without error.
var ErrNil = errors.New("nil record")

// SeamCall is a call from a node to the shared storage.
func (r *Run) SeamCall(name string, mutating bool, real func() error) error {
	return r.seam(name, mutating, StoreDom, real)
}

func (r *Run) seam(name string, mutating bool, dom int, real func() error) error {
	simrt.Seam()
	o := r.CurOp()
	c := &r.Cfg
	kind := ""
	r.point(o)
	if o != nil && o.Cancelled && o.obey {
		r.Fault("refused-for-gone-caller:" + name)
		o.Faults = append(o.Faults, "before:"+name)
		return context.Canceled
	}
	if r.FaultsOn && o != nil && o.Node >= 0 {
		total := c.ErrBefore + c.ErrAfter + c.Latency + 2*c.CrashSeam + c.NilRead
		if total > 0 {
			v := 1000 - 1 - simrt.Choose(simrt.StFault, 1000)
			switch {
			case v < c.ErrBefore:
				kind = "before"
			case v < c.ErrBefore+c.ErrAfter:
				kind = "after"
			case v < c.ErrBefore+c.ErrAfter+c.CrashSeam:
				kind = "crash-before"
			case v < c.ErrBefore+c.ErrAfter+2*c.CrashSeam:
				kind = "crash-after"
			case v < c.ErrBefore+c.ErrAfter+2*c.CrashSeam+c.NilRead:
				if !mutating {
					kind = "nil"
				}
			case v < total:
				kind = "latency"
			}
		}
	}
	switch kind {
	case "before":
		r.Fault("storage-error:" + name)
		o.Faults = append(o.Faults, "before:"+name)
		return failure(name)
	case "nil":
		r.Fault("nil-record:" + name)
		o.Faults = append(o.Faults, "nil:"+name)
		return ErrNil
	case "crash-before":
		r.Fault("crash-before:" + name)
		o.Faults = append(o.Faults, "crash:"+name)
		simrt.CrashNode(o.Node)
		simrt.Seam()
	case "latency":
		r.Fault("latency:" + name)
		d := []int64{1, 5, 50, 500, 2000, 5000, 20000}[simrt.Choose(simrt.StFault, 7)]
		simrt.Sleep(d * 1000000)
	}
	old := simrt.Mask(dom)
	if o != nil {
		o.Begun = append(o.Begun, name)
	}
	var err error
	func() {
		defer simrt.Unmask(old)
		err = real()
	}()
	if o != nil && err == nil {
		o.Effects = append(o.Effects, name)
	}
	if r.E.Verbose {
		simrt.LogOnly(fmt.Sprintf("  store %s -> %v", name, err))
	}
	switch kind {
	case "after":
		r.Fault("lost-ack:" + name)
		o.Faults = append(o.Faults, "after:"+name)
		simrt.Seam()
		return failure(name)
	case "crash-after":
		r.Fault("crash-after:" + name)
		o.Faults = append(o.Faults, "crash:"+name)
		simrt.CrashNode(o.Node)
		simrt.Seam()
	}
	simrt.Seam()
	r.point(o)
	return err
}

// GenCall is a call to a generator or key provider of the node itself.
func (r *Run) GenCall(name string, emptyOK bool, real func() (string, error)) (string, error) {
	simrt.Seam()
	o := r.CurOp()
	if r.FaultsOn && o != nil && o.Node >= 0 && r.Cfg.GenFault > 0 {
		v := 1000 - 1 - simrt.Choose(simrt.StFault, 1000)
		if v < r.Cfg.GenFault {
			if emptyOK && v%3 == 0 {
				r.Fault("generator-empty:" + name)
				o.Faults = append(o.Faults, "gen:"+name)
				return "", nil
			}
			r.Fault("generator-error:" + name)
			o.Faults = append(o.Faults, "gen:"+name)
			return "", &Injected{name}
		}
	}
	return real()
}

// Plan gives readable access to one agent's choice stream.
type Plan struct{ S int }

// N draws from [0,n).
func (p Plan) N(n int) int { return simrt.Choose(p.S, n) }

// S64 draws from [0,n).
func (p Plan) S64(n int) int64 { return int64(p.N(n)) }

// Pct is true with probability about pc percent (false is the simplest).
func (p Plan) Pct(pc int) bool { return simrt.Chance(p.S, pc, 100) }

// W draws an index weighted by w; index 0 is the simplest.
func (p Plan) W(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	v := simrt.Choose(p.S, t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// CheckPanic reports a panic of the code under test.
func (r *Run) CheckPanic(o *Op, prop string) bool {
	if o.Panic != nil {
		r.Fail(prop, "panic:"+o.Kind+":"+first(o.Stack), "%s panicked: %v at %s (faults %v)", o.Kind, o.Panic, o.Stack, o.Faults)
		return true
	}
	return false
}

func first(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

// S formats for logs.
func S(f string, a ...any) string { return fmt.Sprintf(f, a...) }
