// Package simrt is the deterministic scheduler every simulated run executes
// under. Exactly one task runs at a time; which one, for how many yield points,
// what time it is and which faults happen is decided by choice streams derived
// from one seed (or read from a replay file).
//
// The hand-off between tasks is a plain variable polled with runtime.Gosched in
// functions marked go:norace, with GOMAXPROCS=1: it creates no happens-before
// edge, so the race detector sees only the synchronisation of the code under
// test.
package simrt

import (
	"runtime"
	"unsafe"
)

// Task is one simulated thread.
type Task struct {
	ID      int
	Name    string
	Node    int // node the task currently executes on, -1: none
	epoch   int // epoch of the node when the call started
	Domain  int // clock domain, -1: true time
	mask    int // >0: crash cannot hit here
	nofine  int // >0: statement-level preemption disabled
	state   int8
	ext     bool // blocked outside the simulator's knowledge
	goid    uint64
	wakeAt  int64
	key     unsafe.Pointer
	keyS    string
	Crashed bool // a crash hit the current call
	Op      int  // current operation id (history)
	fn      func()
	sync    int64 // address of the edge from the end of the task
	inChan  bool  // blocked at channels
	chanAt  int64 // progress of the run when it last looked
	code    bool  // started by the code under test
}

const (
	stRunnable int8 = iota
	stBlocked
	stSleeping
	stDone
)

const (
	MaxTasks   = 64
	MaxNodes   = 8
	NumStreams = 48
)

// Streams.
const (
	StSched = 0
	StCfg   = 1
	StFault = 2
	StMisc  = 3
	StAgent = 8 // StAgent+i: plan of agent i
)

// Stream is one recorded sequence of choices.
type Stream struct {
	Vals []int32
	Pos  int
	seed uint64
}

// Crash is the panic value unwinding a task whose node crashed.
type Crash struct{}

// Abort is the panic value unwinding every task when a run is cut.
type Abort struct{}

// Engine is the state of the current run.
type Engine struct {
	Streams [NumStreams]Stream
	ID      int64 // number of the run within the process
	Replay  bool
	Race    bool // running under the race detector: no allocation on the hand-off path

	tasks   [MaxTasks]*Task
	waiters [MaxTasks]*waiter // fixed arrays: growing a slice is seen by the race detector
	nwait   int
	timers  [maxTimers]*Timer
	ntimers int
	ntasks  int
	harness int // live tasks the harness started
	next    int // tasks blocked outside the simulator's knowledge
	Ext     int64

	Now      int64 // true simulated time, ns since Base
	Skew     [MaxNodes + 2]int64
	Epoch    [MaxNodes]int
	hidden   int64
	quantum  int
	Fine     int // 0: no statement preemption; else scale of quanta
	Coarse   int // seam preemption: 1 in Coarse (0: never)
	Steps    int64
	MaxSteps int64
	Seq      int64
	Hash     uint64
	Switches int64
	Preempts int64
	Yields   int64
	Crashes  int64
	Aborted  bool
	Reason   string // why aborted
	Deadlock bool
	ExtStuck bool
	MaxOver  int // most tasks seen in progress at once
	ended    bool

	Verbose bool
	Log     []string

	rnd uint64 // entropy stream of the simulated crypto/rand
	// EntropyFault decides, when non-nil, about each read of the entropy source:
	// 0 ok, 1 error, 2 short read with error, 3 short read.
	EntropyFault func(n int) int
	EntropyReads int64
}

// leftover is why goroutines that outlive the run are unwound.
const leftover = "goroutines left behind"

// Base is the simulated wall clock at time 0.
const Base int64 = 1767225600 // 2026-01-01T00:00:00Z

var (
	E   = &Engine{}
	cur *Task
	// nil2 stands for "nobody" while waiting for an outside task
	nil2 = &Task{Name: "nobody", Node: -1, Domain: -1}
)

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix is the seed derivation function.
func Mix(a, b uint64) uint64 { return mix(mix(a) ^ (b*0xD6E8FEB86659FD93 + 0x2545F4914F6CDD1D)) }

var (
	runs    int64
	allDone int64
)

// Reset prepares an engine for a run. vals, when non-nil, replays choices.
func Reset(seed uint64, vals map[int][]int32, race bool) *Engine {
	runs++
	e := &Engine{ID: runs, Race: race, MaxSteps: 2000000}
	for i := range e.Streams {
		e.Streams[i].seed = Mix(seed, uint64(i)+100)
		if race {
			n := 1 << 13
			if i == StSched {
				n = 1 << 16
			}
			e.Streams[i].Vals = make([]int32, 0, n)
		}
	}
	if vals != nil {
		e.Replay = true
		for k, v := range vals {
			e.Streams[k].Vals = v
		}
	}
	e.rnd = Mix(0x5eed, 77)
	e.Hash = 14695981039346656037
	E = e
	cur = nil
	return e
}

// Choose returns a value in [0,n) from the given stream. 0 is the simplest.
//
//go:norace
func Choose(stream, n int) int {
	if n <= 1 {
		return 0
	}
	s := &E.Streams[stream]
	if E.Replay {
		if s.Pos >= len(s.Vals) {
			s.Pos++
			return 0
		}
		v := int(s.Vals[s.Pos])
		s.Pos++
		if v >= n {
			v %= n
		}
		if v < 0 {
			v = 0
		}
		return v
	}
	s.seed += 0x9E3779B97F4A7C15
	v := int(mix(s.seed) % uint64(n))
	l := len(s.Vals)
	if E.Race {
		if l < cap(s.Vals) {
			s.Vals = s.Vals[:l+1]
			s.Vals[l] = int32(v)
		} else {
			v = 0
		}
	} else {
		s.Vals = append(s.Vals, int32(v))
	}
	s.Pos++
	return v
}

// Chance is true with probability about num/den; 0 in the stream is false.
//
//go:norace
func Chance(stream, num, den int) bool {
	return Choose(stream, den) >= den-num
}

//go:norace
func h(v uint64) {
	E.Hash = (E.Hash ^ v) * 1099511628211
}

// Event folds a value in the run's event hash.
//
//go:norace
func Event(v uint64) { h(v) }

// EventS folds a string in the run's event hash and logs it.
//
//go:norace
func EventS(s string) {
	for i := 0; i < len(s); i++ {
		h(uint64(s[i]))
	}
	h(10)
	if E.Verbose {
		logLine(s)
	}
}

// LogOnly adds a line to the trace without making it part of the run's hash.
//
//go:norace
func LogOnly(s string) {
	if E.Verbose {
		logLine(s)
	}
}

//go:norace
func logLine(s string) {
	n := "-"
	if cur != nil {
		n = cur.Name
	}
	E.Log = append(E.Log, itoa(E.Seq)+" t="+dur(E.Now)+" "+n+": "+s)
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	var b [24]byte
	i := len(b)
	for v > 0 {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func dur(ns int64) string {
	ms := ns / 1000000
	return itoa(ms/1000) + "." + itoa((ms%1000)/100) + itoa((ms%100)/10) + itoa(ms%10) + "s"
}

// Active reports whether the caller runs as a simulated task.
//
//go:norace
func Active() bool { return cur != nil }

// Cur returns the running task (nil outside of a run).
//
//go:norace
func Cur() *Task { return cur }

// NextSeq returns the next global event sequence number.
//
//go:norace
func NextSeq() int64 { E.Seq++; return E.Seq }

var quanta = [...]int{0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 14, 17, 20, 25, 30, 40, 55, 80, 120, 200}

//go:norace
func newQuantum() {
	if E.Fine == 0 {
		E.quantum = -1
		return
	}
	c := Choose(StSched, len(quanta))
	if c == 0 {
		E.quantum = -1
		return
	}
	E.quantum = quanta[c] * E.Fine
}

//go:norace
func checkDead(t *Task) {
	if E.Aborted {
		if !E.ended {
			panic(Abort{})
		}
	}
	if t.mask == 0 && t.Node >= 0 && !t.Crashed && E.Epoch[t.Node] != t.epoch {
		t.Crashed = true
		panic(Crash{})
	}
}

//go:norace
func abort(reason string) {
	if E.Aborted {
		return
	}
	E.Aborted = true
	E.Reason = reason
	for i := 0; i < E.ntasks; i++ {
		t := E.tasks[i]
		if t.state != stDone && !t.ext {
			t.state = stRunnable
		}
	}
}

// AbortRun ends the run early (all tasks unwind).
//
//go:norace
func AbortRun(reason string) {
	abort(reason)
	panic(Abort{})
}

// Y is the statement-level yield point inserted by the instrumenter.
//
//go:norace
func Y() {
	t := cur
	if t == nil {
		return
	}
	if E.next > 0 {
		if t = self(); t == nil {
			return
		}
	}
	if t.nofine > 0 {
		E.hidden++
		if E.hidden > E.MaxSteps && !E.Aborted {
			abort("step limit exceeded: no progress")
		}
		checkDead(t)
		return
	}
	E.Steps++
	if E.Steps > E.MaxSteps && !E.Aborted {
		abort("step limit exceeded: no progress")
	}
	checkDead(t)
	if E.quantum < 0 || E.Aborted {
		return
	}
	E.quantum--
	if E.quantum <= 0 {
		E.Preempts++
		reschedule(t, true)
		checkDead(t)
	}
}

// Seam is a coarse yield point (a call that leaves the process: storage,
// network, clock).
//
//go:norace
func Seam() {
	t := cur
	if t == nil {
		return
	}
	if E.next > 0 {
		if t = self(); t == nil {
			return
		}
	}
	E.Steps++
	E.Yields++
	checkDead(t)
	if E.Aborted {
		return
	}
	if E.Coarse > 0 && Choose(StSched, E.Coarse) == E.Coarse-1 {
		E.Preempts++
		reschedule(t, true)
		checkDead(t)
	}
}

// self finds the task of the calling goroutine; only needed while some task is
// blocked outside the simulator's knowledge (a channel operation of the code
// under test): until then the caller is always the running task.
//
//go:norace
func self() *Task {
	t := cur
	if E.next == 0 {
		return t
	}
	id := goid()
	for i := 0; i < E.ntasks; i++ {
		c := E.tasks[i]
		if c.goid == id {
			if c.ext {
				c.ext = false
				c.state = stRunnable
				E.next--
				for cur != c {
					runtime.Gosched()
				}
			}
			return c
		}
	}
	return nil
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

// pick chooses the next runnable task; returns nil when none.
//
//go:norace
func pick(t *Task, avoid bool) *Task {
	for {
		n := 0
		var cand [MaxTasks]*Task
		over := 0
		for i := 0; i < E.ntasks; i++ {
			c := E.tasks[i]
			if c.state == stRunnable {
				cand[n] = c
				n++
			}
			if c.Op != 0 && c.state != stDone {
				over++
			}
		}
		if over > E.MaxOver {
			E.MaxOver = over
		}
		if n > 0 {
			if n == 1 {
				return cand[0]
			}
			if avoid && t != nil {
				// put the yielding task last: choice 0 is "the next one in order"
				k := 0
				found := false
				for i := 0; i < n; i++ {
					if cand[i] == t {
						found = true
						continue
					}
					cand[k] = cand[i]
					k++
				}
				if found {
					cand[k] = t
				}
			}
			return cand[Choose(StSched, n)]
		}
		if repoll() {
			continue
		}
		if E.harness == 0 {
			// only goroutines the code left behind: the run is over
			return nil
		}
		// advance the clock to the earliest sleeper
		var best int64 = -1
		for i := 0; i < E.ntasks; i++ {
			c := E.tasks[i]
			if c.state == stSleeping && (best < 0 || c.wakeAt < best) {
				best = c.wakeAt
			}
		}
		for i := 0; i < E.ntimers; i++ {
			x := E.timers[i]
			if best < 0 || x.at < best {
				best = x.at
			}
		}
		if best < 0 {
			return nil
		}
		if best > E.Now {
			E.Now = best
		}
		fireTimers()
		for i := 0; i < E.ntasks; i++ {
			c := E.tasks[i]
			if c.state == stSleeping && c.wakeAt <= E.Now {
				c.state = stRunnable
			}
		}
	}
}

//go:norace
func reschedule(t *Task, avoid bool) {
	n := pick(t, avoid)
	if n == nil && E.next > 0 {
		// wait for a task blocked outside: it becomes runnable when it yields
		for spins := 0; n == nil && spins < 200000; spins++ {
			cur = nil2
			runtime.Gosched()
			n = pick(t, avoid)
		}
	}
	if n == nil {
		// nobody can run
		any := false
		for i := 0; i < E.ntasks; i++ {
			if E.tasks[i].state != stDone {
				any = true
			}
		}
		if !any {
			cur = nil
			return
		}
		if E.harness == 0 {
			abort(leftover)
		} else {
			E.Deadlock = true
			abort("deadlock: every live task is blocked")
		}
		n = pick(t, false)
		if n == nil {
			cur = nil
			return
		}
	}
	newQuantum()
	if n == t {
		return
	}
	E.Switches++
	h(uint64(n.ID)*31 + uint64(E.Steps))
	handoff(t, n)
}

//go:norace
func handoff(t, n *Task) {
	cur = n
	if t == nil || t.state == stDone {
		return
	}
	for cur != t {
		runtime.Gosched()
	}
}

// BlockOn parks the running task until Wake(key).
//
//go:norace
func BlockOn(key unsafe.Pointer) {
	t := self()
	if t == nil {
		runtime.Gosched()
		return
	}
	E.Steps++
	if E.Steps > E.MaxSteps && !E.Aborted {
		abort("step limit exceeded: no progress")
	}
	if E.Aborted && E.ended {
		runtime.Goexit()
	}
	checkDead(t)
	t.state = stBlocked
	t.key = key
	reschedule(t, false)
	t.key = nil
	checkDead(t)
}

// Wake makes every task blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	for i := 0; i < E.ntasks; i++ {
		c := E.tasks[i]
		if c.state == stBlocked && c.key == key {
			c.state = stRunnable
		}
	}
}

// Sleep suspends the running task for d ns of simulated time.
//
//go:norace
func Sleep(d int64) {
	t := self()
	if t == nil {
		if d > 0 {
			E.Now += d
		}
		return
	}
	checkDead(t)
	if d <= 0 {
		reschedule(t, true)
		checkDead(t)
		return
	}
	t.state = stSleeping
	t.wakeAt = E.Now + d
	reschedule(t, false)
	checkDead(t)
}

// NowNanos is the wall clock seen by the running task, in unix ns.
//
//go:norace
func NowNanos() int64 {
	d := -1
	if cur != nil {
		d = cur.Domain
	}
	return Base*1000000000 + E.Now + E.Skew[d+1]
}

// ClockOf returns the wall clock of a domain in unix ns.
//
//go:norace
func ClockOf(d int) int64 { return Base*1000000000 + E.Now + E.Skew[d+1] }

// SetSkew sets the offset of a clock domain.
//
//go:norace
func SetSkew(d int, ns int64) { E.Skew[d+1] = ns }

// GetSkew returns the offset of a clock domain.
//
//go:norace
func GetSkew(d int) int64 { return E.Skew[d+1] }

// Spawn creates a task.
//
//go:norace
func Spawn(name string, fn func()) *Task {
	E.harness++
	return spawn(name, fn)
}

//go:norace
func spawn(name string, fn func()) *Task {
	slot := E.ntasks
	if slot >= MaxTasks/2 {
		// goroutines of the code may be many: take the place of one that ended
		for i := 0; i < E.ntasks; i++ {
			if t := E.tasks[i]; t.code && t.state == stDone {
				slot = i
				break
			}
		}
	}
	if slot >= MaxTasks {
		panic("simrt: too many tasks")
	}
	t := &Task{ID: slot + 1, Name: name, Node: -1, Domain: -1, fn: fn}
	if cur != nil {
		t.Node, t.epoch, t.Domain = cur.Node, cur.epoch, cur.Domain
	}
	E.tasks[slot] = t
	if slot == E.ntasks {
		E.ntasks++
	}
	go taskMain(t)
	return t
}

// OnGo is told about each goroutine the code under test starts.
var OnGo func(parent, child *Task)

// Go starts a goroutine of the code under test as a task (or a plain goroutine
// outside of a run).
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	t := spawn("go", fn)
	t.code = true
	if OnGo != nil {
		OnGo(cur, t)
	}
	Y()
}

//go:norace
func taskMain(t *Task) {
	t.goid = goid()
	for cur != t {
		runtime.Gosched()
	}
	defer taskEnd(t)
	if E.Aborted {
		return
	}
	t.fn()
}

//go:norace
func taskEnd(t *Task) {
	if r := recover(); r != nil {
		switch r.(type) {
		case Abort, Crash:
		default:
			if !E.Aborted {
				E.Reason = "panic in task " + t.Name + ": " + sprint(r)
				PanicValue = r
				buf := make([]byte, 8192)
				PanicStack = string(buf[:runtime.Stack(buf, false)])
				abort(E.Reason)
			}
		}
	}
	release(unsafe.Pointer(&t.sync))
	release(unsafe.Pointer(&allDone))
	t.state = stDone
	t.Op = 0
	if !t.code {
		E.harness--
	}
	Wake(unsafe.Pointer(t))
	reschedule(t, false)
}

// PanicValue and PanicStack describe the last panic that escaped a task.
var (
	PanicValue any
	PanicStack string
)

func sprint(r any) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case string:
		return v
	}
	return "non-error panic"
}

// Done reports whether a task ended.
//
//go:norace
func (t *Task) Done() bool { return t.state == stDone }

// Join waits for a task to end.
//
//go:norace
func Join(t *Task) {
	for t.state != stDone {
		BlockOn(unsafe.Pointer(t))
	}
	acquire(unsafe.Pointer(&t.sync))
}

// Run executes fn as task 1 and returns when every task ended. It returns false
// if the run got stuck outside the simulator's control.
//
//go:norace
func Run(fn func()) bool {
	PanicValue, PanicStack = nil, ""
	t := Spawn("main", fn)
	newQuantum()
	cur = t
	var last *Task
	var lastSteps int64
	idle := 0
	for {
		c := cur
		if c == nil {
			break
		}
		if c != last || E.Steps != lastSteps {
			last, lastSteps, idle = c, E.Steps, 0
		} else {
			idle++
		}
		if idle == 200000 {
			// the running task is blocked in an operation the simulator does not
			// control: let the others go on
			c.ext = true
			c.state = stBlocked
			E.next++
			E.Ext++
			n := pick(nil, false)
			if n == nil {
				E.ExtStuck = true
				return false
			}
			idle = 0
			newQuantum()
			cur = n
		}
		runtime.Gosched()
	}
	if E.Reason == leftover {
		E.Aborted, E.Reason = false, ""
	}
	E.ended = true
	cur = nil
	acquire(unsafe.Pointer(&allDone))
	return true
}

// EnterNode marks the running task as executing on a node until LeaveNode.
//
//go:norace
func EnterNode(n int) {
	t := cur
	t.Node, t.Domain, t.epoch, t.Crashed = n, n, E.Epoch[n], false
}

// LeaveNode ends EnterNode.
//
//go:norace
func LeaveNode() {
	t := cur
	t.Node, t.Domain = -1, -1
}

// CrashNode kills every call in progress on a node.
//
//go:norace
func CrashNode(n int) {
	E.Epoch[n]++
	E.Crashes++
	for i := 0; i < E.ntasks; i++ {
		c := E.tasks[i]
		if c.Node == n && c.mask == 0 && (c.state == stBlocked || c.state == stSleeping) {
			c.state = stRunnable
		}
	}
}

// Mask makes the running task immune to crashes (it executes inside another
// process: the storage) and switches its clock domain; it returns the previous
// domain.
//
//go:norace
func Mask(domain int) int {
	t := cur
	if t == nil {
		return -1
	}
	t.mask++
	old := t.Domain
	t.Domain = domain
	return old
}

// Unmask ends Mask.
//
//go:norace
func Unmask(old int) {
	t := cur
	if t == nil {
		return
	}
	t.mask--
	t.Domain = old
}

// NoPreempt disables statement-level preemption of the running task (used
// around code whose number of yields is not a function of the choices).
//
//go:norace
func NoPreempt(fn func()) {
	t := cur
	if t == nil {
		fn()
		return
	}
	t.nofine++
	defer func() { t.nofine-- }()
	fn()
}

// ReadEntropy fills b from the simulated entropy source.
//
//go:norace
func ReadEntropy(b []byte) (int, error) {
	// crypto/internal MaybeReadByte reads zero or one byte at random: single
	// bytes neither advance the stream nor count.
	if len(b) == 1 {
		b[0] = byte(mix(E.rnd))
		return 1, nil
	}
	E.EntropyReads++
	if f := E.EntropyFault; f != nil && cur != nil {
		switch f(len(b)) {
		case 1:
			return 0, errEntropy{}
		case 2:
			n := len(b) / 2
			fill(b[:n])
			return n, errEntropy{}
		case 3: // a legal short read
			n := len(b) / 2
			fill(b[:n])
			return n, nil
		}
	}
	fill(b)
	return len(b), nil
}

//go:norace
func fill(b []byte) {
	for i := 0; i < len(b); {
		E.rnd += 0x9E3779B97F4A7C15
		v := mix(E.rnd)
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
}

type errEntropy struct{}

func (errEntropy) Error() string { return "simulated entropy failure" }

// ErrEntropy is the injected entropy error.
var ErrEntropy error = errEntropy{}

// Live returns how many tasks are not done.
//
//go:norace
func Live() int {
	n := 0
	for i := 0; i < E.ntasks; i++ {
		if E.tasks[i].state != stDone {
			n++
		}
	}
	return n
}

// Outside runs fn as if the running task had just arrived from outside every
// node: an answer is awaited there while other nodes work.
//
//go:norace
func Outside(fn func()) {
	t := cur
	n, d, e, m, c := t.Node, t.Domain, t.epoch, t.mask, t.Crashed
	t.Node, t.Domain, t.mask = -1, -1, 0
	defer func() { t.Node, t.Domain, t.epoch, t.mask, t.Crashed = n, d, e, m, c }()
	fn()
}
