package simrt

import (
	"runtime"
	"unsafe"
)

// Channel operations of instrumented code. Buffered channels, closed channels
// and partners outside of the simulator are served by the real channel, tried
// without blocking; two tasks meeting at an unbuffered channel are matched here.
// Which ready case of a select is taken is the scheduler's choice.

// waiter is one task waiting at one or more channels.
type waiter struct {
	t     *Task
	cases []Case
	fired int // case served by a partner, -1: none
	sync  int64
}

// Case is one case of a select.
type Case interface {
	key() unsafe.Pointer
	try() bool        // the real channel, without blocking
	meet(o Case) bool // hand over to or take from a waiting partner
	sends() bool
}

// Rx is a receive case.
type Rx[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// Tx is a send case.
type Tx[T any] struct {
	c chan<- T
	v T
}

func RecvCase[T any](c <-chan T) *Rx[T] { return &Rx[T]{c: c} }

func SendCase[T any](c chan<- T) func(T) *Tx[T] {
	return func(v T) *Tx[T] { return &Tx[T]{c, v} }
}

//go:norace
func (r *Rx[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }

//go:norace
func (s *Tx[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)) }

func (r *Rx[T]) sends() bool { return false }
func (s *Tx[T]) sends() bool { return true }

//go:norace
func (r *Rx[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

//go:norace
func (s *Tx[T]) try() bool {
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}

//go:norace
func (r *Rx[T]) meet(o Case) bool {
	s, ok := o.(*Tx[T])
	if ok {
		r.V, r.OK = s.v, true
	}
	return ok
}

//go:norace
func (s *Tx[T]) meet(o Case) bool {
	r, ok := o.(*Rx[T])
	if ok {
		r.V, r.OK = s.v, true
	}
	return ok
}

// Select performs one of the cases; -1 is the default case.
//
//go:norace
func Select(def bool, cases ...Case) int {
	if cur == nil {
		for {
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if def {
				return -1
			}
			runtime.Gosched()
		}
	}
	Y()
	t := self()
	if t == nil {
		return -1
	}
	first := 0
	if len(cases) > 1 {
		first = Choose(StSched, len(cases))
	}
	var w *waiter
	for {
		for i := range cases {
			i = (first + i) % len(cases)
			if perform(cases[i]) {
				if w != nil {
					unlist(w)
				}
				return i
			}
		}
		if def {
			return -1
		}
		if w == nil {
			w = &waiter{t: t, cases: cases, fired: -1}
			E.waiters[E.nwait] = w
			E.nwait++
		}
		blockChan(t, w)
		if w.fired >= 0 {
			acquire(unsafe.Pointer(&w.sync))
			return w.fired
		}
	}
}

//go:norace
func perform(c Case) bool {
	k := c.key()
	if k == nil {
		return false
	}
	if c.try() {
		wakeChan(k)
		return true
	}
	for n := 0; n < E.nwait; n++ {
		w := E.waiters[n]
		if w.fired >= 0 || w.t.state == stDone || gone(w.t) {
			continue
		}
		for i, o := range w.cases {
			if o.key() == k && o.sends() != c.sends() && c.meet(o) {
				// the two sides are ordered both ways, as at a real channel
				w.fired = i
				release(unsafe.Pointer(&w.sync))
				acquire(unsafe.Pointer(&w.t.sync))
				unlist(w)
				if w.t.state == stBlocked {
					w.t.state = stRunnable
				}
				return true
			}
		}
	}
	return false
}

//go:norace
func gone(t *Task) bool {
	return t.mask == 0 && t.Node >= 0 && E.Epoch[t.Node] != t.epoch
}

//go:norace
func unlist(w *waiter) {
	for i := 0; i < E.nwait; i++ {
		if E.waiters[i] == w {
			E.nwait--
			for ; i < E.nwait; i++ {
				E.waiters[i] = E.waiters[i+1]
			}
			E.waiters[E.nwait] = nil
			return
		}
	}
}

// wakeChan lets everybody who waits at a channel try again.
//
//go:norace
func wakeChan(k unsafe.Pointer) {
	for n := 0; n < E.nwait; n++ {
		w := E.waiters[n]
		if w.t.state != stBlocked {
			continue
		}
		for _, c := range w.cases {
			if c.key() == k {
				w.t.state = stRunnable
				break
			}
		}
	}
}

//go:norace
func blockChan(t *Task, w *waiter) {
	if E.Aborted && E.ended {
		runtime.Goexit()
	}
	defer func() {
		if r := recover(); r != nil {
			unlist(w)
			panic(r)
		}
	}()
	checkDead(t)
	release(unsafe.Pointer(&t.sync))
	t.state, t.chanAt, t.inChan = stBlocked, E.Steps+E.hidden+E.Now, true
	reschedule(t, false)
	t.inChan = false
	checkDead(t)
}

// repoll lets tasks that wait at channels look again whether somebody outside
// of the simulator (a context, say) has served or closed them.
//
//go:norace
func repoll() bool {
	any := false
	at := E.Steps + E.hidden + E.Now
	for i := 0; i < E.ntasks; i++ {
		t := E.tasks[i]
		if t.state == stBlocked && t.inChan && t.chanAt != at {
			t.state, any = stRunnable, true
		}
	}
	return any
}

// SendTo sends on a channel.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, &Tx[T]{c, v}) }
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	r := &Rx[T]{c: c}
	Select(false, r)
	return r.V
}

// Recv2 receives from a channel that may be closed.
func Recv2[T any](c <-chan T) (T, bool) {
	r := &Rx[T]{c: c}
	Select(false, r)
	return r.V, r.OK
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	close(c)
	if cur != nil {
		wakeChan(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
		Y()
	}
}

// Offer sends if that is possible at once.
func Offer[T any](c chan<- T, v T) bool { return Select(true, &Tx[T]{c, v}) == 0 }

const maxTimers = 512

// Timer calls a function, as a new task, at a time to come.
type Timer struct {
	at          int64
	fn          func()
	node, epoch int
	domain      int
}

// NewTimer arranges for fn to be called in d ns.
//
//go:norace
func NewTimer(d int64, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	t := &Timer{at: E.Now + d, fn: fn, node: -1, domain: -1}
	if c := cur; c != nil {
		t.node, t.epoch, t.domain = c.Node, c.epoch, c.Domain
	}
	// a goroutine that is no task (the janitor of a cache, left out of the
	// simulation) has no timers
	if c := cur; c != nil && c.goid == goid() {
		if E.ntimers == maxTimers {
			panic("simrt: too many timers")
		}
		E.timers[E.ntimers] = t
		E.ntimers++
	}
	return t
}

// Stop reports whether the timer was still to fire.
//
//go:norace
func (t *Timer) Stop() bool {
	for i := 0; i < E.ntimers; i++ {
		if E.timers[i] == t {
			dropTimer(i)
			return true
		}
	}
	return false
}

//go:norace
func dropTimer(i int) {
	E.ntimers--
	for ; i < E.ntimers; i++ {
		E.timers[i] = E.timers[i+1]
	}
	E.timers[E.ntimers] = nil
}

//go:norace
func fireTimers() {
	for i := 0; i < E.ntimers; {
		t := E.timers[i]
		if t.at > E.Now {
			i++
			continue
		}
		dropTimer(i)
		c := spawn("go", t.fn)
		c.code, c.Node, c.epoch, c.Domain = true, t.node, t.epoch, t.domain
		if OnGo != nil {
			OnGo(nil, c)
		}
	}
}
