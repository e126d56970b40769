// Package simmathrand replaces math/rand in instrumented code: the real
// algorithms over sources whose draws can be interrupted, so that a source
// shared without protection loses, repeats or mixes values, as it would on
// several processors.
package simmathrand

import (
	"math/rand"
	"sync"

	"zntr.io/solid/zz_verif/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Table is the output of the real generator for a seed, computed on demand.
type Table struct {
	ref  rand.Source64
	vals []uint64
}

// NewTable returns the table of a seed.
func NewTable(seed int64) *Table {
	return &Table{ref: rand.NewSource(seed).(rand.Source64)}
}

// At returns the i-th value.
func (t *Table) At(i int) uint64 {
	for len(t.vals) <= i {
		t.vals = append(t.vals, t.ref.Uint64())
	}
	return t.vals[i]
}

var (
	tables = map[int64]*Table{}
	order  []int64
)

func table(seed int64) *Table {
	if t := tables[seed]; t != nil {
		return t
	}
	if len(order) > 64 {
		delete(tables, order[0])
		order = order[1:]
	}
	t := NewTable(seed)
	tables[seed] = t
	order = append(order, seed)
	return t
}

type source struct {
	t    *Table
	seed int64
	pos  int
	rnd  *rand.Rand // generator it was given to
}

func (s *source) Seed(seed int64) {
	simrt.Y()
	if seed != s.seed {
		s.seed, s.t = seed, table(seed)
	}
	s.pos = 0
}

func (s *source) Uint64() uint64 {
	p := s.pos
	simrt.Y()
	v := s.t.At(p)
	simrt.Y()
	s.pos = p + 1
	simrt.Y()
	return v
}

func (s *source) Int63() int64 { return int64(s.Uint64() & (1<<63 - 1)) }

// Seeds lists the seeds of the sources made by the code since the process
// started (Static of them at start-up).
var (
	made   []*source
	Static int
	sealed bool
)

// Reset brings every start-up source back to its beginning and forgets the
// others.
func Reset() {
	if !sealed {
		sealed, Static = true, len(made)
	}
	made = made[:Static]
	for _, s := range start {
		s.Source64.Seed(s.seed)
	}
	for _, s := range made {
		if s.rnd != nil {
			s.rnd.Seed(s.seed)
		}
		s.pos = 0
	}
}

// Mark and Truncate let a harness hide the sources it made itself.
func Mark() int      { return len(made) }
func Truncate(n int) { made = made[:n] }

// Seeds returns the seeds in use.
func Seeds() []int64 {
	var l []int64
	for _, s := range made {
		l = append(l, s.seed)
	}
	return l
}

// NewSource is math/rand.NewSource.
func NewSource(seed int64) Source {
	if simrt.RaceBuild {
		// tables are shared by the whole process: not something tasks may touch
		s := &plain{rand.NewSource(seed).(rand.Source64), seed}
		if !simrt.Active() && !sealed {
			start = append(start, s)
		}
		return s
	}
	var s *source
	if simrt.Active() || sealed {
		s = &source{t: table(seed), seed: seed}
	} else {
		s = &source{t: NewTable(seed), seed: seed}
	}
	made = append(made, s)
	return s
}

// plain is a source of builds with the race detector: the real one.
type plain struct {
	rand.Source64
	seed int64
}

var start []*plain // made before the first run

// New is math/rand.New.
func New(src Source) *Rand {
	r := rand.New(src)
	if s, ok := src.(*source); ok {
		s.rnd = r
	}
	return r
}

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }

// the process-wide generator is safe for concurrent use
var (
	std   = rand.New(rand.NewSource(42))
	stdMu sync.Mutex
)

func locked[T any](f func() T) T {
	stdMu.Lock()
	defer stdMu.Unlock()
	return f()
}

func Seed(seed int64)      { locked(func() int { std.Seed(seed); return 0 }) }
func Int63() int64         { return locked(std.Int63) }
func Uint32() uint32       { return locked(std.Uint32) }
func Uint64() uint64       { return locked(std.Uint64) }
func Int31() int32         { return locked(std.Int31) }
func Int() int             { return locked(std.Int) }
func Int63n(n int64) int64 { return locked(func() int64 { return std.Int63n(n) }) }
func Int31n(n int32) int32 { return locked(func() int32 { return std.Int31n(n) }) }
func Intn(n int) int       { return locked(func() int { return std.Intn(n) }) }
func Float64() float64     { return locked(std.Float64) }
func Float32() float32     { return locked(std.Float32) }
func NormFloat64() float64 { return locked(std.NormFloat64) }
func ExpFloat64() float64  { return locked(std.ExpFloat64) }
func Perm(n int) []int     { return locked(func() []int { return std.Perm(n) }) }
func Read(p []byte) (int, error) {
	return locked(func() int { n, _ := std.Read(p); return n }), nil
}

// Shuffle draws under the lock and calls swap outside of it.
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
