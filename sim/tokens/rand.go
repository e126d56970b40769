package tokens

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simmathrand"
	"zntr.io/solid/zz_verif/simrt"
)

// modelSource replays the table of a seed from a position.
type modelSource struct {
	t   *simmathrand.Table
	pos int
}

func (m *modelSource) Uint64() uint64  { v := m.t.At(m.pos); m.pos++; return v }
func (m *modelSource) Int63() int64    { return int64(m.Uint64() & (1<<63 - 1)) }
func (m *modelSource) Seed(seed int64) {}

// A state of the sequential generator: values consumed, and what is left of
// the last value drawn for bytes (where it was drawn, bytes left).
func pack(pos, drawn, left int) uint64       { return uint64(pos)<<28 | uint64(drawn)<<4 | uint64(left) }
func unpack(s uint64) (pos, drawn, left int) { return int(s >> 28), int(s>>4) & 0xffffff, int(s & 15) }

// call is one use of a source.
type call struct {
	name string
	do   func(g generator, yield func()) string
	read int // bytes, for reads
}

// generator is the shared interface of the code's source and of the model.
type generator interface {
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Float64() float64
	Float32() float32
	Perm(int) []int
	NormFloat64() float64
	ExpFloat64() float64
	Shuffle(int, func(i, j int))
	Read([]byte) (int, error)
}

// global is the package-level generator.
type global struct{}

func (global) Int63() int64                    { return randomness.Int63() }
func (global) Uint32() uint32                  { return randomness.Uint32() }
func (global) Uint64() uint64                  { return randomness.Uint64() }
func (global) Int31() int32                    { return randomness.Int31() }
func (global) Int() int                        { return randomness.Int() }
func (global) Int63n(n int64) int64            { return randomness.Int63n(n) }
func (global) Int31n(n int32) int32            { return randomness.Int31n(n) }
func (global) Intn(n int) int                  { return randomness.Intn(n) }
func (global) Float64() float64                { return randomness.Float64() }
func (global) Float32() float32                { return randomness.Float32() }
func (global) Perm(n int) []int                { return randomness.Perm(n) }
func (global) NormFloat64() float64            { return randomness.NormFloat64() }
func (global) ExpFloat64() float64             { return randomness.ExpFloat64() }
func (global) Shuffle(n int, f func(i, j int)) { randomness.Shuffle(n, f) }
func (global) Read(b []byte) (int, error)      { return randomness.Reader.Read(b) }

func guard(f func() string) (out string) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case simrt.Abort, simrt.Crash:
				panic(p)
			}
			out = "panic"
		}
	}()
	return f()
}

type swapPanic struct{}

// drawCall picks a call. reads: byte reads are allowed.
func drawCall(p kit.Plan, reads, values bool) call {
	k := p.N(16)
	if !values {
		k = 15
	}
	if !reads && k == 15 {
		k = 0
	}
	n := []int{10, 1, 2, 7, 100, 1 << 20, 1<<31 - 1, 0, -1, -5}[p.W([]int{4, 1, 2, 2, 2, 1, 1, 1, 1, 1})]
	v := func(name string, f func(g generator) any) call {
		return call{name: name, do: func(g generator, _ func()) string {
			return guard(func() string { return fmt.Sprint(f(g)) })
		}}
	}
	switch k {
	case 0:
		return v("Int63", func(g generator) any { return g.Int63() })
	case 1:
		return v("Uint32", func(g generator) any { return g.Uint32() })
	case 2:
		return v("Uint64", func(g generator) any { return g.Uint64() })
	case 3:
		return v("Int31", func(g generator) any { return g.Int31() })
	case 4:
		return v("Int", func(g generator) any { return g.Int() })
	case 5:
		return v(fmt.Sprintf("Int63n(%d)", n), func(g generator) any { return g.Int63n(int64(n)) })
	case 6:
		return v(fmt.Sprintf("Int31n(%d)", n), func(g generator) any { return g.Int31n(int32(n)) })
	case 7:
		return v(fmt.Sprintf("Intn(%d)", n), func(g generator) any { return g.Intn(n) })
	case 8:
		return v("Float64", func(g generator) any { return g.Float64() })
	case 9:
		return v("Float32", func(g generator) any { return g.Float32() })
	case 10:
		m := []int{5, 0, 1, 12}[p.N(4)]
		return v(fmt.Sprintf("Perm(%d)", m), func(g generator) any { return g.Perm(m) })
	case 11:
		return v("NormFloat64", func(g generator) any { return g.NormFloat64() })
	case 12:
		return v("ExpFloat64", func(g generator) any { return g.ExpFloat64() })
	case 13, 14:
		m := []int{5, 0, 1, 9, -1}[p.W([]int{4, 1, 1, 4, 1})]
		boom := -1
		if k == 14 {
			boom = p.N(4) // the caller's swap fails
		}
		return call{name: fmt.Sprintf("Shuffle(%d,fail %d)", m, boom), do: func(g generator, yield func()) string {
			var l []int
			for i := 0; i < m; i++ {
				l = append(l, i)
			}
			c := 0
			r := guard(func() string {
				g.Shuffle(m, func(i, j int) {
					yield()
					if c == boom {
						panic(swapPanic{})
					}
					c++
					l[i], l[j] = l[j], l[i]
				})
				return "done"
			})
			return fmt.Sprint(r, l)
		}}
	default:
		m := []int{8, 0, 1, 3, 7, 16, 33}[p.N(7)]
		return call{name: fmt.Sprintf("Read(%d)", m), read: m, do: func(g generator, _ func()) string {
			b := make([]byte, m)
			n, err := g.Read(b)
			return fmt.Sprintf("%d %v %x", n, err, b)
		}}
	}
}

// step gives the state the sequential generator is left in by a call that
// returned res, if it can have returned that.
func step(t *simmathrand.Table, c call, res string) func(uint64) []uint64 {
	type out struct {
		res  string
		next uint64
	}
	memo := map[uint64]out{}
	return func(s uint64) []uint64 {
		o, ok := memo[s]
		if !ok {
			pos, drawn, left := unpack(s)
			src := &modelSource{t, pos}
			if strings.HasPrefix(c.name, "Read(") {
				var val int64
				if left > 0 {
					val = int64(t.At(drawn)&(1<<63-1)) >> (8 * uint(7-left))
				}
				b := make([]byte, c.read)
				for i := range b {
					if left == 0 {
						drawn = src.pos
						val = src.Int63()
						left = 7
					}
					b[i] = byte(val)
					val >>= 8
					left--
				}
				if left == 0 {
					drawn = 0
				}
				o = out{fmt.Sprintf("%d <nil> %x", c.read, b), pack(src.pos, drawn, left)}
			} else {
				o = out{c.do(rand.New(src), func() {}), 0}
				o.next = pack(src.pos, drawn, left)
			}
			memo[s] = o
		}
		if o.res != res {
			return nil
		}
		return []uint64{o.next}
	}
}

type use struct {
	c        call
	res      string
	inv, ret int64
}

func explained(uses []use, t *simmathrand.Table, init uint64, limit int) (ok, decided bool, ops []kit.LinOp) {
	for _, u := range uses {
		ops = append(ops, kit.LinOp{Inv: u.inv, Ret: u.ret, Step: step(t, u.c, u.res), Name: u.c.name + "=" + u.res})
	}
	ok, decided = kit.Linearizable(ops, init, limit)
	return
}

// randomMain shares random sources between threads.
func (w *world) randomMain() {
	r := w.r
	p0 := kit.Plan{S: simrt.StMisc}
	useGlobal := p0.Pct(25)
	seed := []int64{1, 0, 42, -7, 1 << 40, -(1 << 62)}[p0.N(6)]
	var g generator
	m := simmathrand.Mark()
	var lr *randomness.LockedRand
	reads := true
	if useGlobal {
		g = global{}
		r.Probe("package-level-generator")
	} else {
		lr = randomness.NewLockedRand(seed)
		g = lr
		reads = p0.Pct(70)
	}
	onlyReads := !useGlobal && p0.Pct(15)
	if onlyReads {
		reads = true
		rd := randomness.NewReader(seed)
		gg, ok := rd.(generator)
		if ok {
			g = gg
		} else {
			g = readerOnly{rd}
		}
	}
	if !useGlobal {
		simmathrand.Truncate(m)
	}
	phases := 1
	if lr != nil && p0.Pct(25) && !onlyReads {
		phases = 2
	}
	for ph := 0; ph < phases; ph++ {
		if ph > 0 {
			seed = []int64{3, seed, 99}[p0.N(3)]
			o := r.Do("Seed", -1, func() { lr.Seed(seed) })
			r.CheckPanic(o, "C24")
		}
		var uses []use
		var ts []*simrt.Task
		for i := 0; i < r.Cfg.Agents; i++ {
			p := kit.Plan{S: simrt.StAgent + i}
			ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
				for k := 0; k < r.Cfg.OpsPer+1 && !r.Broken(); k++ {
					c := drawCall(p, reads, !onlyReads)
					var res string
					o := r.Do(c.name, -1, func() { res = c.do(g, simrt.Y) })
					if r.CheckPanic(o, "C24") || !o.Done {
						return
					}
					if strings.HasPrefix(res, "panic") {
						r.Fault("panicking-caller")
					}
					r.Logf("%s -> %s", c.name, res)
					uses = append(uses, use{c, res, o.Inv, o.Ret})
				}
			}))
		}
		for _, t := range ts {
			simrt.Join(t)
		}
		if r.E.Aborted {
			return
		}
		w.checkRandom(uses, useGlobal, seed)
	}
	// a reader created with a seed replays the same bytes
	if p0.Pct(50) && !r.Broken() {
		w.replayReader(p0)
	}
}

type readerOnly struct{ io.Reader }

func (readerOnly) Int63() int64                { panic("no") }
func (readerOnly) Uint32() uint32              { panic("no") }
func (readerOnly) Uint64() uint64              { panic("no") }
func (readerOnly) Int31() int32                { panic("no") }
func (readerOnly) Int() int                    { panic("no") }
func (readerOnly) Int63n(int64) int64          { panic("no") }
func (readerOnly) Int31n(int32) int32          { panic("no") }
func (readerOnly) Intn(int) int                { panic("no") }
func (readerOnly) Float64() float64            { panic("no") }
func (readerOnly) Float32() float32            { panic("no") }
func (readerOnly) Perm(int) []int              { panic("no") }
func (readerOnly) NormFloat64() float64        { panic("no") }
func (readerOnly) ExpFloat64() float64         { panic("no") }
func (readerOnly) Shuffle(int, func(i, j int)) { panic("no") }

func (w *world) checkRandom(uses []use, useGlobal bool, seed int64) {
	r := w.r
	if len(uses) == 0 {
		return
	}
	const limit = 60000
	if !useGlobal {
		ok, decided, ops := explained(uses, simmathrand.NewTable(seed), pack(0, 0, 0), limit)
		if !decided {
			r.Notes["random:undecided"]++
			return
		}
		r.Notes["C24:history-checked"]++
		r.Notes["C24:draws"] += int64(len(ops))
		if !ok {
			r.Fail("C24", "not-one-stream", "no order of the concurrent calls explains the values drawn from the source seeded with %d: %s", seed, names(ops))
		}
		return
	}
	seeds := simmathrand.Seeds()
	if len(seeds) == 0 {
		return
	}
	var vals, reads []use
	for _, u := range uses {
		if strings.HasPrefix(u.c.name, "Read(") {
			reads = append(reads, u)
		} else {
			vals = append(vals, u)
		}
	}
	try := func(l []use, seed int64) (bool, bool, []kit.LinOp) {
		if len(l) == 0 {
			return true, true, nil
		}
		return explained(l, simmathrand.NewTable(seed), pack(0, 0, 0), limit)
	}
	good, und := false, false
	if len(seeds) == 1 {
		ok, dec, _ := try(uses, seeds[0])
		good, und = ok, !dec
	}
	for i := range seeds {
		if good || len(seeds) == 1 {
			break
		}
		ok, dec, _ := try(vals, seeds[i])
		und = und || !dec
		if !ok {
			continue
		}
		for j := range seeds {
			if seeds[j] == seeds[i] {
				continue
			}
			ok, dec, _ := try(reads, seeds[j])
			und = und || !dec
			if ok {
				good = true
			}
		}
	}
	if und && !good {
		r.Notes["random:undecided"]++
		return
	}
	r.Notes["C24:history-checked"]++
	r.Notes["C24:draws"] += int64(len(uses))
	if !good {
		_, _, ops := explained(uses, simmathrand.NewTable(1), 0, 1)
		r.Fail("C24", "not-one-stream:global", "no order of the concurrent calls explains the values drawn from the package-level source: %s", names(ops))
	}
}

func names(ops []kit.LinOp) string {
	var l []string
	for _, o := range ops {
		l = append(l, fmt.Sprintf("[%d,%d]%s", o.Inv, o.Ret, o.Name))
	}
	return strings.Join(l, " ")
}

func (w *world) replayReader(p kit.Plan) {
	r := w.r
	seed := []int64{1, 5, -9, 1 << 50}[p.N(4)]
	t := simmathrand.NewTable(seed)
	var want []byte
	for i := 0; len(want) < 200; i++ {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], t.At(i)&(1<<63-1))
		want = append(want, b[:7]...)
	}
	m := simmathrand.Mark()
	var got []byte
	o := r.Do("NewReader", -1, func() {
		rd := randomness.NewReader(seed)
		for k := 0; k < 6; k++ {
			b := make([]byte, []int{16, 1, 7, 3, 30, 0}[p.N(6)])
			n, err := rd.Read(b)
			if err != nil || n > len(b) {
				r.Fail("C24", "reader-error", "reading %d bytes returned %d, %v", len(b), n, err)
				return
			}
			got = append(got, b[:n]...)
		}
	})
	simmathrand.Truncate(m)
	if r.CheckPanic(o, "C24") {
		return
	}
	r.Notes["C24:reader-replayed"]++
	if !bytes.Equal(got, want[:len(got)]) {
		r.Fail("C24", "reader-differs", "a reader seeded with %d returned %x instead of %x", seed, got, want[:len(got)])
	}
}
