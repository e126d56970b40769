package tokens

import (
	"fmt"
	"math"
	"strings"

	gens "zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// codeKind is one generator of codes or identifiers: the form of its values is
// a list of literal parts and runs of characters of an alphabet.
type codeKind struct {
	name  string
	parts []any // string, or int: so many characters
	chars string
	small bool // collisions by chance are thinkable
	gen   func(node int) (string, error)
	valid func(node int, v string) error
	seen  map[string]bool
	dups  int
	last  string
}

const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// picked returns the generated characters of a value, or false if it does not
// have the form.
func (k *codeKind) picked(v string) (string, bool) {
	out := ""
	for _, p := range k.parts {
		switch x := p.(type) {
		case string:
			if !strings.HasPrefix(v, x) {
				return "", false
			}
			v = v[len(x):]
		case int:
			if len(v) < x || strings.Trim(v[:x], k.chars) != "" {
				return "", false
			}
			out += v[:x]
			v = v[x:]
		}
	}
	return out, v == ""
}

func (k *codeKind) count() (n int) {
	for _, p := range k.parts {
		if x, ok := p.(int); ok {
			n += x
		}
	}
	return n
}

func (w *world) codeKinds() []*codeKind {
	var ac []gens.AuthorizationCode
	var dc []gens.DeviceCode
	var uc, nc []gens.DeviceUserCode
	var ci []gens.ClientID
	var ru []gens.RequestURI
	var op []token.Generator
	for i := 0; i < w.r.Cfg.Nodes; i++ {
		ac = append(ac, gens.DefaultAuthorizationCode())
		dc = append(dc, gens.DefaultDeviceCode())
		uc = append(uc, gens.DefaultDeviceUserCode())
		nc = append(nc, gens.DefaultNumDeviceUserCode())
		ci = append(ci, gens.DefaultClientID())
		ru = append(ru, gens.DefaultRequestURI())
		op = append(op, token.OpaqueToken())
	}
	const iss = "https://as.example.com"
	ks := []*codeKind{
		{name: "authorization-code", parts: []any{32}, chars: alnum,
			gen:   func(i int) (string, error) { return ac[i].Generate(ctx, iss) },
			valid: func(i int, v string) error { return ac[i].Validate(ctx, iss, v) }},
		{name: "device-code", parts: []any{32}, chars: alnum,
			gen:   func(i int) (string, error) { return dc[i].Generate(ctx, iss) },
			valid: func(i int, v string) error { return dc[i].Validate(ctx, iss, v) }},
		{name: "request-uri", parts: []any{"urn:solid:", 32}, chars: alnum,
			gen:   func(i int) (string, error) { return ru[i].Generate(ctx, iss) },
			valid: func(i int, v string) error { return ru[i].Validate(ctx, iss, v) }},
		{name: "user-code", parts: []any{4, "-", 4}, chars: "BCDFGHJKLMNPQRSTVWXZ", small: true,
			gen: func(i int) (string, error) { return uc[i].Generate(ctx, iss) }},
		{name: "numeric-user-code", parts: []any{3, "-", 3, "-", 3}, chars: "0123456789", small: true,
			gen: func(i int) (string, error) { return nc[i].Generate(ctx, iss) }},
		{name: "client-id", parts: []any{16}, chars: alnum,
			gen: func(i int) (string, error) { return ci[i].Generate(ctx) }},
		{name: "opaque-token", parts: []any{3, ".", 28}, chars: alnum,
			gen: func(i int) (string, error) { return op[i].Generate(ctx, nil) }},
	}
	for _, k := range ks {
		k.seen = map[string]bool{}
	}
	return ks
}

// one generates a value and judges it.
func (w *world) one(k *codeKind, node int) (string, bool) {
	r := w.r
	var v string
	var err error
	o := r.Do("Generate:"+k.name, node, func() { v, err = k.gen(node) })
	r.Logf("generate %s -> %s %v", k.name, r.Name(k.name, v), err)
	if o.Crashed {
		return "", false
	}
	if o.Panic != nil {
		if w.hit[o] == 0 {
			r.CheckPanic(o, "C31")
		}
		r.Notes["C31:generation-refused"]++
		w.drawn -= w.given[o]
		return "", false
	}
	if err != nil {
		w.drawn -= w.given[o]
		r.Notes["C31:generation-refused"]++
		if w.hit[o] == 0 {
			r.Fail("C31", "generation-failed:"+k.name, "generation failed: %v", err)
		}
		if v != "" {
			r.Fail("C31", "value-with-error:"+k.name, "generation returned %q together with error %v", v, err)
		}
		return "", false
	}
	r.Notes["C31:generated"]++
	pick, ok := k.picked(v)
	if !ok {
		r.Fail("C31", "form:"+k.name, "generated %s has another form: %q", k.name, v)
		return "", false
	}
	need := int(math.Ceil(float64(k.count()) * math.Log2(float64(len(k.chars))) / 8))
	// randomness may be drawn ahead, but it only serves once
	w.need += need
	if w.drawn < w.need {
		r.Fail("C31", "without-entropy:"+k.name, "%s %q was produced from %d bytes of randomness; all values so far need %d bytes, %d were drawn (faults %v)", k.name, v, w.given[o], w.need, w.drawn, o.Faults)
		return "", false
	}
	if k.seen[v] {
		if k.dups++; !k.small || k.dups > 2 {
			r.Fail("C31", "duplicate:"+k.name, "%s %q was generated before", k.name, v)
		}
	}
	k.seen[v], k.last = true, v
	return pick, true
}

func (w *world) check(k *codeKind, node int, v, what string, want bool) {
	r := w.r
	var err error
	o := r.Do("Validate:"+k.name, node, func() { err = k.valid(node, v) })
	if r.CheckPanic(o, "C31") || o.Crashed {
		return
	}
	if (err == nil) != want {
		r.Fail("C31", map[bool]string{true: "refused:", false: "accepted:"}[want]+k.name+":"+what, "%s %q (%s): %v", k.name, v, what, err)
	}
	r.Notes["C31:validated"]++
}

func (w *world) codeStep(p kit.Plan, ks []*codeKind) {
	k := ks[p.N(len(ks))]
	node := p.N(w.r.Cfg.Nodes)
	if k.valid == nil || p.Pct(60) {
		w.one(k, node)
		return
	}
	if k.last == "" {
		return
	}
	v := k.last
	switch p.N(7) {
	case 0, 1:
		w.check(k, node, v, "own", true)
	case 2:
		w.check(k, node, v[:len(v)-1-p.N(8)], "truncated", false)
	case 3:
		w.check(k, node, v+[]string{"A", "00", "-", v}[p.N(4)], "extended", false)
	case 4:
		w.check(k, node, []string{"", " ", "\n"}[p.N(3)], "blank", false)
	case 5:
		w.check(k, node, junk(p, p.N(12)), "invented", false)
	case 6:
		if k.name == "request-uri" {
			pos := len("urn:solid:") + p.N(32)
			bad := []string{v[:pos] + []string{"-", " ", "é", "/", "\x00", "_"}[p.N(6)] + v[pos+1:], "urn:solie:" + v[10:], strings.ToUpper(v[:10]) + v[10:], "https://as.example.com/" + v, v + "\n" + v, "x" + v}
			w.check(k, node, bad[p.N(len(bad))], "altered", false)
		}
	}
}

// bulk looks at many values of one generator: every place takes every
// character, about equally often, whatever the other places hold.
func (w *world) bulk(p kit.Plan, ks []*codeKind) {
	r := w.r
	k := ks[p.N(len(ks))]
	n := 4000
	switch {
	case len(k.chars) <= 10:
		n = 600
	case len(k.chars) <= 20:
		n = 1000
	}
	places := k.count()
	at := make([]map[byte]int, places)
	for i := range at {
		at[i] = map[byte]int{}
	}
	same := make([]int, places*places)
	total := map[byte]int{}
	for i := 0; i < n; i++ {
		s, ok := w.one(k, p.N(r.Cfg.Nodes))
		if !ok {
			return
		}
		for a := 0; a < places; a++ {
			at[a][s[a]]++
			total[s[a]]++
			for b := 0; b < a; b++ {
				if s[a] == s[b] {
					same[a*places+b]++
				}
			}
		}
	}
	r.Probe("bulk:" + k.name)
	m := float64(len(k.chars))
	for i := 0; i < len(k.chars); i++ {
		c := k.chars[i]
		for a := range at {
			if at[a][c] == 0 || float64(at[a][c]) > 3*float64(n)/m {
				r.Fail("C31", "place:"+k.name, "in %d values, place %d holds %q %d times", n, a, c, at[a][c])
				return
			}
		}
		e := float64(n*places) / m
		if d := math.Abs(float64(total[c]) - e); d > 7.5*math.Sqrt(e) {
			r.Fail("C31", "frequency:"+k.name, "in %d values, %q occurs %d times, about %.0f were expected", n, c, total[c], e)
			return
		}
	}
	for a := 0; a < places; a++ {
		for b := 0; b < a; b++ {
			if float64(same[a*places+b]) > 3*float64(n)/m {
				r.Fail("C31", "repeated-place:"+k.name, "in %d values, place %d repeats place %d %d times", n, a, b, same[a*places+b])
				return
			}
		}
	}
}

func (w *world) codesMain() {
	r := w.r
	ks := w.codeKinds()
	if simrt.Choose(simrt.StCfg, 40) == 39 {
		r.E.EntropyFault = w.count
		t := simrt.Spawn("bulk", func() { w.bulk(kit.Plan{S: simrt.StAgent}, ks) })
		simrt.Join(t)
		return
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+3 && !r.Broken(); k++ {
				w.codeStep(p, ks)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
}
