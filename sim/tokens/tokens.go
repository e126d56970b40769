// Package tokens simulates what the system builds on randomness: verifiable
// tokens, PKCE pairs and the shared random source.
package tokens

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx = context.Background()

type world struct {
	r *kit.Run
	// entropy delivered to, and faults injected in, each call
	given map[*kit.Op]int
	hit   map[*kit.Op]int
	// over all calls: bytes delivered, bytes the values handed out need
	drawn, need int

	secrets []*secret
	issued  []*tok
	pairs   []*pair
}

// secret is one key and what exists under it.
type secret struct {
	key    []byte
	name   string
	uuids  map[string]string // token -> wrapped identifier
	node   []verifiable.VerifiableUUIDExtractor
	gens   []source
	typed  []token.Generator
	typedS verifiable.UUIDGeneratorFunc
}

type source struct {
	kind string
	gen  verifiable.Generator
	id   [16]byte
	min  int // entropy a token needs
}

type tok struct {
	s      *secret
	val    string
	prefix string
	id     string
}

type pair struct{ verifier, challenge string }

// Main runs one simulation.
func Main(r *kit.Run) {
	r.SwarmConfig()
	r.Calendar()
	w := &world{r: r, given: map[*kit.Op]int{}, hit: map[*kit.Op]int{}}
	mode := 0
	pct := []int{1, 1, 1, 1}
	switch r.Prop {
	case "C24":
		pct = []int{18, 1, 1, 1}
	case "C23":
		pct = []int{1, 18, 1, 1}
	case "C28":
		pct = []int{1, 1, 18, 1}
	case "C31":
		pct = []int{1, 1, 1, 18}
	}
	v := simrt.Choose(simrt.StCfg, pct[0]+pct[1]+pct[2]+pct[3])
	for v >= pct[mode] {
		v -= pct[mode]
		mode++
	}
	if mode == 0 {
		r.Live = []string{"C24"}
		w.randomMain()
		return
	}
	if simrt.Choose(simrt.StCfg, 10) >= 4 {
		rate := []int{5, 15, 40}[simrt.Choose(simrt.StCfg, 3)]
		r.E.EntropyFault = func(n int) int {
			o := r.CurOp()
			if o == nil {
				return 0
			}
			if simrt.Chance(simrt.StFault, rate, 100) {
				k := 1 + simrt.Choose(simrt.StFault, 3)
				w.hit[o]++
				switch k {
				case 1:
					r.Fault("entropy-error")
				case 2:
					r.Fault("entropy-short-error")
					w.given[o] += n / 2
					w.drawn += n / 2
				case 3:
					r.Fault("entropy-short")
					w.given[o] += n / 2
					w.drawn += n / 2
				}
				o.Faults = append(o.Faults, "entropy")
				return k
			}
			w.given[o] += n
			w.drawn += n
			return 0
		}
	} else {
		r.E.EntropyFault = w.count
	}
	switch mode {
	case 1:
		r.Live = []string{"C23"}
		w.setup()
	case 3:
		r.Live = []string{"C31"}
		w.codesMain()
		r.E.EntropyFault = nil
		return
	default:
		r.Live = []string{"C28"}
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+3 && !r.Broken(); k++ {
				if mode == 1 {
					w.tokenStep(p)
				} else {
					w.pkceStep(p)
				}
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	r.E.EntropyFault = nil
	if r.E.Aborted {
		return
	}
	if mode == 1 {
		w.finalTokens()
	} else {
		w.finalPairs()
	}
}

// count accounts for entropy delivered without faults.
func (w *world) count(n int) int {
	if o := w.r.CurOp(); o != nil {
		w.given[o] += n
		w.drawn += n
	}
	return 0
}

var errSource = errors.New("identifier source failed")

var secretsPool = []string{
	"very-secret-key-for-access-token-verification", "very-secret-key-for-access-token-verification\x00",
	"very-secret-key-for-access-token-verificatio", "s", "", strings.Repeat("k", 64), strings.Repeat("k", 65), strings.Repeat("k", 200),
}

func (w *world) setup() {
	p := kit.Plan{S: simrt.StMisc}
	n := 1 + p.N(3)
	start := p.N(len(secretsPool))
	for i := 0; i < n; i++ {
		k := secretsPool[(start+i)%len(secretsPool)]
		s := &secret{key: []byte(k), name: fmt.Sprintf("secret%d", i), uuids: map[string]string{}}
		for j := 0; j < w.r.Cfg.Nodes; j++ {
			s.node = append(s.node, verifiable.UUIDVerifier([]byte(k)))
		}
		ids := [][16]byte{{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {}, {15: 1}, {0: 0xff, 1: 0xff, 2: 0xff, 3: 0xff, 4: 0xff, 5: 0xff, 6: 0xff, 7: 0xff, 8: 0xff, 9: 0xff, 10: 0xff, 11: 0xff, 12: 0xff, 13: 0xff, 14: 0xff, 15: 0xff}}
		id := ids[p.N(len(ids))]
		s.gens = append(s.gens,
			source{"static", verifiable.UUIDGenerator(verifiable.StaticUUIDSource(id), s.key), id, 11},
			source{"v4", verifiable.UUIDGenerator(verifiable.UUIDv4Source(), s.key), id, 11 + 14},
			source{"v7", verifiable.UUIDGenerator(verifiable.UUIDv7Source(), s.key), id, 11 + 7},
			source{"failing", verifiable.UUIDGenerator(func() ([16]byte, error) { return id, errSource }, s.key), id, 11},
		)
		s.typed = append(s.typed, verifiable.Token(verifiable.StaticUUIDSource(id), s.key), verifiable.Token(verifiable.UUIDv4Source(), s.key), verifiable.Token(verifiable.UUIDv7Source(), s.key))
		w.secrets = append(w.secrets, s)
	}
}

var prefixes = []struct {
	p    string
	good bool // generation must succeed, under this very prefix
}{
	{"", true}, {"sldat", true}, {"a", true}, {"0", true}, {"my-app", true}, {strings.Repeat("z", 60), true}, {"-", true},
	{"UPPER", false}, {" padded ", false}, {"under_score", false}, {"_", false}, {"é", false}, {"a b", false}, {"a\nb", false}, {"a\n", false}, {"\x00", false}, {"tök", false}, {"a.b", false},
}

func (w *world) tokenStep(p kit.Plan) {
	switch p.W([]int{5, 2, 10}) {
	case 0:
		w.generate(p)
	case 1:
		w.generateTyped(p)
	default:
		w.present(p)
	}
}

func (w *world) record(o *kit.Op, s *secret, kind string, val, prefix, id string, min int) {
	r := w.r
	if got := w.given[o]; got < min {
		r.Fail("C23", "token-without-entropy:"+kind, "a token was produced from %d bytes of randomness (needs %d): %q, faults %v", got, min, val, o.Faults)
		return
	}
	for _, t := range w.issued {
		if t.val == val && kind != "static" {
			r.Fail("C23", "duplicate", "two generations produced %q", val)
		}
	}
	v := verifiable.UUIDVerifier(s.key)
	var out []byte
	var err error
	oo := r.Do("verify", -1, func() { out, err = v.Extract(val) })
	if r.CheckPanic(oo, "C23") || !oo.Done {
		return
	}
	r.Notes["C23:generated"]++
	if err != nil {
		r.Fail("C23", "generated-not-verified:"+kind, "generated token %q (prefix %q) does not verify: %v", val, prefix, err)
		return
	}
	if id != "" && string(out) != id {
		r.Fail("C23", "identifier-differs", "token %q made from %x carries %x", val, id, out)
		return
	}
	if prefix != "" && !strings.HasPrefix(val, prefix+"_") {
		r.Fail("C23", "prefix-missing", "token generated with prefix %q: %q", prefix, val)
	}
	switch kind {
	case "v4", "v7":
		if len(out) != 16 || out[6]>>4 != kind[1]-'0' {
			r.Fail("C23", "identifier-differs", "token %q made from a UUID%s carries %x", val, kind, out)
		}
	}
	s.uuids[val] = string(out)
	w.issued = append(w.issued, &tok{s, val, prefix, string(out)})
}

func (w *world) generate(p kit.Plan) {
	r := w.r
	s := w.secrets[p.N(len(w.secrets))]
	g := s.gens[p.W([]int{4, 3, 3, 1})]
	pf := prefixes[p.N(len(prefixes))]
	var opts []verifiable.GenerateOption
	if pf.p != "" || p.Pct(30) {
		opts = append(opts, verifiable.WithTokenPrefix(pf.p))
	}
	var val string
	var err error
	o := r.Do("Generate:"+g.kind, p.N(r.Cfg.Nodes), func() { val, err = g.gen.Generate(opts...) })
	r.Logf("generate %s %s prefix %q -> %s %v", s.name, g.kind, pf.p, r.Name("token", val), err)
	if r.CheckPanic(o, "C23") || o.Crashed {
		return
	}
	if err != nil {
		r.Notes["C23:generation-refused"]++
		if val != "" {
			r.Fail("C23", "token-with-error", "generation returned %q together with error %v", val, err)
		}
		if w.hit[o] == 0 && pf.good && g.kind != "failing" {
			r.Fail("C23", "generation-failed:"+g.kind, "generation failed for prefix %q: %v", pf.p, err)
		}
		return
	}
	if g.kind == "failing" {
		r.Fail("C23", "token-without-identifier", "a token was produced although the identifier source failed: %q", val)
		return
	}
	if val == "" {
		r.Fail("C23", "empty-token", "generation returned an empty token and no error")
		return
	}
	id := ""
	if g.kind == "static" {
		id = string(g.id[:])
	}
	prefix := pf.p
	if !pf.good {
		prefix = ""
	}
	w.record(o, s, g.kind, val, prefix, id, g.min)
}

func (w *world) generateTyped(p kit.Plan) {
	r := w.r
	s := w.secrets[p.N(len(w.secrets))]
	k := p.N(len(s.typed))
	types := []tokenv1.TokenType{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN, tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED, tokenv1.TokenType(77)}
	prefix := []string{"sldat", "sldrt", "sldpt", "", ""}
	ti := p.N(len(types))
	t := &tokenv1.Token{TokenType: types[ti]}
	if p.Pct(10) {
		t = nil
	}
	var val string
	var err error
	o := r.Do("Token", p.N(r.Cfg.Nodes), func() { val, err = s.typed[k].Generate(ctx, t) })
	r.Logf("generate %s typed %d -> %s %v", s.name, ti, r.Name("token", val), err)
	if r.CheckPanic(o, "C23") || o.Crashed {
		return
	}
	if err != nil {
		if val != "" {
			r.Fail("C23", "token-with-error", "generation returned %q together with error %v", val, err)
		}
		if w.hit[o] == 0 && t != nil {
			r.Fail("C23", "generation-failed:typed", "generation failed: %v", err)
		}
		return
	}
	if t == nil {
		r.Fail("C23", "token-for-nothing", "a token value was produced for a nil token")
		return
	}
	if val == "" {
		r.Fail("C23", "empty-token", "generation returned an empty token and no error")
		return
	}
	kind := []string{"static", "v4", "v7"}[k]
	id := ""
	if k == 0 {
		id = string(s.gens[0].id[:])
	}
	w.record(o, s, kind, val, prefix[ti], id, s.gens[k].min)
}

const b62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

func junk(p kit.Plan, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = b62[p.N(62)]
	}
	return string(b)
}

// mutate derives a presented value from genuine ones.
func (w *world) mutate(p kit.Plan) (string, string) {
	if len(w.issued) == 0 || p.Pct(4) {
		k := p.N(10)
		l := []string{"", "_", "__", "___", "a_b_c", junk(p, 22) + "_" + junk(p, 59), junk(p, 22) + "_" + junk(p, 60), strings.Repeat("z", 22) + "_" + strings.Repeat("z", 60), strings.Repeat("0", 22) + "_" + strings.Repeat("0", 59), "é_\x00_日本" + junk(p, 59)}
		return "invented", l[k]
	}
	t := w.issued[p.N(len(w.issued))]
	v := t.val
	us := strings.LastIndex(v, "_")
	head, sig := v[:us], v[us+1:]
	prefix, id := "", head
	if i := strings.LastIndex(head, "_"); i >= 0 {
		prefix, id = head[:i+1], head[i+1:]
	}
	u := w.issued[p.N(len(w.issued))]
	uus := strings.LastIndex(u.val, "_")
	uhead, usig := u.val[:uus], u.val[uus+1:]
	uid := uhead
	if i := strings.LastIndex(uhead, "_"); i >= 0 {
		uid = uhead[i+1:]
	}
	switch p.N(22) {
	case 0, 1, 2:
		return "genuine", v
	case 3, 4:
		i := p.N(len(v))
		b := []byte(v)
		b[i] = b62[p.N(62)]
		return "flip", string(b)
	case 5:
		i := p.N(len(v))
		b := []byte(v)
		if c := b[i]; c >= 'a' && c <= 'z' {
			b[i] -= 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] += 32
		}
		return "case", string(b)
	case 6:
		return "truncate", v[:p.N(len(v))]
	case 7:
		return "truncate-front", v[1+p.N(len(v)-1):]
	case 8:
		return "extend", v + []string{"0", "A", "_", "\n", " ", "="}[p.N(6)]
	case 9:
		return "zero-extend", head + "_0" + sig
	case 10:
		return "zero-extend-id", prefix + "0" + id + "_" + sig
	case 11:
		return "drop-prefix", id + "_" + sig
	case 12:
		return "add-prefix", []string{"sldat_", "x_", "_", "sldrt_", "__"}[p.N(5)] + v
	case 13:
		return "change-prefix", []string{"sldat_", "sldrt_", "sldpt_", "a_", strings.ToUpper(prefix), strings.TrimSuffix(prefix, "_") + "x_"}[p.N(6)] + id + "_" + sig
	case 14, 15:
		return "splice", head + "_" + usig
	case 16:
		return "splice-id", prefix + uid + "_" + sig
	case 17:
		return "over-range", prefix + strings.Repeat("z", 22) + "_" + sig
	case 18:
		return "over-range-sig", head + "_" + strings.Repeat("z", 59+p.N(2))
	case 19:
		// same low bits, one more: id + 2^128 wraps for a careless decoder
		b := []byte(sig)
		b[0] = b62[p.N(62)]
		return "high-digit", head + "_" + string(b)
	case 20:
		i := p.N(len(v) + 1)
		return "insert", v[:i] + []string{"0", "_", "-", "\x00", "é", "+"}[p.N(6)] + v[i:]
	default:
		i, j := p.N(len(v)), p.N(len(v))
		b := []byte(v)
		b[i], b[j] = b[j], b[i]
		return "swap", string(b)
	}
}

func (w *world) present(p kit.Plan) {
	r := w.r
	kind, val := w.mutate(p)
	s := w.secrets[p.N(len(w.secrets))]
	node := p.N(r.Cfg.Nodes)
	v := s.node[node]
	var out []byte
	var err error
	verify := p.Pct(40)
	o := r.Do("Extract:"+kind, node, func() {
		if verify {
			err = v.Verify(val)
		} else {
			out, err = v.Extract(val)
		}
	})
	id, genuine := s.uuids[val]
	r.Logf("present %s to %s -> %v (genuine %v)", kind, s.name, err, genuine)
	if r.CheckPanic(o, "C23") || o.Crashed {
		return
	}
	switch {
	case err == nil && !genuine:
		r.Fail("C23", "accepted:"+kind, "a value never produced under this secret (%s) was accepted: %q", kind, val)
	case err != nil && genuine:
		r.Fail("C23", "refused", "a genuine token was refused: %q: %v", val, err)
	case err == nil && !verify && string(out) != id:
		r.Fail("C23", "identifier-differs", "token %q carries %x but %x was extracted", val, id, out)
	case err == nil:
		r.Notes["C23:accepted"]++
	default:
		r.Notes["C23:refused"]++
		if out != nil && len(out) > 0 {
			r.Fail("C23", "identifier-with-error", "extraction returned %x together with error %v", out, err)
		}
	}
}

func (w *world) finalTokens() {
	r := w.r
	for _, t := range w.issued {
		for _, s := range w.secrets {
			var out []byte
			var err error
			o := r.Do("final", -1, func() { out, err = s.node[0].Extract(t.val) })
			if r.CheckPanic(o, "C23") {
				return
			}
			if id, ok := s.uuids[t.val]; ok != (err == nil) || ok && id != string(out) {
				r.Fail("C23", "final", "token %q of %s presented to %s: %x %v", t.val, t.s.name, s.name, out, err)
			}
		}
	}
}

// ---------------------------------------------------------------- PKCE

const unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"

func s256(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func (w *world) pkceStep(p kit.Plan) {
	r := w.r
	if len(w.pairs) == 0 || p.Pct(35) {
		var ver, ch string
		var err error
		o := r.Do("CodeVerifier", p.N(r.Cfg.Nodes), func() { ver, ch, err = pkce.CodeVerifier() })
		r.Logf("generate -> %s %v", r.Name("verifier", ver), err)
		if r.CheckPanic(o, "C28") || o.Crashed {
			return
		}
		if err != nil {
			if w.hit[o] == 0 {
				r.Fail("C28", "generation-failed", "generation failed: %v", err)
			}
			if ver != "" || ch != "" {
				r.Fail("C28", "verifier-with-error", "generation returned %q, %q together with error %v", ver, ch, err)
			}
			r.Notes["C28:generation-refused"]++
			return
		}
		r.Notes["C28:generated"]++
		if need := len(ver) * 6 / 8; w.given[o] < need || need < 32 {
			r.Fail("C28", "verifier-without-entropy", "verifier %q was produced from %d bytes of randomness (faults %v)", ver, w.given[o], o.Faults)
		}
		if len(ver) < 43 || len(ver) > 128 || strings.Trim(ver, unreserved) != "" {
			r.Fail("C28", "verifier-format", "verifier %q (%d characters)", ver, len(ver))
		}
		if ch != s256(ver) {
			r.Fail("C28", "challenge-differs", "challenge %q of verifier %q", ch, ver)
		}
		for _, x := range w.pairs {
			if x.verifier == ver || x.challenge == ch {
				r.Fail("C28", "duplicate", "two generations produced %q", ver)
			}
		}
		w.pairs = append(w.pairs, &pair{ver, ch})
		return
	}
	a, b := w.pairs[p.N(len(w.pairs))], w.pairs[p.N(len(w.pairs))]
	ch, ver, kind := a.challenge, b.verifier, "cross"
	flip := func(s string) string {
		i := p.N(len(s))
		c := []byte(s)
		c[i] = b62[p.N(62)]
		return string(c)
	}
	switch p.N(14) {
	case 0, 1, 2:
		ver, kind = a.verifier, "own"
	case 3, 4:
	case 5:
		ver, kind = a.challenge, "challenge"
	case 6:
		ver, kind = flip(a.verifier), "flip"
	case 7:
		ver, kind = a.verifier[:len(a.verifier)-1-p.N(4)], "truncate"
	case 8:
		ver, kind = a.verifier+[]string{"A", "=", "\n", " ", "AAAA", "\x00"}[p.N(6)], "extend"
	case 9:
		ver, kind = []string{"", "%%", strings.ToLower(a.verifier), strings.ToUpper(a.verifier), s256(a.challenge), a.verifier + b.verifier}[p.N(6)], "invented"
	case 10:
		ch, ver, kind = flip(a.challenge), a.verifier, "flip-challenge"
	case 11:
		ch, ver, kind = []string{"", a.challenge[:42], a.challenge + "AAAA", a.challenge + "=", "*", a.challenge[:1]}[p.N(6)], a.verifier, "bad-challenge"
	case 12:
		ch, ver, kind = a.verifier, a.verifier, "verifier-as-challenge"
	default:
		switch p.N(3) {
		case 0:
			ch, ver, kind = "", "", "empty"
		case 1:
			ch, ver, kind = "", a.verifier, "empty-challenge"
		default:
			ch, ver, kind = s256(""), "", "empty-verifier"
		}
	}
	// the challenge is the octets it encodes
	good := false
	if d, err := base64.RawURLEncoding.DecodeString(ch); err == nil && ch != "" {
		h := sha256.Sum256([]byte(ver))
		good = string(d) == string(h[:])
	}
	var ok bool
	var err error
	o := r.Do("Validate:"+kind, p.N(r.Cfg.Nodes), func() { ok, err = pkce.Validate(ch, ver) })
	r.Logf("validate %s -> %v %v", kind, ok, err)
	if r.CheckPanic(o, "C28") || o.Crashed {
		return
	}
	switch {
	case ok && (err != nil || !good || ver == ""):
		r.Fail("C28", "accepted:"+kind, "challenge %q accepted verifier %q (%v)", ch, ver, err)
	case !ok && good && kind == "own":
		r.Fail("C28", "refused", "challenge %q refused its own verifier %q: %v", ch, ver, err)
	case ok:
		r.Notes["C28:accepted"]++
	default:
		r.Notes["C28:refused"]++
	}
}

func (w *world) finalPairs() {
	r := w.r
	for i, a := range w.pairs {
		for j, b := range w.pairs {
			var ok bool
			var err error
			o := r.Do("final", -1, func() { ok, err = pkce.Validate(a.challenge, b.verifier) })
			if r.CheckPanic(o, "C28") {
				return
			}
			if ok != (i == j) {
				r.Fail("C28", "final", "challenge %d against verifier %d: %v %v", i, j, ok, err)
			}
		}
	}
}
