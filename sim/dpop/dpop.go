// Package dpop simulates provers, an unreliable network that duplicates,
// delays, reorders and forges proofs, and verifiers sharing one proof store.
package dpop

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/url"
	"strings"

	"github.com/go-jose/go-jose/v4"

	sdk "zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx context.Context = context.Background() // the context of the run's calls

const second = int64(1000000000)

var (
	ring = []*keys.Key{
		keys.New(jose.EdDSA, "dpop-ed-1", "sig"),
		keys.New(jose.EdDSA, "dpop-ed-2", "sig"),
		keys.New(jose.ES256, "dpop-p256", "sig"),
		keys.New(jose.ES384, "dpop-p384", "sig"),
	}
	alien     = keys.New(jose.ES512, "dpop-p521", "sig") // not a supported algorithm
	supported = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA}
)

// request is what a proof is made for. URLs are written by hand in the form
// the two sides must agree on.
type request struct {
	htm, url, canon string
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD"}
var urls = []struct{ u, canon string }{
	{"https://as.example.com/token", "https://as.example.com/token"},
	{"https://as.example.com/introspect", "https://as.example.com/introspect"},
	{"https://as.example.com/token/", "https://as.example.com/token/"},
	{"https://as.example.com:8443/token", "https://as.example.com:8443/token"},
	{"http://as.example.com/token", "http://as.example.com/token"},
	{"https://as.example.co/mtoken", "https://as.example.co/mtoken"},
	{"https://rs.example.com/a%20b/c", "https://rs.example.com/a%20b/c"},
	{"https://rs.example.com/a%2Fb", "https://rs.example.com/a%2Fb"},
	{"https://rs.example.com/a/b", "https://rs.example.com/a/b"},
	{"https://rs.example.com/items?id=1&x=%20", "https://rs.example.com/items"},
	{"https://rs.example.com/items", "https://rs.example.com/items"},
	{"https://rs.example.com/ITEMS", "https://rs.example.com/ITEMS"},
}

// proof is one DPoP proof on the network.
type proof struct {
	id     int
	val    string
	alts   []string // other encodings of the very same proof
	own    bool     // made by the prover under test
	kind   string
	key    *keys.Key // key it embeds
	good   bool      // header, key, signature and identifier are in order
	htm    string
	canon  string
	ath    *string // access token it is bound to
	iatMin int64   // issue time, s
	iatMax int64
	noIat  bool
	maybe  bool // may also be refused
	tries  []*kit.Op
	wins   []*kit.Op
}

type world struct {
	r       *kit.Run
	store   storage.DPoP
	nodes   int
	ver     []sdk.Verifier
	kver    token.Verifier
	net     []*proof
	seenJTI map[string]bool
	tokens  []string
	provers map[string]sdk.Prover
}

// prover is the prover a client has for a key; it makes all its proofs.
func (w *world) prover(k *keys.Key, dom int) sdk.Prover {
	id := fmt.Sprintf("%s %d", k.Name, dom)
	if w.provers[id] == nil {
		w.provers[id] = sdk.DefaultProver(jwt.DPoPSigner(k.Alg, keys.Provider(w.r, "dpop.key", func() *keys.Key { return k })))
	}
	return w.provers[id]
}

// guarded is the proof store behind a network.
type guarded struct {
	w *world
	s storage.DPoP
}

var errStore = errors.New("proof store unavailable")

func note(r *kit.Run, name string, err error) {
	if o := r.CurOp(); o != nil {
		if err == nil {
			o.Effects = append(o.Effects, "ack:"+name)
		} else {
			o.Effects = append(o.Effects, "nak:"+name)
		}
	}
}

func (g *guarded) Register(c context.Context, id string) error {
	err := g.w.r.SeamCall("proof.Register", true, func() error { return g.s.Register(c, id) })
	note(g.w.r, "proof.Register", err)
	return err
}

func (g *guarded) Delete(c context.Context, id string) error {
	return g.w.r.SeamCall("proof.Delete", true, func() error { return g.s.Delete(c, id) })
}

func (g *guarded) Exists(c context.Context, id string) (bool, error) {
	var ok bool
	err := g.w.r.SeamCall("proof.Exists", false, func() error {
		var e error
		ok, e = g.s.Exists(c, id)
		return e
	})
	if err == kit.ErrNil {
		err = errStore
	}
	note(g.w.r, "proof.Exists", err)
	if err != nil {
		return false, err
	}
	return ok, nil
}

// Main is the body of one run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	ctx = r.Ctx(context.Background())
	r.Calendar()
	w := &world{r: r, seenJTI: map[string]bool{}, provers: map[string]sdk.Prover{}}
	w.nodes = r.Cfg.Nodes
	w.store = inmemory.DPoPProofs()
	w.kver = jwt.EmbeddedKeyVerifier(supported)
	for i := 0; i < w.nodes; i++ {
		w.ver = append(w.ver, sdk.DefaultVerifier(&guarded{w, w.store}, w.kver))
	}
	w.tokens = []string{"token-one", "token-two", "token-on"}
	if r.Cfg.Skew {
		for i := 0; i < w.nodes+2; i++ {
			d := []int64{0, 3, -3, 7, -7, 9, -9}[simrt.Choose(simrt.StCfg, 7)]
			simrt.SetSkew(w.dom(i), d*second)
			if d != 0 {
				r.Fault("clock-skew")
			}
		}
	}
	on := r.Cfg.Profile != "none"
	r.FaultsOn = on
	// something for everybody to fight about
	p0 := kit.Plan{S: simrt.StMisc}
	w.prove(p0)
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+2 && !r.Broken(); k++ {
				w.step(p)
			}
		}))
	}
	if r.Cfg.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 30); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Fault("node-crash")
				i := simrt.Choose(simrt.StFault, w.nodes)
				simrt.CrashNode(i)
				w.ver[i] = sdk.DefaultVerifier(&guarded{w, w.store}, w.kver)
			}
		}))
	}
	if r.Cfg.Jump {
		ts = append(ts, simrt.Spawn("clock", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 20); n > 0; n-- {
					simrt.Sleep(0)
				}
				i := w.dom(simrt.Choose(simrt.StFault, w.nodes+2))
				to := []int64{0, 4, -4, 9, -9}[simrt.Choose(simrt.StFault, 5)] * second
				if d := to - simrt.GetSkew(i); d != 0 {
					r.Jump(i, d)
				}
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	r.FaultsOn = false
	for i := 0; i < w.nodes+2; i++ {
		simrt.SetSkew(w.dom(i), 0)
	}
	// everything that is still in flight is delivered once more
	for _, x := range w.net {
		if len(x.wins) > 0 && p0.N(2) == 0 {
			w.deliver(p0, x, true)
		}
	}
	for i := 0; i < w.nodes && !r.Broken(); i++ {
		x := w.prove(p0)
		if x == nil {
			r.Fail("C22", "prove-after-faults", "no proof can be made after the faults ceased")
			return
		}
		o, jkt, err := w.verify(i, x.val, x.htm, x.canon, nil, nil)
		w.judge(x, o, jkt, err, x.htm, x.canon, nil, nil, "C22")
	}
}

// dom maps verifiers and the two provers to clock domains.
func (w *world) dom(i int) int {
	if i < w.nodes {
		return i
	}
	return 5 + i - w.nodes
}

// crowd sends many proofs in a row: what was accepted before stays used, and
// new ones are still accepted.
func (w *world) crowd(p kit.Plan) {
	w.r.Fault("load:flood")
	l := len(w.net)
	for n := []int{40, 70, 140, 270, 530, 1100, 2200}[p.W([]int{20, 20, 15, 10, 5, 3, 1})]; n > 0 && !w.r.Broken(); n-- {
		if x := w.prove(p); x != nil {
			w.deliver(p, x, true)
		}
	}
	if len(w.net) > l+2 {
		w.net = append(w.net[:l+1], w.net[len(w.net)-1])
	}
	for _, x := range w.net {
		w.deliver(p, x, true)
	}
}

func (w *world) step(p kit.Plan) {
	if p.N(1200) == 1199 {
		w.crowd(p)
	}
	switch p.W([]int{8, 10, 6, 5, 3, 2, 3}) {
	case 0:
		if x := w.prove(p); x != nil && p.Pct(60) {
			w.deliver(p, x, true)
		}
	case 1:
		if len(w.net) > 0 {
			// the newest is the most interesting
			i := len(w.net) - 1 - p.N(len(w.net))
			w.deliver(p, w.net[i], true)
		}
	case 2:
		if len(w.net) > 0 {
			w.deliver(p, w.net[len(w.net)-1-p.N(len(w.net))], false)
		}
	case 3:
		if x := w.forge(p); x != nil {
			w.deliver(p, x, p.Pct(80))
		}
	case 4:
		d := []int64{1, 5, 13, 14, 15, 16, 17, 20, 29, 31, 61}[p.N(11)]
		w.r.Logf("sleep %ds", d)
		simrt.Sleep(d*second - int64(p.N(2)*300)*second/1000)
	case 5:
		w.badProve(p)
	case 6:
		w.sameRequest(p)
	}
}

func pick(p kit.Plan) request {
	u := urls[p.N(len(urls))]
	return request{methods[p.W([]int{4, 4, 1, 1, 1})], u.u, u.canon}
}

// decoded is the content of a compact token, read without the code under test.
type decoded struct {
	head, body map[string]any
}

func decode(s string) (*decoded, error) {
	parts := strings.Split(s, ".")
	if len(parts) != 3 {
		return nil, fmt.Errorf("%d parts", len(parts))
	}
	d := &decoded{}
	for i, m := range []*map[string]any{&d.head, &d.body} {
		b, err := base64.RawURLEncoding.DecodeString(parts[i])
		if err != nil {
			return nil, err
		}
		if err := json.Unmarshal(b, m); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func num(v any) (int64, bool) {
	f, ok := v.(float64)
	return int64(f), ok && f == float64(int64(f))
}

// prove makes a proof with the prover under test.
func (w *world) prove(p kit.Plan) *proof {
	r := w.r
	k := ring[p.W([]int{30, 20, 12, 1})]
	rq := pick(p)
	node := w.dom(w.nodes + p.N(2))
	pr := w.prover(k, node)
	var opts []sdk.Option
	x := &proof{id: len(w.net), own: true, kind: "proved", key: k, good: true, htm: rq.htm, canon: rq.canon}
	if p.Pct(45) {
		t := w.tokens[p.N(len(w.tokens))]
		x.ath = &t
		opts = append(opts, sdk.WithTokenValue(t))
	}
	var err error
	o := r.Do("dpop.prove", node, func() { x.val, err = pr.Prove(rq.htm, rq.url, opts...) })
	if r.CheckPanic(o, "C21") || o.Crashed {
		return nil
	}
	if err != nil {
		r.Logf("prove %s %s: refused", rq.htm, rq.canon)
		if x.val != "" {
			r.Fail("C25", "proof-with-error", "a prover whose key provider failed returned a proof: %v", err)
			r.Fail("C21", "proof-with-error", "Prove returned a proof and the error %v", err)
		}
		if o.Clean() {
			r.Fail("C13", "prove-refused", "making a proof for %s %s failed: %v", rq.htm, rq.url, err)
			r.Fail("C22", "prove-refused", "making a proof for %s %s failed: %v", rq.htm, rq.url, err)
		}
		return nil
	}
	if len(o.Faults) > 0 {
		r.Fail("C25", "proof-without-key", "a proof was made although the key provider failed (%v)", o.Faults)
		r.Fail("C21", "proof-without-key", "a proof was made although the key provider failed (%v)", o.Faults)
		return nil
	}
	d, derr := decode(x.val)
	if derr != nil {
		r.Fail("C13", "proof-malformed", "the prover made %q: %v", x.val, derr)
		return nil
	}
	bad := func(sig, f string, a ...any) {
		r.Fail("C13", "proof-content:"+sig, "proof for %s %s: "+f, append([]any{rq.htm, rq.url}, a...)...)
		r.Fail("C25", "proof-content:"+sig, "proof for %s %s: "+f, append([]any{rq.htm, rq.url}, a...)...)
	}
	r.Notes["proofs-inspected"]++
	if d.head["typ"] != "dpop+jwt" || d.head["alg"] != string(k.Alg) {
		bad("header", "header %v", d.head)
	}
	jb, _ := json.Marshal(d.head["jwk"])
	var hk jose.JSONWebKey
	if json.Unmarshal(jb, &hk) != nil || !hk.IsPublic() || !same(hk, k) {
		bad("key", "embeds %s instead of the public key of %s", jb, k.Name)
	}
	if strings.Contains(string(jb), `"d"`) {
		bad("private", "the private key is embedded")
	}
	if d.body["htm"] != rq.htm || d.body["htu"] != rq.canon {
		bad("request", "claims %v", d.body)
	}
	iat, ok := num(d.body["iat"])
	if !ok || iat*second > o.NMax || iat*second <= o.NMin-second {
		bad("iat", "issued at %v, clock was %d..%d", d.body["iat"], o.NMin/second, o.NMax/second)
	}
	x.iatMin, x.iatMax = iat, iat
	jti, _ := d.body["jti"].(string)
	if jti == "" {
		bad("jti-missing", "claims %v", d.body)
	} else if w.seenJTI[jti] {
		bad("jti-reused", "identifier %s was used before", jti)
		r.Fail("C12", "jti-reused", "two proofs carry the identifier %s", jti)
	}
	w.seenJTI[jti] = true
	switch {
	case x.ath == nil && d.body["ath"] != nil:
		bad("ath", "unexpected ath %v", d.body["ath"])
	case x.ath != nil && d.body["ath"] != hash(*x.ath):
		bad("ath", "ath %v for token %s", d.body["ath"], *x.ath)
	}
	w.send(x)
	return x
}

func same(hk jose.JSONWebKey, k *keys.Key) bool {
	a, e1 := hk.MarshalJSON()
	b, e2 := (&jose.JSONWebKey{Key: k.Pub.Key, KeyID: hk.KeyID, Algorithm: hk.Algorithm, Use: hk.Use}).MarshalJSON()
	return e1 == nil && e2 == nil && string(a) == string(b)
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func (w *world) send(x *proof) {
	x.alts = []string{x.val}
	// unused bits of the last character of the signature
	if n := len(x.val); n-strings.LastIndexByte(x.val, '.') == 87 {
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		i := strings.IndexByte(al, x.val[n-1])
		x.alts = append(x.alts, x.val[:n-1]+string(al[i^1]))
	}
	// (r, n-s) signs the same text
	if x.key.Alg == jose.ES256 {
		i := strings.LastIndexByte(x.val, '.')
		sig, err := base64.RawURLEncoding.DecodeString(x.val[i+1:])
		if err == nil && len(sig) == 64 {
			s := new(big.Int).SetBytes(sig[32:])
			s.Sub(elliptic.P256().Params().N, s)
			s.FillBytes(sig[32:])
			x.alts = append(x.alts, x.val[:i+1]+base64.RawURLEncoding.EncodeToString(sig))
		}
	}
	w.net = append(w.net, x)
	w.r.Logf("proof %d (%s) for %s %s key %s ath %v", x.id, x.kind, x.htm, x.canon, x.key.Name, x.ath != nil)
}

var _ = ecdsa.Sign

// verify presents a proof to a verifier.
func (w *world) verify(node int, val, htm, htu string, tok, cnf *string) (*kit.Op, string, error) {
	var opts []sdk.Option
	if tok != nil {
		opts = append(opts, sdk.WithTokenValue(*tok))
	}
	if cnf != nil {
		opts = append(opts, sdk.WithTokenConfirmation(*cnf))
	}
	var jkt string
	var err error
	o := w.r.Do("dpop.verify", node, func() { jkt, err = w.ver[node].Verify(ctx, htm, htu, val, opts...) })
	if o.Panic != nil {
		w.r.CheckPanic(o, "C13")
		w.r.CheckPanic(o, "C21")
		err = errStore
	}
	if o.Crashed {
		err = errStore
	}
	return o, jkt, err
}

// deliver hands a proof from the network to some verifier, for the request it
// was made for or for another one.
func (w *world) deliver(p kit.Plan, x *proof, right bool) {
	htm, canon := x.htm, x.canon
	tok := x.ath
	var cnf *string
	if tok != nil {
		cnf = &x.key.Thumb
	}
	if x.noIat {
		right = true
	}
	node := p.N(w.nodes)
	if !right {
		other := pick(p)
		other2 := w.tokens[p.N(len(w.tokens))]
		switch p.N(9) {
		case 0:
			htm = []string{other.htm, other.htm, strings.ToLower(htm), strings.ToUpper(htm)}[p.N(4)]
		case 1, 2:
			canon = other.canon
		case 3:
			htm, canon = other.htm, other.canon
		case 4:
			tok, cnf = &other2, nil
		case 5:
			tok, cnf = &other2, &x.key.Thumb
		case 6:
			c := ring[p.N(len(ring))].Thumb
			if tok == nil {
				tok = &other2
			}
			cnf = &c
		case 7:
			c := []string{"", "x", x.key.Thumb[1:], strings.ToUpper(x.key.Thumb)}[p.N(4)]
			if tok == nil {
				tok = &other2
			}
			cnf = &c
		case 8:
			// an altered copy
			val, how := keys.Damage(p, x.val)
			o, jkt, err := w.verify(node, val, htm, canon, tok, cnf)
			w.r.Logf("verify damaged proof %d (%s): %v", x.id, how, err == nil)
			w.r.Fault("altered-token")
			if o.Done && err == nil {
				w.r.Fail("C13", "damaged-accepted:"+how, "a proof altered in transit (%s) was accepted", how)
			}
			w.emptyOnError("damaged", jkt, err)
			if err != nil {
				w.r.Notes["altered-refused"]++
			}
			return
		}
		w.r.Fault("misdirected-proof")
	}
	if len(x.tries) > 0 {
		w.r.Fault("duplicated-proof")
	}
	val := x.val
	if len(x.tries) > 0 && p.Pct(25) {
		val = x.alts[p.N(len(x.alts))]
	}
	// known before the call: an attempt in progress may consume the proof
	var cur *kit.Op
	before := append([]*kit.Op(nil), x.tries...)
	var opts []sdk.Option
	if tok != nil {
		opts = append(opts, sdk.WithTokenValue(*tok))
	}
	if cnf != nil {
		opts = append(opts, sdk.WithTokenConfirmation(*cnf))
	}
	var jkt string
	var err error
	o := w.r.Do("dpop.verify", node, func() {
		cur = w.r.CurOp()
		x.tries = append(x.tries, cur)
		jkt, err = w.ver[node].Verify(ctx, htm, canon, val, opts...)
	})
	if o.Panic != nil {
		w.r.CheckPanic(o, "C13")
		w.r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	w.r.Logf("node %d verifies proof %d (%s) for %s %s: %v", node, x.id, x.kind, htm, canon, err == nil)
	first := len(before) == 0 && val == x.val
	for _, t := range x.tries {
		if t != o && (t.Inv < o.Ret) {
			first = false
		}
	}
	if !first || !right || !x.own {
		w.judge(x, o, jkt, err, htm, canon, tok, cnf, "")
		return
	}
	w.judge(x, o, jkt, err, htm, canon, tok, cnf, "C13")
}

func (w *world) emptyOnError(what, jkt string, err error) {
	if err != nil && jkt != "" {
		w.r.Fail("C21", "confirmation-with-error:"+what, "Verify returned the confirmation %q and the error %v", jkt, err)
		w.r.Fail("C13", "confirmation-with-error:"+what, "Verify returned the confirmation %q and the error %v", jkt, err)
	}
}

// judge decides one verification. must names the property that requires its
// success if nothing abnormal happened, "" if none does.
func (w *world) judge(x *proof, o *kit.Op, jkt string, err error, htm, canon string, tok, cnf *string, must string) {
	r := w.r
	w.emptyOnError("verify", jkt, err)
	if err != nil {
		if must == "" || !o.Clean() || x.noIat || x.maybe {
			return
		}
		lo, hi := o.NMin-14*second, o.NMax+14*second
		if o.NMax-14*second > lo {
			lo = o.NMax - 14*second
		}
		if o.NMin+14*second < hi {
			hi = o.NMin + 14*second
		}
		if x.iatMin*second < lo || x.iatMax*second > hi {
			return
		}
		r.Fail(must, "rightful-refused", "a fresh proof by %s for %s %s was refused for that request: %v", x.key.Name, htm, canon, err)
		if must != "C22" {
			r.Fail("C22", "rightful-refused", "a fresh proof by %s for %s %s was refused for that request: %v", x.key.Name, htm, canon, err)
		}
		return
	}
	if !o.Done || o.Crashed || o.Panic != nil {
		return
	}
	if must != "" {
		r.Notes["rightful-accepted"]++
	}
	// C12
	x.wins = append(x.wins, o)
	if len(x.wins) > 1 {
		r.Fail("C12", "accepted-twice", "proof %d (%s) was accepted %d times, at t=%ds and t=%ds", x.id, x.kind, len(x.wins), x.wins[0].T1/second, o.T1/second)
	}
	reg, nakE := false, false
	for _, e := range o.Effects {
		switch e {
		case "ack:proof.Register":
			reg = true
		case "ack:proof.Exists":
			nakE = false
		case "nak:proof.Exists":
			nakE = true
		}
	}
	if !reg {
		r.Fail("C12", "accepted-unregistered", "proof %d was accepted although the proof store did not acknowledge it (faults %v)", x.id, o.Faults)
	}
	if nakE {
		r.Fail("C12", "accepted-unread", "proof %d was accepted although the proof store could not be read (faults %v)", x.id, o.Faults)
	}
	// C13
	bad := func(sig, f string, a ...any) {
		r.Fail("C13", "accepted:"+sig, "proof %d (%s): "+f, append([]any{x.id, x.kind}, a...)...)
	}
	r.Notes["acceptances-judged"]++
	if !x.good {
		bad(x.kind, "must not be accepted by anybody")
	}
	if x.htm != htm {
		bad("method", "made for %s, accepted for %s", x.htm, htm)
	}
	if x.canon != canon {
		bad("url", "made for %s, accepted for %s", x.canon, canon)
	}
	if x.noIat || x.iatMax*second <= o.NMin-16*second {
		bad("expired", "issued at %d (present: %v), accepted at %d..%d", x.iatMax, !x.noIat, o.NMin/second, o.NMax/second)
	}
	if x.iatMin*second > o.NMax+15*second {
		bad("future", "issued at %d, accepted at %d..%d", x.iatMin, o.NMin/second, o.NMax/second)
	}
	if tok != nil {
		if x.ath == nil || *x.ath != *tok {
			bad("token", "accepted with a token it is not bound to")
		}
		if cnf != nil && *cnf != x.key.Thumb {
			bad("confirmation", "accepted with a token confirmed by %q, key is %q", *cnf, x.key.Thumb)
		}
	}
	if jkt != x.key.Thumb {
		bad("thumbprint", "confirmation %q, key thumbprint is %q", jkt, x.key.Thumb)
	}
}

// forge makes a proof the way an attacker would.
func (w *world) forge(p kit.Plan) *proof {
	k := ring[p.W([]int{20, 10, 10, 1})]
	other := ring[p.N(len(ring))]
	rq := pick(p)
	now := simrt.ClockOf(w.dom(w.nodes)) / second
	jti := fmt.Sprintf("forged-%d", len(w.net))
	if p.Pct(5) {
		rq.htm = strings.ToLower(rq.htm) // methods are case sensitive
	}
	x := &proof{id: len(w.net), key: k, good: true, htm: rq.htm, canon: rq.canon, iatMin: now, iatMax: now}
	hd := map[string]any{"typ": "dpop+jwt", "alg": string(k.Alg), "jwk": k.Pub}
	cl := map[string]any{"jti": jti, "htm": rq.htm, "htu": rq.canon, "iat": now}
	if p.Pct(30) {
		t := w.tokens[p.N(len(w.tokens))]
		x.ath = &t
		cl["ath"] = hash(t)
	}
	signer := k
	switch p.N(18) {
	case 0:
		x.kind = "by-hand"
	case 1:
		x.kind, x.good = "typ", false
		hd["typ"] = []string{"JWT", "at+jwt", "dpop", "jwt+dpop", "application/json"}[p.N(5)]
	case 2:
		x.kind, x.good = "typ-missing", false
		delete(hd, "typ")
	case 3:
		x.kind, x.good = "jwk-missing", false
		delete(hd, "jwk")
	case 4:
		x.kind = "other-key"
		if other == k {
			other = ring[0]
			if k == ring[0] {
				other = ring[1]
			}
		}
		x.good = false
		hd["jwk"] = other.Pub
		x.key = other
	case 5:
		x.kind, x.good = "alg", false
		x.key, signer = alien, alien
		hd["alg"], hd["jwk"] = string(alien.Alg), alien.Pub
	case 6:
		x.kind, x.good = "alg-none", false
		hd["alg"] = "none"
	case 7:
		x.kind, x.good = "alg-hmac", false
		hd["alg"] = "HS256"
	case 8:
		x.kind, x.good = "jti-empty", false
		cl["jti"] = ""
	case 9:
		x.kind, x.good = "jti-missing", false
		delete(cl, "jti")
	case 10, 11, 12:
		x.kind = "iat"
		d := []int64{-60, -20, -18, -17, -16, -15, -14, 13, 14, 15, 16, 17, 18, 20, 60, 86400, 4000000000}[p.N(17)]
		x.iatMin, x.iatMax = now+d, now+d
		cl["iat"] = now + d
	case 13:
		x.kind, x.noIat = "iat-missing", true
		if p.Pct(50) {
			delete(cl, "iat")
		} else {
			cl["iat"] = []any{-5, "soon", nil, 0, true}[p.N(5)]
		}
	case 14:
		x.kind, x.good = "htm-htu-missing", false
		delete(cl, "htm")
		delete(cl, "htu")
	case 15:
		x.kind = "private-key-embedded"
		x.good = false
		hd["jwk"] = k.Priv
	case 17:
		// the embedded key claims another algorithm than the one it is used with
		x.kind, x.maybe = "jwk-alg", true
		e := k.Pub
		e.Algorithm = []string{"ES256", "ES384", "ES512", "EdDSA", "HS256", "none"}[p.N(6)]
		if e.Algorithm == string(k.Alg) {
			e.Algorithm = "RS256"
		}
		hd["jwk"] = e
	case 16:
		x.kind, x.good = "jwk-bad", false
		hd["jwk"] = []any{map[string]any{}, map[string]any{"kty": "EC"}, "x", nil, map[string]any{"kty": "oct", "k": "AAAA"}}[p.N(5)]
	}
	x.val = keys.Forge(hd, cl, signer)
	w.r.Fault("forged-proof:" + x.kind)
	w.send(x)
	// the verifier of embedded keys alone
	var verr, cerr error
	var c map[string]any
	o := w.r.Do("embedded.verify", 0, func() { verr = w.kver.Verify(x.val) })
	w.r.CheckPanic(o, "C25")
	w.r.CheckPanic(o, "C21")
	o2 := w.r.Do("embedded.claims", 0, func() { cerr = w.kver.Claims(ctx, x.val, &c) })
	w.r.CheckPanic(o2, "C25")
	w.r.CheckPanic(o2, "C21")
	sigBad := map[string]bool{"jwk-missing": true, "other-key": true, "alg": true, "alg-none": true, "alg-hmac": true, "private-key-embedded": true, "jwk-bad": true}[x.kind]
	if sigBad && o2.Done && !o2.Crashed && cerr == nil {
		w.r.Fail("C25", "embedded-accepted:"+x.kind, "a token without a proper signature by its embedded key was accepted (%s)", x.kind)
	}
	if (x.kind == "jwk-alg" || x.kind == "jwk-missing" || x.kind == "alg" || x.kind == "alg-none" || x.kind == "alg-hmac") && o.Done && !o.Crashed && verr == nil {
		w.r.Fail("C25", "embedded-verified:"+x.kind, "Verify accepted a token (%s)", x.kind)
	}
	if x.kind == "by-hand" && o2.Clean() {
		w.r.Notes["claims-compared"]++
		if cerr != nil {
			w.r.Fail("C25", "embedded-refused", "a properly signed token was refused: %v", cerr)
		} else if c["jti"] != jti || c["htu"] != rq.canon {
			w.r.Fail("C25", "embedded-claims", "claims %v came back as %v", cl, c)
		}
	}
	return x
}

// badProve asks the prover for what it must refuse.
func (w *world) badProve(p kit.Plan) {
	r := w.r
	k := ring[p.N(3)]
	give := func() (*jose.JSONWebKey, error) { c := k.Priv; return &c, nil }
	htm, htu := "POST", "https://as.example.com/token"
	kind := p.N(9)
	alg := k.Alg
	var signer token.Serializer
	switch kind {
	case 0:
		give = func() (*jose.JSONWebKey, error) { return nil, nil }
	case 1:
		give = func() (*jose.JSONWebKey, error) { return nil, errStore }
	case 2:
		give = func() (*jose.JSONWebKey, error) { c := k.Priv; c.KeyID = ""; return &c, nil }
	case 3:
		give = func() (*jose.JSONWebKey, error) { c := k.Pub; return &c, nil }
	case 4:
		give = func() (*jose.JSONWebKey, error) { return &jose.JSONWebKey{KeyID: "x"}, nil }
	case 5:
		alg = jose.ES512
	case 6:
		htm = []string{"", "FETCH", "GET POST"}[p.N(3)]
	case 7:
		htu = []string{"", "as.example.com/token", "https//x", "::", "\x7f"}[p.N(5)]
	case 8:
		give = func() (*jose.JSONWebKey, error) { c := k.Priv; return &c, errStore }
	}
	signer = jwt.DPoPSigner(alg, func(context.Context) (*jose.JSONWebKey, error) { return give() })
	var v string
	var err error
	o := r.Do("dpop.prove", w.dom(w.nodes), func() { v, err = sdk.DefaultProver(signer).Prove(htm, htu) })
	r.Fault(fmt.Sprintf("bad-prove:%d", kind))
	if r.CheckPanic(o, "C21") || o.Crashed {
		r.CheckPanic(o, "C25")
		return
	}
	r.Notes["refusals-judged"]++
	if err == nil || v != "" {
		r.Fail("C21", fmt.Sprintf("bad-prove-accepted:%d", kind), "Prove returned %q, %v", v, err)
		if kind <= 5 || kind == 8 {
			r.Fail("C25", fmt.Sprintf("bad-prove-accepted:%d", kind), "Prove returned %q, %v", v, err)
		}
	}
}

// sameRequest sends one HTTP request whose URL the client and the server see
// in their own way.
func (w *world) sameRequest(p kit.Plan) {
	r := w.r
	k := ring[p.N(2)]
	path := []string{"/token", "/a%20b", "/a%2Fb/c", "/%C3%A9", "/a/b", "/x+y", "/~user", "/t;v=1", "/a%3Fb"}[p.N(9)]
	query := []string{"", "?a=1", "?a=%2F&b=c#"}[p.W([]int{3, 2, 0})]
	host := []string{"rs.example.com", "rs.example.com:8443", "[::1]:80"}[p.W([]int{3, 1, 1})]
	https := p.Pct(70)
	scheme := "http"
	if https {
		scheme = "https"
	}
	full := scheme + "://" + host + path + query
	u, err := url.ParseRequestURI(path + query) // as the server reads the request line
	if err != nil {
		return
	}
	req := &http.Request{Method: "GET", Host: host, URL: u, Header: http.Header{}}
	if https {
		if p.Pct(50) {
			req.TLS = &tls.ConnectionState{}
		} else {
			req.Header.Set("X-Forwarded-Scheme", "https")
		}
	}
	pr := w.prover(k, w.dom(w.nodes))
	var val string
	var perr error
	o := r.Do("dpop.prove", w.dom(w.nodes), func() { val, perr = pr.Prove("GET", full) })
	if r.CheckPanic(o, "C21") || o.Crashed || perr != nil {
		return
	}
	d, derr := decode(val)
	if derr != nil {
		return
	}
	iat, _ := num(d.body["iat"])
	x := &proof{id: len(w.net), own: true, kind: "request", key: k, good: true, htm: "GET", canon: scheme + "://" + host + path, iatMin: iat, iatMax: iat}
	w.send(x)
	node := p.N(w.nodes)
	var jkt string
	var verr error
	x.tries = append(x.tries, &kit.Op{})
	o2 := r.Do("dpop.verify", node, func() {
		x.tries = []*kit.Op{r.CurOp()}
		jkt, verr = w.ver[node].Verify(ctx, req.Method, sdk.CleanURL(req), val)
	})
	if o2.Panic != nil {
		r.CheckPanic(o2, "C13")
		r.CheckPanic(o2, "C21")
		return
	}
	if o2.Crashed {
		return
	}
	must := "C13"
	if len(x.tries) > 1 {
		must = ""
	}
	r.Probe("same-request")
	w.judge(x, o2, jkt, verr, "GET", x.canon, nil, nil, must)
}
