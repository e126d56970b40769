// Package jose simulates parties exchanging signed artefacts - authorization
// responses, request objects and tokens - while keys rotate, clocks drift,
// key providers fail and the network alters what it carries.
package jose

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	gojose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx context.Context = context.Background() // the context of the run's calls

const second = int64(1000000000)

var supported = []gojose.SignatureAlgorithm{gojose.ES256, gojose.ES384, gojose.EdDSA}

var (
	all  []*keys.Key
	p521 = keys.New(gojose.ES512, "jo-p521", "sig")
	p384 = keys.New(gojose.ES384, "jo-p384", "sig")
	p256 []*keys.Key
)

func init() {
	for i := 0; i < 8; i++ {
		all = append(all, keys.New(gojose.EdDSA, fmt.Sprintf("jo-%d", i), "sig"))
	}
	for i := 0; i < 2; i++ {
		k := keys.New(gojose.ES256, fmt.Sprintf("jo-p256-%d", i), "sig")
		p256 = append(p256, k)
		all = append(all, k)
	}
}

// entry is a key as published.
type entry struct {
	key *keys.Key
	kid string
	use string
}

func (e entry) pub() gojose.JSONWebKey {
	k := e.key.Pub
	k.KeyID, k.Use = e.kid, e.use
	return k
}

func (e entry) priv() *gojose.JSONWebKey {
	k := e.key.Priv
	k.KeyID, k.Use = e.kid, e.use
	return &k
}

type version struct {
	from, to int64
	ring     []entry
}

type party struct {
	id       string
	versions []*version
}

func (c *party) cur() *version { return c.versions[len(c.versions)-1] }

// could: a key set current at some point of the call verifies such a token;
// must: all of them do.
func (c *party) could(o *kit.Op, k *keys.Key, kid string) (could, must bool) {
	must = true
	for _, v := range c.versions {
		if v.from > o.Ret || (v.to != 0 && v.to < o.Inv) {
			continue
		}
		ok := false
		for _, e := range v.ring {
			if e.key == k && e.use != "enc" && (kid == "" || e.kid == kid) {
				ok = true
			}
		}
		could = could || ok
		must = must && ok
	}
	return
}

// art is an artefact on the network, with what the simulation knows of it.
type art struct {
	kind  string // jarm, request, token
	how   string
	by    *party
	key   *keys.Key
	kid   string
	raw   string
	alg   bool // signed with a supported algorithm
	bad   bool // no verifier may accept it
	maybe bool // no verifier must accept it
	typ   string

	exp                    int64
	noExp                  bool
	iss, aud, code, st, er string
	noCode                 bool

	req *flowv1.AuthorizationRequest
	cl  map[string]any
}

type world struct {
	r       *kit.Run
	nodes   int
	servers []*party // the last is an attacker
	clients []*party
	net     []*art
	n       int
	jdec    [][]jarm.ResponseDecoder // per node, per server
	rdec    [][]jwsreq.AuthorizationDecoder
	ver     [][]token.Verifier // per node, per party
	slots   []map[string]*slot // per node, the signers that live as long as it
	parties []*party
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (w *world) rotate(p kit.Plan, c *party, first bool) {
	var ring []entry
	n := 1 + p.N(3)
	base := p.N(len(all))
	for i := 0; i < n; i++ {
		k := all[(base+i*3)%len(all)]
		e := entry{key: k, kid: k.Name, use: "sig"}
		switch p.W([]int{8, 3, 2, 2}) {
		case 1:
			e.kid = "shared" // duplicate identifiers within and across parties
		case 2:
			e.use = ""
		case 3:
			if i > 0 || !first {
				e.use = "enc"
			}
		}
		ring = append(ring, e)
	}
	if p.Pct(30) && !first {
		// the previous keys stay published for a while
		ring = append(ring, c.cur().ring...)
		if len(ring) > 6 {
			ring = ring[:6]
		}
	}
	if p.Pct(4) {
		// a long list
		for n := 4 + p.N(24); n > 0; n-- {
			k := all[p.N(len(all))]
			ring = append(ring, entry{k, []string{k.Name, "shared"}[p.N(2)], "sig"})
		}
		w.r.Fault("load:many-keys")
	}
	if p.Pct(10) {
		ring = append(ring, entry{p521, p521.Name, "sig"})
	}
	if p.Pct(5) && !first {
		ring = nil
	}
	v := &version{ring: ring}
	seq := simrt.NextSeq()
	if !first {
		c.cur().to = seq
	}
	v.from = seq
	c.versions = append(c.versions, v)
	var l []string
	for _, e := range ring {
		l = append(l, e.key.Name+"/"+e.kid+"/"+e.use)
	}
	w.r.Logf("%s publishes %v", c.id, l)
}

// keySet is the key set provider of the verifiers of a party's artefacts.
func (w *world) keySet(c *party) jwk.KeySetProviderFunc {
	return func(context.Context) (*gojose.JSONWebKeySet, error) {
		var s *gojose.JSONWebKeySet
		err := w.r.SeamCall("keyset", false, func() error {
			s = &gojose.JSONWebKeySet{}
			for _, e := range c.cur().ring {
				s.Keys = append(s.Keys, e.pub())
			}
			return nil
		})
		if err == kit.ErrNil {
			return nil, nil
		}
		if err != nil {
			return nil, err
		}
		return s, nil
	}
}

func (w *world) newNode(i int) {
	var ver []token.Verifier
	var jdec []jarm.ResponseDecoder
	var rdec []jwsreq.AuthorizationDecoder
	for _, c := range w.parties {
		ver = append(ver, jwt.DefaultVerifier(w.keySet(c), supported))
	}
	for k, s := range w.servers {
		jdec = append(jdec, jarm.Decoder(s.id, ver[k]))
	}
	for k := range w.clients {
		rdec = append(rdec, jwsreq.AuthorizationRequestDecoder(ver[len(w.servers)+k]))
	}
	w.jdec[i], w.rdec[i], w.ver[i], w.slots[i] = jdec, rdec, ver, map[string]*slot{}
}

// Main is the body of one run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	ctx = r.Ctx(context.Background())
	r.Calendar()
	w := &world{r: r}
	p := kit.Plan{S: simrt.StMisc}
	w.nodes = r.Cfg.Nodes
	for _, id := range []string{"https://as1.example.com", "https://as2.example.com", "https://as1.example.com/evil"} {
		w.servers = append(w.servers, &party{id: id})
	}
	for _, id := range []string{"client-a", "client-b"} {
		w.clients = append(w.clients, &party{id: id})
	}
	w.parties = append(append(w.parties, w.servers...), w.clients...)
	for _, c := range w.parties {
		w.rotate(p, c, true)
	}
	w.jdec = make([][]jarm.ResponseDecoder, w.nodes)
	w.rdec = make([][]jwsreq.AuthorizationDecoder, w.nodes)
	w.ver = make([][]token.Verifier, w.nodes)
	w.slots = make([]map[string]*slot, w.nodes)
	for i := 0; i < w.nodes; i++ {
		w.newNode(i)
	}
	if r.Cfg.Skew {
		for i := 0; i < w.nodes; i++ {
			d := []int64{0, 3, -3, 45, -45, 3600}[simrt.Choose(simrt.StCfg, 6)]
			simrt.SetSkew(i, d*second)
			if d != 0 {
				r.Fault("clock-skew")
			}
		}
	}
	r.FaultsOn = r.Cfg.Profile != "none"
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+3 && !r.Broken(); k++ {
				w.step(p)
			}
		}))
	}
	if r.Cfg.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 30); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Fault("node-crash")
				i := simrt.Choose(simrt.StFault, w.nodes)
				simrt.CrashNode(i)
				w.newNode(i)
			}
		}))
	}
	if r.Cfg.Jump {
		ts = append(ts, simrt.Spawn("clock", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 20); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Jump(simrt.Choose(simrt.StFault, w.nodes), []int64{2, -2, 31, -31, 3600, -3600}[simrt.Choose(simrt.StFault, 6)]*second)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	// progress once faults stop
	r.FaultsOn = false
	for i := 0; i < w.nodes && !r.Broken(); i++ {
		simrt.SetSkew(i, 0)
		for _, c := range []*party{w.servers[0], w.clients[0]} {
			seq := simrt.NextSeq()
			c.cur().to = seq
			c.versions = append(c.versions, &version{from: seq, ring: []entry{{all[0], "k", "sig"}}})
		}
		e := w.servers[0].cur().ring[0]
		if a := w.makeJARM(p, i, 0, &e); a != nil {
			w.decodeJARM(p, i, 0, w.clients[0].id, a)
		}
		e = w.clients[0].cur().ring[0]
		if a := w.makeRequest(p, i, 0, &e); a != nil {
			w.decodeRequest(p, i, 0, a)
		}
	}
}

func (w *world) step(p kit.Plan) {
	jw, rw, tw := 6, 6, 6
	switch w.r.Prop {
	case "C16":
		jw, rw, tw = 14, 2, 2
	case "C17":
		jw, rw, tw = 2, 14, 2
	case "C25":
		jw, rw, tw = 2, 2, 14
	}
	node := p.N(w.nodes)
	switch p.W([]int{jw, rw, tw, 3, 3, 2, 2}) {
	case 0:
		w.jarmStep(p, node)
	case 1:
		w.requestStep(p, node)
	case 2:
		w.tokenStep(p, node)
	case 3:
		w.r.Fault("key-rotation")
		w.rotate(p, w.parties[p.N(len(w.parties))], false)
	case 4:
		d := []int64{1, 5, 29, 30, 31, 59, 60, 3600}[p.N(8)]
		w.r.Logf("sleep %ds", d)
		simrt.Sleep(d * second)
	case 5:
		w.generatorStep(p, node)
	case 6:
		w.cwtStep(p, node)
	}
}

// signKey picks the key a party signs with, and how that came to be.
func (w *world) signKey(p kit.Plan, c *party) (entry, string) {
	pick := func(v *version) (entry, bool) {
		if len(v.ring) == 0 {
			return entry{}, false
		}
		return v.ring[p.N(len(v.ring))], true
	}
	switch p.W([]int{12, 3, 2, 1, 1}) {
	case 1:
		if e, ok := pick(c.versions[p.N(len(c.versions))]); ok {
			return e, "past"
		}
	case 2:
		if e, ok := pick(w.parties[p.N(len(w.parties))].cur()); ok {
			return e, "foreign"
		}
	case 3:
		// another key under an identifier of the party
		if e, ok := pick(c.cur()); ok {
			return entry{all[p.N(len(all))], e.kid, "sig"}, "impostor"
		}
	case 4:
		return entry{p521, p521.Name, "sig"}, "unsupported"
	}
	if e, ok := pick(c.cur()); ok {
		return e, "current"
	}
	return entry{all[0], all[0].Name, "sig"}, "any"
}

// sick is a key provider that does not provide a usable key.
func (w *world) sick(p kit.Plan, e entry) (jwk.KeyProviderFunc, string) {
	ret := func(k *gojose.JSONWebKey, err error) jwk.KeyProviderFunc {
		return func(context.Context) (*gojose.JSONWebKey, error) { return k, err }
	}
	switch p.N(8) {
	case 0:
		return nil, "nil-provider"
	case 1:
		return ret(nil, nil), "nil-key"
	case 2:
		return ret(nil, fmt.Errorf("no key")), "error"
	case 3:
		k := e.priv()
		k.KeyID = ""
		return ret(k, nil), "no-kid"
	case 4:
		k := e.pub()
		k.KeyID = "kid"
		return ret(&k, nil), "public-key"
	case 5:
		return ret(e.priv(), fmt.Errorf("stale key")), "key-and-error"
	case 6:
		return ret(&gojose.JSONWebKey{Key: []byte("0123456789abcdef0123456789abcdef"), KeyID: "hmac"}, nil), "symmetric-key"
	default:
		return ret(&gojose.JSONWebKey{KeyID: "empty"}, nil), "empty-key"
	}
}

func (w *world) provider(e entry) jwk.KeyProviderFunc {
	return func(context.Context) (*gojose.JSONWebKey, error) {
		if _, err := w.r.GenCall("key", false, func() (string, error) { return "", nil }); err != nil {
			return nil, err
		}
		return e.priv(), nil
	}
}

// slot is the signing side of a party at a node. Its signers are made once;
// the key they are given changes whenever none of them is at work.
type slot struct {
	cur  entry
	how  string
	busy int
	ser  map[string]token.Serializer
	jenc jarm.ResponseEncoder
	renc jwsreq.AuthorizationEncoder
}

// hold gives the signers a party has at a node for the algorithm of a key, and
// the key they sign with until they are released.
func (w *world) hold(node, pi int, e entry, how string) (*slot, entry, string) {
	id := fmt.Sprintf("%d %s", pi, e.key.Alg)
	s := w.slots[node][id]
	if s == nil {
		s = &slot{ser: map[string]token.Serializer{}}
		prov := func(ctx context.Context) (*gojose.JSONWebKey, error) { return w.provider(s.cur)(ctx) }
		for _, b := range builders {
			s.ser[b.typ] = b.mk(e.key.Alg, prov)
		}
		s.jenc = jarm.Encoder(s.ser["jarm+jwt"])
		s.renc = jwsreq.AuthorizationRequestEncoder(s.ser["oauth-authz-req+jwt"])
		w.slots[node][id] = s
	}
	if s.busy == 0 {
		s.cur, s.how = e, how
	}
	s.busy++
	return s, s.cur, s.how
}

func (s *slot) release() { s.busy-- }

func algOf(e entry) gojose.SignatureAlgorithm { return e.key.Alg }

func isSupported(a gojose.SignatureAlgorithm) bool {
	for _, x := range supported {
		if x == a {
			return true
		}
	}
	return false
}

// header decodes the protected header of a compact token.
func header(tok string) map[string]any {
	i := strings.IndexByte(tok, '.')
	if i < 0 {
		return nil
	}
	b, err := base64.RawURLEncoding.DecodeString(tok[:i])
	var m map[string]any
	if err != nil || json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func payload(tok string) map[string]any {
	x := strings.Split(tok, ".")
	if len(x) != 3 {
		return nil
	}
	b, err := base64.RawURLEncoding.DecodeString(x[1])
	var m map[string]any
	if err != nil || json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

// headerOK checks what a signer put around the claims.
func (w *world) headerOK(prop, tok, typ string, e entry) {
	h := header(tok)
	if h == nil {
		w.r.Fail(prop, "header", "a serialized token has no readable header: %q", tok)
		return
	}
	if h["typ"] != typ {
		w.r.Fail(prop, "type-header", "type header is %v, not %s", h["typ"], typ)
	}
	if h["kid"] != e.kid {
		w.r.Fail(prop, "kid-header", "key identifier %v, not %s", h["kid"], e.kid)
	}
	if h["alg"] != string(e.key.Alg) {
		w.r.Fail(prop, "alg-header", "algorithm %v, not %s", h["alg"], e.key.Alg)
	}
	if x, err := gojose.ParseSigned(tok, []gojose.SignatureAlgorithm{e.key.Alg}); err == nil {
		if _, err := x.Verify(e.key.Pub.Key); err != nil {
			w.r.Fail(prop, "signed-by-other-key", "the token says it is signed by %s, the signature says otherwise", e.kid)
		}
	}
	if j, ok := h["jwk"].(map[string]any); ok && j["d"] != nil {
		w.r.Fail(prop, "private-key-embedded", "the signer embedded its private key")
	}
}

// refused judges a call that must not produce anything.
func (w *world) refused(prop, what string, o *kit.Op, out string, err error) {
	if w.r.CheckPanic(o, prop) || o.Crashed {
		w.r.CheckPanic(o, "C21")
		return
	}
	if err == nil || out != "" {
		w.r.Fail(prop, "produced:"+what, "%s: output %q, error %v", what, out, err)
		w.r.Fail("C21", "produced:"+what, "%s: output %q, error %v", what, out, err)
	}
}

// made judges a call that produces a token; reports whether it did.
func (w *world) made(prop, what string, o *kit.Op, out string, err error) bool {
	if w.r.CheckPanic(o, prop) || o.Crashed {
		w.r.CheckPanic(o, "C21")
		return false
	}
	if err != nil {
		if out != "" {
			w.r.Fail(prop, "token-with-error:"+what, "%s failed (%v) but returned %q", what, err, out)
			w.r.Fail("C21", "token-with-error:"+what, "%s failed (%v) but returned %q", what, err, out)
		}
		if len(o.Faults) == 0 && !o.Jumped && !o.Cancelled {
			w.r.Fail(prop, "not-produced:"+what, "%s failed without cause: %v", what, err)
			w.r.Fail("C22", "not-produced:"+what, "%s failed without cause: %v", what, err)
		}
		return false
	}
	if out == "" {
		w.r.Fail(prop, "empty:"+what, "%s succeeded with an empty value (faults %v)", what, o.Faults)
		return false
	}
	for _, f := range o.Faults {
		if strings.HasPrefix(f, "gen:key") {
			w.r.Fail(prop, "signed-without-key:"+what, "%s succeeded although the key provider failed", what)
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// authorization responses

func (w *world) jarmStep(p kit.Plan, node int) {
	s := p.N(len(w.servers))
	switch p.W([]int{6, 8, 4, 1}) {
	case 0:
		w.makeJARM(p, node, s, nil)
	case 1:
		var l []*art
		for _, a := range w.net {
			if a.kind == "jarm" {
				l = append(l, a)
			}
		}
		if len(l) == 0 {
			a := w.makeJARM(p, node, s, nil)
			if a == nil {
				return
			}
			l = append(l, a)
		}
		a := l[len(l)-1]
		if p.Pct(50) {
			a = l[p.N(len(l))]
		}
		dec, aud := 0, w.clients[0].id
		for i, x := range w.servers {
			if x == a.by {
				dec = i
			}
		}
		if a.aud != "" {
			aud = a.aud
		}
		if p.Pct(25) {
			dec = p.N(len(w.servers)) // mix-up
		}
		if p.Pct(20) {
			aud = []string{"client-a", "client-b", "client-", "CLIENT-A", "client-a "}[p.N(5)]
		}
		if p.Pct(20) {
			c := *a
			var h string
			c.raw, h = keys.Damage(p, a.raw)
			c.bad, c.how = true, "altered:"+h
			w.r.Fault("network-alteration")
			a = &c
		}
		w.decodeJARM(p, node, dec, aud, a)
	case 2:
		w.forgedJARM(p, node)
	case 3:
		w.badEncode(p, node, s)
	}
}

func (w *world) response(p kit.Plan, s int) *flowv1.AuthorizeResponse {
	w.n++
	st := fmt.Sprintf("state-%d", w.n)
	if p.Pct(40) {
		st += p.Text()
	}
	code := fmt.Sprintf("code-%d", w.n)
	if p.Pct(40) {
		code += p.Text()
	}
	return &flowv1.AuthorizeResponse{
		Issuer: w.servers[s].id, ClientId: w.clients[p.N(2)].id, Code: code, State: st,
		ExpiresIn: []uint64{60, 1, 30, 600, 3600}[p.N(5)], RedirectUri: "https://client.example.org/cb",
	}
}

// makeJARM encodes a response of server s.
func (w *world) makeJARM(p kit.Plan, node, s int, with *entry) *art {
	r := w.r
	res := w.response(p, s)
	e, how := w.signKey(p, w.servers[s])
	if with != nil {
		e, how = *with, "current"
		res.ClientId = w.clients[0].id
		res.ExpiresIn = 60
	} else if p.Pct(20) {
		res = &flowv1.AuthorizeResponse{State: res.State, Error: &corev1.Error{Err: []string{"access_denied", "server_error", "login_required"}[p.N(3)], ErrorDescription: p.Text()}}
		if p.Pct(50) {
			res.Issuer, res.ClientId, res.Code, res.ExpiresIn = w.servers[s].id, "client-a", "leaked", 60
		}
	}
	sl, e, how := w.hold(node, s, e, how)
	before := proto.Clone(res)
	var raw string
	var err error
	o := r.Do("jarm.encode", node, func() { raw, err = sl.jenc.Encode(ctx, w.servers[s].id, res) })
	sl.release()
	r.Logf("%s encodes %s for %s with %s (%s): %v", w.servers[s].id, short(res.Code+res.GetError().GetErr()), res.ClientId, e.key.Name, how, err == nil)
	if !w.made("C16", "jarm", o, raw, err) {
		return nil
	}
	if !proto.Equal(before, res) {
		r.Fail("C16", "encoder-changes-response", "the encoder changed the response it was given")
	}
	a := &art{kind: "jarm", how: how, by: w.servers[s], key: e.key, kid: e.kid, raw: raw, alg: isSupported(e.key.Alg), typ: "jarm+jwt",
		iss: res.Issuer, aud: res.ClientId, code: res.Code, st: res.State, er: res.GetError().GetErr()}
	w.headerOK("C16", raw, "jarm+jwt", e)
	w.headerOK("C25", raw, "jarm+jwt", e)
	if a.er == "" {
		cl := payload(raw)
		x, _ := cl["exp"].(float64)
		a.exp = int64(x)
		if a.exp < o.NMin/second+int64(res.ExpiresIn) || a.exp > o.NMax/second+int64(res.ExpiresIn) {
			r.Fail("C16", "expiry", "a response valid for %d s encoded at %d..%d expires at %d", res.ExpiresIn, o.NMin/second, o.NMax/second, a.exp)
		}
	} else {
		a.code = ""
	}
	w.net = append(w.net, a)
	return a
}

func short(s string) string {
	if len(s) > 24 {
		return s[:24]
	}
	return s
}

// badEncode asks for responses that must not be encoded.
func (w *world) badEncode(p kit.Plan, node, s int) {
	res := w.response(p, s)
	iss := res.Issuer
	e, _ := w.signKey(p, w.servers[s])
	prov, alg := w.provider(e), e.key.Alg
	what := ""
	switch p.N(7) {
	case 0:
		iss, what = "", "no-issuer"
	case 1:
		res, what = nil, "nil-response"
	case 2:
		res.ClientId, what = "", "no-client"
	case 3:
		res.Code, what = "", "no-code"
	case 4:
		res.State, what = "", "no-state"
	case 5:
		res.ExpiresIn, what = 0, "no-expiry"
	default:
		prov, what = w.sick(p, e)
	}
	enc := jarm.Encoder(jwt.JARMSigner(alg, prov))
	var raw string
	var err error
	o := w.r.Do("jarm.encode", node, func() { raw, err = enc.Encode(ctx, iss, res) })
	w.r.Logf("encode without %s: %v", what, err == nil)
	w.refused("C16", "jarm:"+what, o, raw, err)
}

// forgedJARM makes a response by hand: by a key of the server with odd
// claims, or by somebody else.
func (w *world) forgedJARM(p kit.Plan, node int) {
	r := w.r
	s := p.N(2)
	srv := w.servers[s]
	e, how := w.signKey(p, srv)
	now := simrt.ClockOf(node) / second
	res := w.response(p, s)
	a := &art{kind: "jarm", how: how, by: srv, key: e.key, kid: e.kid, alg: isSupported(e.key.Alg), typ: "jarm+jwt",
		iss: res.Issuer, aud: res.ClientId, code: res.Code, st: res.State, exp: now + int64(res.ExpiresIn)}
	hd := map[string]any{"alg": string(e.key.Alg), "typ": a.typ, "kid": e.kid}
	cl := map[string]any{"iss": a.iss, "aud": a.aud, "exp": a.exp, "code": a.code, "state": a.st}
	if p.Pct(25) {
		delete(hd, "kid")
		a.kid = ""
	}
	if p.Pct(20) {
		cl["iat"], cl["extra"] = now, map[string]any{"x": []int{1}}
	}
	variant := p.W([]int{4, 3, 3, 3, 3, 2, 3, 2, 2, 3, 2})
	switch variant {
	case 1:
		a.how = "typ"
		a.bad = true
		t := []any{nil, "", "jwt", "JWT", "at+jwt", "oauth-authz-req+jwt", "rt+jwt", "jarm", "jarm+jws", 7, []string{"jarm+jwt"}, "dpop+jwt", "token-introspection+jwt"}[p.N(13)]
		if t == nil {
			delete(hd, "typ")
		} else {
			hd["typ"] = t
		}
	case 2:
		a.how, a.iss = "other-issuer", w.servers[(s+1+p.N(2))%3].id
		if p.Pct(30) {
			a.iss = []string{"", srv.id + "/", strings.ToUpper(srv.id), "as1.example.com"}[p.N(4)]
		}
		cl["iss"] = a.iss
	case 3:
		a.how = "other-audience"
		a.aud = []string{"", "client-c", "client-", "client-a,client-b", "CLIENT-B"}[p.N(5)]
		cl["aud"] = a.aud
	case 4:
		f := []string{"iss", "aud", "exp"}[p.N(3)]
		a.how, a.bad = "missing-"+f, true
		if p.Pct(50) {
			delete(cl, f)
		} else if f == "exp" {
			cl[f] = []any{0, nil}[p.N(2)]
		} else {
			cl[f] = nil
		}
	case 5:
		f := []string{"iss", "aud", "exp", "code"}[p.N(4)]
		a.how, a.bad = "types-"+f, true
		cl[f] = []any{[]string{a.aud, a.iss}, map[string]any{"a": 1}, true, 1.5}[p.N(4)]
	case 6:
		a.how, a.exp = "expired", now+[]int64{-3600, -61, -2, -1, 0, 1}[p.N(6)]
		cl["exp"] = a.exp
	case 7:
		a.how, a.bad = "alg-none", true
		hd["alg"] = []string{"none", "None", ""}[p.N(3)]
	case 8:
		a.how, a.bad = "alg-hmac", true
		hd["alg"] = "HS256"
	case 9:
		x := all[p.N(len(all))]
		a.how, a.key, a.kid = "embedded-key", x, x.Name
		hd["alg"], hd["jwk"], hd["kid"] = string(x.Alg), x.Pub, x.Name
		a.alg = true
		e.key = x
	case 10:
		a.how, a.er = "code-and-error", "access_denied"
		cl["error"] = a.er
		a.maybe = true
	}
	a.raw = keys.Forge(hd, cl, e.key)
	if p.Pct(10) && !a.bad {
		// the same signature in JSON form
		x := strings.Split(a.raw, ".")
		a.raw = fmt.Sprintf(`{"payload":%q,"protected":%q,"signature":%q}`, x[1], x[0], x[2])
		a.maybe = true
		a.how += "-json"
	}
	if variant != 0 {
		r.Fault("hostile-response:" + a.how)
	}
	aud := []string{"client-a", "client-b"}[p.N(2)]
	if p.Pct(60) {
		if aud = a.aud; aud != "" {
			aud = res.ClientId
		}
	}
	w.decodeJARM(p, node, s, aud, a)
}

// decodeJARM gives an artefact to the decoder of server s, as client aud.
func (w *world) decodeJARM(p kit.Plan, node, s int, aud string, a *art) {
	r := w.r
	dec := w.jdec[node][s]
	srv := w.servers[s]
	var res *flowv1.AuthorizeResponse
	var err error
	o := r.Do("jarm.decode", node, func() { res, err = dec.Decode(ctx, aud, a.raw) })
	r.Logf("node %d decodes a %s response (%s) of %s as %s for %s: %v", node, a.kind, a.how, a.by.id, aud, srv.id, err == nil)
	if r.CheckPanic(o, "C16") {
		r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	could, must := srv.could(o, a.key, a.kid)
	why := ""
	switch {
	case a.bad:
		why = a.how
	case a.typ != "jarm+jwt":
		why = "type " + a.typ
	case !a.alg:
		why = "algorithm"
	case !could:
		why = "not a key of the issuer"
	case a.iss != srv.id && a.er == "":
		why = "issuer"
	case (a.aud != aud || aud == "") && a.er == "":
		why = "audience"
	case a.exp < o.NMin/second && a.er == "":
		why = "expired"
	}
	if err != nil || res == nil {
		r.Notes["jarm-refused"]++
		if err == nil {
			r.Fail("C16", "nothing", "decoding returned neither a response nor an error")
			r.Fail("C21", "nothing:jarm", "decoding returned neither a response nor an error")
		}
		if res.GetCode() != "" {
			r.Fail("C16", "code-with-error", "decoding failed (%v) but returned the code", err)
			r.Fail("C21", "code-with-error:jarm", "decoding failed (%v) but returned the code", err)
		}
		if why == "" && !a.maybe && must && o.Clean() && a.er == "" && a.exp*second > o.NMax && a.iss == srv.id && a.aud == aud {
			r.Fail("C16", "rightful-refused", "a response encoded by %s (%s, key %s) for %s was refused in time: %v", srv.id, a.how, a.key.Name, aud, err)
			r.Fail("C22", "rightful-refused:jarm", "a response encoded by %s for %s was refused in time: %v", srv.id, aud, err)
		}
		return
	}
	if res.Error != nil {
		r.Notes["jarm-errors"]++
		if res.Code != "" {
			r.Fail("C16", "code-in-error", "an error response carries the code %q", res.Code)
		}
		if why == "" && a.er != "" && res.Error.Err != a.er {
			r.Fail("C16", "other-error", "error %q decoded as %q", a.er, res.Error.Err)
		}
		if why == "" && a.er == "" {
			r.Fail("C16", "invented-error", "a response with a code was decoded as the error %q", res.Error.Err)
		}
		return
	}
	r.Notes["jarm-accepted"]++
	for _, f := range o.Faults {
		if strings.HasSuffix(f, ":keyset") {
			r.Fail("C16", "accepted-without-keys", "a response was accepted although the key set could not be read (%v)", o.Faults)
			r.Fail("C21", "accepted-without-keys:jarm", "a response was accepted although the key set could not be read (%v)", o.Faults)
		}
	}
	if why != "" {
		r.Fail("C16", "accepted:"+strings.SplitN(why, ":", 2)[0], "a response (%s, signed by %s under %q) was accepted by %s for %s: %s", a.how, a.key.Name, a.kid, srv.id, aud, why)
		return
	}
	if a.er != "" {
		r.Fail("C16", "error-as-code", "an error response (%s) was decoded as a success with code %q", a.er, res.Code)
		return
	}
	if res.Code != a.code || res.State != a.st || res.Issuer != a.iss {
		r.Fail("C16", "content", "decoded code %q state %q issuer %q, encoded %q %q %q", res.Code, res.State, res.Issuer, a.code, a.st, a.iss)
	}
}

// ---------------------------------------------------------------------------
// request objects

func (w *world) requestStep(p kit.Plan, node int) {
	c := p.N(len(w.clients))
	switch p.W([]int{6, 8, 4, 1}) {
	case 0:
		w.makeRequest(p, node, c, nil)
	case 1:
		var l []*art
		for _, a := range w.net {
			if a.kind == "request" {
				l = append(l, a)
			}
		}
		if len(l) == 0 {
			a := w.makeRequest(p, node, c, nil)
			if a == nil {
				return
			}
			l = append(l, a)
		}
		a := l[len(l)-1]
		if p.Pct(50) {
			a = l[p.N(len(l))]
		}
		dec := 0
		for i, x := range w.clients {
			if x == a.by {
				dec = i
			}
		}
		if p.Pct(20) {
			dec = p.N(len(w.clients))
		}
		if p.Pct(25) {
			b := *a
			var h string
			b.raw, h = keys.Damage(p, a.raw)
			b.bad, b.how = true, "altered:"+h
			w.r.Fault("network-alteration")
			a = &b
		}
		w.decodeRequest(p, node, dec, a)
	case 2:
		w.forgedRequest(p, node)
	case 3:
		e, _ := w.signKey(p, w.clients[c])
		var prov jwk.KeyProviderFunc
		req := &flowv1.AuthorizationRequest{Scope: "openid", State: "s"}
		what := ""
		if p.Pct(20) {
			req, prov, what = nil, w.provider(e), "nil-request"
		} else if p.Pct(20) {
			req.State, prov, what = p.BadText(), w.provider(e), "bad-text"
		} else {
			prov, what = w.sick(p, e)
		}
		enc := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(e.key.Alg, prov))
		var raw string
		var err error
		o := w.r.Do("request.encode", node, func() { raw, err = enc.Encode(ctx, req) })
		w.r.Logf("encode request with %s: %v", what, err == nil)
		w.refused("C17", "request:"+what, o, raw, err)
	}
}

func (w *world) makeRequest(p kit.Plan, node, c int, with *entry) *art {
	r := w.r
	req := &flowv1.AuthorizationRequest{}
	kit.Fill(p, req, []int{60, 20, 90, 0}[p.W([]int{6, 3, 2, 1})], false)
	e, how := w.signKey(p, w.clients[c])
	if with != nil {
		e, how = *with, "current"
	}
	sl, e, how := w.hold(node, len(w.servers)+c, e, how)
	before := proto.Clone(req).(*flowv1.AuthorizationRequest)
	var raw string
	var err error
	o := r.Do("request.encode", node, func() { raw, err = sl.renc.Encode(ctx, req) })
	sl.release()
	r.Logf("%s encodes a request with %s (%s): %v", w.clients[c].id, e.key.Name, how, err == nil)
	if !w.made("C17", "request", o, raw, err) {
		return nil
	}
	if !proto.Equal(before, req) {
		r.Fail("C17", "encoder-changes-request", "the encoder changed the request it was given")
	}
	w.headerOK("C17", raw, "oauth-authz-req+jwt", e)
	w.headerOK("C25", raw, "oauth-authz-req+jwt", e)
	a := &art{kind: "request", how: how, by: w.clients[c], key: e.key, kid: e.kid, raw: raw, alg: isSupported(e.key.Alg), req: before}
	w.net = append(w.net, a)
	return a
}

func (w *world) forgedRequest(p kit.Plan, node int) {
	c := p.N(len(w.clients))
	e, how := w.signKey(p, w.clients[c])
	req := &flowv1.AuthorizationRequest{}
	kit.Fill(p, req, 50, false)
	js, err := protojson.MarshalOptions{UseProtoNames: p.Pct(70), EmitUnpopulated: false}.Marshal(req)
	if err != nil {
		panic(err)
	}
	var cl map[string]any
	if json.Unmarshal(js, &cl) != nil {
		panic("json")
	}
	a := &art{kind: "request", how: how, by: w.clients[c], key: e.key, kid: e.kid, alg: isSupported(e.key.Alg), req: req}
	hd := map[string]any{"alg": string(e.key.Alg), "typ": "oauth-authz-req+jwt", "kid": e.kid}
	if p.Pct(25) {
		delete(hd, "kid")
		a.kid = ""
	}
	var claims any = cl
	switch p.W([]int{4, 2, 2, 3, 2, 2, 2}) {
	case 1:
		a.how, a.bad = "alg-none", true
		hd["alg"] = []string{"none", "None", ""}[p.N(3)]
	case 2:
		a.how, a.bad = "alg-hmac", true
		hd["alg"] = "HS256"
	case 3:
		x := all[p.N(len(all))]
		a.how, a.key, a.kid, a.alg = "embedded-key", x, x.Name, true
		hd["alg"], hd["jwk"], hd["kid"] = string(x.Alg), x.Pub, x.Name
		e.key = x
	case 4:
		// claims beyond the request
		a.how, a.maybe = "extra-claims", true
		cl["iss"], cl["exp"] = a.by.id, 4102444800
		a.req = nil
	case 5:
		a.how, a.bad = "not-a-request", true
		claims = []any{"[]", "7", `"x"`, "", "{", `{"scope":7}`, `{"scope":["a"]}`, `{"max_age":-1}`, `{"max_age":"x"}`}[p.N(9)]
		a.req = nil
	case 6:
		// another kind of object signed by the client
		a.how, a.maybe, a.req = "other-type", true, nil
		hd["typ"] = []string{"client-assertion+jwt", "dpop+jwt", "JWT"}[p.N(3)]
		claims = map[string]any{"iss": a.by.id, "sub": a.by.id, "jti": "1"}
	}
	a.raw = keys.Forge(hd, claims, e.key)
	w.r.Fault("hostile-request:" + a.how)
	w.decodeRequest(p, node, c, a)
}

func (w *world) decodeRequest(p kit.Plan, node, c int, a *art) {
	r := w.r
	cl := w.clients[c]
	var req *flowv1.AuthorizationRequest
	var err error
	dec := w.rdec[node][c]
	o := r.Do("request.decode", node, func() { req, err = dec.Decode(ctx, a.raw) })
	r.Logf("node %d decodes a request (%s) of %s for %s: %v", node, a.how, a.by.id, cl.id, err == nil)
	if r.CheckPanic(o, "C17") {
		r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	could, must := cl.could(o, a.key, a.kid)
	why := ""
	switch {
	case a.bad:
		why = a.how
	case !a.alg:
		why = "algorithm"
	case !could:
		why = "not a key of the client"
	}
	if err != nil || req == nil {
		r.Notes["requests-refused"]++
		if err == nil {
			r.Fail("C17", "nothing", "decoding returned neither a request nor an error")
			r.Fail("C21", "nothing:request", "decoding returned neither a request nor an error")
		}
		if req != nil {
			r.Fail("C17", "request-with-error", "decoding failed (%v) but returned a request", err)
			r.Fail("C21", "request-with-error", "decoding failed (%v) but returned a request", err)
		}
		if why == "" && !a.maybe && must && o.Clean() {
			r.Fail("C17", "rightful-refused", "a request of %s (%s, key %s, kid %q) was refused: %v", cl.id, a.how, a.key.Name, a.kid, err)
			r.Fail("C22", "rightful-refused:request", "a request of %s was refused: %v", cl.id, err)
		}
		return
	}
	r.Notes["requests-accepted"]++
	for _, f := range o.Faults {
		if strings.HasSuffix(f, ":keyset") {
			r.Fail("C17", "accepted-without-keys", "a request was accepted although the key set could not be read (%v)", o.Faults)
			r.Fail("C21", "accepted-without-keys:request", "a request was accepted although the key set could not be read (%v)", o.Faults)
		}
	}
	if why != "" {
		r.Fail("C17", "accepted:"+strings.SplitN(why, ":", 2)[0], "a request (%s, signed by %s under %q) was accepted for %s: %s", a.how, a.key.Name, a.kid, cl.id, why)
		return
	}
	if a.req != nil && !proto.Equal(a.req, req) {
		r.Fail("C17", "content", "signed %v, decoded %v", a.req, req)
	}
}

// same compares decoded claims with the JSON image of what was signed.
func same(a, b map[string]any) bool { return reflect.DeepEqual(image(a), image(b)) }

func image(m any) any {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	var o any
	if json.Unmarshal(b, &o) != nil {
		panic("image")
	}
	return o
}
