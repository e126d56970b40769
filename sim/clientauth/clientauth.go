// Package clientauth simulates servers authenticating clients by assertion and
// by attestation while keys rotate, clocks drift and the client store fails.
package clientauth

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx context.Context = context.Background() // the context of the run's calls

const (
	second   = int64(1000000000)
	audience = "https://as.example.com/token"
)

var supported = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA}

// key material of every party
var (
	sigKeys  []*keys.Key
	encKeys  []*keys.Key
	instKeys []*keys.Key
	p521     = keys.New(jose.ES512, "ca-p521", "sig")
)

func init() {
	for i := 0; i < 7; i++ {
		sigKeys = append(sigKeys, keys.New(jose.EdDSA, fmt.Sprintf("ca-sig-%d", i), "sig"))
	}
	sigKeys = append(sigKeys, keys.New(jose.ES256, "ca-sig-p256", "sig"))
	for i := 0; i < 2; i++ {
		encKeys = append(encKeys, keys.New(jose.EdDSA, fmt.Sprintf("ca-enc-%d", i), "enc"))
	}
	for i := 0; i < 3; i++ {
		instKeys = append(instKeys, keys.New(jose.EdDSA, fmt.Sprintf("ca-inst-%d", i), "sig"))
	}
}

// version is a registration of a client during an interval of the run.
type version struct {
	from, to int64 // sequence numbers; to 0 = still current
	c        *clientv1.Client
	keys     []*keys.Key
	odd      bool // key set unreadable, empty or with an unsupported key
}

type party struct {
	id       string
	versions []*version
}

func (c *party) cur() *version {
	if len(c.versions) == 0 {
		return nil
	}
	v := c.versions[len(c.versions)-1]
	if v.to != 0 {
		return nil
	}
	return v
}

type world struct {
	r     *kit.Run
	nodes int
	pk    []clientauthentication.AuthenticationProcessor
	at    []clientauthentication.AuthenticationProcessor
	cl    []*party
	byID  map[string]*party
	n     int
	sent  []sent
}

// sent is a request that somebody may have kept.
type sent struct {
	req *clientv1.AuthenticateRequest
	ts  []*ticket
	c   *party
	att bool
}

// replay presents an earlier request once more. It may be refused for that;
// if it is accepted, everything it rests on must still hold.
func (w *world) replay(p kit.Plan, node int) {
	if len(w.sent) == 0 {
		return
	}
	x := w.sent[len(w.sent)-1-p.N(len(w.sent))]
	w.r.Fault("replayed-request")
	var res *clientv1.AuthenticateResponse
	var err error
	req, _ := proto.Clone(x.req).(*clientv1.AuthenticateRequest)
	prop, what, kind, at := "C14", "assertion", "auth.jwt", w.pk
	if x.att {
		prop, what, kind, at = "C15", "attestation", "auth.attestation", w.at
	}
	o := w.r.Do(kind, node, func() { res, err = at[node].Authenticate(ctx, req) })
	w.r.Logf("node %d sees the %s of %s (%s) again: %v %s", node, what, x.c.id, x.ts[0].kind, err == nil, code(res))
	w.judge(prop, what, o, res, err, x.ts, x.c, "")
}

// Get implements the client store: linearizable, with faults in front of it.
func (w *world) Get(_ context.Context, id string) (*clientv1.Client, error) {
	var out *clientv1.Client
	err := w.r.SeamCall("client.Get", false, func() error {
		c := w.byID[id]
		if c == nil || c.cur() == nil {
			return storage.ErrNotFound
		}
		out = proto.Clone(c.cur().c).(*clientv1.Client)
		return nil
	})
	if err == kit.ErrNil {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return out, nil
}

func (w *world) GetByName(c context.Context, n string) (*clientv1.Client, error) { return w.Get(c, n) }

func (w *world) register(p kit.Plan, c *party, ks []*keys.Key, odd int) {
	v := &version{keys: ks}
	w.n++
	rec := &clientv1.Client{ClientId: c.id, ClientName: fmt.Sprintf("%s v%d", c.id, w.n), GrantTypes: []string{"authorization_code"}, TokenEndpointAuthMethod: "private_key_jwt"}
	v.c = rec
	switch odd {
	case 0:
		rec.Jwks = keys.JWKS(ks...)
	case 1:
		v.odd, v.keys = true, nil
	case 2:
		v.odd, v.keys = true, nil
		rec.Jwks = []byte([]string{`{`, `null`, `{"keys":[]}`, `[]`, `{"keys":null}`, `{"keys":[{}]}`, `"x"`}[p.N(7)])
	}
	// takes effect at one instant
	seq := simrt.NextSeq()
	if o := c.cur(); o != nil {
		o.to = seq
	}
	v.from = seq
	c.versions = append(c.versions, v)
	var names []string
	for _, k := range v.keys {
		names = append(names, k.Name)
	}
	w.r.Logf("client %s: keys %v (odd %d)", c.id, names, odd)
}

func (w *world) newNode(i int) {
	w.pk[i] = clientauthentication.PrivateKeyJWT(w, supported)
	w.at[i] = clientauthentication.ClientAttestation(w, supported)
}

// Main is the body of one run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	ctx = r.Ctx(context.Background())
	r.Calendar()
	w := &world{r: r, byID: map[string]*party{}}
	p := kit.Plan{S: simrt.StMisc}
	w.nodes = r.Cfg.Nodes
	w.pk = make([]clientauthentication.AuthenticationProcessor, w.nodes)
	w.at = make([]clientauthentication.AuthenticationProcessor, w.nodes)
	for i := range w.pk {
		w.newNode(i)
	}
	ids := []string{"client-a", "client-b", "client-", "attester-1", "attester-2"}
	for i, id := range ids {
		c := &party{id: id}
		w.cl = append(w.cl, c)
		w.byID[id] = c
		w.register(p, c, w.draw(p, i), 0)
	}
	if r.Cfg.Skew {
		for i := 0; i < w.nodes; i++ {
			d := []int64{0, 3, -3, 45, -45, 3600}[simrt.Choose(simrt.StCfg, 6)]
			simrt.SetSkew(i, d*second)
			if d != 0 {
				r.Fault("clock-skew")
			}
		}
	}
	r.FaultsOn = r.Cfg.Profile != "none"
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+2 && !r.Broken(); k++ {
				w.step(p)
			}
		}))
	}
	if r.Cfg.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 30); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Fault("node-crash")
				i := simrt.Choose(simrt.StFault, w.nodes)
				simrt.CrashNode(i)
				w.newNode(i)
			}
		}))
	}
	if r.Cfg.Jump {
		ts = append(ts, simrt.Spawn("clock", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 20); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Jump(simrt.Choose(simrt.StFault, w.nodes), []int64{2, -2, 31, -31, 3600, -3600}[simrt.Choose(simrt.StFault, 6)]*second)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	r.FaultsOn = false
	for i := 0; i < w.nodes && !r.Broken(); i++ {
		simrt.SetSkew(i, 0)
		c := w.cl[0]
		w.register(p, c, []*keys.Key{sigKeys[0]}, 0)
		w.register(p, w.cl[3], []*keys.Key{sigKeys[1]}, 0)
		w.assertion(p, i, 0, "C22")
		w.attestation(p, i, 0, "C22")
	}
}

// draw picks a key set: signature keys of one's own, sometimes shared ones,
// sometimes encryption keys besides.
func (w *world) draw(p kit.Plan, i int) []*keys.Key {
	var ks []*keys.Key
	n := 1 + p.N(2)
	for k := 0; k < n; k++ {
		ks = append(ks, sigKeys[(i+p.N(4))%len(sigKeys)])
	}
	if p.Pct(40) {
		e := encKeys[p.N(len(encKeys))]
		if p.Pct(50) {
			ks = append(ks, e)
		} else {
			ks = append([]*keys.Key{e}, ks...)
		}
	}
	if p.Pct(15) {
		ks = append(ks, p521)
	}
	return ks
}

func (w *world) step(p kit.Plan) {
	att := 12
	pk := 12
	switch w.r.Prop {
	case "C14":
		pk, att = 20, 4
	case "C15":
		pk, att = 4, 20
	}
	switch p.W([]int{pk, att, 3, 3, 2, 5}) {
	case 0:
		w.assertion(p, p.N(w.nodes), -1, "C14")
	case 1:
		w.attestation(p, p.N(w.nodes), -1, "C15")
	case 2:
		i := p.N(len(w.cl))
		w.r.Fault("key-rotation")
		odd := p.W([]int{8, 1, 1})
		w.register(p, w.cl[i], w.draw(p, i+p.N(3)), odd)
	case 5:
		w.replay(p, p.N(w.nodes))
	case 3:
		d := []int64{1, 5, 29, 30, 31, 59, 60, 3600}[p.N(8)]
		w.r.Logf("sleep %ds", d)
		simrt.Sleep(d * second)
	case 4:
		i := p.N(len(w.cl))
		c := w.cl[i]
		if o := c.cur(); o != nil {
			w.r.Fault("client-deleted")
			o.to = simrt.NextSeq()
			w.r.Logf("client %s is deleted", c.id)
		} else {
			w.register(p, c, w.draw(p, i), 0)
		}
	}
}

// during lists the registrations of a client that were current at some point
// of the call; sure reports that it was registered all the time.
func (c *party) during(o *kit.Op) (vs []*version, sure bool) {
	sure = true
	var end int64
	for _, v := range c.versions {
		if v.from > o.Ret || (v.to != 0 && v.to < o.Inv) {
			continue
		}
		vs = append(vs, v)
		end = v.to
	}
	if len(vs) == 0 || vs[0].from > o.Inv || (end != 0 && end < o.Ret) {
		sure = false
	}
	// a gap between two registrations
	for i := 1; i < len(vs); i++ {
		if vs[i].from != vs[i-1].to {
			sure = false
		}
	}
	return
}

func has(v *version, k *keys.Key) bool {
	if k.Priv.Use == "enc" || k.Alg == jose.ES512 {
		return false
	}
	for _, x := range v.keys {
		if x == k {
			return true
		}
	}
	return false
}

// could: some registration during the call has the key; must: all have.
func (c *party) could(o *kit.Op, k *keys.Key) (could, must bool) {
	vs, sure := c.during(o)
	must = sure
	for _, v := range vs {
		if has(v, k) {
			could = true
		} else {
			must = false
		}
	}
	return
}

// ticket is what a caller presents.
type ticket struct {
	kind   string
	bad    bool // never acceptable
	maybe  bool // neither required nor forbidden
	iss    string
	key    *keys.Key
	exp    int64
	noExp  bool
	future bool // not yet valid
	nbf    int64
	val    string
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// signer picks the key an assertion about a client is signed with.
func (w *world) signer(p kit.Plan, c *party) (*keys.Key, string) {
	v := c.cur()
	if v == nil && len(c.versions) > 0 {
		v = c.versions[len(c.versions)-1]
	}
	own := func() *keys.Key {
		var l []*keys.Key
		for _, k := range v.keys {
			if has(v, k) {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return sigKeys[0]
		}
		return l[p.N(len(l))]
	}
	switch p.W([]int{10, 3, 2, 1}) {
	case 0:
		return own(), "current"
	case 1:
		// a key of the past
		old := c.versions[p.N(len(c.versions))]
		if len(old.keys) > 0 {
			return old.keys[p.N(len(old.keys))], "past"
		}
		return own(), "current"
	case 2:
		l := append(append([]*keys.Key{}, sigKeys...), instKeys...)
		return l[p.N(len(l))], "foreign"
	default:
		l := append([]*keys.Key{p521}, encKeys...)
		return l[p.N(len(l))], "unfit"
	}
}

// assertion authenticates with private_key_jwt. want >= 0 asks for a rightful
// assertion of that client.
func (w *world) assertion(p kit.Plan, node, want int, must string) {
	r := w.r
	c := w.cl[p.N(3)]
	if want >= 0 {
		c = w.cl[want]
	}
	k, how := w.signer(p, c)
	if want >= 0 {
		k, how = c.cur().keys[0], "current"
	}
	now := simrt.ClockOf(node) / second
	t := &ticket{kind: "plain", iss: c.id, key: k}
	w.n++
	jti := fmt.Sprintf("jti-%d", w.n)
	hd := map[string]any{"alg": string(k.Alg), "typ": "client-assertion+jwt", "kid": k.Name}
	t.exp = now + []int64{30, 1, 60, 7000, 5}[p.W([]int{6, 2, 2, 1, 1})]
	cl := map[string]any{"iss": c.id, "sub": c.id, "aud": audience, "jti": jti, "iat": now, "exp": t.exp}
	if p.Pct(30) {
		delete(hd, "kid")
	}
	if p.Pct(20) {
		cl["nbf"] = now - 3
		delete(cl, "iat")
	}
	variant := 0
	if want < 0 {
		variant = p.W([]int{20, 6, 3, 3, 3, 3, 3, 2, 2, 2, 4, 2, 2, 3, 3})
	}
	req := &clientv1.AuthenticateRequest{ClientAssertionType: proto.String(oidc.AssertionTypeJWTBearer)}
	switch variant {
	case 1:
		t.kind = "expiry"
		t.exp = now + []int64{-3600, -61, -31, -2, -1, 0, 1}[p.N(7)]
		cl["exp"] = t.exp
	case 2:
		t.kind, t.bad = "subject", true
		cl["sub"] = w.cl[(p.N(2)+1+w.index(c))%3].id
	case 3:
		t.kind, t.bad = "issuer", true
		cl["iss"] = w.cl[(p.N(2)+1+w.index(c))%3].id
	case 4:
		f := []string{"iss", "sub", "aud", "jti", "exp"}[p.N(5)]
		t.kind, t.bad = "missing-"+f, true
		if p.Pct(50) {
			delete(cl, f)
		} else if f == "exp" {
			cl[f] = []any{0, nil, -1}[p.N(3)]
		} else {
			cl[f] = []any{"", nil}[p.N(2)]
		}
	case 5:
		t.kind, t.bad = "unknown-client", true
		id := []string{"nobody", "client-ab", "client", "CLIENT-A", "client-a ", "client-a\x00"}[p.N(6)]
		cl["iss"], cl["sub"] = id, id
	case 6:
		t.kind, t.bad = "alg-none", true
		hd["alg"] = []string{"none", "None", ""}[p.N(3)]
	case 7:
		t.kind, t.bad = "alg-hmac", true
		hd["alg"] = "HS256"
	case 8:
		t.kind, t.bad = "embedded-key", true
		e := instKeys[p.N(len(instKeys))]
		k, t.key = e, e
		hd["alg"], hd["jwk"], hd["kid"] = string(e.Alg), e.Pub, e.Name
	case 9:
		t.kind, t.bad = "type", true
		req.ClientAssertionType = []*string{nil, proto.String(""), proto.String("urn:x"), proto.String(oidc.AssertionTypeJWTClientAttestation)}[p.N(4)]
	case 10:
		t.kind, t.bad = "altered", true
	case 11:
		t.kind, t.bad = "no-assertion", true
	case 12:
		t.kind, t.bad = "types", true
		f := []string{"iss", "sub", "jti", "exp"}[p.N(4)]
		cl[f] = []any{[]string{c.id}, map[string]any{"a": 1}, true, "soon"}[p.N(4)]
		if f == "jti" || f == "iss" || f == "sub" {
			cl[f] = []any{[]string{c.id}, map[string]any{"a": 1}, true, 7}[p.N(4)]
		}
	case 13:
		t.kind = "json"
	case 14:
		t.kind = "made-by-generator"
	}
	t.val = keys.Forge(hd, cl, k)
	switch variant {
	case 10:
		var h string
		t.val, h = keys.Damage(p, t.val)
		t.kind += ":" + h
	case 13:
		// the same signature in JSON form, possibly with other content
		x := strings.Split(t.val, ".")
		t.maybe = true
		if p.Pct(50) {
			t.kind, t.bad = "json-altered", true
			cl["exp"], cl["jti"] = now+9999, "other"
			b, _ := json.Marshal(cl)
			x[1] = b64(b)
		}
		if p.Pct(30) && !t.bad {
			// a second signature by somebody else
			f := strings.Split(keys.Forge(map[string]any{"alg": string(instKeys[0].Alg)}, cl, instKeys[0]), ".")
			t.val = fmt.Sprintf(`{"payload":%q,"signatures":[{"protected":%q,"signature":%q},{"protected":%q,"signature":%q}]}`, x[1], f[0], f[2], x[0], x[2])
		} else {
			t.val = fmt.Sprintf(`{"protected":%q,"payload":%q,"signature":%q}`, x[0], x[1], x[2])
		}
	case 14:
		kk := k
		g := token.ClientAssertion(jwt.ClientAssertionSigner(kk.Alg, keys.Provider(r, "ca.key", func() *keys.Key { return kk })))
		var v string
		var err error
		o := r.Do("assertion.generate", node, func() {
			v, err = g.Generate(ctx, &tokenv1.Token{TokenId: jti, Metadata: &tokenv1.TokenMeta{Issuer: c.id, Subject: c.id, Audience: audience, IssuedAt: uint64(now), ExpiresAt: uint64(t.exp)}})
		})
		if r.CheckPanic(o, "C25") || r.CheckPanic(o, "C21") || o.Crashed {
			return
		}
		if err != nil || v == "" {
			if o.Clean() && err != nil && o.NMin/second >= now {
				r.Fail("C25", "assertion-generator", "a well-formed client assertion was not generated: %v", err)
			}
			if v != "" {
				r.Fail("C25", "assertion-with-error", "a value was returned with the error %v", err)
			}
			return
		}
		t.val = v
	}
	switch variant {
	case 11:
		req.ClientAssertion = []*string{nil, proto.String("")}[p.N(2)]
	default:
		req.ClientAssertion = &t.val
	}
	if variant == 11 && p.Pct(30) {
		req = nil
	}
	if variant > 0 {
		r.Fault("hostile-assertion:" + strings.SplitN(t.kind, ":", 2)[0])
	}
	var res *clientv1.AuthenticateResponse
	var err error
	o := r.Do("auth.jwt", node, func() { res, err = w.pk[node].Authenticate(ctx, req) })
	r.Logf("node %d authenticates %s (%s, %s key %s): %v %s", node, c.id, t.kind, how, k.Name, err == nil, code(res))
	if req != nil {
		w.sent = append(w.sent, sent{proto.Clone(req).(*clientv1.AuthenticateRequest), []*ticket{t}, c, false})
	}
	w.judge("C14", "assertion", o, res, err, []*ticket{t}, c, must)
}

func (w *world) index(c *party) int {
	for i, x := range w.cl {
		if x == c {
			return i
		}
	}
	return 0
}

func code(res *clientv1.AuthenticateResponse) string {
	if res == nil {
		return "-"
	}
	return res.GetError().GetErr()
}

// judge decides one authentication that rests on the given tickets, about c.
func (w *world) judge(prop, what string, o *kit.Op, res *clientv1.AuthenticateResponse, err error, ts []*ticket, c *party, must string) {
	r := w.r
	if o.Panic != nil {
		r.CheckPanic(o, prop)
		r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	both := func(sig, f string, a ...any) {
		r.Fail(prop, sig, f, a...)
		r.Fail("C21", sig, f, a...)
	}
	kind := ""
	for _, t := range ts {
		kind += t.kind + "/"
	}
	bad, maybe := "", false
	rightful := true // as far as the caller is concerned
	for _, t := range ts {
		maybe = maybe || t.maybe
		if t.bad {
			bad = t.kind
		}
		if t.noExp || t.exp < o.NMin/second {
			bad = what + " expired"
		}
		if t.nbf != 0 && t.nbf > o.NMax/second {
			bad = what + " not yet valid"
		}
		if t.noExp || t.exp*second <= o.NMax || (t.nbf != 0 && t.nbf*second > o.NMin) {
			rightful = false
		}
		if t.iss != "" {
			could, all := w.byID[t.iss].could(o, t.key)
			if !could {
				bad = "key " + t.key.Name + " is not a signature key of " + t.iss
			}
			if !all {
				rightful = false
			}
		}
	}
	vs, sure := c.during(o)
	if !sure {
		rightful = false
	}
	if bad != "" || maybe {
		rightful = false
	}
	if err == nil {
		r.Notes["authentications-judged"]++
		if res == nil || res.Error != nil || res.Client == nil {
			both("success-without-client:"+what, "%s (%s): no error, but the response is %v", what, kind, res)
			return
		}
		if bad != "" {
			r.Fail(prop, "accepted:"+what+":"+word(bad), "%s about %s (%s) was accepted: %s (faults %v)", what, c.id, kind, bad, o.Faults)
		}
		ok := false
		for _, v := range vs {
			if proto.Equal(v.c, res.Client) {
				ok = true
			}
		}
		if !ok {
			r.Fail(prop, "wrong-client:"+what, "%s about %s (%s) returned the client %v", what, c.id, kind, res.Client)
		}
		return
	}
	r.Notes["refusals-judged"]++
	if res == nil || res.Error == nil {
		both("no-error-object:"+what, "%s (%s) failed without an error object: %v", what, kind, err)
		return
	}
	if res.Client != nil {
		both("client-with-error:"+what, "%s (%s) failed but returned the client %s", what, kind, res.Client.ClientId)
	}
	if !kit.Errs[res.Error.Err] {
		both("error-code:"+what, "%s (%s): unregistered error code %q", what, kind, res.Error.Err)
	}
	if !rightful || must == "" {
		return
	}
	if o.Clean() {
		r.Fail(must, "rightful-refused:"+what, "a rightful %s of %s (%s) was refused: %v", what, c.id, kind, err)
		if must != "C22" {
			r.Fail("C22", "rightful-refused:"+what, "a rightful %s of %s (%s) was refused: %v", what, c.id, kind, err)
		}
		return
	}
	if o.Jumped || o.Cancelled || len(o.Faults) == 0 {
		return
	}
	// only the store failed
	r.Notes["store-failures-judged"]++
	if res.Error.Err != "server_error" && res.Error.Err != "temporarily_unavailable" {
		both("blame:"+what, "a rightful %s of %s failed because of the store (%v) but was answered %q", what, c.id, o.Faults, res.Error.Err)
	}
}

func word(s string) string {
	s, _, _ = strings.Cut(s, " is not")
	if strings.HasPrefix(s, "key ") {
		return "key"
	}
	s, _, _ = strings.Cut(s, ":")
	return strings.ReplaceAll(s, " ", "-")
}

// attestation authenticates with an attestation and a proof of possession.
func (w *world) attestation(p kit.Plan, node, want int, must string) {
	r := w.r
	c := w.cl[p.N(3)]
	att := w.cl[3+p.N(2)]
	if want >= 0 {
		c, att = w.cl[want], w.cl[3]
	}
	k, how := w.signer(p, att)
	if want >= 0 {
		k, how = att.cur().keys[0], "current"
	}
	inst := instKeys[p.N(2)]
	now := simrt.ClockOf(node) / second
	life := func() int64 { return now + []int64{30, 1, 60, 7000, 5}[p.W([]int{6, 2, 2, 1, 1})] }
	a := &ticket{kind: "att", iss: att.id, key: k, exp: life()}
	b := &ticket{kind: "pop", exp: life()}
	w.n++
	ah := map[string]any{"alg": string(k.Alg), "typ": "oauth-client-attestation+jwt", "kid": k.Name}
	ac := map[string]any{"iss": att.id, "sub": c.id, "exp": a.exp, "iat": now, "jti": fmt.Sprintf("a-%d", w.n), "cnf": map[string]any{"jwk": inst.Pub}}
	ph := map[string]any{"alg": string(inst.Alg), "typ": "oauth-client-attestation-pop+jwt"}
	pc := map[string]any{"iss": c.id, "aud": audience, "exp": b.exp, "iat": now, "jti": fmt.Sprintf("p-%d", w.n)}
	popKey := inst
	if p.Pct(30) {
		a.nbf = now - p.S64(5)
		ac["nbf"] = a.nbf
	}
	if p.Pct(30) {
		b.nbf = now - p.S64(5)
		pc["nbf"] = b.nbf
	}
	if p.Pct(20) {
		delete(ah, "kid")
		delete(ac, "jti")
	}
	req := &clientv1.AuthenticateRequest{ClientAssertionType: proto.String(oidc.AssertionTypeJWTClientAttestation)}
	variant := 0
	if want < 0 {
		variant = p.W([]int{20, 4, 4, 3, 3, 4, 4, 3, 3, 4, 3, 2, 2, 3, 2, 3, 3})
	}
	other := w.cl[(w.index(c)+1+p.N(2))%3]
	altA, altP := false, false
	switch variant {
	case 1:
		a.kind, a.exp = "att-expiry", now+[]int64{-3600, -61, -2, -1, 0, 1}[p.N(6)]
		ac["exp"] = a.exp
	case 2:
		b.kind, b.exp = "pop-expiry", now+[]int64{-3600, -61, -2, -1, 0, 1}[p.N(6)]
		pc["exp"] = b.exp
	case 3:
		a.kind, a.nbf = "att-nbf", now+[]int64{1, 2, 60, 3600}[p.N(4)]
		a.exp = a.nbf + 60
		ac["exp"], ac["nbf"] = a.exp, a.nbf
	case 4:
		b.kind, b.nbf = "pop-nbf", now+[]int64{1, 2, 60, 3600}[p.N(4)]
		b.exp = b.nbf + 60
		pc["exp"], pc["nbf"] = b.exp, b.nbf
	case 5:
		// recombined halves: attestation about one client, proof of another
		b.kind, b.bad = "pop-other-client", true
		pc["iss"] = other.id
	case 6:
		b.kind, b.bad = "pop-other-key", true
		popKey = instKeys[2]
		if p.Pct(50) {
			// the proof brings its own key along
			ph["jwk"], ph["kid"] = popKey.Pub, popKey.Name
		}
		if p.Pct(30) {
			popKey = k // the attester itself
			ph["alg"] = string(k.Alg)
			delete(ph, "jwk")
		}
	case 7:
		a.kind, a.bad = "att-self-signed", true
		if p.Pct(50) {
			ah["jwk"] = inst.Pub
		}
		ah["alg"], ah["kid"] = string(inst.Alg), inst.Name
		k = inst
	case 8:
		a.kind, a.bad = "att-unknown-attester", true
		ac["iss"] = []any{"nobody", "", nil, "attester-", "attester-11"}[p.N(5)]
	case 9:
		f := []string{"sub", "exp", "cnf"}[p.N(3)]
		a.kind, a.bad = "att-missing-"+f, true
		if p.Pct(40) {
			delete(ac, f)
		} else if f == "cnf" {
			ac[f] = []any{nil, map[string]any{}, map[string]any{"jwk": nil}, map[string]any{"jwk": map[string]any{}}, "x", map[string]any{"jwk": map[string]any{"kty": "oct", "k": "AAAA"}}, map[string]any{"jkt": inst.Thumb}}[p.N(7)]
		} else {
			ac[f] = nil
		}
	case 10:
		f := []string{"iss", "exp", "aud", "jti"}[p.N(4)]
		b.kind, b.bad = "pop-missing-"+f, true
		if p.Pct(50) {
			delete(pc, f)
		} else {
			pc[f] = nil
		}
	case 11:
		b.kind, b.bad = "pop-alg-none", true
		ph["alg"] = "none"
	case 12:
		b.kind, b.bad = "pop-alg-hmac", true
		ph["alg"] = "HS256"
	case 13:
		a.kind, altA = "att-altered", true
		a.bad = true
	case 14:
		b.kind, altP = "pop-altered", true
		b.bad = true
	case 15:
		a.kind, a.bad = "shape", true
	case 16:
		// an unregistered client with a perfect pair
		a.kind, a.bad = "unregistered-client", true
		id := []string{"nobody", "client-ab", "CLIENT-A"}[p.N(3)]
		ac["sub"], pc["iss"] = id, id
	}
	av := keys.Forge(ah, ac, k)
	pv := keys.Forge(ph, pc, popKey)
	if altA {
		var h string
		av, h = keys.Damage(p, av)
		a.kind += ":" + h
	}
	if altP {
		var h string
		pv, h = keys.Damage(p, pv)
		b.kind += ":" + h
	}
	val := av + "~" + pv
	if variant == 15 {
		val = []string{av, pv, av + "~", "~" + pv, pv + "~" + av, av + pv, "~", "~~", av + "~" + av, pv + "~" + pv, "", av + "~" + pv + "~" + pv}[p.N(12)]
	}
	req.ClientAssertion = &val
	if variant == 15 && p.Pct(40) {
		k := p.N(6)
		if k > 1 && p.Pct(50) {
			val = av + "~" + pv // all the rest is in order
		}
		switch k {
		case 0:
			req = nil
		case 1:
			req.ClientAssertion = nil
		case 2:
			req.ClientAssertionType = nil
		case 3:
			req.ClientAssertionType = proto.String(oidc.AssertionTypeJWTBearer)
		case 4:
			req.ClientAssertionType = proto.String("")
		case 5:
			req.ClientAssertionType = proto.String("urn:x")
		}
	}
	if variant > 0 {
		r.Fault("hostile-attestation:" + strings.SplitN(a.kind+"/"+b.kind, ":", 2)[0])
	}
	var res *clientv1.AuthenticateResponse
	var err error
	o := r.Do("auth.attestation", node, func() { res, err = w.at[node].Authenticate(ctx, req) })
	r.Logf("node %d authenticates %s attested by %s (%s %s, %s key %s): %v %s", node, c.id, att.id, a.kind, b.kind, how, k.Name, err == nil, code(res))
	if req != nil {
		w.sent = append(w.sent, sent{proto.Clone(req).(*clientv1.AuthenticateRequest), []*ticket{a, b}, c, true})
	}
	w.judge("C15", "attestation", o, res, err, []*ticket{a, b}, c, must)
}
