package system

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"github.com/go-jose/go-jose/v4"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

type plan = kit.Plan

// ---------------------------------------------------- what the server did

func num(v any) int64 {
	f, _ := v.(float64)
	return int64(f)
}

// observe looks at every answer of the authorization server, whether it is
// delivered or not.
func (w *world) observe(path string, in *intent, o *kit.Op, rec *recorder) {
	r := w.r
	ok := rec.status >= 200 && rec.status < 400
	if rec.status >= 500 && o.Clean() {
		r.Fail("C34", "server-error:"+in.kind, "status %d without any fault: %s", rec.status, rec.body.String())
	}
	if !ok {
		r.Notes["refused:"+in.kind]++
		return
	}
	if in.bad != "" && !in.noise && !strings.HasPrefix(in.bad, "ok:") && path != "/token/revoke" {
		r.Fail("C33", "accepted:"+in.kind+":"+in.bad, "the server accepted a request it must refuse: %s by %s (%s)", in.kind, who(in.who), in.bad)
	}
	r.Notes["accepted:"+in.kind]++
	var m map[string]any
	_ = json.Unmarshal(rec.body.Bytes(), &m)
	switch path {
	case "/par":
		u, _ := m["request_uri"].(string)
		if u == "" {
			r.Fail("C33", "par:no-uri", "a pushed request was accepted without a request_uri: %s", rec.body.String())
			return
		}
		w.used[in.proof] = true
		w.uris[u] = in.f
		w.until[u] = o.S1/second + 60
	case "/authorize":
		l, err := url.Parse(rec.h.Get("Location"))
		if err != nil || in.f == nil {
			return
		}
		want, _ := url.Parse(in.f.redirect)
		if l.Scheme != want.Scheme || l.Host != want.Host || l.Path != want.Path {
			r.Fail("C33", "authorize:redirect", "the answer for %s is sent to %s", in.f.c.name, l.String())
		}
		resp := l.Query().Get("response")
		parts := strings.Split(resp, ".")
		if len(parts) != 3 {
			r.Fail("C33", "authorize:response", "the redirect carries no signed response: %s", l.String())
			return
		}
		b, _ := base64.RawURLEncoding.DecodeString(parts[1])
		var c map[string]any
		_ = json.Unmarshal(b, &c)
		code, _ := c["code"].(string)
		if code == "" {
			return
		}
		if w.codes[code] != nil {
			r.Fail("C33", "authorize:code-reused", "the server issued the same code twice")
		}
		w.codes[code] = in.f
		in.f.codes = append(in.f.codes, code)
		in.f.jarm = append(in.f.jarm, resp)
		w.until[code] = o.S1/second + 60
		if in.uri != "" {
			if end := w.until[in.uri]; end != 0 && o.S0/second > end+1 {
				r.Fail("C33", "authorize:late", "a pushed request started an authorization %ds after its end", o.S0/second-end)
			}
			w.started[in.uri]++
			if w.started[in.uri] > 1 {
				r.Fail("C33", "authorize:twice", "a pushed request started more than one authorization")
			}
		}
	case "/device/authorize":
		if d, _ := m["device_code"].(string); d != "" && in.f != nil && !in.noise {
			w.until[d] = o.S1/second + 120
			if e := num(m["expires_in"]); e < 1 || e > 121 {
				r.Fail("C33", "device:lifetime", "a device code valid for %ds", e)
			}
		}
	case "/device":
		if in.f != nil && in.kind == "approve" {
			if end := w.until[in.f.dev]; end != 0 && (o.S0/second > end+1 || o.NMin/second > end+1) {
				r.Fail("C33", "device:approved-late", "a user code was approved %ds after its end", o.S0/second-end)
			}
			in.f.approved++
			if in.f.approved > 1 {
				r.Fail("C33", "device:approved-twice", "a user code was approved twice")
			}
		}
	case "/token":
		w.emitted(in, o, rec, m)
	case "/token/introspect":
		w.judge(in, o, m)
	case "/token/revoke":
		if t := in.t; t != nil && in.who == t.c && in.bad == "" && o.Clean() && t.revAck == 0 {
			t.revAck = o.Ret
		}
	}
}

func who(c *cli) string {
	if c == nil {
		return "nobody"
	}
	return c.name
}

// emitted records the tokens of a successful token response.
func (w *world) emitted(in *intent, o *kit.Op, rec *recorder, m map[string]any) {
	r := w.r
	val, _ := m["access_token"].(string)
	if val == "" || w.byVal[val] != nil {
		r.Fail("C33", "token:value", "a token response without a new access token: %s", rec.body.String())
		return
	}
	if in.noise || in.who == nil {
		return
	}
	c := in.who
	f := in.f
	fail := func(sig, msg string) { r.Fail("C33", "token:"+in.kind+":"+sig, "%s (client %s)", msg, c.name) }
	jkt := ""
	if in.pop != nil {
		jkt = in.pop.Thumb
	}
	if in.kind == "token.refresh" && in.t != nil {
		jkt = in.t.jkt
	}
	typ, _ := m["token_type"].(string)
	if (in.pop != nil) != (typ == "DPoP") {
		fail("type", "token_type "+typ)
	}
	if in.kind != "token.refresh" && c.rec.DpopBoundAccessTokens && in.pop == nil {
		fail("unbound", "an unbound token for a client of which all tokens are bound")
	}
	ei := num(m["expires_in"])
	if ei < 1 || ei > 3602 {
		fail("lifetime", fmt.Sprintf("expires_in %d", ei))
	}
	base := &tok{c: c, f: f, jkt: jkt, sub: "", from: in.t}
	switch in.kind {
	case "token.code":
		w.grants[in.code]++
		if w.grants[in.code] > 1 {
			fail("twice", "one authorization code, two sets of tokens")
		}
		if w.codes[in.code] != f {
			fail("unknown", "tokens for a code the server never issued for this flow")
		}
		if end := w.until[in.code]; end != 0 && o.S0/second > end+1 {
			fail("late", fmt.Sprintf("tokens for a code %ds after its end", o.S0/second-end))
		}
		base.sub, base.scope, base.aud = c.sub, f.scope, f.aud
	case "token.device":
		if end := w.until[f.dev]; end != 0 && (o.S0/second > end+1 || o.NMin/second > end+1) {
			fail("late", fmt.Sprintf("tokens for a device code %ds after its end", o.S0/second-end))
		}
		f.grants++
		if f.grants > 1 {
			fail("twice", "one device code, two sets of tokens")
		}
		if f.approveTry == 0 {
			fail("not-approved", "tokens for a device nobody approved")
		}
		base.sub, base.scope, base.aud = sub0, f.scope, f.aud
	case "token.refresh":
		base.sub, base.scope, base.aud = in.t.sub, in.t.scope, in.t.aud
	}
	if s, _ := m["scope"].(string); s != base.scope {
		fail("scope", fmt.Sprintf("scope %q instead of %q", s, base.scope))
	}
	add := func(v string, refresh bool, lo, hi int64) *tok {
		t := *base
		w.ntok++
		t.n, t.val, t.refresh, t.expLo, t.expHi, t.nbf, t.nbfLo = w.ntok, v, refresh, lo, hi, o.NMax/second+2, o.NMin/second+1
		w.toks = append(w.toks, &t)
		w.byVal[v] = &t
		if f != nil {
			f.toks = append(f.toks, &t)
		}
		return &t
	}
	add(val, false, o.NMin/second+ei-1, o.NMax/second+ei+1)
	rt, _ := m["refresh_token"].(string)
	offline := f != nil && strings.Contains(base.scope, "offline_access")
	if rt != "" {
		if w.byVal[rt] != nil {
			fail("refresh-reused", "the same refresh token twice")
		}
		if !offline {
			fail("refresh", "a refresh token nobody asked for")
		}
		day := int64(86400)
		add(rt, true, o.NMin/second+6*day, o.NMax/second+8*day)
	} else if offline && in.kind != "token.refresh" {
		fail("no-refresh", "no refresh token although offline_access was granted")
	}
}

// judge compares an introspection answer with the history.
func (w *world) judge(in *intent, o *kit.Op, m map[string]any) {
	r := w.r
	active, isBool := m["active"].(bool)
	fail := func(sig, f string, a ...any) { r.Fail("C33", "introspect:"+sig, f, a...) }
	if !isBool {
		fail("shape", "no active member")
		return
	}
	t := in.t
	if t == nil {
		if active && !in.noise {
			fail("unknown", "a token the server never issued is active")
		}
		return
	}
	if !active {
		busy := t.revTry != 0 || r.Cfg.Skew || !o.Clean() || o.NMax/second >= t.expLo || o.NMin/second < t.nbf
		if !busy {
			fail("lost", "token %d of %s is not active although it was neither revoked nor expired", t.n, t.c.name)
		}
		return
	}
	r.Notes["active-judged"]++
	if t.revAck != 0 && t.revAck < o.Inv {
		fail("revoked", "token %d is active after its revocation was acknowledged", t.n)
	}
	if o.NMax/second < t.nbfLo {
		fail("early", "token %d is active before it begins", t.n)
	}
	if o.NMin/second > t.expHi {
		fail("expired", "token %d is active after its end", t.n)
	}
	eq := func(k, want string) {
		got := ""
		switch v := m[k].(type) {
		case string:
			got = v
		case []any:
			for _, x := range v {
				got = strings.TrimSpace(got + " " + fmt.Sprint(x))
			}
		}
		if got != want {
			fail("claim:"+k, "token %d of %s: %s is %q instead of %q", t.n, t.c.name, k, got, want)
		}
	}
	eq("iss", issuer)
	eq("client_id", t.c.id)
	eq("sub", t.sub)
	eq("scope", t.scope)
	eq("aud", t.aud)
	jkt := ""
	if c, _ := m["cnf"].(map[string]any); c != nil {
		jkt, _ = c["jkt"].(string)
	}
	if jkt != t.jkt {
		fail("claim:cnf", "token %d of %s is bound to %q instead of %q", t.n, t.c.name, jkt, t.jkt)
	}
	if e := num(m["exp"]); e < t.expLo-1 || e > t.expHi+1 {
		fail("claim:exp", "token %d expires at %d, announced %d..%d", t.n, e, t.expLo, t.expHi)
	}
}

// ------------------------------------------------------ what clients do

func (w *world) ctx(in *intent) context.Context {
	return context.WithValue(context.Background(), intentKey{}, in)
}

// client runs client code, which must not crash whatever the network does.
func (w *world) client(name string, fn func()) {
	o := w.r.Do("client."+name, -1, func() {
		d := simrt.Mask(cliDom)
		defer simrt.Unmask(d)
		fn()
	})
	if o.Panic != nil {
		w.r.Fail("C34", "panic:client:"+firstFrame(o.Stack), "the client crashed during %s: %v (%s)", name, o.Panic, o.Stack)
	}
}

func (w *world) connect(c *cli) {
	if c.opts == nil || c.sdk != nil || c.name == "T" {
		return
	}
	var s client.Client
	var err error
	s, err = client.HTTP(w.ctx(&intent{kind: "discover"}), issuer, c.opts)
	if err != nil {
		w.r.Logf("%s cannot connect: %v", c.name, err)
		return
	}
	if md := s.ServerMetadata(); md.TokenEndpoint != issuer+"/token" || md.JwksUri != issuer+"/keys" || md.Issuer != issuer {
		w.r.Fail("C33", "discover:metadata", "the client learned other endpoints: %v", md)
	}
	c.sdk = s
}

// auth adds the client's authentication to a request.
func (w *world) auth(c *cli, q, form url.Values) bool {
	switch c.name {
	case "P":
		q.Set("client_id", c.id)
		return true
	case "T":
		now := simrt.NowNanos() / second
		att := keys.Forge(map[string]any{"alg": "ES384", "typ": "client-attestation+jwt"}, map[string]any{"iss": "attester", "sub": c.id, "nbf": now - 40, "exp": now + 3600, "cnf": map[string]any{"jwk": instKey.Pub}}, attKey)
		w.n++
		pop := keys.Forge(map[string]any{"alg": "ES384", "typ": "client-attestation-pop+jwt"}, map[string]any{"iss": c.id, "aud": issuer, "nbf": now - 40, "exp": now + 60, "jti": fmt.Sprint("pop", w.n)}, instKey)
		form.Set("client_assertion_type", oidc.AssertionTypeJWTClientAttestation)
		form.Set("client_assertion", att+"~"+pop)
		return true
	}
	if c.sdk == nil {
		w.connect(c)
		if c.sdk == nil {
			return false
		}
	}
	a, err := c.sdk.Assertion()
	if err != nil {
		w.r.Fail("C33", "client:assertion", "no assertion: %v", err)
		return false
	}
	form.Set("client_assertion_type", oidc.AssertionTypeJWTBearer)
	form.Set("client_assertion", a)
	return true
}

func target(path string, q url.Values) string {
	u := issuer + path
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	return u
}

func (w *world) prove(c *cli, method, u string, opts ...dpop.Option) string {
	p, err := c.prover.Prove(method, u, opts...)
	if err != nil {
		w.r.Fail("C33", "client:proof", "no proof: %v", err)
	}
	return p
}

func (w *world) newFlow(p plan, by int, kind string, c *cli) *flow {
	f := &flow{n: len(w.flows) + 1, c: c, kind: kind, by: by, aud: "https://" + rsHost, redirect: c.redirect}
	f.state = fmt.Sprintf("state-%d-of-the-agent-padded-to-32-bytes", f.n)
	f.nonce = fmt.Sprintf("nonce-%d-padded", f.n)
	f.scope = []string{"openid", "openid offline_access", "openid profile", "profile"}[p.W([]int{4, 4, 2, 1})]
	f.ask = f.scope
	if f.ask == "openid offline_access" && kind == "code" {
		if f.prompt = []string{oidc.PromptConsent, "", oidc.PromptLogin}[p.W([]int{6, 1, 1})]; f.prompt != oidc.PromptConsent {
			f.scope = "openid" // nobody consented
		}
	}
	f.verifier = fmt.Sprintf("verifier-%08d-%s", f.n, strings.Repeat("v", 30+p.N(40)))
	h := sha256.Sum256([]byte(f.verifier))
	f.challenge = base64.RawURLEncoding.EncodeToString(h[:])
	f.direct = kind == "code" && p.N(6) == 5
	if l := c.rec.RedirectUris; kind == "code" && len(l) > 1 && p.N(3) == 2 {
		f.redirect = l[p.N(len(l))]
	}
	w.flows = append(w.flows, f)
	return f
}

func (w *world) request(f *flow) *flowv1.AuthorizationRequest {
	ar := &flowv1.AuthorizationRequest{State: f.state, Audience: f.aud, ResponseType: "code", ClientId: f.c.id, Nonce: f.nonce, Scope: f.ask, RedirectUri: f.redirect, CodeChallenge: f.challenge, CodeChallengeMethod: "S256"}
	if len(f.c.rec.ResponseModes) > 0 {
		ar.ResponseMode = &f.c.rec.ResponseModes[0]
	}
	if f.prompt != "" {
		p := f.prompt
		ar.Prompt = &p
	}
	return ar
}

func (w *world) sign(c *cli, ar *flowv1.AuthorizationRequest) string {
	s, err := c.enc.Encode(context.Background(), ar)
	if err != nil {
		w.r.Fail("C33", "client:request", "no request object: %v", err)
	}
	return s
}

// push sends a pushed authorization request as c.
func (w *world) push(f *flow, c *cli, req string, bad string, proof string, hdr bool) *reply {
	q, form := url.Values{"request": {req}}, url.Values{}
	if !w.auth(c, q, form) {
		return nil
	}
	u := issuer + "/par"
	if hdr && proof == "" {
		proof = w.prove(c, "POST", u)
	}
	h := map[string]string{}
	if hdr {
		h["DPoP"] = proof
	}
	return w.send("POST", target("/par", q), h, form, &intent{kind: "par", who: c, bad: bad, f: f, pop: c.pop, proof: proof})
}

func (w *world) authorizeURL(f *flow, c *cli) string {
	ar := w.request(f)
	if !f.direct {
		u := f.uri
		ar = &flowv1.AuthorizationRequest{RequestUri: &u}
	}
	return target("/authorize", url.Values{"client_id": {c.id}, "request": {w.sign(c, ar)}})
}

func basic(u, p string) map[string]string {
	return map[string]string{"Authorization": "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))}
}

// accept is what a client does with an authorization response.
func (w *world) accept(c *cli, response string) (*flowv1.AuthorizeResponse, error) {
	set := func(ctx context.Context) (*jose.JSONWebKeySet, error) {
		ks, _, err := c.sdk.PublicKeys(w.ctx(&intent{kind: "keys"}))
		return ks, err
	}
	return jarm.Decoder(issuer, jwt.DefaultVerifier(set, es384)).Decode(context.Background(), c.id, response)
}

// calm: nothing in this run can delay or lose a request.
func (w *world) calm(f *flow) bool {
	return w.noFault || (w.r.Cfg.Profile == "none" && (f == nil || !f.tainted))
}

func (w *world) must(ok bool, f *flow, step string, p *reply) bool {
	if ok || !w.calm(f) || w.r.E.Aborted || (p != nil && p.in != nil && p.in.dup) {
		return ok
	}
	txt := "no answer"
	if p != nil && p.err == nil {
		txt = fmt.Sprintf("%d %s", p.status, p.body)
	} else if p != nil {
		txt = p.err.Error()
	}
	name := "?"
	if f != nil {
		name = f.c.name
	}
	w.r.Fail("C34", "stuck:"+step, "a rightful request of %s fails although nothing is in its way: %s", name, txt)
	return false
}

// advance takes the next step of a flow; it reports progress.
func (w *world) advance(f *flow) bool {
	now := w.r.E.Now
	if f.begun && now-f.last > 20*second {
		f.tainted = true
	}
	f.last, f.begun = now, true
	if f.c.sdk == nil {
		w.connect(f.c)
		if f.c.sdk == nil {
			return false
		}
	}
	if f.kind == "code" {
		return w.advanceCode(f)
	}
	return w.advanceDevice(f)
}

func (w *world) advanceCode(f *flow) bool {
	r := w.r
	switch {
	case f.uri == "" && !f.direct:
		p := w.push(f, f.c, w.sign(f.c, w.request(f)), "", "", true)
		if p == nil {
			return false
		}
		u, _ := p.json()["request_uri"].(string)
		if !w.must(p.status == 201 && u != "", f, "par", p) {
			return false
		}
		f.uri = u
	case f.code == "":
		uri := f.uri
		p := w.send("GET", w.authorizeURL(f, f.c), basic(user, pass), nil, &intent{kind: "authorize", who: f.c, f: f, uri: uri})
		if !w.must(p.status == 302 && p.loc != nil, f, "authorize", p) {
			if !f.direct {
				f.uri = "" // push it again
			}
			return false
		}
		res, err := w.accept(f.c, p.loc.Query().Get("response"))
		ok := err == nil && res.Error == nil && res.Code != ""
		if ok && (res.State != f.state || res.Issuer != issuer) {
			r.Fail("C33", "client:response", "the client took a response with state %q", res.State)
		}
		if !w.must(ok, f, "response", &reply{err: err}) {
			f.uri = ""
			return false
		}
		f.code = res.Code
	case len(f.got) == 0:
		w.redeem(f, f.c, f.code, f.verifier, f.redirect, "", true)
		return len(f.got) > 0
	default:
		return false
	}
	return true
}

// bindAs says whether a client proves possession in its token requests.
func (w *world) bindAs(c *cli, n int) *keys.Key {
	if c.rec.DpopBoundAccessTokens || n%2 == 0 {
		return c.pop
	}
	return nil
}

// tokenReq sends a token request.
func (w *world) tokenReq(c *cli, form url.Values, in *intent) *reply {
	q := url.Values{}
	in.who = c
	if in.bad != "no-auth" && !w.auth(c, q, form) {
		return nil
	}
	h := map[string]string{}
	if in.pop != nil {
		if in.proof == "" {
			x := *c
			x.prover = w.proverOf(in.pop)
			in.proof = w.prove(&x, "POST", issuer+"/token")
		}
		h["DPoP"] = in.proof
	}
	return w.send("POST", target("/token", q), h, form, in)
}

func (w *world) proverOf(k *keys.Key) dpop.Prover {
	return dpop.DefaultProver(jwt.DPoPSigner(jose.ES384, func(context.Context) (*jose.JSONWebKey, error) { c := k.Priv; return &c, nil }))
}

// keep stores the tokens a client received.
func (w *world) keep(f *flow, p *reply) (l []*tok) {
	if p == nil || p.err != nil || p.status != 200 {
		return
	}
	m := p.json()
	for _, k := range []string{"access_token", "refresh_token"} {
		v, _ := m[k].(string)
		if v == "" {
			continue
		}
		t := w.byVal[v]
		if t == nil {
			w.r.Fail("C33", "client:token", "the client received a token the server did not issue")
			continue
		}
		t.known = true
		l = append(l, t)
		w.have = append(w.have, t)
		if f != nil {
			f.got = append(f.got, t)
		}
	}
	return
}

func (w *world) redeem(f *flow, c *cli, code, verifier, redirect, bad string, want bool) *reply {
	form := url.Values{"grant_type": {"authorization_code"}, "code": {code}, "code_verifier": {verifier}, "redirect_uri": {redirect}}
	if f.tries > 0 {
		want = false
	}
	if c == f.c {
		f.tries++
	}
	openid := strings.Contains(f.scope, "openid")
	p := w.tokenReq(c, form, &intent{kind: "token.code", bad: bad, f: f, code: code, pop: w.bindAs(c, f.n)})
	if bad == "" {
		got := w.keep(f, p)
		if want && openid {
			w.must(len(got) > 0, f, "token", p)
		}
	}
	return p
}

func (w *world) advanceDevice(f *flow) bool {
	switch {
	case f.dev == "":
		q, form := url.Values{}, url.Values{"client_id": {f.c.id}, "scope": {f.scope}, "audience": {f.aud}}
		if !w.auth(f.c, q, form) {
			return false
		}
		p := w.send("POST", target("/device/authorize", q), nil, form, &intent{kind: "device", who: f.c, f: f})
		m := p.json()
		d, _ := m["device_code"].(string)
		u, _ := m["user_code"].(string)
		if !w.must(p.status == 200 && d != "" && u != "", f, "device", p) {
			return false
		}
		f.dev, f.uc = d, u
	case f.approveTry == 0 || (f.approved == 0 && !f.tainted && w.noFault):
		if f.polls == 0 && f.n%3 == 0 {
			f.polls++
			w.poll(f, f.c, "", false)
			return true
		}
		f.approveTry = simrt.NextSeq()
		p := w.send("POST", issuer+"/device", basic(user, pass), url.Values{"user_code": {f.uc}}, &intent{kind: "approve", f: f})
		w.must(p.status == 200, f, "approve", p)
	case len(f.got) == 0:
		w.poll(f, f.c, "", f.approved == 1)
		return len(f.got) > 0
	default:
		return false
	}
	return true
}

func (w *world) poll(f *flow, c *cli, bad string, want bool) *reply {
	form := url.Values{"grant_type": {oidc.GrantTypeDeviceCode}, "device_code": {f.dev}}
	if f.tries > 0 {
		want = false
	}
	if c == f.c && f.approveTry != 0 {
		f.tries++
	}
	p := w.tokenReq(c, form, &intent{kind: "token.device", bad: bad, f: f, pop: w.bindAs(c, f.n)})
	if bad == "" {
		if got := w.keep(f, p); want {
			w.must(len(got) > 0, f, "poll", p)
		}
	}
	return p
}

func (w *world) refresh(t *tok, c *cli, pop *keys.Key, bad string) *reply {
	if t.c == c {
		if t.revTry == 0 && (w.r.E.Now/second+simrt.Base) > t.expLo-3*86400 {
			t.revTry = simrt.NextSeq() // near its end it is replaced
		}
	}
	p := w.tokenReq(c, url.Values{"grant_type": {"refresh_token"}, "refresh_token": {t.val}}, &intent{kind: "token.refresh", bad: bad, f: t.f, t: t, pop: pop})
	if bad == "" {
		got := w.keep(t.f, p)
		if w.live(t) {
			w.must(len(got) > 0, t.f, "refresh", p)
		}
	}
	return p
}

func (w *world) revoke(t *tok, c *cli, bad string) *reply {
	q, form := url.Values{}, url.Values{"token": {t.val}}
	if !w.auth(c, q, form) {
		return nil
	}
	if c == t.c && t.revTry == 0 {
		t.revTry = simrt.NextSeq()
	}
	return w.send("POST", target("/token/revoke", q), nil, form, &intent{kind: "revoke", who: c, bad: bad, t: t})
}

// introspectAs asks the authorization server with the client package.
func (w *world) introspectAs(c *cli, val string, _ *tok) (*tokenv1.Token, *kit.Op, error) {
	a, err := c.sdk.Assertion()
	if err != nil {
		return nil, nil, err
	}
	in := &intent{kind: "introspect", who: c, t: w.byVal[val]}
	t, err := c.sdk.Introspect(w.ctx(in), a, val)
	return t, nil, err
}

// use presents a token at the resource.
func (w *world) use(t *tok, scheme string, key *keys.Key, method, proofURL, proofMethod, ath, bad string) *reply {
	h := map[string]string{"Authorization": scheme + " " + t.val}
	in := &intent{kind: "resource", who: t.c, t: t, bad: bad, pop: key}
	if key != nil {
		var opts []dpop.Option
		if ath != "" {
			opts = append(opts, dpop.WithTokenValue(ath))
		}
		p, err := w.proverOf(key).Prove(proofMethod, proofURL, opts...)
		if err != nil {
			w.r.Fail("C33", "client:proof", "no proof: %v", err)
			return nil
		}
		h["DPoP"] = p
	}
	return w.send(method, rsURL, h, nil, in)
}

// live: the token is certainly good for now.
func (w *world) live(t *tok) bool {
	now := w.r.E.Now/second + simrt.Base
	return t.revTry == 0 && now < t.expLo && now >= t.nbf
}

func popOf(t *tok) *keys.Key {
	for _, n := range []string{"A", "B", "P", "R", "M", "T"} {
		if popKeys[n].Thumb == t.jkt {
			return popKeys[n]
		}
	}
	return nil
}

// present uses a token as its holder.
func (w *world) present(t *tok) *reply {
	if w.rs.sdk == nil {
		w.connect(w.rs)
	}
	scheme, k := "Bearer", popOf(t)
	if k != nil {
		scheme = "DPoP"
	}
	p := w.use(t, scheme, k, "GET", rsURL, "GET", t.val, "")
	if p != nil && w.live(t) && w.rs.sdk != nil {
		w.must(p.status == 200, t.f, "resource", p)
	}
	return p
}

func (w *world) cc(c *cli, raw bool, pop *keys.Key) {
	if c.name != "T" && c.sdk == nil {
		w.connect(c)
		if c.sdk == nil {
			return
		}
	}
	if raw {
		p := w.tokenReq(c, url.Values{"grant_type": {"client_credentials"}}, &intent{kind: "token.cc", pop: pop})
		got := w.keep(nil, p)
		if !c.rec.DpopBoundAccessTokens || pop != nil {
			w.must(len(got) > 0, &flow{c: c}, "client-credentials", p)
		}
		return
	}
	a, err := c.sdk.Assertion()
	if err != nil {
		return
	}
	in := &intent{kind: "token.cc", who: c}
	t, err := c.sdk.ClientCredentials(w.ctx(in), a)
	if err != nil {
		if !c.rec.DpopBoundAccessTokens {
			w.must(false, &flow{c: c}, "client-credentials", &reply{err: err})
		}
		return
	}
	k := w.byVal[t.AccessToken]
	if k == nil {
		w.r.Fail("C33", "client:token", "the client received a token the server did not issue")
		return
	}
	k.known = true
	w.have = append(w.have, k)
}

// ------------------------------------------------------------------- plans

func (w *world) clientsFor(p plan) *cli {
	return []*cli{w.cs["client-a"], w.cs["client-b"], w.cs["client-p"]}[p.N(3)]
}

func (w *world) pickFlow(p plan, ok func(*flow) bool) *flow {
	var l []*flow
	for _, f := range w.flows {
		if ok(f) {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[p.N(len(l))]
}

func (w *world) pickTok(p plan, ok func(*tok) bool) *tok {
	var l []*tok
	for _, t := range w.have {
		if ok(t) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[p.N(len(l))]
}

func any_(*tok) bool       { return true }
func access(t *tok) bool   { return !t.refresh }
func refresh_(t *tok) bool { return t.refresh }

// step is one action of an agent.
func (w *world) step(p plan, i int) {
	var own *flow
	k := p.W([]int{16, 8, 52, 28, 12, 10, 14, 8, 6, 32, 12, 6, 4, 8, 1, 6, 2})
	w.client(fmt.Sprint("step", k), func() {
		switch k {
		case 0:
			own = w.newFlow(p, i, "code", w.clientsFor(p))
			w.advance(own)
		case 1:
			own = w.newFlow(p, i, "device", w.clientsFor(p))
			w.advance(own)
		case 2:
			own = w.pickFlow(p, func(f *flow) bool { return f.by == i && len(f.got) == 0 && f.stale < 4 })
			if own == nil {
				own = w.newFlow(p, i, []string{"code", "code", "device"}[p.N(3)], w.clientsFor(p))
			}
			for n := 0; n < 1+p.N(4); n++ {
				if !w.advance(own) {
					own.stale++
					break
				}
			}
		case 3:
			if t := w.pickTok(p, access); t != nil {
				w.present(t)
			}
		case 4:
			if t := w.pickTok(p, any_); t != nil && w.rs.sdk != nil {
				_, _, _ = w.introspectAs(w.rs, t.val, t)
			}
		case 5:
			if t := w.pickTok(p, any_); t != nil {
				w.revoke(t, t.c, "")
				if p.N(2) == 0 {
					w.present(t)
				}
			}
		case 6:
			if t := w.pickTok(p, refresh_); t != nil {
				pop := popOf(t)
				if t.c.name != "P" && p.N(3) == 2 {
					// whatever a confidential client proves now, its tokens
					// stay bound as they were
					if pop = []*keys.Key{nil, w.cs["client-m"].pop, t.c.pop}[p.N(3)]; pop != nil || !t.c.rec.DpopBoundAccessTokens {
						w.r.Probe("refresh-with-other-key")
						w.refresh(t, t.c, pop, "")
					}
					return
				}
				w.refresh(t, t.c, pop, "")
			}
		case 7:
			w.cc([]*cli{w.cs["client-a"], w.cs["client-b"], w.rs}[p.N(3)], false, nil)
		case 8:
			c := []*cli{w.cs["client-t"], w.cs["client-a"], w.cs["client-b"]}[p.N(3)]
			w.cc(c, true, []*keys.Key{nil, c.pop}[p.N(2)])
		case 9:
			w.attack(p)
		case 10:
			if len(w.taken) > 0 {
				c := w.taken[p.N(len(w.taken))]
				w.r.Fault("net:replayed")
				c.in.dup = true
				if c.in.f != nil {
					c.in.f.tainted = true
				}
				if c.in.t != nil && c.in.kind == "revoke" && c.in.who == c.in.t.c && c.in.t.revTry == 0 {
					c.in.t.revTry = simrt.NextSeq()
				}
				w.serve(c.host, c.raw, c.in)
			}
		case 11:
			simrt.Sleep([]int64{1, 3, 10, 40, 200, 3700, 86400 * 5}[p.W([]int{6, 6, 5, 3, 1, 1, 1})] * second)
		case 12:
			c := w.order[p.N(len(w.order))]
			w.connect(c)
			if c.sdk != nil {
				_, _, _ = c.sdk.PublicKeys(w.ctx(&intent{kind: "keys"}))
			}
		case 13:
			w.junk(p)
		case 14:
			w.storm(p, i)
		case 15:
			// what was not used in time is of no use
			own = w.pickFlow(p, func(f *flow) bool { return f.by == i && len(f.got) == 0 && f.stale < 4 })
			if own == nil || p.N(2) == 0 {
				own = w.newFlow(p, i, []string{"code", "device"}[p.N(2)], w.clientsFor(p))
			}
			for n := p.N(4); n > 0; n-- {
				w.advance(own)
			}
			l := []int64{50, 57, 59, 61, 62, 65, 75}
			if own.kind == "device" {
				l = []int64{100, 117, 119, 121, 122, 125, 135}
			}
			simrt.Sleep(l[p.N(len(l))] * second)
			for n := 2; n > 0; n-- {
				w.advance(own)
			}
		case 16:
			// tokens at the edges of their life
			t := w.pickTok(p, any_)
			if t == nil {
				return
			}
			if now := w.r.E.Now/second + simrt.Base; t.expHi > now {
				simrt.Sleep((t.expHi - now + []int64{-3, 1, 2, 5}[p.N(4)]) * second)
			}
			if t.refresh {
				w.refresh(t, t.c, popOf(t), "")
			} else {
				w.present(t)
			}
		}
	})
}

// storm does one thing many times in a row, as a client in a retry loop or
// a busy resource would: what is left behind must not get in anyone's way.
func (w *world) storm(p plan, i int) {
	k, n := p.N(9), 17+p.N(24)
	cs := w.clientsFor(p)
	c := cs
	cc := []*cli{w.cs["client-a"], w.cs["client-b"], w.rs, w.cs["client-t"]}[p.N(4)]
	var t *tok
	switch k {
	case 1, 2:
		t = w.pickTok(p, access)
	case 3:
		t = w.pickTok(p, refresh_)
	}
	w.r.Fault("load:storm")
	for ; n > 0 && !w.r.Broken(); n-- {
		switch k {
		case 0:
			w.cc(cc, cc.name == "T", nil)
		case 1:
			if t == nil {
				return
			}
			w.present(t)
		case 2:
			if t == nil || w.rs.sdk == nil {
				return
			}
			_, _, _ = w.introspectAs(w.rs, t.val, t)
		case 3:
			if t == nil {
				return
			}
			w.refresh(t, t.c, popOf(t), "")
		case 4:
			f := w.newFlow(p, i, "code", c)
			w.advance(f)
			f.stale = 9 // abandoned
		case 5:
			f := w.newFlow(p, i, "code", c)
			w.advance(f)
			w.advance(f)
			f.stale = 9
		case 6:
			f := w.newFlow(p, i, "device", c)
			w.advance(f)
			f.stale = 9
		case 7:
			w.junk(p)
		case 8:
			w.attack(p)
		}
	}
}

// spoil makes an authorization request one that must be refused.
func (w *world) spoil(p plan, f *flow, ar *flowv1.AuthorizationRequest) string {
	set := func(v string) *string { return &v }
	switch p.N(9) {
	case 0:
		ar.RedirectUri = []string{"https://evil.example.com/cb", f.c.rec.RedirectUris[0] + "/more", f.c.rec.RedirectUris[0] + "&y", "/cb", "javascript:alert(1)"}[p.N(5)]
		return "redirect"
	case 1:
		ar.CodeChallengeMethod = []string{"plain", "", "S512"}[p.N(3)]
		return "challenge-method"
	case 2:
		ar.CodeChallenge = []string{"", f.challenge[:20]}[p.N(2)]
		return "challenge"
	case 3:
		ar.State = []string{"", "short"}[p.N(2)]
		return "state"
	case 4:
		ar.Nonce = []string{"", "n"}[p.N(2)]
		return "nonce"
	case 5:
		ar.ResponseType = []string{"token", "id_token", ""}[p.N(3)]
		return "response-type"
	case 6:
		l := []string{oidc.ResponseModeQuery, oidc.ResponseModeFragment, oidc.ResponseModeFormPost, oidc.ResponseModeFragmentJWT, oidc.ResponseModeFormPOSTJWT, "other"}
		ar.ResponseMode = set(l[p.N(len(l))])
		return "response-mode"
	case 7:
		ar.Audience = ""
		return "audience"
	}
	o := w.cs["client-m"]
	if f.c == o {
		o = w.cs["client-a"]
	}
	ar.ClientId = []string{o.id, "", "nobody"}[p.N(3)]
	return "client"
}

// attack is a request that must not succeed.
func (w *world) attack(p plan) {
	m := w.cs["client-m"]
	if m.sdk == nil {
		w.connect(m)
		if m.sdk == nil {
			return
		}
	}
	pub := w.cs["client-p"]
	others := func(c *cli) *cli {
		l := []*cli{m, w.cs["client-a"], w.cs["client-b"], pub}
		for {
			x := l[p.N(len(l))]
			if x != c {
				return x
			}
		}
	}
	switch p.N(8) {
	case 0: // somebody else's code
		f := w.pickFlow(p, func(f *flow) bool { return f.kind == "code" && len(f.codes) > 0 })
		if f == nil {
			return
		}
		code := f.codes[p.N(len(f.codes))]
		switch p.N(5) {
		case 0:
			w.redeem(f, others(f.c), code, f.verifier, f.redirect, "other-client", false)
		case 1:
			f.tainted = true
			w.redeem(f, f.c, code, strings.Repeat("w", 45), f.redirect, "bad-verifier", false)
		case 2:
			f.tainted = true
			l := append([]string{f.redirect + "/more", f.redirect + "?", strings.TrimSuffix(f.redirect, "b"), "https://evil.example.com/cb", ""}, f.c.rec.RedirectUris...)
			if x := l[p.N(len(l))]; x != f.redirect {
				w.redeem(f, f.c, code, f.verifier, x, "bad-redirect", false)
			}
		case 3:
			form := url.Values{"grant_type": {"authorization_code"}, "code": {code}, "code_verifier": {f.verifier}, "redirect_uri": {f.redirect}, "client_id": {f.c.id}}
			w.send("POST", issuer+"/token", nil, form, &intent{kind: "token.code", bad: "no-auth", f: f, code: code})
		case 4:
			// the assertion of another client beside a public client's name
			form := url.Values{"grant_type": {"authorization_code"}, "code": {code}, "code_verifier": {f.verifier}, "redirect_uri": {f.redirect}}
			if f.c == pub {
				return
			}
			w.send("POST", target("/token", url.Values{"client_id": {[]string{f.c.id, pub.id}[p.N(2)]}}), nil, form, &intent{kind: "token.code", bad: "no-auth", f: f, code: code})
		}
	case 1: // pushing for somebody else
		f := w.newFlow(p, -1, "code", w.clientsFor(p))
		f.direct = false
		switch p.N(7) {
		case 4:
			u := []string{issuer + "/token", issuer, issuer + "/pa", "http://" + rsHost + "/par", "https://" + asHost + "/par", issuer + "/par/x"}[p.N(6)]
			w.push(f, f.c, w.sign(f.c, w.request(f)), "proof-for-other-target", w.prove(f.c, []string{"POST", "GET"}[p.N(2)], u), true)
		case 5:
			w.push(f, f.c, w.sign(f.c, w.request(f)), "proof-for-other-method", w.prove(f.c, []string{"GET", "PUT", "post"}[p.N(3)], issuer+"/par"), true)
		case 6:
			ar := w.request(f)
			bad := w.spoil(p, f, ar)
			if p.N(3) > 0 {
				w.push(f, f.c, w.sign(f.c, ar), bad, "", true)
				return
			}
			f.tainted = true
			w.send("GET", target("/authorize", url.Values{"client_id": {f.c.id}, "request": {w.sign(f.c, ar)}}), basic(user, pass), nil, &intent{kind: "authorize", who: f.c, f: f, bad: bad})
		case 0:
			o := others(f.c)
			w.push(f, o, w.sign(o, w.request(f)), "other-client", "", true)
		case 1:
			w.push(f, f.c, w.sign(m, w.request(f)), "bad-signature", "", true)
		case 2:
			w.push(f, f.c, w.sign(f.c, w.request(f)), "no-proof", "", false)
		case 3:
			for _, t := range w.taken {
				if t.in.kind == "par" && t.in.proof != "" && w.used[t.in.proof] {
					w.push(f, t.in.who, w.sign(f.c, w.request(f)), "replayed-proof", t.in.proof, true)
					break
				}
			}
		}
	case 2: // authorizing without the user, or for somebody else
		f := w.pickFlow(p, func(f *flow) bool { return f.kind == "code" && (f.uri != "" || f.direct) && f.c.sdk != nil })
		if f == nil {
			return
		}
		in := &intent{kind: "authorize", who: f.c, f: f, uri: f.uri}
		switch p.N(4) {
		case 0:
			in.bad = "no-user"
			w.send("GET", w.authorizeURL(f, f.c), nil, nil, in)
		case 1:
			in.bad = "wrong-password"
			w.send("GET", w.authorizeURL(f, f.c), basic(user, []string{"world2", "", "World", "world\x00"}[p.N(4)]), nil, in)
		case 2:
			in.bad = "bad-signature"
			f.tainted = true
			ar := w.request(f)
			if p.N(2) == 0 && !f.direct {
				u := f.uri
				ar = &flowv1.AuthorizationRequest{RequestUri: &u}
			}
			w.send("GET", target("/authorize", url.Values{"client_id": {f.c.id}, "request": {w.sign(others(f.c), ar)}}), basic(user, pass), nil, in)
		case 3:
			in.bad = "other-client"
			f.tainted = true
			w.send("GET", w.authorizeURL(f, others(f.c)), basic(user, pass), nil, in)
		}
	case 3: // responses meant for somebody else
		f := w.pickFlow(p, func(f *flow) bool { return len(f.jarm) > 0 })
		c := w.clientsFor(p)
		if f == nil || c.sdk == nil || c == f.c {
			return
		}
		res, err := w.accept(c, f.jarm[p.N(len(f.jarm))])
		if err == nil && res.Error == nil {
			w.r.Fail("C33", "client:response-of-other", "client %s took the response sent to %s", c.name, f.c.name)
		}
	case 4: // devices
		f := w.pickFlow(p, func(f *flow) bool { return f.dev != "" })
		if f == nil {
			return
		}
		switch p.N(3) {
		case 0:
			w.poll(f, others(f.c), "other-client", false)
		case 1:
			w.send("POST", issuer+"/device", basic(user, "guess"), url.Values{"user_code": {f.uc}}, &intent{kind: "approve", bad: "wrong-password", f: f})
		case 2:
			f.tainted = true
			form := url.Values{"grant_type": {oidc.GrantTypeDeviceCode}, "device_code": {f.uc}}
			w.tokenReq(f.c, form, &intent{kind: "token.device", bad: "user-code", f: f, pop: w.bindAs(f.c, f.n)})
		}
	case 5: // refresh tokens
		t := w.pickTok(p, any_)
		if t == nil || t.f == nil {
			return
		}
		switch {
		case !t.refresh:
			w.refresh(t, t.c, popOf(t), "not-refresh")
		case t.c == pub && t.jkt != "" && p.N(2) == 0:
			w.refresh(t, t.c, []*keys.Key{nil, m.pop}[p.N(2)], "other-key")
		default:
			o := others(t.c)
			w.refresh(t, o, o.pop, "other-client")
		}
	case 6: // stolen tokens
		t := w.pickTok(p, access)
		if t == nil || w.rs.sdk == nil {
			return
		}
		k := popOf(t)
		switch p.N(6) {
		case 0:
			if k != nil {
				w.use(t, "Bearer", nil, "GET", "", "", "", "bound-as-bearer")
			} else {
				w.use(t, "DPoP", m.pop, "GET", rsURL, "GET", t.val, "unbound-as-dpop")
			}
		case 1:
			if k == m.pop {
				return
			}
			w.use(t, "DPoP", m.pop, "GET", rsURL, "GET", t.val, "other-key")
		case 2:
			if k != nil {
				w.use(t, "DPoP", k, "GET", []string{"http://" + rsHost + "/time", "http://" + rsHost + "/timestamp/x", "http://" + rsHost, "http://" + rsHost + "/other", "http://as.example.com/timestamp", "https://" + rsHost + "/timestamp"}[p.N(6)], "GET", t.val, "other-target")
			}
		case 3:
			if k != nil {
				w.use(t, "DPoP", k, "POST", rsURL, "GET", t.val, "other-method")
			}
		case 4:
			if k != nil {
				w.use(t, "DPoP", k, "GET", rsURL, "GET", []string{"", t.val + "x"}[p.N(2)], "other-token")
			}
		case 5:
			x := *t
			x.val, _ = keys.Damage(p, t.val)
			if w.byVal[x.val] == nil && !strings.ContainsAny(x.val, "\x00 \n") && x.val != "" {
				w.use(&x, "Bearer", nil, "GET", "", "", "", "altered-token")
			}
		}
	case 7: // revoking and introspecting as somebody else
		t := w.pickTok(p, any_)
		if t == nil {
			return
		}
		switch p.N(2) {
		case 0:
			w.revoke(t, others(t.c), "other-client")
		case 1:
			w.send("POST", issuer+"/token/introspect", nil, url.Values{"token": {t.val}}, &intent{kind: "introspect", bad: "no-auth", t: t})
		}
	}
}

// junk is a request without any sense.
func (w *world) junk(p plan) {
	paths := []string{"/par", "/authorize", "/token", "/token/introspect", "/token/revoke", "/device/authorize", "/device", "/keys", "/.well-known/oauth-authorization-server", "/nothing"}
	path := paths[p.N(len(paths))]
	method := []string{"POST", "GET", "PUT", "HEAD", "OPTIONS"}[p.N(5)]
	words := []string{"", "x", "client_credentials", "authorization_code", "refresh_token", oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange, "\xff\xfe", strings.Repeat("long", 600), "..", "null", "e30.e30.e30"}
	names := []string{"grant_type", "code", "token", "request", "client_id", "client_assertion", "client_assertion_type", "user_code", "device_code", "scope", "refresh_token"}
	q, form := url.Values{}, url.Values{}
	for n := p.N(5); n > 0; n-- {
		form.Add(names[p.N(len(names))], words[p.N(len(words))])
	}
	for n := p.N(3); n > 0; n-- {
		q.Add(names[p.N(len(names))], words[p.N(len(words))])
	}
	h := map[string]string{}
	if p.N(3) == 2 {
		h = basic(user, pass)
	}
	if p.N(3) == 2 {
		h["DPoP"] = words[8+p.N(4)]
	}
	c := []*cli{w.cs["client-m"], w.cs["client-p"], w.cs["client-t"]}[p.N(3)]
	auth := p.N(2) == 1
	in := &intent{kind: "junk", noise: true}
	if auth {
		if !w.auth(c, q, form) {
			return
		}
		in.who = c
	}
	if method == "GET" || method == "HEAD" {
		form = nil
	}
	w.send(method, target(path, q), h, form, in)
}

// finish: with faults gone, fresh attempts of everybody succeed.
func (w *world) finish() {
	p := plan{S: simrt.StMisc}
	w.client("finish", func() {
		simrt.Sleep(60 * second)
		w.connect(w.rs)
		if !w.must(w.rs.sdk != nil, nil, "connect", nil) {
			return
		}
		for n := 0; n < 2; n++ {
			switch p.N(6) {
			case 0, 1, 2:
				w.complete(w.newFlow(p, -2, "code", w.clientsFor(p)), 4)
			case 3:
				w.complete(w.newFlow(p, -2, "device", w.clientsFor(p)), 4)
			case 4:
				w.cc(w.cs["client-b"], false, nil)
			case 5:
				w.cc(w.cs["client-t"], true, nil)
			}
			if w.r.Broken() {
				return
			}
		}
	})
}

func (w *world) complete(f *flow, steps int) {
	w.connect(f.c)
	if !w.must(f.c.sdk != nil, f, "connect", nil) {
		return
	}
	for ; steps > 0 && len(f.got) == 0; steps-- {
		w.advance(f)
	}
	if !strings.Contains(f.scope, "openid") && f.kind == "code" {
		return
	}
	if !w.must(len(f.got) > 0, f, "flow", nil) {
		return
	}
	w.r.Notes["flow-completed"]++
	simrt.Sleep(4 * second)
	for _, t := range append([]*tok(nil), f.got...) {
		if t.refresh {
			w.refresh(t, f.c, popOf(t), "")
			continue
		}
		w.present(t)
	}
	t := f.got[len(f.got)-1]
	p := w.revoke(t, f.c, "")
	w.must(p != nil && p.status == 200, f, "revoke", p)
	if !t.refresh {
		w.present(t)
	}
}
