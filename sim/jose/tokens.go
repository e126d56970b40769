package jose

import (
	"context"
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"strings"

	cbor "github.com/fxamacker/cbor/v2"
	gojose "github.com/go-jose/go-jose/v4"
	rawjwt "github.com/go-jose/go-jose/v4/jwt"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

type builder struct {
	typ string
	mk  func(gojose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer
}

var builders = []builder{
	{"at+jwt", jwt.AccessTokenSigner}, {"rt+jwt", jwt.RefreshTokenSigner}, {"oauth-authz-req+jwt", jwt.RequestSigner},
	{"jarm+jwt", jwt.JARMSigner}, {"dpop+jwt", jwt.DPoPSigner}, {"client-assertion+jwt", jwt.ClientAssertionSigner},
	{"token-introspection+jwt", jwt.TokenIntrospection}, {"oauth-authorization-server+jwt", jwt.ServerMetadata},
}

func (w *world) claims(p kit.Plan) map[string]any {
	w.n++
	cl := map[string]any{"id": w.n}
	for _, f := range []string{"iss", "sub", "aud", "jti", "nonce", "x"} {
		if p.Pct(40) {
			continue
		}
		switch p.W([]int{5, 1, 1, 1, 1}) {
		case 0:
			cl[f] = p.Text()
		case 1:
			cl[f] = []any{p.Text(), p.Text()}
		case 2:
			cl[f] = map[string]any{"k": p.Text(), "n": 1.5, "z": nil}
		case 3:
			cl[f] = p.N(2) == 0
		case 4:
			cl[f] = p.N(1 << 30)
		}
	}
	return cl
}

// tokenStep signs with one of the builders, or verifies what is around.
func (w *world) tokenStep(p kit.Plan, node int) {
	r := w.r
	pi := p.N(len(w.parties))
	c := w.parties[pi]
	switch p.W([]int{5, 8, 2, 2}) {
	case 0:
		w.makeToken(p, node, pi)
	case 1:
		var l []*art
		for _, a := range w.net {
			if a.kind == "token" {
				l = append(l, a)
			}
		}
		if len(l) == 0 {
			a := w.makeToken(p, node, pi)
			if a == nil {
				return
			}
			l = append(l, a)
		}
		a := l[len(l)-1]
		if p.Pct(50) {
			a = l[p.N(len(l))]
		}
		v := 0
		for i, x := range w.parties {
			if x == a.by {
				v = i
			}
		}
		if p.Pct(20) {
			v = p.N(len(w.parties))
		}
		if p.Pct(25) {
			b := *a
			var h string
			b.raw, h = keys.Damage(p, a.raw)
			b.bad, b.how = true, "altered:"+h
			r.Fault("network-alteration")
			a = &b
		}
		w.verifyToken(p, node, v, a)
	case 2:
		// a hand-made token
		e, how := w.signKey(p, c)
		a := &art{kind: "token", how: how, by: c, key: e.key, kid: e.kid, alg: isSupported(e.key.Alg), cl: w.claims(p)}
		hd := map[string]any{"alg": string(e.key.Alg), "typ": "at+jwt", "kid": e.kid}
		a.typ = "at+jwt"
		if p.Pct(25) {
			delete(hd, "kid")
			a.kid = ""
		}
		switch p.W([]int{4, 2, 2, 2, 1}) {
		case 1:
			a.how, a.bad = "alg-none", true
			hd["alg"] = []string{"none", "None", ""}[p.N(3)]
		case 2:
			a.how, a.bad = "alg-hmac", true
			hd["alg"] = "HS256"
		case 3:
			x := all[p.N(len(all))]
			a.how, a.key, a.kid, a.alg = "embedded-key", x, x.Name, true
			hd["alg"], hd["jwk"], hd["kid"] = string(x.Alg), x.Pub, x.Name
			e.key = x
		case 4:
			a.how, a.maybe = "odd-header", true
			hd["kid"] = []any{7, nil, []string{e.kid}}[p.N(3)]
			a.typ = ""
			if p.Pct(50) {
				hd["typ"] = 7
			}
			a.kid = ""
		}
		a.raw = keys.Forge(hd, a.cl, e.key)
		r.Fault("hostile-token:" + a.how)
		w.verifyToken(p, node, pi, a)
	case 3:
		// a signer without a usable key, or claims that cannot be signed
		e, _ := w.signKey(p, c)
		b := builders[p.N(len(builders))]
		alg := e.key.Alg
		prov, what := w.sick(p, e)
		var cl any = w.claims(p)
		switch p.W([]int{6, 1, 1, 1, 1}) {
		case 1:
			prov, cl, what = w.provider(e), nil, "nil-claims"
		case 2:
			prov, cl, what = w.provider(e), map[string]any{"x": math.NaN()}, "nan"
		case 3:
			var m *struct{ A int }
			prov, cl, what = w.provider(e), m, "nil-pointer"
		case 4:
			// a key that does not fit the algorithm
			prov, what = w.provider(e), "wrong-algorithm"
			if alg == gojose.EdDSA {
				alg = gojose.ES256
			} else {
				alg = gojose.EdDSA
			}
		}
		s := b.mk(alg, prov)
		var raw string
		var err error
		o := r.Do("sign", node, func() { raw, err = s.Serialize(ctx, cl) })
		r.Logf("sign %s with %s: %v", b.typ, what, err == nil)
		w.refused("C25", "sign:"+what, o, raw, err)
	}
}

func (w *world) makeToken(p kit.Plan, node, pi int) *art {
	r := w.r
	c := w.parties[pi]
	e, how := w.signKey(p, c)
	b := builders[p.N(len(builders))]
	cl := w.claims(p)
	sl, e, how := w.hold(node, pi, e, how)
	var raw string
	var err error
	o := r.Do("sign", node, func() { raw, err = sl.ser[b.typ].Serialize(ctx, cl) })
	sl.release()
	r.Logf("%s signs a %s with %s (%s): %v", c.id, b.typ, e.key.Name, how, err == nil)
	if !w.made("C25", "sign", o, raw, err) {
		return nil
	}
	w.headerOK("C25", raw, b.typ, e)
	h := header(raw)
	if (h["jwk"] != nil) != (b.typ == "dpop+jwt") {
		r.Fail("C25", "embedded-key", "a %s token has the embedded key %v", b.typ, h["jwk"])
	}
	a := &art{kind: "token", how: how, by: c, key: e.key, kid: e.kid, raw: raw, alg: isSupported(e.key.Alg), typ: b.typ, cl: cl}
	w.net = append(w.net, a)
	return a
}

// verifyToken checks one token with the verifier of a party's key set.
func (w *world) verifyToken(p kit.Plan, node, v int, a *art) {
	r := w.r
	ver, c := w.ver[node][v], w.parties[v]
	var got map[string]any
	var err error
	o := r.Do("verify", node, func() { err = ver.Claims(ctx, a.raw, &got) })
	r.Logf("node %d verifies a token (%s) of %s with the keys of %s: %v", node, a.how, a.by.id, c.id, err == nil)
	if r.CheckPanic(o, "C25") {
		r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	could, must := c.could(o, a.key, a.kid)
	why := ""
	switch {
	case a.bad:
		why = a.how
	case !a.alg:
		why = "algorithm"
	case !could:
		why = "not a current key"
	}
	if err == nil {
		r.Notes["tokens-accepted"]++
		for _, f := range o.Faults {
			if strings.HasSuffix(f, ":keyset") {
				r.Fail("C25", "accepted-without-keys", "a token was accepted although the key set could not be read (%v)", o.Faults)
				r.Fail("C21", "accepted-without-keys:token", "a token was accepted although the key set could not be read (%v)", o.Faults)
			}
		}
		if why != "" {
			r.Fail("C25", "accepted:"+strings.SplitN(why, ":", 2)[0], "a token (%s, signed by %s under %q) verified under the keys of %s: %s", a.how, a.key.Name, a.kid, c.id, why)
			return
		}
		if !same(a.cl, got) {
			r.Fail("C25", "content", "signed %v, got %v", a.cl, got)
		}
	} else {
		r.Notes["tokens-refused"]++
		if len(got) != 0 && why != "" {
			r.Fail("C25", "claims-with-error", "verification failed (%v) but delivered claims %v", err, got)
		}
		if why == "" && !a.maybe && must && o.Clean() {
			r.Fail("C25", "rightful-refused", "a token (%s) of %s signed by %s under %q was refused: %v", a.how, c.id, a.key.Name, a.kid, err)
		}
	}
	// what can be read without a key
	var t token.Token
	var perr error
	o = r.Do("parse", node, func() { t, perr = ver.Parse(a.raw) })
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if (perr == nil) == (t == nil) {
		r.Fail("C25", "parse", "parsing returned %v and %v", t, perr)
		return
	}
	var verr error
	o = r.Do("verify.syntax", node, func() { verr = ver.Verify(a.raw) })
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if (verr == nil) != (perr == nil) {
		r.Fail("C25", "parse-verify", "Parse says %v, Verify says %v", perr, verr)
	}
	if t == nil {
		if !a.bad && !a.maybe && a.alg && !strings.HasPrefix(a.how, "altered") {
			r.Fail("C25", "parse-refused", "a genuine token was not parsed: %v", perr)
		}
		return
	}
	var typ, kid, alg, th string
	var e1, e2, e3, e4, e5 error
	var pk any
	o = r.Do("inspect", node, func() {
		typ, e1 = t.Type()
		kid, e2 = t.KeyID()
		alg, e3 = t.Algorithm()
		pk, e4 = t.PublicKey()
		th, e5 = t.PublicKeyThumbPrint()
	})
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if a.bad || a.maybe {
		return
	}
	if e1 != nil || typ != a.typ || e2 != nil || kid != a.kid || e3 != nil || alg != string(a.key.Alg) {
		r.Fail("C25", "inspect", "type %q (%v), key identifier %q (%v), algorithm %q (%v); signed %s %q %s", typ, e1, kid, e2, alg, e3, a.typ, a.kid, a.key.Alg)
	}
	embedded := a.typ == "dpop+jwt" || a.how == "embedded-key"
	if embedded {
		if e5 != nil || th != a.key.Thumb {
			r.Fail("C25", "thumbprint", "thumbprint %q (%v) of the embedded key, not %q", th, e5, a.key.Thumb)
		}
		if e4 != nil || pk == nil {
			r.Fail("C25", "public-key", "no embedded key: %v", e4)
		}
	} else if e5 == nil {
		r.Fail("C25", "thumbprint-of-nothing", "a token without embedded key has the thumbprint %q", th)
	}
	// against one given key
	k := all[p.N(len(all))]
	if p.Pct(50) {
		k = a.key
	}
	var cerr error
	var cl map[string]any
	o = r.Do("token.claims", node, func() { cerr = t.Claims(k.Pub.Key, &cl) })
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if (cerr == nil) != (k == a.key) {
		r.Fail("C25", "claims-by-key", "signed by %s, checked with %s: %v", a.key.Name, k.Name, cerr)
	} else if cerr == nil && !same(cl, a.cl) {
		r.Fail("C25", "content", "signed %v, got %v", a.cl, cl)
	}
	w.bySet(p, node, a)
}

// bySet checks a token against an explicit key set, through the helpers of the
// key package.
func (w *world) bySet(p kit.Plan, node int, a *art) {
	r := w.r
	var set *gojose.JSONWebKeySet
	could, what := false, ""
	if !p.Pct(5) {
		set = &gojose.JSONWebKeySet{}
		n := p.N(4)
		if p.Pct(15) {
			n += p.N(24)
		}
		own := []int{40, 40, 0}[p.N(3)]
		for i := 0; i < n; i++ {
			k := all[p.N(len(all))]
			if own == 0 && k == a.key {
				k = p384
			}
			if p.Pct(own) {
				k = a.key
			}
			e := k.Pub
			switch p.N(5) {
			case 0:
				e.Use = "enc"
			case 1:
				e.Use = ""
			case 2:
				e.KeyID = a.kid
			}
			if k == a.key && e.Use != "enc" {
				could = true
			}
			set.Keys = append(set.Keys, e)
			what += fmt.Sprintf(" %s/%s/%s", k.Name, e.KeyID, e.Use)
		}
	}
	tok, err := rawjwt.ParseSigned(a.raw, []gojose.SignatureAlgorithm{a.key.Alg})
	if err != nil {
		return
	}
	if p.Pct(5) {
		tok, could = nil, false
	}
	var cl map[string]any
	o := r.Do("jwk.ValidateToken", node, func() { err = jwk.ValidateToken(set, tok, &cl) })
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if (err == nil) != could {
		r.Fail("C25", "validate-token", "a token signed by %s, validated with the key set%s: %v", a.key.Name, what, err)
	} else if could && !same(cl, a.cl) {
		r.Fail("C25", "content", "signed %v, got %v", a.cl, cl)
	}
	sig, err := gojose.ParseSigned(a.raw, []gojose.SignatureAlgorithm{a.key.Alg})
	if err != nil {
		return
	}
	if tok == nil {
		sig = nil
	}
	o = r.Do("jwk.ValidateSignature", node, func() { err = jwk.ValidateSignature(set, sig) })
	if r.CheckPanic(o, "C25") || o.Crashed {
		return
	}
	if (err == nil) != could {
		r.Fail("C25", "validate-signature", "a token signed by %s, validated with the key set%s: %v", a.key.Name, what, err)
	}
}

// ---------------------------------------------------------------------------
// token generators

func urlish(s string) int { // 1 certainly a URL, 0 certainly not, -1 open
	switch s {
	case "https://as.example.com", "https://as.example.com/token", "https://a.example:8443/x?y=1":
		return 1
	case "", "not a url", "client", "https://", "http//x y":
		return 0
	}
	return -1
}

// generatorStep gives records with missing or inconsistent metadata to the
// token generators, and good ones.
func (w *world) generatorStep(p kit.Plan, node int) {
	r := w.r
	e, _ := w.signKey(p, w.servers[0])
	for e.key.Alg == gojose.ES512 {
		e = entry{all[0], "k", "sig"}
	}
	now := simrt.ClockOf(node) / second
	kind := p.N(4)
	life := []int64{2 * 3600, 14 * 86400, 2 * 3600, 1 << 40}[kind]
	prov := w.provider(e)
	var g token.Generator
	var typ string
	var ser token.Serializer
	switch kind {
	case 0:
		ser, typ = jwt.AccessTokenSigner(e.key.Alg, prov), "at+jwt"
	case 1:
		ser, typ = jwt.RefreshTokenSigner(e.key.Alg, prov), "rt+jwt"
	case 2:
		ser, typ = jwt.ClientAssertionSigner(e.key.Alg, prov), "client-assertion+jwt"
	case 3:
		ser, typ = jwt.TokenIntrospection(e.key.Alg, prov), "token-introspection+jwt"
	}
	inner := ser
	wrapped := 0
	if p.Pct(15) {
		wrapped = 1 + p.N(4)
		enc := &box{}
		switch wrapped {
		case 1:
			ser = token.Encryption(ser, enc)
		case 2:
			ser = token.Encryption(nil, enc)
		case 3:
			ser = token.Encryption(ser, nil)
		case 4:
			enc.err = fmt.Errorf("no encryption")
			ser = token.Encryption(ser, enc)
		}
	}
	_ = inner
	if p.Pct(3) {
		ser, wrapped = nil, 5
	}
	mk := []func(token.Serializer) token.Generator{token.AccessToken, token.RefreshToken, token.ClientAssertion, token.Introspection}
	g = mk[kind](ser)
	w.n++
	iat := now - p.S64(3)
	m := &tokenv1.TokenMeta{Issuer: "https://as.example.com", Subject: "alice", Audience: "https://a.example:8443/x?y=1", ClientId: "client-a", Scope: "openid profile", IssuedAt: uint64(iat), NotBefore: uint64(iat + p.S64(2)), ExpiresAt: uint64(iat + []int64{60, 3600, life, 2}[p.N(4)])}
	if kind == 3 {
		m.ExpiresAt = uint64(iat + 60)
	}
	if kind == 2 {
		m.Issuer, m.Subject = "client-a", "client-a"
	}
	t := &tokenv1.Token{TokenId: fmt.Sprintf("id-%d", w.n), TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: m}
	if p.Pct(40) {
		t.Confirmation = &tokenv1.TokenConfirmation{Jkt: all[p.N(len(all))].Thumb}
	}
	what := "good"
	if p.Pct(60) {
		what = "mutated"
		for n := 1 + p.N(2); n > 0; n-- {
			switch p.N(10) {
			case 0:
				m.Audience = []string{"", "aud", "not a url", "a\x01", "é"}[p.N(5)]
			case 1:
				m.Issuer = []string{"", "not a url", "client-b", "\x01"}[p.N(4)]
			case 2:
				m.Subject = []string{"", "bob", "\x00", "é"}[p.N(4)]
			case 3:
				m.ClientId = []string{"", "\n"}[p.N(2)]
			case 4:
				m.Scope = []string{"", "\x7f"}[p.N(2)]
			case 5:
				m.IssuedAt = []uint64{0, uint64(now + 5), uint64(now + 86400), 1, 1 << 63}[p.N(5)]
			case 6:
				m.NotBefore = []uint64{0, m.IssuedAt - 1, m.ExpiresAt + 1, m.ExpiresAt, 1}[p.N(5)]
			case 7:
				m.ExpiresAt = []uint64{0, m.IssuedAt - 1, m.IssuedAt + uint64(life) + 1, 1 << 50, m.IssuedAt}[p.N(5)]
			case 8:
				t.TokenId = ""
			case 9:
				t.Status = tokenv1.TokenStatus(p.N(5))
			}
		}
	}
	switch p.W([]int{30, 1, 1}) {
	case 1:
		t, what = nil, "nil-token"
	case 2:
		t.Metadata, what = nil, "nil-metadata"
	}
	before := proto.Clone(t)
	var raw string
	var err error
	o := r.Do("generate:"+typ, node, func() { raw, err = g.Generate(ctx, t) })
	r.Logf("node %d generates a %s (%s, wrapped %d): %v", node, typ, what, wrapped, err == nil)
	if r.CheckPanic(o, "C25") {
		r.CheckPanic(o, "C21")
		return
	}
	if o.Crashed {
		return
	}
	if t != nil && !proto.Equal(before, t) {
		r.Fail("C25", "generator-changes-record", "the generator changed the record it was given")
	}
	if err != nil && raw != "" {
		r.Fail("C25", "token-with-error:generate", "%s failed (%v) but returned %q", typ, err, raw)
		r.Fail("C21", "token-with-error:generate", "%s failed (%v) but returned %q", typ, err, raw)
	}
	// the reference: must it be refused, must it be generated?
	bad, open := "", false
	note := func(c bool, s string) {
		if c && bad == "" {
			bad = s
		}
	}
	if wrapped > 1 {
		bad = "no serializer or encrypter"
	}
	switch {
	case t == nil:
		note(true, "nil token")
	case t.Metadata == nil:
		note(true, "nil metadata")
	case kind != 3:
		nmin, nmax := o.NMin/second, o.NMax/second
		m := t.Metadata
		note(t.TokenId == "", "token id")
		note(m.Audience == "", "audience")
		note(m.Issuer == "", "issuer")
		note(m.Subject == "", "subject")
		note(m.IssuedAt == 0, "issued-at")
		note(m.ExpiresAt == 0, "expires-at")
		note(m.IssuedAt > uint64(nmax), "issued in the future")
		open = open || m.IssuedAt > uint64(nmin)
		note(m.ExpiresAt < m.IssuedAt, "expires before issued")
		note(m.ExpiresAt > m.IssuedAt && m.ExpiresAt-m.IssuedAt > uint64(life), "lives too long")
		if kind == 2 {
			note(m.Subject != m.Issuer, "subject differs from issuer")
			switch urlish(m.Audience) {
			case -1:
				open = true
			case 0:
				note(true, "audience is not a URL")
			}
		} else {
			note(m.ClientId == "", "client")
			note(m.Scope == "", "scope")
			note(m.NotBefore == 0, "not-before")
			note(m.NotBefore < m.IssuedAt, "valid before issued")
			note(m.NotBefore > m.ExpiresAt, "valid after expiry")
			switch urlish(m.Issuer) {
			case -1:
				open = true
			case 0:
				note(true, "issuer is not a URL")
			}
		}
		for _, s := range []string{m.Audience, m.Issuer, m.Subject, m.ClientId, m.Scope} {
			for _, c := range s {
				if c < 32 || c > 126 {
					open = true
				}
			}
		}
	}
	if err == nil && bad != "" {
		r.Fail("C25", "generated:"+typ+":"+bad, "a %s was generated from a record that should be refused (%s): %v", typ, bad, t)
		return
	}
	if err != nil {
		if bad == "" && !open && o.Clean() {
			r.Fail("C25", "refused:"+typ, "a %s was refused for a good record %v: %v", typ, t, err)
		}
		return
	}
	if raw == "" {
		r.Fail("C25", "empty:generate", "%s: no value and no error", typ)
		return
	}
	r.Notes["generated-judged"]++
	if wrapped == 1 {
		if !strings.HasPrefix(raw, "box(JWT|") {
			r.Fail("C25", "not-encrypted", "the decorated serializer returned %q", raw)
			return
		}
		raw = strings.TrimSuffix(strings.TrimPrefix(raw, "box(JWT|"), ")")
	}
	w.headerOK("C25", raw, typ, e)
	var cl map[string]any
	ver := jwt.DefaultVerifier(func(context.Context) (*gojose.JSONWebKeySet, error) {
		return &gojose.JSONWebKeySet{Keys: []gojose.JSONWebKey{e.pub()}}, nil
	}, supported)
	if e.use == "enc" {
		return
	}
	verr := ver.Claims(ctx, raw, &cl)
	if verr != nil {
		r.Fail("C25", "generated-unverifiable", "a generated %s does not verify: %v", typ, verr)
		return
	}
	m = t.Metadata
	want := map[string]any{}
	put := func(k string, v any) {
		if !reflect.ValueOf(v).IsZero() {
			want[k] = v
		}
	}
	if kind == 3 {
		iat, _ := cl["iat"].(float64)
		if int64(iat) < o.NMin/second || int64(iat) > o.NMax/second {
			r.Fail("C25", "introspection-time", "issued at %v, signed at %d..%d", iat, o.NMin/second, o.NMax/second)
		}
		in, _ := cl["token_introspection"].(map[string]any)
		act, _ := in["active"].(bool)
		st := t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		could := st && m.ExpiresAt >= uint64(o.NMin/second) && m.NotBefore <= uint64(o.NMax/second)
		must := st && m.ExpiresAt >= uint64(o.NMax/second) && m.NotBefore <= uint64(o.NMin/second)
		if act && !could || !act && must {
			r.Fail("C25", "introspection-active", "active=%v for %v at %d..%d", act, t, o.NMin/second, o.NMax/second)
			r.Fail("C09", "introspection-active", "active=%v for %v at %d..%d", act, t, o.NMin/second, o.NMax/second)
		}
		if !act && len(in) != 1 {
			r.Fail("C25", "introspection-reveals", "an inactive token's metadata is revealed: %v", in)
			r.Fail("C09", "introspection-reveals", "an inactive token's metadata is revealed: %v", in)
		}
		if act {
			w2 := map[string]any{"active": true, "iss": m.Issuer, "aud": m.Audience, "iat": m.IssuedAt, "exp": m.ExpiresAt, "client_id": m.ClientId, "scope": m.Scope, "sub": m.Subject, "jti": t.TokenId}
			if !same(w2, in) {
				r.Fail("C25", "content:"+typ, "record %v, claims %v", t, in)
			}
		}
		return
	}
	put("iss", m.Issuer)
	put("sub", m.Subject)
	put("aud", m.Audience)
	put("exp", m.ExpiresAt)
	put("nbf", m.NotBefore)
	put("iat", m.IssuedAt)
	put("jti", t.TokenId)
	if kind != 2 {
		put("client_id", m.ClientId)
		put("scope", m.Scope)
		if t.Confirmation != nil {
			want["cnf"] = map[string]any{"jkt": t.Confirmation.Jkt}
		}
	}
	if !same(want, cl) {
		r.Fail("C25", "content:"+typ, "record %v, claims %v", t, cl)
	}
}

// box stands for an encrypter.
type box struct{ err error }

func (b *box) Encrypt(_ context.Context, ct, tok string, aad []byte) (string, error) {
	if b.err != nil {
		return "", b.err
	}
	if string(aad) == "" {
		return "", fmt.Errorf("no additional data")
	}
	return "box(" + ct + "|" + tok + ")", nil
}

// ---------------------------------------------------------------------------
// CBOR tokens

var cbuilders = []struct {
	typ string
	mk  func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer
}{
	{"at+cwt", cwt.AccessTokenSigner}, {"rt+cwt", cwt.RefreshTokenSigner}, {"oauth-authz-req+cwt", cwt.RequestSigner},
	{"jarm+cwt", cwt.JARMSigner}, {"dpop+cwt", cwt.DPoPSigner}, {"client-assertion+cwt", cwt.ClientAssertionSigner},
	{"token-introspection+cwt", cwt.TokenIntrospection},
}

func (w *world) cwtStep(p kit.Plan, node int) {
	r := w.r
	k := p256[p.N(len(p256))]
	alg := cose.ES256
	if p.Pct(20) {
		k, alg = p384, cose.ES384
	}
	e := entry{k, k.Name, "sig"}
	b := cbuilders[p.N(len(cbuilders))]
	var cl any = map[string]any{"iss": p.Text(), "n": w.n}
	prov := w.provider(e)
	bad := ""
	switch p.W([]int{6, 4, 1, 1}) {
	case 1:
		prov, bad = w.sick(p, e)
	case 2:
		cl, bad = nil, "nil-claims"
	case 3:
		alg, bad = nil, "nil-algorithm"
	}
	s := b.mk(alg, prov)
	var raw string
	var err error
	o := r.Do("cwt.sign", node, func() { raw, err = s.Serialize(ctx, cl) })
	r.Logf("node %d signs a %s (%s): %v", node, b.typ, bad, err == nil)
	if bad != "" {
		w.refused("C25", "cwt:"+bad, o, raw, err)
		return
	}
	if !w.made("C25", "cwt", o, raw, err) {
		return
	}
	by, err := base64.RawURLEncoding.DecodeString(raw)
	if err != nil {
		r.Fail("C25", "cwt-encoding", "%v", err)
		return
	}
	m := cose.NewSignMessage()
	if err := m.UnmarshalCBOR(by); err != nil {
		r.Fail("C25", "cwt-encoding", "%v", err)
		return
	}
	if len(m.Signatures) != 1 {
		r.Fail("C25", "cwt-signatures", "%d signatures", len(m.Signatures))
		return
	}
	if err := m.Verify([]byte("solid"), []cose.Verifier{{PublicKey: k.Pub.Key, Alg: alg}}); err != nil {
		r.Fail("C25", "cwt-unverifiable", "a signed CBOR token does not verify: %v", err)
	}
	if t := m.Signatures[0].Headers.Protected["typ"]; t != b.typ {
		r.Fail("C25", "type-header-cwt", "type header is %v, not %s", t, b.typ)
	}
	var got map[string]any
	if err := cbor.Unmarshal(m.Payload, &got); err != nil || !same(got, cl.(map[string]any)) {
		r.Fail("C25", "content-cwt", "signed %v, got %v (%v)", cl, got, err)
	}
	r.Notes["cwt-judged"]++
}
