package race

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/simrt"

	"github.com/go-jose/go-jose/v4"
)

func now() int64 { return simrt.NowNanos() / int64(time.Second) }

func (a *agent) cnf() *tokenv1.TokenConfirmation {
	if a.p.N(3) == 2 {
		return &tokenv1.TokenConfirmation{Jkt: dpopKey.Thumb}
	}
	return nil
}

// do executes one operation and tells whether it succeeded.
func (a *agent) do(k int) bool {
	w, p := a.w, a.p
	switch opNames[k] {
	case "authorize":
		c := a.client()
		res, err := w.authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Client: c, Subject: "alice", Request: a.request(c)})
		a.use(res)
		w.put(bCode, res.GetCode())
		return err == nil
	case "push":
		c := a.client()
		res, err := w.authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: issuer, Client: c, Request: a.request(c)})
		a.use(res)
		w.put(bURI, res.GetRequestUri())
		return err == nil
	case "authorize-uri":
		res, err := w.authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Client: a.client(), Subject: "alice", Request: &flowv1.AuthorizationRequest{RequestUri: proto.String(w.take(a, bURI))}})
		a.use(res)
		w.put(bCode, res.GetCode())
		return err == nil
	case "redeem":
		return a.tokens(w.tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: a.client(), GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: a.cnf(),
			Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: w.take(a, bCode), RedirectUri: "https://rp.example/cb", CodeVerifier: verifierText}}}))
	case "client-credentials":
		q := &flowv1.TokenRequest{Issuer: issuer, Client: a.client(), GrantType: oidc.GrantTypeClientCredentials, TokenConfirmation: a.cnf(), Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}
		if p.N(2) == 0 {
			q.Scope, q.Audience = proto.String("read"), proto.String("urn:api")
		}
		return a.tokens(w.tok.Token(ctx, q))
	case "refresh":
		return a.tokens(w.tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: a.client(), GrantType: oidc.GrantTypeRefreshToken, TokenConfirmation: a.cnf(),
			Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: w.take(a, bToken)}}}))
	case "exchange":
		return a.tokens(w.tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: a.client(), GrantType: oidc.GrantTypeTokenExchange, TokenConfirmation: a.cnf(),
			Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: w.take(a, bToken), SubjectTokenType: oidc.TokenExchangeAccessTokenType}}}))
	case "device-start":
		res, err := w.dev.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: clientID, Scope: proto.String("openid offline_access"), Audience: proto.String("urn:api")})
		a.use(res)
		w.put(bUser, res.GetUserCode())
		w.put(bDevice, res.GetDeviceCode())
		return err == nil
	case "device-approve":
		res, err := w.dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: w.take(a, bUser), Subject: "alice"})
		a.use(res)
		return err == nil
	case "device-poll":
		return a.tokens(w.tok.Token(ctx, &flowv1.TokenRequest{Issuer: issuer, Client: a.client(), GrantType: oidc.GrantTypeDeviceCode, TokenConfirmation: a.cnf(),
			Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: w.take(a, bDevice), ClientId: clientID}}}))
	case "introspect":
		res, err := w.tok.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: a.client(), Token: w.take(a, bToken)})
		a.use(res)
		return err == nil
	case "revoke":
		res, err := w.tok.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: a.client(), Token: w.take(a, bToken)})
		a.use(res)
		return err == nil

	case "client-store":
		switch p.N(3) {
		case 0:
			c := &clientv1.Client{ClientName: fmt.Sprintf("name-%d", p.N(3)), GrantTypes: []string{"a", "b"}}
			id, err := w.clients.Register(ctx, c)
			w.put(bClient, id)
			c.ClientName, c.GrantTypes[0] = "changed", "changed"
			return err == nil
		case 1:
			c, err := w.clients.Get(ctx, w.take(a, bClient))
			a.mine(c)
			return err == nil
		}
		c, err := w.clients.GetByName(ctx, fmt.Sprintf("name-%d", p.N(3)))
		a.mine(c)
		return err == nil
	case "request-store":
		id := fmt.Sprintf("uri-%d", p.N(2))
		var err error
		switch p.N(3) {
		case 0:
			q := &flowv1.AuthorizationRequest{ClientId: "c", State: "s", ResponseMode: proto.String("query")}
			_, err = w.ar.Register(ctx, issuer, id, q)
			q.State, *q.ResponseMode = "changed", "changed"
		case 1:
			var q *flowv1.AuthorizationRequest
			q, err = w.ar.Get(ctx, issuer, id)
			a.mine(q)
		default:
			err = w.ar.Delete(ctx, issuer, id)
		}
		return err == nil
	case "code-store":
		id := fmt.Sprintf("code-%d", p.N(2))
		var err error
		switch p.N(3) {
		case 0:
			q := &sessionv1.AuthorizationCodeSession{Subject: "s", Issuer: issuer, Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.AuthorizationRequest{State: "x"}}
			_, err = w.codes.Register(ctx, issuer, id, q)
			q.Subject, q.Request.State, q.Client.ClientId = "changed", "changed", "changed"
		case 1:
			var q *sessionv1.AuthorizationCodeSession
			q, err = w.codes.Get(ctx, issuer, id)
			a.mine(q)
		default:
			err = w.codes.Delete(ctx, issuer, id)
		}
		return err == nil
	case "device-store":
		n := p.N(2)
		uc, dc := fmt.Sprintf("uc-%d", n), fmt.Sprintf("dc-%d", n)
		var err error
		switch p.N(6) {
		case 0:
			q := &sessionv1.DeviceCodeSession{Issuer: issuer, DeviceCode: dc, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, Client: &clientv1.Client{ClientId: "c"}}
			_, err = w.devs.Register(ctx, issuer, uc, q)
			q.Issuer, q.Client.ClientId, q.Subject = "changed", "changed", proto.String("x")
		case 1:
			var q *sessionv1.DeviceCodeSession
			q, err = w.devs.GetByUserCode(ctx, issuer, uc)
			a.mine(q)
		case 2:
			var q *sessionv1.DeviceCodeSession
			q, err = w.devs.GetByDeviceCode(ctx, issuer, dc)
			a.mine(q)
		case 3:
			q := &sessionv1.DeviceCodeSession{Issuer: issuer, DeviceCode: dc, Subject: proto.String("me"), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED}
			err = w.devs.Validate(ctx, issuer, uc, q)
			*q.Subject = "changed"
		case 4:
			err = w.devs.Delete(ctx, issuer, uc)
		default:
			if c, ok := w.devs.(storage.DeviceCodeSessionConsumer); ok {
				err = c.Consume(ctx, issuer, dc)
			}
		}
		return err == nil
	case "token-store":
		n := p.N(2)
		id, v := fmt.Sprintf("id-%d", n), fmt.Sprintf("value-%d", n)
		var err error
		switch p.N(6) {
		case 0, 1:
			t := &tokenv1.Token{TokenId: id, Value: v, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: "s"}, Confirmation: &tokenv1.TokenConfirmation{Jkt: "k"}}
			err = w.toks.Create(ctx, issuer, t)
			t.Status, t.Metadata.Subject, t.Confirmation.Jkt = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "changed", "changed"
		case 2:
			var t *tokenv1.Token
			t, err = w.toks.Get(ctx, issuer, id)
			a.mine(t)
		case 3:
			var t *tokenv1.Token
			t, err = w.toks.GetByValue(ctx, issuer, v)
			a.mine(t)
		case 4:
			err = w.toks.Revoke(ctx, issuer, id)
		default:
			err = w.toks.Delete(ctx, issuer, id)
		}
		return err == nil
	case "proof-store":
		id := fmt.Sprintf("proof-%d", p.N(2))
		var err error
		switch p.N(3) {
		case 0:
			err = w.proofs.Register(ctx, id)
		case 1:
			_, err = w.proofs.Exists(ctx, id)
		default:
			err = w.proofs.Delete(ctx, id)
		}
		return err == nil
	case "resource-store":
		q, err := w.res.GetByURI(ctx, []string{"urn:example:backend-api", "urn:example:cooperation-context", "urn:x"}[p.N(3)])
		a.mine(q)
		return err == nil

	case "dpop-prove":
		v, err := w.prover.Prove("POST", issuer+"/token", dpop.WithTokenValue("access"))
		w.put(bProof, v)
		return err == nil
	case "dpop-verify":
		_, err := w.verifier.Verify(ctx, "POST", issuer+"/token", w.take(a, bProof), dpop.WithTokenValue("access"), dpop.WithTokenConfirmation(dpopKey.Thumb))
		return err == nil
	case "assertion":
		var v string
		var err error
		if p.N(2) == 0 {
			v, err = w.cl.Assertion()
		} else {
			v, err = w.assert.Generate(ctx, &tokenv1.Token{TokenId: a.uniq("jti"), Metadata: &tokenv1.TokenMeta{Issuer: clientID, Subject: clientID, Audience: "https://api.example.com", IssuedAt: uint64(now()), ExpiresAt: uint64(now() + 60)}})
		}
		w.put(bAssertion, v)
		return err == nil
	case "private-key-jwt":
		v := w.take(a, bAssertion)
		res, err := w.pkj.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: proto.String(oidc.AssertionTypeJWTBearer), ClientAssertion: &v})
		a.use(res)
		return err == nil
	case "attestation":
		t := now()
		av := keys.Forge(map[string]any{"alg": "ES384", "typ": "jwt", "kid": cliKey.Priv.KeyID}, map[string]any{"iss": clientID, "sub": attested, "exp": t + 60, "nbf": t - 1, "iat": t, "jti": a.uniq("a"), "cnf": map[string]any{"jwk": dpopKey.Pub}}, cliKey)
		pv := keys.Forge(map[string]any{"alg": "EdDSA", "typ": "jwt"}, map[string]any{"iss": attested, "aud": issuer, "exp": t + 60, "nbf": t - 1, "iat": t, "jti": a.uniq("p")}, dpopKey)
		v := av + "~" + pv
		res, err := w.att.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: proto.String(oidc.AssertionTypeJWTClientAttestation), ClientAssertion: &v})
		a.use(res)
		return err == nil
	case "jarm-encode":
		v, err := w.jenc.Encode(ctx, issuer, &flowv1.AuthorizeResponse{Issuer: issuer, ClientId: clientID, Code: a.uniq("code"), State: "s", ExpiresIn: 60})
		w.put(bJARM, v)
		return err == nil
	case "jarm-decode":
		res, err := w.jdec.Decode(ctx, clientID, w.take(a, bJARM))
		a.use(res)
		return err == nil
	case "request-encode":
		v, err := w.renc.Encode(ctx, a.request(w.shared[0]))
		w.put(bRequest, v)
		return err == nil
	case "request-decode":
		res, err := w.rdec.Decode(ctx, w.take(a, bRequest))
		a.use(res)
		return err == nil
	case "token-generate":
		v, err := w.access[p.N(len(w.access))].Generate(ctx, &tokenv1.Token{TokenId: a.uniq("tok"), Issuer: issuer, Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", Audience: "urn:api", ClientId: clientID, Scope: "openid", IssuedAt: uint64(now()), NotBefore: uint64(now()), ExpiresAt: uint64(now() + 60)}})
		w.put(bJWT, v)
		return err == nil
	case "token-verify":
		v := w.take(a, bJWT)
		if p.N(2) == 0 {
			return w.ver.Verify(v) == nil
		}
		var c map[string]any
		t, err := w.ver.Parse(v)
		if err == nil && t != nil {
			_, _ = t.Algorithm()
			_, _ = t.Type()
			_, _ = t.KeyID()
		}
		err = w.ver.Claims(ctx, v, &c)
		return err == nil
	case "introspection-sign":
		_, err := w.intro.Generate(ctx, &tokenv1.Token{TokenId: a.uniq("tok"), Issuer: issuer, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", Audience: "urn:api", ClientId: clientID, Scope: "openid", IssuedAt: uint64(now()), NotBefore: uint64(now()), ExpiresAt: uint64(now() + 60)}})
		return err == nil
	case "verifiable-generate":
		var opts []verifiable.GenerateOption
		if p.N(2) == 0 {
			opts = append(opts, verifiable.WithTokenPrefix("pfx"))
		}
		v, err := w.vgen.Generate(opts...)
		w.put(bVerifiable, v)
		return err == nil
	case "verifiable-verify":
		v := w.take(a, bVerifiable)
		if p.N(2) == 0 {
			return w.vver.Verify(v) == nil
		}
		_, err := w.vver.Extract(v)
		return err == nil
	case "locked-rand":
		switch p.N(10) {
		case 0:
			a.sum += w.lr.Intn(100)
		case 1:
			a.sum += len(w.lr.Perm(5))
		case 2:
			w.lr.Shuffle(4, func(i, j int) { a.sum += i - j })
		case 3:
			var b [17]byte
			_, _ = w.lr.Read(b[:])
		case 4:
			w.lr.Seed(int64(p.N(3)))
		case 5:
			a.sum += int(w.lr.Int63n(1000) + int64(w.lr.Int31n(10)))
		case 6:
			a.sum += int(w.lr.Float64()*10) + int(w.lr.NormFloat64()) + int(w.lr.ExpFloat64()) + int(w.lr.Float32())
		case 7:
			a.sum += int(w.lr.Uint32()) + int(w.lr.Uint64()>>60) + w.lr.Int() + int(w.lr.Int31()) + int(w.lr.Int63())
		default:
			var b [9]byte
			_, _ = w.rd.Read(b[:])
		}
		return true
	case "global-rand":
		switch p.N(6) {
		case 0:
			a.sum += randomness.Intn(100) + len(randomness.Perm(5))
		case 1:
			randomness.Shuffle(4, func(i, j int) { a.sum += i - j })
		case 2:
			var b [17]byte
			_, _ = randomness.Reader.Read(b[:])
		case 3:
			a.sum += int(randomness.Int63n(1000)+int64(randomness.Int31n(10))) + int(randomness.Float64()*10)
		case 4:
			a.sum += int(randomness.NormFloat64()) + int(randomness.ExpFloat64()) + int(randomness.Float32())
		default:
			a.sum += int(randomness.Uint32()) + int(randomness.Uint64()>>60) + randomness.Int() + int(randomness.Int31()) + int(randomness.Int63())
		}
		return true
	case "pairwise":
		v, err := w.pair.Encode("https://sector.example", fmt.Sprintf("subject-%d", p.N(3)))
		a.sum += len(v)
		return err == nil
	case "profile":
		c, ok := w.prof.ApplicationType([]string{"service", "web", "browser", "native", "device", "x"}[p.N(6)])
		if ok {
			for _, l := range []types.StringArray{c.GrantTypesSupported(), c.TokenEndpointAuthMethodsSupported(), c.ResponseTypesSupported(), c.DefaultScopes()} {
				for _, s := range l {
					a.sum += len(s)
				}
				a.sum += len(l)
				if l.Contains("code") {
					a.sum++
				}
			}
		}
		return ok
	case "pkce":
		v, c, err := pkce.CodeVerifier()
		if err != nil {
			return false
		}
		ok, err := pkce.Validate(c, v)
		return ok && err == nil
	case "generators":
		var err error
		var v string
		switch p.N(5) {
		case 0:
			if v, err = w.authCode.Generate(ctx, issuer); err == nil {
				err = w.authCode.Validate(ctx, issuer, v)
			}
		case 1:
			if v, err = w.reqURI.Generate(ctx, issuer); err == nil {
				err = w.reqURI.Validate(ctx, issuer, v)
			}
		case 2:
			_, err = w.userCode.Generate(ctx, issuer)
		case 3:
			if v, err = w.devCode.Generate(ctx, issuer); err == nil {
				err = w.devCode.Validate(ctx, issuer, v)
			}
		default:
			_, err = generator.DefaultClientID().Generate(ctx)
		}
		return err == nil
	case "http-client":
		switch p.N(4) {
		case 0, 1:
			s, _, err := w.cl.PublicKeys(ctx)
			if err == nil && s != nil {
				for _, k := range s.Keys {
					a.sum += len(k.KeyID)
				}
				j, err := jose.ParseSigned(w.take(a, bJWT), algs)
				if err == nil {
					_ = jwk.ValidateSignature(s, j)
				}
			}
			return err == nil
		case 2:
			t, err := w.cl.ClientCredentials(ctx, w.take(a, bAssertion))
			if err == nil {
				a.sum += len(t.AccessToken)
			}
			return err == nil
		}
		t, err := w.cl.Introspect(ctx, w.take(a, bAssertion), w.take(a, bToken))
		a.use(t)
		a.use(w.cl.ServerMetadata())
		a.sum += len(w.cl.Issuer()) + len(w.cl.ClientID()) + len(w.cl.Audience())
		return err == nil
	case "errors":
		e := rfcerrors.InvalidRequest().Description("d").Build()
		f := rfcerrors.ServerError().State("s").Build()
		e.ErrorDescription, f.Err = "mine", "mine"
		a.use(e)
		a.use(f)
		return true
	}
	return false
}

// mine uses a record the store handed out as its own: reads and changes it.
func (a *agent) mine(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	a.use(m)
	r := m.ProtoReflect()
	for _, c := range a.w.shared {
		if proto.Message(c) == m {
			return
		}
	}
	fs := r.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		switch {
		case f.IsMap():
		case f.IsList():
			l := r.Mutable(f).List()
			for k := 0; k < l.Len(); k++ {
				if f.Kind() == protoreflect.StringKind {
					l.Set(k, protoreflect.ValueOfString("mine"))
				}
			}
		case f.Kind() == protoreflect.MessageKind && r.Has(f):
			x := r.Mutable(f).Message()
			g := x.Descriptor().Fields()
			for k := 0; k < g.Len(); k++ {
				if h := g.Get(k); h.Kind() == protoreflect.StringKind && !h.IsList() && !h.IsMap() {
					x.Set(h, protoreflect.ValueOfString("mine"))
				}
			}
		case f.Kind() == protoreflect.StringKind:
			r.Set(f, protoreflect.ValueOfString("mine"))
		}
	}
}
