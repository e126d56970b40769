// Package race uses shared instances of every component from several tasks at
// once, in a build with the race detector. The harness adds no synchronisation
// of its own: values travel between tasks through a board written and read by
// functions the detector does not look at, so that the only happens-before
// edges are those of the code under test.
package race

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"unsafe"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/profile"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	tokensvc "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx = context.Background()

type plan = kit.Plan

// kinds of values on the board
const (
	bCode = iota
	bURI
	bUser
	bDevice
	bToken
	bTokenID
	bClient
	bAssertion
	bProof
	bJARM
	bRequest
	bJWT
	bVerifiable
	bStoreID
	nKinds
)

const slots = 8

var (
	srvKey  = keys.New(jose.ES384, "race-server", "sig")
	cliKey  = keys.New(jose.ES384, "race-client", "sig")
	dpopKey = keys.New(jose.EdDSA, "race-dpop", "sig")
	issuer  = "https://as.example.com"
	secret  = []byte("race-world-secret-0123456789abcdef")
	algs    = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA}
)

const (
	clientID = "race-client"
	attested = "race-attested"
)

var errEOF = io.EOF

type world struct {
	r     *kit.Run
	board [nKinds][slots]string
	count [nKinds]int
	nFail [8]int64
	errs  bool
	shape int

	clients storage.Client
	ar      storage.AuthorizationRequest
	codes   storage.AuthorizationCodeSession
	devs    storage.DeviceCodeSession
	toks    storage.Token
	res     storage.Resource
	proofs  storage.DPoP

	authz services.Authorization
	tok   services.Token
	dev   services.Device

	authCode generator.AuthorizationCode
	reqURI   generator.RequestURI
	userCode generator.DeviceUserCode
	devCode  generator.DeviceCode

	prover   dpop.Prover
	verifier dpop.Verifier
	pkj      clientauthentication.AuthenticationProcessor
	att      clientauthentication.AuthenticationProcessor
	jenc     jarm.ResponseEncoder
	jdec     jarm.ResponseDecoder
	renc     jwsreq.AuthorizationEncoder
	rdec     jwsreq.AuthorizationDecoder
	assert   token.Generator
	access   []token.Generator
	intro    token.Generator
	ver      token.Verifier
	vgen     verifiable.Generator
	vver     verifiable.VerifiableUUIDExtractor
	lr       *randomness.LockedRand
	rd       interface{ Read([]byte) (int, error) }
	pair     pairwise.Encoder
	prof     profile.Server
	cl       client.Client

	shared []*clientv1.Client // client records several requests carry at once
}

// agent is one task; everything in it is private to the task.
type agent struct {
	w      *world
	p      plan
	n      int
	id     int
	calls  int64
	oks    [len(opNames)]int64
	panics []string
	stacks []string
	sum    int
}

// ------------------------------------------------------------------- board

//go:norace
func dup(s string) string {
	if len(s) == 0 {
		return ""
	}
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return unsafe.String(&b[0], len(b))
}

//go:norace
func (w *world) put(kind int, s string) {
	if s == "" {
		return
	}
	w.board[kind][w.count[kind]%slots] = dup(s)
	w.count[kind]++
}

// take copies a value from the board: what a network would deliver.
//
//go:norace
func (w *world) take(a *agent, kind int) string {
	n := w.count[kind]
	if n > slots {
		n = slots
	}
	if n == 0 {
		return "nothing"
	}
	// mostly the latest
	i := w.count[kind] - 1
	if simrt.Choose(a.p.S, 3) == 2 {
		i = simrt.Choose(a.p.S, n)
	}
	return dup(w.board[kind][i%slots])
}

// fails decides about an injected fault.
//
//go:norace
func (w *world) fails(kind int) bool {
	if !w.errs || simrt.Choose(simrt.StFault, 12) != 11 {
		return false
	}
	w.nFail[kind]++
	return true
}

var errFault = errors.New("simulated fault")

// ---------------------------------------------------------------- storages

type clientS struct {
	storage.Client
	w *world
}

func (s *clientS) Get(c context.Context, id string) (*clientv1.Client, error) {
	simrt.Seam()
	if s.w.fails(0) {
		return nil, errFault
	}
	for _, c := range s.w.shared {
		if c.ClientId == id {
			// a store that keeps one record and hands it to everybody
			return c, nil
		}
	}
	return s.Client.Get(c, id)
}

func (s *clientS) GetByName(c context.Context, n string) (x *clientv1.Client, err error) {
	simrt.Seam()
	simrt.NoPreempt(func() { x, err = s.Client.GetByName(c, n) })
	return
}

type arS struct {
	storage.AuthorizationRequest
	w *world
}

func (s *arS) Get(c context.Context, i, u string) (*flowv1.AuthorizationRequest, error) {
	simrt.Seam()
	if s.w.fails(1) {
		return nil, errFault
	}
	return s.AuthorizationRequest.Get(c, i, u)
}

type codeS struct {
	storage.AuthorizationCodeSession
	w *world
}

func (s *codeS) Delete(c context.Context, i, v string) error {
	simrt.Seam()
	if s.w.fails(2) {
		return errFault
	}
	return s.AuthorizationCodeSession.Delete(c, i, v)
}

type tokS struct {
	storage.Token
	w *world
}

func (s *tokS) Create(c context.Context, i string, t *tokenv1.Token) error {
	simrt.Seam()
	if s.w.fails(3) {
		return errFault
	}
	return s.Token.Create(c, i, t)
}

func (s *tokS) GetByValue(c context.Context, i, v string) (*tokenv1.Token, error) {
	simrt.Seam()
	if s.w.fails(4) {
		return nil, errFault
	}
	return s.Token.GetByValue(c, i, v)
}

// --------------------------------------------------------------- transport

type answer struct {
	b   []byte
	pos int
}

func (b *answer) Read(p []byte) (int, error) {
	simrt.Seam()
	if b.pos >= len(b.b) {
		return 0, errEOF
	}
	n := copy(p, b.b[b.pos:])
	b.pos += n
	return n, nil
}
func (b *answer) Close() error { return nil }

// RoundTrip answers a request of the HTTP client.
func (w *world) RoundTrip(req *http.Request) (*http.Response, error) {
	simrt.Seam()
	if req.Body != nil {
		req.Body.Close()
	}
	if w.fails(5) {
		return nil, errFault
	}
	if w.errs && w.fails(6) {
		simrt.Sleep(5000000000)
	}
	var v any
	switch req.URL.Path {
	case "/.well-known/oauth-authorization-server":
		v = map[string]any{"issuer": issuer, "jwks_uri": issuer + "/jwks", "token_endpoint": issuer + "/token", "introspection_endpoint": issuer + "/token/introspect"}
	case "/jwks":
		m := map[string]any{"keys": []any{srvKey.Pub, cliKey.Pub}}
		if w.shape%3 > 0 {
			m["exp"] = simrt.ClockOf(kit.StoreDom)/1000000000 + int64([]int{0, 1, 3600}[w.shape%3])
		}
		v = m
	case "/token":
		v = map[string]any{"access_token": "at", "token_type": "Bearer", "expires_in": 3600}
	default:
		v = map[string]any{"active": true, "iss": issuer, "sub": "alice"}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: &answer{b: b}, ContentLength: int64(len(b)), Request: req}, nil
}

func keyOf(k *keys.Key) func(context.Context) (*jose.JSONWebKey, error) {
	return func(context.Context) (*jose.JSONWebKey, error) {
		simrt.Seam()
		return &k.Priv, nil
	}
}

// Main is the body of a run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	ch := func(n int) int { return simrt.Choose(simrt.StCfg, n) }
	w := &world{r: r}
	w.errs = r.Cfg.ErrBefore > 0 || r.Cfg.ErrAfter > 0 || r.Cfg.GenFault > 0
	w.shape = ch(6)
	r.Calendar()
	old := http.DefaultTransport
	http.DefaultTransport = w
	defer func() { http.DefaultTransport = old }()
	w.build(ch)
	if r.Cfg.GenFault > 0 {
		r.E.EntropyFault = func(int) int { return entropy(w) }
	}
	// a run concentrates on some of the operations
	var focus []int
	if ch(4) > 0 {
		for i := 1 + ch(3); i > 0; i-- {
			focus = append(focus, ch(len(opNames)))
		}
	}
	n := 2 + ch(3)
	ops := 2 + ch(7)
	ag := make([]*agent, n)
	ts := make([]*simrt.Task, n)
	for i := range ag {
		a := &agent{w: w, p: plan{S: simrt.StAgent + i}, id: i}
		ag[i] = a
		ts[i] = simrt.Spawn(fmt.Sprintf("agent%d", i), func() { a.work(ops, focus) })
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	r.E.EntropyFault = nil
	for _, a := range ag {
		r.Ops += a.calls
		for i, k := range a.oks {
			if k > 0 {
				r.Notes["shared:"+opNames[i]] += k
			}
		}
		for i, s := range a.panics {
			r.Fail("C20", "panic:"+a.stacks[i], "a call on a shared component panicked: %s at %s", s, a.stacks[i])
		}
	}
	for i, k := range w.nFail {
		if k > 0 {
			r.Faults[[]string{"client-store-error", "request-store-error", "code-store-error", "token-create-error", "token-lookup-error", "network-error", "network-delay", "entropy-failure"}[i]] += k
		}
	}
}

//go:norace
func entropy(w *world) int {
	if simrt.Choose(simrt.StFault, 10) != 9 {
		return 0
	}
	w.nFail[7]++
	return 1
}

func (w *world) build(ch func(int) int) {
	w.clients = &clientS{inmemory.Clients(), w}
	w.ar = &arS{inmemory.AuthorizationRequests(), w}
	w.codes = &codeS{inmemory.AuthorizationCodeSessions(), w}
	w.devs = inmemory.DeviceCodeSessions()
	w.toks = &tokS{inmemory.Tokens(), w}
	w.res = inmemory.Resources()
	w.proofs = inmemory.DPoPProofs()
	all := []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}
	for i := 0; i < 2; i++ {
		c := &clientv1.Client{ClientId: clientID, ClientName: fmt.Sprintf("shared-%d", i), ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: all, ResponseTypes: []string{"code"}, ResponseModes: []string{oidc.ResponseModeQuery, oidc.ResponseModeQueryJWT}, RedirectUris: []string{"https://rp.example/cb"}, Jwks: keys.JWKS(cliKey)}
		if i == 1 {
			c.ClientId = "race-client-2"
		}
		w.shared = append(w.shared, c)
	}
	w.shared = append(w.shared, &clientv1.Client{ClientId: attested, ClientType: clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, GrantTypes: all, TokenEndpointAuthMethod: oidc.AuthMethodClientAttestationJWT})
	w.authCode, w.reqURI = generator.DefaultAuthorizationCode(), generator.DefaultRequestURI()
	w.userCode, w.devCode = generator.DefaultDeviceUserCode(), generator.DefaultDeviceCode()
	if ch(2) == 1 {
		w.userCode = generator.DefaultNumDeviceUserCode()
	}
	jat := token.AccessToken(jwt.AccessTokenSigner(jose.ES384, keyOf(srvKey)))
	jrt := token.RefreshToken(jwt.RefreshTokenSigner(jose.ES384, keyOf(srvKey)))
	cat := token.AccessToken(cwt.AccessTokenSigner(cose.ES384, keyOf(srvKey)))
	w.access = []token.Generator{jat, jrt, cat, token.OpaqueToken(), verifiable.Token(verifiable.UUIDv4Source(), secret), verifiable.Token(verifiable.UUIDv7Source(), secret)}
	at, rt := token.OpaqueToken(), token.OpaqueToken()
	switch ch(4) {
	case 2:
		at, rt = jat, jrt
	case 3:
		at, rt = w.access[4], w.access[5]
	}
	w.intro = token.Introspection(jwt.TokenIntrospection(jose.ES384, keyOf(srvKey)))
	w.assert = token.ClientAssertion(jwt.ClientAssertionSigner(jose.ES384, keyOf(cliKey)))
	w.authz = authorization.New(w.clients, w.ar, w.codes, w.authCode, w.reqURI)
	w.dev = device.New(w.clients, w.devs, w.devCode, w.userCode)
	w.tok = tokensvc.New(at, rt, w.clients, w.ar, w.codes, w.devs, w.toks, w.res)
	w.prover = dpop.DefaultProver(jwt.DPoPSigner(jose.EdDSA, keyOf(dpopKey)))
	w.verifier = dpop.DefaultVerifier(w.proofs, jwt.EmbeddedKeyVerifier(algs))
	w.pkj = clientauthentication.PrivateKeyJWT(w.clients, algs)
	w.att = clientauthentication.ClientAttestation(w.clients, algs)
	set := keys.Set(srvKey, cliKey)
	w.ver = jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { simrt.Seam(); return set, nil }, algs)
	w.jenc, w.jdec = jarm.Encoder(jwt.JARMSigner(jose.ES384, keyOf(srvKey))), jarm.Decoder(issuer, w.ver)
	w.renc, w.rdec = jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES384, keyOf(cliKey))), jwsreq.AuthorizationRequestDecoder(w.ver)
	w.vgen, w.vver = verifiable.UUIDGenerator(verifiable.UUIDv4Source(), secret), verifiable.UUIDVerifier(secret)
	w.lr, w.rd = randomness.NewLockedRand(7), randomness.NewReader(11)
	w.pair = pairwise.Hash([]byte("0123456789abcdef0123456789abcdef"))
	w.prof = profile.Strict()
	jk, err := json.Marshal(cliKey.Priv)
	if err != nil {
		panic(err)
	}
	errs := w.errs
	w.errs = false
	w.cl, err = client.HTTP(ctx, issuer, &client.Options{Audience: "https://api.example.com", ClientID: clientID, JWK: jk, Scopes: []string{"openid"}})
	if err != nil {
		panic(err)
	}
	w.errs = errs
}

var opNames = [...]string{
	"authorize", "push", "authorize-uri", "redeem", "client-credentials", "refresh", "exchange", "device-start", "device-approve", "device-poll", "introspect", "revoke",
	"client-store", "request-store", "code-store", "device-store", "token-store", "proof-store", "resource-store",
	"dpop-prove", "dpop-verify", "assertion", "private-key-jwt", "attestation", "jarm-encode", "jarm-decode", "request-encode", "request-decode",
	"token-generate", "token-verify", "introspection-sign", "verifiable-generate", "verifiable-verify", "locked-rand", "global-rand", "pairwise", "profile", "pkce", "generators", "http-client", "errors",
}

// related operations follow each other
var after = map[int][]int{0: {3}, 1: {2}, 2: {3}, 3: {5, 6, 10, 11}, 7: {8}, 8: {9}, 19: {20}, 21: {22}, 24: {25}, 26: {27}, 28: {29}, 31: {32}}

func (a *agent) work(ops int, focus []int) {
	next := -1
	for i := 0; i < ops; i++ {
		k := a.p.N(len(opNames))
		if len(focus) > 0 && a.p.N(5) > 0 {
			k = focus[a.p.N(len(focus))]
		}
		if next >= 0 {
			k = next
		}
		next = -1
		ok := false
		a.calls++
		setOp(a, i+1)
		simrt.EventS(opNames[k])
		res := kit.Call(func() { ok = a.do(k) })
		setOp(a, 0)
		if ok {
			simrt.EventS(opNames[k] + ": ok")
		} else {
			simrt.EventS(opNames[k] + ": refused")
		}
		if res.Panic != nil {
			s := "value"
			switch v := res.Panic.(type) {
			case error:
				s = v.Error()
			case string:
				s = v
			}
			// an exhausted entropy source makes some components panic by design
			if s != simrt.ErrEntropy.Error() && !w7(a.w) {
				a.panics = append(a.panics, s)
				a.stacks = append(a.stacks, res.Stack)
			}
		}
		if ok {
			a.oks[k]++
			if l := after[k]; l != nil && a.p.N(3) > 0 {
				next = l[a.p.N(len(l))]
			}
		}
		switch a.p.N(12) {
		case 11:
			simrt.Sleep([]int64{1, 61000, 121000}[a.p.N(3)] * 1000000)
		case 10:
			simrt.Sleep(0)
		}
	}
}

//go:norace
func setOp(a *agent, n int) { simrt.Cur().Op = n * (a.id + 1) }

//go:norace
func w7(w *world) bool { return w.nFail[7] > 0 }

func (a *agent) uniq(s string) string { a.n++; return fmt.Sprintf("%s-%d-%d", s, a.id, a.n) }

func pad(s string, n int) string {
	for len(s) < n {
		s += "x"
	}
	return s
}

func challenge(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// the verifier every agent uses: codes are redeemed by whoever takes them
var verifierText = pad("race-world-code-verifier", 64)

func (a *agent) client() *clientv1.Client {
	c := a.w.shared[a.p.N(2)]
	if a.p.N(3) == 2 {
		return proto.Clone(c).(*clientv1.Client)
	}
	return c
}

func (a *agent) request(c *clientv1.Client) *flowv1.AuthorizationRequest {
	q := &flowv1.AuthorizationRequest{
		ClientId: c.ClientId, ResponseType: "code", State: pad(a.uniq("state"), 32), Nonce: pad(a.uniq("n"), 8), Audience: "urn:api", Scope: "openid profile offline_access",
		CodeChallengeMethod: "S256", CodeChallenge: challenge(verifierText), RedirectUri: "https://rp.example/cb", Prompt: proto.String("consent"),
	}
	if a.p.N(4) == 3 {
		q.ResponseMode = proto.String(oidc.ResponseModeQueryJWT)
	}
	return q
}

// use reads everything in a record, as its holder would.
func (a *agent) use(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	b, err := proto.Marshal(m)
	if err == nil {
		a.sum += len(b)
	}
}

func (a *agent) tokens(res *flowv1.TokenResponse, err error) bool {
	if res == nil {
		return false
	}
	a.use(res)
	if err != nil {
		return false
	}
	for _, t := range []*tokenv1.Token{res.AccessToken, res.RefreshToken} {
		if t != nil {
			a.w.put(bToken, t.Value)
			a.w.put(bTokenID, t.TokenId)
		}
	}
	return true
}
