package oauth

import (
	"context"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/url"
	"strings"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	tokensvc "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// CM is the model of a registered client.
type CM struct {
	ID   string
	Name string
	P    *clientv1.Client // private copy
}

// Use is one presentation of an artefact at its own issuer.
type Use struct {
	op     *kit.Op
	cl     *CM
	right  bool // everything in the request is as its owner would send it
	ok     bool
	errc   string
	subj   string
	newRT  *Tok
	jwtGap bool // the token format of this run may refuse the record
}

// Par is a pushed authorization request.
type Par struct {
	iss, uri string
	owner    *CM
	req      *flowv1.AuthorizationRequest
	op       *kit.Op
	uses     []*Use
}

// Code is an authorization code.
type Code struct {
	iss, code string
	cl        *CM
	req       *flowv1.AuthorizationRequest
	subject   string
	op        *kit.Op
	uses      []*Use
}

// Dev is a device authorization.
type Dev struct {
	iss, dc, uc string
	cl          *CM
	scope, aud  *string
	op          *kit.Op
	appr        []*Use
	polls       []*Use
}

// Tok is a delivered token.
type Tok struct {
	iss     string
	rec     *tokenv1.Token
	cl      *CM
	op      *kit.Op
	revokes []*Use
	refresh []*Use
	exch    []*Use
	intro   []*Intro
	offline bool
}

// Intro is one introspection of a token.
type Intro struct {
	op     *kit.Op
	active bool
	other  bool // neither active nor revoked
	failed bool
}

// Node is one server process.
type Node struct {
	ID    int
	Authz services.Authorization
	Tok   services.Token
	Dev   services.Device
	Sig   token.Generator // signed introspection
}

// World is one simulated deployment.
type World struct {
	R       *kit.Run
	B       *Backend
	RefB    bool
	Mode    string // token format
	Iss     []string
	Nodes   []*Node
	Clients []*CM
	byID    map[string]*CM
	pars    []*Par
	codes   []*Code
	devs    []*Dev
	toks    []*Tok
	toksBy  map[string]*Tok
	ids     map[string]bool
	verif   map[string]string // challenge -> verifier
	n       int
	maxSkew int64
	epi     bool
	byURL   bool // the resource registry finds resources by their URLs too
}

var ctx context.Context = context.Background() // the context of the run's calls

var edKey = ed25519.NewKeyFromSeed([]byte("0123456789abcdef0123456789abcdef"))

func jwkPriv() *jose.JSONWebKey {
	return &jose.JSONWebKey{Key: edKey, KeyID: "sim-key", Algorithm: "EdDSA", Use: "sig"}
}

var verifSecret = []byte("very-secret-very-secret-very-secret-0123456789")

func (w *World) keyProvider(context.Context) (*jose.JSONWebKey, error) {
	_, err := w.R.GenCall("key-provider", false, func() (string, error) { return "k", nil })
	if err != nil {
		return nil, err
	}
	return jwkPriv(), nil
}

// newNode builds the services of a server process (also after a crash).
func (w *World) newNode(id int) *Node {
	r := w.R
	n := &Node{ID: id}
	cl := &clientW{r, w.B.Clients}
	ar := &arW{r, w.B.AR}
	cs := &codeW{r, w.B.Codes}
	dv := wrapDevices(r, w.B.Devices)
	tk := &tokW{r, w.B.Tokens}
	rs := &resW{r, w.B.Res, &w.byURL}
	n.Authz = authorization.New(cl, ar, cs, wrapGen(r, "code", generator.DefaultAuthorizationCode()), wrapGen(r, "request_uri", generator.DefaultRequestURI()))
	var uc any = generator.DefaultDeviceUserCode()
	if id%2 == 1 {
		uc = generator.DefaultNumDeviceUserCode()
	}
	n.Dev = device.New(cl, dv, wrapGen(r, "device_code", generator.DefaultDeviceCode()), wrapGen(r, "user_code", uc))
	var at, rt token.Generator
	switch w.Mode {
	case "jwt":
		at = token.AccessToken(jwt.AccessTokenSigner(jose.EdDSA, w.keyProvider))
		rt = token.RefreshToken(jwt.RefreshTokenSigner(jose.EdDSA, w.keyProvider))
	case "verifiable":
		at = verifiable.Token(verifiable.UUIDv4Source(), verifSecret)
		rt = verifiable.Token(verifiable.UUIDv7Source(), verifSecret)
	default:
		at, rt = token.OpaqueToken(), token.OpaqueToken()
	}
	n.Tok = tokensvc.New(&tokGenW{r, "access_token", at}, &tokGenW{r, "refresh_token", rt}, cl, ar, cs, dv, tk, rs)
	n.Sig = token.Introspection(jwt.TokenIntrospection(jose.EdDSA, w.keyProvider))
	return n
}

// New builds the deployment of a run.
func New(r *kit.Run) *World {
	w := &World{R: r, byID: map[string]*CM{}, toksBy: map[string]*Tok{}, ids: map[string]bool{}, verif: map[string]string{}}
	w.byURL = kit.Plan{S: simrt.StMisc}.Pct(30)
	ch := func(n int) int { return simrt.Choose(simrt.StCfg, n) }
	w.Iss = []string{"https://as.example.com", "https://as.example.com/t", "https://other.example.net"}
	w.Mode = []string{"opaque", "opaque", "jwt", "verifiable"}[ch(4)]
	back := ch(5)
	if r.Prop == "C27" {
		back = 3
	}
	w.RefB = back >= 3
	cs := inmemory.Clients()
	if back == 3 {
		w.B = newDurable(r, cs, []int{0, 30, 10, 5}[ch(4)])
	} else if w.RefB {
		w.B = newRef(cs)
	} else {
		w.B = &Backend{Clients: cs, AR: inmemory.AuthorizationRequests(), Codes: inmemory.AuthorizationCodeSessions(), Devices: inmemory.DeviceCodeSessions(), Tokens: inmemory.Tokens()}
	}
	w.B.Res = inmemory.Resources()
	w.registerClients(cs)
	if r.Cfg.Skew {
		for i := 0; i < r.Cfg.Nodes; i++ {
			w.skew(i, ([]int64{0, -1, 1, -7, 13, -45, 58, 3}[ch(8)])*1e9)
		}
	}
	for i := 0; i < r.Cfg.Nodes; i++ {
		w.Nodes = append(w.Nodes, w.newNode(i))
	}
	return w
}

func (w *World) skew(node int, d int64) {
	if d == 0 {
		return
	}
	simrt.SetSkew(node, d)
	w.R.Fault("clock-skew")
	if d < 0 {
		d = -d
	}
	if d > w.maxSkew {
		w.maxSkew = d
	}
}

func (w *World) registerClients(cs interface {
	Get(context.Context, string) (*clientv1.Client, error)
	Register(context.Context, *clientv1.Client) (string, error)
}) {
	add := func(name, id string) {
		c, err := cs.Get(ctx, id)
		if err != nil || c == nil {
			w.R.Fail("C19", "client-lost", "client %s registered but Get returned %v", name, err)
			return
		}
		cm := &CM{ID: id, Name: name, P: proto.Clone(c).(*clientv1.Client)}
		w.Clients = append(w.Clients, cm)
		w.byID[id] = cm
	}
	all := []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}
	reg := func(name string, c *clientv1.Client) {
		c.ClientName = name
		id, err := cs.Register(ctx, c)
		if err != nil {
			w.R.Fail("C19", "client-register", "registering %s: %v", name, err)
			return
		}
		w.R.Name("client-"+name, id)
		add(name, id)
	}
	shared := "https://shared.example/cb"
	reg("web1", &clientv1.Client{ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: all, ResponseTypes: []string{"code"}, ResponseModes: []string{oidc.ResponseModeQuery, oidc.ResponseModeQueryJWT}, RedirectUris: []string{"https://rp1.example/cb", shared, "https://rp1.example/cb/x"}})
	reg("web2", &clientv1.Client{ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: all, ResponseTypes: []string{"code", "token"}, ResponseModes: []string{oidc.ResponseModeFragmentJWT, oidc.ResponseModeFormPost, oidc.ResponseModeFormPOSTJWT, oidc.ResponseModeFragment}, RedirectUris: []string{shared, "https://rp2.example/CB?x=1", "https://rp2.example/CB"}})
	reg("pub", &clientv1.Client{ClientType: clientv1.ClientType_CLIENT_TYPE_PUBLIC, GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}, ResponseTypes: []string{"code"}, RedirectUris: []string{shared, "app.example:/cb", "app.example:/cb2"}})
	reg("nogrant", &clientv1.Client{ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ResponseTypes: []string{"code"}, ResponseModes: []string{oidc.ResponseModeQuery}, RedirectUris: []string{shared}})
	reg("tokenresp", &clientv1.Client{ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: []string{oidc.GrantTypeAuthorizationCode}, ResponseTypes: []string{"token"}, RedirectUris: []string{shared}})
	add("foo", "6779ef20e75817b79602")
	add("clipub", "public-client")
	add("attest", "attestation-client")
	add("machine", "t8p9duw4n2klximkv3kagaud796ul67g")
	some := func(l []string) (out []string) {
		for n := 1 + simrt.Choose(simrt.StCfg, 3); n > 0; n-- {
			out = append(out, l[simrt.Choose(simrt.StCfg, len(l))])
		}
		return
	}
	reg("odd", &clientv1.Client{ClientType: clientv1.ClientType(1 + simrt.Choose(simrt.StCfg, 2)), GrantTypes: append(some(oddGrants), oidc.GrantTypeAuthorizationCode), ResponseTypes: append(some(oddTypes), "code"), ResponseModes: some(oddModes), RedirectUris: some(oddURIs)})
}

// What an unusual registration is made of, and what such a client asks for.
var (
	oddGrants = []string{"", "*", "authorization_code2", "refresh_token ", "urn:ietf:params:oauth:grant-type:refresh_token", oidc.GrantTypeRefreshToken, oidc.GrantTypeDeviceCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeTokenExchange, "device_code", "password", "token-exchange", "implicit"}
	oddTypes  = []string{"", "*", "code token", "token", "id_token", "none", "code id_token"}
	oddModes  = []string{"jwt", "", "*", "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt", "query fragment", ".jwt", "web_message"}
	oddURIs   = []string{"https://odd.example/cb", "https://odd.example/*", "https://*.odd.example/cb", "http://localhost/cb", "http://127.0.0.1/cb", "http://127.0.0.1:3000/cb", "http://[::1]/cb", "https://odd.example", "https://odd.example/", "*", "", "odd.example:/cb", "https://odd.example/cb?a=1", "https://odd.example/{x}", "^https://odd.example/.*$"}
	oddAsked  = []string{"https://odd.example/cb", "https://odd.example/other", "https://a.odd.example/cb", "http://localhost:8080/cb", "http://localhost/cb", "http://127.0.0.1:9000/cb", "http://127.0.0.1/cb", "http://127.0.0.1:3000/cb", "http://[::1]:9000/cb", "http://[::1]/cb", "https://odd.example/", "https://odd.example", "https://evil.example/cb", "odd.example:/cb", "odd.example:/cb/x", "https://odd.example/cb?a=1&b=2", "https://odd.example/cb?a=1", "https://odd.example/cb#f", "https://odd.example/cb/"}
)

func fold(l []string, v string) bool {
	for _, x := range l {
		if strings.EqualFold(x, v) {
			return true
		}
	}
	return false
}

func exact(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (c *CM) can(grant string) bool { return c != nil && fold(c.P.GrantTypes, grant) }

// normal returns the request as the server must understand it.
func normal(q *flowv1.AuthorizationRequest) *flowv1.AuthorizationRequest {
	n := proto.Clone(q).(*flowv1.AuthorizationRequest)
	if n.ResponseMode != nil && *n.ResponseMode == oidc.ResponseModeJWT {
		if n.ResponseType == "token" {
			n.ResponseMode = proto.String(oidc.ResponseModeFragmentJWT)
		} else {
			n.ResponseMode = proto.String(oidc.ResponseModeQueryJWT)
		}
	}
	f := strings.Fields(n.Scope)
	if fold(f, "openid") {
		if n.Prompt == nil || *n.Prompt != "consent" {
			var k []string
			for _, s := range f {
				if !strings.EqualFold(s, "offline_access") {
					k = append(k, s)
				}
			}
			f = k
		}
		n.Scope = strings.Join(f, " ")
	}
	return n
}

// inadmissible says why a request must be refused ("" if it must be accepted).
func (w *World) inadmissible(q *flowv1.AuthorizationRequest) string {
	switch {
	case q == nil:
		return "nil"
	case len(q.State) < 32:
		return "state"
	case len(q.Nonce) < 8:
		return "nonce"
	case q.Scope == "" || q.Audience == "" || q.RedirectUri == "" || q.ResponseType == "" || q.ClientId == "":
		return "missing"
	case q.CodeChallengeMethod != "S256":
		return "challenge-method"
	case len(q.CodeChallenge) != 43:
		return "challenge"
	case q.ResponseType != "code" && q.ResponseType != "token":
		return "response-type"
	}
	if _, err := url.ParseRequestURI(q.RedirectUri); err != nil {
		return "redirect-syntax"
	}
	c := w.byID[q.ClientId]
	if c == nil {
		return "client"
	}
	n := normal(q)
	switch {
	case !c.can(oidc.GrantTypeAuthorizationCode):
		return "grant"
	case !exact(c.P.ResponseTypes, q.ResponseType):
		return "client-response-type"
	case !exact(c.P.RedirectUris, q.RedirectUri):
		return "client-redirect"
	}
	if n.ResponseMode != nil {
		switch *n.ResponseMode {
		case oidc.ResponseModeQuery, oidc.ResponseModeFragment, oidc.ResponseModeFormPost, oidc.ResponseModeQueryJWT, oidc.ResponseModeFormPOSTJWT, oidc.ResponseModeFragmentJWT:
		default:
			return "response-mode"
		}
		if !exact(c.P.ResponseModes, *n.ResponseMode) {
			return "client-response-mode"
		}
	}
	return ""
}

func (w *World) uniq(p string) string { w.n++; return fmt.Sprintf("%s%05d", p, w.n) }

func pad(s string, n int) string {
	for len(s) < n {
		s += "x"
	}
	return s[:n]
}

func challengeOf(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// shape checks the form of an answer and returns whether it is a failure.
func (w *World) shape(o *kit.Op, noRes bool, e *corev1.Error, err error, handed, issuerBad bool) (failed bool, code string) {
	r := w.R
	if o.Panic != nil {
		r.CheckPanic(o, "C21")
		return true, "panic"
	}
	if o.Crashed {
		return true, "crash"
	}
	if noRes {
		r.Fail("C21", "nil-response:"+o.Kind, "%s returned no response object (err %v, faults %v)", o.Kind, err, o.Faults)
		return true, "nil"
	}
	if e != nil {
		code = e.Err
		switch o.Kind {
		case "cc", "refresh", "exchange", "poll", "introspect", "revoke", "device", "approve":
			w.errState(o, e)
		}
	}
	r.Notes["answers-checked"]++
	if err == nil {
		if e != nil {
			r.Fail("C21", "error-on-success:"+o.Kind, "%s returned no error but an error object %s", o.Kind, code)
			return true, code
		}
		for _, f := range o.Faults {
			if strings.HasPrefix(f, "before:") || strings.HasPrefix(f, "after:") || strings.HasPrefix(f, "gen:") {
				r.Fail("C21", "fault-swallowed:"+o.Kind+":"+f, "%s reported success although %s failed", o.Kind, f)
			}
			if strings.HasPrefix(f, "nil:") && o.Kind != "introspect" {
				r.Fail("C21", "missing-record:"+o.Kind+":"+f, "%s reported success although %s returned no usable record", o.Kind, f)
			}
		}
		return false, ""
	}
	if e == nil {
		if !(o.Kind == "revoke") {
			r.Fail("C21", "no-error-object:"+o.Kind, "%s failed (%v) without an OAuth error (faults %v)", o.Kind, errText(err), o.Faults)
		} else {
			r.Fail("C21", "no-error-object:revoke:"+cause(o), "revoke failed (%v) without an OAuth error (faults %v)", errText(err), o.Faults)
		}
	} else if !kit.Errs[code] {
		r.Fail("C21", "unregistered-code:"+code, "%s answered unregistered error code %q", o.Kind, code)
	}
	if handed {
		r.Fail("C21", "handout-on-error:"+o.Kind, "%s failed (%v) but handed out a result (faults %v)", o.Kind, errText(err), o.Faults)
	}
	if code == "server_error" && o.Clean() && !issuerBad && !w.jwtMayRefuse(o) {
		r.Fail("C21", "server-error-without-fault:"+o.Kind, "%s answered server_error (%v) although nothing failed inside", o.Kind, errText(err))
	}
	return true, code
}

func (w *World) jwtMayRefuse(o *kit.Op) bool {
	if w.Mode != "jwt" {
		return false
	}
	return o.Kind == "cc" || o.Kind == "poll" || o.Kind == "exchange" || o.Kind == "refresh"
}

func cause(o *kit.Op) string {
	for _, f := range o.Faults {
		return f
	}
	looked := false
	for _, f := range o.Begun {
		looked = looked || f == "tok.GetByValue"
	}
	for _, f := range o.Effects {
		if f == "tok.GetByValue" {
			return "found"
		}
	}
	if !looked {
		return "not-looked"
	}
	return "none" // the token is unknown
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func sec(ns int64) int64 {
	if ns < 0 {
		return (ns - 999999999) / 1e9
	}
	return ns / 1e9
}

func strp(p *string) string {
	if p == nil {
		return "<nil>"
	}
	return *p
}
