// Package system runs the whole project at once: the HTTP handlers and
// middlewares of the example authorization server on several nodes over shared
// storage, a resource server, and clients using the client package, joined by
// a simulated HTTP network that carries the wire format of net/http.
package system

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/oauth"
	"zntr.io/solid/zz_verif/simrt"
)

const (
	second  = int64(1000000000)
	asHost  = "as.example.com"
	rsHost  = "api.example.com"
	issuer  = "http://" + asHost
	rsURL   = "http://" + rsHost + "/timestamp"
	rsNode  = 4 // node of the resource server
	cliDom  = 5 // clock of the clients
	user    = "hello"
	pass    = "world"
	sub0    = "hello"
	saltKey = "a salt shared by all nodes of the deployment"
)

var (
	es384   = []jose.SignatureAlgorithm{jose.ES384}
	asKey   = keys.New(jose.ES384, "as-signing", "sig")
	cliKeys = map[string]*keys.Key{}
	popKeys = map[string]*keys.Key{}
	attKey  = keys.New(jose.ES384, "attester", "")
	instKey = keys.New(jose.ES384, "instance", "")
)

func init() {
	for _, n := range []string{"A", "B", "P", "R", "M", "T"} {
		cliKeys[n] = keys.New(jose.ES384, "system-client-"+n, "sig")
		popKeys[n] = keys.New(jose.ES384, "system-pop-"+n, "")
	}
}

// cli is a registered client and the software acting for it.
type cli struct {
	name, id string
	rec      *clientv1.Client
	key      *keys.Key // authentication and request objects
	pop      *keys.Key // DPoP
	sub      string    // the user as this client may know them
	redirect string
	opts     *client.Options
	sdk      client.Client
	prover   dpop.Prover
	enc      jwsreq.AuthorizationEncoder
}

// intent is what the sender of a request is up to.
type intent struct {
	kind  string
	who   *cli // whom the request authenticates
	bad   string
	f     *flow
	t     *tok
	pop   *keys.Key // key proving possession, nil: none
	noise bool      // damaged on purpose, could mean anything
	ops   []*kit.Op
	dup   bool
	proof string
	uri   string
	code  string
}

// flow is one run of an authorization protocol.
type flow struct {
	n          int
	c          *cli
	kind       string // code, device
	by         int    // agent
	state      string
	nonce      string
	scope      string // granted
	ask        string // scope of the request
	prompt     string
	redirect   string
	aud        string
	verifier   string
	challenge  string
	uri        string // request_uri
	direct     bool
	code       string
	codes      []string // every code the server produced
	jarm       []string
	dev, uc    string
	approved   int // approvals the server accepted
	approveTry int64
	grants     int
	tainted    bool
	toks       []*tok
	got        []*tok // received by the client
	last       int64
	begun      bool
	polls      int
	tries      int
	stale      int
}

// tok is a token the server produced.
type tok struct {
	n            int
	val          string
	refresh      bool
	c            *cli
	f            *flow
	sub          string
	scope, aud   string
	jkt          string
	expLo, expHi int64 // s
	nbf          int64 // s: usable at the latest
	nbfLo        int64 // s: usable at the earliest
	revTry       int64
	revAck       int64
	known        bool // some client received it
	from         *tok
	noise        bool
}

type world struct {
	r       *kit.Run
	rate    int
	noFault bool
	nodes   []http.Handler
	epoch   []int
	rs      *cli
	rsSrv   http.Handler
	cs      map[string]*cli
	order   []*cli
	store   *oauth.Backend
	proofs  storage.DPoP
	rsPr    storage.DPoP
	flows   []*flow
	toks    []*tok
	byVal   map[string]*tok
	granted map[string]string // proofs accepted by the resource server
	taken   []captured        // requests the network may deliver again
	spawned int
	ntok    int
	have    []*tok // tokens received by clients
	uris    map[string]*flow
	started map[string]int
	codes   map[string]*flow
	grants  map[string]int
	used    map[string]bool
	until   map[string]int64 // ends of codes and request_uris, s
	n       int
}

type captured struct {
	host string
	raw  []byte
	in   *intent
}

type intentKey struct{}

// Main runs one simulation.
func Main(r *kit.Run) {
	r.SwarmConfig()
	r.Live = []string{"C34"}
	r.Cfg.NilRead = 0 // records the stores must never return are C21's
	// the example server crashes on two requests; a crash only closes the
	// connection, and what follows must hold all the same
	r.Soft = map[string]bool{crashRevoke: true, crashNoToken: true}
	w := &world{r: r, cs: map[string]*cli{}, byVal: map[string]*tok{}, granted: map[string]string{}, uris: map[string]*flow{}, started: map[string]int{}, codes: map[string]*flow{}, grants: map[string]int{}, used: map[string]bool{}, until: map[string]int64{}}
	switch r.Cfg.Profile {
	case "none":
	case "latency", "skew":
		w.rate = 5
	default:
		w.rate = []int{8, 20, 40}[simrt.Choose(simrt.StCfg, 3)]
	}
	// the example server writes what it does to the console
	out, logw := os.Stdout, log.Writer()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer null.Close()
	}
	log.SetOutput(io.Discard)
	oldT := http.DefaultTransport
	http.DefaultTransport = w
	defer func() {
		http.DefaultTransport = oldT
		os.Stdout = out
		log.SetOutput(logw)
	}()
	w.clients()
	base := &oauth.Backend{Clients: clientStore{w}, AR: inmemory.AuthorizationRequests(), Codes: inmemory.AuthorizationCodeSessions(), Devices: inmemory.DeviceCodeSessions(), Tokens: inmemory.Tokens(), Res: inmemory.Resources()}
	w.store = oauth.Wrapped(r, base)
	w.proofs = &proofW{r, inmemory.DPoPProofs()}
	w.rsPr = &proofW{r, inmemory.DPoPProofs()}
	w.nodes = make([]http.Handler, r.Cfg.Nodes)
	w.epoch = make([]int, r.Cfg.Nodes)
	if r.Cfg.Skew {
		for i := 0; i < r.Cfg.Nodes; i++ {
			if d := []int64{0, 1, -1, 2}[simrt.Choose(simrt.StCfg, 4)]; d != 0 {
				simrt.SetSkew(i, d*second)
				r.Fault("clock-skew")
			}
		}
		if d := []int64{0, 1, -2, -20}[simrt.Choose(simrt.StCfg, 4)]; d != 0 {
			simrt.SetSkew(cliDom, d*second)
			r.Fault("clock-skew")
		}
	}
	// most runs start with connected clients
	if simrt.Choose(simrt.StCfg, 5) != 4 {
		w.noFault = true
		r.FaultsOn = false
		w.client("connect", func() {
			for _, c := range w.order {
				w.connect(c)
			}
		})
		w.noFault = false
		r.FaultsOn = true
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		i, p := i, kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < 2*r.Cfg.OpsPer+4 && !r.Broken(); k++ {
				w.step(p, i)
			}
		}))
	}
	if r.Cfg.CrashAgent {
		ts = append(ts, simrt.Spawn("crash", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 60); n > 0; n-- {
					simrt.Sleep(0)
				}
				n := simrt.Choose(simrt.StFault, r.Cfg.Nodes+1)
				if n == r.Cfg.Nodes {
					n = rsNode
				}
				r.Fault("node-crash")
				r.Logf("node %d crashes", n)
				simrt.CrashNode(n)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if r.E.Aborted {
		return
	}
	// faults stop: everybody gets through
	w.noFault = true
	r.FaultsOn = false
	for i := 0; i <= cliDom; i++ {
		simrt.SetSkew(i, 0)
	}
	if r.Broken() {
		return
	}
	w.finish()
}

// ----------------------------------------------------------------- parties

func (w *world) clients() {
	add := func(name string, rec *clientv1.Client) *cli {
		c := &cli{name: name, id: rec.ClientId, rec: rec, key: cliKeys[name], pop: popKeys[name], sub: sub0}
		if c.key != nil && rec.Jwks == nil && rec.ClientType != clientv1.ClientType_CLIENT_TYPE_CREDENTIALED {
			rec.Jwks = keys.JWKS(c.key)
		}
		if len(rec.RedirectUris) > 0 {
			c.redirect = rec.RedirectUris[0]
		}
		if rec.SubjectType == oidc.SubjectTypePairwise {
			s, err := pairwise.Hash([]byte(saltKey)).Encode(rec.SectorIdentifier, sub0)
			if err != nil {
				panic(err)
			}
			c.sub = s
		}
		if c.key != nil {
			priv, err := json.Marshal(c.key.Priv)
			if err != nil {
				panic(err)
			}
			c.opts = &client.Options{Audience: issuer, ClientID: c.id, RedirectURI: c.redirect, Scopes: []string{"openid"}, JWK: priv}
			key := c.key
			c.enc = jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES384, func(context.Context) (*jose.JSONWebKey, error) { k := key.Priv; return &k, nil }))
			pop := c.pop
			c.prover = dpop.DefaultProver(jwt.DPoPSigner(jose.ES384, func(context.Context) (*jose.JSONWebKey, error) { k := pop.Priv; return &k, nil }))
		}
		w.cs[c.id] = c
		w.order = append(w.order, c)
		return c
	}
	user := []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken}
	bound := simrt.Choose(simrt.StCfg, 3) == 2
	a := &clientv1.Client{ClientId: "client-a", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "a", GrantTypes: user, ResponseTypes: []string{"code"}, ResponseModes: []string{oidc.ResponseModeQueryJWT}, RedirectUris: []string{"https://a.example.com/cb"}, SubjectType: oidc.SubjectTypePairwise, SectorIdentifier: "https://a.example.com", DpopBoundAccessTokens: bound}
	b := &clientv1.Client{ClientId: "client-b", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "b", GrantTypes: user, ResponseTypes: []string{"code"}, RedirectUris: []string{"https://b.example.com/cb?x=1", "https://b.example.com/other", "https://b.example.com/cb", "https://b.example.com/other/more"}, SubjectType: []string{oidc.SubjectTypePairwise, oidc.SubjectTypePublic}[simrt.Choose(simrt.StCfg, 2)], SectorIdentifier: "https://b.example.com"}
	pub := &clientv1.Client{ClientId: "client-p", ClientType: clientv1.ClientType_CLIENT_TYPE_PUBLIC, ClientName: "p", GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken}, ResponseTypes: []string{"code"}, RedirectUris: []string{"http://127.0.0.1:9000/cb"}, SubjectType: oidc.SubjectTypePairwise, SectorIdentifier: "https://p.example.com"}
	m := &clientv1.Client{ClientId: "client-m", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "m", GrantTypes: user, ResponseTypes: []string{"code"}, RedirectUris: []string{"https://evil.example.com/cb"}, SubjectType: oidc.SubjectTypePairwise, SectorIdentifier: "https://evil.example.com"}
	rs := &clientv1.Client{ClientId: "client-rs", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "resource server", GrantTypes: []string{oidc.GrantTypeClientCredentials}}
	att := &clientv1.Client{ClientId: "attester", ClientType: clientv1.ClientType_CLIENT_TYPE_PUBLIC, ClientName: "attester", Jwks: keys.JWKS(attKey)}
	t := &clientv1.Client{ClientId: "client-t", ClientType: clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, ClientName: "t", GrantTypes: []string{oidc.GrantTypeClientCredentials}, TokenEndpointAuthMethod: oidc.AuthMethodClientAttestationJWT}
	add("A", a)
	add("B", b)
	add("P", pub)
	add("M", m)
	w.rs = add("R", rs)
	add("T", t)
	add("attester", att)
	w.rsSrv = http.HandlerFunc(w.resource)
}

// clientStore is the client registry.
type clientStore struct{ w *world }

func (s clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	c := s.w.cs[id]
	if c == nil {
		return nil, storage.ErrNotFound
	}
	return oauth.CloneClient(c.rec), nil
}

func (s clientStore) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	for _, c := range s.w.order {
		if c.rec.ClientName == name {
			return oauth.CloneClient(c.rec), nil
		}
	}
	return nil, storage.ErrNotFound
}

func (s clientStore) Register(context.Context, *clientv1.Client) (string, error) {
	return "", errors.New("read only")
}

// proofW is what a node sees of the proof store.
type proofW struct {
	r  *kit.Run
	in storage.DPoP
}

func (s *proofW) Register(ctx context.Context, id string) error {
	return s.r.SeamCall("proofs.Register", true, func() error { return s.in.Register(ctx, id) })
}

func (s *proofW) Exists(ctx context.Context, id string) (out bool, err error) {
	err = s.r.SeamCall("proofs.Exists", true, func() (e error) { out, e = s.in.Exists(ctx, id); return })
	return
}

func (s *proofW) Delete(ctx context.Context, id string) error {
	return s.r.SeamCall("proofs.Delete", true, func() error { return s.in.Delete(ctx, id) })
}

// build starts the authorization server of a node, as the example does.
func (w *world) build() http.Handler {
	b := w.store
	key := func(context.Context) (*jose.JSONWebKey, error) { k := asKey.Priv; return &k, nil }
	keySet := func(context.Context) (*jose.JSONWebKeySet, error) { return keys.Set(asKey), nil }
	at := verifiable.Token(verifiable.UUIDv7Source(), []byte("key of the access tokens of the deployment"))
	rt := verifiable.Token(verifiable.UUIDv7Source(), []byte("key of the refresh tokens of the deployment"))
	authz := authorization.New(b.Clients, b.AR, b.Codes, generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	tokenz := token.New(at, rt, b.Clients, b.AR, b.Codes, b.Devices, b.Tokens, b.Res)
	devicez := device.New(b.Clients, b.Devices, generator.DefaultDeviceCode(), generator.DefaultDeviceUserCode())
	sec, basic := middleware.SecurityHaders(), middleware.BasicAuthentication()
	cauth := middleware.ClientAuthentication(b.Clients, es384)
	jenc := jarm.Encoder(jwt.JARMSigner(jose.ES384, key))
	dv := dpop.DefaultVerifier(w.proofs, jwt.DefaultVerifier(keySet, es384))
	pw := pairwise.Hash([]byte(saltKey))
	m := map[string]http.Handler{
		"/.well-known/oauth-authorization-server": handlers.Metadata(issuer, jwt.ServerMetadata(jose.ES384, key)),
		"/keys":             handlers.JWKS(keySet),
		"/par":              middleware.Adapt(handlers.PushedAuthorizationRequest(issuer, authz, dv), cauth),
		"/authorize":        middleware.Adapt(handlers.Authorization(issuer, authz, b.Clients, jenc, pw), sec, basic),
		"/token":            middleware.Adapt(handlers.Token(issuer, tokenz, dv), cauth),
		"/token/introspect": middleware.Adapt(handlers.TokenIntrospection(issuer, tokenz), cauth),
		"/token/revoke":     middleware.Adapt(handlers.TokenRevocation(issuer, tokenz), cauth),
		"/device/authorize": middleware.Adapt(handlers.DeviceAuthorization(issuer, devicez), cauth),
		"/device":           middleware.Adapt(handlers.Device(issuer, devicez), sec, basic),
	}
	return http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		h := m[req.URL.Path]
		if h == nil {
			http.NotFound(rw, req)
			return
		}
		h.ServeHTTP(rw, req)
	})
}

// ----------------------------------------------------------------- network

type recorder struct {
	h      http.Header
	status int
	body   bytes.Buffer
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.status == 0 {
		r.status = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.body.Write(b)
}

func (r *recorder) wire() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", r.status, http.StatusText(r.status))
	r.h.Set("Content-Length", strconv.Itoa(r.body.Len()))
	_ = r.h.Write(&b)
	b.WriteString("\r\n")
	b.Write(r.body.Bytes())
	return b.Bytes()
}

// serve delivers a request to a server and returns what it answers.
func (w *world) serve(host string, raw []byte, in *intent) (resp []byte, rec *recorder) {
	r := w.r
	node := rsNode
	h := w.rsSrv
	if host == asHost {
		node = simrt.Choose(simrt.StMisc, r.Cfg.Nodes)
		if w.nodes[node] == nil || w.epoch[node] != r.E.Epoch[node] {
			w.epoch[node] = r.E.Epoch[node]
			w.nodes[node] = nil
			if w.epoch[node] > 0 {
				r.Fault("restart")
			}
			n := w.build()
			w.nodes[node] = n
		}
		h = w.nodes[node]
	}
	path := "?"
	rec = &recorder{h: http.Header{}}
	var o *kit.Op
	simrt.Outside(func() {
		o = r.Do("http."+in.kind, node, func() {
			in.ops = append(in.ops, r.CurOp())
			req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
			if err != nil {
				http.Error(rec, "bad request", http.StatusBadRequest)
				return
			}
			path = req.URL.Path
			req.RemoteAddr = "10.0.0.1:4242"
			h.ServeHTTP(rec, req.WithContext(r.Ctx(context.WithValue(req.Context(), intentKey{}, in))))
			if rec.status == 0 {
				rec.status = 200
			}
		})
	})
	if o.Panic != nil {
		sig := "panic:" + in.kind + ":" + firstFrame(o.Stack)
		switch {
		case strings.HasPrefix(firstFrame(o.Stack), "respond.") && path == "/token/revoke":
			sig = crashRevoke
		case strings.Contains(o.Stack, "/examples/") && path == "/token" && in.kind == "token.code" && in.f != nil && !strings.Contains(in.f.scope, "openid"):
			sig = crashNoToken
		}
		r.Notes["crashed:"+in.kind]++
		r.Fail("C34", sig, "the server crashed on a request to %s: %v (%s)", path, o.Panic, o.Stack)
		return nil, nil
	}
	if o.Crashed {
		return nil, nil
	}
	r.Logf("%s %s%s -> node %d: %d", in.kind, path, badness(in), node, rec.status)
	if host == asHost {
		w.observe(path, in, o, rec)
	}
	if o.Cancelled {
		return nil, nil // nobody listens any more
	}
	return rec.wire(), rec
}

func badness(in *intent) string {
	if in.bad == "" {
		return ""
	}
	return " (" + in.bad + ")"
}

func firstFrame(s string) string {
	if i := strings.Index(s, " < "); i > 0 {
		s = s[:i]
	}
	return s[strings.LastIndex(s, "/")+1:]
}

// Crashes of the example server on record in known-findings.txt.
const (
	crashRevoke  = "panic:revoke:error-without-object"
	crashNoToken = "panic:token.code:no-access-token"
)

var errNet = errors.New("connection reset by peer")

// wire carries one request over the network.
func (w *world) wire(host string, raw []byte, in *intent) ([]byte, error) {
	r := w.r
	fault := func(k string) { r.Fault("net:" + k) }
	simrt.Seam()
	if !w.noFault && r.Cfg.Latency > 0 && simrt.Chance(simrt.StFault, r.Cfg.Latency, 1000) {
		fault("latency")
		simrt.Sleep([]int64{1, 50, 400, 1000, 4000, 12000}[simrt.Choose(simrt.StFault, 6)] * 1000000)
	}
	kind := -1
	if !w.noFault && w.rate > 0 && simrt.Chance(simrt.StFault, w.rate, 100) {
		kind = simrt.Choose(simrt.StFault, 9)
	}
	if len(w.taken) < 40 {
		w.taken = append(w.taken, captured{host, append([]byte(nil), raw...), in})
	}
	switch kind {
	case 0:
		fault("request-lost")
		return nil, errNet
	case 1, 2:
		// the same bytes arrive twice, perhaps at the same time
		fault("duplicate")
		in.dup = true
		cp := append([]byte(nil), raw...)
		if w.spawned < 24 && simrt.Choose(simrt.StFault, 2) == 0 {
			w.spawned++
			simrt.Spawn("dup", func() { w.serve(host, cp, in) })
			simrt.Seam()
		} else {
			w.serve(host, cp, in)
		}
	case 3:
		fault("request-truncated")
		in.dup = true
		cut := raw[:simrt.Choose(simrt.StFault, len(raw))]
		w.serve(host, cut, &intent{kind: in.kind, who: in.who, f: in.f, t: in.t, pop: in.pop, noise: true})
		return nil, errNet
	}
	simrt.Seam()
	resp, _ := w.serve(host, raw, in)
	simrt.Seam()
	if resp == nil {
		return nil, io.ErrUnexpectedEOF
	}
	switch kind {
	case 4, 5:
		fault("response-lost")
		return nil, errNet
	case 6:
		fault("response-truncated")
		return resp[:simrt.Choose(simrt.StFault, len(resp))], nil
	case 7:
		fault("proxy-error")
		return []byte("HTTP/1.1 502 Bad Gateway\r\nContent-Length: 4\r\n\r\noops"), nil
	case 8:
		fault("response-late")
		simrt.Sleep(int64(1+simrt.Choose(simrt.StFault, 40)) * second)
	}
	return resp, nil
}

// RoundTrip implements http.RoundTripper for the clients.
func (w *world) RoundTrip(req *http.Request) (*http.Response, error) {
	in, _ := req.Context().Value(intentKey{}).(*intent)
	if in == nil {
		in = &intent{kind: "other"}
	}
	var b bytes.Buffer
	if err := req.Write(&b); err != nil {
		return nil, err
	}
	resp, err := w.wire(req.URL.Host, b.Bytes(), in)
	if err != nil {
		return nil, err
	}
	return http.ReadResponse(bufio.NewReader(bytes.NewReader(resp)), req)
}

// reply is an answer as a client got it.
type reply struct {
	status int
	body   []byte
	loc    *url.URL
	err    error
	in     *intent
}

func (p *reply) json() (m map[string]any) {
	if p.err == nil {
		_ = json.Unmarshal(p.body, &m)
	}
	return
}

func (w *world) send(method, u string, hdr map[string]string, form url.Values, in *intent) *reply {
	var body io.Reader
	if form != nil {
		body = strings.NewReader(form.Encode())
	}
	ctx := context.WithValue(context.Background(), intentKey{}, in)
	req, err := http.NewRequestWithContext(ctx, method, u, body)
	if err != nil {
		return &reply{err: err, in: in}
	}
	if form != nil {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for _, k := range sorted(hdr) {
		req.Header.Set(k, hdr[k])
	}
	resp, err := w.RoundTrip(req)
	if err != nil {
		return &reply{err: err, in: in}
	}
	defer resp.Body.Close()
	p := &reply{status: resp.StatusCode, in: in}
	if p.body, err = io.ReadAll(resp.Body); err != nil {
		p.err = err
	}
	if l := resp.Header.Get("Location"); l != "" {
		p.loc, _ = url.Parse(l)
	}
	return p
}

func sorted(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return
}

// --------------------------------------------------------- resource server

type identity struct{ Sub, Client string }

// resource is the protected resource, as the example protects it.
func (w *world) resource(rw http.ResponseWriter, req *http.Request) {
	in, _ := req.Context().Value(intentKey{}).(*intent)
	deny := func(why string) { http.Error(rw, why, http.StatusUnauthorized) }
	parts := strings.SplitN(req.Header.Get("Authorization"), " ", 2)
	if len(parts) != 2 {
		deny("no token")
		return
	}
	jkt, proof := "", ""
	isPop := strings.EqualFold(parts[0], "dpop")
	if isPop {
		proof = req.Header.Get("DPoP")
		v := dpop.DefaultVerifier(w.rsPr, jwt.EmbeddedKeyVerifier(es384))
		var err error
		if jkt, err = v.Verify(req.Context(), req.Method, dpop.CleanURL(req), proof, dpop.WithTokenValue(parts[1])); err != nil {
			deny("proof: " + err.Error())
			return
		}
	} else if !strings.EqualFold(parts[0], "bearer") {
		deny("scheme")
		return
	}
	if w.rs.sdk == nil {
		deny("not connected")
		return
	}
	start := simrt.NextSeq()
	t, _, err := w.introspectAs(w.rs, parts[1], in.t)
	if err != nil {
		deny("introspection: " + err.Error())
		return
	}
	switch {
	case t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE:
		deny("inactive")
		return
	case isPop && t.Confirmation == nil:
		deny("not bound")
		return
	case isPop && t.Confirmation.Jkt != jkt:
		deny("other key")
		return
	case !isPop && t.Confirmation != nil:
		deny("bound")
		return
	}
	// access is granted
	r := w.r
	r.Notes["access-granted"]++
	k := w.byVal[parts[1]]
	if k == nil {
		r.Fail("C33", "access:unknown-token", "the resource accepted a token the server never issued")
		return
	}
	if in.bad != "" {
		r.Fail("C33", "access:"+in.bad, "the resource accepted a request that must be refused (%s)", in.bad)
	}
	if k.refresh {
		// introspection answers for refresh tokens too; the example does not tell them apart
		r.Probe("access-with-refresh-token")
	}
	if k.revAck != 0 && k.revAck < start {
		r.Fail("C33", "access:revoked", "the resource accepted a token after its revocation was acknowledged")
	}
	if isPop {
		if h := w.granted[proof]; h != "" {
			r.Fail("C33", "access:proof-replayed", "the resource accepted the same proof twice")
		}
		w.granted[proof] = "x"
	}
	if t.Metadata == nil || t.Metadata.ClientId != k.c.id || (!k.noise && t.Metadata.Subject != k.sub) {
		r.Fail("C33", "access:identity", "the resource takes the holder of a token of %s/%q for %s/%q", k.c.id, k.sub, t.Metadata.GetClientId(), t.Metadata.GetSubject())
	}
	rw.Header().Set("Content-Type", "application/json")
	b, _ := json.Marshal(identity{t.Metadata.Subject, t.Metadata.ClientId})
	_, _ = rw.Write(b)
}
