// Package httpclient runs the real HTTP client against a simulated
// authorization server over a simulated, unreliable transport.
package httpclient

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"
	"golang.org/x/oauth2"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zz_verif/keys"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

const second = int64(1000000000)

var (
	clientKey = keys.New(jose.ES384, "http-client", "sig")
	serverSet = []*keys.Key{keys.New(jose.ES256, "srv-1", "sig"), keys.New(jose.ES384, "srv-2", "sig"), keys.New(jose.EdDSA, "srv-3", "sig"), keys.New(jose.ES256, "srv-4", "sig")}
)

const (
	clientID  = "http-client-id"
	assertURN = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
)

// exchange is one request as the network saw it.
type exchange struct {
	op     *kit.Op
	node   int // client node
	path   string
	status int
	body   []byte // delivered
	whole  bool   // delivered completely
	clean  bool   // nothing was done to it
	form   url.Values
	t0, t1 int64 // client clock
	authed bool
	bodyC  *body
}

// body is a response body whose life is watched.
type body struct {
	w      *world
	data   []byte
	pos    int
	err    error // at the end
	slow   bool
	closed int
	path   string
	cerr   error
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("http: read on closed response body")
	}
	simrt.Seam()
	if b.slow && simrt.Choose(simrt.StFault, 3) == 2 {
		simrt.Sleep([]int64{1, 100, 1500, 7000}[simrt.Choose(simrt.StFault, 4)] * 1000000)
	}
	if b.pos >= len(b.data) {
		return 0, b.err
	}
	n := len(b.data) - b.pos
	if n > len(p) {
		n = len(p)
	}
	if n > 1 {
		if k := simrt.Choose(simrt.StFault, 4); k > 0 {
			n = 1 + simrt.Choose(simrt.StFault, n)
		}
	}
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	if b.pos == len(b.data) && simrt.Choose(simrt.StFault, 3) == 1 {
		return n, b.err // data and end at once
	}
	return n, nil
}

func (b *body) Close() error {
	b.closed++
	return b.cerr
}

type world struct {
	r        *kit.Run
	rate     int // percentage of faulty exchanges
	server   string
	opts     []*client.Options
	cl       []client.Client // one per node
	gen      int
	ttl      int64 // of the key set, s; 0: no expiry
	bulk     int   // 1: the key set has a long extra member, 2: many keys
	burst    bool
	flap     bool // keys change with every request
	old      map[string][]byte
	seen     []*exchange
	auth     clientauthentication.AuthenticationProcessor
	nTok     int
	meta     map[string]any
	asserted map[string]bool
	tokens   []string
}

// Get implements the client store of the server.
func (w *world) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if id != clientID {
		return nil, storage.ErrNotFound
	}
	return &clientv1.Client{ClientId: clientID, Jwks: keys.JWKS(clientKey)}, nil
}

func (w *world) GetByName(context.Context, string) (*clientv1.Client, error) {
	return nil, storage.ErrNotFound
}

// Main runs one simulation.
func Main(r *kit.Run) {
	r.SwarmConfig()
	r.Calendar()
	r.Live = []string{"C26"}
	w := &world{r: r, server: "https://as.example.com", old: map[string][]byte{}, asserted: map[string]bool{}}
	switch r.Cfg.Profile {
	case "none":
	case "latency", "skew":
		w.rate = 5
	default:
		w.rate = []int{10, 30, 60}[simrt.Choose(simrt.StCfg, 3)]
	}
	w.ttl = []int64{0, 1, 3, 30, 3600}[simrt.Choose(simrt.StCfg, 5)]
	w.bulk = []int{0, 0, 0, 0, 0, 0, 1, 2}[simrt.Choose(simrt.StCfg, 8)]
	w.flap = simrt.Choose(simrt.StCfg, 3) == 2
	if simrt.Choose(simrt.StCfg, 3) == 2 {
		r.Cfg.Nodes = 1
		w.burst = simrt.Choose(simrt.StCfg, 2) == 1
	}
	old := http.DefaultTransport
	http.DefaultTransport = w
	defer func() { http.DefaultTransport = old }()
	w.auth = clientauthentication.PrivateKeyJWT(w, []jose.SignatureAlgorithm{jose.ES384})
	w.drawMeta(kit.Plan{S: simrt.StCfg})
	if r.Cfg.Skew {
		for i := 0; i < r.Cfg.Nodes; i++ {
			d := []int64{0, 2, -2, 20, -20}[simrt.Choose(simrt.StCfg, 5)]
			simrt.SetSkew(i, d*second)
			if d != 0 {
				r.Fault("clock-skew")
			}
		}
	}
	for i := 0; i < r.Cfg.Nodes; i++ {
		o := &client.Options{Audience: "https://api.example.com", ClientID: clientID, JWK: mustJSON(clientKey.Priv), Scopes: []string{"openid"}}
		w.opts = append(w.opts, o)
		w.cl = append(w.cl, nil)
	}
	// most runs start with working clients
	if simrt.Choose(simrt.StCfg, 4) != 3 {
		rate := w.rate
		w.rate = 0
		for i := range w.cl {
			w.connect(i, w.opts[i])
		}
		w.rate = rate
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+3 && !r.Broken(); k++ {
				w.step(p)
			}
		}))
	}
	if r.Cfg.Jump {
		ts = append(ts, simrt.Spawn("clock", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 2); k++ {
				for n := simrt.Choose(simrt.StFault, 20); n > 0; n-- {
					simrt.Sleep(0)
				}
				i := simrt.Choose(simrt.StFault, r.Cfg.Nodes)
				if d := []int64{0, 3, -3, 30, -30}[simrt.Choose(simrt.StFault, 5)]*second - simrt.GetSkew(i); d != 0 {
					r.Jump(i, d)
				}
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if r.E.Aborted {
		return
	}
	// liveness: once the network behaves, the client works
	w.rate = 0
	w.ttl = 3600
	w.flap = false
	r.Cfg.Latency = 0
	w.meta = nil
	for i := range w.cl {
		if w.cl[i] == nil {
			w.connect(i, w.opts[i])
		}
		if w.cl[i] != nil {
			w.clientCredentials(kit.Plan{S: simrt.StMisc}, i, "")
			w.publicKeys(i)
		}
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// render is a stable form of a key list, defined for unusable keys too.
func render(l []jose.JSONWebKey) []byte {
	var b bytes.Buffer
	for _, k := range l {
		if j, err := json.Marshal(k); err == nil {
			b.Write(j)
		} else {
			fmt.Fprintf(&b, "unusable(%s)", k.KeyID)
		}
	}
	return b.Bytes()
}

func (w *world) drawMeta(p kit.Plan) {
	switch p.W([]int{12, 1, 1, 1, 1, 1}) {
	case 0:
	case 5:
		// the document speaks for another server
		w.meta = map[string]any{"issuer": "https://victim.example.com", "jwks_uri": w.server + "/jwks", "token_endpoint": w.server + "/token", "introspection_endpoint": w.server + "/token/introspect"}
	case 1:
		w.meta = map[string]any{"issuer": w.server}
	case 2:
		w.meta = map[string]any{"issuer": w.server, "jwks_uri": "::bad", "token_endpoint": "::bad", "introspection_endpoint": "%zz"}
	case 3:
		w.meta = map[string]any{"issuer": 5}
	case 4:
		w.meta = map[string]any{"issuer": w.server, "jwks_uri": w.server + "/jwks?x=1&y=%20", "token_endpoint": w.server + "/token?tenant=a", "introspection_endpoint": w.server + "/token/introspect?tenant=b"}
	}
}

// ------------------------------------------------------------------ server

func (w *world) keySet() []byte {
	now := simrt.ClockOf(kit.StoreDom) / second
	s := map[string]any{}
	a := serverSet[w.gen%len(serverSet)].Pub
	a.KeyID = fmt.Sprintf("gen%d", w.gen)
	b := serverSet[(w.gen+1)%len(serverSet)].Pub
	b.KeyID = fmt.Sprintf("gen%d", w.gen+1)
	s["keys"] = []any{a, b}
	if w.ttl != 0 {
		s["exp"] = now + w.ttl
	}
	switch w.bulk {
	case 1:
		s["comment"] = strings.Repeat("large but genuine ", 1500)
	case 2:
		// many keys of other tenants
		l := []any{a, b}
		for i := 0; i < 60; i++ {
			k := serverSet[i%len(serverSet)].Pub
			k.KeyID = fmt.Sprintf("other%d", i)
			l = append(l, k)
		}
		s["keys"] = l
	}
	return mustJSON(s)
}

// serve is the authorization server.
func (w *world) serve(req *http.Request, form url.Values) (int, []byte, bool) {
	p := kit.Plan{S: simrt.StMisc}
	bad := func(st int, code string) (int, []byte, bool) {
		return st, mustJSON(map[string]string{"err": code, "error_description": "refused"}), false
	}
	auth := func() bool {
		a, t := form.Get("client_assertion"), form.Get("client_assertion_type")
		var err error
		var res *clientv1.AuthenticateResponse
		old := simrt.Mask(kit.StoreDom)
		defer simrt.Unmask(old)
		res, err = w.auth.Authenticate(context.Background(), &clientv1.AuthenticateRequest{ClientAssertionType: &t, ClientAssertion: &a})
		return err == nil && res != nil && res.Client != nil
	}
	post := req.Method == http.MethodPost && strings.HasPrefix(req.Header.Get("Content-Type"), "application/x-www-form-urlencoded")
	switch req.URL.Path {
	case "/.well-known/oauth-authorization-server":
		if req.Method != http.MethodGet {
			return bad(405, "invalid_request")
		}
		if w.meta != nil {
			return 200, mustJSON(w.meta), true
		}
		return 200, mustJSON(map[string]any{"issuer": w.server, "jwks_uri": w.server + "/jwks", "token_endpoint": w.server + "/token", "introspection_endpoint": w.server + "/token/introspect", "scopes_supported": []string{"openid"}}), true
	case "/jwks", "/moved/jwks":
		if req.Method != http.MethodGet {
			return bad(405, "invalid_request")
		}
		if w.flap {
			w.gen++
			w.ttl = []int64{0, 1, 2, 5, 50, 1}[w.gen%6]
			if w.burst {
				w.ttl = []int64{0, 1, 2}[w.gen%3]
			}
		}
		return 200, w.keySet(), true
	case "/token":
		if !post || form.Get("grant_type") != "client_credentials" || form.Get("client_assertion_type") != assertURN {
			return bad(400, "invalid_request")
		}
		if !auth() {
			return bad(401, "invalid_client")
		}
		w.nTok++
		m := map[string]any{"access_token": fmt.Sprintf("at-%d", w.nTok), "token_type": []string{"Bearer", "DPoP"}[p.N(2)], "scope": "openid"}
		if e := []int64{3600, 0, 1, 300}[p.N(4)]; e > 0 {
			m["expires_in"] = e
		}
		if p.Pct(30) {
			m["refresh_token"] = fmt.Sprintf("rt-%d<&\"é", w.nTok)
		}
		return 200, mustJSON(m), true
	case "/token/introspect":
		if !post || form.Get("client_assertion_type") != assertURN || form.Get("token") == "" {
			return bad(400, "invalid_request")
		}
		if !auth() {
			return bad(401, "invalid_client")
		}
		m := map[string]any{"active": p.Pct(70)}
		if m["active"] == true || p.Pct(20) {
			now := simrt.ClockOf(kit.StoreDom) / second
			pick := func(k string, v any) {
				if !p.Pct(12) {
					m[k] = v
				}
			}
			pick("iss", w.server)
			pick("sub", []string{"alice", "", "é\u2028", clientID}[p.N(4)])
			pick("aud", []string{"https://api.example.com", "urn:x"}[p.N(2)])
			pick("client_id", []string{"c1", clientID}[p.N(2)])
			pick("scope", []string{"openid", "openid profile", ""}[p.N(3)])
			pick("iat", now-10)
			pick("nbf", now-9)
			pick("exp", now+100)
			pick("jti", fmt.Sprintf("jti-%d", p.N(1000)))
			pick("token_type", "Bearer")
			if p.Pct(40) {
				m["cnf"] = map[string]string{"jkt": fmt.Sprintf("thumb-%d", p.N(100))}
				m["token_type"] = "DPoP"
			}
			if p.Pct(40) {
				m["acr"] = "silver"
			}
			if p.Pct(40) {
				m["auth_time"] = now - 50
			}
		}
		return 200, mustJSON(m), true
	}
	return bad(404, "not_found")
}

// --------------------------------------------------------------- transport

var errNet = errors.New("connection reset by peer")

// RoundTrip implements http.RoundTripper: the network and the server behind
// it.
func (w *world) RoundTrip(req *http.Request) (*http.Response, error) {
	r := w.r
	simrt.Seam()
	o := r.CurOp()
	var form url.Values
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		form, _ = url.ParseQuery(string(b))
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	x := &exchange{op: o, path: req.URL.Path, form: form, clean: true}
	if o != nil {
		x.node = o.Node
	}
	x.t0 = simrt.NowNanos()
	fault := func(k string) {
		r.Fault("net:" + k)
		x.clean = false
		if o != nil {
			o.Faults = append(o.Faults, "net:"+k)
		}
	}
	delay := func() {
		if r.Cfg.Latency > 0 && simrt.Chance(simrt.StFault, r.Cfg.Latency, 1000) {
			r.Fault("net:latency")
			simrt.Sleep([]int64{1, 50, 400, 1000, 4000, 35000}[simrt.Choose(simrt.StFault, 6)] * 1000000)
		}
		simrt.Seam()
	}
	kind := -1
	if w.rate > 0 && simrt.Chance(simrt.StFault, w.rate, 100) {
		kind = simrt.Choose(simrt.StFault, 22)
	}
	switch kind {
	case 0:
		fault("connect-error")
		return nil, errNet
	case 1:
		fault("cancel")
		if f, ok := req.Context().Value(cancelKey{}).(context.CancelFunc); ok {
			f()
			return nil, req.Context().Err()
		}
		return nil, errNet
	}
	delay()
	dup := 1
	if kind == 2 {
		fault("duplicate")
		dup = 2
	}
	var st int
	var data []byte
	for i := 0; i < dup; i++ {
		st, data, x.authed = w.serve(req, form)
	}
	prev, had := w.old[req.URL.Path]
	if st == 200 {
		w.old[req.URL.Path] = data
	}
	b := &body{w: w, data: data, err: io.EOF, path: req.URL.Path}
	resp := &http.Response{StatusCode: st, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json; charset=utf-8"}}, Request: req, ContentLength: int64(len(data))}
	switch kind {
	case 3:
		fault("lost-response")
		simrt.Sleep(second)
		return nil, errNet
	case 4, 5:
		fault("truncated")
		if len(data) > 0 {
			b.data = data[:simrt.Choose(simrt.StFault, len(data))]
		}
		b.err = io.ErrUnexpectedEOF
	case 6:
		fault("truncated-silently")
		if len(data) > 0 {
			b.data = data[:simrt.Choose(simrt.StFault, len(data))]
		}
	case 7:
		fault("empty-body")
		b.data = nil
	case 8, 9:
		fault("error-status")
		resp.StatusCode = []int{500, 503, 404, 401, 400, 429, 201, 204, 206, 203, 304}[simrt.Choose(simrt.StFault, 11)]
		if simrt.Choose(simrt.StFault, 2) == 0 {
			b.data = [][]byte{nil, []byte("<html>oops</html>"), []byte(`{"err":"server_error","error_description":"x"}`), []byte(`{"error":"server_error"}`), []byte("null")}[simrt.Choose(simrt.StFault, 5)]
		} // else: the genuine body under a failure status
	case 10:
		fault("malformed")
		l := []string{"", "null", "{}", "[]", "\"x\"", "{\"keys\":null}", "{\"keys\":[]}", "{\"keys\":[],\"exp\":9999999999}", "<html></html>", "{\"access_token\":5}", "{\"access_token\":\"\"}", "{\"active\":\"yes\"}", "{\"error\":\"invalid_client\"}", "\x00\x01", "{\"keys\":[{\"kty\":\"EC\"}]}", "{\"keys\":[null]}", "{\"keys\":{}}", "{\"exp\":9999999999}"}
		b.data = []byte(l[simrt.Choose(simrt.StFault, len(l))])
	case 11:
		fault("wrong-type")
		b.data = retype(data, simrt.Choose(simrt.StFault, 4))
	case 12, 13:
		if had {
			fault("stale-response")
			resp.StatusCode, b.data = 200, prev
		}
	case 14:
		fault("slow-body")
		b.slow = true
	case 15:
		fault("error-after-body")
		b.err = errNet
	case 16:
		fault("trailing-garbage")
		b.data = append(append([]byte(nil), data...), []byte("}garbage")...)
	case 17:
		fault("close-error")
		b.cerr = errNet
	case 18:
		if req.Method == http.MethodGet {
			fault("redirect")
			resp.StatusCode = []int{301, 302, 307, 308}[simrt.Choose(simrt.StFault, 4)]
			resp.Header.Set("Location", []string{w.server + "/moved" + req.URL.Path, req.URL.String(), "::bad", w.server + "/nowhere"}[simrt.Choose(simrt.StFault, 4)])
		}
	case 19:
		fault("expired-keys")
		b.data = bytes.Replace(data, []byte(`"exp":`), []byte(`"exp":1,"was":`), 1)
	case 20:
		fault("just-expired")
		now := simrt.NowNanos()/second + int64(simrt.Choose(simrt.StFault, 3)) - 1
		b.data = bytes.Replace(data, []byte(`"exp":`), []byte(fmt.Sprintf(`"exp":%d,"was":`, now)), 1)
	}
	delay()
	x.status, x.body = resp.StatusCode, b.data
	x.whole = b.err == io.EOF
	x.bodyC = b
	x.t1 = simrt.NowNanos()
	resp.Body = b
	w.seen = append(w.seen, x)
	r.Logf("%s %s -> %d %s", req.Method, req.URL.Path, x.status, clip(b.data))
	return resp, nil
}

func clip(b []byte) string {
	if len(b) > 120 {
		b = b[:120]
	}
	return fmt.Sprintf("%q", b)
}

// retype changes the type of one member of an object.
func retype(data []byte, k int) []byte {
	i := bytes.LastIndexByte(data, ':')
	if i < 0 {
		return data
	}
	return append(append([]byte(nil), data[:i+1]...), []byte([]string{`"x"}`, `{"a":1}}`, `-5}`, `1e400}`}[k])...)
}

type cancelKey struct{}

func background() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	return context.WithValue(ctx, cancelKey{}, cancel)
}

// ------------------------------------------------------------------ client

// end checks what must hold after any call; it reports whether results may be
// judged.
func (w *world) end(o *kit.Op) bool {
	r := w.r
	ok := true
	if r.CheckPanic(o, "C26") {
		r.CheckPanic(o, "C21")
		ok = false
	}
	if o.Crashed {
		return false
	}
	for _, x := range w.seen {
		if x.op == o && x.bodyC.closed == 0 {
			r.Fail("C26", "body-leaked:"+o.Kind, "%s left the body of %s (status %d) open", o.Kind, x.path, x.status)
		}
	}
	r.Notes["C26:calls"]++
	return ok
}

func (w *world) of(o *kit.Op, path string) []*exchange {
	var l []*exchange
	for _, x := range w.seen {
		if x.op == o && x.path == path {
			l = append(l, x)
		}
	}
	return l
}

func clean(o *kit.Op) bool { return o.Clean() }

func (w *world) connect(i int, opts *client.Options) {
	r := w.r
	var c client.Client
	var err error
	o := r.Do("connect", i, func() { c, err = client.HTTP(background(), w.server, opts) })
	r.Logf("connect node %d -> %v", i, err)
	if !w.end(o) {
		return
	}
	xs := w.of(o, "/.well-known/oauth-authorization-server")
	if err != nil {
		r.Notes["C26:connect-refused"]++
		if c != nil {
			r.Fail("C26", "client-with-error", "a client was returned together with error %v", err)
		}
		fit := false // the key set that arrived may be used
		for _, x := range w.of(o, "/jwks") {
			var ref jwksRef
			fit = x.status == 200 && first(x.body, &ref) == nil && len(ref.Keys) > 0 && (ref.Exp == 0 || ref.Exp > uint64(o.NMax/second))
		}
		if clean(o) && w.meta == nil && opts != nil && fit {
			r.Fail("C26", "connect-failed", "no fault, but the client could not be made: %v", err)
		}
		return
	}
	if opts == nil {
		return
	}
	if c == nil {
		r.Fail("C26", "nil-client", "neither a client nor an error")
		return
	}
	good := false
	md := c.ServerMetadata()
	for _, x := range xs {
		var ref struct {
			Issuer string `json:"issuer"`
			Jwks   string `json:"jwks_uri"`
			Token  string `json:"token_endpoint"`
			Intro  string `json:"introspection_endpoint"`
		}
		if x.status == 200 && first(x.body, &ref) == nil && md != nil && md.Issuer == ref.Issuer && md.JwksUri == ref.Jwks && md.TokenEndpoint == ref.Token && md.IntrospectionEndpoint == ref.Intro {
			good = true
		}
	}
	if !good {
		r.Fail("C26", "metadata-differs", "the client was made from metadata no successful response carried: %v", md)
		return
	}
	r.Notes["C26:connected"]++
	w.cl[i] = c
}

// first decodes the first JSON value.
func first(b []byte, v any) error { return json.NewDecoder(bytes.NewReader(b)).Decode(v) }

type jwksRef struct {
	Keys []jose.JSONWebKey `json:"keys"`
	Exp  uint64            `json:"exp"`
}

func (w *world) publicKeys(i int) {
	r := w.r
	c := w.cl[i]
	if c == nil {
		return
	}
	var ks *jose.JSONWebKeySet
	var exp uint64
	var err error
	var got []byte
	o := r.Do("PublicKeys", i, func() {
		ks, exp, err = c.PublicKeys(background())
	})
	if !w.end(o) {
		return
	}
	if ks != nil && err == nil {
		got = render(ks.Keys)
	}
	r.Logf("public keys -> exp %d %v %s", exp, err, clip(got))
	jw := w.jwksPath(c)
	if err != nil {
		r.Notes["C26:keys-refused"]++
		if ks != nil {
			r.Fail("C26", "keys-with-error", "keys were returned together with error %v", err)
		}
		// a clean call must succeed
		if clean(o) && jw {
			for _, x := range w.of(o, "/jwks") {
				var ref jwksRef
				if x.status == 200 && first(x.body, &ref) == nil && len(ref.Keys) > 0 && (ref.Exp == 0 || ref.Exp > uint64(o.NMax/second)) {
					r.Fail("C26", "keys-refused", "a good key set was refused: %v", err)
				}
			}
		}
		return
	}
	if ks == nil || len(ks.Keys) == 0 {
		r.Fail("C26", "no-keys", "success without keys")
		return
	}
	if exp != 0 && exp <= uint64(o.NMin/second) {
		r.Fail("C26", "expired-keys", "keys that expired at %d were returned at %d or later", exp, o.NMin/second)
		return
	}
	why := "no response carried them"
	for _, x := range w.seen {
		if x.path != "/jwks" && x.path != "/moved/jwks" || x.node != i || x.op.Inv > o.Ret {
			continue
		}
		var ref jwksRef
		if e := first(x.body, &ref); e != nil && (len(ref.Keys) == 0) {
			continue
		} else if e != nil {
			if bytes.Equal(render(ref.Keys), got) {
				why = "the response that carried them was not whole"
			}
			continue
		}
		if !bytes.Equal(render(ref.Keys), got) {
			continue
		}
		if x.status != 200 {
			why = fmt.Sprintf("the response that carried them had status %d", x.status)
			continue
		}
		if ref.Exp != exp {
			why = fmt.Sprintf("they came with expiry %d", ref.Exp)
			continue
		}
		if x.op != o && exp == 0 {
			why = "they came in an earlier response without validity"
			continue
		}
		r.Notes["C26:keys-returned"]++
		if x.op != o {
			r.Notes["C26:keys-from-cache"]++
		}
		return
	}
	r.Fail("C26", "keys-unfounded", "keys %s (expiry %d) were returned although %s", clip(got), exp, why)
}

func (w *world) jwksPath(c client.Client) bool {
	return c.ServerMetadata().JwksUri != "" && strings.HasPrefix(c.ServerMetadata().JwksUri, w.server+"/jwks")
}

func (w *world) assertion(i int) (string, int64, int64) {
	r := w.r
	c := w.cl[i]
	var a string
	var err error
	o := r.Do("Assertion", i, func() { a, err = c.Assertion() })
	if !w.end(o) {
		return "", 0, 0
	}
	if err != nil || a == "" {
		r.Fail("C26", "assertion-failed", "the client could not make an assertion: %v", err)
		return "", 0, 0
	}
	if w.asserted[a] {
		r.Fail("C26", "assertion-repeated", "the same assertion was made twice")
	}
	w.asserted[a] = true
	var cl struct {
		J   string  `json:"jti"`
		I   string  `json:"iss"`
		S   string  `json:"sub"`
		A   string  `json:"aud"`
		Exp float64 `json:"exp"`
	}
	if s := strings.Split(a, "."); len(s) == 3 {
		b, _ := base64.RawURLEncoding.DecodeString(s[1])
		if json.Unmarshal(b, &cl) != nil {
			cl.J = ""
		}
	}
	if cl.J == "" || w.asserted[cl.J] {
		r.Fail("C26", "assertion-identifier", "the assertion identifier %q is empty or was used before", cl.J)
	}
	w.asserted[cl.J] = true
	if cl.I != clientID || cl.S != clientID || cl.A != w.server {
		r.Fail("C26", "assertion-claims", "the assertion speaks for issuer %q, subject %q at %q", cl.I, cl.S, cl.A)
	}
	if int64(cl.Exp) < o.NMin/second+30 || int64(cl.Exp) > o.NMax/second+30 {
		r.Fail("C26", "assertion-lifetime", "an assertion made at %d expires at %d", o.NMax/second, int64(cl.Exp))
	}
	return a, o.NMin, o.NMax
}

// lifetime: the assertion made between g0 and g1 (client clock) reached the
// server between s0 and s1.
func (w *world) judgeAuth(o *kit.Op, path string, g0, g1 int64) (must, mustNot bool) {
	must, mustNot = true, true
	n := 0
	for _, x := range w.seen {
		if x.op == o && x.path == path {
			n++
		}
	}
	if n == 0 {
		return false, false
	}
	s0, s1 := o.S0, o.S1
	must = s1 < g0+30*second
	mustNot = s0 >= g1+31*second
	return
}

func (w *world) clientCredentials(p kit.Plan, i int, given string) {
	r := w.r
	c := w.cl[i]
	if c == nil {
		return
	}
	a, g0, g1 := given, int64(0), int64(0)
	real := given == ""
	if real {
		a, g0, g1 = w.assertion(i)
		if a == "" {
			return
		}
		if p.Pct(30) {
			simrt.Sleep([]int64{1, 20, 28, 29, 30, 31, 32, 60}[p.N(8)] * second)
		}
	}
	var t *oauth2.Token
	var err error
	o := r.Do("ClientCredentials", i, func() { t, err = c.ClientCredentials(background(), a) })
	r.Logf("client credentials -> %v", err)
	if !w.end(o) {
		return
	}
	xs := w.of(o, "/token")
	if err != nil {
		r.Notes["C26:token-refused"]++
		if t != nil {
			r.Fail("C26", "token-with-error", "a token was returned together with error %v", err)
		}
		if real && clean(o) && strings.HasPrefix(c.ServerMetadata().TokenEndpoint, w.server+"/token") {
			if must, _ := w.judgeAuth(o, "/token", g0, g1); must {
				r.Fail("C26", "assertion-refused", "an assertion %d ms old was refused: %v", (o.S1-g0)/1000000, err)
			}
		}
		return
	}
	if t == nil || t.AccessToken == "" {
		r.Fail("C26", "no-token", "success without an access token")
		return
	}
	for _, x := range xs {
		var ref struct {
			A string `json:"access_token"`
			T string `json:"token_type"`
			R string `json:"refresh_token"`
			E uint64 `json:"expires_in"`
		}
		if x.status != 200 || first(x.body, &ref) != nil || ref.A == "" {
			continue
		}
		if t.AccessToken != ref.A || t.TokenType != ref.T || t.RefreshToken != ref.R {
			continue
		}
		if ref.E == 0 && !t.Expiry.IsZero() || ref.E > 0 && (t.Expiry.Unix() < o.NMin/second+int64(ref.E)-1 || t.Expiry.Unix() > o.NMax/second+int64(ref.E)+1) {
			r.Fail("C26", "token-lifetime", "the server gave the token %d s, the client says it expires at %v (now %v)", ref.E, t.Expiry, time.Unix(0, o.NMax).UTC())
		}
		if x.clean && real {
			if _, mustNot := w.judgeAuth(o, "/token", g0, g1); mustNot && clean(o) {
				r.Fail("C26", "old-assertion-accepted", "an assertion %d ms old still authenticated the client", (o.S0-g1)/1000000)
			}
		}
		r.Notes["C26:token-returned"]++
		w.tokens = append(w.tokens, t.AccessToken)
		return
	}
	r.Fail("C26", "token-unfounded", "token %q (%s) was returned although no successful response carried it", t.AccessToken, t.TokenType)
}

var oddTokens = []string{"tok", "a b+c&d=e%20", "é\u2028", "sldat_0_1", strings.Repeat("x", 2000)}

func (w *world) introspect(p kit.Plan, i int) {
	r := w.r
	c := w.cl[i]
	if c == nil {
		return
	}
	a, g0, g1 := w.assertion(i)
	if a == "" {
		return
	}
	if p.Pct(15) {
		simrt.Sleep([]int64{1, 28, 30, 32}[p.N(4)] * second)
	}
	tok := oddTokens[p.N(len(oddTokens))]
	if len(w.tokens) > 0 && p.Pct(50) {
		tok = w.tokens[p.N(len(w.tokens))]
	}
	var t *tokenv1.Token
	var err error
	o := r.Do("Introspect", i, func() { t, err = c.Introspect(background(), a, tok) })
	r.Logf("introspect -> %v %v", t, err)
	if !w.end(o) {
		return
	}
	if err != nil {
		r.Notes["C26:introspection-refused"]++
		if t != nil {
			r.Fail("C26", "introspection-with-error", "a result was returned together with error %v", err)
		}
		if clean(o) && strings.HasPrefix(c.ServerMetadata().IntrospectionEndpoint, w.server+"/token/introspect") {
			if must, _ := w.judgeAuth(o, "/token/introspect", g0, g1); must {
				r.Fail("C26", "introspection-refused", "an assertion %d ms old was refused: %v", (o.S1-g0)/1000000, err)
			}
		}
		return
	}
	if t == nil {
		r.Fail("C26", "no-introspection", "success without a result")
		return
	}
	if t.Value != tok {
		r.Fail("C26", "introspection-differs", "asked about %q, answered about %q", tok, t.Value)
	}
	last := ""
	for _, x := range w.of(o, "/token/introspect") {
		if x.status != 200 {
			continue
		}
		if x.form.Get("token") != tok {
			last = "the server was asked about another token"
			continue
		}
		var ref map[string]any
		if d := json.NewDecoder(bytes.NewReader(x.body)); true {
			d.UseNumber()
			if d.Decode(&ref) != nil {
				continue
			}
		}
		act, isBool := ref["active"].(bool)
		if !isBool {
			last = "the response does not say whether the token is active"
			continue
		}
		if last = w.same(t, ref, act); last == "" {
			r.Notes["C26:introspected"]++
			return
		}
	}
	r.Fail("C26", "introspection-differs", "result %v does not come from a successful response: %s", t, last)
}

func (w *world) same(t *tokenv1.Token, ref map[string]any, active bool) string {
	if active != (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) {
		return "active differs"
	}
	str := func(k string) string { s, _ := ref[k].(string); return s }
	num := func(k string) uint64 {
		f, _ := ref[k].(json.Number)
		n, _ := strconv.ParseUint(string(f), 10, 64)
		return n
	}
	m := t.Metadata
	if m == nil {
		m = &tokenv1.TokenMeta{}
	}
	for _, c := range []struct {
		n    string
		a, b any
	}{
		{"jti", t.TokenId, str("jti")}, {"iss", m.Issuer, str("iss")}, {"sub", m.Subject, str("sub")}, {"aud", m.Audience, str("aud")}, {"client_id", m.ClientId, str("client_id")},
		{"scope", m.Scope, str("scope")}, {"iat", m.IssuedAt, num("iat")}, {"nbf", m.NotBefore, num("nbf")}, {"exp", m.ExpiresAt, num("exp")},
		{"acr", m.GetAcr(), str("acr")}, {"auth_time", m.GetAuthTime(), num("auth_time")},
	} {
		if c.a != c.b {
			return fmt.Sprintf("%s is %v instead of %v", c.n, c.a, c.b)
		}
	}
	jkt := ""
	if cnf, ok := ref["cnf"].(map[string]any); ok {
		jkt, _ = cnf["jkt"].(string)
	}
	if _, has := ref["cnf"]; has != (t.Confirmation != nil) || t.Confirmation.GetJkt() != jkt {
		return "cnf differs"
	}
	if (ref["acr"] != nil) != (m.Acr != nil) || (ref["auth_time"] != nil) != (m.AuthTime != nil) {
		return "presence of acr or auth_time differs"
	}
	return ""
}

func (w *world) step(p kit.Plan) {
	r := w.r
	i := p.N(r.Cfg.Nodes)
	if w.burst {
		for k := 0; k < 4; k++ {
			if p.Pct(25) {
				simrt.Sleep(second)
			}
			w.publicKeys(i)
		}
		return
	}
	switch p.W([]int{8, 4, 4, 2, 2, 2, 1}) {
	case 0:
		w.publicKeys(i)
	case 1:
		w.clientCredentials(p, i, "")
	case 2:
		w.introspect(p, i)
	case 3:
		w.gen++
		w.ttl = []int64{0, 1, 3, 30, 3600}[p.N(5)]
		r.Logf("server keys rotate to generation %d, valid %d s", w.gen, w.ttl)
		r.Fault("key-rotation")
	case 4:
		simrt.Sleep([]int64{500000000, second, 2 * second, 10 * second, 40 * second}[p.N(5)])
	case 5:
		w.connect(i, w.opts[i])
	case 6:
		w.odd(p, i)
	}
}

// odd exercises unusual arguments.
func (w *world) odd(p kit.Plan, i int) {
	r := w.r
	switch p.N(4) {
	case 0:
		w.connect(i, nil)
	case 1:
		if w.cl[i] != nil {
			w.clientCredentials(p, i, []string{"x", "a.b.c", "é"}[p.N(3)])
		}
	case 2:
		bad := &client.Options{ClientID: clientID, JWK: [][]byte{nil, []byte("{}"), []byte("null"), []byte("garbage"), mustJSON(serverSet[2].Priv), []byte(`{"kty":"oct","k":"AAAA"}`)}[p.N(6)]}
		var c client.Client
		var err error
		o := r.Do("connect", i, func() { c, err = client.HTTP(background(), w.server, bad) })
		if !w.end(o) || err != nil || c == nil {
			return
		}
		var a string
		o = r.Do("Assertion", i, func() { a, err = c.Assertion() })
		if w.end(o) && (err == nil || a != "") {
			r.Fail("C26", "assertion-unfounded", "an assertion was made without an ES384 key: %q", a)
		}
	default:
		var c client.Client
		var err error
		iss := []string{"", "::", "https://as.example.com/%zz", "http://nowhere.invalid"}[p.N(4)]
		o := r.Do("connect", i, func() { c, err = client.HTTP(background(), iss, w.opts[i]) })
		_ = c
		_ = err
		w.end(o)
	}
}

var _ = oidc.AssertionTypeJWTBearer
