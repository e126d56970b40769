package oauth

import (
	"context"
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// operation kinds of an agent
const (
	kPush = iota
	kAuthorize
	kAuthorizeURI
	kRedeem
	kCC
	kRefresh
	kExchange
	kIntrospect
	kRevoke
	kDevStart
	kApprove
	kPoll
	kSleep
	kMalformed
	kFlow
	nKinds
)

// mixes weighs the operations by the property the batch is about.
var mixes = map[string][nKinds]int{
	"":    {5, 5, 5, 8, 3, 6, 5, 5, 4, 4, 4, 5, 5, 2, 3},
	"C01": {1, 8, 2, 20, 0, 1, 0, 1, 0, 0, 0, 0, 3, 1, 0},
	"C02": {2, 10, 3, 20, 0, 1, 0, 1, 0, 0, 0, 0, 6, 1, 0},
	"C03": {12, 1, 20, 6, 0, 0, 0, 0, 0, 0, 0, 0, 5, 1, 0},
	"C04": {12, 20, 8, 4, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2, 0},
	"C05": {2, 6, 2, 10, 5, 8, 6, 2, 1, 3, 3, 4, 4, 0, 4},
	"C06": {0, 2, 0, 3, 0, 20, 0, 3, 2, 1, 1, 1, 8, 1, 6},
	"C07": {0, 2, 0, 3, 5, 1, 20, 2, 3, 0, 0, 0, 8, 1, 4},
	"C08": {0, 2, 0, 3, 4, 8, 6, 10, 12, 0, 0, 0, 5, 1, 4},
	"C09": {0, 2, 0, 3, 4, 4, 3, 20, 5, 0, 0, 0, 6, 2, 4},
	"C10": {0, 0, 0, 0, 0, 2, 0, 1, 0, 8, 10, 20, 6, 1, 0},
	"C11": {0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 20, 14, 6, 1, 0},
	"C18": {5, 4, 6, 8, 3, 6, 6, 8, 6, 4, 5, 5, 2, 0, 3},
	"C21": {5, 5, 5, 6, 3, 6, 5, 5, 5, 4, 4, 5, 2, 20, 3},
}

// Main is the body of one simulated run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	ctx = r.Ctx(context.Background())
	r.Calendar()
	on := r.Cfg
	r.FaultsOn = false
	w := New(r)
	if len(w.Clients) < 9 {
		return
	}
	w.epi = true
	first := w.prologue(kit.Plan{S: simrt.StMisc})
	w.epi = false
	r.FaultsOn = on.Profile != "none"
	mix, ok := mixes[r.Prop]
	if !ok {
		mix = mixes[""]
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			if first != nil {
				first(p)
			}
			for k := 0; k < r.Cfg.OpsPer && !r.Broken(); k++ {
				w.step(p, mix)
			}
		}))
	}
	if on.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() { w.chaos() }))
	}
	if on.Jump {
		ts = append(ts, simrt.Spawn("clock", func() { w.jumps() }))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	r.FaultsOn = false
	w.finish()
	for i := range w.Nodes {
		simrt.SetSkew(i, 0)
	}
	w.epi = true
	w.epilogue(kit.Plan{S: simrt.StMisc})
}

func (w *World) chaos() {
	for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
		for n := simrt.Choose(simrt.StFault, 30); n > 0; n-- {
			simrt.Sleep(0)
		}
		w.R.Fault("node-crash")
		i := simrt.Choose(simrt.StFault, len(w.Nodes))
		w.R.Logf("node %d crashes and restarts", i)
		simrt.CrashNode(i)
		w.Nodes[i] = w.newNode(i)
	}
}

func (w *World) jumps() {
	for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
		for n := simrt.Choose(simrt.StFault, 20); n > 0; n-- {
			simrt.Sleep(0)
		}
		d := []int64{1, -1, 20, -20, 90, -90, 3700, -3700, 8 * 86400}[simrt.Choose(simrt.StFault, 9)]
		w.R.Jump(simrt.Choose(simrt.StFault, len(w.Nodes)), d*1e9)
	}
}

var sleeps = []int64{0, 1, 5, 30, 58, 61, 119, 122, 590, 3541, 3599, 3601, 86400, 7*86400 - 3600, 7*86400 - 1, 7 * 86400}

func (w *World) sleep(p plan) {
	d := sleeps[p.W([]int{4, 4, 4, 4, 4, 3, 2, 2, 3, 2, 2, 2, 2, 3, 1, 1})]
	w.R.Logf("sleep %ds", d)
	simrt.Sleep(d * 1e9)
}

func (w *World) step(p plan, mix [nKinds]int) {
	k := p.W(mix[:])
	n := 1
	if k < kSleep && p.N(120) == 119 {
		w.R.Fault("load:storm") // one kind of request, many times in a row
		n = 12 + p.N(24)
	}
	for ; n > 0 && !w.R.Broken(); n-- {
		w.one(p, k)
	}
}

func (w *World) one(p plan, k int) {
	switch k {
	case kPush:
		w.opPush(p)
	case kAuthorize:
		w.opAuthorize(p)
	case kAuthorizeURI:
		w.opAuthorizeURI(p)
	case kRedeem:
		w.opRedeem(p)
	case kCC:
		w.opCC(p)
	case kRefresh:
		w.opRefresh(p)
	case kExchange:
		w.opExchange(p)
	case kIntrospect:
		w.opIntrospect(p)
	case kRevoke:
		w.opRevoke(p)
	case kDevStart:
		w.opDeviceStart(p)
	case kApprove:
		w.opApprove(p)
	case kPoll:
		w.opPoll(p)
	case kSleep:
		w.sleep(p)
	case kMalformed:
		w.opMalformed(p)
	case kFlow:
		w.opFlow(p)
	}
}

// opFlow runs a whole code flow, so that tokens of every kind exist.
func (w *World) opFlow(p plan) (at, rt *Tok) {
	c := w.pickClient(p, oidc.GrantTypeAuthorizationCode)
	q := w.authzRequest(p, c)
	q.Scope, q.Prompt = "openid email offline_access", proto.String("consent")
	k := w.authorize(p, c, q, w.Iss[p.N(len(w.Iss))], w.node(p), w.subject(p))
	if k == nil {
		return nil, nil
	}
	return w.redeem(p, k, w.node(p))
}

// prologue prepares artefacts without faults and returns what every agent does
// first (a burst of contention on one artefact).
func (w *World) prologue(p plan) func(plan) {
	type kind int
	pref := map[string][]int{
		"C01": {0}, "C02": {0, 5, 5}, "C03": {1}, "C04": {5, 1}, "C05": {3, 3, 5, 0}, "C06": {3}, "C07": {4}, "C08": {4, 3}, "C09": {4, 3},
		"C10": {2, 6}, "C11": {6}, "C18": {5, 4, 3, 0, 1, 2}, "C21": {5, 0, 1, 2, 3, 4, 6}, "C22": {0, 1, 2, 3, 4, 6},
	}[w.R.Prop]
	if pref == nil || p.N(3) == 0 {
		pref = []int{5, 5, 0, 1, 2, 3, 4, 6}
	}
	k := pref[p.N(len(pref))]
	iss := w.Iss[p.N(len(w.Iss))]
	code := func() *Code {
		c := w.pickClient(p, oidc.GrantTypeAuthorizationCode)
		q := w.authzRequest(p, c)
		if p.N(3) > 0 {
			q.Scope, q.Prompt = "openid profile email offline_access", proto.String("consent")
		}
		return w.authorize(p, c, q, iss, w.node(p), w.subject(p))
	}
	dev := func() *Dev {
		return w.deviceStart(p, w.pickClient(p, oidc.GrantTypeDeviceCode), iss, w.node(p))
	}
	if p.N(2) == 1 {
		// some tokens to work on
		w.opFlow(p)
		w.opCC(p)
	}
	switch k {
	case 0:
		if c := code(); c != nil {
			return func(p plan) { w.redeem(p, c, w.node(p)) }
		}
	case 1:
		if pr := w.opPush(p); pr != nil {
			return func(p plan) { w.authorizeURI(p, pr, w.node(p), w.subject(p)) }
		}
	case 2:
		if d := dev(); d != nil {
			w.approve(p, d, w.subject(p), w.node(p))
			return func(p plan) { w.poll(p, d, w.node(p)) }
		}
	case 6:
		if d := dev(); d != nil {
			return func(p plan) {
				if p.N(4) == 3 {
					w.poll(p, d, w.node(p))
				} else {
					w.approve(p, d, w.subject(p), w.node(p))
				}
			}
		}
	case 3:
		if _, rt := w.opFlow(p); rt != nil {
			simrt.Sleep([]int64{0, 100, 7*86400 - 3599, 7*86400 - 3000, 7*86400 - 5, 7 * 86400}[p.N(6)] * 1e9)
			return func(p plan) {
				switch p.W([]int{8, 2, 1}) {
				case 0:
					w.refresh(p, rt, w.node(p))
				case 1:
					w.introspect(p, rt, w.node(p))
				case 2:
					w.revoke(p, rt, w.node(p))
				}
			}
		}
	case 4:
		at, rt := w.opFlow(p)
		if at != nil {
			if rt != nil && p.N(2) == 1 {
				at = rt
			}
			isRT := at.rec.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
			return func(p plan) {
				switch p.W([]int{3, 3, 3}) {
				case 0:
					w.revoke(p, at, w.node(p))
				case 1:
					w.introspect(p, at, w.node(p))
				case 2:
					if isRT {
						w.refresh(p, at, w.node(p))
					} else {
						w.exchange(p, at, w.pickClient(p, oidc.GrantTypeTokenExchange), w.node(p))
					}
				}
			}
		}
	}
	return nil
}

// epilogue: faults have stopped; every flow must complete at once.
func (w *World) epilogue(p plan) {
	r := w.R
	if r.Broken() {
		return
	}
	iss := w.Iss[p.N(len(w.Iss))]
	stuck := func(what string, ok bool) bool {
		if !ok {
			r.Fail("C22", "epilogue:"+what, "after every fault stopped: %s does not complete", what)
		}
		return ok
	}
	web := func() *CM { return w.Clients[p.N(3)] }
	// code flow, direct
	c := web()
	q := w.authzRequest(p, c)
	q.Scope, q.Prompt = "openid offline_access", proto.String("consent")
	k := w.authorize(p, c, q, iss, w.node(p), w.subject(p))
	if stuck("authorize", k != nil) {
		at, rt := w.redeem(p, k, w.node(p))
		if stuck("redeem", at != nil && rt != nil) {
			stuck("refresh", w.refresh(p, rt, w.node(p)).ok)
			stuck("introspect", w.introspect(p, at, w.node(p)).active)
			if w.Mode != "jwt" || at.rec.Metadata.Subject != "" {
				stuck("exchange", w.exchange(p, at, w.Clients[p.N(2)], w.node(p)) != nil)
			}
			stuck("revoke", w.revoke(p, at, w.node(p)).ok)
			in := w.introspect(p, at, w.node(p))
			stuck("introspect", !in.failed && !in.active)
		}
	}
	// code flow, pushed
	c = web()
	q = w.authzRequest(p, c)
	q.Scope = "openid profile"
	if pr := w.push(p, c, q, iss, w.node(p)); stuck("push", pr != nil) {
		k := w.authorizeURI(p, pr, w.node(p), w.subject(p))
		if stuck("authorize-uri", k != nil) {
			at, _ := w.redeem(p, k, w.node(p))
			stuck("redeem", at != nil)
		}
	}
	if w.Mode != "jwt" {
		stuck("client-credentials", w.clientCreds(p, w.Clients[p.N(2)], iss, w.node(p)) != nil)
	}
	// device flow
	for i := 0; i < 4; i++ {
		d := w.deviceStart(p, web(), iss, w.node(p))
		if !stuck("device-start", d != nil) {
			return
		}
		if w.Mode == "jwt" && (d.scope == nil || d.aud == nil) {
			continue
		}
		_, u := w.poll(p, d, w.node(p))
		stuck("device-pending", u.errc == "authorization_pending")
		stuck("device-approve", w.approve(p, d, w.subject(p), w.node(p)).ok)
		t, _ := w.poll(p, d, w.node(p))
		stuck("device-poll", t != nil)
		break
	}
}

// opMalformed sends a request no client may expect to be served.
func (w *World) opMalformed(p plan) {
	r := w.R
	n := w.node(p)
	iss := w.Iss[p.N(len(w.Iss))]
	c := w.Clients[p.N(len(w.Clients))]
	val := "junk"
	if t := w.pickTok(p, 0); t != nil {
		val, iss = t.rec.Value, t.iss
		c = t.cl
	}
	good := w.authzRequest(p, w.Clients[0])
	var e *corev1.Error
	var err error
	var handed, none bool
	kind, variant := "", ""
	tok := func(q *flowv1.TokenRequest) {
		kind = "malformed-token"
		o := r.Do(kind, n.ID, func() {
			var res *flowv1.TokenResponse
			res, err = n.Tok.Token(ctx, q)
			e, handed, none = res.GetError(), res.GetAccessToken() != nil || res.GetRefreshToken() != nil, res == nil
		})
		w.malformed(o, none, e, err, handed, variant)
	}
	authz := func(q *flowv1.AuthorizeRequest) {
		kind = "malformed-authorize"
		o := r.Do(kind, n.ID, func() {
			var res *flowv1.AuthorizeResponse
			res, err = n.Authz.Authorize(ctx, q)
			e, handed, none = res.GetError(), res.GetCode() != "", res == nil
		})
		w.malformed(o, none, e, err, handed, variant)
	}
	push := func(q *flowv1.RegistrationRequest) {
		kind = "malformed-push"
		o := r.Do(kind, n.ID, func() {
			var res *flowv1.RegistrationResponse
			res, err = n.Authz.Register(ctx, q)
			e, handed, none = res.GetError(), res.GetRequestUri() != "", res == nil
		})
		w.malformed(o, none, e, err, handed, variant)
	}
	intro := func(q *tokenv1.IntrospectRequest) {
		kind = "malformed-introspect"
		o := r.Do(kind, n.ID, func() {
			var res *tokenv1.IntrospectResponse
			res, err = n.Tok.Introspect(ctx, q)
			e, handed, none = res.GetError(), res.GetToken() != nil, res == nil
		})
		w.malformed(o, none, e, err, handed, variant)
	}
	rev := func(q *tokenv1.RevokeRequest) {
		kind = "malformed-revoke"
		o := r.Do(kind, n.ID, func() {
			var res *tokenv1.RevokeResponse
			res, err = n.Tok.Revoke(ctx, q)
			e, none = res.GetError(), res == nil
		})
		w.malformed(o, none, e, err, false, variant)
	}
	dev := func(q *flowv1.DeviceAuthorizationRequest) {
		kind = "malformed-device"
		o := r.Do(kind, n.ID, func() {
			var res *flowv1.DeviceAuthorizationResponse
			res, err = n.Dev.Authorize(ctx, q)
			e, handed, none = res.GetError(), res.GetDeviceCode() != "" || res.GetUserCode() != "", res == nil
		})
		w.malformed(o, none, e, err, handed, variant)
	}
	appr := func(q *flowv1.DeviceCodeValidationRequest) {
		kind = "malformed-approve"
		o := r.Do(kind, n.ID, func() {
			var res *flowv1.DeviceCodeValidationResponse
			res, err = n.Dev.Validate(ctx, q)
			e, none = res.GetError(), res == nil
		})
		w.malformed(o, none, e, err, false, variant)
	}
	ac := &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: pad("c", 32), RedirectUri: "https://shared.example/cb", CodeVerifier: pad("v", 43)}}
	grants := []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}
	g := grants[p.N(len(grants))]
	cl := w.clientArg(w.Clients[p.N(3)])
	switch k := p.N(36); k {
	case 0:
		variant = "nil-request"
		tok(nil)
	case 1:
		variant = "nil-grant:" + g
		if g == oidc.GrantTypeClientCredentials {
			variant, g = "nil-grant:code", oidc.GrantTypeAuthorizationCode
		}
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: g})
	case 2:
		variant = "nil-client:" + g
		tok(&flowv1.TokenRequest{Issuer: iss, GrantType: g, Grant: ac})
	case 3:
		variant = "mismatched-grant:" + g
		if g == oidc.GrantTypeAuthorizationCode {
			variant, g = "mismatched-grant:refresh", oidc.GrantTypeRefreshToken
		}
		if g == oidc.GrantTypeClientCredentials {
			variant, g = "mismatched-grant:device", oidc.GrantTypeDeviceCode
		}
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: g, Grant: ac})
	case 4:
		variant = "nil-inner-grant"
		in := []any{&flowv1.TokenRequest_AuthorizationCode{}, &flowv1.TokenRequest_DeviceCode{}, &flowv1.TokenRequest_RefreshToken{}, &flowv1.TokenRequest_TokenExchange{}}[p.N(4)]
		q := &flowv1.TokenRequest{Issuer: iss, Client: cl}
		switch v := in.(type) {
		case *flowv1.TokenRequest_AuthorizationCode:
			q.GrantType, q.Grant = oidc.GrantTypeAuthorizationCode, v
		case *flowv1.TokenRequest_DeviceCode:
			q.GrantType, q.Grant = oidc.GrantTypeDeviceCode, v
		case *flowv1.TokenRequest_RefreshToken:
			q.GrantType, q.Grant = oidc.GrantTypeRefreshToken, v
		case *flowv1.TokenRequest_TokenExchange:
			q.GrantType, q.Grant = oidc.GrantTypeTokenExchange, v
		}
		variant += ":" + q.GrantType
		tok(q)
	case 5:
		variant = "unknown-grant"
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: []string{"", "password", "implicit", strings.ToUpper(g)}[p.N(3)], Grant: ac})
	case 6:
		variant = "empty-issuer"
		tok(&flowv1.TokenRequest{Client: cl, GrantType: oidc.GrantTypeAuthorizationCode, Grant: ac})
	case 7:
		variant = "bad-issuer"
		tok(&flowv1.TokenRequest{Issuer: "::", Client: cl, GrantType: oidc.GrantTypeAuthorizationCode, Grant: ac})
	case 8:
		variant = "unknown-client:" + g
		tok(&flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: "unknown", GrantTypes: grants}, GrantType: g, Grant: ac})
	case 9:
		variant = "empty-client"
		tok(&flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{}, GrantType: g, Grant: ac})
	case 10:
		variant = "empty-refresh"
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: oidc.GrantTypeRefreshToken, Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{}}})
	case 11:
		variant = "empty-device-code"
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: oidc.GrantTypeDeviceCode, Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: cl.ClientId}}})
	case 12:
		variant = "empty-subject-token"
		tok(&flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	case 13:
		variant = "nil-request"
		authz(nil)
	case 14:
		variant = "nil-inner"
		authz(&flowv1.AuthorizeRequest{Issuer: iss, Subject: "alice", Client: cl})
	case 15:
		variant = "empty-inner"
		authz(&flowv1.AuthorizeRequest{Issuer: iss, Subject: "alice", Request: &flowv1.AuthorizationRequest{}})
	case 16:
		variant = "no-subject"
		authz(&flowv1.AuthorizeRequest{Issuer: iss, Request: good})
	case 17:
		variant = "no-issuer"
		authz(&flowv1.AuthorizeRequest{Subject: "alice", Request: good})
	case 18:
		variant = "other-client"
		oc := w.Clients[1]
		if oc.ID == good.ClientId {
			oc = w.Clients[0]
		}
		authz(&flowv1.AuthorizeRequest{Issuer: iss, Subject: "alice", Client: w.clientArg(oc), Request: good})
	case 19:
		variant = "unknown-uri"
		authz(&flowv1.AuthorizeRequest{Issuer: iss, Subject: "alice", Client: cl, Request: &flowv1.AuthorizationRequest{RequestUri: proto.String([]string{"", "urn:solid:", "urn:solid:" + pad("z", 32), "https://evil.example/request", pad("a", 32)}[p.N(5)])}})
	case 20:
		variant = "nil-request"
		push(nil)
	case 21:
		variant = "nil-inner"
		push(&flowv1.RegistrationRequest{Issuer: iss, Client: cl})
	case 22:
		variant = "no-client"
		push(&flowv1.RegistrationRequest{Issuer: iss, Request: good})
	case 23:
		variant = "no-issuer"
		push(&flowv1.RegistrationRequest{Client: w.clientArg(w.Clients[0]), Request: good})
	case 24:
		variant = "nil-request"
		intro(nil)
	case 25:
		variant = "no-issuer"
		intro(&tokenv1.IntrospectRequest{Client: w.clientArg(c), Token: val})
	case 26:
		variant = "no-client"
		intro(&tokenv1.IntrospectRequest{Issuer: iss, Token: val})
	case 27:
		variant = "no-token"
		intro(&tokenv1.IntrospectRequest{Issuer: iss, Client: w.clientArg(c)})
	case 28:
		variant = "nil-request"
		rev(nil)
	case 29:
		variant = "no-client"
		rev(&tokenv1.RevokeRequest{Issuer: iss, Token: val})
	case 30:
		variant = "no-issuer"
		rev(&tokenv1.RevokeRequest{Client: w.clientArg(c), Token: val})
	case 31:
		variant = "no-token"
		rev(&tokenv1.RevokeRequest{Issuer: iss, Client: w.clientArg(c)})
	case 32:
		variant = "nil-request"
		dev(nil)
	case 33:
		variant = []string{"no-issuer", "no-client"}[p.N(2)]
		q := &flowv1.DeviceAuthorizationRequest{ClientId: cl.ClientId}
		if variant == "no-client" {
			q = &flowv1.DeviceAuthorizationRequest{Issuer: iss}
		}
		dev(q)
	case 34:
		variant = "nil-request"
		appr(nil)
	case 35:
		variant = []string{"no-issuer", "no-code", "no-subject"}[p.N(3)]
		q := &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: "AAAA-AAAA", Subject: "alice"}
		if len(w.devs) > 0 {
			d := w.devs[len(w.devs)-1]
			q.Issuer, q.UserCode = d.iss, d.uc
		}
		switch variant {
		case "no-issuer":
			q.Issuer = ""
		case "no-code":
			q.UserCode = ""
		case "no-subject":
			q.Subject = ""
		}
		appr(q)
	}
}

func (w *World) malformed(o *kit.Op, none bool, e *corev1.Error, err error, handed bool, variant string) {
	r := w.R
	r.Fault("malformed-request")
	if o.Panic != nil {
		r.Fail("C21", "panic:"+o.Kind+":"+variant, "%s %s panicked: %v at %s (faults %v)", o.Kind, variant, o.Panic, o.Stack, o.Faults)
		return
	}
	if o.Crashed {
		return
	}
	r.Notes["malformed-answered"]++
	if none {
		r.Fail("C21", "nil-response:"+o.Kind+":"+variant, "%s %s: no response object (err %v)", o.Kind, variant, err)
		return
	}
	r.Logf("%s %s -> %v %s", o.Kind, variant, errText(err), e.GetErr())
	if err == nil {
		r.Fail("C21", "malformed-accepted:"+o.Kind+":"+variant, "%s %s reported success", o.Kind, variant)
		return
	}
	if e == nil {
		r.Fail("C21", "no-error-object:"+o.Kind+":"+variant, "%s %s: failed (%v) without an OAuth error", o.Kind, variant, errText(err))
	} else if !kit.Errs[e.Err] {
		r.Fail("C21", "unregistered-code:"+e.Err, "%s %s: unregistered code %q", o.Kind, variant, e.Err)
	} else if e.Err == "server_error" && o.Clean() && variant != "nil-request" && variant != "no-issuer" && variant != "bad-issuer" && variant != "empty-issuer" && !strings.HasPrefix(variant, "nil-") {
		r.Fail("C21", "server-error-for-caller:"+o.Kind+":"+variant, "%s %s: the caller's fault was answered server_error (%v)", o.Kind, variant, errText(err))
	}
	if handed {
		r.Fail("C21", "handout-on-error:"+o.Kind+":"+variant, "%s %s: failed but handed out a result", o.Kind, variant)
	}
}
