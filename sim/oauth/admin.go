package oauth

import (
	"context"
	"fmt"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// The admin world: an administrator changes the registration of clients while
// they use the server.

// reg is a registration that was in force from one instant to another.
type reg struct {
	from, to int64 // to 0: still in force
	c        *clientv1.Client
}

type apty struct {
	id   string
	name string
	full *clientv1.Client
	vs   []*reg
}

func (p *apty) cur() *clientv1.Client { return p.vs[len(p.vs)-1].c }

// need is what a request takes from the registration of its client.
type need struct {
	grant, rtype, mode, redirect string
	confidential                 bool
}

// why says what a registration lacks ("" if nothing).
func (n need) why(c *clientv1.Client) string {
	switch {
	case c == nil:
		return "client"
	case n.grant != "" && !exact(c.GrantTypes, n.grant):
		return "grant"
	case n.rtype != "" && !exact(c.ResponseTypes, n.rtype):
		return "response-type"
	case n.mode != "" && !exact(c.ResponseModes, n.mode):
		return "response-mode"
	case n.redirect != "" && !exact(c.RedirectUris, n.redirect):
		return "redirect-uri"
	case n.confidential && c.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC:
		return "public"
	}
	return ""
}

type adminW struct {
	r    *kit.Run
	w    *World
	ps   []*apty
	byID map[string]*apty
	seq  int
	off  bool // the administrator is done
}

func (a *adminW) Get(_ context.Context, id string) (*clientv1.Client, error) {
	p := a.byID[id]
	if p == nil || p.cur() == nil {
		return nil, storage.ErrNotFound
	}
	return proto.Clone(p.cur()).(*clientv1.Client), nil
}

func (a *adminW) GetByName(c context.Context, n string) (*clientv1.Client, error) {
	return nil, storage.ErrNotFound
}

func (a *adminW) Register(context.Context, *clientv1.Client) (string, error) {
	return "", storage.ErrNotFound
}

func (a *adminW) put(p *apty, c *clientv1.Client, what string) {
	seq := simrt.NextSeq()
	if len(p.vs) > 0 {
		p.vs[len(p.vs)-1].to = seq
	}
	p.vs = append(p.vs, &reg{from: seq, c: c})
	a.r.Logf("client %s: %s", p.name, what)
}

func without(l []string, i int) []string {
	return append(append([]string(nil), l[:i]...), l[i+1:]...)
}

// change withdraws or restores something.
func (a *adminW) change(p *apty, k, i int) {
	if p.cur() == nil {
		a.put(p, proto.Clone(p.full).(*clientv1.Client), "registered again")
		return
	}
	c := proto.Clone(p.cur()).(*clientv1.Client)
	switch {
	case k == 0:
		a.put(p, nil, "removed")
		return
	case k <= 3 && len(c.GrantTypes) > 0:
		i %= len(c.GrantTypes)
		g := c.GrantTypes[i]
		c.GrantTypes = without(c.GrantTypes, i)
		a.put(p, c, "grant "+g+" withdrawn")
	case k <= 5 && len(c.RedirectUris) > 0:
		i %= len(c.RedirectUris)
		g := c.RedirectUris[i]
		c.RedirectUris = without(c.RedirectUris, i)
		a.put(p, c, "redirect uri "+g+" withdrawn")
	case k == 6 && len(c.ResponseTypes) > 0:
		c.ResponseTypes = without(c.ResponseTypes, i%len(c.ResponseTypes))
		a.put(p, c, "response type withdrawn")
	case k == 7 && len(c.ResponseModes) > 0:
		c.ResponseModes = without(c.ResponseModes, i%len(c.ResponseModes))
		a.put(p, c, "response mode withdrawn")
	case k == 8:
		c.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
		a.put(p, c, "made public")
	default:
		a.put(p, proto.Clone(p.full).(*clientv1.Client), "restored")
	}
	a.r.Fault("registration-changed")
}

// judge compares the outcome of a request with the registrations in force
// while it was served.
func (a *adminW) judge(o *kit.Op, p *apty, n need, failed bool, code, what string, fresh bool) {
	some, all, why := false, true, ""
	for _, v := range p.vs {
		if v.from < o.Ret && (v.to == 0 || v.to > o.Inv) {
			if s := n.why(v.c); s == "" {
				some = true
			} else {
				all, why = false, s
			}
		}
	}
	a.r.Logf("%s by %s -> failed=%v %s", what, p.name, failed, code)
	if len(p.vs) > 1 {
		a.r.Notes["decided-after-change"]++
	}
	switch {
	case !failed && !some:
		a.r.Fail("C32", "kept:"+what+":"+why, "%s by %s succeeded although its registration has lacked its %s since before the request", what, p.name, why)
	case !failed:
		a.r.Notes["granted"]++
	case !some:
		a.r.Notes["refused-as-withdrawn"]++
	case all && fresh && o.T1-o.T0 < 15e9 && o.Clean(): // in a slow call it may run out
		a.r.Fail("C32", "lost:"+what, "%s by %s was refused (%s) although its registration allows it", what, p.name, code)
		if a.off {
			a.r.Fail("C22", "admin-epilogue:"+what, "after every fault stopped: %s does not complete", what)
		}
	}
}

type acode struct {
	p        *apty
	q        *flowv1.AuthorizationRequest
	ver, val string
	at       int64
	fresh    bool
}

type auri struct {
	p   *apty
	q   *flowv1.AuthorizationRequest
	ver string
	n   need
	val string
	at  int64
}

type adev struct {
	p        *apty
	dc, uc   string
	approved bool
	at       int64
}

type atok struct {
	p     *apty
	t     *tokenv1.Token
	fresh bool
}

// held is what one agent holds.
type held struct {
	codes []*acode
	uris  []*auri
	devs  []*adev
	ats   []*atok
	rts   []*atok
}

func take[T any](l *[]*T, i int) *T {
	if len(*l) == 0 {
		return nil
	}
	i %= len(*l)
	v := (*l)[i]
	*l = append(append([]*T(nil), (*l)[:i]...), (*l)[i+1:]...)
	return v
}

// arg is the client as its authentication left it.
func (a *adminW) arg(p plan, y *apty) *clientv1.Client {
	switch c := y.cur(); {
	case p.N(3) == 1:
		return &clientv1.Client{ClientId: y.id}
	case c == nil || p.N(3) == 1:
		return proto.Clone(y.full).(*clientv1.Client)
	default:
		return proto.Clone(c).(*clientv1.Client)
	}
}

// steady reports that lifetimes cannot have run out for an artefact made then.
func (a *adminW) steady(at int64) bool {
	c := &a.r.Cfg
	return !c.Skew && !c.Jump && a.r.E.Now-at < 20e9
}

func (a *adminW) request(p plan, y *apty) (*flowv1.AuthorizationRequest, string, need) {
	a.seq++
	v := pad(fmt.Sprintf("verifier-%d-", a.seq), 43+p.N(20))
	q := &flowv1.AuthorizationRequest{
		ClientId: y.id, ResponseType: y.full.ResponseTypes[p.N(len(y.full.ResponseTypes))], State: pad(fmt.Sprintf("state-%d-", a.seq), 32), Nonce: pad(fmt.Sprintf("n%d-", a.seq), 8),
		Audience: "urn:api:a", Scope: "openid offline_access", Prompt: proto.String("consent"), CodeChallengeMethod: "S256", CodeChallenge: challengeOf(v),
		RedirectUri: y.full.RedirectUris[p.N(len(y.full.RedirectUris))],
	}
	n := need{grant: oidc.GrantTypeAuthorizationCode, rtype: q.ResponseType, redirect: q.RedirectUri}
	if p.N(3) == 1 {
		n.mode = y.full.ResponseModes[p.N(len(y.full.ResponseModes))]
		q.ResponseMode = proto.String(n.mode)
	}
	return q, v, n
}

func (a *adminW) now() int64 { return a.r.E.Now }

const adminIss = "https://as.example.com"

func (a *adminW) push(p plan, h *held, y *apty) {
	q, v, n := a.request(p, y)
	nd := a.w.node(p)
	arg := a.arg(p, y)
	var res *flowv1.RegistrationResponse
	var err error
	o := a.r.Do("push", nd.ID, func() {
		res, err = nd.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: adminIss, Client: arg, Request: proto.Clone(q).(*flowv1.AuthorizationRequest)})
	})
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, res.GetRequestUri() != "", false)
	a.judge(o, y, n, failed, code, "push", true)
	if !failed {
		h.uris = append(h.uris, &auri{y, q, v, n, res.RequestUri, a.now()})
	}
}

func (a *adminW) authorize(p plan, h *held, y *apty) {
	q, v, n := a.request(p, y)
	a.finishAuthorize(p, h, y, q, v, n, nil, true, "authorize")
}

func (a *adminW) authorizeURI(p plan, h *held) {
	u := take(&h.uris, p.N(8))
	if u == nil {
		return
	}
	a.finishAuthorize(p, h, u.p, u.q, u.ver, u.n, proto.String(u.val), a.steady(u.at), "authorize-uri")
}

func (a *adminW) finishAuthorize(p plan, h *held, y *apty, q *flowv1.AuthorizationRequest, v string, n need, uri *string, fresh bool, what string) {
	nd := a.w.node(p)
	arg := proto.Clone(q).(*flowv1.AuthorizationRequest)
	if uri != nil {
		arg = &flowv1.AuthorizationRequest{ClientId: y.id, RequestUri: uri}
	}
	req := &flowv1.AuthorizeRequest{Issuer: adminIss, Subject: "alice", Request: arg}
	if p.N(2) == 1 {
		req.Client = a.arg(p, y)
	}
	at := a.now()
	var res *flowv1.AuthorizeResponse
	var err error
	o := a.r.Do(what, nd.ID, func() { res, err = nd.Authz.Authorize(ctx, req) })
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, res.GetCode() != "", false)
	a.judge(o, y, n, failed, code, what, fresh && (uri == nil || a.steady(at)))
	if !failed {
		h.codes = append(h.codes, &acode{y, q, v, res.Code, at, true})
	}
}

// token sends a token request and keeps what it yields.
func (a *adminW) token(p plan, h *held, y *apty, n need, what string, fresh bool, req *flowv1.TokenRequest) bool {
	nd := a.w.node(p)
	req.Issuer, req.Client = adminIss, a.arg(p, y)
	var res *flowv1.TokenResponse
	var err error
	o := a.r.Do(what, nd.ID, func() { res, err = nd.Tok.Token(ctx, req) })
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	a.judge(o, y, n, failed, code, what, fresh)
	if failed {
		return false
	}
	if t := res.GetAccessToken(); t != nil {
		h.ats = append(h.ats, &atok{y, proto.Clone(t).(*tokenv1.Token), true})
	}
	if t := res.GetRefreshToken(); t != nil {
		h.rts = append(h.rts, &atok{y, proto.Clone(t).(*tokenv1.Token), true})
	}
	return true
}

func (a *adminW) redeem(p plan, h *held) {
	k := take(&h.codes, p.N(8))
	if k == nil {
		return
	}
	fresh := k.fresh && a.steady(k.at)
	ok := a.token(p, h, k.p, need{grant: oidc.GrantTypeAuthorizationCode, redirect: k.q.RedirectUri}, "redeem", fresh, &flowv1.TokenRequest{GrantType: oidc.GrantTypeAuthorizationCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: k.val, CodeVerifier: k.ver, RedirectUri: k.q.RedirectUri}}})
	if !ok && p.N(2) == 1 {
		k.fresh = false
		h.codes = append(h.codes, k)
	}
}

func (a *adminW) refresh(p plan, h *held) {
	if len(h.rts) == 0 {
		return
	}
	t := h.rts[p.N(len(h.rts))]
	a.token(p, h, t.p, need{grant: oidc.GrantTypeRefreshToken}, "refresh", a.alive(t), &flowv1.TokenRequest{GrantType: oidc.GrantTypeRefreshToken,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: t.t.Value}}})
}

// alive reports that a token has not been touched and cannot have expired.
func (a *adminW) alive(t *atok) bool {
	return t.fresh && !a.r.Cfg.Skew && !a.r.Cfg.Jump && int64(t.t.Metadata.GetExpiresAt())*1e9 > a.unix()+30e9
}

func (a *adminW) unix() int64 { return simrt.ClockOf(kit.StoreDom) }

func (a *adminW) exchange(p plan, h *held, y *apty) {
	if len(h.ats) == 0 {
		return
	}
	t := h.ats[p.N(len(h.ats))]
	a.token(p, h, y, need{grant: oidc.GrantTypeTokenExchange}, "exchange", a.alive(t) && a.w.Mode != "jwt", &flowv1.TokenRequest{GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: t.t.Value, SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
}

func (a *adminW) cc(p plan, h *held, y *apty) {
	a.token(p, h, y, need{grant: oidc.GrantTypeClientCredentials, confidential: true}, "cc", a.w.Mode != "jwt", &flowv1.TokenRequest{GrantType: oidc.GrantTypeClientCredentials,
		Scope: proto.String("openid"), Audience: proto.String("urn:api:a"), Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}})
}

func (a *adminW) device(p plan, h *held, y *apty) {
	nd := a.w.node(p)
	at := a.now()
	var res *flowv1.DeviceAuthorizationResponse
	var err error
	o := a.r.Do("device", nd.ID, func() {
		res, err = nd.Dev.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: adminIss, ClientId: y.id, Scope: proto.String("openid offline_access"), Audience: proto.String("urn:api:a")})
	})
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, res.GetDeviceCode() != "" || res.GetUserCode() != "", false)
	a.judge(o, y, need{grant: oidc.GrantTypeDeviceCode}, failed, code, "device", true)
	if !failed {
		h.devs = append(h.devs, &adev{y, res.DeviceCode, res.UserCode, false, at})
	}
}

func (a *adminW) poll(p plan, h *held) {
	d := take(&h.devs, p.N(8))
	if d == nil {
		return
	}
	nd := a.w.node(p)
	var res *flowv1.DeviceCodeValidationResponse
	var err error
	o := a.r.Do("approve", nd.ID, func() {
		res, err = nd.Dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: adminIss, UserCode: d.uc, Subject: "alice"})
	})
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, false, false)
	a.r.Logf("approve for %s -> failed=%v %s", d.p.name, failed, code)
	if failed {
		return
	}
	if p.N(2) == 1 {
		a.wait(p)
	}
	a.token(p, h, d.p, need{grant: oidc.GrantTypeDeviceCode}, "poll", a.steady(d.at), &flowv1.TokenRequest{GrantType: oidc.GrantTypeDeviceCode,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: d.dc}}})
}

func (a *adminW) introspect(p plan, h *held, y *apty) {
	val := "unknown"
	if len(h.ats) > 0 {
		val = h.ats[p.N(len(h.ats))].t.Value
	}
	nd := a.w.node(p)
	arg := a.arg(p, y)
	var res *tokenv1.IntrospectResponse
	var err error
	o := a.r.Do("introspect", nd.ID, func() {
		res, err = nd.Tok.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: adminIss, Client: arg, Token: val})
	})
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, res.GetToken() != nil, false)
	a.judge(o, y, need{}, failed, code, "introspect", true)
}

func (a *adminW) revoke(p plan, h *held) {
	if len(h.ats) == 0 {
		return
	}
	t := h.ats[p.N(len(h.ats))]
	nd := a.w.node(p)
	arg := a.arg(p, t.p)
	fresh := a.alive(t)
	t.fresh = false
	var res *tokenv1.RevokeResponse
	var err error
	o := a.r.Do("revoke", nd.ID, func() {
		res, err = nd.Tok.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: adminIss, Client: arg, Token: t.t.Value})
	})
	failed, code := a.w.shape(o, res == nil, res.GetError(), err, false, false)
	a.judge(o, t.p, need{}, failed, code, "revoke", fresh)
}

func (a *adminW) wait(p plan) {
	d := []int64{0, 0, 1, 5, 30}[p.N(5)]
	a.r.Logf("sleep %ds", d)
	simrt.Sleep(d * 1e9)
}

func (a *adminW) step(p plan, h *held, y *apty) {
	switch p.W([]int{4, 4, 5, 4, 4, 4, 4, 3, 5, 3, 2, 4}) {
	case 0:
		a.authorize(p, h, y)
	case 1:
		a.push(p, h, y)
	case 2:
		a.authorizeURI(p, h)
	case 3:
		a.redeem(p, h)
	case 4:
		a.refresh(p, h)
	case 5:
		a.cc(p, h, y)
	case 6:
		a.exchange(p, h, y)
	case 7:
		a.device(p, h, y)
	case 8:
		a.poll(p, h)
	case 9:
		a.introspect(p, h, y)
	case 10:
		a.revoke(p, h)
	case 11:
		a.wait(p)
	}
}

// everything asks for all a client may do.
func (a *adminW) everything(p plan, h *held, y *apty) {
	a.authorize(p, h, y)
	a.redeem(p, h)
	a.push(p, h, y)
	a.authorizeURI(p, h)
	a.redeem(p, h)
	a.refresh(p, h)
	a.cc(p, h, y)
	a.exchange(p, h, y)
	a.device(p, h, y)
	a.poll(p, h)
	a.introspect(p, h, y)
	a.revoke(p, h)
}

// AdminMain is the body of one run of the admin world.
func AdminMain(r *kit.Run) {
	r.SwarmConfig()
	ctx = r.Ctx(context.Background())
	r.Calendar()
	r.Live = []string{"C32"}
	on := r.Cfg
	r.FaultsOn = false
	w := &World{R: r, byID: map[string]*CM{}, toksBy: map[string]*Tok{}, ids: map[string]bool{}, verif: map[string]string{}}
	ch := func(n int) int { return simrt.Choose(simrt.StCfg, n) }
	w.Mode = []string{"opaque", "opaque", "jwt", "verifiable"}[ch(4)]
	a := &adminW{r: r, w: w, byID: map[string]*apty{}}
	if ch(2) == 0 {
		w.B = &Backend{Clients: a, AR: inmemory.AuthorizationRequests(), Codes: inmemory.AuthorizationCodeSessions(), Devices: inmemory.DeviceCodeSessions(), Tokens: inmemory.Tokens()}
	} else {
		w.B = newRef(a)
	}
	w.B.Res = inmemory.Resources()
	all := []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}
	for i := 0; i < 2+ch(2); i++ {
		n := fmt.Sprintf("app%d", i)
		p := &apty{id: "client-" + n, name: n, full: &clientv1.Client{ClientId: "client-" + n, ClientName: n, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: all,
			ResponseTypes: []string{"code", "token"}, ResponseModes: []string{oidc.ResponseModeQuery, oidc.ResponseModeFragmentJWT},
			RedirectUris: []string{"https://" + n + ".example/cb", "https://" + n + ".example/cb2", "https://shared.example/cb"}}}
		a.ps = append(a.ps, p)
		a.byID[p.id] = p
		a.put(p, proto.Clone(p.full).(*clientv1.Client), "registered")
	}
	if on.Skew {
		for i := 0; i < on.Nodes; i++ {
			w.skew(i, ([]int64{0, -1, 1, -7, 13}[ch(5)])*1e9)
		}
	}
	for i := 0; i < on.Nodes; i++ {
		w.Nodes = append(w.Nodes, w.newNode(i))
	}
	// agents hold artefacts from before
	hs := make([]*held, on.Agents)
	for i := range hs {
		hs[i] = &held{}
		p := kit.Plan{S: simrt.StMisc}
		y := a.ps[i%len(a.ps)]
		a.authorize(p, hs[i], y)
		if p.N(2) == 1 {
			a.redeem(p, hs[i])
		}
		a.push(p, hs[i], y)
		a.device(p, hs[i], y)
	}
	r.FaultsOn = on.Profile != "none"
	var ts []*simrt.Task
	for i := 0; i < on.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		h := hs[i]
		y := a.ps[i%len(a.ps)]
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < on.OpsPer+2 && !r.Broken(); k++ {
				if p.N(4) == 3 {
					a.step(p, h, a.ps[p.N(len(a.ps))])
				} else {
					a.step(p, h, y)
				}
			}
		}))
	}
	ts = append(ts, simrt.Spawn("admin", func() {
		p := kit.Plan{S: simrt.StAgent + on.Agents}
		for k := 0; k < 2+p.N(8); k++ {
			for n := p.N(12); n > 0; n-- {
				simrt.Sleep(0)
			}
			if p.N(3) == 2 {
				simrt.Sleep(int64(p.N(4)) * 1e9)
			}
			a.change(a.ps[p.N(len(a.ps))], p.N(11), p.N(60))
		}
	}))
	if on.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() { w.chaos() }))
	}
	if on.Jump {
		ts = append(ts, simrt.Spawn("clock", func() { w.jumps() }))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if r.E.Aborted || r.Broken() {
		return
	}
	// faults have stopped: what is restored works and what is withdrawn does not
	r.FaultsOn = false
	a.off = true
	r.Cfg.Skew, r.Cfg.Jump = false, false
	for i := range w.Nodes {
		simrt.SetSkew(i, 0)
	}
	p := kit.Plan{S: simrt.StMisc}
	y := a.ps[p.N(len(a.ps))]
	a.put(y, proto.Clone(y.full).(*clientv1.Client), "restored at the end")
	h := &held{}
	a.everything(p, h, y)
	// left to be used after the withdrawal
	a.authorize(p, h, y)
	a.push(p, h, y)
	a.device(p, h, y)
	switch c := proto.Clone(y.full).(*clientv1.Client); p.N(4) {
	case 0:
		a.put(y, nil, "removed at the end")
	case 1:
		c.GrantTypes = nil
		a.put(y, c, "left without grants")
	case 2:
		c.RedirectUris = []string{"https://moved.example/cb"}
		a.put(y, c, "left without redirect uris")
	case 3:
		c.ResponseTypes, c.ResponseModes, c.ClientType = nil, nil, clientv1.ClientType_CLIENT_TYPE_PUBLIC
		a.put(y, c, "left without response types")
	}
	a.redeem(p, h)
	a.authorizeURI(p, h)
	a.poll(p, h)
	a.everything(p, h, y)
}
