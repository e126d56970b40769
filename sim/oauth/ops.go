package oauth

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

type plan = kit.Plan

// hostile is the percentage of deviations from the rightful request.
func (w *World) hostile(p plan, pc int) bool {
	if w.epi {
		return false
	}
	return p.Pct(pc)
}

func (w *World) node(p plan) *Node { return w.Nodes[p.N(len(w.Nodes))] }

func (w *World) clientArg(c *CM) *clientv1.Client {
	if c == nil {
		return nil
	}
	return proto.Clone(c.P).(*clientv1.Client)
}

func (w *World) pickClient(p plan, grant string) *CM {
	var l []*CM
	for _, c := range w.Clients {
		if grant == "" || c.can(grant) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[p.N(len(l))]
}

func (w *World) otherClient(p plan, c *CM) *CM {
	for i := 0; i < 4; i++ {
		o := w.Clients[p.N(len(w.Clients))]
		if o != c {
			return o
		}
	}
	return c
}

// authzRequest builds an authorization request of a client.
func (w *World) authzRequest(p plan, c *CM) *flowv1.AuthorizationRequest {
	n := w.uniq("")
	q := &flowv1.AuthorizationRequest{
		ClientId: c.ID, ResponseType: "code", State: pad("state-"+n+"-", 32+p.N(3)), Nonce: pad("n"+n, 8+p.N(3)),
		Audience: "urn:api:" + []string{"a", "b", "c"}[p.N(3)], CodeChallengeMethod: "S256",
	}
	if len(c.P.RedirectUris) > 0 {
		q.RedirectUri = c.P.RedirectUris[p.N(len(c.P.RedirectUris))]
	}
	if len(c.P.ResponseTypes) > 0 {
		q.ResponseType = c.P.ResponseTypes[p.N(len(c.P.ResponseTypes))]
	}
	var v string
	if p.N(2) == 0 {
		var ch string
		var err error
		v, ch, err = pkce.CodeVerifier()
		if err != nil || ch != challengeOf(v) {
			w.R.Fail("C28", "generated-challenge", "CodeVerifier returned %q %q %v", v, ch, err)
		}
	} else {
		v = pad("verifier-"+n+"-", []int{43, 44, 127, 128}[p.N(4)])
	}
	q.CodeChallenge = challengeOf(v)
	w.verif[q.CodeChallenge] = v
	q.Scope = []string{"openid", "openid profile email", "openid offline_access", "openid profile offline_access", "openid offline_access email offline_access", "profile", "offline_access profile", "openid OFFLINE_ACCESS offline_access"}[p.W([]int{4, 4, 8, 6, 2, 1, 1, 1})]
	switch p.N(4) {
	case 1, 2:
		q.Prompt = proto.String("consent")
	case 3:
		q.Prompt = proto.String([]string{"login", "none", "select_account"}[p.N(3)])
	}
	if len(c.P.ResponseModes) > 0 && p.N(2) == 1 {
		q.ResponseMode = proto.String(c.P.ResponseModes[p.N(len(c.P.ResponseModes))])
		if *q.ResponseMode == oidc.ResponseModeQueryJWT && p.N(2) == 1 {
			q.ResponseMode = proto.String("jwt")
		}
	}
	if c.Name == "odd" {
		switch p.N(5) {
		case 1:
			q.RedirectUri = oddAsked[p.N(len(oddAsked))]
		case 2, 3:
			q.ResponseMode = proto.String(oddModes[p.N(len(oddModes))])
		case 4:
			q.ResponseType = []string{"code", "token", "code token", "id_token"}[p.N(4)]
		}
	}
	if w.hostile(p, 22) {
		w.spoil(p, q)
	}
	return q
}

func letter(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }

// near returns a redirect URI that resembles v.
func near(p plan, v string) string {
	host := func(f string) string { return strings.Replace(v, ".example", f, 1) }
	switch p.N(14) {
	case 0:
		return v + "/x"
	case 1:
		return v + "2"
	case 2:
		return v[:p.N(len(v))]
	case 3:
		return host(".example:443")
	case 4:
		return host(".example.evil.example")
	case 5:
		return host(".example@evil.example")
	case 6:
		return strings.Replace(v, "https", "http", 1)
	case 7:
		return strings.Replace(v, "/cb", "/%63b", 1)
	case 8:
		return strings.Replace(v, "/cb", "/x/../cb", 1)
	case 9:
		return strings.Replace(v, "://", "://sub.", 1)
	case 10:
		return v + "#f"
	case 11:
		return " " + v
	case 12:
		return v + "?x=1"
	}
	return host(".EXAMPLE")
}

// spoil makes a request inadmissible in one way (or unusual but admissible).
func (w *World) spoil(p plan, q *flowv1.AuthorizationRequest) {
	switch p.N(30) {
	case 0:
		q.State = q.State[:31]
	case 1:
		q.State = ""
	case 2:
		q.Nonce = q.Nonce[:7]
	case 3:
		q.Nonce = ""
	case 4:
		q.Audience = ""
	case 5:
		q.Scope = ""
	case 6:
		q.ResponseType = []string{"", "id_token", "CODE", "code token", "token", "code"}[p.N(6)]
	case 7:
		m := []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt", "jwt", "web_message", ""}
		q.ResponseMode = proto.String(m[p.N(len(m))])
	case 8:
		if q.RedirectUri != "" {
			v := q.RedirectUri
			q.RedirectUri = []string{v + "/", v + "?a=b", strings.ToUpper(v[:len(v)-1]) + v[len(v)-1:], strings.ToUpper(v), strings.ToLower(v), v[:len(v)-1], "https://evil.example/cb"}[p.N(7)]
		}
	case 9:
		q.RedirectUri = []string{"", "cb", "not a url", "https://rp1.example/cb", "https://shared.example/cb"}[p.N(5)]
	case 10:
		q.CodeChallengeMethod = []string{"plain", "", "s256", "S512"}[p.N(4)]
	case 11:
		q.CodeChallenge = q.CodeChallenge[:42]
	case 12:
		q.CodeChallenge += "A"
	case 13:
		q.CodeChallenge = ""
	case 14:
		q.ClientId = []string{"", "unknown", "CLIENT"}[p.N(3)]
	case 15:
		q.ClientId = w.Clients[p.N(len(w.Clients))].ID
	case 16:
		q.ResponseType = "token"
	case 17:
		q.ClientId = w.Clients[3].ID // nogrant
		q.RedirectUri = "https://shared.example/cb"
	case 18:
		q.ClientId = w.Clients[4].ID // tokenresp
		q.RedirectUri = "https://shared.example/cb"
		q.ResponseType = []string{"code", "token"}[p.N(2)]
		q.ResponseMode = nil
	case 19:
		q.State = pad(q.State, 200)
	case 20:
		q.CodeChallengeMethod, q.CodeChallenge = "plain", q.CodeChallenge
	case 21:
		q.ResponseMode = proto.String("QUERY.JWT")
	case 22:
		q.Nonce = strings.Repeat("n", 8)
	case 23:
		q.Prompt = proto.String("consent login")
	case 24, 25, 26:
		// a challenge no verifier answers, although one comes close
		ch := q.CodeChallenge
		v := w.verif[ch]
		b := []byte(ch)
		switch p.N(6) {
		case 0:
			b = []byte(strings.ToUpper(ch))
		case 1:
			b = []byte(strings.ToLower(ch))
		case 2:
			i := p.N(len(b))
			for k := 0; k < len(b) && !letter(b[i]); k++ {
				i = (i + 1) % len(b)
			}
			b[i] ^= 0x20
		case 3:
			// the unused bits of the last character
			const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
			b[42] = al[strings.IndexByte(al, b[42])|1+p.N(3)]
		case 4:
			b = []byte(strings.NewReplacer("-", "+", "_", "/").Replace(ch))
		case 5:
			// "plain" by another name
			v = pad("verifier-"+w.uniq("")+"-", 43)
			b = []byte(v)
		}
		q.CodeChallenge = string(b)
		w.verif[q.CodeChallenge] = v
	case 27, 28, 29:
		if v := q.RedirectUri; v != "" {
			q.RedirectUri = near(p, v)
		}
	}
}

// ---- pushed authorization requests

func (w *World) opPush(p plan) *Par {
	c := w.pickClient(p, oidc.GrantTypeAuthorizationCode)
	return w.push(p, c, w.authzRequest(p, c), w.Iss[p.N(len(w.Iss))], w.node(p))
}

func (w *World) push(p plan, c *CM, q *flowv1.AuthorizationRequest, iss string, n *Node) *Par {
	r := w.R
	auth := c
	if w.hostile(p, 12) {
		auth = w.otherClient(p, c)
	}
	if w.hostile(p, 3) {
		auth = nil
	}
	if w.hostile(p, 2) {
		q.RequestUri = proto.String("urn:solid:" + pad("nested", 32))
	}
	orig := proto.Clone(q).(*flowv1.AuthorizationRequest)
	why := w.inadmissible(orig)
	if auth == nil {
		why = "no-client"
	} else if orig.ClientId != auth.ID {
		why = "other-client"
	} else if orig.RequestUri != nil {
		why = "nested"
	}
	req := &flowv1.RegistrationRequest{Issuer: iss, Client: w.clientArg(auth), Request: q}
	var res *flowv1.RegistrationResponse
	var err error
	o := r.Do("push", n.ID, func() { res, err = n.Authz.Register(ctx, req) })
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetRequestUri() != "", false)
	w.errState(o, res.GetError(), orig.State)
	r.Logf("push %s client=%s why=%q -> failed=%v %s", iss, q.ClientId, why, failed, code)
	if failed {
		if why == "" && o.Clean() && code != "crash" {
			r.Fail("C04", "admissible-push-refused", "admissible pushed request of %s refused: %s %v (%v)", c.Name, code, errText(err), orig)
			w.liveness("push refused")
		}
		w.blame(o, "push", why == "", code)
		return nil
	}
	r.Notes["push-accepted"]++
	if why != "" {
		r.Fail("C04", "push-accepted:"+why, "push accepted although %s: %v", why, orig)
		if why == "other-client" || why == "no-client" {
			r.Fail("C03", "push-for-other-client", "client %s pushed a request for %s", name(auth), orig.ClientId)
		}
	}
	if res.RequestUri == "" {
		r.Fail("C21", "empty-request-uri", "push succeeded without a request_uri")
		return nil
	}
	if res.Issuer != iss {
		r.Fail("C04", "push-issuer", "push response names issuer %q, request was for %q", res.Issuer, iss)
	}
	for _, o := range w.pars {
		if o.uri == res.RequestUri {
			r.Fail("C05", "duplicate-request-uri", "request_uri issued twice")
		}
	}
	pr := &Par{iss: iss, uri: res.RequestUri, owner: w.byID[orig.ClientId], req: normal(orig), op: o}
	if res.ExpiresIn != 60 && !w.RefB {
		r.Fail("C03", "advertised-lifetime", "request_uri lifetime advertised as %d", res.ExpiresIn)
	}
	w.pars = append(w.pars, pr)
	// the caller keeps using its object
	if !w.epi && p.Pct(20) {
		q.Scope, q.RedirectUri, q.State = "openid evil offline_access", "https://evil.example/cb", pad("evil", 40)
		q.CodeChallenge = challengeOf("evil")
		r.Fault("caller-mutates-object")
	}
	return pr
}

func name(c *CM) string {
	if c == nil {
		return "<none>"
	}
	return c.Name
}

// ---- authorization

func (w *World) subject(p plan) string {
	return []string{"alice", "bob", "carol", "mallory"}[p.N(4)]
}

func (w *World) opAuthorize(p plan) *Code {
	c := w.pickClient(p, oidc.GrantTypeAuthorizationCode)
	return w.authorize(p, c, w.authzRequest(p, c), w.Iss[p.N(len(w.Iss))], w.node(p), w.subject(p))
}

func (w *World) authorize(p plan, c *CM, q *flowv1.AuthorizationRequest, iss string, n *Node, subj string) *Code {
	r := w.R
	why := w.inadmissible(q)
	var arg *clientv1.Client
	switch {
	case p.N(2) == 0 && w.byID[q.ClientId] != nil:
		arg = w.clientArg(w.byID[q.ClientId])
	case w.hostile(p, 10):
		oc := w.otherClient(p, c)
		arg = w.clientArg(oc)
		if oc.ID != q.ClientId {
			why = "other-client"
		}
	}
	issArg := iss
	if w.hostile(p, 2) {
		issArg, why = "", "issuer"
	}
	if w.hostile(p, 2) {
		subj, why = "", "subject"
	}
	orig := proto.Clone(q).(*flowv1.AuthorizationRequest)
	req := &flowv1.AuthorizeRequest{Issuer: issArg, Client: arg, Subject: subj, Request: q}
	var res *flowv1.AuthorizeResponse
	var err error
	o := r.Do("authorize", n.ID, func() { res, err = n.Authz.Authorize(ctx, req) })
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetCode() != "", false)
	w.errState(o, res.GetError(), orig.State)
	r.Logf("authorize %s client=%s why=%q -> failed=%v %s", issArg, orig.ClientId, why, failed, code)
	if failed {
		if why == "" && o.Clean() && code != "crash" {
			r.Fail("C04", "admissible-refused", "admissible request of %s refused: %s %v (%v)", c.Name, code, errText(err), orig)
			w.liveness("authorize refused")
		}
		w.blame(o, "authorize", why == "", code)
		return nil
	}
	if why != "" {
		r.Fail("C04", "code-issued:"+why, "authorization code issued although %s: %v", why, orig)
	}
	return w.gotCode(p, o, res, normal(orig), iss, subj, q)
}

// errState: the state in an error is the one of the request it answers.
func (w *World) errState(o *kit.Op, e *corev1.Error, states ...string) {
	if o.Panic != nil || o.Crashed || e.GetState() == "" {
		return
	}
	for _, s := range states {
		if e.GetState() == s {
			return
		}
	}
	w.R.Fail("C04", "error-state:"+o.Kind, "the error answering %s carries the state %q, the request's is %q", o.Kind, e.GetState(), states)
}

func (w *World) gotCode(p plan, o *kit.Op, res *flowv1.AuthorizeResponse, eff *flowv1.AuthorizationRequest, iss, subj string, live *flowv1.AuthorizationRequest) *Code {
	r := w.R
	r.Notes["codes-issued"]++
	if res.Code == "" {
		r.Fail("C21", "empty-code", "authorize succeeded without a code")
		return nil
	}
	if res.State != eff.State || res.RedirectUri != eff.RedirectUri || res.ClientId != eff.ClientId || res.Issuer != iss {
		r.Fail("C04", "response-echo", "authorize response does not repeat the request: got state=%q redirect=%q client=%q issuer=%q, want %q %q %q %q", res.State, res.RedirectUri, res.ClientId, res.Issuer, eff.State, eff.RedirectUri, eff.ClientId, iss)
		if strings.Contains(res.State, "evil") || strings.Contains(res.RedirectUri, "evil") {
			r.Fail("C03", "not-as-pushed", "the authorization answers %q %q, not what was pushed", res.State, res.RedirectUri)
		}
	}
	for _, k := range w.codes {
		if k.code == res.Code {
			r.Fail("C05", "duplicate-code", "authorization code issued twice")
		}
	}
	if res.ExpiresIn != 60 && !w.RefB {
		r.Fail("C02", "advertised-lifetime", "code lifetime advertised as %d", res.ExpiresIn)
	}
	k := &Code{iss: iss, code: res.Code, cl: w.byID[eff.ClientId], req: eff, subject: subj, op: o}
	w.codes = append(w.codes, k)
	if live != nil && !w.epi && p.Pct(15) {
		live.Scope, live.RedirectUri, live.CodeChallenge = "openid evil offline_access", "https://evil.example/cb", challengeOf("evil")
		live.Audience = "urn:evil"
		r.Fault("caller-mutates-object")
	}
	return k
}

func (w *World) opAuthorizeURI(p plan) *Code {
	if len(w.pars) == 0 {
		w.opPush(p)
		if len(w.pars) == 0 {
			return nil
		}
	}
	return w.authorizeURI(p, w.pars[w.recent(p, len(w.pars))], w.node(p), w.subject(p))
}

// recent picks an index, mostly among the last ones.
func (w *World) recent(p plan, n int) int {
	if n == 0 {
		return -1
	}
	k := n
	if k > 3 && p.N(3) > 0 {
		k = 3
	}
	return n - 1 - p.N(k)
}

func (w *World) authorizeURI(p plan, pr *Par, n *Node, subj string) *Code {
	r := w.R
	iss, uri, foreign := pr.iss, pr.uri, ""
	if w.hostile(p, 12) {
		iss, uri, foreign = w.foreign(p, iss, uri)
	}
	junk := false
	if foreign == "" && w.hostile(p, 5) {
		switch p.N(5) {
		case 0:
			uri = uri[:len(uri)-1]
		case 1:
			uri += "x"
		case 2:
			uri = "urn:solid:" + pad("unknown", 32)
		case 3:
			uri = ""
		case 4:
			uri = " " + uri
		}
		junk = true
	}
	cl := pr.owner
	var arg *clientv1.Client
	switch {
	case w.hostile(p, 12):
		cl = w.otherClient(p, pr.owner)
		if p.N(3) > 0 {
			arg = w.clientArg(cl)
		} // else it is only named in the query
	case p.N(3) > 0:
		arg = w.clientArg(cl)
	}
	q := &flowv1.AuthorizationRequest{RequestUri: proto.String(uri)}
	if p.N(3) == 2 || arg == nil {
		q.ClientId = pr.req.ClientId
		if cl != pr.owner {
			q.ClientId = cl.ID
		}
	}
	if w.hostile(p, 10) {
		// inline parameters must not change what was pushed
		q.Scope, q.RedirectUri, q.State, q.Audience = "openid evil offline_access", "https://evil.example/cb", pad("evil", 40), "urn:evil"
	}
	req := &flowv1.AuthorizeRequest{Issuer: iss, Client: arg, Subject: subj, Request: q}
	given := q.State
	u := &Use{cl: cl, right: cl == pr.owner && !junk && foreign == "", subj: subj}
	var res *flowv1.AuthorizeResponse
	var err error
	w.pending(&pr.uses, u, foreign == "" && !junk)
	o := r.Do("authorize-uri", n.ID, func() { u.op = r.CurOp(); res, err = n.Authz.Authorize(ctx, req) })
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetCode() != "", false)
	w.errState(o, res.GetError(), pr.req.State, given)
	u.ok, u.errc = !failed, code
	r.Logf("authorize request_uri %s at %s foreign=%q junk=%v client=%s -> failed=%v %s", r.Name("uri", pr.uri), iss, foreign, junk, cl.Name, failed, code)
	if failed {
		return nil
	}
	r.Notes["par-used"]++
	switch {
	case foreign != "":
		r.Fail("C18", "request-uri-crosses:"+foreign, "request_uri of %s accepted at %s (%s)", pr.iss, iss, foreign)
		r.Fail("C03", "request-uri-issuer", "request_uri of %s accepted at %s (%s)", pr.iss, iss, foreign)
	case junk && uri != " "+pr.uri:
		r.Fail("C03", "unknown-request-uri", "an unknown request_uri was accepted")
	case cl != pr.owner:
		r.Fail("C03", "request-uri-other-client", "request_uri pushed by %s accepted from %s", pr.owner.Name, cl.Name)
	}
	if o.S0 > pr.op.S1+60e9 && foreign == "" {
		r.Fail("C03", "request-uri-expired", "request_uri accepted %ds after it was issued", (o.S0-pr.op.S1)/1e9)
	}
	return w.gotCode(p, o, res, pr.req, iss, subj, nil)
}

// pending records a use before it starts, so that concurrent evaluation sees it.
func (w *World) pending(l *[]*Use, u *Use, own bool) {
	if own {
		*l = append(*l, u)
	}
}

// foreign moves a value to another issuer, possibly shifting the boundary
// between issuer and value.
func (w *World) foreign(p plan, iss, v string) (string, string, string) {
	switch p.N(3) {
	case 1: // issuer swallows the first characters of the value
		k := 1 + p.N(3)
		if len(v) > k {
			return iss + v[:k], v[k:], "extension"
		}
	case 2: // the value swallows the end of the issuer
		for _, o := range w.Iss {
			if o != iss && strings.HasPrefix(iss, o) {
				return o, iss[len(o):] + v, "prefix"
			}
		}
		return iss[:len(iss)-1], iss[len(iss)-1:] + v, "prefix"
	}
	for _, o := range w.Iss {
		if o != iss && (p.N(2) == 0 || o == w.Iss[len(w.Iss)-1]) {
			return o, v, "other"
		}
	}
	return "https://unrelated.example.org", v, "other"
}

// ---- token endpoint

func (w *World) cnf(p plan) *tokenv1.TokenConfirmation {
	switch p.N(3) {
	case 1:
		return &tokenv1.TokenConfirmation{Jkt: "jkt-key-one-0000000000000000000000000000000"}
	case 2:
		return &tokenv1.TokenConfirmation{Jkt: "jkt-key-two-0000000000000000000000000000000"}
	}
	return nil
}

func (w *World) opRedeem(p plan) {
	if len(w.codes) == 0 {
		w.opAuthorize(p)
		if len(w.codes) == 0 {
			return
		}
	}
	w.redeem(p, w.codes[w.recent(p, len(w.codes))], w.node(p))
}

func (w *World) redeem(p plan, k *Code, n *Node) (*Tok, *Tok) {
	r := w.R
	iss, code, foreign := k.iss, k.code, ""
	if w.hostile(p, 10) {
		iss, code, foreign = w.foreign(p, iss, code)
	}
	junk := false
	if foreign == "" && w.hostile(p, 3) {
		code = []string{code + "A", code[:len(code)-1], strings.ToLower(code) + "", pad("unknown", 32), strings.Repeat("c", 1025), ""}[p.N(6)]
		junk = code != k.code
	}
	cl := k.cl
	if w.hostile(p, 10) {
		cl = w.otherClient(p, k.cl)
	}
	redir := k.req.RedirectUri
	if w.hostile(p, 8) {
		redir = []string{redir + "/", strings.ToUpper(redir), "", redir + "?x", "https://shared.example/cb", "https://rp1.example/cb", redir + "#f"}[p.N(7)]
		switch p.N(3) {
		case 1:
			redir = near(p, k.req.RedirectUri)
		case 2:
			// another one of the client
			l := k.cl.P.RedirectUris
			if len(l) > 0 {
				redir = l[p.N(len(l))]
			}
		}
	}
	ver := w.verif[k.req.CodeChallenge]
	if w.hostile(p, 10) {
		switch p.N(8) {
		case 0:
			ver = k.req.CodeChallenge
		case 1:
			ver += "A"
		case 2:
			ver = ver[:len(ver)-1]
		case 3:
			ver = ""
		case 4:
			ver = strings.Repeat("v", 43)
		case 5:
			b := []byte(ver)
			b[p.N(len(b))] ^= 1
			ver = string(b)
		case 6:
			ver = ver + strings.Repeat("a", 129-len(ver))
		case 7:
			if len(w.codes) > 1 {
				ver = w.verif[w.codes[p.N(len(w.codes))].req.CodeChallenge]
			}
		}
	}
	cnf := w.cnf(p)
	req := &flowv1.TokenRequest{Issuer: iss, Client: w.clientArg(cl), GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: cnf,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redir, CodeVerifier: ver}}}
	wrong := ""
	switch {
	case cl != k.cl:
		wrong = "client"
	case redir != k.req.RedirectUri:
		wrong = "redirect"
	case challengeOf(ver) != k.req.CodeChallenge:
		wrong = "verifier"
	case len(ver) < 43 || len(ver) > 128:
		wrong = "verifier-length"
	}
	u := &Use{cl: cl, right: wrong == "" && foreign == "" && !junk}
	w.pending(&k.uses, u, foreign == "" && !junk)
	var res *flowv1.TokenResponse
	var err error
	o := r.Do("redeem", n.ID, func() { u.op = r.CurOp(); res, err = n.Tok.Token(ctx, req) })
	failed, errc := w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	w.errState(o, res.GetError(), k.req.State)
	openid := fold(strings.Fields(k.req.Scope), "openid")
	got := !failed && (res.AccessToken != nil || res.RefreshToken != nil)
	u.ok, u.errc = !failed, errc
	r.Logf("redeem %s at %s foreign=%q junk=%v wrong=%q by %s -> failed=%v %s got=%v", r.Name("code", k.code), iss, foreign, junk, wrong, cl.Name, failed, errc, got)
	if failed {
		return nil, nil
	}
	r.Notes["codes-redeemed"]++
	switch {
	case junk:
		r.Fail("C02", "unknown-code", "an unknown code was accepted")
	case foreign != "":
		r.Fail("C18", "code-crosses:"+foreign, "code of %s accepted at %s (%s)", k.iss, iss, foreign)
		r.Fail("C02", "issuer", "code of %s redeemed at %s (%s)", k.iss, iss, foreign)
	case wrong != "":
		r.Fail("C02", wrong, "code of %s redeemed by %s with wrong %s (redirect %q verifier %q)", k.cl.Name, cl.Name, wrong, redir, ver)
		if wrong == "verifier" || wrong == "verifier-length" {
			r.Fail("C28", "redeemed:"+wrong, "challenge %q answered by verifier %q", k.req.CodeChallenge, ver)
		}
	}
	if o.S0 > k.op.S1+60e9 {
		r.Fail("C02", "expired", "code redeemed %ds after it was issued", (o.S0-k.op.S1)/1e9)
	}
	if !got {
		if openid {
			r.Fail("C21", "success-without-token:redeem", "the code grant reported success but delivered no token (scope %q)", k.req.Scope)
		}
		return nil, nil
	}
	offline := fold(strings.Fields(k.req.Scope), "offline_access")
	want := &tokenv1.TokenMeta{Issuer: iss, Subject: k.subject, ClientId: cl.ID, Scope: k.req.Scope, Audience: k.req.Audience}
	at := w.gotTok(p, o, "redeem", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, want, cnf, cl, 3600, false)
	var rt *Tok
	if res.RefreshToken != nil {
		if !offline {
			r.Fail("C05", "rt-without-offline", "refresh token delivered for scope %q (prompt %s)", k.req.Scope, strp(k.req.Prompt))
			r.Fail("C04", "offline-not-dropped", "refresh token delivered for scope %q (prompt %s)", k.req.Scope, strp(k.req.Prompt))
		}
		rt = w.gotTok(p, o, "redeem", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, want, cnf, cl, 7*86400, false)
	} else if offline {
		r.Fail("C05", "rt-missing", "no refresh token delivered for scope %q", k.req.Scope)
	}
	w.afterTok(p, res)
	return at, rt
}

// gotTok checks a delivered token against the authority it must carry.
func (w *World) gotTok(p plan, o *kit.Op, how string, t *tokenv1.Token, typ tokenv1.TokenType, want *tokenv1.TokenMeta, cnf *tokenv1.TokenConfirmation, cl *CM, life int64, exch bool) *Tok {
	r := w.R
	if t == nil {
		r.Fail("C21", "success-without-token:"+how, "%s reported success but delivered no access token", how)
		return nil
	}
	r.Notes["tokens-delivered"]++
	prop := "C05"
	also := map[string]string{"refresh": "C06", "exchange": "C07", "poll": "C10"}[how]
	bad := func(sig, f string, a ...any) {
		r.Fail(prop, how+":"+sig, f, a...)
		if also != "" {
			r.Fail(also, "authority:"+sig, f, a...)
		}
	}
	kind := "access"
	if typ == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
		kind = "refresh"
	}
	rec := proto.Clone(t).(*tokenv1.Token)
	m := t.Metadata
	if m == nil {
		bad("no-metadata", "%s token without metadata", kind)
		return nil
	}
	if t.TokenType != typ {
		bad("type", "token type %v, want %v", t.TokenType, typ)
	}
	if t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		bad("status", "%s token delivered with status %v", kind, t.Status)
	}
	if t.Value == "" || t.TokenId == "" {
		bad("empty", "%s token with empty value or identifier", kind)
	}
	if m.Issuer != want.Issuer {
		bad("issuer", "%s token names issuer %q, want %q", kind, m.Issuer, want.Issuer)
	}
	if m.ClientId != want.ClientId {
		bad("client", "%s token names client %q, want %q", kind, m.ClientId, want.ClientId)
	}
	if m.Subject != want.Subject {
		bad("subject", "%s token names subject %q, want %q", kind, m.Subject, want.Subject)
	}
	if m.Scope != want.Scope {
		bad("scope", "%s token has scope %q, want %q", kind, m.Scope, want.Scope)
	}
	if m.Audience != want.Audience {
		bad("audience", "%s token has audience %q, want %q", kind, m.Audience, want.Audience)
	}
	if t.Confirmation.GetJkt() != cnf.GetJkt() || (t.Confirmation == nil) != (cnf == nil) {
		bad("confirmation", "%s token has confirmation %q, want %q", kind, t.Confirmation.GetJkt(), cnf.GetJkt())
	}
	lo, hi := sec(o.NMin), sec(o.NMax)
	if int64(m.IssuedAt) < lo || int64(m.IssuedAt) > hi {
		bad("issued-at", "%s token issued at %d, node clock was %d..%d", kind, m.IssuedAt, lo, hi)
	}
	if !exch {
		if int64(m.ExpiresAt)-int64(m.IssuedAt) != life {
			bad("lifetime", "%s token lives %ds, want %ds", kind, int64(m.ExpiresAt)-int64(m.IssuedAt), life)
		}
		if m.NotBefore > m.IssuedAt+1 {
			bad("not-before", "%s token not valid before %d, issued at %d", kind, m.NotBefore, m.IssuedAt)
		}
	}
	if o2 := w.toksBy[t.Value]; o2 != nil {
		bad("duplicate-value", "token value delivered twice")
	}
	if w.ids[t.TokenId] {
		bad("duplicate-id", "token identifier %q delivered twice", t.TokenId)
	}
	w.ids[t.TokenId] = true
	// the store holds the same record
	simrt.NoPreempt(func() {
		for i, f := range []func() (*tokenv1.Token, error){
			func() (*tokenv1.Token, error) { return w.B.Tokens.GetByValue(ctx, want.Issuer, rec.Value) },
			func() (*tokenv1.Token, error) { return w.B.Tokens.Get(ctx, want.Issuer, rec.TokenId) },
		} {
			var st *tokenv1.Token
			var err error
			res := kit.Call(func() { st, err = f() })
			if res.Panic != nil || err != nil || st == nil {
				bad("not-stored", "delivered %s token is not in the token store (lookup %d: %v %v)", kind, i, err, res.Panic)
				continue
			}
			if !proto.Equal(st.Metadata, rec.Metadata) || !proto.Equal(st.Confirmation, rec.Confirmation) || st.TokenId != rec.TokenId || st.TokenType != rec.TokenType || st.Status != rec.Status {
				bad("store-differs", "token store holds %v, client received %v", st, rec)
			}
		}
	})
	if w.Mode == "jwt" {
		w.checkJWT(rec, kind, bad)
	}
	tk := &Tok{iss: want.Issuer, rec: rec, cl: cl, op: o}
	w.toks = append(w.toks, tk)
	w.toksBy[t.Value] = tk
	r.Logf("%s token %s delivered by %s", kind, r.Name("tok", rec.Value), how)
	return tk
}

func (w *World) checkJWT(rec *tokenv1.Token, kind string, bad func(string, string, ...any)) {
	parts := strings.Split(rec.Value, ".")
	if len(parts) != 3 {
		bad("jwt-syntax", "%s token value is not a JWT", kind)
		return
	}
	var hd, c map[string]any
	hb, e0 := base64.RawURLEncoding.DecodeString(parts[0])
	pb, e1 := base64.RawURLEncoding.DecodeString(parts[1])
	if e0 != nil || e1 != nil || json.Unmarshal(hb, &hd) != nil || json.Unmarshal(pb, &c) != nil {
		bad("jwt-syntax", "%s token value cannot be decoded", kind)
		return
	}
	m := rec.Metadata
	for k, v := range map[string]string{"iss": m.Issuer, "sub": m.Subject, "aud": m.Audience, "jti": rec.TokenId, "client_id": m.ClientId, "scope": m.Scope} {
		s, _ := c[k].(string)
		if s != v {
			bad("jwt-claim-"+k, "%s token value says %s=%q, record says %q", kind, k, s, v)
		}
	}
	for k, v := range map[string]uint64{"iat": m.IssuedAt, "exp": m.ExpiresAt, "nbf": m.NotBefore} {
		f, _ := c[k].(float64)
		if uint64(f) != v {
			bad("jwt-claim-"+k, "%s token value says %s=%v, record says %d", kind, k, c[k], v)
		}
	}
	cn, _ := c["cnf"].(map[string]any)
	j, _ := cn["jkt"].(string)
	if j != rec.Confirmation.GetJkt() {
		bad("jwt-claim-cnf", "%s token value says cnf.jkt=%q, record says %q", kind, j, rec.Confirmation.GetJkt())
	}
}

// afterTok lets the caller scribble over the response it was handed.
func (w *World) afterTok(p plan, res *flowv1.TokenResponse) {
	if w.epi || !p.Pct(20) {
		return
	}
	for _, t := range []*tokenv1.Token{res.AccessToken, res.RefreshToken} {
		w.scribble(t)
	}
}

func (w *World) scribble(t *tokenv1.Token) {
	if t == nil {
		return
	}
	w.R.Fault("caller-mutates-object")
	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED
	if t.Metadata != nil {
		t.Metadata.Scope = "evil"
		t.Metadata.ExpiresAt += 1000000
		t.Metadata.ClientId = "evil"
	}
	if t.Confirmation != nil {
		t.Confirmation.Jkt = "evil"
	}
}

func (w *World) opCC(p plan) {
	c := w.pickClient(p, oidc.GrantTypeClientCredentials)
	w.clientCreds(p, c, w.Iss[p.N(len(w.Iss))], w.node(p))
}

func (w *World) clientCreds(p plan, c *CM, iss string, n *Node) *Tok {
	r := w.R
	if w.hostile(p, 15) {
		c = w.Clients[p.N(len(w.Clients))]
	}
	cnf := w.cnf(p)
	req := &flowv1.TokenRequest{Issuer: iss, Client: w.clientArg(c), GrantType: oidc.GrantTypeClientCredentials, TokenConfirmation: cnf, Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}
	if p.N(2) == 1 {
		req.Scope = proto.String([]string{"read", "read write", "openid offline_access"}[p.N(3)])
	}
	if p.N(2) == 1 {
		req.Audience = proto.String("urn:api:cc")
	}
	why := ""
	if !c.can(oidc.GrantTypeClientCredentials) {
		why = "grant"
	} else if c.P.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC {
		why = "public"
	}
	sc, au := req.GetScope(), req.GetAudience()
	var res *flowv1.TokenResponse
	var err error
	o := r.Do("cc", n.ID, func() { res, err = n.Tok.Token(ctx, req) })
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	r.Logf("client_credentials by %s why=%q -> failed=%v %s", c.Name, why, failed, code)
	if failed {
		if why == "" && o.Clean() && w.Mode != "jwt" {
			r.Fail("C05", "cc-refused", "client_credentials refused for %s: %s %v", c.Name, code, errText(err))
			w.liveness("client_credentials refused")
		}
		w.blame(o, "cc", why == "", code)
		return nil
	}
	if why != "" {
		r.Fail("C05", "cc-not-allowed", "client_credentials token delivered to %s (%s)", c.Name, why)
	}
	if res.RefreshToken != nil {
		r.Fail("C05", "rt-without-offline", "refresh token delivered for client_credentials")
	}
	tk := w.gotTok(p, o, "cc", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, &tokenv1.TokenMeta{Issuer: iss, ClientId: c.ID, Scope: sc, Audience: au}, cnf, c, 3600, false)
	w.afterTok(p, res)
	return tk
}

func (w *World) pickTok(p plan, typ tokenv1.TokenType) *Tok {
	var l []*Tok
	for _, t := range w.toks {
		if typ == 0 || t.rec.TokenType == typ {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.recent(p, len(l))]
}

func (w *World) opRefresh(p plan) {
	typ := tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
	if w.hostile(p, 5) {
		typ = 0
	}
	t := w.pickTok(p, typ)
	if t == nil {
		return
	}
	w.refresh(p, t, w.node(p))
}

func (w *World) refresh(p plan, t *Tok, n *Node) *Use {
	r := w.R
	iss, val, foreign := t.iss, t.rec.Value, ""
	if w.hostile(p, 8) {
		iss, val, foreign = w.foreign(p, iss, val)
	}
	junk := false
	if foreign == "" && w.hostile(p, 2) {
		val, junk = []string{val + "A", val[:len(val)-1], ""}[p.N(3)], true
	}
	cl := t.cl
	if w.hostile(p, 10) {
		cl = w.otherClient(p, t.cl)
	}
	isRT := t.rec.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
	cnf := t.rec.Confirmation
	if cnf != nil {
		cnf = proto.Clone(cnf).(*tokenv1.TokenConfirmation)
	}
	if w.hostile(p, 10) || (!w.epi && cl.P.ClientType != clientv1.ClientType_CLIENT_TYPE_PUBLIC && p.N(4) == 3) {
		cnf = w.cnf(p)
	}
	keyOK := true
	if cl.P.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC && t.rec.Confirmation != nil && cnf.GetJkt() != t.rec.Confirmation.Jkt {
		keyOK = false
	}
	req := &flowv1.TokenRequest{Issuer: iss, Client: w.clientArg(cl), GrantType: oidc.GrantTypeRefreshToken, TokenConfirmation: cnf,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: val}}}
	u := &Use{cl: cl, right: isRT && cl == t.cl && keyOK && cl.can(oidc.GrantTypeRefreshToken) && foreign == "" && !junk}
	w.pending(&t.refresh, u, foreign == "" && !junk)
	var res *flowv1.TokenResponse
	var err error
	o := r.Do("refresh", n.ID, func() { u.op = r.CurOp(); res, err = n.Tok.Token(ctx, req) })
	failed, errc := w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	u.ok, u.errc = !failed, errc
	r.Logf("refresh %s at %s foreign=%q junk=%v by %s key=%v -> failed=%v %s", r.Name("tok", t.rec.Value), iss, foreign, junk, cl.Name, keyOK, failed, errc)
	if failed {
		return u
	}
	r.Notes["refreshed"]++
	switch {
	case foreign != "":
		r.Fail("C18", "refresh-crosses:"+foreign, "refresh token of %s accepted at %s (%s)", t.iss, iss, foreign)
		r.Fail("C06", "issuer", "refresh token of %s accepted at %s (%s)", t.iss, iss, foreign)
	case junk:
		r.Fail("C06", "unknown", "an unknown refresh token was accepted")
	case !isRT:
		r.Fail("C06", "not-a-refresh-token", "an access token was accepted as refresh token")
	case cl != t.cl:
		r.Fail("C06", "client", "refresh token of %s used by %s", t.cl.Name, cl.Name)
	case !cl.can(oidc.GrantTypeRefreshToken):
		r.Fail("C06", "grant", "refresh granted to %s which may not use refresh tokens", cl.Name)
	case !keyOK:
		r.Fail("C06", "key", "key-bound refresh token of public client %s used with key %q", cl.Name, cnf.GetJkt())
	}
	if sec(o.NMin) > int64(t.rec.Metadata.ExpiresAt) {
		r.Fail("C06", "expired", "refresh token expired at %d accepted at %d", t.rec.Metadata.ExpiresAt, sec(o.NMin))
	}
	m := t.rec.Metadata
	want := &tokenv1.TokenMeta{Issuer: iss, Subject: m.Subject, ClientId: cl.ID, Scope: m.Scope, Audience: m.Audience}
	w.gotTok(p, o, "refresh", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, want, t.rec.Confirmation, cl, 3600, false)
	if res.RefreshToken != nil {
		if res.RefreshToken.Value == t.rec.Value {
			r.Fail("C06", "same-replacement", "the replacement refresh token is the old one")
		} else {
			u.newRT = w.gotTok(p, o, "refresh", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, want, t.rec.Confirmation, cl, 7*86400, false)
		}
		r.Probe("refresh-rotated")
		if !fold(strings.Fields(m.Scope), "offline_access") {
			r.Fail("C05", "rt-without-offline", "refresh token delivered for scope %q", m.Scope)
		}
	}
	w.afterTok(p, res)
	return u
}

func subset(a, b string) bool {
	for _, s := range strings.Fields(a) {
		if !fold(strings.Fields(b), s) {
			return false
		}
	}
	return true
}

func (w *World) opExchange(p plan) {
	typ := tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
	if w.hostile(p, 5) {
		typ = 0
	}
	t := w.pickTok(p, typ)
	if t == nil {
		w.opCC(p)
		return
	}
	w.exchange(p, t, w.pickClient(p, oidc.GrantTypeTokenExchange), w.node(p))
}

func (w *World) exchange(p plan, t *Tok, cl *CM, n *Node) *Tok {
	r := w.R
	iss, val, foreign := t.iss, t.rec.Value, ""
	if w.hostile(p, 8) {
		iss, val, foreign = w.foreign(p, iss, val)
	}
	junk := false
	if foreign == "" && w.hostile(p, 2) {
		val, junk = []string{val + "A", val[:len(val)-1], ""}[p.N(3)], true
	}
	if w.hostile(p, 10) {
		cl = w.Clients[p.N(len(w.Clients))]
	}
	typ := oidc.TokenExchangeAccessTokenType
	if w.hostile(p, 4) {
		typ = []string{"", oidc.TokenExchangeRefreshTokenType, oidc.TokenExchangeJWTType, "x"}[p.N(4)]
	}
	req := &flowv1.TokenRequest{Issuer: iss, Client: w.clientArg(cl), GrantType: oidc.GrantTypeTokenExchange, TokenConfirmation: w.cnf(p),
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: val, SubjectTokenType: typ}}}
	m := t.rec.Metadata
	f := strings.Fields(m.Scope)
	wantScope := m.Scope
	scopeOK := true
	switch p.N(4) {
	case 1:
		if len(f) > 0 {
			req.Scope = proto.String(f[p.N(len(f))])
		}
	case 2:
		if len(f) > 1 {
			req.Scope = proto.String(f[0] + " " + f[len(f)-1])
		}
	case 3:
		if w.hostile(p, 50) {
			req.Scope = proto.String([]string{m.Scope + " admin", "admin", "write", strings.TrimSpace(m.Scope + "x")}[p.N(4)])
		}
	}
	if req.Scope != nil {
		wantScope = *req.Scope
		scopeOK = subset(*req.Scope, m.Scope)
	}
	wantAud, audOK := m.Audience, true
	switch p.N(3) {
	case 1:
		req.Audience = proto.String([]string{"urn:example:backend-api", "urn:example:cooperation-context"}[p.N(2)])
		wantAud = *req.Audience
	case 2:
		if w.hostile(p, 40) {
			req.Audience = proto.String([]string{"urn:example:unknown", "", "https://backend.example.com/api", m.Audience}[p.N(4)])
			wantAud = *req.Audience
			switch wantAud {
			case "urn:example:backend-api", "urn:example:cooperation-context":
			case resourceURL:
				audOK = w.byURL
				if audOK {
					wantAud = "urn:example:backend-api"
				}
			default:
				audOK = false
			}
		}
	}
	isAT := t.rec.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
	u := &Use{cl: cl, right: isAT && cl.can(oidc.GrantTypeTokenExchange) && foreign == "" && !junk && typ == oidc.TokenExchangeAccessTokenType && scopeOK && audOK}
	if w.Mode == "jwt" && (wantAud == "" || wantScope == "" || m.Subject == "") {
		u.jwtGap = true
	}
	w.pending(&t.exch, u, foreign == "" && !junk)
	var res *flowv1.TokenResponse
	var err error
	o := r.Do("exchange", n.ID, func() { u.op = r.CurOp(); res, err = n.Tok.Token(ctx, req) })
	failed, errc := w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	if o.Panic != nil {
		r.Fail("C07", "panic:"+o.Stack, "exchange panicked: %v", o.Panic)
	} else if failed && !o.Crashed && (res == nil || res.Error == nil) {
		r.Fail("C07", "no-error-object", "failed exchange without an OAuth error: %v (faults %v)", errText(err), o.Faults)
	}
	u.ok, u.errc = !failed, errc
	r.Logf("exchange %s at %s foreign=%q junk=%v by %s scope=%s aud=%s -> failed=%v %s", r.Name("tok", t.rec.Value), iss, foreign, junk, cl.Name, strp(req.Scope), strp(req.Audience), failed, errc)
	if failed {
		return nil
	}
	r.Notes["exchanged"]++
	switch {
	case foreign != "":
		r.Fail("C18", "exchange-crosses:"+foreign, "token of %s exchanged at %s (%s)", t.iss, iss, foreign)
		r.Fail("C07", "issuer", "token of %s exchanged at %s (%s)", t.iss, iss, foreign)
	case junk:
		r.Fail("C07", "unknown", "an unknown token was exchanged")
	case !isAT:
		r.Fail("C07", "not-an-access-token", "a refresh token was exchanged")
	case typ != oidc.TokenExchangeAccessTokenType:
		r.Fail("C07", "subject-token-type", "exchange accepted subject_token_type %q", typ)
	case !cl.can(oidc.GrantTypeTokenExchange):
		r.Fail("C07", "grant", "exchange granted to %s which may not exchange tokens", cl.Name)
	case !scopeOK:
		r.Fail("C07", "scope", "exchange widened scope %q to %q", m.Scope, wantScope)
	case !audOK && (wantAud == "" || wantAud != m.Audience):
		r.Fail("C07", "audience", "exchange granted audience %q, not a registered resource", req.GetAudience())
	}
	if sec(o.NMin) > int64(m.ExpiresAt) {
		r.Fail("C07", "expired", "token expired at %d exchanged at %d", m.ExpiresAt, sec(o.NMin))
	}
	if res.RefreshToken != nil {
		r.Fail("C05", "rt-without-offline", "refresh token delivered by token exchange")
	}
	want := &tokenv1.TokenMeta{Issuer: iss, Subject: m.Subject, ClientId: cl.ID, Scope: wantScope, Audience: wantAud}
	nt := w.gotTok(p, o, "exchange", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, want, t.rec.Confirmation, cl, 0, true)
	if nt != nil {
		nm := nt.rec.Metadata
		if int64(nm.ExpiresAt) > sec(o.NMax)+60 {
			r.Fail("C07", "lifetime", "exchanged token expires %ds from now", int64(nm.ExpiresAt)-sec(o.NMax))
		}
		if nm.ExpiresAt > m.ExpiresAt {
			r.Fail("C07", "outlives", "exchanged token expires at %d, the original at %d", nm.ExpiresAt, m.ExpiresAt)
		}
		if nm.NotBefore > nm.IssuedAt+1 {
			r.Fail("C05", "exchange:not-before", "exchanged token not valid before %d, issued at %d", nm.NotBefore, nm.IssuedAt)
		}
		if !subset(nm.Scope, m.Scope) {
			r.Fail("C07", "scope", "exchange widened scope %q to %q", m.Scope, nm.Scope)
		}
		if req.Scope != nil && nm.Scope != m.Scope && res.GetScope() != nm.Scope {
			r.Fail("C07", "scope-not-reported", "the response does not report the narrowed scope")
		}
	}
	if res.GetIssuedTokenType() != oidc.TokenExchangeAccessTokenType || res.Issuer != iss {
		r.Fail("C07", "response", "the response names a %q of %q, not an access token of %q", res.GetIssuedTokenType(), res.Issuer, iss)
	}
	w.afterTok(p, res)
	return nt
}

// ---- introspection and revocation

func (w *World) opIntrospect(p plan) {
	t := w.pickTok(p, 0)
	if t == nil {
		w.introspectUnknown(p)
		return
	}
	if w.hostile(p, 8) {
		w.introspectUnknown(p)
		return
	}
	w.introspect(p, t, w.node(p))
}

func (w *World) introspectUnknown(p plan) {
	r := w.R
	n := w.node(p)
	c := w.Clients[p.N(len(w.Clients))]
	iss, val := w.Iss[p.N(len(w.Iss))], []string{"junk", "xyz." + pad("q", 28), "solid_at_junk"}[p.N(3)]
	if t := w.pickTok(p, 0); t != nil && p.N(2) == 1 {
		iss = t.iss
		val = []string{t.rec.Value + "A", t.rec.Value[:len(t.rec.Value)-1], t.rec.TokenId, strings.ToLower(t.rec.Value) + "-"}[p.N(4)]
	}
	var res *tokenv1.IntrospectResponse
	var err error
	o := r.Do("introspect", n.ID, func() {
		res, err = n.Tok.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: w.clientArg(c), Token: val})
	})
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetToken() != nil, false)
	r.Logf("introspect unknown %q -> failed=%v %s", val, failed, code)
	if failed {
		if o.Clean() {
			r.Fail("C09", "unknown-refused", "introspection of an unknown value failed: %v", errText(err))
		}
		return
	}
	w.expectUnknown(o, res, "C09", "unknown-value")
}

func (w *World) expectUnknown(o *kit.Op, res *tokenv1.IntrospectResponse, prop, sig string) {
	for _, f := range o.Faults {
		if strings.HasPrefix(f, "nil:") {
			return
		}
	}
	t := res.Token
	if t == nil {
		w.R.Fail("C09", "no-record", "introspection succeeded without a record (faults %v)", o.Faults)
		return
	}
	w.R.Notes["introspected-unknown"]++
	if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || t.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || t.Metadata != nil || t.TokenId != "" || t.Confirmation != nil {
		w.R.Fail(prop, sig, "introspection of a value unknown to that issuer returned %v", t)
		if prop != "C09" {
			w.R.Fail("C09", sig, "introspection of a value unknown to that issuer returned %v", t)
		}
	}
}

func (w *World) introspect(p plan, t *Tok, n *Node) *Intro {
	r := w.R
	iss, val, foreign := t.iss, t.rec.Value, ""
	if w.hostile(p, 10) {
		iss, val, foreign = w.foreign(p, iss, val)
	}
	c := w.Clients[p.N(len(w.Clients))]
	why := ""
	var arg *clientv1.Client = w.clientArg(c)
	if w.hostile(p, 3) {
		if p.N(2) == 0 {
			arg, why = nil, "no-client"
		} else {
			arg, why = &clientv1.Client{ClientId: "unknown"}, "unknown-client"
		}
	}
	var res *tokenv1.IntrospectResponse
	var err error
	var signed string
	var sigErr error
	var sn0, sn1 int64
	var got *tokenv1.Token
	sign := foreign == "" && p.N(3) == 2
	in := &Intro{failed: true}
	if foreign == "" && why == "" {
		t.intro = append(t.intro, in)
	}
	o := r.Do("introspect", n.ID, func() {
		in.op = r.CurOp()
		res, err = n.Tok.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: arg, Token: val})
	})
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetToken() != nil, false)
	if !failed && res.Token != nil {
		got = proto.Clone(res.Token).(*tokenv1.Token)
	}
	r.Logf("introspect %s at %s foreign=%q why=%q -> failed=%v %s %v", r.Name("tok", t.rec.Value), iss, foreign, why, failed, code, got.GetStatus())
	if failed {
		if o.Clean() && why == "" && foreign == "" {
			r.Fail("C09", "refused", "introspection of a delivered token failed: %v", errText(err))
			w.liveness("introspection refused")
		}
		w.blame(o, "introspect", why == "", code)
		return in
	}
	if why != "" {
		r.Fail("C09", "answered:"+why, "introspection answered although %s", why)
		return in
	}
	if foreign != "" {
		w.expectUnknown(o, res, "C18", "token-crosses:"+foreign)
		return in
	}
	for _, f := range o.Faults {
		if strings.HasPrefix(f, "nil:") {
			if got != nil {
				return in
			}
			r.Fail("C21", "nil-record-success:introspect", "introspection reported success for a record it could not read")
			return in
		}
	}
	if got == nil {
		r.Fail("C09", "no-record", "introspection succeeded without a record (faults %v)", o.Faults)
		return in
	}
	in.failed = false
	in.active = got.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	in.other = !in.active && got.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
	if got.Metadata == nil || !proto.Equal(got.Metadata, t.rec.Metadata) || !proto.Equal(got.Confirmation, t.rec.Confirmation) || got.TokenId != t.rec.TokenId || got.TokenType != t.rec.TokenType {
		r.Fail("C09", "record-differs", "introspection returned %v, the client received %v", got, t.rec)
	}
	r.Notes["introspected"]++
	if sign {
		so := r.Do("introspect-sign", n.ID, func() {
			signed, sigErr = n.Sig.Generate(ctx, proto.Clone(got).(*tokenv1.Token))
		})
		sn0, sn1 = so.NMin, so.NMax
		w.checkSigned(so, got, signed, sigErr, sn0, sn1)
	}
	if !w.epi && p.Pct(20) {
		w.scribble(res.Token)
	}
	return in
}

func (w *World) checkSigned(o *kit.Op, t *tokenv1.Token, signed string, err error, n0, n1 int64) {
	r := w.R
	if r.CheckPanic(o, "C21") || o.Crashed {
		return
	}
	if err != nil {
		if signed != "" {
			r.Fail("C21", "handout-on-error:introspect-sign", "signing failed but a token was handed out")
		}
		if o.Clean() {
			r.Fail("C09", "sign-refused", "signed introspection failed: %v", err)
		}
		return
	}
	for _, f := range o.Faults {
		if strings.HasPrefix(f, "gen:") {
			r.Fail("C21", "fault-swallowed:introspect-sign", "signed introspection succeeded although %s failed", f)
		}
	}
	parts := strings.Split(signed, ".")
	var c struct {
		Iss string         `json:"iss"`
		Iat int64          `json:"iat"`
		TI  map[string]any `json:"token_introspection"`
	}
	if len(parts) != 3 {
		r.Fail("C09", "signed-syntax", "signed introspection is not a JWT")
		return
	}
	pb, e := base64.RawURLEncoding.DecodeString(parts[1])
	if e != nil || json.Unmarshal(pb, &c) != nil {
		r.Fail("C09", "signed-syntax", "signed introspection cannot be decoded")
		return
	}
	r.Notes["signed-answers"]++
	m := t.Metadata
	lo, hi := sec(n0), sec(n1)
	act, _ := c.TI["active"].(bool)
	st := t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	in := func(x int64) bool { return x >= int64(m.NotBefore) && x <= int64(m.ExpiresAt) }
	if in(lo) == in(hi) && !o.Jumped {
		if act != (st && in(lo)) {
			r.Fail("C09", fmt.Sprintf("signed-active-%v", act), "signed introspection says active=%v, status %v, clock %d, valid %d..%d", act, t.Status, lo, m.NotBefore, m.ExpiresAt)
		}
	}
	if c.Iss != m.Issuer {
		r.Fail("C09", "signed-iss", "signed introspection names issuer %q, want %q", c.Iss, m.Issuer)
	}
	if c.Iat < lo || c.Iat > hi {
		r.Fail("C09", "signed-iat", "signed introspection issued at %d, clock %d..%d", c.Iat, lo, hi)
	}
	if !act {
		for k := range c.TI {
			if k != "active" {
				r.Fail("C09", "signed-inactive-reveals", "signed introspection of an inactive token reveals %s", k)
			}
		}
		return
	}
	for k, v := range map[string]string{"iss": m.Issuer, "sub": m.Subject, "aud": m.Audience, "jti": t.TokenId, "client_id": m.ClientId, "scope": m.Scope} {
		s, _ := c.TI[k].(string)
		if s != v {
			r.Fail("C09", "signed-claim-"+k, "signed introspection says %s=%q, record says %q", k, s, v)
		}
	}
	for k, v := range map[string]uint64{"iat": m.IssuedAt, "exp": m.ExpiresAt} {
		f, _ := c.TI[k].(float64)
		if uint64(f) != v {
			r.Fail("C09", "signed-claim-"+k, "signed introspection says %s=%v, record says %d", k, c.TI[k], v)
		}
	}
}

func (w *World) opRevoke(p plan) {
	t := w.pickTok(p, 0)
	if t == nil {
		return
	}
	w.revoke(p, t, w.node(p))
}

func (w *World) revoke(p plan, t *Tok, n *Node) *Use {
	r := w.R
	iss, val, foreign := t.iss, t.rec.Value, ""
	if w.hostile(p, 10) {
		iss, val, foreign = w.foreign(p, iss, val)
	}
	cl := t.cl
	if w.hostile(p, 20) {
		cl = w.otherClient(p, t.cl)
	}
	var arg *clientv1.Client = w.clientArg(cl)
	junk := false
	if w.hostile(p, 3) {
		switch p.N(3) {
		case 0:
			arg, junk = nil, true
		case 1:
			arg, junk = &clientv1.Client{ClientId: "unknown"}, true
		case 2:
			val, junk = val+"A", true
		}
	}
	u := &Use{cl: cl, right: cl == t.cl && foreign == "" && !junk}
	w.pending(&t.revokes, u, foreign == "" && !junk)
	var res *tokenv1.RevokeResponse
	var err error
	o := r.Do("revoke", n.ID, func() {
		u.op = r.CurOp()
		res, err = n.Tok.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: arg, Token: val})
	})
	failed, code := w.shape(o, res == nil, res.GetError(), err, false, false)
	u.ok, u.errc = !failed, code
	r.Logf("revoke %s at %s foreign=%q junk=%v by %s -> failed=%v %s", r.Name("tok", t.rec.Value), iss, foreign, junk, cl.Name, failed, code)
	if !failed {
		r.Notes["revoke-acknowledged"]++
	}
	return u
}

// ---- device flow

func (w *World) opDeviceStart(p plan) *Dev {
	return w.deviceStart(p, w.pickClient(p, oidc.GrantTypeDeviceCode), w.Iss[p.N(len(w.Iss))], w.node(p))
}

func (w *World) deviceStart(p plan, c *CM, iss string, n *Node) *Dev {
	r := w.R
	if w.hostile(p, 8) {
		c = w.Clients[p.N(len(w.Clients))]
	}
	id, why := c.ID, ""
	issArg := iss
	if w.hostile(p, 3) {
		switch p.N(3) {
		case 0:
			id = ""
		case 1:
			id = "unknown"
		case 2:
			issArg = ""
		}
		why = "malformed"
	}
	if !c.can(oidc.GrantTypeDeviceCode) {
		why = "grant"
	}
	req := &flowv1.DeviceAuthorizationRequest{Issuer: issArg, ClientId: id}
	d := &Dev{iss: iss, cl: c}
	switch p.N(5) {
	case 1:
		d.scope = proto.String("openid")
	case 2:
		d.scope = proto.String("openid offline_access")
	case 3, 4:
		d.scope = proto.String("read offline_access write")
	}
	if p.N(3) > 0 {
		d.aud = proto.String("urn:api:dev")
	}
	if d.scope != nil {
		req.Scope = proto.String(*d.scope)
	}
	if d.aud != nil {
		req.Audience = proto.String(*d.aud)
	}
	var res *flowv1.DeviceAuthorizationResponse
	var err error
	o := r.Do("device", n.ID, func() { res, err = n.Dev.Authorize(ctx, req) })
	failed, code := w.shape(o, res == nil, res.GetError(), err, res.GetDeviceCode() != "" || res.GetUserCode() != "", false)
	r.Logf("device authorization at %s by %s why=%q -> failed=%v %s", issArg, c.Name, why, failed, code)
	if failed {
		if why == "" && o.Clean() {
			r.Fail("C10", "device-refused", "device authorization refused for %s: %s %v", c.Name, code, errText(err))
			w.liveness("device authorization refused")
		}
		w.blame(o, "device", why == "", code)
		return nil
	}
	if why != "" {
		r.Fail("C10", "device-started:"+why, "device authorization started although %s", why)
		return nil
	}
	if res.DeviceCode == "" || res.UserCode == "" {
		r.Fail("C21", "success-without-code:device", "device authorization succeeded without codes")
		return nil
	}
	if res.Issuer != iss {
		r.Fail("C10", "device-issuer", "device response names issuer %q, want %q", res.Issuer, iss)
	}
	if res.ExpiresIn != 120 && !w.RefB {
		r.Fail("C10", "advertised-lifetime", "device code lifetime advertised as %d", res.ExpiresIn)
	}
	for _, x := range w.devs {
		if x.dc == res.DeviceCode || (x.uc == res.UserCode && x.iss == iss) {
			r.Fail("C05", "duplicate-device-code", "device or user code issued twice")
		}
	}
	d.dc, d.uc, d.op = res.DeviceCode, res.UserCode, o
	w.devs = append(w.devs, d)
	if !w.epi && p.Pct(20) {
		req.ClientId, req.Scope, req.Audience = "evil", proto.String("evil"), proto.String("urn:evil")
		r.Fault("caller-mutates-object")
	}
	return d
}

func (w *World) pickDev(p plan) *Dev {
	if len(w.devs) == 0 {
		w.opDeviceStart(p)
	}
	if len(w.devs) == 0 {
		return nil
	}
	return w.devs[w.recent(p, len(w.devs))]
}

func (w *World) opApprove(p plan) {
	if d := w.pickDev(p); d != nil {
		w.approve(p, d, w.subject(p), w.node(p))
	}
}

func (w *World) approve(p plan, d *Dev, subj string, n *Node) *Use {
	r := w.R
	iss, uc, foreign := d.iss, d.uc, ""
	if w.hostile(p, 10) {
		iss, uc, foreign = w.foreign(p, iss, uc)
	}
	junk := false
	if foreign == "" && w.hostile(p, 6) {
		junk = true
		switch p.N(5) {
		case 0:
			uc = uc[:len(uc)-1]
		case 1:
			uc = "ZZZZ-ZZZZ"
		case 2:
			uc = d.dc
		case 3:
			uc = ""
		case 4:
			subj = ""
		}
	}
	u := &Use{right: !junk && foreign == "", subj: subj}
	w.pending(&d.appr, u, foreign == "" && !junk)
	var res *flowv1.DeviceCodeValidationResponse
	var err error
	o := r.Do("approve", n.ID, func() {
		u.op = r.CurOp()
		res, err = n.Dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: uc, Subject: subj})
	})
	failed, code := w.shape(o, res == nil, res.GetError(), err, false, false)
	u.ok, u.errc = !failed, code
	r.Logf("approve %s at %s foreign=%q junk=%v by %s -> failed=%v %s", r.Name("dev", d.dc), iss, foreign, junk, subj, failed, code)
	if failed {
		return u
	}
	r.Notes["device-approved"]++
	switch {
	case foreign != "":
		r.Fail("C18", "user-code-crosses:"+foreign, "user code of %s approved at %s (%s)", d.iss, iss, foreign)
		r.Fail("C11", "foreign-approved", "user code of %s approved at %s (%s)", d.iss, iss, foreign)
	case junk:
		r.Fail("C11", "unknown-approved", "approval of an unknown user code or by nobody succeeded")
	}
	if !w.RefB && o.S0 > d.op.S1+121e9 {
		r.Fail("C11", "expired-approved", "user code approved %ds after it was issued", (o.S0-d.op.S1)/1e9)
	}
	// the session carries the storage clock's expiry; the node checks it
	if sec(o.NMin) > sec(d.op.S1)+121 {
		r.Fail("C11", "expired-approved-node", "user code approved at %d by the node's clock, it expired at %d", sec(o.NMin), sec(d.op.S1)+120)
	}
	return u
}

func (w *World) opPoll(p plan) {
	if d := w.pickDev(p); d != nil {
		w.poll(p, d, w.node(p))
	}
}

func (w *World) poll(p plan, d *Dev, n *Node) (*Tok, *Use) {
	r := w.R
	iss, dc, foreign := d.iss, d.dc, ""
	if w.hostile(p, 10) {
		iss, dc, foreign = w.foreign(p, iss, dc)
	}
	junk := false
	if foreign == "" && w.hostile(p, 4) {
		dc, junk = []string{dc + "A", dc[:len(dc)-1], d.uc, ""}[p.N(4)], true
	}
	cl := d.cl
	if w.hostile(p, 10) {
		cl = w.otherClient(p, d.cl)
	}
	cnf := w.cnf(p)
	req := &flowv1.TokenRequest{Issuer: iss, Client: w.clientArg(cl), GrantType: oidc.GrantTypeDeviceCode, TokenConfirmation: cnf,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: dc, ClientId: cl.ID}}}
	if w.hostile(p, 5) {
		req.Scope = proto.String("admin")
		req.Audience = proto.String("urn:evil")
	}
	u := &Use{cl: cl, right: cl == d.cl && foreign == "" && !junk}
	u.jwtGap = w.Mode == "jwt" && (d.scope == nil || d.aud == nil)
	w.pending(&d.polls, u, foreign == "" && !junk)
	var res *flowv1.TokenResponse
	var err error
	o := r.Do("poll", n.ID, func() { u.op = r.CurOp(); res, err = n.Tok.Token(ctx, req) })
	failed, errc := w.shape(o, res == nil, res.GetError(), err, res.GetAccessToken() != nil || res.GetRefreshToken() != nil, false)
	u.ok, u.errc = !failed, errc
	r.Logf("poll %s at %s foreign=%q junk=%v by %s -> failed=%v %s", r.Name("dev", d.dc), iss, foreign, junk, cl.Name, failed, errc)
	if failed {
		return nil, u
	}
	r.Notes["device-tokens"]++
	switch {
	case foreign != "":
		r.Fail("C18", "device-code-crosses:"+foreign, "device code of %s accepted at %s (%s)", d.iss, iss, foreign)
		r.Fail("C10", "issuer", "device code of %s accepted at %s (%s)", d.iss, iss, foreign)
	case junk:
		r.Fail("C10", "unknown", "an unknown device code was accepted")
	case cl != d.cl:
		r.Fail("C10", "client", "device code of %s redeemed by %s", d.cl.Name, cl.Name)
	}
	if !w.RefB && o.S0 > d.op.S1+121e9 {
		r.Fail("C10", "expired", "device code redeemed %ds after it was issued", (o.S0-d.op.S1)/1e9)
	}
	if sec(o.NMin) > sec(d.op.S1)+121 {
		r.Fail("C10", "expired-node", "device code redeemed at %d by the node's clock, it expired at %d", sec(o.NMin), sec(d.op.S1)+120)
	}
	// whose approval is it?
	subj := res.GetAccessToken().GetMetadata().GetSubject()
	ok, legit := false, false
	for _, a := range d.appr {
		if a.op == nil || a.op.Inv >= o.Ret {
			continue
		}
		if a.op.Tried("dev.Validate") || a.ok {
			ok = true
			if a.subj == subj {
				legit = true
			}
		}
	}
	switch {
	case !ok && foreign == "" && !junk:
		r.Fail("C10", "not-approved", "device code yielded tokens (subject %q) without an approval", subj)
		for _, a := range d.appr {
			if a.op != nil && a.op.Done && !a.ok {
				r.Fail("C11", "failed-approval-authorizes", "a failed approval authorized the device")
			}
		}
	case !legit && foreign == "" && !junk:
		r.Fail("C11", "wrong-user", "device token names %q, who did not approve", subj)
		r.Fail("C10", "wrong-user", "device token names %q, who did not approve", subj)
	}
	want := &tokenv1.TokenMeta{Issuer: iss, Subject: subj, ClientId: cl.ID}
	if d.scope != nil {
		want.Scope = *d.scope
	}
	if d.aud != nil {
		want.Audience = *d.aud
	}
	t := w.gotTok(p, o, "poll", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, want, cnf, cl, 3600, false)
	off := fold(strings.Fields(want.Scope), "offline_access")
	if res.RefreshToken != nil {
		if !off {
			r.Fail("C05", "rt-without-offline", "refresh token delivered to a device for scope %q", want.Scope)
		}
		w.gotTok(p, o, "poll", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, want, cnf, cl, 7*86400, false)
	} else if off {
		r.Fail("C05", "rt-missing", "no refresh token delivered to a device for scope %q", want.Scope)
	}
	w.afterTok(p, res)
	return t, u
}

// liveness reports a refusal during the fault-free epilogue.
func (w *World) liveness(what string) {
	if w.epi {
		w.R.Fail("C22", "epilogue:"+what, "after every fault stopped: %s", what)
	}
}

// blame: a rightful request that failed only because something inside failed
// must be answered server_error.
func (w *World) blame(o *kit.Op, kind string, rightful bool, code string) {
	if !rightful || o.Crashed || o.Cancelled || o.Panic != nil || len(o.Faults) == 0 {
		return
	}
	for _, f := range o.Faults {
		if strings.HasPrefix(f, "nil:") || strings.HasPrefix(f, "crash:") {
			return
		}
	}
	w.R.Notes["blame-checked"]++
	if code != "" && code != "server_error" {
		w.R.Fail("C21", "blame:"+kind+":"+code+":"+o.Faults[0], "%s failed because of %v but the caller was told %s", kind, o.Faults, code)
	}
}
