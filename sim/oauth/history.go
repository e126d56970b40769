package oauth

import (
	"strings"

	"zntr.io/solid/oidc"
	"zntr.io/solid/zz_verif/kit"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// others reports whether any other use satisfying f was invoked before a ended.
func others(l []*Use, a *Use, f func(*Use) bool) bool {
	for _, b := range l {
		if b == a || b.op == nil || b.op.Inv >= a.op.Ret {
			continue
		}
		if f == nil || f(b) {
			return true
		}
	}
	return false
}

// finish checks the recorded history.
func (w *World) finish() {
	r := w.R
	for _, k := range w.codes {
		w.once("C01", "C02", "redeem", "code", k.uses, k.op, 60)
		n := 0
		for _, u := range k.uses {
			if u.ok {
				n++
			}
		}
		if len(k.uses) > 1 {
			r.Notes["codes-contended"]++
		}
		if n > 1 {
			r.Fail("C01", "double-redemption", "authorization code redeemed %d times: %s", n, spans(k.uses))
		}
	}
	for _, k := range w.pars {
		w.once("C03", "C03", "authorize-uri", "request_uri", k.uses, k.op, 60)
		n := 0
		for _, u := range k.uses {
			if u.ok {
				n++
			}
		}
		if len(k.uses) > 1 {
			r.Notes["pars-contended"]++
		}
		if n > 1 {
			r.Fail("C03", "double-use", "request_uri started %d authorizations: %s", n, spans(k.uses))
		}
	}
	for _, d := range w.devs {
		w.devHistory(d)
	}
	for _, t := range w.toks {
		w.tokHistory(t)
	}
}

func spans(l []*Use) string {
	var s []string
	for _, u := range l {
		if u.op != nil && u.ok {
			s = append(s, kit.S("[%d..%d node%d]", u.op.Inv, u.op.Ret, u.op.Node))
		}
	}
	return strings.Join(s, " ")
}

// once: a rightful, timely use nobody interferes with succeeds; if it fails
// because of an injected failure, the answer says server_error.
func (w *World) once(_, prop, kind, what string, uses []*Use, issue *kit.Op, life int64) {
	r := w.R
	for _, a := range uses {
		if a.op == nil || !a.op.Done || !a.right || others(uses, a, nil) || a.op.S1 >= issue.S0+life*1e9 {
			continue
		}
		if a.op.Clean() {
			r.Notes["rightful-uses"]++
			if !a.ok {
				r.Fail(prop, "rightful-refused", "rightful, timely, first use of a %s refused: %s", what, a.errc)
				r.Fail("C22", "rightful-refused:"+kind, "rightful, timely, first use of a %s refused: %s", what, a.errc)
			}
		} else if !a.ok {
			w.blame(a.op, kind, true, a.errc)
		}
	}
}

func (w *World) devHistory(d *Dev) {
	r := w.R
	sess := d.op.S0 + 120e9
	timely := func(o *kit.Op) bool { return o.S1 < sess && sec(o.NMax) < sec(sess) }
	n := 0
	for _, a := range d.appr {
		if a.op == nil {
			continue
		}
		if a.ok {
			n++
		}
		if !a.right || !a.op.Done || !timely(a.op) || others(d.appr, a, nil) {
			continue
		}
		if a.op.Clean() {
			r.Notes["rightful-approvals"]++
			if !a.ok {
				r.Fail("C11", "rightful-approval-refused", "the first approval of a pending user code was refused: %s", a.errc)
			}
		} else if !a.ok {
			w.blame(a.op, "approve", true, a.errc)
		}
	}
	if len(d.appr) > 1 {
		r.Notes["approvals-contended"]++
	}
	if n > 1 {
		r.Fail("C11", "double-approval", "user code approved %d times: %s", n, spans(d.appr))
	}
	ok := 0
	for _, a := range d.polls {
		if a.op == nil {
			continue
		}
		if a.ok {
			ok++
		}
		if !a.op.Done || !a.right || !timely(a.op) {
			continue
		}
		var ap *Use
		any := false
		for _, x := range d.appr {
			if x.op == nil || x.op.Inv >= a.op.Ret {
				continue
			}
			if x.right {
				any = true
			}
			if x.ok && x.op.Ret < a.op.Inv {
				ap = x
			}
		}
		if !a.op.Clean() {
			if !any {
				if !a.ok && a.errc != "authorization_pending" {
					w.blame(a.op, "poll", true, a.errc)
				}
			}
			continue
		}
		if !any {
			r.Notes["pending-polls"]++
			if a.errc != "authorization_pending" {
				r.Fail("C10", "not-pending:"+a.errc, "polling an unapproved device code was answered %q", a.errc)
			}
			continue
		}
		if ap == nil || a.jwtGap {
			continue
		}
		busy := false
		for _, q := range d.polls {
			if q != a && q.op != nil && q.right && q.op.Inv < a.op.Ret && (!q.op.Done || q.op.Ret > ap.op.Inv) {
				busy = true
			}
		}
		if busy {
			continue
		}
		r.Notes["rightful-polls"]++
		if !a.ok {
			r.Fail("C10", "approved-poll-refused", "the first poll after the approval was refused: %s", a.errc)
			r.Fail("C22", "approved-poll-refused", "the first poll after the approval was refused: %s", a.errc)
		}
	}
	if len(d.polls) > 1 {
		r.Notes["polls-contended"]++
	}
	if ok > 1 {
		r.Fail("C10", "double-tokens", "device code yielded tokens %d times: %s", ok, spans(d.polls))
	}
}

func (w *World) tokHistory(t *Tok) {
	r := w.R
	m := t.rec.Metadata
	isRT := t.rec.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN
	// what may have ended the token before operation o was over
	mayEnd := func(o *kit.Op, self *kit.Op) bool {
		for _, x := range t.revokes {
			if x.op != nil && x.right && x.op != self && x.op.Inv < o.Ret {
				return true
			}
		}
		for _, x := range t.refresh {
			if x.op != nil && x.op != self && x.op.Inv < o.Ret && (x.newRT != nil || x.op.Had("tok.Revoke") || !x.op.Done || x.op.Crashed) {
				return true
			}
		}
		return false
	}
	// what ended it for certain before operation o began
	ended := func(o *kit.Op) (string, string) {
		for _, x := range t.revokes {
			if x.op != nil && x.right && x.ok && x.op.Ret < o.Inv {
				return "C08", "its revocation was acknowledged"
			}
		}
		for _, x := range t.refresh {
			if x.op != nil && x.newRT != nil && x.op.Ret < o.Inv {
				return "C06", "its replacement was delivered"
			}
		}
		return "", ""
	}
	valid := func(o *kit.Op, margin int64) bool {
		return sec(o.NMax)+margin <= int64(m.ExpiresAt) && sec(o.NMin) >= int64(m.NotBefore)
	}
	repl := 0
	for _, a := range t.refresh {
		if a.op == nil {
			continue
		}
		if a.newRT != nil {
			repl++
		}
		if p, why := ended(a.op); p != "" {
			r.Notes["uses-after-end"]++
			if a.ok {
				r.Fail(p, "used-after-end:refresh", "refresh token accepted after %s", why)
				r.Fail("C06", "not-active", "refresh token accepted after %s", why)
			}
			continue
		}
		if !a.op.Done || !a.right || mayEnd(a.op, a.op) || !valid(a.op, 0) {
			continue
		}
		if a.op.Clean() {
			r.Notes["rightful-refreshes"]++
			if !a.ok {
				r.Fail("C06", "rightful-refused", "rightful refresh refused: %s", a.errc)
				r.Fail("C08", "stopped-working:refresh", "active refresh token refused: %s", a.errc)
				r.Fail("C22", "rightful-refused:refresh", "rightful refresh refused: %s", a.errc)
			}
		} else if !a.ok {
			w.blame(a.op, "refresh", true, a.errc)
		}
	}
	if repl > 1 {
		r.Fail("C06", "two-replacements", "%d replacement refresh tokens delivered for one: %s", repl, spans(t.refresh))
	}
	margin := int64(0)
	if w.Mode == "jwt" {
		margin = 2
	}
	for _, a := range t.exch {
		if a.op == nil {
			continue
		}
		if _, why := ended(a.op); why != "" {
			r.Notes["uses-after-end"]++
			if a.ok {
				r.Fail("C08", "used-after-end:exchange", "token exchanged after %s", why)
				r.Fail("C07", "not-active", "token exchanged after %s", why)
			}
			continue
		}
		if !a.op.Done || !a.right || a.jwtGap || mayEnd(a.op, nil) || !valid(a.op, margin) {
			continue
		}
		if a.op.Clean() {
			r.Notes["rightful-exchanges"]++
			if !a.ok {
				r.Fail("C08", "stopped-working:exchange", "active token refused for exchange: %s", a.errc)
				r.Fail("C22", "rightful-refused:exchange", "active token refused for exchange: %s", a.errc)
			}
		} else if !a.ok {
			w.blame(a.op, "exchange", true, a.errc)
		}
	}
	for _, a := range t.intro {
		if a.op == nil || a.failed || !a.op.Done {
			continue
		}
		if p, why := ended(a.op); p != "" {
			r.Notes["introspected-after-end"]++
			if a.active {
				if p == "C08" {
					r.Fail("C08", "active-after-end", "introspection reports a token active after %s", why)
				}
				r.Fail("C09", "active-after-end", "introspection reports a token active after %s", why)
			}
		}
		if a.other && sec(a.op.NMax) <= int64(m.ExpiresAt) {
			r.Fail("C09", "status", "introspection reports neither active nor revoked")
		}
		if !a.active && !mayEnd(a.op, nil) && sec(a.op.NMax) <= int64(m.ExpiresAt) {
			r.Fail("C08", "ended-by-nobody", "a token nobody entitled revoked or rotated is reported inactive (refresh=%v)", isRT)
			r.Fail("C09", "ended-by-nobody", "a token nobody entitled revoked or rotated is reported inactive (refresh=%v)", isRT)
		}
	}
	for _, a := range t.revokes {
		if a.op == nil || !a.op.Done {
			continue
		}
		if !a.right {
			if a.op.Had("tok.Revoke") {
				r.Fail("C08", "revoked-by-other", "client %s revoked a token of %s", a.cl.Name, t.cl.Name)
			}
			continue
		}
		if a.op.Clean() && !mayEnd(a.op, a.op) && valid(a.op, 0) {
			r.Notes["rightful-revocations"]++
			if !a.ok {
				r.Fail("C08", "rightful-revocation-refused", "the owner's revocation was refused: %s", a.errc)
				r.Fail("C22", "rightful-refused:revoke", "the owner's revocation was refused: %s", a.errc)
			}
		}
	}
	_ = oidc.GrantTypeRefreshToken
}
