// Package ident simulates server nodes that derive pairwise subject
// identifiers and consult the strict profile, for callers that run at once,
// crash, come back and write over what they passed or were handed.
package ident

import (
	"fmt"
	"strings"

	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/profile"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// salts of deployments; the first four are too short
var salts = []string{
	"", "s", "0123456789abcde", strings.Repeat("\x00", 15),
	"0123456789abcdef", "0123456789abcdeF", strings.Repeat("\x00", 16), strings.Repeat("\x00", 17), "0123456789abcdef0123456789abcdef", strings.Repeat("s", 64),
}

var sectors = []string{"https://a.example.com", "https://b.example.com", "https://a.example.com/", "a.example.com", "", "https://a.example.comalice", "sector", "\x00", "é"}

var subjects = []string{"alice", "bob", "alicebob", "Alice", "a", "lice", "comalice", "248289761001", strings.Repeat("x", 300), "é", "\x00", "a b"}

type key struct{ salt, sector, subject string }

type world struct {
	r     *kit.Run
	enc   [][]pairwise.Encoder // node, salt
	prof  []profile.Server
	ids   map[key]string
	owner map[string]key
	order []key
	undo  []func()
}

// node starts the components of a server process.
func (w *world) node(n int) {
	var es []pairwise.Encoder
	for _, s := range salts {
		b := []byte(s)
		e := pairwise.Hash(b)
		if n%2 == 1 {
			// the secret is wiped once it has been used
			for i := range b {
				b[i] = 0x5a
			}
		}
		es = append(es, e)
	}
	p := profile.Strict()
	w.enc[n], w.prof[n] = es, p
}

// Main is the body of one run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	w := &world{r: r, ids: map[key]string{}, owner: map[string]key{}, enc: make([][]pairwise.Encoder, r.Cfg.Nodes), prof: make([]profile.Server, r.Cfg.Nodes)}
	pair := 50
	switch r.Prop {
	case "C29":
		pair = 95
	case "C30":
		pair = 5
	}
	// what a run did to the lists of the process ends with it
	defer func() {
		for i := len(w.undo) - 1; i >= 0; i-- {
			w.undo[i]()
		}
	}()
	for i := 0; i < r.Cfg.Nodes; i++ {
		w.node(i)
	}
	r.Live = []string{"C29", "C30"}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		p := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer+6 && !r.Broken(); k++ {
				if p.Pct(pair) {
					w.encode(p)
				} else {
					w.profile(p)
				}
			}
		}))
	}
	if r.Cfg.CrashAgent {
		ts = append(ts, simrt.Spawn("chaos", func() {
			for k := 0; k < 1+simrt.Choose(simrt.StFault, 3); k++ {
				for n := simrt.Choose(simrt.StFault, 30); n > 0; n-- {
					simrt.Sleep(0)
				}
				r.Fault("node-crash")
				i := simrt.Choose(simrt.StFault, r.Cfg.Nodes)
				simrt.CrashNode(i)
				w.node(i)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	if r.E.Aborted || r.Broken() {
		return
	}
	// afterwards everything is as it was
	for i := 0; i < r.Cfg.Nodes; i++ {
		w.node(i)
		for _, k := range w.order {
			w.ask(i, k, k.subject, "after")
		}
		for _, t := range appTypes {
			w.look(i, t)
		}
	}
}

func (w *world) encode(p kit.Plan) {
	k := key{salts[p.W([]int{1, 1, 1, 1, 8, 4, 3, 2, 6, 2})], sectors[p.W([]int{8, 6, 3, 3, 2, 3, 2, 1, 1})], subjects[p.W([]int{8, 6, 4, 2, 2, 2, 2, 1, 1, 1, 1, 1})]}
	sub, how := k.subject, "plain"
	switch p.W([]int{12, 1, 1}) {
	case 1:
		sub, how = []string{"", " ", "\t\n", "     "}[p.N(4)], "blank"
		k.subject = ""
	case 2:
		how = "padded"
		sub = " " + sub + "\n"
	}
	w.ask(p.N(w.r.Cfg.Nodes), k, sub, how)
}

// ask derives an identifier and compares it with the history.
func (w *world) ask(node int, k key, sub, how string) {
	r := w.r
	si := 0
	for i, s := range salts {
		if s == k.salt {
			si = i
		}
	}
	e := w.enc[node][si]
	var id string
	var err error
	o := r.Do("Encode", node, func() { id, err = e.Encode(k.sector, sub) })
	r.Logf("node %d: salt %d, %q at %q (%s) -> %s %v", node, si, short(k.subject), k.sector, how, r.Name("id", id), err)
	if r.CheckPanic(o, "C29") || o.Crashed {
		return
	}
	if err != nil {
		if id != "" {
			r.Fail("C29", "identifier-with-error", "identifier %q together with error %v", id, err)
		}
		if len(k.salt) >= 16 && how != "blank" {
			r.Fail("C29", "refused", "subject %q at %q with a salt of %d bytes: %v", k.subject, k.sector, len(k.salt), err)
		}
		r.Notes["C29:refused"]++
		return
	}
	switch {
	case len(k.salt) < 16:
		r.Fail("C29", "short-salt", "identifier %q made with a salt of %d bytes", id, len(k.salt))
		return
	case how == "blank":
		r.Fail("C29", "blank-subject", "identifier %q made for the blank subject %q", id, sub)
		return
	case id == "":
		r.Fail("C29", "empty", "empty identifier without an error")
		return
	case how == "padded":
		// the same person or another one
		return
	}
	r.Notes["C29:encoded"]++
	if old, ok := w.ids[k]; ok {
		if old != id {
			r.Fail("C29", "unstable", "subject %q at sector %q was %q, is now %q", k.subject, k.sector, old, id)
		}
		return
	}
	if x, ok := w.owner[id]; ok {
		what := "collision"
		if x.salt == k.salt && x.sector+x.subject == k.sector+k.subject {
			what = "collision:boundary"
		}
		r.Fail("C29", what, "subject %q at sector %q and subject %q at sector %q share the identifier %q", k.subject, k.sector, x.subject, x.sector, id)
		return
	}
	w.ids[k], w.owner[id] = id, k
	w.order = append(w.order, k)
}

func short(s string) string {
	if len(s) > 20 {
		return s[:20] + "..."
	}
	return s
}

// ---------------------------------------------------------------- profile

var appTypes = []string{oidc.ApplicationTypeServerSideWeb, oidc.ApplicationTypeNative, oidc.ApplicationTypeDevice, oidc.ApplicationTypeService,
	oidc.ApplicationTypeClientSideWeb, "", "Web", "web ", "confidential", "\x00"}

var jwtOnly = []string{"private_key_jwt"}

// want is the strict profile: grants, responses, authentication methods.
var want = map[string][3][]string{
	"web":     {{"authorization_code"}, {"code"}, jwtOnly},
	"native":  {{"authorization_code", "refresh_token"}, {"code"}, jwtOnly},
	"device":  {{"urn:ietf:params:oauth:grant-type:device_code", "refresh_token"}, {"code"}, jwtOnly},
	"service": {{"client_credentials"}, {"token"}, jwtOnly},
}

func (w *world) profile(p kit.Plan) {
	name := appTypes[p.W([]int{5, 5, 5, 5, 2, 1, 1, 1, 1, 1})]
	if p.N(4) == 3 {
		name = near(p)
	}
	l := w.look(p.N(w.r.Cfg.Nodes), name)
	if len(l) == 0 || !p.Pct(50) {
		return
	}
	// a careless caller does as it likes with its lists
	w.r.Fault("caller-mutates-object")
	x := l[p.N(len(l))]
	full := x[:cap(x)]
	old := append([]string(nil), full...)
	w.undo = append(w.undo, func() { copy(full, old) })
	switch p.N(4) {
	case 0:
		for i := range x {
			x[i] = "scribbled"
		}
	case 1:
		if len(x) > 0 {
			x[p.N(len(x))] = "implicit"
		}
	case 2:
		_ = append(x[:0], "password")
	case 3:
		_ = append(x, "implicit")
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	}
}

// near is a name close to a known one.
func near(p kit.Plan) string {
	s := appTypes[p.N(4)]
	t := appTypes[p.N(len(appTypes))]
	sep := []string{"", "/", ":", ".", "-", "_", " ", ",", ";", "|", "#", "?", "@", "=", "+", "&", "*", "\\", "\x00", "\n", "\t", "\u00a0"}[p.N(22)]
	switch p.N(10) {
	case 0:
		return "x" + sep + s
	case 1:
		return s + sep + "x"
	case 2:
		return sep + s
	case 3:
		return s + sep
	case 4:
		return t + sep + s
	case 5:
		return s[:p.N(len(s))]
	case 6:
		return s[1+p.N(len(s)-1):]
	case 7:
		b := []byte(s)
		b[p.N(len(b))] ^= 0x20
		return string(b)
	case 8:
		b := []byte(s)
		b[p.N(len(b))]++
		return string(b)
	}
	return strings.ToUpper(s[:1]) + s[1:] + sep
}

// look consults the profile and judges what it offers.
func (w *world) look(node int, name string) []types.StringArray {
	r := w.r
	pr := w.prof[node]
	var ls []types.StringArray
	var ok bool
	o := r.Do("profile", node, func() {
		var c profile.Client
		if c, ok = pr.ApplicationType(name); ok {
			ls = []types.StringArray{c.GrantTypesSupported(), c.ResponseTypesSupported(), c.TokenEndpointAuthMethodsSupported(), c.DefaultScopes()}
		}
	})
	r.Logf("node %d: profile of %q: %v %v", node, name, ok, ls)
	if r.CheckPanic(o, "C30") || o.Crashed {
		return nil
	}
	x, known := want[name]
	if ok != known {
		r.Fail("C30", "known", "application type %q: offered %v", name, ok)
		return nil
	}
	if !ok {
		r.Notes["C30:none"]++
		return nil
	}
	r.Notes["C30:offered"]++
	for i, f := range []string{"grants", "responses", "methods"} {
		if !sameSet(ls[i], x[i]) {
			r.Fail("C30", f, "application type %q offers %v as %s, the profile has %v", name, ls[i], f, x[i])
			return nil
		}
	}
	return ls
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !has(b, x) {
			return false
		}
	}
	for _, x := range b {
		if !has(a, x) {
			return false
		}
	}
	return true
}

func has(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}
