// Package stores drives the shared in-memory stores from several clients at
// once and checks their histories against sequential expiring maps.
package stores

import (
	"context"
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

var ctx = context.Background()

const second = int64(1000000000)

// slot is one key of one issuer: it must behave like a cell of its own.
type slot struct {
	iss, key, key2 string
	ops            []kit.LinOp
	hist           []string
	writes         []write
}

type write struct {
	v  proto.Message
	op *kit.Op
}

type world struct {
	r     *kit.Run
	kind  string
	slots []*slot
	n     int
	fill  func(name string) (string, error) // stores one more record
	has   func(name string) (bool, error)   // looks for it
	all   map[string]*slot // marker of a written value -> its slot
}

// pairs of (issuer, key) that naive key derivations confuse
var hard = [][2]string{
	{"https://as.example.com", "abcdef"},
	{"https://as.example.com", "abcdeg"},
	{"https://as.example.co", "mabcdef"},
	{"https://as.example.coma", "bcdef"},
	{"https://as.example.com/", "abcdef"},
	{"https://as.example.com:a", "bcdef"},
	{"https://as.example.com", ":abcdef"},
	{"https://AS.example.com", "abcdef"},
	{"https://as.example.com", "ABCDEF"},
	{"https://other.example.net", "abcdef"},
	{"https://as.example.com", ""},
	{"", "https://as.example.comabcdef"},
	{"2", "2:2"}, {"22", ":2"},
}

// crowd is the issuer of the records of a flood.
const crowd = "https://crowd.example.com"

// Main is the body of one run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	p := kit.Plan{S: simrt.StMisc}
	kinds := []string{"code", "ar", "device", "token", "proof", "client", "resource"}
	w := &world{r: r, kind: kinds[p.W([]int{5, 5, 6, 6, 4, 3, 1})], all: map[string]*slot{}}
	k := 1 + p.N(3)
	a := p.N(len(hard))
	for i := 0; i < k; i++ {
		h := hard[a]
		w.slots = append(w.slots, &slot{iss: h[0], key: h[1], key2: "d" + h[1]})
		a = (a + 1 + p.N(len(hard)-1)) % len(hard)
		dup := false
		for _, s := range w.slots {
			if s.iss == hard[a][0] && s.key == hard[a][1] {
				dup = true
			}
		}
		if dup {
			break
		}
	}
	r.Logf("store %s, %d keys", w.kind, len(w.slots))
	var drive func(kit.Plan)
	switch w.kind {
	case "code":
		drive = w.codes()
	case "ar":
		drive = w.requests()
	case "device":
		drive = w.devices()
	case "token":
		drive = w.tokens()
	case "proof":
		drive = w.proofs()
	case "client":
		drive = w.clients()
	case "resource":
		drive = w.resources()
	}
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents+p.N(2); i++ {
		q := kit.Plan{S: simrt.StAgent + i}
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() {
			for k := 0; k < r.Cfg.OpsPer; k++ {
				if q.Pct(15) {
					simrt.Sleep([]int64{second / 1000, second, 30 * second, 59999 * second / 1000, 60 * second, 61 * second, 119 * second, 121 * second, 700 * second}[q.N(9)])
					continue
				}
				if q.N(700) == 699 {
					w.flood(q)
				}
				drive(q)
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	// a quiet look at every key, before and after everything has expired
	for _, wait := range []int64{0, 3600} {
		simrt.Sleep(wait * second)
		for i := 0; i < 2*len(w.slots)+1; i++ {
			drive(kit.Plan{S: simrt.StMisc})
		}
	}
	w.check()
}

// flood stores many other records at once: no number of them pushes one out
// before its time, or keeps a new one out.
func (w *world) flood(p kit.Plan) {
	if w.fill == nil {
		return
	}
	r := w.r
	n := []int{70, 140, 270, 530, 1100, 2200, 4300, 10500}[p.W([]int{20, 20, 20, 20, 12, 5, 2, 1})]
	r.Fault("load:flood")
	r.Logf("%d more records", n)
	at := simrt.NextSeq()
	var ids []string
	o := r.Do(w.kind+".flood", -1, func() {
		for i := 0; i < n; i++ {
			id, err := w.fill(fmt.Sprintf("flood-%d-%d", at, i))
			if err != nil {
				r.Fail("C19", "write-refused:"+w.kind, "the %s store refused the %dth of many records: %v", w.kind, i+1, err)
				return
			}
			ids = append(ids, id)
		}
		for _, i := range []int{0, len(ids) / 3, len(ids) - 1} {
			ok, err := w.has(ids[i])
			if err != nil || !ok {
				r.Fail("C19", "lost-in-flood:"+w.kind, "the %s store lost the %dth of %d records stored just before: %v", w.kind, i+1, n, err)
			}
		}
	})
	r.CheckPanic(o, "C19")
}

func found(err error) (bool, error) {
	if err == storage.ErrNotFound {
		return false, nil
	}
	return err == nil, err
}

func (w *world) slot(p kit.Plan) *slot { return w.slots[p.N(len(w.slots))] }

// do runs one operation of the history.
func (w *world) do(s *slot, kind string, fn func()) *kit.Op {
	o := w.r.Do(w.kind+"."+kind, -1, fn)
	w.r.CheckPanic(o, "C19")
	w.r.CheckPanic(o, "C21")
	return o
}

func (w *world) add(s *slot, o *kit.Op, name string, step func(uint64) []uint64) {
	if len(s.ops) >= 40 {
		return
	}
	s.ops = append(s.ops, kit.LinOp{Inv: o.Inv, Ret: o.Ret, Step: step, Name: name})
	s.hist = append(s.hist, fmt.Sprintf("[%d,%d] t=%ds..%ds %s", o.Inv, o.Ret, o.T0/second, o.T1/second, name))
	w.r.Logf("%s %q %q: %s", w.kind, s.iss, s.key, name)
}

func (w *world) check() {
	r := w.r
	for _, s := range w.slots {
		if len(s.ops) == 0 {
			continue
		}
		over := false
		for i := range s.ops {
			for j := range s.ops {
				if i != j && s.ops[i].Inv < s.ops[j].Ret && s.ops[j].Inv < s.ops[i].Ret {
					over = true
				}
			}
		}
		ok, decided := kit.Linearizable(s.ops, 0, 200000)
		if !decided {
			r.Probe("history-undecided")
			continue
		}
		r.Notes["histories-decided"]++
		if over {
			r.Notes["concurrent-histories-decided"]++
		}
		if !ok {
			r.Fail("C19", "not-linearizable:"+w.kind, "the history of one key of the %s store has no sequential explanation:\n  %s", w.kind, strings.Join(s.hist, "\n  "))
		}
	}
}

// fresh makes the content of the next written record unique.
func (w *world) fresh() string { w.n++; return fmt.Sprintf("value-%04d", w.n) }

// which finds the write a returned record comes from; -1 if none.
func (w *world) which(s *slot, v proto.Message, mark func(proto.Message) string) int {
	for i, x := range s.writes {
		if proto.Equal(x.v, v) {
			return i
		}
	}
	m := mark(v)
	for _, t := range w.slots {
		for _, x := range t.writes {
			if proto.Equal(x.v, v) {
				if t.iss != s.iss {
					w.r.Fail("C18", "store-crosses:"+w.kind, "the %s store returned for (%q,%q) what was stored for (%q,%q)", w.kind, s.iss, s.key, t.iss, t.key)
				}
				w.r.Fail("C19", "other-key:"+w.kind, "the %s store returned for (%q,%q) what was stored for (%q,%q)", w.kind, s.iss, s.key, t.iss, t.key)
				return -1
			}
			if m != "" && m == mark(x.v) {
				w.r.Fail("C19", "record-changed:"+w.kind, "the %s store returned %v, stored was %v", w.kind, v, x.v)
				return -1
			}
		}
	}
	w.r.Fail("C19", "record-unknown:"+w.kind, "the %s store returned a record that was never stored: %v", w.kind, v)
	return -1
}

// mangle mutates a record the store has handed out or received.
func (w *world) mangle(p kit.Plan, m proto.Message) {
	if p.Pct(40) {
		kit.Scramble(m)
		w.r.Fault("caller-mutates-object")
	}
}

// gone reports that the record written by x may have expired during o; live
// that it may still be alive during o.
func gone(x write, o *kit.Op, ttl int64) bool { return ttl > 0 && o.T1 >= x.op.T0+ttl*second }
func live(x write, o *kit.Op, ttl int64) bool { return ttl == 0 || o.T0 <= x.op.T1+ttl*second }

// ---- expiring maps of one record per key
// state: 0 absent, i+1 = written by writes[i]

func (w *world) put(p kit.Plan, s *slot, v proto.Message, ttl int64, put func() (uint64, error)) {
	keep := proto.Clone(v)
	// the write is known before it can be read
	s.writes = append(s.writes, write{v: keep})
	i := len(s.writes) - 1
	var adv uint64
	var err error
	o := w.do(s, "Register", func() { s.writes[i].op = w.r.CurOp(); adv, err = put() })
	s.writes[i].op = o
	if err != nil {
		w.r.Fail("C19", "write-refused:"+w.kind, "the %s store refused a write: %v", w.kind, err)
		return
	}
	if int64(adv) != ttl {
		w.r.Fail("C19", "advertised-ttl:"+w.kind, "the %s store advertises a lifetime of %d s", w.kind, adv)
	}
	w.mangle(p, v)
	w.add(s, o, fmt.Sprintf("Register %d", i), func(uint64) []uint64 { return []uint64{uint64(i) + 1} })
}

func (w *world) get(p kit.Plan, s *slot, ttl int64, mark func(proto.Message) string, get func() (proto.Message, error)) {
	var v proto.Message
	var err error
	o := w.do(s, "Get", func() { v, err = get() })
	if o.Panic != nil {
		return
	}
	if err != nil {
		if err != storage.ErrNotFound {
			w.r.Fail("C19", "read-error:"+w.kind, "unexpected error %v", err)
		}
		w.add(s, o, "Get -> not found", func(st uint64) []uint64 {
			if st == 0 || gone(s.writes[st-1], o, ttl) {
				return []uint64{0}
			}
			return nil
		})
		return
	}
	i := w.which(s, v, mark)
	if i < 0 {
		return
	}
	w.r.Notes["records-compared"]++
	w.mangle(p, v)
	w.add(s, o, fmt.Sprintf("Get -> %d", i), func(st uint64) []uint64 {
		if st == uint64(i)+1 && live(s.writes[i], o, ttl) {
			return []uint64{st}
		}
		return nil
	})
}

func (w *world) del(s *slot, ttl int64, strict bool, del func() error) {
	var err error
	o := w.do(s, "Delete", func() { err = del() })
	if o.Panic != nil {
		return
	}
	if err != nil {
		if err != storage.ErrNotFound {
			w.r.Fail("C19", "delete-error:"+w.kind, "unexpected error %v", err)
		}
		w.add(s, o, "Delete -> not found", func(st uint64) []uint64 {
			if st == 0 || gone(s.writes[st-1], o, ttl) {
				return []uint64{0}
			}
			return nil
		})
		return
	}
	w.add(s, o, "Delete -> done", func(st uint64) []uint64 {
		if strict && (st == 0 || !live(s.writes[st-1], o, ttl)) {
			return nil
		}
		return []uint64{0}
	})
}

func (w *world) codes() func(kit.Plan) {
	st := inmemory.AuthorizationCodeSessions()
	mark := func(m proto.Message) string { return m.(*sessionv1.AuthorizationCodeSession).GetRequest().GetState() }
	w.fill = func(n string) (string, error) {
		_, err := st.Register(ctx, crowd, n, &sessionv1.AuthorizationCodeSession{Issuer: crowd, Subject: "alice", Request: &flowv1.AuthorizationRequest{State: n, ClientId: "c"}})
		return n, err
	}
	w.has = func(n string) (bool, error) { _, err := st.Get(ctx, crowd, n); return found(err) }
	return func(p kit.Plan) {
		s := w.slot(p)
		switch p.N(5) {
		case 0, 1:
			w.get(p, s, 60, mark, func() (proto.Message, error) { return st.Get(ctx, s.iss, s.key) })
		case 2, 3:
			v := &sessionv1.AuthorizationCodeSession{Issuer: s.iss, Subject: "alice", Request: w.request()}
			w.put(p, s, v, 60, func() (uint64, error) { return st.Register(ctx, s.iss, s.key, v) })
		case 4:
			w.del(s, 60, true, func() error { return st.Delete(ctx, s.iss, s.key) })
		}
	}
}

func (w *world) request() *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{State: w.fresh(), ClientId: "c", Scope: "openid", RedirectUri: "https://c.example/cb", Audience: "a", Nonce: "n", ResponseMode: proto.String("query.jwt"), Prompt: proto.String("consent")}
}

func (w *world) requests() func(kit.Plan) {
	st := inmemory.AuthorizationRequests()
	mark := func(m proto.Message) string { return m.(*flowv1.AuthorizationRequest).State }
	w.fill = func(n string) (string, error) {
		_, err := st.Register(ctx, crowd, n, &flowv1.AuthorizationRequest{State: n, ClientId: "c"})
		return n, err
	}
	w.has = func(n string) (bool, error) { _, err := st.Get(ctx, crowd, n); return found(err) }
	return func(p kit.Plan) {
		s := w.slot(p)
		switch p.N(5) {
		case 0, 1:
			w.get(p, s, 60, mark, func() (proto.Message, error) { return st.Get(ctx, s.iss, s.key) })
		case 2, 3:
			v := w.request()
			w.put(p, s, v, 60, func() (uint64, error) { return st.Register(ctx, s.iss, s.key, v) })
		case 4:
			w.del(s, 60, true, func() error { return st.Delete(ctx, s.iss, s.key) })
		}
	}
}

// ---- device sessions
// state: low 16 bits: what the user code leads to, next 16: the device code

func (w *world) devices() func(kit.Plan) {
	st := inmemory.DeviceCodeSessions()
	cons, _ := st.(storage.DeviceCodeSessionConsumer)
	const ttl = 120
	mark := func(m proto.Message) string {
		v := m.(*sessionv1.DeviceCodeSession)
		return v.GetScope() + v.GetSubject()
	}
	w.fill = func(n string) (string, error) {
		_, err := st.Register(ctx, crowd, n, &sessionv1.DeviceCodeSession{Issuer: crowd, DeviceCode: "d" + n, Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c"}})
		return n, err
	}
	w.has = func(n string) (bool, error) {
		if _, err := st.GetByUserCode(ctx, crowd, n); err != nil {
			return found(err)
		}
		_, err := st.GetByDeviceCode(ctx, crowd, "d"+n)
		return found(err)
	}
	valid := map[*slot]map[int]bool{}
	lo := func(s uint64) uint64 { return s & 0xffff }
	hi := func(s uint64) uint64 { return s >> 16 & 0xffff }
	mk := func(u, d uint64) uint64 { return u | d<<16 }
	return func(p kit.Plan) {
		s := w.slot(p)
		read := func(name string, part func(uint64) uint64, get func() (*sessionv1.DeviceCodeSession, error), drop func(uint64) uint64) {
			var v *sessionv1.DeviceCodeSession
			var err error
			o := w.do(s, name, func() { v, err = get() })
			if o.Panic != nil {
				return
			}
			if err != nil {
				if err != storage.ErrNotFound {
					w.r.Fail("C19", "read-error:device", "unexpected error %v", err)
				}
				w.add(s, o, name+" -> not found", func(x uint64) []uint64 {
					if part(x) == 0 || gone(s.writes[part(x)-1], o, ttl) {
						return []uint64{drop(x)}
					}
					return nil
				})
				return
			}
			c := proto.Clone(v).(*sessionv1.DeviceCodeSession)
			c.ExpiresAt = 0
			i := w.which(s, c, mark)
			if i < 0 {
				return
			}
			w.r.Notes["records-compared"]++
			w.mangle(p, v)
			w.add(s, o, fmt.Sprintf("%s -> %d", name, i), func(x uint64) []uint64 {
				if part(x) == uint64(i)+1 && live(s.writes[i], o, ttl) {
					return []uint64{x}
				}
				return nil
			})
		}
		switch p.N(8) {
		case 0, 1:
			read("GetByUserCode", lo, func() (*sessionv1.DeviceCodeSession, error) { return st.GetByUserCode(ctx, s.iss, s.key) }, func(x uint64) uint64 { return mk(0, hi(x)) })
		case 2, 3:
			read("GetByDeviceCode", hi, func() (*sessionv1.DeviceCodeSession, error) { return st.GetByDeviceCode(ctx, s.iss, s.key2) }, func(x uint64) uint64 { return mk(lo(x), 0) })
		case 4:
			// codes are generated: a pair is registered once
			if len(s.writes) > 0 {
				return
			}
			v := &sessionv1.DeviceCodeSession{Issuer: s.iss, DeviceCode: s.key2, Scope: proto.String(w.fresh()), Client: &clientv1.Client{ClientId: "c", Jwks: []byte("jwks")}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c"}, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
			s.writes = append(s.writes, write{v: proto.Clone(v)})
			i := len(s.writes) - 1
			var adv uint64
			var err error
			o := w.do(s, "Register", func() { s.writes[i].op = w.r.CurOp(); adv, err = st.Register(ctx, s.iss, s.key, v) })
			s.writes[i].op = o
			if err != nil || adv != ttl {
				w.r.Fail("C19", "write-refused:device", "the device store answered %d, %v", adv, err)
				return
			}
			w.mangle(p, v)
			w.add(s, o, fmt.Sprintf("Register %d", i), func(uint64) []uint64 { return []uint64{mk(uint64(i)+1, uint64(i)+1)} })
		case 5:
			if len(s.writes) == 0 {
				return
			}
			v := proto.Clone(s.writes[0].v).(*sessionv1.DeviceCodeSession)
			v.Status, v.Subject = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, proto.String(w.fresh())
			// its lifetime stays that of the registration
			s.writes = append(s.writes, write{v: proto.Clone(v), op: s.writes[0].op})
			i := len(s.writes) - 1
			if valid[s] == nil {
				valid[s] = map[int]bool{}
			}
			valid[s][i] = true
			var err error
			o := w.do(s, "Validate", func() { err = st.Validate(ctx, s.iss, s.key, v) })
			if o.Panic != nil {
				return
			}
			w.mangle(p, v)
			s.writes[i].op = s.writes[0].op
			if err != nil {
				if err != storage.ErrNotFound {
					w.r.Fail("C19", "validate-error:device", "unexpected error %v", err)
				}
				w.add(s, o, "Validate -> not found", func(x uint64) []uint64 {
					u := lo(x)
					if u == 0 || valid[s][int(u)-1] || gone(s.writes[u-1], o, ttl) {
						return []uint64{x}
					}
					return nil
				})
				return
			}
			w.add(s, o, fmt.Sprintf("Validate %d", i), func(x uint64) []uint64 {
				u := lo(x)
				if u == 0 || valid[s][int(u)-1] || !live(s.writes[u-1], o, ttl) {
					return nil
				}
				return []uint64{mk(uint64(i)+1, uint64(i)+1)}
			})
		case 6:
			var err error
			o := w.do(s, "Delete", func() { err = st.Delete(ctx, s.iss, s.key) })
			if err != nil && err != storage.ErrNotFound {
				w.r.Fail("C19", "delete-error:device", "unexpected error %v", err)
			}
			w.add(s, o, "Delete", func(x uint64) []uint64 { return []uint64{mk(0, hi(x))} })
		case 7:
			if cons == nil {
				return
			}
			var err error
			o := w.do(s, "Consume", func() { err = cons.Consume(ctx, s.iss, s.key2) })
			if o.Panic != nil {
				return
			}
			w.add(s, o, fmt.Sprintf("Consume -> %v", err), func(x uint64) []uint64 {
				d := hi(x)
				if err == nil {
					if d == 0 || !live(s.writes[d-1], o, ttl) {
						return nil
					}
					return []uint64{mk(lo(x), 0)}
				}
				if d == 0 || gone(s.writes[d-1], o, ttl) {
					return []uint64{mk(lo(x), 0)}
				}
				return nil
			})
		}
	}
}

// ---- tokens
// state: 0 absent, 2i+1 active, 2i+2 revoked

func (w *world) tokens() func(kit.Plan) {
	st := inmemory.Tokens()
	mark := func(m proto.Message) string { return m.(*tokenv1.Token).GetMetadata().GetSubject() }
	w.fill = func(n string) (string, error) {
		return n, st.Create(ctx, crowd, &tokenv1.Token{TokenId: n, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "value of " + n, Metadata: &tokenv1.TokenMeta{Issuer: crowd, ClientId: "c", Subject: "alice", ExpiresAt: 1 << 40}})
	}
	w.has = func(n string) (bool, error) {
		if _, err := st.Get(ctx, crowd, n); err != nil {
			return found(err)
		}
		_, err := st.GetByValue(ctx, crowd, "value of "+n)
		return found(err)
	}
	return func(p kit.Plan) {
		s := w.slot(p)
		id, value := s.key, "value of "+s.key
		switch p.N(7) {
		case 0, 1, 2:
			byValue := p.N(2) == 1
			name := "Get"
			if byValue {
				name = "GetByValue"
			}
			var v *tokenv1.Token
			var err error
			o := w.do(s, name, func() {
				if byValue {
					v, err = st.GetByValue(ctx, s.iss, value)
				} else {
					v, err = st.Get(ctx, s.iss, id)
				}
			})
			if o.Panic != nil {
				return
			}
			if err != nil {
				if err != storage.ErrNotFound {
					w.r.Fail("C19", "read-error:token", "unexpected error %v", err)
				}
				w.add(s, o, name+" -> not found", func(x uint64) []uint64 {
					if x == 0 {
						return []uint64{0}
					}
					return nil
				})
				return
			}
			c := proto.Clone(v).(*tokenv1.Token)
			revoked := c.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
			c.Value = ""
			if revoked {
				c.Status = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
			}
			i := w.which(s, c, mark)
			if i < 0 {
				return
			}
			w.r.Notes["records-compared"]++
			w.mangle(p, v)
			want := uint64(2*i + 1)
			if revoked {
				want++
			}
			w.add(s, o, fmt.Sprintf("%s -> %d revoked=%v", name, i, revoked), func(x uint64) []uint64 {
				if x == want {
					return []uint64{x}
				}
				return nil
			})
		case 3, 4:
			// identifiers and values are generated: each is stored once
			if len(s.writes) > 0 {
				return
			}
			v := &tokenv1.Token{TokenId: id, TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: value, Metadata: &tokenv1.TokenMeta{Issuer: s.iss, Subject: w.fresh(), ExpiresAt: 12345}, Confirmation: &tokenv1.TokenConfirmation{Jkt: "jkt"}}
			keep := proto.Clone(v).(*tokenv1.Token)
			keep.Value = ""
			s.writes = append(s.writes, write{v: keep})
			i := len(s.writes) - 1
			var err error
			o := w.do(s, "Create", func() { err = st.Create(ctx, s.iss, v) })
			if o.Panic != nil {
				return
			}
			if err != nil {
				w.r.Fail("C19", "write-refused:token", "the token store refused a write: %v", err)
				return
			}
			if v.Value != value {
				w.r.Fail("C19", "argument-changed:token", "storing a token changed the caller's object")
			}
			w.mangle(p, v)
			w.add(s, o, fmt.Sprintf("Create %d", i), func(uint64) []uint64 { return []uint64{uint64(2*i + 1)} })
		case 5:
			var err error
			o := w.do(s, "Revoke", func() { err = st.Revoke(ctx, s.iss, id) })
			if o.Panic != nil {
				return
			}
			w.add(s, o, fmt.Sprintf("Revoke -> %v", err), func(x uint64) []uint64 {
				switch {
				case err == nil && x%2 == 1:
					return []uint64{x + 1}
				case err == nil || x%2 == 1:
					return nil
				}
				return []uint64{x}
			})
		case 6:
			var err error
			o := w.do(s, "Delete", func() { err = st.Delete(ctx, s.iss, id) })
			if o.Panic != nil {
				return
			}
			w.add(s, o, fmt.Sprintf("Delete -> %v", err), func(x uint64) []uint64 {
				if (err == nil) == (x != 0) {
					return []uint64{0}
				}
				return nil
			})
		}
	}
}

// ---- DPoP proofs: state 0 absent, i+1 registered by writes[i]

func (w *world) proofs() func(kit.Plan) {
	st := inmemory.DPoPProofs()
	w.fill = func(n string) (string, error) { return n, st.Register(ctx, n) }
	w.has = func(n string) (bool, error) { return st.Exists(ctx, n) }
	const ttl = 60
	return func(p kit.Plan) {
		s := w.slot(p)
		id := s.iss + "|" + s.key
		switch p.N(6) {
		case 0, 1:
			var ok bool
			var err error
			o := w.do(s, "Exists", func() { ok, err = st.Exists(ctx, id) })
			if o.Panic != nil {
				return
			}
			if err != nil {
				w.r.Fail("C19", "read-error:proof", "unexpected error %v", err)
			}
			w.add(s, o, fmt.Sprintf("Exists -> %v", ok), func(x uint64) []uint64 {
				if ok {
					if x == 0 || !live(s.writes[x-1], o, ttl) {
						return nil
					}
					return []uint64{x}
				}
				if x == 0 || gone(s.writes[x-1], o, ttl) {
					return []uint64{0}
				}
				return nil
			})
		case 2, 3, 4:
			s.writes = append(s.writes, write{})
			i := len(s.writes) - 1
			var err error
			o := w.do(s, "Register", func() { s.writes[i].op = w.r.CurOp(); err = st.Register(ctx, id) })
			s.writes[i].op = o
			if o.Panic != nil {
				return
			}
			w.add(s, o, fmt.Sprintf("Register %d -> %v", i, err != nil), func(x uint64) []uint64 {
				if err != nil {
					if x == 0 || !live(s.writes[x-1], o, ttl) {
						return nil
					}
					return []uint64{x}
				}
				if x == 0 || gone(s.writes[x-1], o, ttl) {
					return []uint64{uint64(i) + 1}
				}
				return nil
			})
		case 5:
			var err error
			o := w.do(s, "Delete", func() { err = st.Delete(ctx, id) })
			if err != nil {
				w.r.Fail("C19", "delete-error:proof", "unexpected error %v", err)
			}
			w.add(s, o, "Delete", func(uint64) []uint64 { return []uint64{0} })
		}
	}
}

// ---- clients: written once under a fresh identifier, read for ever

func (w *world) clients() func(kit.Plan) {
	st := inmemory.Clients()
	type reg struct {
		id   string
		v    *clientv1.Client
		op   *kit.Op
		name string
	}
	var regs []*reg
	r := w.r
	names := []string{"alpha", "beta", "foo-test-client"}
	seed := []string{"6779ef20e75817b79602", "public-client", "t8p9duw4n2klximkv3kagaud796ul67g"}
	first := map[string]*clientv1.Client{}
	w.fill = func(n string) (string, error) { return st.Register(ctx, &clientv1.Client{ClientName: n}) }
	w.has = func(id string) (bool, error) { _, err := st.Get(ctx, id); return found(err) }
	return func(p kit.Plan) {
		switch p.N(5) {
		case 0:
			g := &reg{name: names[p.N(2)]}
			v := &clientv1.Client{ClientName: g.name, GrantTypes: []string{"authorization_code"}, RedirectUris: []string{"https://" + w.fresh()}, Jwks: []byte(`{"keys":[]}`)}
			regs = append(regs, g)
			keep := proto.Clone(v).(*clientv1.Client)
			var err error
			var id string
			g.op = w.r.Do("client.Register", -1, func() { g.op = r.CurOp(); id, err = st.Register(ctx, v) })
			if r.CheckPanic(g.op, "C19") {
				return
			}
			if err != nil || id == "" {
				r.Fail("C19", "write-refused:client", "client registration failed: %v", err)
				return
			}
			for _, o := range regs {
				if o.id == id {
					r.Fail("C19", "duplicate-id:client", "two clients were registered under one identifier")
				}
			}
			keep.ClientId = id
			g.id, g.v = id, keep
			w.mangle(p, v)
			r.Logf("client Register %s", g.name)
		case 1, 2:
			id := seed[p.N(3)]
			var g *reg
			if len(regs) > 0 && p.Pct(70) {
				g = regs[p.N(len(regs))]
				if g.id == "" {
					return
				}
				id = g.id
			}
			var v *clientv1.Client
			var err error
			o := r.Do("client.Get", -1, func() { v, err = st.Get(ctx, id) })
			if r.CheckPanic(o, "C19") {
				return
			}
			if err != nil {
				r.Fail("C19", "lost:client", "a registered client is not found: %v", err)
				return
			}
			r.Notes["records-compared"]++
			r.Notes["histories-decided"]++
			want := first[id]
			if g != nil {
				want = g.v
			} else if want == nil {
				first[id] = proto.Clone(v).(*clientv1.Client)
				want = first[id]
			}
			if !proto.Equal(v, want) {
				r.Fail("C19", "record-changed:client", "the client store returned %v, stored was %v", v, want)
			}
			w.mangle(p, v)
		case 3:
			n := names[p.N(3)]
			ask := n
			if p.N(2) == 1 {
				ask = strings.ToUpper(n)
			}
			var v *clientv1.Client
			var err error
			known := n == "foo-test-client"
			for _, g := range regs {
				if g.name == n && g.id != "" {
					known = true
				}
			}
			var o *kit.Op
			o = r.Do("client.GetByName", -1, func() { simrt.NoPreempt(func() { v, err = st.GetByName(ctx, ask) }) })
			if r.CheckPanic(o, "C19") {
				return
			}
			if err != nil {
				if known {
					r.Fail("C19", "lost:client", "a registered client is not found by its name %q: %v", ask, err)
				}
				return
			}
			if v == nil || !strings.EqualFold(v.ClientName, n) {
				r.Fail("C19", "record-changed:client", "the client store returned %v for the name %q", v, ask)
				return
			}
			r.Notes["records-compared"]++
			for _, g := range regs {
				if g.id == v.ClientId && g.id != "" && !proto.Equal(g.v, v) {
					r.Fail("C19", "record-changed:client", "the client store returned %v, stored was %v", v, g.v)
				}
			}
			w.mangle(p, v)
		case 4:
			id := []string{"unknown", "", "PUBLIC-CLIENT", "public-client "}[p.N(4)]
			var v *clientv1.Client
			var err error
			o := r.Do("client.Get", -1, func() { v, err = st.Get(ctx, id) })
			if r.CheckPanic(o, "C19") {
				return
			}
			if err != storage.ErrNotFound || v != nil {
				r.Fail("C19", "unknown:client", "an unknown client was found: %v %v", v, err)
			}
		}
	}
}

func (w *world) resources() func(kit.Plan) {
	st := inmemory.Resources()
	r := w.r
	first := map[string]*resourcev1.Resource{}
	urns := []string{"urn:example:cooperation-context", "urn:example:backend-api", "urn:example:none", ""}
	return func(p kit.Plan) {
		u := urns[p.N(4)]
		var v *resourcev1.Resource
		var err error
		o := r.Do("resource.GetByURI", -1, func() { v, err = st.GetByURI(ctx, u) })
		if r.CheckPanic(o, "C19") {
			return
		}
		if u == "" || u == "urn:example:none" {
			if err != storage.ErrNotFound {
				r.Fail("C19", "unknown:resource", "an unknown resource was found")
			}
			return
		}
		if err != nil {
			r.Fail("C19", "lost:resource", "a registered resource is not found: %v", err)
			return
		}
		r.Notes["records-compared"]++
		r.Notes["histories-decided"]++
		if first[u] == nil {
			first[u] = proto.Clone(v).(*resourcev1.Resource)
		}
		if !proto.Equal(v, first[u]) || v.Urn != u {
			r.Fail("C19", "record-changed:resource", "the resource store returned %v, earlier %v", v, first[u])
		}
		w.mangle(p, v)
	}
}
