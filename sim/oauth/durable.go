package oauth

import (
	"context"
	"encoding/binary"
	"hash/crc32"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zz_verif/codec"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// A third storage implementation: a storage process that keeps every record in
// its wire encoding in a log on disk, answers from what it decodes, and
// restarts at arbitrary points, losing all but the log. The reference store
// decides what the operations mean and knows what was stored.
type durable struct {
	r    *kit.Run
	ref  *refStore
	cl   storage.Client
	log  []byte // on disk
	idx  map[string][]byte
	want map[string]proto.Message
	keys []string
	rate int
	cnt  int
}

func newDurable(r *kit.Run, clients storage.Client, rate int) *Backend {
	ref := &refStore{ar: map[[2]string]refEnt{}, codes: map[[2]string]refEnt{}, devU: map[[2]string]*refDev{}, devD: map[[2]string]*refDev{}, tokV: map[[2]string]*tokenv1.Token{}, tokI: map[[2]string]*tokenv1.Token{}}
	d := &durable{r: r, ref: ref, cl: clients, idx: map[string][]byte{}, want: map[string]proto.Message{}, rate: rate}
	return &Backend{Clients: (*durClients)(d), AR: (*durAR)(d), Codes: (*durCodes)(d), Devices: (*durDevs)(d), Tokens: (*durToks)(d)}
}

func (d *durable) pick(n int) int { return simrt.Choose(simrt.StMisc, n) }

// frame is one entry of the log.
func frame(key string, del bool, rec []byte) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint16(b, uint16(len(key)))
	b = append(b, key...)
	if del {
		b = append(b, 0)
	} else {
		b = append(b, 1)
	}
	b = append(b, rec...)
	h := binary.BigEndian.AppendUint32(nil, uint32(len(b)))
	h = binary.BigEndian.AppendUint32(h, crc32.ChecksumIEEE(b))
	return append(h, b...)
}

func (d *durable) append(f []byte) {
	if d.rate > 0 && d.pick(d.rate) == d.rate-1 {
		// the storage goes down in the middle of the write, and the write is
		// repeated when it is back
		d.r.Fault("storage-crash-torn-write")
		d.log = append(d.log, f[:d.pick(len(f))]...)
		d.restart()
	}
	d.log = append(d.log, f...)
}

func (d *durable) maybe() {
	if d.rate > 0 && d.pick(d.rate) == d.rate-1 {
		d.r.Fault("storage-crash")
		d.restart()
	}
}

func (d *durable) encode(m proto.Message) []byte {
	how := d.pick(codec.Encoders)
	b, err := codec.Encode(how, m)
	if err != nil && how < codec.Plain {
		b, err = codec.Encode(codec.Plain, m)
	}
	if err != nil {
		d.r.Fail("C27", "flow-encode:"+codec.Name(m), "a %s in use cannot be encoded: %v", codec.Name(m), err)
	}
	return b
}

// decode reads a record and compares it with what was stored.
func (d *durable) decode(key string, b []byte) proto.Message {
	want := d.want[key]
	how := d.pick(codec.Decoders)
	m, err := codec.Decode(how, b, want)
	if err != nil && how < codec.PlainDec {
		if _, bad := proto.Marshal(want); bad != nil {
			m, err = codec.Decode(codec.PlainDec, b, want)
		}
	}
	switch {
	case err != nil:
		d.r.Fail("C27", "flow-unreadable:"+codec.Name(want), "a stored %s cannot be read back: %v", codec.Name(want), err)
		return proto.Clone(want)
	case !proto.Equal(m, want):
		d.r.Fail("C27", "flow-read-back:"+codec.Name(want), "a stored %s is read back as %v, stored %v", codec.Name(want), m, want)
	}
	d.r.Notes["records-read-back"]++
	return m
}

func (d *durable) put(key string, m proto.Message) {
	if !m.ProtoReflect().IsValid() {
		m = m.ProtoReflect().New().Interface()
	}
	f := frame(key, false, d.encode(m))
	d.append(f)
	if _, ok := d.want[key]; !ok {
		d.keys = append(d.keys, key)
	}
	d.want[key] = proto.Clone(m)
	d.idx[key] = f[11+len(key):]
	d.maybe()
}

func (d *durable) del(key string) {
	d.append(frame(key, true, nil))
	delete(d.want, key)
	delete(d.idx, key)
	for i, k := range d.keys {
		if k == key {
			d.keys = append(d.keys[:i:i], d.keys[i+1:]...)
			break
		}
	}
	d.maybe()
}

func (d *durable) get(key string) proto.Message {
	d.maybe()
	b, ok := d.idx[key]
	if !ok {
		d.r.Fail("C27", "flow-lost", "the record %q is not found after recovery", key)
		return proto.Clone(d.want[key])
	}
	return d.decode(key, b)
}

// restart recovers the state of the storage from its log.
func (d *durable) restart() {
	d.r.Notes["storage-restarts"]++
	d.idx = map[string][]byte{}
	at := 0
	for at+8 <= len(d.log) {
		n := int(binary.BigEndian.Uint32(d.log[at:]))
		if n > len(d.log)-at-8 {
			break
		}
		b := d.log[at+8 : at+8+n]
		if crc32.ChecksumIEEE(b) != binary.BigEndian.Uint32(d.log[at+4:]) {
			break
		}
		k := int(binary.BigEndian.Uint16(b))
		key := string(b[2 : 2+k])
		if b[2+k] == 0 {
			delete(d.idx, key)
		} else {
			d.idx[key] = b[3+k:]
		}
		at += 8 + n
	}
	d.log = d.log[:at:at]
	for _, key := range d.keys {
		if b, ok := d.idx[key]; ok {
			d.decode(key, b)
		} else {
			d.r.Fail("C27", "flow-lost", "the record %q is not found after recovery", key)
		}
	}
}

func k2(kind, a, b string) string { return kind + "\x00" + a + "\x00" + b }

type durClients durable

func (s *durClients) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	c, err := s.cl.Get(ctx, id)
	if err != nil || c == nil {
		return c, err
	}
	return s.through(c), nil
}

func (s *durClients) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	c, err := s.cl.GetByName(ctx, n)
	if err != nil || c == nil {
		return c, err
	}
	return s.through(c), nil
}

func (s *durClients) through(c *clientv1.Client) *clientv1.Client {
	d := (*durable)(s)
	key := k2("client", "", c.ClientId)
	if w, ok := d.want[key]; !ok || !proto.Equal(w, c) {
		d.put(key, c)
	}
	return d.get(key).(*clientv1.Client)
}

type durAR durable

func (s *durAR) Get(ctx context.Context, iss, uri string) (*flowv1.AuthorizationRequest, error) {
	if _, err := (*refAR)(s.ref).Get(ctx, iss, uri); err != nil {
		return nil, err
	}
	return (*durable)(s).get(k2("ar", iss, uri)).(*flowv1.AuthorizationRequest), nil
}

func (s *durAR) Register(ctx context.Context, iss, uri string, v *flowv1.AuthorizationRequest) (uint64, error) {
	n, err := (*refAR)(s.ref).Register(ctx, iss, uri, v)
	(*durable)(s).put(k2("ar", iss, uri), s.ref.ar[[2]string{iss, uri}].v)
	return n, err
}

func (s *durAR) Delete(ctx context.Context, iss, uri string) error {
	err := (*refAR)(s.ref).Delete(ctx, iss, uri)
	if err == nil {
		(*durable)(s).del(k2("ar", iss, uri))
	}
	return err
}

type durCodes durable

func (s *durCodes) Get(ctx context.Context, iss, c string) (*sessionv1.AuthorizationCodeSession, error) {
	if _, err := (*refCodes)(s.ref).Get(ctx, iss, c); err != nil {
		return nil, err
	}
	return (*durable)(s).get(k2("code", iss, c)).(*sessionv1.AuthorizationCodeSession), nil
}

func (s *durCodes) Register(ctx context.Context, iss, c string, v *sessionv1.AuthorizationCodeSession) (uint64, error) {
	n, err := (*refCodes)(s.ref).Register(ctx, iss, c, v)
	(*durable)(s).put(k2("code", iss, c), s.ref.codes[[2]string{iss, c}].v)
	return n, err
}

func (s *durCodes) Delete(ctx context.Context, iss, c string) error {
	err := (*refCodes)(s.ref).Delete(ctx, iss, c)
	if err == nil {
		(*durable)(s).del(k2("code", iss, c))
	}
	return err
}

type durDevs durable

func (s *durDevs) session(d *refDev) *sessionv1.DeviceCodeSession {
	return (*durable)(s).get(k2("dev", d.iss, d.uc)).(*sessionv1.DeviceCodeSession)
}

func (s *durDevs) Register(ctx context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) (uint64, error) {
	n, err := (*refDevs)(s.ref).Register(ctx, iss, uc, v)
	(*durable)(s).put(k2("dev", iss, uc), s.ref.devU[[2]string{iss, uc}].s)
	return n, err
}

func (s *durDevs) Delete(ctx context.Context, iss, uc string) error {
	return (*refDevs)(s.ref).Delete(ctx, iss, uc)
}

func (s *durDevs) Validate(ctx context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) error {
	err := (*refDevs)(s.ref).Validate(ctx, iss, uc, v)
	if err == nil {
		(*durable)(s).put(k2("dev", iss, uc), s.ref.devU[[2]string{iss, uc}].s)
	}
	return err
}

func (s *durDevs) GetByDeviceCode(ctx context.Context, iss, c string) (*sessionv1.DeviceCodeSession, error) {
	d, ok := s.ref.devD[[2]string{iss, c}]
	if !ok {
		return nil, storage.ErrNotFound
	}
	return s.session(d), nil
}

func (s *durDevs) GetByUserCode(ctx context.Context, iss, uc string) (*sessionv1.DeviceCodeSession, error) {
	d, ok := s.ref.devU[[2]string{iss, uc}]
	if !ok {
		return nil, storage.ErrNotFound
	}
	return s.session(d), nil
}

func (s *durDevs) Consume(ctx context.Context, iss, c string) error {
	return (*refDevs)(s.ref).Consume(ctx, iss, c)
}

type durToks durable

func (s *durToks) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	if err := (*refToks)(s.ref).Create(ctx, iss, t); err != nil {
		return err
	}
	(*durable)(s).put(k2("tok", iss, t.TokenId), t)
	return nil
}

func (s *durToks) Get(ctx context.Context, iss, id string) (*tokenv1.Token, error) {
	if _, err := (*refToks)(s.ref).Get(ctx, iss, id); err != nil {
		return nil, err
	}
	return (*durable)(s).get(k2("tok", iss, id)).(*tokenv1.Token), nil
}

func (s *durToks) GetByValue(ctx context.Context, iss, v string) (*tokenv1.Token, error) {
	t, err := (*refToks)(s.ref).GetByValue(ctx, iss, v)
	if err != nil {
		return nil, err
	}
	return (*durable)(s).get(k2("tok", iss, t.TokenId)).(*tokenv1.Token), nil
}

func (s *durToks) Delete(ctx context.Context, iss, id string) error {
	err := (*refToks)(s.ref).Delete(ctx, iss, id)
	if err == nil {
		(*durable)(s).del(k2("tok", iss, id))
	}
	return err
}

func (s *durToks) Revoke(ctx context.Context, iss, id string) error {
	err := (*refToks)(s.ref).Revoke(ctx, iss, id)
	if err == nil {
		(*durable)(s).put(k2("tok", iss, id), s.ref.tokI[[2]string{iss, id}])
	}
	return err
}

func (s *durClients) Register(ctx context.Context, c *clientv1.Client) (string, error) {
	return s.cl.Register(ctx, c)
}
