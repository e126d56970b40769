// Package oauth is the simulated authorization server deployment: several
// nodes running the real services over shared storage, driven by rightful and
// hostile clients.
package oauth

import (
	"context"
	"errors"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// Backend is the shared storage of a deployment.
type Backend struct {
	Clients storage.Client
	AR      storage.AuthorizationRequest
	Codes   storage.AuthorizationCodeSession
	Devices storage.DeviceCodeSession
	Tokens  storage.Token
	Res     storage.Resource
}

func isNil(err error) bool { return err == kit.ErrNil }

// ---- incomplete records: what a store that lost part of a record returns

var (
	partCode = []func(*sessionv1.AuthorizationCodeSession){
		func(v *sessionv1.AuthorizationCodeSession) { v.Request = nil },
	}
	partDev = []func(*sessionv1.DeviceCodeSession){
		func(v *sessionv1.DeviceCodeSession) { v.Request = nil },
		func(v *sessionv1.DeviceCodeSession) { v.Client = nil },
	}
	partDevPoll = append([]func(*sessionv1.DeviceCodeSession){
		func(v *sessionv1.DeviceCodeSession) { v.Subject = nil },
	}, partDev...)
	partTok = []func(*tokenv1.Token){
		func(v *tokenv1.Token) { v.Metadata = nil },
	}
)

type message[T any] interface {
	*T
	proto.Message
}

// part turns a nil-record fault into nil, an empty record or the real record
// with one of its messages missing. A revocation only gets nil: a record of
// which the owner is lost can be revoked by whoever holds the token.
func part[T any, P message[T]](r *kit.Run, get func() (P, error), clear ...func(P)) P {
	o := r.CurOp()
	if o == nil || o.Kind == "revoke" {
		return nil
	}
	k := simrt.Choose(simrt.StFault, 2+2*len(clear))
	switch {
	case k == 0:
		return nil
	case k == 1:
		r.Fault("empty-record")
		return P(new(T))
	}
	old := simrt.Mask(kit.StoreDom)
	v, err := get()
	simrt.Unmask(old)
	if err != nil || v == nil {
		return nil
	}
	r.Fault("incomplete-record")
	v = proto.Clone(v).(P)
	clear[(k-2)%len(clear)](v)
	return v
}

// ---- wrappers: what a node sees of the shared storage

type clientW struct {
	r  *kit.Run
	in storage.Client
}

func (s *clientW) Get(ctx context.Context, id string) (out *clientv1.Client, err error) {
	err = s.r.SeamCall("client.Get", false, func() (e error) { out, e = s.in.Get(ctx, id); return })
	if isNil(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *clientW) GetByName(ctx context.Context, name string) (out *clientv1.Client, err error) {
	err = s.r.SeamCall("client.GetByName", false, func() (e error) {
		simrt.NoPreempt(func() { out, e = s.in.GetByName(ctx, name) })
		return
	})
	if isNil(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return
}

type arW struct {
	r  *kit.Run
	in storage.AuthorizationRequest
}

func (s *arW) Get(ctx context.Context, iss, uri string) (out *flowv1.AuthorizationRequest, err error) {
	err = s.r.SeamCall("ar.Get", false, func() (e error) { out, e = s.in.Get(ctx, iss, uri); return })
	if isNil(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *arW) Register(ctx context.Context, iss, uri string, req *flowv1.AuthorizationRequest) (out uint64, err error) {
	err = s.r.SeamCall("ar.Register", true, func() (e error) { out, e = s.in.Register(ctx, iss, uri, req); return })
	return
}

func (s *arW) Delete(ctx context.Context, iss, uri string) error {
	return s.r.SeamCall("ar.Delete", true, func() error { return s.in.Delete(ctx, iss, uri) })
}

type codeW struct {
	r  *kit.Run
	in storage.AuthorizationCodeSession
}

func (s *codeW) Get(ctx context.Context, iss, code string) (out *sessionv1.AuthorizationCodeSession, err error) {
	err = s.r.SeamCall("code.Get", false, func() (e error) { out, e = s.in.Get(ctx, iss, code); return })
	if isNil(err) {
		return part(s.r, func() (*sessionv1.AuthorizationCodeSession, error) { return s.in.Get(ctx, iss, code) }, partCode...), nil
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *codeW) Register(ctx context.Context, iss, code string, v *sessionv1.AuthorizationCodeSession) (out uint64, err error) {
	err = s.r.SeamCall("code.Register", true, func() (e error) { out, e = s.in.Register(ctx, iss, code, v); return })
	return
}

func (s *codeW) Delete(ctx context.Context, iss, code string) error {
	return s.r.SeamCall("code.Delete", true, func() error { return s.in.Delete(ctx, iss, code) })
}

type devW struct {
	r  *kit.Run
	in storage.DeviceCodeSession
}

func (s *devW) Register(ctx context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) (out uint64, err error) {
	err = s.r.SeamCall("dev.Register", true, func() (e error) { out, e = s.in.Register(ctx, iss, uc, v); return })
	return
}

func (s *devW) Delete(ctx context.Context, iss, uc string) error {
	return s.r.SeamCall("dev.Delete", true, func() error { return s.in.Delete(ctx, iss, uc) })
}

func (s *devW) Validate(ctx context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) error {
	return s.r.SeamCall("dev.Validate", true, func() error { return s.in.Validate(ctx, iss, uc, v) })
}

func (s *devW) GetByDeviceCode(ctx context.Context, iss, c string) (out *sessionv1.DeviceCodeSession, err error) {
	err = s.r.SeamCall("dev.GetByDeviceCode", false, func() (e error) { out, e = s.in.GetByDeviceCode(ctx, iss, c); return })
	if isNil(err) {
		return part(s.r, func() (*sessionv1.DeviceCodeSession, error) { return s.in.GetByDeviceCode(ctx, iss, c) }, partDevPoll...), nil
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *devW) GetByUserCode(ctx context.Context, iss, c string) (out *sessionv1.DeviceCodeSession, err error) {
	err = s.r.SeamCall("dev.GetByUserCode", false, func() (e error) { out, e = s.in.GetByUserCode(ctx, iss, c); return })
	if isNil(err) {
		return part(s.r, func() (*sessionv1.DeviceCodeSession, error) { return s.in.GetByUserCode(ctx, iss, c) }, partDev...), nil
	}
	if err != nil {
		return nil, err
	}
	return
}

type consumer interface {
	Consume(ctx context.Context, issuer, deviceCode string) error
}

// devWC also offers the optional single-use operation when the store has it.
type devWC struct {
	devW
	c consumer
}

func (s *devWC) Consume(ctx context.Context, iss, dc string) error {
	return s.r.SeamCall("dev.Consume", true, func() error { return s.c.Consume(ctx, iss, dc) })
}

func wrapDevices(r *kit.Run, in storage.DeviceCodeSession) storage.DeviceCodeSession {
	if c, ok := in.(consumer); ok {
		return &devWC{devW{r, in}, c}
	}
	return &devW{r, in}
}

type tokW struct {
	r  *kit.Run
	in storage.Token
}

func (s *tokW) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	return s.r.SeamCall("tok.Create", true, func() error { return s.in.Create(ctx, iss, t) })
}

func (s *tokW) Delete(ctx context.Context, iss, id string) error {
	return s.r.SeamCall("tok.Delete", true, func() error { return s.in.Delete(ctx, iss, id) })
}

func (s *tokW) Revoke(ctx context.Context, iss, id string) error {
	return s.r.SeamCall("tok.Revoke", true, func() error { return s.in.Revoke(ctx, iss, id) })
}

func (s *tokW) Get(ctx context.Context, iss, id string) (out *tokenv1.Token, err error) {
	err = s.r.SeamCall("tok.Get", false, func() (e error) { out, e = s.in.Get(ctx, iss, id); return })
	if isNil(err) {
		return part(s.r, func() (*tokenv1.Token, error) { return s.in.Get(ctx, iss, id) }, partTok...), nil
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *tokW) GetByValue(ctx context.Context, iss, v string) (out *tokenv1.Token, err error) {
	err = s.r.SeamCall("tok.GetByValue", false, func() (e error) { out, e = s.in.GetByValue(ctx, iss, v); return })
	if isNil(err) {
		return part(s.r, func() (*tokenv1.Token, error) { return s.in.GetByValue(ctx, iss, v) }, partTok...), nil
	}
	if err != nil {
		return nil, err
	}
	return
}

type resW struct {
	r  *kit.Run
	in storage.Resource
	// the registry also finds a resource by its URL
	byURL *bool
}

const resourceURL = "https://backend.example.com/api"

func (s *resW) GetByURI(ctx context.Context, u string) (out *resourcev1.Resource, err error) {
	if s.byURL != nil && *s.byURL && u == resourceURL {
		u = "urn:example:backend-api"
	}
	err = s.r.SeamCall("res.GetByURI", false, func() (e error) { out, e = s.in.GetByURI(ctx, u); return })
	if isNil(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return
}

// ---- generators of a node

type genW struct {
	r    *kit.Run
	name string
	in   interface {
		Generate(ctx context.Context, issuer string) (string, error)
	}
	val interface {
		Validate(ctx context.Context, issuer, in string) error
	}
}

func (g *genW) Generate(ctx context.Context, iss string) (string, error) {
	return g.r.GenCall(g.name, false, func() (string, error) { return g.in.Generate(ctx, iss) })
}

func (g *genW) Validate(ctx context.Context, iss, in string) error {
	simrt.Seam()
	return g.val.Validate(ctx, iss, in)
}

func wrapGen(r *kit.Run, name string, g any) *genW {
	w := &genW{r: r, name: name}
	w.in = g.(interface {
		Generate(ctx context.Context, issuer string) (string, error)
	})
	if v, ok := g.(interface {
		Validate(ctx context.Context, issuer, in string) error
	}); ok {
		w.val = v
	}
	return w
}

type tokGenW struct {
	r    *kit.Run
	name string
	in   token.Generator
}

func (g *tokGenW) Generate(ctx context.Context, t *tokenv1.Token) (string, error) {
	return g.r.GenCall(g.name, true, func() (string, error) { return g.in.Generate(ctx, t) })
}

// ---- a second storage implementation: linearizable, value semantics, no
// expiry of its own for device sessions and tokens

type refStore struct {
	clients map[string]*clientv1.Client
	ar      map[[2]string]refEnt
	codes   map[[2]string]refEnt
	devU    map[[2]string]*refDev
	devD    map[[2]string]*refDev
	tokV    map[[2]string]*tokenv1.Token
	tokI    map[[2]string]*tokenv1.Token
}

type refEnt struct {
	v   proto.Message
	exp int64
}

type refDev struct {
	uc   string
	iss  string
	s    *sessionv1.DeviceCodeSession
	gone bool // user code removed
}

func newRef(clients storage.Client) *Backend {
	r := &refStore{ar: map[[2]string]refEnt{}, codes: map[[2]string]refEnt{}, devU: map[[2]string]*refDev{}, devD: map[[2]string]*refDev{}, tokV: map[[2]string]*tokenv1.Token{}, tokI: map[[2]string]*tokenv1.Token{}}
	return &Backend{Clients: clients, AR: (*refAR)(r), Codes: (*refCodes)(r), Devices: (*refDevs)(r), Tokens: (*refToks)(r)}
}

func now() int64 { return simrt.NowNanos() }

type refAR refStore

func (s *refAR) Get(_ context.Context, iss, uri string) (*flowv1.AuthorizationRequest, error) {
	e, ok := s.ar[[2]string{iss, uri}]
	if !ok || e.exp < now() {
		return nil, storage.ErrNotFound
	}
	return proto.Clone(e.v).(*flowv1.AuthorizationRequest), nil
}

func (s *refAR) Register(_ context.Context, iss, uri string, v *flowv1.AuthorizationRequest) (uint64, error) {
	s.ar[[2]string{iss, uri}] = refEnt{proto.Clone(v), now() + 60e9}
	return 60, nil
}

func (s *refAR) Delete(_ context.Context, iss, uri string) error {
	e, ok := s.ar[[2]string{iss, uri}]
	delete(s.ar, [2]string{iss, uri})
	if !ok || e.exp < now() {
		return storage.ErrNotFound
	}
	return nil
}

type refCodes refStore

func (s *refCodes) Get(_ context.Context, iss, c string) (*sessionv1.AuthorizationCodeSession, error) {
	e, ok := s.codes[[2]string{iss, c}]
	if !ok || e.exp < now() {
		return nil, storage.ErrNotFound
	}
	return proto.Clone(e.v).(*sessionv1.AuthorizationCodeSession), nil
}

func (s *refCodes) Register(_ context.Context, iss, c string, v *sessionv1.AuthorizationCodeSession) (uint64, error) {
	s.codes[[2]string{iss, c}] = refEnt{proto.Clone(v), now() + 60e9}
	return 60, nil
}

func (s *refCodes) Delete(_ context.Context, iss, c string) error {
	e, ok := s.codes[[2]string{iss, c}]
	delete(s.codes, [2]string{iss, c})
	if !ok || e.exp < now() {
		return storage.ErrNotFound
	}
	return nil
}

type refDevs refStore

func (s *refDevs) Register(_ context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) (uint64, error) {
	c := proto.Clone(v).(*sessionv1.DeviceCodeSession)
	c.ExpiresAt = uint64(now()/1e9 + 120)
	d := &refDev{uc: uc, iss: iss, s: c}
	s.devU[[2]string{iss, uc}] = d
	s.devD[[2]string{iss, c.DeviceCode}] = d
	return 120, nil
}

func (s *refDevs) Delete(_ context.Context, iss, uc string) error {
	if _, ok := s.devU[[2]string{iss, uc}]; !ok {
		return storage.ErrNotFound
	}
	delete(s.devU, [2]string{iss, uc})
	return nil
}

func (s *refDevs) Validate(_ context.Context, iss, uc string, v *sessionv1.DeviceCodeSession) error {
	d, ok := s.devU[[2]string{iss, uc}]
	if !ok || d.s.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
		return storage.ErrNotFound
	}
	d.s = proto.Clone(v).(*sessionv1.DeviceCodeSession)
	return nil
}

func (s *refDevs) GetByDeviceCode(_ context.Context, iss, c string) (*sessionv1.DeviceCodeSession, error) {
	d, ok := s.devD[[2]string{iss, c}]
	if !ok {
		return nil, storage.ErrNotFound
	}
	return proto.Clone(d.s).(*sessionv1.DeviceCodeSession), nil
}

func (s *refDevs) GetByUserCode(_ context.Context, iss, uc string) (*sessionv1.DeviceCodeSession, error) {
	d, ok := s.devU[[2]string{iss, uc}]
	if !ok {
		return nil, storage.ErrNotFound
	}
	return proto.Clone(d.s).(*sessionv1.DeviceCodeSession), nil
}

func (s *refDevs) Consume(_ context.Context, iss, c string) error {
	d, ok := s.devD[[2]string{iss, c}]
	if !ok || d.s.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {
		return storage.ErrNotFound
	}
	delete(s.devD, [2]string{iss, c})
	return nil
}

type refToks refStore

func (s *refToks) Create(_ context.Context, iss string, t *tokenv1.Token) error {
	if t == nil {
		return errors.New("nil token")
	}
	c := proto.Clone(t).(*tokenv1.Token)
	s.tokV[[2]string{iss, c.Value}] = c
	s.tokI[[2]string{iss, c.TokenId}] = c
	return nil
}

func (s *refToks) Get(_ context.Context, iss, id string) (*tokenv1.Token, error) {
	if t, ok := s.tokI[[2]string{iss, id}]; ok {
		return proto.Clone(t).(*tokenv1.Token), nil
	}
	return nil, storage.ErrNotFound
}

func (s *refToks) GetByValue(_ context.Context, iss, v string) (*tokenv1.Token, error) {
	if t, ok := s.tokV[[2]string{iss, v}]; ok {
		return proto.Clone(t).(*tokenv1.Token), nil
	}
	return nil, storage.ErrNotFound
}

func (s *refToks) Delete(_ context.Context, iss, id string) error {
	t, ok := s.tokI[[2]string{iss, id}]
	if !ok {
		return storage.ErrNotFound
	}
	delete(s.tokI, [2]string{iss, id})
	delete(s.tokV, [2]string{iss, t.Value})
	return nil
}

func (s *refToks) Revoke(_ context.Context, iss, id string) error {
	t, ok := s.tokI[[2]string{iss, id}]
	if !ok || t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		return storage.ErrNotFound
	}
	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
	return nil
}

var _ = generator.DefaultDeviceCode

// CloneClient copies a registration.
func CloneClient(c *clientv1.Client) *clientv1.Client { return proto.Clone(c).(*clientv1.Client) }

// Wrapped is what the nodes of a deployment see of a shared storage.
func Wrapped(r *kit.Run, b *Backend) *Backend {
	return &Backend{Clients: &roClient{&clientW{r, b.Clients}}, AR: &arW{r, b.AR}, Codes: &codeW{r, b.Codes}, Devices: wrapDevices(r, b.Devices), Tokens: &tokW{r, b.Tokens}, Res: &resW{r, b.Res, nil}}
}

// roClient is a client registry nodes only read.
type roClient struct{ *clientW }

func (roClient) Register(context.Context, *clientv1.Client) (string, error) {
	return "", errors.New("read only")
}
