// Package codec puts the wire encodings of the project's records side by side:
// the reflective protobuf runtime and the generated fast code.
package codec

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	_ "zntr.io/solid/api/oidc/client/v1"
	_ "zntr.io/solid/api/oidc/core/v1"
	_ "zntr.io/solid/api/oidc/discovery/v1"
	_ "zntr.io/solid/api/oidc/flow/v1"
	_ "zntr.io/solid/api/oidc/resource/v1"
	_ "zntr.io/solid/api/oidc/session/v1"
	_ "zntr.io/solid/api/oidc/token/v1"
)

// Fast is what the generated code offers.
type Fast interface {
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	SizeVT() int
	UnmarshalVT([]byte) error
}

// Stored names the records a deployment keeps.
var Stored = []string{"oidc.session.v1.AuthorizationCodeSession", "oidc.session.v1.DeviceCodeSession", "oidc.flow.v1.AuthorizationRequest", "oidc.token.v1.Token", "oidc.client.v1.Client"}

// Types lists every record type that has both encodings, by name.
var Types = func() []protoreflect.MessageType {
	var l []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(t protoreflect.MessageType) bool {
		if strings.HasPrefix(string(t.Descriptor().FullName()), "oidc.") && !t.Descriptor().IsMapEntry() {
			if _, ok := t.New().Interface().(Fast); ok {
				l = append(l, t)
			}
		}
		return true
	})
	sort.Slice(l, func(i, j int) bool { return l[i].Descriptor().FullName() < l[j].Descriptor().FullName() })
	return l
}()

// Type finds a record type.
func Type(name string) protoreflect.MessageType {
	for _, t := range Types {
		if string(t.Descriptor().FullName()) == name {
			return t
		}
	}
	return nil
}

// Name is the short name of a record's type.
func Name(m proto.Message) string { return string(m.ProtoReflect().Descriptor().Name()) }

// Encoders is how many ways Encode knows; the first Plain use the runtime.
const (
	Encoders = 6
	Plain    = 3
	Decoders = 4
	PlainDec = 2
)

// Encode writes a record in one of the ways.
func Encode(how int, m proto.Message) (b []byte, err error) {
	f, _ := m.(Fast)
	switch how % Encoders {
	case 0:
		return proto.Marshal(m)
	case 1:
		return proto.MarshalOptions{Deterministic: true}.Marshal(m)
	case 2:
		b, err = proto.MarshalOptions{}.MarshalAppend([]byte("head"), m)
		if err != nil {
			return nil, err
		}
		return b[4:], nil
	case 3:
		b, err = f.MarshalVT()
		if err == nil && len(b) != f.SizeVT() {
			return nil, fmt.Errorf("announced %d bytes, wrote %d", f.SizeVT(), len(b))
		}
		return b, err
	case 4:
		// a page shared with a neighbour
		n := f.SizeVT()
		page := bytes.Repeat([]byte{0xa5}, n+16)
		k, err := f.MarshalToVT(page[:n+4])
		if err != nil {
			return nil, err
		}
		if k != n || !bytes.Equal(page[n:], bytes.Repeat([]byte{0xa5}, 16)) {
			return nil, fmt.Errorf("wrote %d of %d bytes or over its neighbour %x", k, n, page[n:])
		}
		return page[:k:k], nil
	}
	n := f.SizeVT()
	page := bytes.Repeat([]byte{0xa5}, n+16)
	k, err := f.MarshalToSizedBufferVT(page[:n+8])
	if err != nil {
		return nil, err
	}
	if k != n || !bytes.Equal(page[:8], bytes.Repeat([]byte{0xa5}, 8)) || !bytes.Equal(page[n+8:], bytes.Repeat([]byte{0xa5}, 8)) {
		return nil, fmt.Errorf("wrote %d of %d bytes or over its neighbours %x %x", k, n, page[:8], page[n+8:])
	}
	return append([]byte(nil), page[8:n+8]...), nil
}

// Decode reads a record in one of the ways into a fresh value of the type of
// m. The bytes belong to the caller again afterwards.
func Decode(how int, b []byte, m proto.Message) (proto.Message, error) {
	page := append([]byte(nil), b...)
	o := m.ProtoReflect().New().Interface()
	var err error
	switch how % Decoders {
	case 0:
		err = proto.Unmarshal(page, o)
	case 1:
		// a record object used before
		o = proto.Clone(m)
		err = proto.Unmarshal(page, o)
	case 2:
		err = o.(Fast).UnmarshalVT(page)
	case 3:
		o = proto.Clone(m)
		proto.Reset(o)
		err = o.(Fast).UnmarshalVT(page)
	}
	for i := range page {
		page[i] = 0x5a
	}
	return o, err
}

// Ways describes a pair of codecs.
func Ways(enc, dec int) string {
	e, d := "fast", "fast"
	if enc%Encoders < Plain {
		e = "runtime"
	}
	if dec%Decoders < PlainDec {
		d = "runtime"
	}
	return e + "-" + d
}
