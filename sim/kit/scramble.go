package kit

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Scramble changes everything reachable from a record in place, as a careless
// caller might.
func Scramble(m proto.Message) {
	if m == nil {
		return
	}
	scramble(m.ProtoReflect())
}

func scramble(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
		case f.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if f.Kind() == protoreflect.MessageKind {
					scramble(l.Get(i).Message())
				} else if f.Kind() == protoreflect.StringKind {
					l.Set(i, protoreflect.ValueOfString("scrambled"))
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			scramble(v.Message())
		case f.Kind() == protoreflect.StringKind:
			m.Set(f, protoreflect.ValueOfString("scrambled"))
		case f.Kind() == protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0x55
			}
		case f.Kind() == protoreflect.Uint64Kind:
			m.Set(f, protoreflect.ValueOfUint64(v.Uint()+77777))
		case f.Kind() == protoreflect.EnumKind:
			m.Set(f, protoreflect.ValueOfEnum(99))
		}
		return true
	})
}
