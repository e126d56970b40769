package kit

import (
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

var texts = []string{
	"a", "openid profile", "https://client.example.org/cb?a=1&b=2", "é", "日本語", "<script>&\"'\\", "\u2028\u2029", "\x00", "\x7f\x01\t\r\n",
	"𝄞", " ", "null", "true", "0", "{}", "\ufffd", "-", "%00%zz", "a b\u00a0c",
}

// Text draws a string: short, odd, or long.
func (p Plan) Text() string {
	switch p.W([]int{6, 3, 1}) {
	case 0:
		return texts[p.N(len(texts))]
	case 1:
		return texts[p.N(len(texts))] + texts[p.N(len(texts))]
	default:
		return strings.Repeat(texts[p.N(len(texts))], []int{127, 128, 300}[p.N(3)]/2+1)
	}
}

// BadText is not valid UTF-8.
func (p Plan) BadText() string { return []string{"\xff", "a\xc3", "\xed\xa0\x80", "ok\x80"}[p.N(4)] }

var nums = []uint64{1, 0, 2, 127, 128, 255, 300, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 62, 1<<63 + 12345, 1<<64 - 1}

// Num draws an unsigned number at the edges of its encodings.
func (p Plan) Num() uint64 { return nums[p.N(len(nums))] }

// Fill sets fields of a record at random: pc percent of them. Enum values
// come from the declared ones. bad allows text that is not UTF-8.
func Fill(p Plan, m proto.Message, pc int, bad bool) {
	fill(p, m.ProtoReflect(), pc, bad, 0)
}

func fill(p Plan, m protoreflect.Message, pc int, bad bool, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !p.Pct(pc) {
			continue
		}
		if f.IsMap() {
			mv := m.Mutable(f).Map()
			for k := 1 + p.N(2); k > 0; k-- {
				key := scalarOf(p, f.MapKey(), false).MapKey()
				if f.MapValue().Kind() == protoreflect.MessageKind {
					if depth < 4 {
						v := mv.NewValue()
						fill(p, v.Message(), pc, bad, depth+1)
						mv.Set(key, v)
					}
				} else {
					mv.Set(key, scalarOf(p, f.MapValue(), bad))
				}
			}
			continue
		}
		if f.IsList() {
			l := m.Mutable(f).List()
			for k := 1 + p.N(3); k > 0; k-- {
				if f.Kind() == protoreflect.MessageKind {
					if depth < 4 {
						v := l.NewElement()
						fill(p, v.Message(), pc, bad, depth+1)
						l.Append(v)
					}
				} else {
					l.Append(scalarOf(p, f, bad))
				}
			}
			continue
		}
		if f.Kind() == protoreflect.MessageKind {
			if depth < 4 {
				v := m.NewField(f)
				fill(p, v.Message(), pc, bad, depth+1)
				m.Set(f, v)
			}
			continue
		}
		m.Set(f, scalarOf(p, f, bad))
	}
}

func scalarOf(p Plan, f protoreflect.FieldDescriptor, bad bool) protoreflect.Value {
	n := p.Num()
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n%2 == 1)
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(p.N(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(n))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(n)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(n))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(n))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(p.Text()))
	default:
		if bad && p.Pct(5) {
			return protoreflect.ValueOfString(p.BadText())
		}
		return protoreflect.ValueOfString(p.Text())
	}
}

// Hollow makes some of the fields a record has empty but present, where that
// is a difference: optional fields, list and map entries. Some enumerations get
// numbers no name is declared for, as a newer version would write.
func Hollow(p Plan, m proto.Message) { hollow(p, m.ProtoReflect()) }

func hollow(p Plan, m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	zero := func(f protoreflect.FieldDescriptor) (protoreflect.Value, bool) {
		switch f.Kind() {
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(""), true
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte{}), true
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum([]protoreflect.EnumNumber{0, 100, 1<<31 - 1, -1, 128}[p.N(5)]), true
		}
		return protoreflect.Value{}, false
	}
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !m.Has(f) {
			continue
		}
		switch {
		case f.IsMap():
		case f.IsList():
			l := m.Mutable(f).List()
			for k := 0; k < l.Len(); k++ {
				if f.Kind() == protoreflect.MessageKind {
					hollow(p, l.Get(k).Message())
				} else if v, ok := zero(f); ok && p.Pct(30) {
					l.Set(k, v)
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			if p.Pct(20) {
				m.Set(f, m.NewField(f))
			} else {
				hollow(p, m.Mutable(f).Message())
			}
		case f.HasPresence() || f.Kind() == protoreflect.EnumKind:
			if v, ok := zero(f); ok && p.Pct(30) {
				m.Set(f, v)
			} else if f.HasPresence() && p.Pct(20) {
				m.Set(f, f.Default())
			}
		}
	}
}
