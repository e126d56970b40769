// Package durable is a storage node that keeps the project's records on a
// simulated disk: concurrent writers, write caches, torn and lost sectors,
// full disks, read errors, power loss and restarts with another encoding.
package durable

import (
	"errors"
	"fmt"
	"sort"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"zntr.io/solid/zz_verif/codec"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

type plan = kit.Plan

// file is one file: what processes read, and what the platter holds.
type file struct {
	data, synced []byte
	// the record each of them stands for (nil: not a whole record)
	want, wantSynced proto.Message
	typ              proto.Message
	odd              bool // holds text that is not UTF-8
}

type world struct {
	r     *kit.Run
	files map[string]*file
	names []string
	inPl  bool // writes in place and without sync
	full  int  // bytes left on the disk, -1: plenty
	n     int
	whole bool // no partial writes: records may have maps of several entries, which are encoded in any order
}

var errIO = errors.New("simulated input/output error")

func (w *world) pick(n int) int { return simrt.Choose(simrt.StFault, n) }

// call is one system call.
func (w *world) call(name string, mut bool, fn func() error) error {
	return w.r.SeamCall("disk."+name, mut, fn)
}

func (w *world) write(path string, b []byte, want, typ proto.Message) error {
	return w.call("write", true, func() error {
		n := len(b)
		var err error
		if w.full >= 0 && n > w.full {
			n, err = w.full, errors.New("no space left on device")
			w.r.Fault("disk-full")
		} else if w.r.FaultsOn && w.r.Cfg.ErrBefore > 0 && w.pick(40) == 39 {
			n, err = w.pick(n+1), errIO
			w.r.Fault("short-write")
		}
		if w.full >= 0 {
			w.full -= n
		}
		f := w.files[path]
		if f == nil {
			f = &file{typ: typ}
			w.files[path] = f
		}
		// a record can be written piece by piece
		f.data, f.want, f.typ = append([]byte(nil), b[:n]...), want, typ
		if n < len(b) {
			f.want = nil
		}
		if err != nil && w.inPl && len(f.synced) > n {
			// overwritten in place: the tail of the old record follows
			f.data = append(f.data, f.synced[n:]...)
			f.want = nil
		}
		return err
	})
}

func (w *world) sync(path string) error {
	return w.call("sync", true, func() error {
		f := w.files[path]
		if f == nil {
			return errIO
		}
		f.synced, f.wantSynced = f.data, f.want
		return nil
	})
}

func (w *world) rename(from, to string) error {
	return w.call("rename", true, func() error {
		f := w.files[from]
		if f == nil {
			return errIO
		}
		delete(w.files, from)
		w.files[to] = f
		return nil
	})
}

func (w *world) read(path string) (b []byte, f *file, err error) {
	err = w.call("read", false, func() error {
		f = w.files[path]
		if f == nil {
			return errors.New("no such file")
		}
		b = append([]byte(nil), f.data...)
		f = &file{data: b, want: f.want, typ: f.typ}
		return nil
	})
	if err == kit.ErrNil {
		err = errIO
	}
	return
}

// powerLoss keeps what reached the platter, and whatever else did.
func (w *world) powerLoss() {
	w.r.Fault("power-loss")
	var l []string
	for p := range w.files {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		f := w.files[p]
		if string(f.data) == string(f.synced) {
			f.synced, f.wantSynced = f.data, f.want
			continue
		}
		switch w.pick(5) {
		case 0: // nothing of it
			w.r.Fault("lost-write")
			f.data, f.want = f.synced, f.wantSynced
			if f.synced == nil {
				delete(w.files, p)
				continue
			}
		case 1: // all of it
		case 2: // a prefix
			w.r.Fault("torn-write")
			f.data, f.want = f.data[:w.pick(len(f.data)+1)], nil
		case 3: // the length, not the content
			w.r.Fault("torn-write")
			b := append([]byte(nil), f.data...)
			for i := w.pick(len(b) + 1); i < len(b); i++ {
				b[i] = 0
			}
			f.data, f.want = b, nil
		case 4: // some sectors old, some new
			w.r.Fault("torn-write")
			b := append([]byte(nil), f.data...)
			s := 1 << w.pick(6)
			for i := 0; i < len(b); i += s {
				if w.pick(2) == 1 {
					for k := i; k < i+s && k < len(b) && k < len(f.synced); k++ {
						b[k] = f.synced[k]
					}
				}
			}
			f.data, f.want = b, nil
		}
		f.synced, f.wantSynced = f.data, f.want
	}
	for i := 0; i < w.r.Cfg.Nodes; i++ {
		simrt.CrashNode(i)
	}
}

func (w *world) typeOf(p plan) protoreflect.MessageType {
	if p.Pct(30) {
		return codec.Types[p.N(len(codec.Types))]
	}
	return codec.Type(codec.Stored[p.N(len(codec.Stored))])
}

// single leaves one entry in every map.
func single(m protoreflect.Message) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
			var keys []string
			at := map[string]protoreflect.MapKey{}
			v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
				keys = append(keys, k.String())
				at[k.String()] = k
				return true
			})
			sort.Strings(keys)
			for _, k := range keys[1:] {
				v.Map().Clear(at[k])
			}
		case f.IsList():
			for i := 0; f.Message() != nil && i < v.List().Len(); i++ {
				single(v.List().Get(i).Message())
			}
		case f.Message() != nil:
			single(v.Message())
		}
		return true
	})
}

func (w *world) record(p plan, t protoreflect.MessageType, odd bool) proto.Message {
	m := t.New().Interface()
	kit.Fill(p, m, []int{50, 10, 90, 30, 0}[p.W([]int{4, 3, 3, 2, 1})], odd)
	if !w.whole {
		single(m.ProtoReflect())
	}
	if p.Pct(30) {
		kit.Hollow(p, m)
	}
	if p.Pct(10) {
		// written by a newer version: fields this one does not know
		var b []byte
		for i := 1 + p.N(2); i > 0; i-- {
			n := protowire.Number([]int{500, 1000, 19000, 1<<29 - 1}[p.N(4)])
			switch p.N(4) {
			case 0:
				b = protowire.AppendVarint(protowire.AppendTag(b, n, protowire.VarintType), p.Num())
			case 1:
				b = protowire.AppendBytes(protowire.AppendTag(b, n, protowire.BytesType), []byte(p.Text()))
			case 2:
				b = protowire.AppendFixed64(protowire.AppendTag(b, n, protowire.Fixed64Type), p.Num())
			case 3:
				b = protowire.AppendFixed32(protowire.AppendTag(b, n, protowire.Fixed32Type), uint32(p.Num()))
			}
		}
		m.ProtoReflect().SetUnknown(b)
	}
	return m
}

func show(m proto.Message) string {
	s := fmt.Sprintf("%v", m)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// fastOnly: the record holds text that is not UTF-8, which only the fast
// encoding can hold.
func fastOnly(m proto.Message) bool {
	_, err := proto.Marshal(m)
	return err != nil
}

// put encodes a record and stores it.
func (w *world) put(p plan, node int, path string, m proto.Message) {
	r := w.r
	enc := p.N(codec.Encoders)
	if fastOnly(m) {
		enc = codec.Plain + enc%(codec.Encoders-codec.Plain)
	}
	want := proto.Clone(m)
	var b []byte
	var eerr, err error
	o := r.Do("encode", node, func() { b, eerr = codec.Encode(enc, m) })
	if r.CheckPanic(o, "C27") || o.Crashed {
		return
	}
	if eerr != nil {
		r.Fail("C27", "encode:"+codec.Name(m), "a %s cannot be encoded (%s): %v: %s", codec.Name(m), codec.Ways(enc, 0), eerr, show(m))
		return
	}
	if !proto.Equal(want, m) {
		r.Fail("C27", "encode-changes:"+codec.Name(m), "encoding a %s changes it from %s to %s", codec.Name(m), show(want), show(m))
	}
	r.Notes["records-written"]++
	w.n++
	tmp := fmt.Sprintf("%s.tmp%d", path, w.n)
	o = r.Do("put", node, func() {
		if w.inPl {
			if err = w.write(path, b, want, m); err == nil && p.Pct(50) {
				err = w.sync(path)
			}
			return
		}
		if err = w.write(tmp, b, want, m); err != nil {
			return
		}
		if err = w.sync(tmp); err != nil {
			return
		}
		err = w.rename(tmp, path)
	})
	r.CheckPanic(o, "C27")
	r.Logf("put %s %s %d bytes -> %v crashed=%v", path, codec.Name(m), len(b), err, o.Crashed)
	if !w.has(path) {
		w.names = append(w.names, path)
	}
}

func (w *world) has(path string) bool {
	for _, n := range w.names {
		if n == path {
			return true
		}
	}
	return false
}

// get reads a record back and judges what it finds.
func (w *world) get(p plan, node int, path string) proto.Message {
	r := w.r
	var b []byte
	var f *file
	var err error
	dec := p.N(codec.Decoders)
	o := r.Do("get", node, func() { b, f, err = w.read(path) })
	if r.CheckPanic(o, "C27") || o.Crashed || err != nil || f == nil {
		return nil
	}
	typ := f.typ
	if p.Pct(5) {
		// mixed up files: a record read as another type
		typ, f.want = w.typeOf(p).New().Interface(), nil
	}
	return w.judge(p, node, path, b, typ, f.want, dec)
}

func (w *world) judge(p plan, node int, path string, b []byte, typ, want proto.Message, dec int) proto.Message {
	r := w.r
	if want != nil {
		typ = want
	}
	if want != nil && fastOnly(want) {
		dec = codec.PlainDec + dec%(codec.Decoders-codec.PlainDec)
	}
	var got proto.Message
	var err error
	name := codec.Name(typ)
	o := r.Do("decode", node, func() { got, err = codec.Decode(dec, b, typ) })
	if r.CheckPanic(o, "C27") || o.Crashed {
		return nil
	}
	r.Logf("get %s %s whole=%v -> %v", path, name, want != nil, err != nil)
	if want != nil {
		r.Notes["records-read-back"]++
		switch {
		case err != nil:
			r.Fail("C27", "unreadable:"+name, "a stored %s cannot be read back (%s): %v: %s", name, codec.Ways(0, dec), err, show(want))
		case !proto.Equal(got, want):
			r.Fail("C27", "read-back:"+name, "a stored %s is read back (%s) as %s, stored %s", name, codec.Ways(0, dec), show(got), show(want))
		default:
			return got
		}
		return nil
	}
	r.Notes["damaged-records-read"]++
	if err != nil {
		r.Notes["damaged-records-refused"]++
		return nil
	}
	// whatever was read is a record: the software that read it can store it and
	// read it again
	enc, dec2 := p.N(codec.Plain), 0
	if dec%codec.Decoders >= codec.PlainDec {
		enc, dec2 = enc+codec.Plain, 2
	}
	var c []byte
	var again proto.Message
	var e1, e2 error
	o = r.Do("rewrite", node, func() {
		if c, e1 = codec.Encode(enc, got); e1 == nil {
			again, e2 = codec.Decode(dec2, c, got)
		}
	})
	if r.CheckPanic(o, "C27") || o.Crashed {
		return nil
	}
	if e1 != nil || e2 != nil || !proto.Equal(got, again) {
		r.Fail("C27", "damaged-ill-formed:"+name, "the damaged bytes %x of a %s are read as %s, which is stored and read back as %s (%v, %v)", b, name, show(got), show(again), e1, e2)
	}
	return nil
}

// damage spoils bytes the way a bad disk or a stray writer does.
func damage(p plan, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 1 + p.N(3); i > 0; i-- {
		n := len(b)
		if n == 0 {
			b = append(b, byte(p.N(256)))
			continue
		}
		at := p.N(n)
		switch p.N(9) {
		case 0:
			b[at] ^= 1 << p.N(8)
		case 1:
			b[at] = []byte{0, 0xff, 0x7f, 0x80, 0x0a, 0x0b, 0x0c}[p.N(7)]
		case 2:
			b = b[:at]
		case 3: // a number that never ends, or far too large
			v := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}[:p.N(12)]
			v = append(append([]byte(nil), v...), []byte{1, 0x7f, 0}[p.N(3)])
			b = append(append(append([]byte(nil), b[:at]...), v...), b[at:]...)
		case 4: // a block written twice
			e := at + 1 + p.N(n-at)
			b = append(append(append([]byte(nil), b[:e]...), b[at:e]...), b[e:]...)
		case 5: // a block lost
			e := at + 1 + p.N(n-at)
			b = append(append([]byte(nil), b[:at]...), b[e:]...)
		case 6:
			for k := at; k < n && k < at+16; k++ {
				b[k] = 0
			}
		case 7: // groups and reserved types
			var t []byte
			for k := 1 + p.N(3); k > 0; k-- {
				t = protowire.AppendVarint(t, uint64(p.N(40))<<3|uint64(p.N(8)))
			}
			b = append(append(append([]byte(nil), b[:at]...), t...), b[at:]...)
		case 8: // a field of any number and type, with a length that does not fit
			t := protowire.AppendVarint(nil, uint64(p.N(25))<<3|2)
			t = protowire.AppendVarint(t, []uint64{uint64(n), uint64(n) + 1, 1 << 31, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<63 - 8}[p.N(7)])
			b = append(append([]byte(nil), b[:at]...), t...)
		}
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
	}
	return b
}

// Main is the body of a run.
func Main(r *kit.Run) {
	r.SwarmConfig()
	w := &world{r: r, files: map[string]*file{}, full: -1}
	ch := func(n int) int { return simrt.Choose(simrt.StCfg, n) }
	w.inPl = ch(3) == 2
	if ch(8) == 7 {
		w.full = 500 + ch(4)*2000
	}
	power := ch(3) > 0
	w.whole = !power && !w.inPl && w.full < 0
	var ts []*simrt.Task
	for i := 0; i < r.Cfg.Agents; i++ {
		i := i
		ts = append(ts, simrt.Spawn(fmt.Sprintf("agent%d", i), func() { w.agent(plan{S: simrt.StAgent + i}) }))
	}
	if power {
		ts = append(ts, simrt.Spawn("power", func() {
			p := plan{S: simrt.StAgent + 10}
			for k := 1 + p.N(3); k > 0; k-- {
				for s := p.N(60); s >= 0; s-- {
					simrt.Sleep(0)
				}
				r.Logf("power loss")
				w.powerLoss()
			}
		}))
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	// after the last restart, with another version of the software
	r.FaultsOn = false
	w.full = -1
	w.powerLoss()
	p := plan{S: simrt.StAgent + 11}
	for _, n := range w.names {
		for d := 0; d < codec.Decoders; d++ {
			b, f, err := w.read(n)
			if err != nil || f == nil {
				continue
			}
			if f.want != nil && fastOnly(f.want) && d < codec.PlainDec {
				continue
			}
			w.judge(p, 0, n, b, f.typ, f.want, d)
		}
	}
}

func (w *world) agent(p plan) {
	r := w.r
	for k := r.Cfg.OpsPer * 2; k > 0; k-- {
		node := p.N(r.Cfg.Nodes)
		path := ""
		if len(w.names) > 0 {
			path = w.names[p.N(len(w.names))]
		}
		kind := p.W([]int{6, 8, 4, 4, 3})
		if path == "" {
			kind = 0
		}
		switch kind {
		case 0:
			t := w.typeOf(p)
			if path == "" || p.Pct(50) {
				path = fmt.Sprintf("%s-%d", t.Descriptor().Name(), len(w.names))
			} else if f := w.files[path]; f != nil {
				t = f.typ.ProtoReflect().Type()
			}
			w.put(p, node, path, w.record(p, t, p.Pct(6)))
		case 1:
			w.get(p, node, path)
		case 2:
			// read, change, write: what a flow in progress does
			if m := w.get(p, node, path); m != nil {
				ch := w.record(p, m.ProtoReflect().Type(), false)
				change(p, m, ch)
				w.put(p, node, path, m)
			}
		case 3:
			// bytes that rot
			var b []byte
			var f *file
			var err error
			o := r.Do("get", node, func() { b, f, err = w.read(path) })
			if o.Crashed || err != nil || f == nil {
				continue
			}
			r.Fault("corrupt-record")
			w.judge(p, node, path, damage(p, b), f.typ, nil, p.N(codec.Decoders))
		case 4:
			if w.inPl || !r.FaultsOn {
				continue
			}
			if f := w.files[path]; f != nil {
				r.Fault("bit-rot")
				f.data = damage(p, f.data)
				f.synced, f.want, f.wantSynced = f.data, nil, nil
				r.Logf("%s rots", path)
			}
		}
	}
}

// change copies some fields of src to dst and clears others.
func change(p plan, dst, src proto.Message) {
	d, s := dst.ProtoReflect(), src.ProtoReflect()
	fs := d.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		switch p.N(6) {
		case 1:
			d.Clear(f)
		case 2:
			if s.Has(f) {
				d.Set(f, s.Get(f))
			}
		}
	}
}
