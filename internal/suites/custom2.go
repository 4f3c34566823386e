package suites

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

// More types that pack themselves, of kinds the library cannot lay out.

// cMap is a map.
type cMap map[uint8]uint16

func (c cMap) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c cMap) ModelPack(e ref.Endian) ([]byte, error) {
	var ks []int
	for k := range c {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	b := []byte{byte(len(ks))}
	for _, k := range ks {
		b = append(append(b, byte(k)), put16(e, c[uint8(k)])...)
	}
	logCall("pack", "cMap", b, e)
	return b, nil
}
func (c *cMap) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cMap", buf, e)
	b, err := short(buf, 1)
	if err != nil {
		return 0, err
	}
	n := int(b[0])
	if b, err = short(buf, 1+3*n); err != nil {
		return 0, err
	}
	m := cMap{}
	for i := 0; i < n; i++ {
		m[b[1+3*i]] = get16(e, b[2+3*i:])
	}
	*c = m
	return len(b), nil
}
func (c cMap) SizeOf() int { return 1 + 3*len(c) }
func (c cMap) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cMap", c, buf, o)
}
func (c *cMap) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cMap", c, buf, o)
}
func (c *cMap) mcFill(k int) {
	*c = cMap{}
	for i := 0; i < k%4; i++ {
		(*c)[uint8(k+5*i)] = uint16(0x1122*i + k)
	}
}

// cOpaque hides all it is made of, among it a function and a channel.
type cOpaque struct {
	a uint16
	s string
	n []uint16
	f func() int
	c chan int
}

func (c *cOpaque) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c *cOpaque) ModelPack(e ref.Endian) ([]byte, error) {
	b := append(put16(e, c.a), byte(len(c.s)))
	b = append(append(b, c.s...), byte(len(c.n)))
	for _, x := range c.n {
		b = append(b, put16(e, x)...)
	}
	logCall("pack", "cOpaque", b, e)
	return b, nil
}
func (c *cOpaque) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cOpaque", buf, e)
	b, err := short(buf, 3)
	if err != nil {
		return 0, err
	}
	ns := int(b[2])
	if b, err = short(buf, 4+ns); err != nil {
		return 0, err
	}
	n := int(b[3+ns])
	if b, err = short(buf, 4+ns+2*n); err != nil {
		return 0, err
	}
	*c = cOpaque{a: get16(e, b), s: string(b[3 : 3+ns])}
	for i := 0; i < n; i++ {
		c.n = append(c.n, get16(e, b[4+ns+2*i:]))
	}
	return len(b), nil
}
func (c *cOpaque) SizeOf() int { return 4 + len(c.s) + 2*len(c.n) }
func (c *cOpaque) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cOpaque", c, buf, o)
}
func (c *cOpaque) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cOpaque", c, buf, o)
}
func (c *cOpaque) mcFill(k int) {
	*c = cOpaque{a: uint16(0x3344 + k), s: "opaque"[:k%3], n: []uint16{0x5566, uint16(k), 0x7788}[:k%4]}
}

// cRe has methods that make use of the library themselves.
type cRe struct {
	K uint8
	D []uint16
	E uint16
}

type cReIn struct {
	K uint8    `struct:"skip=1"`
	N uint16   `struct:"uint8:4,sizeof=D"`
	F uint8    `struct:"uint8:4"`
	D []uint16 `struct:"size=N * 1"`
	E uint16   `struct:"big,if=K > 0x40"`
}

func (c *cRe) in() *cReIn { return &cReIn{K: c.K, N: uint16(len(c.D)), F: 5, D: c.D, E: c.E} }

func (c *cRe) ModelSizeBits() int {
	n := 24 + 16*len(c.D)
	if c.K > 0x40 {
		n += 16
	}
	return n
}
func (c *cRe) ModelPack(e ref.Endian) ([]byte, error) {
	b := []byte{0, c.K, byte(len(c.D)<<4 | 5)}
	for _, x := range c.D {
		b = append(b, put16(e, x)...)
	}
	if c.K > 0x40 {
		b = append(b, put16(ref.Big, c.E)...)
	}
	logCall("pack", "cRe", b, e)
	return b, nil
}
func (c *cRe) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cRe", buf, e)
	b, err := short(buf, 3)
	if err != nil {
		return 0, err
	}
	n := int(b[2] >> 4)
	size := 3 + 2*n
	if b[1] > 0x40 {
		size += 2
	}
	k := b[1]
	if b, err = short(buf, size); err != nil {
		return 0, err
	}
	*c = cRe{K: k}
	for i := 0; i < n; i++ {
		c.D = append(c.D, get16(e, b[3+2*i:]))
	}
	if k > 0x40 {
		c.E = get16(ref.Big, b[3+2*n:])
	}
	return size, nil
}
func (c *cRe) SizeOf() int {
	n, err := restruct.SizeOf(c.in())
	if err != nil {
		panic(err)
	}
	return n
}
func (c *cRe) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	b, err := restruct.Pack(o, c.in())
	if err != nil {
		return nil, err
	}
	logCall("pack", "cRe", b, ref.OrderOf(o))
	return buf[copy(buf[:len(b)], b):], nil
}
func (c *cRe) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	logCall("unpack", "cRe", buf, ref.OrderOf(o))
	in := cReIn{}
	if err := restruct.Unpack(buf, o, &in); err != nil {
		return nil, errCustomShort
	}
	if in.F != 5 {
		// What is read back of other data differs in size from its model.
		in.F = 5
	}
	n, err := restruct.SizeOf(&in)
	if err != nil {
		return nil, err
	}
	*c = cRe{K: in.K, D: in.D, E: in.E}
	if len(c.D) == 0 {
		c.D = nil
	}
	return buf[n:], nil
}
func (c *cRe) mcFill(k int) {
	*c = cRe{K: uint8(0x3e + k%4), D: []uint16{0x99aa, uint16(k), 0xbbcc}[:k%4]}
	if c.K > 0x40 {
		c.E = uint16(0xddee + k)
	}
}

// Interfaces that custom types are held in.
type IfcBoth interface {
	ref.Custom
	ref.CustomUnpack
	restruct.Packer
	restruct.Unpacker
}

type ifcPacker interface {
	ref.Custom
	restruct.Packer
}

type ifcStruct struct {
	A uint8
	F IfcBoth
	B uint16
}

type ifcEmbeds struct {
	IfcBoth
	X uint16
}

type ifcCases struct {
	A IfcBoth    `struct:"case=1"`
	B [2]IfcBoth `struct:"case=2,big"`
	C uint16     `struct:"default"`
}

func interfaceAtoms() []Atom {
	both := reflect.TypeOf((*IfcBoth)(nil)).Elem()
	packs := reflect.TypeOf((*ifcPacker)(nil)).Elem()
	any := reflect.TypeOf((*interface{})(nil)).Elem()
	var out []Atom
	for _, x := range []struct {
		n string
		t reflect.Type
	}{{"both", both}, {"packer", packs}, {"any", any}} {
		out = append(out,
			Atom{Name: x.n, Fields: []fieldSpec{{"F$", x.t, ""}}},
			Atom{Name: x.n + "-big", Fields: []fieldSpec{{"F$", x.t, st("big")}}},
			Atom{Name: x.n + "-skip-little", Fields: []fieldSpec{{"F$", x.t, st("skip=2,little")}}},
			Atom{Name: x.n + "-if", Fields: []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), {"F$", x.t, st("if=K$ == 1")}}},
			Atom{Name: "[2]" + x.n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, x.t), ""}}},
			Atom{Name: "[2]" + x.n + "-skip-big", Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, x.t), st("skip=1,big")}}},
		)
	}
	return append(out,
		one("struct", ifcStruct{}, ""),
		one("struct-big", ifcStruct{}, "big"),
		one("[2]struct", [2]ifcStruct{}, "skip=1"),
		one("embeds", ifcEmbeds{}, ""),
		one("embeds-big", ifcEmbeds{}, "big"),
		many("switch", fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3"`), fs("F$", ifcCases{}, "switch=K$")),
	)
}

func interfaceLists() []Atom {
	both := reflect.TypeOf((*IfcBoth)(nil)).Elem()
	return []Atom{
		{Name: "[]both", Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(both), ""}}},
		{Name: "[]both-big", Fields: []fieldSpec{fs("N$", uint16(0), ""), {"F$", reflect.SliceOf(both), st("sizefrom=N$,big")}}},
		{Name: "*struct", Fields: []fieldSpec{fs("F$", (*ifcStruct)(nil), "")}},
		{Name: "[]struct", Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), fs("F$", []ifcStruct{}, "skip=1")}},
	}
}

// hold sets the interfaces inside of a value to the ones that next returns.
func hold(v reflect.Value, next func() reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		v.Set(next())
	case reflect.Ptr:
		if !v.IsNil() {
			hold(v.Elem(), next)
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			hold(v.Index(i), next)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				hold(v.Field(i), next)
			}
		}
	}
}

// customInterfaces is the space of custom types behind interfaces.
func customInterfaces(name string) mc.Space {
	from := interfaceAtoms()
	reads := len(from)
	from = append(from, interfaceLists()...)
	held := []reflect.Type{rt(cPtr{}), rt(cVal{}), rt(cStr("")), rt(cVar(0)), rt(cSl{}), rt(cMap{}), rt(cRe{}), rt(cErr{})}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of fields of interface types, of which %d are also read, in pairs, with a custom type out of %d in each, by pointer or alternating with values, 2 byte orders, calls logged", len(from), reads, len(held)),
		Run: func(c *mc.Ctx) {
			ai, bi := c.Choose(len(from)), c.Choose(reads)
			first := c.Choose(len(held))
			c.Mine()
			step := c.Choose(3)
			values := c.Choose(2) == 1
			t := typeOf([]Atom{from[ai], from[bi], sentinel})
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{0, 2})
			n, hasErr := 0, false
			hold(v, func() reflect.Value {
				n++
				ht := held[(first+n*step)%len(held)]
				hasErr = hasErr || ht == rt(cErr{})
				p := reflect.New(ht)
				p.Interface().(selfFilling).mcFill(n + first)
				return p
			})
			if values {
				// Values of types whose methods can do without a pointer, for
				// packing.
				hold2(v)
			}
			k := &Case{T: t, V: v, O: o, Flags: fPack | fSizes | fByValue}
			check(c, k)
			m := &ref.Model{}
			callLog = nil
			s, merr := m.Encode(deepCopy(v), o.E)
			want := callLog
			callLog = nil
			pack(c, k, "", o.O, deepCopy(v).Addr().Interface())
			compareCalls(c, k, "Pack", callLog, want)
			callLog = nil
			if values || ai >= reads || merr != nil {
				return
			}
			data := s.Bytes()
			for _, in := range [][]byte{data, append(append([]byte{}, data...), 1, 2, 3), data[:len(data)/2]} {
				blank := func(n int) reflect.Value {
					x := deepCopy(v)
					hold(x, func() reflect.Value { return reflect.Zero(rt((*cPtr)(nil))) })
					i := 0
					hold(x, func() reflect.Value {
						i++
						p := reflect.New(held[(first+i*step)%len(held)])
						if n > 0 {
							p.Interface().(selfFilling).mcFill(n + i)
						}
						return p
					})
					return x
				}
				for stale := 0; stale < 2; stale++ {
					dv, uv := blank(stale), blank(stale)
					callLog = nil
					_, derr := m.Decode(in, dv, o.E)
					want := callLog
					if derr == ref.ErrUnspecified {
						continue
					}
					callLog = nil
					err := unpack(c, k, "", in, o.O, uv.Addr().Interface())
					compareCalls(c, k, fmt.Sprintf("Unpack of %x", in), callLog, want)
					compareError(c, k, "Unpack", err, derr)
					if (err == nil) != (derr == nil) {
						c.Fail("Unpack of %x into interfaces gives error %v, the model %v\n%s", in, err, derr, k)
					}
					if derr == nil {
						if err := ref.Equal(uv, dv); err != nil {
							c.Fail("Unpack of %x into interfaces: %v\n%s", in, err, k)
						}
					}
					callLog = nil
					c.Trace(1)
				}
			}
		},
	}
}

// hold2 replaces every other pointer held by an interface by what it points
// to, where that has a method Pack.
func hold2(v reflect.Value) {
	i := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			i++
			e := v.Elem().Elem()
			if _, ok := e.Interface().(restruct.Packer); ok && i%2 == 0 && e.Type().AssignableTo(v.Type()) {
				v.Set(e)
			}
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(v)
}
