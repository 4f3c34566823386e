package suites

import (
	"encoding/binary"
	"fmt"
	"reflect"

	"verif/internal/mc"
	"verif/internal/ref"
)

// Values of all kinds that refer to structs which move while they are read.

type moveDeep struct {
	N    uint8
	Next *moveDeep `struct:"if=N > 0"`
	Top  *moveTop  `struct:"if=N == 0"`
}

type moveTop struct {
	K uint8
	E []moveElem `struct:"while=!_eof"`
}

type moveElem struct {
	T *moveTop `struct:"parent"`
	K uint8
	A moveLeaf    `struct:"if=K & 1 == 1"`
	B *moveLeaf   `struct:"if=K & 2 == 2"`
	C [2]moveLeaf `struct:"if=K & 4 == 4"`
	D []moveLeaf  `struct:"size=K & 3"`
	F []*moveLeaf `struct:"size=K & 1"`
	S moveSwitch  `struct:"switch=K & 3"`
	X moveCustom
	Y *moveCustom   `struct:"if=K & 8 == 8"`
	Z []moveCustom  `struct:"size=K & 1"`
	H [1]*moveLeaf  `struct:"skip=1,if=K & 16 == 16"`
	I **moveLeaf    `struct:"if=K & 1 == 1"`
	L [][1]moveLeaf `struct:"size=K & 1"`
	M moveMid       `struct:"if=K & 2 == 2"`
}

type moveMid struct {
	P *moveElem `struct:"parent"`
	N uint8     `struct:"sizeof=Q,uint8:2"`
	O uint8     `struct:"uint8:6"`
	Q []moveLeaf2
}

type moveLeaf2 struct {
	M *moveMid  `struct:"parent"`
	P *moveElem `struct:"parent"`
	V uint8
}

type moveLeaf struct {
	P *moveElem   `struct:"parent"`
	T *moveTop    `struct:"parent"`
	R interface{} `struct:"root"`
	V uint8       `struct:"if=P.K != T.K"`
}

type moveSwitch struct {
	A moveLeaf    `struct:"case=1"`
	B *moveLeaf   `struct:"case=2"`
	C [2]moveLeaf `struct:"case=3"`
	D []moveLeaf  `struct:"default,size=2"`
}

// moveCustom packs itself; what its tags say is not for the library.
type moveCustom struct {
	P *moveElem `struct:"parent"`
	V uint8
	L moveLeaf
}

var moveOwn = &moveElem{}

func (m *moveCustom) ModelSizeBits() int                     { return 8 }
func (m *moveCustom) ModelPack(e ref.Endian) ([]byte, error) { return []byte{m.V}, nil }
func (m *moveCustom) SizeOf() int                            { return 1 }
func (m *moveCustom) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	if len(buf) < 1 {
		return 0, errCustomShort
	}
	m.P, m.L.P, m.V = moveOwn, moveOwn, buf[0]
	return 1, nil
}
func (m *moveCustom) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	buf[0] = m.V
	return buf[1:], nil
}
func (m *moveCustom) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	_, err := m.ModelUnpack(buf, ref.OrderOf(o))
	if err != nil {
		return nil, err
	}
	return buf[1:], nil
}

// moves is the space of streams of elements of which everything refers to
// everything.
func moves(name string, bytes []byte, max int, depths ...int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("streams of up to %d bytes that repeat any 3 of %v, read into elements that hold references in all kinds of containers (structs, pointers, arrays, slices, switches, custom types), %v levels deep; identity of every reference", max, bytes, depths),
		Run: func(c *mc.Ctx) {
			d := depths[c.Choose(len(depths))]
			n := c.Choose(max + 1)
			c.Mine()
			var p [3]byte
			for i := range p {
				p[i] = bytes[c.Choose(len(bytes))]
			}
			var data []byte
			for i := d; i >= 0; i-- {
				data = append(data, byte(i))
			}
			for i := 0; i < n; i++ {
				data = append(data, p[i%3])
			}
			t := rt(moveDeep{})
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: orders[n&1]}
			c.State(1)
			m := &ref.Model{}
			want := reflect.New(t).Elem()
			in, derr := m.Decode(data, want, kase.O.E)
			c.Step(m.Steps)
			if derr == ref.ErrUnspecified || derr == nil && in.Pos > 8*len(data) {
				// Unspecified, or data that ends inside of the padding.
				return
			}
			u := reflect.New(t).Elem()
			err := unpack(c, kase, "", data, kase.O.O, u.Addr().Interface())
			c.Trace(1)
			if (err == nil) != (derr == nil) {
				c.Fail("Unpack of %x gives error %v, expected %v\n%s", data, err, derr, kase)
			}
			if err != nil {
				return
			}
			if d := ref.Equal(u, want); d != nil {
				c.Fail("Unpack of %x: %v\n%s", data, d, kase)
			}
			if err := sameRefs(u, want, ""); err != nil {
				c.Fail("after Unpack of %x: %v\n%s", data, err, kase)
			}
			if err := checkRefs(u, nil, ""); err != nil {
				c.Fail("after Unpack of %x: %v\n%s", data, err, kase)
			}
			back, err := pack(c, kase, "", kase.O.O, u.Addr().Interface())
			if err != nil || len(back) != len(data) {
				c.Fail("Pack of what %x was unpacked to gives %x, error %v\n%s", data, back, err, kase)
			}
			if err := checkRefs(u, nil, ""); err != nil {
				c.Fail("after Pack of what %x was unpacked to: %v\n%s", data, err, kase)
			}
		},
	}
}

// whileKinds is the space of slices that are read up to the end of the input,
// with elements of all kinds.
func whileKinds(name string, from []Atom, wrap bool, max, patterns, flags int) mc.Space {
	ws := append([]wrapper{{"plain", nil}}, wrappers...)
	if !wrap {
		ws = ws[:1]
	}
	hows := []string{"struct", "pointer", "pair", "last"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("slices read up to the end of the input of 0 to %d elements: structs with %d field kinds, in %d wrappers, as they are, by pointer, two of them in an array, and in a slice at the end of another struct; %d value patterns, byte orders, 4 choices of control values for each of two elements", max, len(from), len(ws), patterns),
		Run: func(c *mc.Ctx) {
			a := from[c.Choose(len(from))]
			w := c.Choose(len(ws))
			how := c.Choose(len(hows))
			c.Mine()
			key := "while " + hows[how] + " " + a.Name + "<" + ws[w].Name
			t, ok := nestMemo[key]
			if !ok {
				if len(nestMemo) > 64 {
					nestMemo = map[string]reflect.Type{}
				}
				e := StructOf(a, sentinel)
				if w > 0 {
					e = StructOf(ws[w].atom(e, a.Name), sentinel)
				}
				switch how {
				case 1:
					e = reflect.PtrTo(e)
				case 2:
					e = reflect.ArrayOf(2, e)
				}
				t = StructOf(sentinel, Atom{Fields: []fieldSpec{{"S", reflect.SliceOf(e), st("while=!_eof")}}})
				if how == 3 {
					t = StructOf(sentinel, Atom{Fields: []fieldSpec{{"L", t, ""}}})
				}
				nestMemo[key] = t
			}
			v := reflect.New(t).Elem()
			s := v
			if how == 3 {
				s = v.Field(1)
			}
			s.Field(0).SetUint(0xa5)
			s = s.FieldByName("S")
			o := orders[c.Choose(2)]
			n := c.Choose(max + 1)
			var es []reflect.Value
			for i := 0; i < n && i < 2; i++ {
				p := patternAt((c.Choose(patterns) + i) % patterns)
				es = append(es, FillSimple(s.Type().Elem(), p, c.Choose(4)))
			}
			for i := 0; i < n; i++ {
				e := deepCopy(es[i%len(es)])
				m := &ref.Model{}
				x, err := m.Encode(deepCopy(e), o.E)
				if err == nil && len(x.Bit)%8 != 0 {
					// The end of the input is not defined inside of a byte.
					return
				}
				s.Set(reflect.Append(s, e))
			}
			check(c, &Case{T: t, V: v, O: o, Flags: flags})
		},
	}
}
