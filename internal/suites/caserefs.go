package suites

import (
	"fmt"
	"reflect"

	"verif/internal/mc"
	"verif/internal/ref"
)

// Cases that refer to the structs around them, in containers of all kinds.

type caseTop struct {
	K uint8
	W []caseElem `struct:"while=!_eof"`
}

type caseCounted struct {
	K uint8
	N uint16 `struct:"sizeof=W"`
	W []caseElem
}

type caseArray struct {
	K uint8
	W [3]caseElem
}

type casePtrs struct {
	K uint8
	W []*caseElem `struct:"while=!_eof"`
}

type caseNested struct {
	K uint8
	W []caseRow `struct:"while=!_eof"`
}

type caseRow struct {
	N uint8 `struct:"sizeof=E"`
	E []caseElem
}

type caseElem struct {
	K uint8    `struct:"uint8:4"`
	L uint8    `struct:"uint8:4"`
	S caseBody `struct:"switch=K"`
	I caseLeaf `struct:"if=L == 1"`
	J caseMid  `struct:"if=L == 2"`
}

type caseBody struct {
	A caseLeaf    `struct:"case=1"`
	B caseMid     `struct:"case=2"`
	C [2]caseLeaf `struct:"case=3"`
	D *caseLeaf   `struct:"case=4"`
	E caseInner   `struct:"case=5,switch=L"`
	F caseLeaf    `struct:"default"`
}

type caseInner struct {
	A caseLeaf `struct:"case=1"`
	B caseMid  `struct:"default"`
}

type caseMid struct {
	P *caseElem `struct:"parent"`
	L caseLeaf
	M caseLeaf `struct:"if=P.L == 2"`
}

type caseLeaf struct {
	P *caseElem   `struct:"parent"`
	R interface{} `struct:"root"`
	V uint8
}

// sameRefs compares which references are set at all.
func sameRefs(a, b reflect.Value, path string) error {
	switch a.Kind() {
	case reflect.Ptr:
		if !a.IsNil() && !b.IsNil() {
			return sameRefs(a.Elem(), b.Elem(), path+"*")
		}
	case reflect.Slice, reflect.Array:
		if k := a.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return nil
		}
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if err := sameRefs(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			sf := a.Type().Field(i)
			x, y := a.Field(i), b.Field(i)
			switch sf.Tag.Get("struct") {
			case "root", "parent":
				if x.IsZero() != y.IsZero() {
					return fmt.Errorf("%s.%s: the reference is set: %v, expected %v", path, sf.Name, !x.IsZero(), !y.IsZero())
				}
			default:
				if err := sameRefs(x, y, path+"."+sf.Name); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// caseRefs is the space of streams of elements with switches whose cases
// refer to the structs around them.
func caseRefs(name string, max int) mc.Space {
	ts := []reflect.Type{rt(caseTop{}), rt(caseCounted{}), rt(caseArray{}), rt(casePtrs{}), rt(caseNested{})}
	heads := []byte{0x10, 0x11, 0x21, 0x02, 0x12, 0x22, 0x13, 0x24, 0x05, 0x15, 0x25, 0x16}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("up to %d elements in slices with a while expression, counted slices, arrays, slices of pointers and slices of slices, each with a switch whose members hold references to the structs around them, every sequence of %d selectors, followed by any number from 0 to 3 of repetitions that make slices grow; fresh targets and targets that hold the longest stream: members that are not selected and fields that are not there are zero, references included", max, len(heads)),
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			n := c.Choose(max + 1)
			rep := 1 + 40*c.Choose(4)
			if t == ts[2] {
				n, rep = 3, 1
			}
			c.Mine()
			var sel []byte
			for i := 0; i < n; i++ {
				sel = append(sel, heads[c.Choose(len(heads))])
			}
			stream := func(sel []byte, rep int) []byte {
				var e []byte
				for _, h := range sel {
					if t == ts[4] {
						e = append(e, 1)
					}
					e = append(e, h)
					k, l := h>>4, h&15
					size := 1
					switch {
					case k == 2 || k == 5 && l != 1:
						size = 1
						if l == 2 {
							size = 2
						}
					case k == 3:
						size = 2
					}
					switch l {
					case 1:
						size++
					case 2:
						size += 2
					}
					for ; size > 0; size-- {
						e = append(e, 7+h)
					}
				}
				data := []byte{9}
				if t == ts[1] {
					n := len(sel) * rep
					data = append(data, byte(n), byte(n>>8))
				}
				for i := 0; i < rep; i++ {
					data = append(data, e...)
				}
				return data
			}
			data := stream(sel, rep)
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			m := &ref.Model{}
			want := reflect.New(t).Elem()
			_, derr := m.Decode(data, want, kase.O.E)
			c.State(1)
			c.Step(m.Steps)
			if derr != nil {
				panic(fmt.Sprintf("%x: %v", data, derr))
			}
			u := reflect.New(t).Elem()
			used := c.Bool()
			if used {
				if err := unpack(c, kase, "", stream(heads[:3], 1), kase.O.O, u.Addr().Interface()); err != nil {
					c.Fail("Unpack of %x gives error %v\n%s", stream(heads[:3], 1), err, kase)
				}
			}
			err := unpack(c, kase, "", data, kase.O.O, u.Addr().Interface())
			c.Trace(1)
			if err != nil {
				c.Fail("Unpack of %s gives error %v\n%s", shortHex(data), err, kase)
			}
			if used && t == ts[2] {
				// What is not in the input stays as it is in an array.
				for i := 0; i < 3; i++ {
					if e := u.FieldByName("W").Index(i).Addr().Interface().(*caseElem); e.L != 1 {
						e.I = caseLeaf{}
					}
					if e := u.FieldByName("W").Index(i).Addr().Interface().(*caseElem); e.L != 2 {
						e.J = caseMid{}
					}
				}
			}
			if d := ref.Equal(u, want); d != nil {
				c.Fail("Unpack of %s (used target: %v): %v\n%s", shortHex(data), used, d, kase)
			}
			if err := sameRefs(u, want, ""); err != nil {
				c.Fail("after Unpack of %s (used target: %v): %v\n%s", shortHex(data), used, err, kase)
			}
			if err := checkRefs(u, nil, ""); err != nil {
				c.Fail("after Unpack of %s (used target: %v): %v\n%s", shortHex(data), used, err, kase)
			}
		},
	}
}
