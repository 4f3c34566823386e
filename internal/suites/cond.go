package suites

import (
	"fmt"
	"reflect"
	"strings"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C10: conditional fields and computed sizes and widths.
func propC10() *mc.Property {
	return &mc.Property{ID: "C10", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Expressions use fields that come before the field they are declared on.", "Computed widths are positive and fit the type."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				ifKinds("conditions on all kinds"),
				conditions("conditions of all forms"),
				sizeKinds("sizes of all kinds"),
				sizeMismatch("lengths other than their size"),
				bigSizes("sizes that no small integer holds"),
				computedWidths("computed widths"),
				sequences("conditions in a row", condAtoms, 3, orders[:1], 1, []int{2}, condFlags, nil),
				nestings("conditions nested", condAtoms, 2, orders[:1], 1, []int{1, 2}, condFlags),
				condElements("conditions in elements"),
				scopes("names of the same struct only"),
				longStructs("expressions in long structs", condFlags, "if", "size", "bits"),
				deepTypes("deep types", condFlags),
				deep(sequences("more conditions in a row", condAtoms, 4, orders, 1, []int{1}, condFlags, nil)),
				deep(nestings("conditions nested deeper", condAtoms, 3, orders, 1, []int{1, 2}, condFlags)),
			}
		}}
}

const condFlags = fPack | fSizes | fUnpack | fRoundTrip | fDirty

func mcTag(tag, values string) string { return st(tag) + ` mc:"` + values + `"` }

var condAtoms = []Atom{
	many("if-u8", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", uint8(0), "if=K$ == 1")),
	many("if-slice", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("N$", uint8(0), "if=K$ == 1"), fs("F$", []uint16{}, "if=K$ == 1,size=N$ & 1")),
	many("if-ptr", fs("K$", int8(0), mcTag("int8", "-1,1")), fs("F$", (*inner)(nil), "if=K$ < 0")),
	many("if-bits3", fs("K$", uint8(0), mcTag("uint8:2", "0,2")), fs("F$", uint16(0), "uint16:11,if=K$ == 2")),
	many("if-struct-if", fs("K$", false, mcTag("bool", "false,true")), fs("F$", innerIf{}, "if=K$")),
	many("if-arr-skip", fs("K$", uint16(0), mcTag("uint16", "1,300")), fs("F$", [2]innerIf{}, "skip=1,if=K$ > 255")),
	many("if-custom", fs("K$", false, mcTag("uint8,invertedbool", "false,true")), fs("F$", cPtr{}, "if=!K$")),
	many("if-pad", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("_", uint16(0), "if=K$ == 1")),
	many("if-else", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", uint16(0), "if=K$ == 1"), fs("G$", uint32(0), "if=K$ != 1")),
	many("if-str", fs("K$", "", mcTag("[2]byte", "no,ab")), fs("F$", "", `[3]byte,if=K$ == "ab"`)),
	many("bits1", fs("K$", uint8(0), mcTag("uint8", "1,4,8,11")), fs("F$", uint32(0), "bits=K$ * 2 + 1")),
	many("bits-if", fs("K$", uint8(0), mcTag("uint8", "0,3,9")), fs("F$", uint16(0), "bits=K$,if=K$ > 0")),
	many("bits-big", fs("K$", int16(0), mcTag("int16", "5,17")), fs("F$", int32(0), "big,bits=K$")),
	many("size-str", fs("K$", uint8(0), mcTag("uint8", "0,1,3")), fs("F$", "", "size=K$")),
	many("size-if", fs("K$", uint8(0), mcTag("uint8", "0,1,2")), fs("F$", []innerIf{}, "size=K$")),
	many("size-2", fs("K$", uint8(0), mcTag("uint8:4", "1,2")), fs("L$", uint8(0), mcTag("uint8:4", "0,2")), fs("F$", []uint16{}, "size=K$ * L$")),
	many("size-bits", fs("K$", uint8(0), mcTag("uint8", "0,1,7")), fs("F$", []innerBits{}, "size=bits.OnesCount8(K$)")),
	many("switch-if", fs("K$", uint8(0), mcTag("uint8", "0,1,2")), fs("F$", switchBody{}, "switch=K$,if=K$ > 0")),
	many("sep-tag", fs("K$", uint8(0), mcTag("uint8", "0,1")), fieldSpec{"F$", rt(uint16(0)), `struct:"big" struct-if:"K$ == 1"`}),
	many("inout-if", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", uint8(0), "if=K$ == 1,out=F$ + K$,in=F$ - K$")),
	many("plain", fs("F$", uint8(0), "uint8:5")),
}

// withIf makes the last field of an atom conditional.
func withIf(a Atom, cond string, separate bool) (Atom, bool) {
	f := append([]fieldSpec{}, a.Fields...)
	l := &f[len(f)-1]
	tag := rawTag(l.Tag)
	if strings.Contains(tag, "if=") || tag == "-" || l.Name[0] >= 'a' && l.Name[0] <= 'z' {
		return a, false
	}
	for _, o := range f {
		if strings.Contains(o.Tag, "sizeof=") {
			return a, false // the counter would be there without what it counts
		}
	}
	if separate {
		l.Tag = st(tag) + ` struct-if:"` + strings.ReplaceAll(cond, `"`, `\"`) + `"` + mcPart(l.Tag)
	} else {
		l.Tag = st(joinTag(tag, "if="+cond)) + mcPart(l.Tag)
	}
	return Atom{Name: a.Name + " if " + cond, Fields: f}, true
}

// ifKinds is the space of conditions on all kinds of fields.
func ifKinds(name string) mc.Space {
	from := join(catalog, customAtoms)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds, present and missing, by if in the tag and by struct-if, at bit offsets 0, 3 and 7", len(from)),
		Run: func(c *mc.Ctx) {
			i := c.Choose(len(from))
			sep := c.Bool()
			a, ok := withIf(from[i], "Q == 2", sep)
			if !ok {
				c.Prune()
			}
			off := 0
			if i < len(catalog) {
				off = []int{0, 3, 7}[c.Choose(3)]
			}
			c.Mine()
			t := typeOf([]Atom{many("q", fs("Q", uint8(0), mcTag("uint8", "1,2"))), misalign(off), a, sentinel})
			valueSpace(c, t, orders, 2, []int{0, 2}, condFlags|fTrunc|fByValue)
		},
	}
}

// conditions is the space of conditions of all forms over values of all kinds.
func conditions(name string) mc.Space {
	prelude := []Atom{many("pre",
		fs("A", uint8(0), mcTag("uint8", "0,1,200")),
		fs("B", int16(0), mcTag("int16", "-1,0,300")),
		fs("C", false, mcTag("bool", "false,true")),
		fs("D", namedBool(false), mcTag("uint8", "false,true")),
		fs("S", "", mcTag("[2]byte", "ab,cd")),
	), many("pre2",
		fs("X", inner{}, ""),
		fs("P", (*inner)(nil), ""),
		fs("R", [2]uint8{}, ""),
		fs("G", float32(0), ""),
	)}
	conds := []string{
		"C", "!C", "D", "!D", "C && A == 1", "C || A == 1", "!(C || A == 1)", "C == true", "C != true || false",
		"A == 1", "A != 1", "A > 1", "A >= 1", "A < 200", "A <= 0", "A & 1 == 1", "A | 2 == 3", "A ^ 1 == 0", "A &^ 1 == 0", "A << 1 == 2", "A >> 1 == 100", "A + 100 < A", "A * 2 == 144", "A / 2 == 100", "A % 7 == 4",
		"B < 0", "-B == 1", "^B == 0", "B > 255", "B >= 0 && B <= 300", "A == 200 ? B < 0 : B > 0", "C ? D : !D",
		`S == "ab"`, `S != "ab"`, "S[0] == 'c'", "S[1] > 'b'",
		"X.X == 1", "X.Y > 255", "P.X < 100", "P.Y & 0xff != 0", "R[0] == R[1]", "R[A & 1] > 10", "G > 1.0", "G < 0.5",
		"bits.OnesCount8(A) == 3", "bits.LeadingZeros8(A) > 4", "true", "false", "1 == 1", "3 > 4",
	}
	t := func(i int) reflect.Type {
		cond := conds[i]
		return StructOf(prelude[0], prelude[1], Atom{Fields: []fieldSpec{fs("V", uint16(0), "if="+cond), {"W", rt(uint16(0)), `struct-if:"` + strings.ReplaceAll(cond, `"`, `\"`) + `"`}}}, sentinel)
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d conditions over integers, booleans, strings, floats, members, pointees and elements, with 72 combinations of values, 4 patterns", len(conds)),
		Run: func(c *mc.Ctx) {
			i := c.Choose(len(conds))
			c.Mine()
			valueSpace(c, t(i), orders, 4, nil, fPack|fSizes|fUnpack|fRoundTrip)
		},
	}
}

// sizeKinds is the space of computed sizes of everything that has a length.
func sizeKinds(name string) mc.Space {
	elems := []fieldSpec{
		fs("", []byte{}, ""), fs("", "", ""), fs("", []uint16{}, ""), fs("", []int{}, "[]int16"), fs("", []bool{}, ""), fs("", []bool{}, "variantbool"), fs("", []inner{}, ""), fs("", []innerBits{}, ""),
		fs("", []innerDyn{}, ""), fs("", []innerIf{}, ""), fs("", []*inner{}, ""), fs("", [][2]uint16{}, ""), fs("", namedSl{}, "big"), fs("", namedStr(""), "skip=1"), fs("", []cPtr{}, ""), fs("", []cVar{}, ""), fs("", "", "[]uint16"), fs("", []float32{}, ""),
		fs("", []parentOuter{}, ""), fs("", []int8{}, ""),
	}
	exprs := []string{"K", "K + 1", "K * 2", "K & 3", "3", "(K + 1) / 2", "bits.Len8(K)", "K > 1 ? 2 : 0", "L", "L + 2", "-L", "X.X % 4", "M", "M << 1", "0"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of slices and strings with %d size expressions over integers of 4 types, by size and by struct-size, 2 bit offsets", len(elems), len(exprs)),
		Run: func(c *mc.Ctx) {
			f := elems[c.Choose(len(elems))]
			e := exprs[c.Choose(len(exprs))]
			sep := c.Bool()
			aligned := f.Type == rt([]cPtr{}) || f.Type == rt([]cVar{})
			off := 0
			if !aligned {
				off = 3 * c.Choose(2)
			}
			c.Mine()
			f.Name = "V"
			if sep {
				f.Tag = st(rawTag(f.Tag)) + ` struct-size:"` + e + `"`
			} else {
				f.Tag = st(joinTag(rawTag(f.Tag), "size="+e))
			}
			l := "-1,0,2"
			switch e {
			case "L":
				l = "0,1,4"
			case "L + 2":
				l = "-2,0"
			case "-L":
				l = "-3,0"
			}
			k, m := "2", "2"
			if strings.Contains(e, "K") {
				k = "0,1,2,5"
			}
			if strings.Contains(e, "M") {
				m = "0,2"
			}
			if !strings.Contains(e, "L") {
				l = "-1"
			}
			t := StructOf(many("pre", fs("K", uint8(0), mcTag("uint8", k)), fs("L", int8(0), mcTag("int8", l)), fs("M", uint64(0), mcTag("uint64", m)), fs("X", inner{}, "")), misalign(off), many("v", f), sentinel)
			valueSpace(c, t, orders, 1, []int{1}, condFlags)
		},
	}
}

// bigSizes is the space of computed sizes up to beyond what 8 and 16 bits hold.
func bigSizes(name string) mc.Space {
	elems := []fieldSpec{fs("", []byte{}, ""), fs("", "", ""), fs("", []uint16{}, "big"), fs("", []innerIf{}, ""), fs("", []cPtr{}, ""), fs("", []bool{}, "variantbool"), fs("", []uint{}, "[]uint8")}
	ns := []int{126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072}
	types := []interface{}{uint8(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), int(0), uint(0)}
	exprs := []string{"K", "K + 0", "%d", "K / 1 * 1", "K + 1 - 1", "A == 1 ? K : 0"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of slices and strings with %d lengths from 126 to 131072, by %d expressions over integers of %d types", len(elems), len(ns), len(exprs), len(types)),
		Run: func(c *mc.Ctx) {
			f := elems[c.Choose(len(elems))]
			n := ns[c.Choose(len(ns))]
			kt := types[c.Choose(len(types))]
			e := exprs[c.Choose(len(exprs))]
			if rt(kt).Size() == 1 && n > 255 || rt(kt).Size() == 2 && n > 65535 {
				c.Prune()
			}
			if n > 300 && e != "K" && (rt(kt) != rt(uint32(0)) || f.Type != rt([]byte{}) && f.Type != rt([]uint16{})) {
				c.Prune()
			}
			if n > 300 && f.Type != rt([]byte{}) && f.Type != rt("") && rt(kt) != rt(uint64(0)) && rt(kt) != rt(int32(0)) {
				c.Prune()
			}
			c.Mine()
			if e == "%d" {
				e = itoa(n)
			}
			f.Name, f.Tag = "V", st(joinTag(rawTag(f.Tag), "size="+e))
			t := StructOf(many("pre", fs("A", uint8(0), mcTag("uint8", "1")), fs("K", kt, `mc:"`+itoa(n)+`"`)), many("v", f), sentinel)
			check(c, &Case{T: t, V: FillSimple(t, 1, n), O: orders[n%2], Flags: fPack | fSizes | fUnpack | fRoundTrip})
		},
	}
}

// computedWidths is the space of widths given by expressions, be they possible
// or not.
func computedWidths(name string) mc.Space {
	fields := []fieldSpec{
		fs("V", uint8(0), ""), fs("V", int8(0), ""), fs("V", uint16(0), ""), fs("V", int16(0), "big"), fs("V", uint32(0), "little"), fs("V", int32(0), ""), fs("V", uint64(0), ""), fs("V", int64(0), ""),
		fs("V", uint(0), ""), fs("V", int(0), "int16"), fs("V", uint64(0), "uint8"), fs("V", false, "uint16"), fs("V", false, "uint8,variantbool"), fs("V", namedU8(0), "skip=1"), fs("V", uint16(0), "out=V,in=V"), fs("_", uint16(0), ""),
		fs("V", uint16(0), "if=K != 3"),
		fs("V", uint16(0), "uint16:4"), fs("V", int32(0), "big,int32:9"), fs("V", uint8(0), "uint8:7"), fs("V", false, "uint16:3,variantbool"), fs("V", uint64(0), "uint64:33,little"),
	}
	var ns []int64
	for i := int64(-70); i <= 70; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, -128, -127, 127, -1<<15, 1<<15-1, -1<<31, -1<<31+8, -1<<62, -1<<63, -1<<63+1)
	types := []interface{}{int8(0), int16(0), int32(0), int64(0), int(0), uint8(0), uint16(0), uint32(0), uint64(0)}
	exprs := []string{"K", "K + 0", "A == 7 ? K : K + 1", "W.K", "-K"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of fields, their width given by %d expressions over integers of %d types, all widths from -70 to 70 and those around the ends of the types, at the top, in elements and behind pointers", len(fields), len(exprs), len(types)),
		Run: func(c *mc.Ctx) {
			f := fields[c.Choose(len(fields))]
			kt := rt(types[c.Choose(len(types))])
			e := exprs[c.Choose(len(exprs))]
			n := ns[c.Choose(len(ns))]
			nested := c.Choose(3)
			if nested > 0 && kt.Kind() != reflect.Int8 || e != "K" && (n > 70 || n < -70) {
				c.Prune()
			}
			if f.Type == rt(int8(0)) && n > 0 && n < 8 {
				c.Prune() // a finding of C06
			}
			c.Mine()
			k := n
			if e == "-K" {
				k = -n
			}
			kv := reflect.New(kt).Elem()
			if kv.CanInt() {
				if kv.OverflowInt(k) {
					c.Prune()
				}
				kv.SetInt(k)
			} else {
				// Widths above the largest int.
				if k < 0 && kt.Size() < 8 {
					c.Prune()
				}
				if e == "-K" || kv.OverflowUint(uint64(k)) {
					c.Prune()
				}
				kv.SetUint(uint64(k))
			}
			f.Tag = st(joinTag(rawTag(f.Tag), "bits="+e))
			t := StructOf(many("pre", fs("A", uint8(0), ""), fieldSpec{"K", kt, ""}, fieldSpec{"W", StructOf(many("k", fieldSpec{"K", kt, ""})), ""}), Atom{Fields: []fieldSpec{f}}, sentinel)
			v := FillSimple(t, 1, 0)
			v.Field(0).SetUint(7)
			v.Field(1).Set(kv)
			v.Field(2).Field(0).Set(kv)
			switch nested {
			case 1:
				a := reflect.New(reflect.ArrayOf(2, t)).Elem()
				a.Index(0).Set(v)
				a.Index(0).Field(1).SetInt(5)
				a.Index(0).Field(2).Field(0).SetInt(5)
				if e == "-K" {
					a.Index(0).Field(1).SetInt(-5)
				}
				a.Index(1).Set(v)
				v = a
			case 2:
				w := reflect.New(StructOf(one("a", uint8(0), ""), Atom{Fields: []fieldSpec{{"P", reflect.PtrTo(t), ""}}})).Elem()
				w.Field(1).Set(reflect.New(t))
				w.Field(1).Elem().Set(v)
				v = w
			}
			o := orders[c.Choose(2)]
			kase := &Case{T: v.Type(), V: v, O: o, Flags: condFlags | fTrunc}
			check(c, kase)

			// What cannot be packed has no size, and does not unpack either.
			if _, merr := (&ref.Model{}).Encode(deepCopy(v), o.E); n < 0 && merr != nil {
				iv := deepCopy(v)
				if nb, nbits, err := sizes(c, kase, "of a negative width", iv.Addr().Interface()); err == nil {
					c.Fail("SizeOf is %d, BitSize is %d for a field of %d bits\n%s", nb, nbits, n, kase)
				}
				c.Trace(1)
			}
			if nested == 0 {
				data := binaryOf(kv, o)
				data = append(append(append([]byte{7}, data...), data...), 0x9a, 0x3c, 0xf1, 0x42, 0x87, 0x6d, 0xe5, 0x18, 0xb3, 0x24, 0xc7, 0x5e)
				checkDecode(c, kase, data)
			}
		},
	}
}

// binaryOf encodes an integer.
func binaryOf(v reflect.Value, o Order) []byte {
	var x uint64
	if v.CanInt() {
		x = uint64(v.Int())
	} else {
		x = v.Uint()
	}
	size := int(v.Type().Size())
	if v.Kind() == reflect.Int || v.Kind() == reflect.Uint {
		size = 4
	}
	b := make([]byte, size)
	for i := range b {
		if o.E == ref.Little {
			b[i] = byte(x >> uint(8*i))
		} else {
			b[i] = byte(x >> uint(8*(size-1-i)))
		}
	}
	return b
}

// sizeMismatch is the space of slices whose length is not what their size
// expression says.
func sizeMismatch(name string) mc.Space {
	elems := []fieldSpec{fs("", []byte{}, ""), fs("", "", ""), fs("", []uint16{}, ""), fs("", []inner{}, ""), fs("", []*inner{}, ""), fs("", []cPtr{}, ""), fs("", []bool{}, ""), fs("", []innerDyn{}, ""), fs("", namedStr(""), "")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of slices and strings, all lengths and sizes -2 to 4, at the top and in elements, by pointer and by value", len(elems)),
		Run: func(c *mc.Ctx) {
			f := elems[c.Choose(len(elems))]
			n := c.Choose(5)
			k := c.Choose(7) - 2
			nested := c.Choose(3)
			c.Mine()
			f.Name = "V"
			f.Tag = st(joinTag(rawTag(f.Tag), "size=K"))
			t := StructOf(many("pre", fs("K", int16(0), "")), many("v", f), sentinel)
			fill := func(t reflect.Type, k int) reflect.Value {
				v := reflect.New(t).Elem()
				v.Field(0).SetInt(int64(k))
				if f.Type.Kind() == reflect.String {
					v.Field(1).SetString("wxyz"[:n])
				} else {
					v.Field(1).Set(reflect.MakeSlice(f.Type, n, n))
					for i := 0; i < n; i++ {
						if e := v.Field(1).Index(i); e.Kind() == reflect.Ptr {
							e.Set(reflect.New(e.Type().Elem()))
						}
					}
				}
				return v
			}
			v := fill(t, k)
			switch nested {
			case 1:
				a := reflect.New(reflect.ArrayOf(2, t)).Elem()
				a.Index(0).Set(fill(t, n))
				a.Index(1).Set(v)
				v = a
			case 2:
				w := reflect.New(StructOf(one("a", uint8(0), ""), Atom{Fields: []fieldSpec{{"P", reflect.PtrTo(t), ""}}})).Elem()
				w.Field(1).Set(v.Addr())
				v = w
			}
			check(c, &Case{T: v.Type(), V: v, O: orders[c.Choose(2)], Flags: fPack | fByValue | fUnpack | fRoundTrip})
		},
	}
}

// condElements is the space of slices whose elements decide for themselves.
func condElements(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("arrays, slices and pointers of up to 3 elements of %d conditional kinds, every combination of their values, behind an outer field of the same name", len(condAtoms)),
		Run: func(c *mc.Ctx) {
			a := condAtoms[c.Choose(len(condAtoms))]
			kind := c.Choose(5)
			ko := c.Choose(2)
			c.Mine()
			e := StructOf(a)
			// The outer struct has fields of the same names, with other values.
			var outer []fieldSpec
			for _, f := range a.Fields[:len(a.Fields)-1] {
				outer = append(outer, fieldSpec{f.Name, f.Type, st(strings.Split(rawTag(f.Tag), ",if=")[0])})
			}
			names := Atom{Fields: outer}
			var w Atom
			switch kind {
			case 0:
				w = Atom{Fields: []fieldSpec{{"W", reflect.ArrayOf(2, e), ""}}}
			case 1:
				w = Atom{Fields: []fieldSpec{fs("Cnt", uint8(0), "sizeof=W"), {"W", reflect.SliceOf(e), `mc:"len=0,1,2"`}}}
			case 2:
				w = Atom{Fields: []fieldSpec{{"W", reflect.ArrayOf(2, reflect.PtrTo(e)), ""}}}
			case 3:
				w = Atom{Fields: []fieldSpec{fs("Cnt", uint8(0), ""), {"W", reflect.SliceOf(reflect.PtrTo(e)), `struct:"sizefrom=Cnt" mc:"len=0,2"`}}}
			case 4:
				w = Atom{Fields: []fieldSpec{{"W", reflect.ArrayOf(2, reflect.ArrayOf(1, e)), st("skip=1")}}}
			}
			t := StructOf(names, w, sentinel)
			valueSpace(c, t, orders[:1+ko], 2, []int{1}, condFlags)
		},
	}
}

// scopes is the space of expressions that use names of other structs: those
// are unknown.
func scopes(name string) mc.Space {
	type in1 struct {
		V uint8 `struct:"if=K == 1"`
	}
	type in2 struct {
		K uint8
		V uint8 `struct:"if=K == 1"`
	}
	type in3 struct {
		V []byte `struct:"size=K"`
	}
	type in4 struct {
		V uint8 `struct:"bits=K"`
	}
	type in5 struct {
		V uint8 `struct:"if=X.K == 1"`
		X in2
	}
	type in6 struct {
		X in2
		V uint8 `struct:"if=X.K == 1"`
	}
	type in7 struct {
		k uint8
		V uint8 `struct:"if=k == 0"`
	}
	type in8 struct {
		K uint8 `struct:"-"`
		V uint8 `struct:"if=K == 0"`
	}
	type in9 struct {
		V switchBody2 `struct:"switch=K"`
	}
	inner := []struct {
		t   reflect.Type
		bad bool
	}{{rt(in1{}), true}, {rt(in2{}), false}, {rt(in3{}), true}, {rt(in4{}), true}, {rt(in6{}), false}, {rt(in8{}), false}, {rt(in9{}), true}}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d structs with expressions, inside of structs that have the names they use or not, 5 wrappers", len(inner)),
		Run: func(c *mc.Ctx) {
			in := inner[c.Choose(len(inner))]
			w := wrappers[:6][c.Choose(6)]
			twice := c.Bool()
			c.Mine()
			t := StructOf(Atom{Fields: append([]fieldSpec{fs("K", uint8(0), ""), fs("X", in2{}, "")}, w.Wrap(in.t)...)}, sentinel)
			if twice {
				t = StructOf(Atom{Fields: []fieldSpec{fs("K", uint8(0), ""), {"W", t, ""}}})
			}
			v := reflect.New(t).Elem()
			if !in.bad {
				v = Fill(c, t, patternAt(c.Choose(3)), []int{0, 1})
			} else {
				f := v
				if twice {
					v.Field(0).SetUint(1)
					f = v.Field(1)
				}
				f.Field(0).SetUint(1)
				for i := 0; i < f.NumField(); i++ {
					switch f.Field(i).Kind() {
					case reflect.Ptr:
						f.Field(i).Set(reflect.New(f.Field(i).Type().Elem()))
					case reflect.Slice:
						f.Field(i).Set(reflect.MakeSlice(f.Field(i).Type(), 1, 1))
					}
				}
			}
			k := &Case{T: t, V: v, O: orders[0], Flags: fPack | fSizes | fUnpack | fByValue | fRoundTrip}
			check(c, k)
			if in.bad {
				checkDecode(c, k, []byte{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})
			}
		},
	}
}
