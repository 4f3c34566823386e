package suites

import (
	"fmt"
	"reflect"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C06: bit fields.
func propC06() *mc.Property {
	return &mc.Property{ID: "C06", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Widths given by an expression are positive and fit the type.", "complex and float fields have no bit widths."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				widths("widths"),
				signed8("signed bytes"),
				exprWidths("computed widths"),
				sequences("runs of bit fields", bitKinds, 3, orders, 2, []int{1}, bitFlags, nil),
				bitElements("bit fields in elements"),
				offsets("offsets", catalog, orders, 3, []int{0, 1, 2}, bitFlags),
				offsetElements("whole fields behind bit structs"),
				garbage("arbitrary bytes"),
				deep(sequences("longer runs of bit fields", bitKinds, 4, orders, 1, []int{1}, bitFlags, nil)),
				deep(customSequences("custom types", customCore, 2, orders, 2, []int{0, 1}, bitFlags, nil)),
			}
		}}
}

const bitFlags = fPack | fSizes | fUnpack | fRoundTrip

// bitKinds are bit fields of all kinds that do not depend on each other.
var bitKinds = func() (out []Atom) {
	out = append(out, bitAtoms...)
	out = append(out,
		one("u8:2", uint8(0), "uint8:2"), one("u8:5", uint8(0), "uint8:5"), one("u8:6le", uint8(0), "uint8:6,little"),
		one("u16:9le", uint16(0), "uint16:9,little"), one("u16:1", uint16(0), "uint16:1"),
		one("u32:31", uint32(0), "uint32:31"), one("u32:17be", uint32(0), "uint32:17,big"),
		one("u64:57", uint64(0), "uint64:57"), one("u64:3", uint64(0), "uint64:3"),
		one("i32:9", int32(0), "int32:9"), one("i64:63", int64(0), "int64:63"), one("i64:12le", int64(0), "int64:12,little"),
		one("int:21", int(0), "int32:21"), one("u8-as-u32:20", uint8(0), "uint32:20"), one("u64-as-u8:5", uint64(0), "uint8:5"),
		one("namedU8:4", namedU8(0), "uint8:4"), many("pad5bits", fs("_", uint8(0), "uint8:5")), many("pad19bits", fs("_", uint32(0), "uint32:19")),
		one("u8", uint8(0), ""), one("u16", uint16(0), ""),
	)
	return
}()

// widthKinds are the native and encoded types that take a bit width.
var widthKinds = []struct {
	native reflect.Type
	name   string
	max    int
}{
	{rt(uint8(0)), "uint8", 8}, {rt(uint16(0)), "uint16", 16}, {rt(uint32(0)), "uint32", 32}, {rt(uint64(0)), "uint64", 64},
	{rt(int16(0)), "int16", 16}, {rt(int32(0)), "int32", 32}, {rt(int64(0)), "int64", 64},
	{rt(uint(0)), "uint32", 32}, {rt(int(0)), "int32", 32}, {rt(uint(0)), "uint", 32}, {rt(int(0)), "int", 32}, {rt(uint(0)), "uint64", 64}, {rt(int(0)), "int16", 16},
	{rt(uint8(0)), "uint16", 16}, {rt(uint16(0)), "uint8", 8}, {rt(uint64(0)), "uint32", 32}, {rt(int64(0)), "int32", 32}, {rt(int8(0)), "int32", 32},
	{rt(namedU8(0)), "byte", 8}, {rt(namedI32(0)), "int32", 32}, {rt(rune(0)), "rune", 32},
}

// walking is a set of patterns in which every bit is seen set alone and clear
// alone.
func walking(max int) []uint64 {
	out := []uint64{0, ^uint64(0), 0x0123456789abcdef, 0xfedcba9876543210, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}
	for i := 0; i < max; i++ {
		out = append(out, 1<<uint(i), ^(uint64(1) << uint(i)))
	}
	return out
}

func setInteger(v reflect.Value, x uint64) {
	if v.CanInt() {
		v.SetInt(int64(x))
	} else {
		v.SetUint(x)
	}
}

// widths is the space of all widths of all types at all offsets.
func widths(name string) mc.Space {
	tagOrders := []string{"", ",big", ",little"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d pairs of native and encoded types, every width, 8 bit offsets, order by call and by tag, all values of up to 8 bits and every single set or clear bit of wider ones, neighbours all zeros and all ones", len(widthKinds)),
		Run: func(c *mc.Ctx) {
			wk := widthKinds[c.Choose(len(widthKinds))]
			w := 1 + c.Choose(wk.max-1)
			off := c.Choose(8)
			c.Mine()
			ord := c.Choose(4)
			tag := fmt.Sprintf("%s:%d", wk.name, w)
			o := orders[ord%2]
			if ord >= 2 {
				tag += tagOrders[ord-1]
				o = orders[ord%2^1] // the call asks for the other
				if ord == 3 {
					o = orders[1]
				} else {
					o = orders[0]
				}
			}
			t := typeOf([]Atom{misalign(off), {Name: tag + wk.native.String(), Fields: []fieldSpec{{"F$", wk.native, st(tag)}}}, sentinel})
			vals := walking(wk.native.Bits())
			if wk.max <= 8 {
				vals = nil
				for i := 0; i < 256; i++ {
					vals = append(vals, uint64(i))
				}
			}
			x := vals[c.Choose(len(vals))]
			ones := c.Bool()
			v := reflect.New(t).Elem()
			i := 0
			if off > 0 {
				if ones {
					v.Field(0).SetUint(0xff)
				}
				i = 1
			}
			setInteger(v.Field(i), x)
			if ones {
				v.Field(i + 1).SetUint(0xff)
			}
			check(c, &Case{T: t, V: v, O: o, Flags: bitFlags})
		},
	}
}

// signed8 is the space of signed bit fields of one byte. How they are read is
// a known finding.
func signed8(name string) mc.Space {
	kinds := []reflect.Type{rt(int8(0)), rt(int(0)), rt(int64(0))}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("int8:1 to int8:7 of %d native types, all patterns, 8 bit offsets, 2 byte orders, neighbours all zeros and all ones", len(kinds)),
		Run: func(c *mc.Ctx) {
			n := kinds[c.Choose(len(kinds))]
			w := 1 + c.Choose(7)
			off := c.Choose(8)
			c.Mine()
			o := orders[c.Choose(2)]
			x := c.Choose(256)
			ones := c.Bool()
			tag := fmt.Sprintf("int8:%d", w)
			t := typeOf([]Atom{misalign(off), {Name: tag + n.String(), Fields: []fieldSpec{{"F$", n, st(tag)}}}, sentinel})
			v := reflect.New(t).Elem()
			i := 0
			if off > 0 {
				i = 1
			}
			if ones {
				if off > 0 {
					v.Field(0).SetUint(0xff)
				}
				v.Field(i + 1).SetUint(0xff)
			}
			v.Field(i).SetInt(int64(int8(x)))
			k := &Case{T: t, V: v, O: o, Flags: fPack | fSizes}
			check(c, k)
			m := &ref.Model{}
			s, err := m.Encode(deepCopy(v), o.E)
			if err != nil {
				c.Fail("internal: %v\n%s", err, k)
			}
			data := s.Bytes()
			want := reflect.New(t).Elem()
			if _, err := m.Decode(data, want, o.E); err != nil {
				c.Fail("internal: %v\n%s", err, k)
			}
			got := reflect.New(t).Elem()
			err = unpack(c, k, "", data, o.O, got.Addr().Interface())
			c.Trace(1)
			if err == nil && got.Field(i).Int() != want.Field(i).Int() {
				p := x & (1<<uint(w) - 1)
				c.FailKey(fmt.Sprintf("int8:%d pattern %#x reads %d", w, p, got.Field(i).Int()),
					"Unpack of %x: the int8:%d bit field %#x reads as %d, expected %d\n%s", data, w, p, got.Field(i).Int(), want.Field(i).Int(), k)
				got.Field(i).Set(want.Field(i))
			}
			compareUnpacked(c, k, "", data, got, err, want, nil)
		},
	}
}

// exprWidths is the space of widths that are computed from other fields.
func exprWidths(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("bits expressions giving every width of %d pairs of types, 8 bit offsets, 2 byte orders, 12 values", len(widthKinds)),
		Run: func(c *mc.Ctx) {
			wk := widthKinds[c.Choose(len(widthKinds))]
			w := 1 + c.Choose(wk.max)
			off := c.Choose(8)
			c.Mine()
			o := orders[c.Choose(2)]
			tag := wk.name + ",bits=K"
			t := typeOf([]Atom{misalign(off), {Name: tag + wk.native.String(), Fields: []fieldSpec{fs("K", uint8(0), ""), {"F$", wk.native, st(tag)}}}, sentinel})
			vals := append(walking(0), 1, 2, 1<<uint(w-1), 1<<uint(w-1)-1, 1<<uint(w-1)+1, ^uint64(1<<uint(w-1)))
			x := vals[c.Choose(len(vals))]
			v := reflect.New(t).Elem()
			v.FieldByName("K").SetUint(uint64(w))
			n := v.NumField()
			setInteger(v.Field(n-2), x)
			v.Field(n - 1).SetUint(0x99)
			check(c, &Case{T: t, V: v, O: o, Flags: bitFlags})
		},
	}
}

// bitElements is the space of arrays and slices of structs of two bit fields.
func bitElements(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "arrays of 3, slices of 0 to 4 and pointers to structs of two bit fields of 1 to 12 bits each, 4 bit offsets, 2 byte orders, 2 value patterns",
		Run: func(c *mc.Ctx) {
			w1, w2 := 1+c.Choose(12), 1+c.Choose(12)
			off := []int{0, 1, 4, 7}[c.Choose(4)]
			c.Mine()
			e := StructOf(one("a", uint16(0), fmt.Sprintf("uint16:%d", w1)), one("b", uint32(0), fmt.Sprintf("uint32:%d", w2)))
			var a Atom
			switch c.Choose(3) {
			case 0:
				a = Atom{Name: "arr", Fields: []fieldSpec{{"F$", reflect.ArrayOf(3, e), ""}}}
			case 1:
				a = Atom{Name: "slice", Fields: []fieldSpec{fs("N$", uint8(0), "uint8:5,sizeof=F$"), {"F$", reflect.SliceOf(e), ""}}}
			case 2:
				a = Atom{Name: "ptrs", Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, reflect.PtrTo(e)), ""}}}
			}
			t := StructOf(misalign(off), a, sentinel)
			valueSpace(c, t, orders, 2, []int{0, 1, 4}, bitFlags)
		},
	}
}

// offsetElements is the space of all field kinds behind a struct that ends off
// a byte boundary, and inside of elements of odd width.
func offsetElements(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds in the elements of arrays and slices behind a bit field of 1, 3 or 6 bits", len(catalog)),
		Run: func(c *mc.Ctx) {
			a := catalog[c.Choose(len(catalog))]
			w := []int{1, 3, 6}[c.Choose(3)]
			c.Mine()
			e := StructOf(one("w", uint8(0), fmt.Sprintf("uint8:%d", w)), a)
			var t reflect.Type
			if c.Bool() {
				t = StructOf(Atom{Name: "arr", Fields: []fieldSpec{{"F$", reflect.ArrayOf(3, e), ""}}}, sentinel)
			} else {
				t = StructOf(Atom{Name: "slice", Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(e), `mc:"len=0,1,3"`}}}, sentinel)
			}
			valueSpace(c, t, orders, 2, []int{2}, bitFlags)
		},
	}
}

var _ = restruct.Pack
