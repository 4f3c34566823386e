package suites

import (
	"fmt"
	"reflect"
	"strings"

	"verif/internal/mc"
)

type nBoolT bool

// C20: the encodings of booleans.
func propC20() *mc.Property {
	return &mc.Property{ID: "C20", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"What invertedbool makes of the missing elements of an array of integers is left open; those of an array of bool are false."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				boolScalars("scalars"),
				boolContainers("containers"),
				boolMissing("missing elements"),
				boolPatterns("all patterns of a field"),
				boolContainerPatterns("patterns of containers"),
				boolRuns("runs", 3, 14),
				boolUses("uses in expressions"),
				deep(boolRuns("longer runs", 4, 14)),
				deep(boolRuns("runs of all kinds", 2, len(boolTypes)*len(boolFlagTags))),
			}
		}}
}

const boolFlags = fPack | fSizes | fUnpack | fRoundTrip | fByValue | fDirty | fTrunc

var boolFlagTags = []string{"", "variantbool", "invertedbool", "variantbool,invertedbool", "invertedbool,variantbool"}

// boolTypes are all encodings of a boolean.
var boolTypes = func() (out []string) {
	out = append(out, "", "bool")
	for _, n := range []struct {
		name string
		bits int
	}{{"int8", 8}, {"int16", 16}, {"int32", 32}, {"int64", 64}, {"uint8", 8}, {"uint16", 16}, {"uint32", 32}, {"uint64", 64}} {
		out = append(out, n.name)
		for w := 1; w < n.bits; w++ {
			switch {
			case n.bits <= 16 || w < 10 || w%8 <= 1 || w%8 == 7 || w > n.bits-4:
				out = append(out, fmt.Sprintf("%s:%d", n.name, w))
			}
		}
	}
	return
}()

// bareBoolTypes are those without a width.
var bareBoolTypes = func() (out []string) {
	for _, t := range boolTypes {
		if t != "" && !strings.Contains(t, ":") {
			out = append(out, t)
		}
	}
	return
}()

func boolWidth(typ string) int {
	if i := strings.IndexByte(typ, ':'); i >= 0 {
		n := 0
		fmt.Sscan(typ[i+1:], &n)
		return n
	}
	return map[string]int{"": 8, "bool": 8, "int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32, "int64": 64, "uint64": 64}[typ]
}

func boolField(c *mc.Ctx, native reflect.Type, typ, flags string, order int) fieldSpec {
	return fieldSpec{"F$", native, st(joinTag(joinTag(typ, flags), orderTags[order]))}
}

// boolScalars is the space of boolean fields of all kinds.
func boolScalars(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d encoded types and widths x %d flag lists x 8 bit offsets x skips x 3 order options x 2 call orders x both values x neighbours of zeros and ones", len(boolTypes), len(boolFlagTags)),
		Run: func(c *mc.Ctx) {
			typ := boolTypes[c.Choose(len(boolTypes))]
			off := c.Choose(8)
			c.Mine()
			f := boolField(c, []reflect.Type{rt(false), rt(nBoolT(false))}[off%2], typ, boolFlagTags[c.Choose(len(boolFlagTags))], c.Choose(3))
			if c.Bool() {
				f.Tag = st(joinTag(rawTag(f.Tag), "skip=1"))
			}
			t := typeOf([]Atom{misalign(off), {Name: fmt.Sprint(f), Fields: []fieldSpec{f}}, sentinel})
			o := orders[c.Choose(2)]
			v := reflect.New(t).Elem()
			i := 0
			if off > 0 {
				i = 1
			}
			v.Field(i).SetBool(c.Bool())
			if c.Bool() {
				if off > 0 {
					v.Field(0).SetUint(0xff)
				}
				v.Field(i + 1).SetUint(0xff)
			}
			check(c, &Case{T: t, V: v, O: o, Flags: boolFlags})
		},
	}
}

// boolContainer describes a container of booleans and what its tag calls the
// type.
var boolContainers3 = []struct {
	name string
	t    reflect.Type
	tag  string // %s is the type of the element
	n    int    // counted by a field
}{
	{"array", rt([3]bool{}), "[3]%s", 0},
	{"slice", rt([]bool{}), "[]%s", 3},
	{"pointer", rt((*bool)(nil)), "*%s", 0},
	{"fixed slice", rt([]bool{}), "[3]%s", 0},
	{"named", rt([2]nBoolT{}), "[2]%s", 0},
	{"array of arrays", rt([2][2]bool{}), "[2][2]%s", 0},
	{"slice of arrays", rt([][2]bool{}), "[][2]%s", 2},
	{"slice of pointers", rt([]*bool{}), "[]*%s", 2},
	{"pointer to array", rt((*[3]bool)(nil)), "*[3]%s", 0},
	{"array of slices", rt([2][]bool{}), "[2][2]%s", 0},
	{"pointer to pointer", rt((**bool)(nil)), "**%s", 0},
	{"array of arrays of arrays", rt([2][2][2]bool{}), "[2][2][2]%s", 0},
	{"slice of arrays of arrays", rt([][2][1]bool{}), "[][2][1]%s", 2},
	{"pointer to array of pointers", rt((*[2]*bool)(nil)), "*[2]*%s", 0},
}

func fillBools(v reflect.Value, n int, next func() bool) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(next())
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillBools(v.Elem(), n, next)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillBools(v.Index(i), 2, next)
		}
	}
}

// boolContainers is the space of booleans in containers.
func boolContainers(name string) mc.Space {
	types := append([]string{""}, bareBoolTypes...)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d containers x %d encoded types x %d flag lists x bit offsets 0, 3 and 7 x 3 order options x 2 call orders x 16 sequences of values", len(boolContainers3), len(types), len(boolFlagTags)),
		Run: func(c *mc.Ctx) {
			k := boolContainers3[c.Choose(len(boolContainers3))]
			typ := types[c.Choose(len(types))]
			c.Mine()
			tag := ""
			if typ != "" {
				tag = fmt.Sprintf(k.tag, typ)
			} else if strings.HasPrefix(k.tag, "[") && k.t.Kind() == reflect.Slice && k.n == 0 || k.name == "array of slices" {
				c.Prune() // without a type, nothing says how long it is
				return
			}
			f := boolField(c, k.t, tag, boolFlagTags[c.Choose(len(boolFlagTags))], c.Choose(3))
			fields := []fieldSpec{f}
			if k.n > 0 {
				fields = []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), f}
			}
			t := typeOf([]Atom{misalign([]int{0, 3, 7}[c.Choose(3)]), {Name: fmt.Sprint(f), Fields: fields}, sentinel})
			o := orders[c.Choose(2)]
			v := reflect.New(t).Elem()
			vals, i := c.Choose(16), 0
			fv := v.Field(v.NumField() - 2)
			n := k.n
			if n == 0 {
				n = 3
			}
			fillBools(fv, n, func() bool { i++; return vals>>uint((i-1)%4)&1 == 1 })
			flags := boolFlags
			check(c, &Case{T: t, V: v, O: o, Flags: flags})
		},
	}
}

// boolMissing is the space of slices that are packed as longer arrays: what is
// missing is false, and encoded like it.
func boolMissing(name string) mc.Space {
	kinds := []struct {
		t   reflect.Type
		tag string
	}{
		{rt([]bool{}), "[%d]bool"},
		{rt([]nBoolT{}), "[%d]bool"},
		{rt([2][]bool{}), "[2][%d]bool"},
		{rt((*[]bool)(nil)), "*[%d]bool"},
		{rt([][]bool{}), "[2][%d]bool"},
		{rt([][2]bool{}), "[%d][2]bool"},
	}
	const max = 9
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d containers x all lengths up to %d in arrays of all lengths up to %d x %d flag lists x 8 bit offsets x 2 orders x 4 patterns of values", len(kinds), max, max, len(boolFlagTags)),
		Run: func(c *mc.Ctx) {
			k := kinds[c.Choose(len(kinds))]
			n := c.Choose(max + 1)
			c.Mine()
			l := c.Choose(n + 1)
			f := boolField(c, k.t, fmt.Sprintf(k.tag, n), boolFlagTags[c.Choose(len(boolFlagTags))], 0)
			off := c.Choose(8)
			t := typeOf([]Atom{misalign(off), {Name: fmt.Sprint(f), Fields: []fieldSpec{f}}, sentinel})
			o := orders[off%2]
			for vals := 0; vals < 4; vals++ {
				v := reflect.New(t).Elem()
				i := 0
				next := func() bool { i++; return vals>>uint(i%2)&1 == 1 }
				fv := v.Field(v.NumField() - 2)
				switch {
				case k.t.Kind() == reflect.Array:
					for j := 0; j < 2; j++ {
						fillBools(fv.Index(j), l, next)
						l = n - l
					}
				case k.t == rt([][]bool{}):
					fv.Set(reflect.MakeSlice(k.t, l%3, l%3))
					for j := 0; j < l%3; j++ {
						fillBools(fv.Index(j), l, next)
					}
				default:
					fillBools(fv, l, next)
				}
				v.Field(v.NumField() - 1).SetUint(0xa5)
				check(c, &Case{T: t, V: v, O: o, Flags: fPack | fSizes | fByValue | fRepeat})
			}
		},
	}
}

// boolPatterns is the space of all raw patterns read into a boolean.
func boolPatterns(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d encoded types and widths x %d flag lists x 8 bit offsets x 2 orders; all patterns of up to 8 bits, every single set or clear bit and 8 more of wider ones, on a background of zeros and of ones", len(boolTypes), len(boolFlagTags)),
		Run: func(c *mc.Ctx) {
			typ := boolTypes[c.Choose(len(boolTypes))]
			off := c.Choose(8)
			c.Mine()
			f := boolField(c, rt(false), typ, boolFlagTags[c.Choose(len(boolFlagTags))], 0)
			t := typeOf([]Atom{misalign(off), {Name: fmt.Sprint(f), Fields: []fieldSpec{f}}, sentinel})
			o := orders[c.Choose(2)]
			w := boolWidth(typ)
			vals := walking(w)
			if w <= 8 {
				vals = nil
				for i := 0; i < 1<<uint(w); i++ {
					vals = append(vals, uint64(i))
				}
			}
			for _, x := range vals {
				for _, ones := range []bool{false, true} {
					data := make([]byte, (off+w+7)/8+1)
					for i := range data {
						if ones {
							data[i] = 0xff
						}
					}
					setBits(data, off, w, x)
					checkDecode(c, &Case{T: t, V: reflect.New(t).Elem(), O: o, Flags: fUnpack}, data)
				}
			}
		},
	}
}

// setBits writes the low bits of a number, most significant first.
func setBits(data []byte, pos, n int, x uint64) {
	for i := 0; i < n; i++ {
		p := pos + i
		mask := byte(0x80) >> uint(p%8)
		data[p/8] &^= mask
		if x>>uint(n-1-i)&1 == 1 {
			data[p/8] |= mask
		}
	}
}

// boolContainerPatterns is the space of raw patterns read into containers.
func boolContainerPatterns(name string) mc.Space {
	types := append([]string{""}, bareBoolTypes...)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d containers x %d encoded types x %d flag lists x 2 bit offsets x 2 orders; each element zero, one, high bit, all ones, or a bit in each byte", len(boolContainers3), len(types), len(boolFlagTags)),
		Run: func(c *mc.Ctx) {
			k := boolContainers3[c.Choose(len(boolContainers3))]
			typ := types[c.Choose(len(types))]
			c.Mine()
			tag := ""
			if typ != "" {
				tag = fmt.Sprintf(k.tag, typ)
			} else if strings.HasPrefix(k.tag, "[") && k.t.Kind() == reflect.Slice && k.n == 0 || k.name == "array of slices" {
				c.Prune()
				return
			}
			f := boolField(c, k.t, tag, boolFlagTags[c.Choose(len(boolFlagTags))], 0)
			fields := []fieldSpec{f}
			pre := 0
			if k.n > 0 {
				fields = []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), f}
				pre = 8
			}
			off := []int{0, 5}[c.Choose(2)]
			t := typeOf([]Atom{misalign(off), {Name: fmt.Sprint(f), Fields: fields}, sentinel})
			o := orders[c.Choose(2)]
			w := boolWidth(typ)
			vals := []uint64{0, 1, 1 << uint(w-1), ^uint64(0), 0x0100000001000000, 0x8000000080}
			for n := 0; n < len(vals)*len(vals); n++ {
				data := make([]byte, 80)
				if pre > 0 {
					setBits(data, off, 8, uint64(k.n))
				}
				for e := 0; e < 4; e++ {
					x := vals[n%len(vals)]
					if e%2 == 1 {
						x = vals[n/len(vals)]
					}
					setBits(data, off+pre+e*w, w, x)
				}
				checkDecode(c, &Case{T: t, V: reflect.New(t).Elem(), O: o, Flags: fUnpack}, data)
			}
		},
	}
}

// boolRuns is the space of booleans next to each other.
func boolRuns(name string, n, kinds int) mc.Space {
	var all []Atom
	for _, t := range boolTypes {
		for _, f := range boolFlagTags {
			all = append(all, one(t+f, false, joinTag(t, f)))
		}
	}
	from := all
	if kinds < len(all) {
		from = []Atom{}
		for i, t := range []string{"", "uint8:1", "uint8:7", "uint16:3", "int16", "uint32:17", "int8:2"} {
			from = append(from, one(t, false, t), one(t+"flags", false, joinTag(t, boolFlagTags[1+i%4])))
		}
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d kinds x all values x 2 orders", n, len(from)),
		Run: func(c *mc.Ctx) {
			atoms := chooseAtoms(c, from, n)
			c.Mine()
			t := typeOf(append(atoms, sentinel))
			for bits := 0; bits < 1<<uint(n); bits++ {
				v := reflect.New(t).Elem()
				for i := 0; i < n; i++ {
					v.Field(i).SetBool(bits>>uint(i)&1 == 1)
				}
				v.Field(n).SetUint(0x5a)
				for _, o := range orders {
					check(c, &Case{T: t, V: v, O: o, Flags: fPack | fSizes | fUnpack | fRoundTrip})
				}
			}
		},
	}
}

// boolUses is the space of booleans that steer other fields: their value
// counts, not their encoding.
func boolUses(name string) mc.Space {
	types := []string{"", "bool", "uint8:1", "uint16", "int32:5", "uint8"}
	type uses struct {
		name string
		f    []fieldSpec
	}
	body := reflect.StructOf([]reflect.StructField{{Name: "C1", Type: rt(uint8(0)), Tag: `struct:"case=true"`}, {Name: "C2", Type: rt(uint16(0)), Tag: `struct:"default"`}})
	body2 := reflect.StructOf([]reflect.StructField{{Name: "C1", Type: rt(uint8(0)), Tag: `struct:"case=false"`}, {Name: "C2", Type: rt(uint16(0)), Tag: `struct:"case=true"`}})
	list := []uses{
		{"if", []fieldSpec{fs("G$", uint16(0), "if=F$")}},
		{"if not", []fieldSpec{fs("G$", uint16(0), "if=!F$")}},
		{"switch", []fieldSpec{{"G$", body, st("switch=F$")}}},
		{"switch both", []fieldSpec{{"G$", body2, st("switch=F$")}}},
		{"size", []fieldSpec{fs("G$", []uint8{}, "size=F$ ? 3 : 1")}},
		{"bits", []fieldSpec{fs("G$", uint8(0), "bits=F$ ? 3 : 5")}},
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d encoded types x %d flag lists x %d uses x both values x 2 orders, and all first bytes", len(types), len(boolFlagTags), len(list)),
		Run: func(c *mc.Ctx) {
			typ := types[c.Choose(len(types))]
			fl := boolFlagTags[c.Choose(len(boolFlagTags))]
			u := list[c.Choose(len(list))]
			c.Mine()
			t := StructOf(Atom{Fields: append([]fieldSpec{boolField(c, rt(false), typ, fl, 0)}, u.f...)}, sentinel)
			if c.Bool() {
				for b := 0; b < 256; b++ {
					data := []byte{byte(b), byte(b), byte(b) >> 3, byte(b) << 3, 1, 2, 3, 4, 5, 6, 7, 8, 9}
					checkDecode(c, &Case{T: t, V: reflect.New(t).Elem(), O: orders[b%2], Flags: fUnpack}, data)
				}
				return
			}
			for _, x := range []bool{false, true} {
				v := reflect.New(t).Elem()
				v.Field(0).SetBool(x)
				g := v.Field(1)
				switch g.Kind() {
				case reflect.Slice:
					n := 1
					if x {
						n = 3
					}
					g.Set(reflect.MakeSlice(g.Type(), n, n))
				case reflect.Struct:
					for i := 0; i < g.NumField(); i++ {
						g.Field(i).SetUint(uint64(i + 1))
					}
				}
				for _, o := range orders {
					check(c, &Case{T: t, V: v, O: o, Flags: boolFlags})
				}
			}
		},
	}
}
