package suites

import (
	"reflect"
	"strconv"
	"strings"

	"verif/internal/mc"
	"verif/internal/ref"
)

// fieldSpec is a field of a generated struct. A $ in the name and in the tag
// stands for a letter that makes it unique.
type fieldSpec struct {
	Name string
	Type reflect.Type
	Tag  string
}

// Atom is a piece of a generated struct: one field, or a few that belong
// together.
type Atom struct {
	Name   string
	Fields []fieldSpec
	Last   bool // must be the last of the struct: it reads to the end
}

func rt(x interface{}) reflect.Type { return reflect.TypeOf(x) }

// st quotes a struct tag.
func st(s string) string { return `struct:"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

func one(name string, x interface{}, tag string) Atom {
	if tag != "" && !strings.Contains(tag, `:"`) {
		tag = st(tag)
	}
	return Atom{Name: name, Fields: []fieldSpec{{"F$", rt(x), tag}}}
}

func many(name string, fs ...fieldSpec) Atom { return Atom{Name: name, Fields: fs} }

func fs(name string, x interface{}, tag string) fieldSpec {
	if tag != "" && !strings.Contains(tag, `:"`) {
		tag = st(tag)
	}
	return fieldSpec{name, rt(x), tag}
}

// StructOf builds a struct type of atoms, extra fields included.
func StructOf(atoms ...Atom) reflect.Type {
	var out []reflect.StructField
	for i, a := range atoms {
		letter := string(rune('A' + i%26))
		if i >= 26 {
			letter += string(rune('A' + i/26))
		}
		for _, f := range a.Fields {
			sf := reflect.StructField{
				Name: strings.ReplaceAll(f.Name, "$", letter),
				Type: f.Type,
				Tag:  reflect.StructTag(strings.ReplaceAll(f.Tag, "$", letter)),
			}
			if c := sf.Name[0]; c == '_' || c >= 'a' && c <= 'z' {
				sf.PkgPath = "verif/gen"
			}
			out = append(out, sf)
		}
	}
	return reflect.StructOf(out)
}

// types used as parts of generated structs
type inner struct {
	X uint8
	Y uint16
}

type innerBits struct {
	P uint8  `struct:"uint8:3"`
	Q uint16 `struct:"uint16:10"`
	R bool
	S uint8 `struct:"uint8:3"`
}

type innerOrder struct {
	X uint16
	Y uint16 `struct:"big"`
	Z uint16 `struct:"little"`
	W uint16
}

type innerDyn struct {
	N uint8 `struct:"sizeof=S"`
	S []uint16
}

type innerIf struct {
	K uint8  `mc:"0,1"`
	V uint16 `struct:"if=K == 1"`
	T uint8
}

type innerSkip struct {
	A uint8
	B uint16 `struct:"skip=1"`
}

type innerPad struct {
	A uint8
	_ uint16
	u uint32
	B uint8 `struct:"-"`
	C uint8
}

type (
	namedU8   uint8
	namedI32  int32
	namedStr  string
	namedBool bool
	namedArr  [2]uint16
	namedSl   []uint16
	namedF    float32
)

// scalars are the plain types and the types they may be cast to.
var scalars = []Atom{
	one("u8", uint8(0), ""),
	one("u16", uint16(0), ""),
	one("u32", uint32(0), ""),
	one("u64", uint64(0), ""),
	one("i8", int8(0), ""),
	one("i16", int16(0), ""),
	one("i32", int32(0), ""),
	one("i64", int64(0), ""),
	one("f32", float32(0), ""),
	one("f64", float64(0), ""),
	one("c64", complex64(0), ""),
	one("c128", complex128(0), ""),
	one("bool", false, ""),
	one("int", int(0), ""),
	one("uint", uint(0), ""),
	one("namedU8", namedU8(0), ""),
	one("namedI32", namedI32(0), ""),
	one("namedF", namedF(0), ""),
	one("rune", rune(0), "rune"),
}

var casts = []Atom{
	one("int-as-i8", int(0), "int8"),
	one("int-as-i16", int(0), "int16"),
	one("int-as-i32", int(0), "int32"),
	one("int-as-i64", int(0), "int64"),
	one("uint-as-u8", uint(0), "uint8"),
	one("uint-as-byte", uint(0), "byte"),
	one("uint-as-u16", uint(0), "uint16"),
	one("uint-as-u64", uint(0), "uint64"),
	one("u64-as-u32", uint64(0), "uint32"),
	one("u8-as-u32", uint8(0), "uint32"),
	one("i8-as-i64", int8(0), "int64"),
	one("i64-as-i16", int64(0), "int16"),
	one("f64-as-f32", float64(0), "float32"),
	one("f32-as-f64", float32(0), "float64"),
	one("c128-as-c64", complex128(0), "complex64"),
	one("bool-as-u16", false, "uint16"),
	one("bool-as-i32", false, "int32"),
	one("namedI32-as-i16", namedI32(0), "int16"),
	one("int-as-int", int(0), "int"),
	one("uintarr-as-u16arr", [2]uint{}, "[2]uint16"),
	one("intslice-as-i16arr", []int{}, "[3]int16"),
}

var bitAtoms = []Atom{
	one("u8:1", uint8(0), "uint8:1"),
	one("u8:3", uint8(0), "uint8:3"),
	one("u8:7", uint8(0), "uint8:7"),
	one("u16:5", uint16(0), "uint16:5"),
	one("u16:12", uint16(0), "uint16:12"),
	one("u32:20", uint32(0), "uint32:20"),
	one("u64:33", uint64(0), "uint64:33"),
	one("i16:5", int16(0), "int16:5"),
	one("i32:17", int32(0), "int32:17"),
	one("i64:40", int64(0), "int64:40"),
	one("uint:9", uint(0), "uint32:9"),
	one("bool:1", false, "uint8:1"),
	one("u16:12be", uint16(0), "uint16:12,big"),
	one("u32:20le", uint32(0), "uint32:20,little"),
}

var orderAtoms = []Atom{
	one("u16-big", uint16(0), "big"),
	one("u32-little", uint32(0), "little"),
	one("struct-big", innerOrder{}, "big"),
	one("struct-little", innerOrder{}, "little"),
	one("arr-msb", [2]uint16{}, "msb"),
	one("ptr-lsb", (*uint32)(nil), "lsb"),
}

var skipAtoms = []Atom{
	one("u8-skip1", uint8(0), "skip=1"),
	one("u32-skip3", uint32(0), "skip=3"),
	one("arr-skip2", [2]uint16{}, "skip=2"),
	one("struct-skip1", inner{}, "skip=1"),
	one("ptr-skip1", (*uint16)(nil), "skip=1"),
	one("str-skip1", "", "[3]byte,skip=1"),
	one("bits-skip1", uint16(0), "uint16:4,skip=1"),
	many("slice-skip2", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []uint16{}, "skip=2")),
	many("bytes-skip2", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []byte{}, "skip=2")),
	one("arr-of-skips", [2]innerSkip{}, ""),
}

var padAtoms = []Atom{
	many("pad8", fs("_", uint8(0), "")),
	many("pad24", fs("_", [3]uint8{}, "")),
	many("pad3bits", fs("_", uint8(0), "uint8:3")),
	many("pad12bits", fs("_", uint16(0), "uint16:12")),
	many("padstruct", fs("_", inner{}, "")),
	many("pad-skip", fs("_", uint8(0), "skip=2")),
	many("unexported", fs("u$", uint32(0), "")),
	many("ignored", fs("G$", uint32(0), "-")),
	one("inner-pads", innerPad{}, ""),
}

var stringAtoms = []Atom{
	one("str4", "", "[4]byte"),
	one("namedstr3", namedStr(""), "[3]uint8"),
	many("str-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", "", "")),
	many("str-sizefrom", fs("N$", uint16(0), ""), fs("S$", "", "sizefrom=N$")),
	many("str-as-string", fs("N$", uint8(0), "sizeof=S$"), fs("S$", "", "string")),
	many("str-as-u16", fs("N$", uint8(0), "sizeof=S$"), fs("S$", "", "[]uint16")),
	many("str-size", fs("K$", uint8(0), `struct:"uint8" mc:"0,3"`), fs("S$", "", "size=K$")),
}

var arrayAtoms = []Atom{
	one("arr-u8", [3]uint8{}, ""),
	one("arr-u16", [2]uint16{}, ""),
	one("arr0", [0]uint16{}, ""),
	one("arr2d", [2][2]uint16{}, ""),
	one("arr-struct", [2]inner{}, ""),
	one("arr-bits", [2]innerBits{}, ""),
	one("arr-dyn", [2]innerDyn{}, ""),
	one("arr-if", [2]innerIf{}, ""),
	one("arr-ptr", [2]*uint16{}, ""),
	one("arr-bool", [3]bool{}, ""),
	one("slice-as-arr", []uint16{}, "[2]uint16"),
	one("bytes-as-arr", []byte{}, "[4]byte"),
	one("arr-as-slice", [3]uint16{}, "[]uint16"),
	one("namedArr", namedArr{}, ""),
	one("arr-f32", [2]float32{}, ""),
	one("arr-i16", [2]int16{}, ""),
	one("arr-i64", [2]int64{}, "big"),
	one("arr-i32-2d", [2][2]int32{}, ""),
	one("arr-int-as-i8", [3]int{}, "[3]int8"),
	one("arr-named", [2]namedI32{}, ""),
	one("arr-f64", [2]float64{}, "little"),
	one("arr-c64", [2]complex64{}, ""),
}

var sliceAtoms = []Atom{
	many("bytes-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []byte{}, "")),
	many("u16s-sizefrom", fs("N$", uint16(0), ""), fs("S$", []uint16{}, "sizefrom=N$")),
	many("structs-sizeof", fs("N$", int8(0), "sizeof=S$"), fs("S$", []inner{}, "")),
	many("bitstructs-sizeof", fs("N$", uint8(0), "uint8:4,sizeof=S$"), fs("S$", []innerBits{}, "")),
	many("dyn-sizeof", fs("N$", uint32(0), "sizeof=S$"), fs("S$", []innerDyn{}, "")),
	many("if-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []innerIf{}, "")),
	many("ptrs-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []*inner{}, "")),
	many("slices-as", fs("N$", int(0), "int16,sizeof=S$"), fs("S$", []int{}, "[]int32")),
	many("bools-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []bool{}, "")),
	many("named-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", namedSl{}, "")),
	many("size-expr", fs("K$", uint8(0), `struct:"uint8" mc:"0,2"`), fs("S$", []uint16{}, "size=K$ + 1")),
	many("bytes-size", fs("K$", uint8(0), `struct:"uint8" mc:"0,2"`), fs("S$", []byte{}, "size=K$")),
	many("arrs-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", [][2]uint16{}, "")),
	many("i64s-sizeof", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []int64{}, "big")),
	many("f64s-sizefrom", fs("N$", uint8(0), ""), fs("S$", []float64{}, "sizefrom=N$")),
	many("i8s-as-bytes", fs("N$", uint8(0), "sizeof=S$"), fs("S$", []int8{}, "")),
}

var pointerAtoms = []Atom{
	one("ptr-u16", (*uint16)(nil), ""),
	one("ptr-struct", (*inner)(nil), ""),
	one("ptr-arr", (*[2]uint16)(nil), ""),
	one("ptr-bits", (*innerBits)(nil), ""),
	one("ptr-dyn", (*innerDyn)(nil), ""),
}

var structAtoms = []Atom{
	one("struct", inner{}, ""),
	one("struct-bits", innerBits{}, ""),
	one("struct-dyn", innerDyn{}, ""),
	one("struct-if", innerIf{}, ""),
	one("empty", struct{}{}, ""),
}

var boolAtoms = []Atom{
	one("vbool", false, "variantbool"),
	one("vbool-u16", false, "uint16,variantbool"),
	one("ibool", false, "invertedbool"),
	one("ivbool-i32", false, "int32,variantbool,invertedbool"),
	one("ivbool:5", false, "uint8:5,variantbool,invertedbool"),
	one("arr-vbool", [2]bool{}, "variantbool"),
	one("namedBool", namedBool(false), "uint16"),
}

type switchBody struct {
	A uint8     `struct:"case=1"`
	B inner     `struct:"case=2"`
	C *innerDyn `struct:"case=3"`
	D uint32    `struct:"default"`
}

type switchBody2 struct {
	A uint8  `struct:"case=1"`
	B uint16 `struct:"case=2"`
}

var exprAtoms = []Atom{
	many("if", fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), fs("F$", uint16(0), "if=K$ == 1")),
	many("if-arr", fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), fs("F$", [2]uint16{}, "if=K$ == 1")),
	many("if-struct-skip", fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), fs("F$", inner{}, "skip=1,if=K$ != 0")),
	many("if-bits", fs("K$", uint8(0), `struct:"uint8:2" mc:"0,1"`), fs("F$", uint16(0), "uint16:6,if=K$ == 1")),
	many("bits-expr", fs("K$", uint8(0), `struct:"uint8" mc:"3,8,13"`), fs("F$", uint16(0), "bits=K$")),
	many("switch", fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3,4"`), fs("F$", switchBody{}, "switch=K$")),
	many("switch-nodef", fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3"`), fs("F$", switchBody2{}, "switch=K$")),
	many("inout", fs("F$", uint8(0), "out=F$ + 1,in=F$ - 1")),
}

type parentOuter struct {
	K   uint8 `mc:"0,2"`
	Sub parentInner
	L   uint8 `struct:"sizeof=S"`
	S   []parentInner
}

type parentInner struct {
	P *parentOuter `struct:"parent"`
	A uint8        `struct:"if=P.K != 0"`
	B []byte       `struct:"size=P.K + 1"`
}

var parentAtoms = []Atom{
	one("parent", parentOuter{}, ""),
	one("parents", [2]parentOuter{}, ""),
	one("ptr-parent", (*parentOuter)(nil), ""),
}

var lastAtoms = []Atom{
	{Name: "while-u16", Last: true, Fields: []fieldSpec{fs("S$", []uint16{}, "while=!_eof")}},
	{Name: "while-struct", Last: true, Fields: []fieldSpec{fs("S$", []innerDyn{}, "while=!_eof")}},
}

func join(lists ...[]Atom) (out []Atom) {
	for _, l := range lists {
		out = append(out, l...)
	}
	return
}

var catalog = join(scalars, casts, bitAtoms, orderAtoms, skipAtoms, padAtoms, stringAtoms, arrayAtoms, sliceAtoms, pointerAtoms, structAtoms, boolAtoms, exprAtoms, parentAtoms)

// core is a small selection with one of everything, for the deep products.
var core = pickAtoms("u8", "u16", "i32", "f64", "u8:3", "u16:12", "u32:20le", "struct-big", "u32-skip3", "bits-skip1", "pad3bits", "pad24", "unexported", "str4", "str-sizeof",
	"arr-u16", "arr-bits", "bytes-sizeof", "structs-sizeof", "ptr-struct", "struct-if", "ivbool:5", "if-bits", "bits-expr", "switch", "size-expr", "inout")

func pickAtoms(names ...string) (out []Atom) {
	for _, n := range names {
		found := false
		for _, a := range catalog {
			if a.Name == n {
				out = append(out, a)
				found = true
			}
		}
		if !found {
			panic("no atom " + n)
		}
	}
	return
}

// chooseAtoms explores all sequences of n atoms.
func chooseAtoms(c *mc.Ctx, from []Atom, n int) []Atom {
	out := make([]Atom, n)
	for i := range out {
		out[i] = from[c.Choose(len(from))]
	}
	return out
}

var typeMemo = map[string]reflect.Type{}

// typeOf builds the struct of some atoms, remembering the last few.
func typeOf(atoms []Atom) reflect.Type {
	var b []byte
	for _, a := range atoms {
		for _, f := range a.Fields {
			b = append(b, f.Name...)
			b = strconv.AppendUint(append(b, 0), uint64(reflect.ValueOf(f.Type).Pointer()), 36)
			b = append(append(append(b, 0), f.Tag...), 0)
		}
		b = append(b, 1)
	}
	key := string(b)
	if t, ok := typeMemo[key]; ok {
		return t
	}
	if len(typeMemo) > 64 {
		typeMemo = map[string]reflect.Type{}
	}
	t := StructOf(atoms...)
	typeMemo[key] = t
	return t
}

// wrapper nests a type in another.
type wrapper struct {
	Name string
	Wrap func(t reflect.Type) []fieldSpec
}

var wrappers = []wrapper{
	{"struct", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", t, ""}} }},
	{"struct,big", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", t, st("big")}} }},
	{"struct,little", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", t, st("little")}} }},
	{"struct,skip=1", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", t, st("skip=1")}} }},
	{"array", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", reflect.ArrayOf(2, t), ""}} }},
	{"slice", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("M$", uint8(0), "sizeof=W$"), {"W$", reflect.SliceOf(t), ""}}
	}},
	{"pointer", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", reflect.PtrTo(t), ""}} }},
	{"if", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), {"W$", t, st("if=K$ == 1")}}
	}},
	{"switch", func(t reflect.Type) []fieldSpec {
		body := reflect.StructOf([]reflect.StructField{
			{Name: "C1", Type: rt(uint16(0)), Tag: `struct:"case=1"`},
			{Name: "C2", Type: t, Tag: `struct:"case=2"`},
			{Name: "C3", Type: reflect.PtrTo(t), Tag: `struct:"default"`},
		})
		return []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3"`), {"W$", body, st("switch=K$")}}
	}},
	{"slice-of-ptr", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("M$", uint8(0), "sizeof=W$"), {"W$", reflect.SliceOf(reflect.PtrTo(t)), ""}}
	}},
}

func (w wrapper) atom(t reflect.Type, inner string) Atom {
	return Atom{Name: w.Name + "(" + inner + ")", Fields: w.Wrap(t)}
}

// misalign is a bit field that moves what follows to a bit offset.
func misalign(n int) Atom {
	if n == 0 {
		return Atom{Name: "at0"}
	}
	return one("at"+string(rune('0'+n)), uint8(0), "uint8:"+string(rune('0'+n)))
}

var sentinel = one("sentinel", uint8(0), "")

func names(atoms []Atom) string {
	var s []string
	for _, a := range atoms {
		s = append(s, a.Name)
	}
	return strings.Join(s, " ")
}

// valueSpace explores the values of a type under a set of patterns and
// lengths in all given orders.
func valueSpace(c *mc.Ctx, t reflect.Type, ords []Order, patterns int, lens []int, flags int) {
	o := ords[c.Choose(len(ords))]
	p := patternAt(c.Choose(patterns))
	v := Fill(c, t, p, lens)
	check(c, &Case{T: t, V: v, O: o, Flags: flags})
}

// sequences is the space of all structs of n atoms with a sentinel behind.
func sequences(name string, from []Atom, n int, ords []Order, patterns int, lens []int, flags int, last []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: boundsOf(from, n, ords, patterns, lens),
		Run: func(c *mc.Ctx) {
			atoms := chooseAtoms(c, from, n)
			if len(last) > 0 {
				atoms = append(atoms, last[c.Choose(len(last))])
			}
			c.Mine()
			if len(last) == 0 {
				atoms = append(atoms, sentinel)
			}
			valueSpace(c, typeOf(atoms), ords, patterns, lens, flags)
		},
	}
}

func boundsOf(from []Atom, n int, ords []Order, patterns int, lens []int) string {
	return "all sequences of " + itoa(n) + " of " + itoa(len(from)) + " field kinds, " + itoa(len(ords)) + " byte orders, " + itoa(patterns) + " value patterns, lengths " + fmtInts(lens) + ", every listed control value"
}

// offsets is the space of all atoms at all bit offsets.
func offsets(name string, from []Atom, ords []Order, patterns int, lens []int, flags int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: itoa(len(from)) + " field kinds at 8 bit offsets, followed by a sentinel, " + itoa(len(ords)) + " byte orders, " + itoa(patterns) + " value patterns",
		Run: func(c *mc.Ctx) {
			a := from[c.Choose(len(from))]
			k := c.Choose(8)
			c.Mine()
			valueSpace(c, typeOf([]Atom{misalign(k), a, sentinel}), ords, patterns, lens, flags)
		},
	}
}

// nestings is the space of all atoms inside of wrappers, to a depth.
func nestings(name string, from []Atom, depth int, ords []Order, patterns int, lens []int, flags int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: itoa(len(from)) + " field kinds in all nestings of depth " + itoa(depth) + " of " + itoa(len(wrappers)) + " wrappers",
		Run: func(c *mc.Ctx) {
			a := from[c.Choose(len(from))]
			var ws []int
			key := a.Name
			for i := 0; i < depth; i++ {
				w := c.Choose(len(wrappers))
				ws = append(ws, w)
				key += "<" + wrappers[w].Name
			}
			c.Mine()
			t, ok := nestMemo[key]
			if !ok {
				if len(nestMemo) > 64 {
					nestMemo = map[string]reflect.Type{}
				}
				t = StructOf(a, sentinel)
				for _, w := range ws {
					t = StructOf(wrappers[w].atom(t, key), sentinel)
				}
				nestMemo[key] = t
			}
			valueSpace(c, t, ords, patterns, lens, flags)
		},
	}
}

var nestMemo = map[string]reflect.Type{}

var _ = ref.Big
