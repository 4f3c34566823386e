package suites

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C08: skips, padding and fields that are not encoded.
func propC08() *mc.Property {
	return &mc.Property{ID: "C08", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Padding has a fixed size: _ fields are of scalar, array and struct types without counted parts.", "Custom types start on byte boundaries."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				skipKinds("skips before all kinds"),
				skipElements("skips inside of elements"),
				hugeSkips("skips of any length"),
				padKinds("padding of all types"),
				padWidths("padding of all widths"),
				sequences("padding among fields", padMix, 3, orders, 1, []int{1}, skipFlags, nil),
				hidden("fields that are not encoded"),
				hiddenNamed("declared types with hidden fields"),
				hiddenEmbedded("declared types that embed others"),
				hiddenMembers("expressions on structs with hidden fields"),
				hiddenParents("references to structs with hidden fields"),
				nestings("skips and padding nested", join(skipAtoms, padAtoms, padMix), 2, orders, 1, []int{2}, skipFlags),
				longStructs("long structs", skipFlags&^fTrunc, "plain", "sizeof", "switch"),
				deep(sequences("padding among more fields", padMix, 4, orders, 1, []int{1}, skipFlags, nil)),
				deep(skipPairs("pairs of skips")),
			}
		}}
}

const skipFlags = fPack | fSizes | fUnpack | fRoundTrip | fDirty | fTrunc

var padMix = join(skipAtoms[:8], padAtoms, pickAtoms("u8", "u16:5", "u8:3", "u32", "str-sizeof", "bool:1", "arr-bits", "u16:12be"), []Atom{
	many("pad1bit", fs("_", uint8(0), "uint8:1")),
	many("pad7bits", fs("_", uint8(0), "uint8:7")),
	many("pad-u16", fs("_", uint16(0), "")),
	many("pad-bitstruct", fs("_", innerBits{}, "")),
	many("pad-empty", fs("_", struct{}{}, "")),
	many("pad-cast", fs("_", uint8(0), "uint32")),
	many("pad-if", fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), fs("_", uint16(0), "if=K$ == 1")),
})

// withSkip adds a skip to the last field of an atom.
func withSkip(a Atom, n int) (Atom, bool) {
	f := append([]fieldSpec{}, a.Fields...)
	l := &f[len(f)-1]
	tag := rawTag(l.Tag)
	if strings.Contains(tag, "skip=") || tag == "-" || l.Name[0] >= 'a' && l.Name[0] <= 'z' {
		return a, false
	}
	if n > 0 {
		l.Tag = st(joinTag(tag, "skip="+itoa(n))) + mcPart(l.Tag)
	}
	return Atom{Name: fmt.Sprintf("%s+%d", a.Name, n), Fields: f}, true
}

var skipCounts = []int{0, 1, 2, 3, 7, 8, 255, 256}

// skipKinds is the space of skips before all kinds of fields.
func skipKinds(name string) mc.Space {
	from := join(catalog, customAtoms)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds with skip=N for N in %s, at bit offsets 0, 1, 4 and 7, 2 byte orders", len(from), fmtInts(skipCounts)),
		Run: func(c *mc.Ctx) {
			i := c.Choose(len(from))
			n := c.Choose(len(skipCounts))
			a, ok := withSkip(from[i], skipCounts[n])
			if !ok {
				c.Prune()
			}
			off := 0
			if i < len(catalog) {
				off = []int{0, 1, 4, 7}[c.Choose(4)]
			}
			c.Mine()
			t := typeOf([]Atom{misalign(off), a, sentinel})
			flags := skipFlags
			if n >= 6 {
				flags &^= fTrunc
			}
			valueSpace(c, t, orders, 2, []int{0, 2}, flags)
		},
	}
}

// hugeSkips is the space of skips up to sizes that no small integer holds.
func hugeSkips(name string) mc.Space {
	counts := []int{9, 10, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8191, 8192, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072, 262143}
	spell := []string{"%d", "%#x", "0x%X"}
	kinds := pickAtoms("u8", "u32", "u16:12", "struct-big", "arr-u16", "bytes-sizeof", "str4", "ptr-struct", "switch", "pad24")
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds with skips of %d lengths from 9 to 262143, in decimal and hexadecimal", len(kinds), len(counts)),
		Run: func(c *mc.Ctx) {
			a, ok := withSkip(kinds[c.Choose(len(kinds))], 0)
			n := counts[c.Choose(len(counts))]
			if !ok || n > 70000 && a.Name != "u8+0" && a.Name != "u16:12+0" {
				c.Prune()
			}
			sp := spell[c.Choose(len(spell))]
			c.Mine()
			f := append([]fieldSpec{}, a.Fields...)
			l := &f[len(f)-1]
			l.Tag = st(joinTag(rawTag(l.Tag), "skip="+fmt.Sprintf(sp, n))) + mcPart(l.Tag)
			t := StructOf(one("first", uint8(0), ""), Atom{Fields: f}, sentinel)
			v := FillSimple(t, 1, 1)
			check(c, &Case{T: t, V: v, O: orders[0], Flags: fPack | fSizes | fUnpack | fRoundTrip})
			// One byte less than needed.
			if data, err := pack(c, &Case{T: t, V: v, O: orders[0]}, "", orders[0].O, v.Addr().Interface()); err == nil {
				checkDecode(c, &Case{T: t, V: v, O: orders[0]}, data[:len(data)-1])
				checkDecode(c, &Case{T: t, V: v, O: orders[0]}, data[:len(data)/2])
			}
		},
	}
}

// skipPairs is the space of two fields with skips behind each other.
func skipPairs(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all pairs of %d field kinds with skips of 1 and 2 bytes, 2 bit offsets", len(core)),
		Run: func(c *mc.Ctx) {
			a, ok := withSkip(core[c.Choose(len(core))], 1)
			b, ok2 := withSkip(core[c.Choose(len(core))], 2)
			if !ok || !ok2 {
				c.Prune()
			}
			off := 3 * c.Choose(2)
			c.Mine()
			t := typeOf([]Atom{misalign(off), a, b, sentinel})
			valueSpace(c, t, orders, 2, []int{0, 2}, skipFlags)
		},
	}
}

// skipElements is the space of skips inside of the elements of arrays, slices
// and pointers, and before them.
func skipElements(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds with skip=1 or 2 inside of the elements of arrays, slices and pointers with skip=0, 1 or 3, 2 bit offsets", len(catalog)),
		Run: func(c *mc.Ctx) {
			a, ok := withSkip(catalog[c.Choose(len(catalog))], 1+c.Choose(2))
			if !ok {
				c.Prune()
			}
			outer := []int{0, 1, 3}[c.Choose(3)]
			kind := c.Choose(4)
			c.Mine()
			e := StructOf(a)
			var w Atom
			switch kind {
			case 0:
				w = Atom{Name: "arr", Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, e), ""}}}
			case 1:
				w = Atom{Name: "slice", Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(e), ""}}}
			case 2:
				w = Atom{Name: "ptr", Fields: []fieldSpec{{"F$", reflect.PtrTo(e), ""}}}
			case 3:
				w = Atom{Name: "ptrs", Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, reflect.PtrTo(e)), ""}}}
			}
			w, _ = withSkip(w, outer)
			t := StructOf(misalign(5*c.Choose(2)), w, sentinel)
			valueSpace(c, t, orders, 1, []int{0, 2}, fPack|fSizes|fUnpack|fRoundTrip)
		},
	}
}

// padKinds is the space of padding of all types with a fixed size.
func padKinds(name string) mc.Space {
	var from []fieldSpec
	for _, a := range join(scalars, casts, bitAtoms, orderAtoms, arrayAtoms, structAtoms, boolAtoms, skipAtoms) {
		if len(a.Fields) != 1 {
			continue
		}
		f := a.Fields[0]
		f.Name = "_"
		if padStatic(f) {
			from = append(from, f)
		}
	}
	for _, f := range []fieldSpec{
		fs("_", "", "[3]byte"), fs("_", namedSl{}, "[2]uint8"), fs("_", [][]byte{}, "[2][3]byte"), fs("_", [2]string{}, "[2][3]byte"), fs("_", [2]string{}, "[3][2]byte"),
		fs("_", []inner{}, "[2]uint8"), fs("_", []bool{}, "[2]uint16"), fs("_", []byte{}, "[0]byte"), fs("_", []byte{}, "[3]uint16,little,skip=1"),
		{"_", StructOf(one("X", []byte{}, "[2]byte"), one("Y", "", "[3]uint8"), one("Z", []bool{}, "[1]uint16")), ""},
	} {
		if padStatic(f) {
			from = append(from, f)
		}
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("padding of %d types, at 8 bit offsets, one or two in a row, with skip=0 or 1", len(from)),
		Run: func(c *mc.Ctx) {
			f := from[c.Choose(len(from))]
			g := from[c.Choose(len(from))]
			two := c.Bool()
			if !two && g != from[0] {
				c.Prune()
			}
			off := c.Choose(8)
			c.Mine()
			list := []Atom{misalign(off), many("pad", f)}
			if two {
				if off%3 != 0 {
					c.Prune()
				}
				list = append(list, many("pad2", g))
			}
			t := StructOf(append(list, sentinel)...)
			valueSpace(c, t, orders[:1], 1, nil, skipFlags)
		},
	}
}

func padStatic(f fieldSpec) bool {
	t := StructOf(many("x", f))
	for _, fd := range ref.Fields(t) {
		if fd.If != "" || fd.Switch != "" {
			return false
		}
		if fd.Bits != 0 {
			continue
		}
		if _, ok := ref.StaticBits(fd.Bin); !ok {
			return false
		}
	}
	return true
}

// padWidths is the space of padding of all widths.
func padWidths(name string) mc.Space {
	kinds := []struct {
		t    reflect.Type
		name string
		max  int
	}{
		{rt(uint8(0)), "uint8", 8}, {rt(uint16(0)), "uint16", 16}, {rt(uint32(0)), "uint32", 32}, {rt(uint64(0)), "uint64", 64}, {rt(int16(0)), "int16", 16}, {rt(int64(0)), "int64", 64}, {rt(false), "uint8", 8},
	}
	return mc.Space{
		Name:   name,
		Bounds: "padding of 7 types with every bit width, at 8 bit offsets, between bit fields, also inside of elements",
		Run: func(c *mc.Ctx) {
			k := kinds[c.Choose(len(kinds))]
			w := 1 + c.Choose(k.max-1)
			off := c.Choose(8)
			c.Mine()
			pad := many("pad", fieldSpec{"_", k.t, st(fmt.Sprintf("%s:%d", k.name, w))})
			var t reflect.Type
			if c.Bool() {
				t = StructOf(misalign(off), pad, one("b", uint8(0), "uint8:5"), sentinel)
			} else {
				e := StructOf(one("a", uint8(0), "uint8:3"), pad)
				t = StructOf(misalign(off), Atom{Name: "arr", Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, e), ""}}}, sentinel)
			}
			valueSpace(c, t, orders, 1, nil, skipFlags)
		},
	}
}

// broken has declarations that would be errors.
type broken struct {
	A int    `struct:"nonsense"`
	B string `struct:"sizeof=Nothing"`
	C int    `struct:"bits=("`
}

// hidden is the space of ignored and unexported fields of all kinds.
func hidden(name string) mc.Space {
	x := 5
	kinds := []interface{}{uint32(0xdeadbeef), "text", []string{"a", "b"}, map[string]int{"k": 1}, make(chan int, 1), func() {}, []interface{}{1, "x"}, &x, &inner{1, 2},
		cErr{13}, &cErr{13}, cPtr{7}, broken{A: 3}, &broken{B: "x"}, [2]inner{{1, 2}, {3, 4}}, uintptr(77), complex(1, 2), int(-3), true, []byte{1, 2, 3}, map[cPtr]chan int{}}
	tags := []string{`struct:"-"`}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("two fields of %d kinds that are ignored or unexported, at 3 places among linked, conditional and bit fields, holding values that must stay", len(kinds)),
		Run: func(c *mc.Ctx) {
			i, j := c.Choose(len(kinds)), c.Choose(len(kinds))
			p, q := c.Choose(4), c.Choose(4)
			c.Mine()
			hide := func(k int, exported bool) Atom {
				n := "u$"
				tag := ""
				if exported {
					n, tag = "G$", tags[0]
				} else if k%3 == 0 {
					tag = st("uint8:3,skip=5")
				}
				return many("hidden", fieldSpec{n, reflect.TypeOf(kinds[k]), tag})
			}
			ex1, ex2 := c.Bool(), c.Bool()
			h1, h2 := hide(i, ex1), hide(j, ex2)
			base := []Atom{many("n", fs("N", uint8(0), "uint8:5,sizeof=S")), many("k", fs("K", uint8(0), `struct:"uint8:3" mc:"0,1"`)), many("s", fs("S", []uint16{}, "")), many("v", fs("V", uint16(0), "if=K == 1"))}
			var list []Atom
			var at []int
			for pos := 0; pos <= len(base); pos++ {
				if pos == p {
					list = append(list, h1)
					at = append(at, len(list)-1)
				}
				if pos == q {
					list = append(list, h2)
					at = append(at, len(list)-1)
				}
				if pos < len(base) {
					list = append(list, base[pos])
				}
			}
			t := StructOf(append(list, sentinel)...)
			v := Fill(c, t, 1, []int{0, 2})
			w := reflect.New(t).Elem()
			for n, idx := range at {
				k := i
				if n == 0 && p > q || n == 1 && p <= q {
					k = j
				}
				if v.Field(idx).CanSet() {
					v.Field(idx).Set(reflect.ValueOf(kinds[k]))
					w.Field(idx).Set(reflect.ValueOf(kinds[k]))
				}
			}
			k := &Case{T: t, V: v, O: orders[c.Choose(2)]}
			c.State(1)
			c.Sample(k.String)
			m := &ref.Model{}
			s, err := m.Encode(v, k.O.E)
			c.Step(m.Steps)
			if err != nil {
				c.Fail("internal: %v\n%s", err, k)
			}
			callLog = nil
			n, bits, err := sizes(c, k, "", v.Addr().Interface())
			if err != nil || bits != len(s.Bit) || n != (len(s.Bit)+7)/8 {
				c.Fail("SizeOf %d, BitSize %d, error %v; the fields occupy %d bits\n%s", n, bits, err, len(s.Bit), k)
			}
			data, err := pack(c, k, "", k.O.O, v.Addr().Interface())
			comparePacked(c, k, "", data, err, s, nil)
			// Into a target that holds hidden values.
			err = unpack(c, k, "", s.Bytes(), k.O.O, w.Addr().Interface())
			compareUnpacked(c, k, "", s.Bytes(), w, err, v, nil)
			if len(callLog) > 0 {
				c.Fail("methods of an ignored value are called: %s\n%s", strings.Join(callLog, "; "), k)
			}
			c.Trace(4)
		},
	}
}

// hiddenState has unexported fields that only this package can set.
type hiddenState struct {
	a uint32
	A uint8 `struct:"sizeof=S"`
	b []int
	c map[string]int `struct:"sizeof=Q"`
	B uint16         `struct:"uint16:4"`
	d *cErr          `struct:"big,skip=3"`
	_ uint8          `struct:"uint8:4"`
	e string         `struct:"nonsense"`
	S []hiddenElem
	f func()
	g hiddenElem
	C uint16 `struct:"if=A == 0"`
	h bool   `struct:"if=A == 0"`
	D uint8
}

type hiddenElem struct {
	x chan int
	X uint8       `struct:"uint8:3"`
	y uint8       `struct:"uint8:7"`
	Y uint8       `struct:"uint8:5"`
	Z *hiddenElem `struct:"-"`
}

func (h *hiddenState) hide(k int) {
	h.a, h.b, h.c, h.d, h.e, h.f = uint32(k+1), []int{k}, map[string]int{"x": k}, &cErr{13}, "hidden", nil
	h.g = hiddenElem{nil, 1, 2, 3, nil}
	h.h = k%2 == 0
}

// hiddenNamed is the space of values of a declared type with hidden fields.
func hiddenNamed(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "a declared type with 8 unexported fields of different kinds, 0 to 3 elements, all values of 2 bits of the others, hidden state set in source and target",
		Run: func(c *mc.Ctx) {
			n := c.Choose(4)
			x, y := c.Choose(4), c.Choose(4)
			c.Mine()
			o := orders[c.Choose(2)]
			var v hiddenState
			v.hide(3)
			v.B = uint16(x*5) & 15
			v.D = uint8(y)
			v.A = uint8(n)
			for i := 0; i < n; i++ {
				v.S = append(v.S, hiddenElem{make(chan int), uint8(x+i) & 7, 9, uint8(y * 7), &hiddenElem{}})
			}
			if n == 0 {
				v.C = 0x1234
			}
			k := &Case{T: rt(v), V: reflect.ValueOf(&v).Elem(), O: o}
			c.State(1)
			m := &ref.Model{}
			mv := v
			s, err := m.Encode(reflect.ValueOf(&mv).Elem(), o.E)
			c.Step(m.Steps)
			if err != nil {
				c.Fail("internal: %v", err)
			}
			callLog = nil
			data, err := pack(c, k, "", o.O, &v)
			comparePacked(c, k, "", data, err, s, nil)
			if d := ref.Equal(reflect.ValueOf(v), reflect.ValueOf(mv)); d != nil {
				c.Fail("Pack changes the value: %v\n%s", d, k)
			}
			var w hiddenState
			w.hide(6)
			w.S = []hiddenElem{{nil, 1, 2, 3, nil}}
			w.C = 0x7777
			want := w
			want.A, want.B, want.D = v.A, v.B, v.D
			if n == 0 {
				want.C = v.C
			}
			want.S = nil
			for _, e := range v.S {
				want.S = append(want.S, hiddenElem{X: e.X, Y: e.Y & 31})
			}
			err = unpack(c, k, "", data, o.O, &w)
			compareUnpacked(c, k, "", data, reflect.ValueOf(w), err, reflect.ValueOf(want), nil)
			if len(callLog) > 0 {
				c.Fail("methods of an unexported value are called: %s", strings.Join(callLog, "; "))
			}
			c.Trace(2)
		},
	}
}

// Embedded fields are fields with the name of their type: if that is exported,
// they are encoded, otherwise not, and what is promoted makes no difference.
type (
	hidInner struct {
		X uint8
		Y uint16
	}
	hidInt   uint32
	hidBytes []byte
	hidFunc  func()

	EmbInner struct {
		P uint8 `struct:"uint8:3"`
		Q uint16
		r uint32
		S uint8 `struct:"uint8:5"`
	}
	EmbInt  uint16
	EmbList []uint16
	EmbPtr  struct{ V uint32 }

	embHidden struct {
		A uint8
		hidInner
		B uint16
	}
	embHiddenPtr struct {
		A uint8
		*hidInner
		B uint16
	}
	embHiddenFirst struct {
		hidInner
		B uint16
	}
	embHiddenLast struct {
		A uint8
		hidInner
	}
	embHiddenOnly struct{ hidInner }
	embHiddenKind struct {
		A uint8
		hidInt
		hidBytes
		hidFunc
		B uint8
	}
	embHiddenTag struct {
		A        uint8
		hidInner `struct:"skip=2,big"`
		hidInt   `struct:"uint32:7"`
		B        uint8
	}
	embHiddenLink struct {
		N        uint8 `struct:"sizeof=S"`
		hidInner `struct:"sizeof=S"`
		S        []uint16
		K        uint8 `struct:"uint8:3" mc:"0,1"`
		hidInt
		V uint16 `struct:"if=K == 1"`
		W uint8  `struct:"uint8:5"`
	}
	embHiddenSame struct {
		X uint8
		hidInner
		Y uint8
	}
	embShown struct {
		A uint8
		EmbInner
		B uint16
	}
	embShownPtr struct {
		A uint8
		*EmbPtr
		B uint16
	}
	embShownKind struct {
		EmbInt
		EmbList `struct:"[2]uint16"`
		B       uint8
	}
	embShownTag struct {
		A        uint8 `struct:"uint8:4"`
		EmbInner `struct:"little"`
		EmbInt   `struct:"uint16:12"`
		EmbPtr   `struct:"skip=1"`
	}
	embShownIgnored struct {
		A        uint8
		EmbInner `struct:"-"`
		*EmbPtr  `struct:"-"`
		B        uint8
	}
	embShownLink struct {
		EmbInt `struct:"sizeof=EmbList"`
		EmbList
		B uint8
	}
	embShownIf struct {
		EmbInt   `mc:"0,1"`
		EmbInner `struct:"if=EmbInt == 1"`
		B        uint8 `struct:"if=Q == 0"`
	}
	EmbDeep struct {
		A uint8
		hidInner
		EmbInner
	}
	embDeep struct {
		EmbDeep
		hidInt
		*EmbPtr
		B uint8
	}
)

func (h *hidInner) hide(k int) { h.X, h.Y = uint8(k+1), uint16(k*300+7) }

// embedded returns a value of each of the types, with contents where it is not
// encoded.
func embedded(k int) []interface{} {
	var in hidInner
	in.hide(k)
	u8, u16 := uint8(k*37+1), uint16(k*777+2)
	em := EmbInner{uint8(k) & 7, u16, 99, uint8(k*3) & 31}
	f := hidFunc(func() {})
	list := EmbList{}
	for i := 0; i < k%3; i++ {
		list = append(list, u16+uint16(i))
	}
	two := EmbList{u16, 5}
	link := embHiddenLink{uint8(len(list)), in, list, uint8(k % 2), 8, 0, uint8(k) & 31}
	if k%2 == 1 {
		link.V = u16
	}
	iff := embShownIf{EmbInt: EmbInt(k % 2)}
	if k%2 == 1 {
		iff.EmbInner = em
		iff.Q = uint16(k/2) % 2
	}
	if iff.Q == 0 {
		iff.B = u8
	}
	iff.r = 12
	return []interface{}{
		embHidden{u8, in, u16}, embHiddenPtr{u8, &in, u16}, embHiddenPtr{u8, nil, u16}, embHiddenFirst{in, u16}, embHiddenLast{u8, in}, embHiddenOnly{in},
		embHiddenKind{u8, hidInt(k + 3), hidBytes{1, 2}, f, u8 + 1}, embHiddenTag{u8, in, 5, u8 + 1}, link, embHiddenSame{u8, in, u8 + 2},
		embShown{u8, em, u16}, embShownPtr{u8, &EmbPtr{uint32(u16) * 5}, u16}, embShownKind{EmbInt(u16), two, u8}, embShownTag{u8 & 15, em, EmbInt(u16 & 0xfff), EmbPtr{7}},
		embShownIgnored{u8, em, &EmbPtr{3}, u8 + 1}, embShownLink{EmbInt(len(list)), list, u8}, iff, embDeep{EmbDeep{u8, in, em}, 4, &EmbPtr{9}, u8},
	}
}

// hiddenEmbedded is the space of values of types that embed others.
func hiddenEmbedded(name string) mc.Space {
	n := len(embedded(0))
	places := []string{"alone", "field", "array", "slice", "pointer", "embedded twice"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d types that embed hidden and exported structs, pointers, integers, slices and functions, with and without tags, on 6 places, at 8 bit offsets, 6 values, both orders, contents of what is not encoded set in source and target", n),
		Run: func(c *mc.Ctx) {
			i := c.Choose(n)
			place := c.Choose(len(places))
			c.Mine()
			vals := []reflect.Value{}
			for k := 0; k < 8; k++ {
				vals = append(vals, reflect.ValueOf(embedded(k)[i]))
			}
			et := vals[0].Type()
			var fields []fieldSpec
			switch places[place] {
			case "field":
				fields = []fieldSpec{{"F$", et, ""}}
			case "array":
				fields = []fieldSpec{{"F$", reflect.ArrayOf(2, et), ""}}
			case "slice":
				fields = []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(et), ""}}
			case "pointer":
				fields = []fieldSpec{{"F$", reflect.PtrTo(et), ""}}
			case "embedded twice":
				fields = []fieldSpec{{"F$", et, st("big")}, {"G$", et, ""}}
			}
			off, t := 0, et
			if fields != nil {
				off = c.Choose(8)
				t = typeOf([]Atom{misalign(off), {Name: "emb", Fields: fields}, sentinel})
			}
			k := c.Choose(6)
			o := orders[c.Choose(2)]
			fill := func(k int) reflect.Value {
				v := reflect.New(t).Elem()
				if fields == nil {
					v.Set(vals[k])
					return v
				}
				for j, nth := 0, k; j < v.NumField(); j++ {
					switch f := v.Field(j); {
					case f.Type() == et:
						f.Set(vals[nth])
						nth++
					case f.Kind() == reflect.Slice:
						f.Set(reflect.Append(f, vals[k], vals[k+1]))
						v.Field(j - 1).SetUint(2)
					case f.Kind() == reflect.Array:
						f.Index(0).Set(vals[k])
						f.Index(1).Set(vals[k+1])
					case f.Kind() == reflect.Ptr:
						f.Set(reflect.New(et))
						f.Elem().Set(vals[k])
					case j == v.NumField()-1:
						f.SetUint(0x5a)
					}
				}
				return v
			}
			cs := &Case{T: t, V: fill(k), O: o, Flags: skipFlags | fByValue}
			check(c, cs)
			m := &ref.Model{}
			s, err := m.Encode(deepCopy(cs.V), o.E)
			if err != nil {
				c.Fail("internal: %v\n%s", err, cs)
			}
			w := fill((k + 3) % 7)
			want := deepCopy(w)
			if _, err := m.Decode(s.Bytes(), want, o.E); err != nil {
				c.Fail("internal: %v\n%s", err, cs)
			}
			err = unpack(c, cs, "into a value with hidden contents", s.Bytes(), o.O, w.Addr().Interface())
			compareUnpacked(c, cs, "into a value with hidden contents", s.Bytes(), w, err, want, nil)
			c.Trace(1)
		},
	}
}

// hiddenMembers is the space of expressions that use a member of a struct that
// has other members that expressions cannot represent.
func hiddenMembers(name string) mc.Space {
	kinds := []interface{}{
		new(interface{}), new(error), new(chan int), new(<-chan error), new(unsafe.Pointer), new([]interface{}), new(map[string]interface{}), new(map[interface{}]int), new(func(interface{}) int), new(func(int) error),
		new(*interface{}), new([2]chan int), new(complex64), new(complex128), new([]complex128), new(struct{ X interface{} }), new(*struct{ X chan int }), new([]struct{ x error }), new(endlessHidden), new(*endlessHidden),
		new(int), new(string), new(map[string]int), new(func(int) int), new(sync.Mutex), new(time.Time), new(reflect.Value), new(reflect.Type), new(binary.ByteOrder), new(bytes.Buffer), new(uintptr), new([]byte),
	}
	uses := []fieldSpec{
		fs("F", uint16(0), "if=I.K == 1"), fs("F", []uint8{}, "size=I.K"), fs("F", uint16(0), "bits=I.K + 3"), fs("F", switchBody{}, "switch=I.K"),
		fs("F", uint8(0), "out=F + I.K,in=F - I.K"), fs("F", uint16(0), "if=I.J.K == 2 || I.K < 1"), fs("F", []uint8{}, "size=I.A[I.K & 1].K"), fs("F", uint16(0), "if=I.P != nil && I.P.K == 1"),
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions on members of a struct (behind a pointer or not) that has a hidden field of %d kinds at 3 places, unexported or ignored, holding a value or nothing; in members of members as well", len(uses), len(kinds)),
		Run: func(c *mc.Ctx) {
			kt := reflect.TypeOf(kinds[c.Choose(len(kinds))]).Elem()
			u := uses[c.Choose(len(uses))]
			at := c.Choose(3)
			h := fieldSpec{"h", kt, ""}
			if c.Bool() {
				h = fieldSpec{"H", kt, `struct:"-"`}
			}
			ptr := c.Bool()
			c.Mine()
			sub := StructOf(Atom{Fields: insertFields([]fieldSpec{fs("K", uint8(0), mcTag("", "0,1,2"))}, at/2, h)})
			in := []fieldSpec{fs("K", uint8(0), mcTag("", "0,1,2")), {"J", sub, ""}, {"A", reflect.ArrayOf(2, sub), ""}, {"P", reflect.PtrTo(sub), ""}}
			it := StructOf(Atom{Fields: insertFields(in, 2*at, h)})
			if ptr {
				it = reflect.PtrTo(it)
			}
			t := StructOf(Atom{Fields: []fieldSpec{{"I", it, ""}, u}}, sentinel)
			for p := 0; p < 3; p++ {
				v := FillSimple(t, p, 0)
				check(c, &Case{T: t, V: v, O: orders[p%2], Flags: fPack | fSizes | fUnpack | fRoundTrip | fByValue})
			}
		},
	}
}

// endlessHidden is a recursive type of which a part cannot be represented.
type endlessHidden struct {
	L []endlessHidden
	N *endlessHidden
	x interface{}
	X error `struct:"-"`
}

// Structs with hidden fields that parts of them refer to.
type hpTop struct {
	log  error
	K    uint8       `mc:"0,1,2"`
	Ctx  interface{} `struct:"-"`
	C    hpChild
	done chan struct{}
	Cs   [2]hpChild
	More func(error) interface{} `struct:"-"`
	E    uint8
}

type hpChild struct {
	P   *hpTop `struct:"parent"`
	any map[string]interface{}
	V   uint16  `struct:"if=P.K == 1"`
	W   []uint8 `struct:"size=P.K"`
	Sub hpSub
	Any []interface{} `struct:"-"`
}

type hpSub struct {
	R *hpTop   `struct:"root"`
	P *hpChild `struct:"parent"`
	N uint8    `struct:"if=R.K + 0 == P.P.K && P.P.K == 2"`
	B uint16   `struct:"bits=R.K * 3 + 2"`
	X chan int `struct:"-"`
}

// hiddenParents is the space of references to them.
func hiddenParents(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "a declared type with unexported and ignored fields of interface, channel, function and map types on three levels, expressions on references to all of them, all values of the field they use, 4 patterns, 2 byte orders, hidden fields empty or not",
		Run: func(c *mc.Ctx) {
			p := c.Choose(4)
			o := orders[c.Choose(2)]
			full := c.Bool()
			c.Mine()
			for k := 0; k < 3; k++ {
				top := hpTop{K: uint8(k), E: uint8(p * 77)}
				fill := func(h *hpChild, n int) {
					if k == 1 {
						h.V = uint16(n * 0x1111)
					}
					for i := 0; i < k; i++ {
						h.W = append(h.W, uint8(n+i))
					}
					if k == 2 {
						h.Sub.N = uint8(n * 5)
					}
					h.Sub.B = uint16(n) & (1<<uint(k*3+2) - 1)
					if full {
						h.any, h.Any, h.Sub.X = map[string]interface{}{"x": 1}, []interface{}{nil, "y"}, make(chan int)
					}
				}
				fill(&top.C, p+1)
				fill(&top.Cs[0], p+2)
				fill(&top.Cs[1], p+3)
				if full {
					top.log, top.Ctx, top.done = errCustom, 5, make(chan struct{})
				}
				cs := &Case{T: rt(top), V: reflect.ValueOf(&top).Elem(), O: o, Flags: fPack | fSizes | fUnpack}
				if !full {
					cs.Flags |= fRoundTrip
				}
				check(c, cs)
			}
		},
	}
}
