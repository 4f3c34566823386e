package suites

import (
	"fmt"
	"reflect"
	"strings"

	"verif/internal/mc"
	"verif/internal/ref"
)

// Spaces at the other end of the scale: many fields, many levels, many
// elements. They are as exhaustive as the others in what they combine; the
// sizes are the numbers around powers of two, where representations end.

var fieldCounts = []int{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}

// manyOf are the kinds of fields of a long struct.
var manyOf = []struct {
	name string
	f    []fieldSpec // repeated
}{
	{"bytes", []fieldSpec{fs("", uint8(0), "")}},
	{"mixed", []fieldSpec{fs("", uint8(0), ""), fs("", uint16(0), ""), fs("", int32(0), "big"), fs("", uint64(0), ""), fs("", uint8(0), "uint8:3")}},
	{"bits", []fieldSpec{fs("", uint16(0), "uint16:11"), fs("", uint8(0), "uint8:1"), fs("", false, "uint8:1")}},
	{"ignored", []fieldSpec{fs("", uint16(0), ""), fs("", uint16(0), "-"), fs("h", uint16(0), ""), fs("_", uint8(0), ""), fs("", uint8(0), "skip=1")}},
	{"structs", []fieldSpec{fs("", inner{}, ""), fs("", (*inner)(nil), ""), fs("", [2]uint8{}, "")}},
}

// manyFields makes n fields of a kind.
func manyFields(k, n int) (out []fieldSpec) {
	list := manyOf[k].f
	for i := 0; i < n; i++ {
		f := list[i%len(list)]
		if f.Name != "_" {
			f.Name = strings.ToUpper(f.Name) + "F" + itoa(i)
			if list[i%len(list)].Name == "h" {
				f.Name = "h" + itoa(i)
			}
		}
		out = append(out, f)
	}
	return
}

func insertFields(f []fieldSpec, at int, x ...fieldSpec) []fieldSpec {
	return append(append(append([]fieldSpec{}, f[:at]...), x...), f[at:]...)
}

// longStructs is the space of structs of many fields.
func longStructs(name string, flags int, what ...string) mc.Space {
	type use struct {
		what    string
		first   fieldSpec
		second  []fieldSpec
		adapted bool
	}
	uses := []use{
		{"plain", fs("A", uint8(0), ""), []fieldSpec{fs("Z", uint16(0), "")}, false},
		{"sizeof", fs("A", uint8(0), "sizeof=Z"), []fieldSpec{fs("Z", []uint16{}, "")}, false},
		{"sizefrom", fs("A", uint16(0), mcTag("", "2")), []fieldSpec{fs("Z", "", "sizefrom=A")}, false},
		{"two links", fs("A", int32(0), "int16,sizeof=Z"), []fieldSpec{fs("Z", []inner{}, ""), fs("N", uint8(0), ""), fs("Y", []uint8{}, "sizefrom=N")}, false},
		{"if", fs("A", uint8(0), mcTag("", "0,1")), []fieldSpec{fs("Z", uint16(0), "if=A == 1")}, false},
		{"size", fs("A", uint8(0), mcTag("", "3")), []fieldSpec{fs("Z", []uint8{}, "size=A")}, false},
		{"bits", fs("A", uint8(0), mcTag("", "5,9")), []fieldSpec{fs("Z", uint16(0), "bits=A")}, false},
		{"switch", fs("A", uint8(0), mcTag("", "1,2,3,4")), []fieldSpec{fs("Z", switchBody{}, "switch=A")}, false},
		{"out", fs("A", uint8(0), ""), []fieldSpec{fs("Z", uint8(0), "out=Z + A,in=Z - A")}, false},
	}
	if len(what) > 0 {
		var some []use
		for _, u := range uses {
			for _, w := range what {
				if u.what == w {
					some = append(some, u)
				}
			}
		}
		uses = some
	}
	return mc.Space{
		Name: name,
		Bounds: fmt.Sprintf("structs of %v fields of %d mixes (bytes, scalars, bit fields, ignored, unexported and padding fields, structs and pointers), %d relations between two fields at all pairs of the first, second, middle and the last three positions, 2 patterns and byte orders",
			fieldCounts, len(manyOf), len(uses)),
		Run: func(c *mc.Ctx) {
			u := uses[c.Choose(len(uses))]
			k := c.Choose(len(manyOf))
			n := fieldCounts[c.Choose(len(fieldCounts))]
			at := []int{0, 1, n / 2, n - 2, n - 1, n}
			i := c.Choose(len(at))
			j := i + c.Choose(len(at)-i)
			c.Mine()
			f := insertFields(manyFields(k, n), at[j], u.second...)
			f = insertFields(f, at[i], u.first)
			t := StructOf(Atom{Fields: f}, sentinel)
			for p := 0; p < 2; p++ {
				check(c, &Case{T: t, V: FillSimple(t, patternAt(p), p), O: orders[p], Flags: flags})
			}
		},
	}
}

// manyCases is the space of switches with many cases.
func manyCases(name string, flags int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("switches of %v cases on integers and strings, members of 3 kinds, no default or one at the front, in the middle or at the end, each of the first, middle and last two cases and none selected, 2 byte orders", fieldCounts),
		Run: func(c *mc.Ctx) {
			n := fieldCounts[c.Choose(len(fieldCounts))]
			str := c.Bool()
			def := c.Choose(4)
			sel := []int{0, 1, n / 2, n - 2, n - 1, n}[c.Choose(6)]
			c.Mine()
			val := func(i int) string {
				if str {
					return fmt.Sprintf("%03d", i)
				}
				return itoa(i)
			}
			var body []reflect.StructField
			add := func(name string, x interface{}, tag string) {
				body = append(body, reflect.StructField{Name: name, Type: rt(x), Tag: reflect.StructTag(tag)})
			}
			for i := 0; i < n; i++ {
				if def == 1 && i == 0 || def == 2 && i == n/2 {
					add("D", uint64(0), st("default"))
				}
				v := val(i)
				if str {
					v = `\"` + v + `\"`
				}
				add("M"+itoa(i), []interface{}{uint8(0), uint16(0), inner{}}[i%3], `struct:"case=`+v+`"`)
			}
			if def == 3 {
				add("D", uint64(0), st("default"))
			}
			key := fs("K", uint16(0), mcTag("", val(sel)))
			if str {
				key = fs("K", "", mcTag("[3]byte", val(sel)))
			}
			t := StructOf(Atom{Fields: []fieldSpec{key, {"V", reflect.StructOf(body), st("switch=K")}}}, sentinel)
			for p := 0; p < 2; p++ {
				check(c, &Case{T: t, V: FillSimple(t, patternAt(p), 0), O: orders[p], Flags: flags})
			}
		},
	}
}

var depths = []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128}

// deepTypes is the space of types of many levels.
func deepTypes(name string, flags int) mc.Space {
	kinds := []string{"struct", "pointer", "array", "counted", "switch", "if", "all of them in turns"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("structs in structs, behind pointers, in arrays, counted slices, switches, conditional fields and all of them in turns, %v levels, one of them (the first, second, middle, last two or none) with another byte order, a field behind each level, an offset of 0 or 3 bits, 2 byte orders", depths),
		Run: func(c *mc.Ctx) {
			kind := c.Choose(len(kinds))
			d := depths[c.Choose(len(depths))]
			at := []int{-1, 0, 1, d / 2, d - 2, d - 1}[c.Choose(6)]
			off := 3 * c.Choose(2)
			c.Mine()
			for oi, o := range orders {
				t := typeOf([]Atom{one("leaf", uint32(0), "")})
				for l := d - 1; l >= 0; l-- {
					k := kind
					if k == 6 {
						k = l % 6
					}
					opt := ""
					if l == at {
						opt = []string{"little", "big"}[(oi+1)%2]
						if o.E == ref.Big {
							opt = "little"
						} else {
							opt = "big"
						}
					}
					var f []fieldSpec
					switch k {
					case 0:
						f = []fieldSpec{{"C", t, st(opt)}}
					case 1:
						f = []fieldSpec{{"C", reflect.PtrTo(t), st(opt)}}
					case 2:
						f = []fieldSpec{{"C", reflect.ArrayOf(1, t), st(opt)}}
					case 3:
						f = []fieldSpec{fs("N", uint8(0), "sizeof=C"), {"C", reflect.SliceOf(t), st(opt) + ` mc:"len=1"`}}
					case 4:
						b := reflect.StructOf([]reflect.StructField{{Name: "X", Type: rt(uint8(0)), Tag: `struct:"case=2"`}, {Name: "Y", Type: t, Tag: `struct:"case=1"`}})
						f = []fieldSpec{fs("K", uint8(0), mcTag("", "1")), {"C", b, st(joinTag(opt, "switch=K"))}}
					case 5:
						f = []fieldSpec{fs("K", uint8(0), mcTag("", "1")), {"C", t, st(joinTag(opt, "if=K == 1"))}}
					}
					a := Atom{Fields: append(f, fs("E", uint16(0), ""))}
					if l == 0 {
						t = StructOf(misalign(off), a)
					} else {
						t = StructOf(a)
					}
				}
				check(c, &Case{T: t, V: FillSimple(t, 1, 0), O: o, Flags: flags})
			}
		},
	}
}

var elementCounts = []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001}

// longLists is the space of arrays, slices and strings of many elements.
func longLists(name string, flags int, long bool, of []interface{}, only ...string) mc.Space {
	counts := elementCounts
	if !long {
		counts = counts[:19]
	}
	elems := []interface{}{uint8(0), int8(0), uint16(0), int32(0), false, namedU8(0), inner{}, innerDyn{}, innerBits{}, (*uint8)(nil), [3]uint8{}, float64(0), ""}
	if of != nil {
		elems = append(append([]interface{}{}, of...), "")
	}
	ways := []string{"sizeof", "sizefrom", "size", "array", "array cast to slice", "while"}
	if len(only) > 0 {
		ways = only
	}
	offsets := "at bit offsets 0 and 5"
	if of != nil {
		offsets = "(up to 257 elements only)"
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("arrays, and slices counted in four ways, of %d kinds of elements (and strings), of %v elements (above 257 elements of the first 4 kinds only), ", len(elems)-1, counts) + offsets,
		Run: func(c *mc.Ctx) {
			e := c.Choose(len(elems))
			n := counts[c.Choose(len(counts))]
			way := c.Choose(len(ways))
			off := 5 * c.Choose(2)
			if of != nil && off != 0 {
				c.Prune()
			}
			c.Mine()
			et := rt(elems[e])
			slice := reflect.SliceOf(et)
			bin := et.Kind().String()
			if e == len(elems)-1 {
				slice, bin = rt(""), "byte"
			}
			if n > 257 && (e > 3 || of != nil) && e != len(elems)-1 || n > 4097 && (ways[way] == "array cast to slice" || off != 0 && e > 0) {
				c.Prune()
			}
			s := fieldSpec{"S", slice, ""}
			count := ` mc:"len=` + itoa(n) + `"`
			var f []fieldSpec
			switch ways[way] {
			case "sizeof":
				s.Tag = st("") + count
				f = []fieldSpec{fs("N", uint32(0), "sizeof=S"), s}
			case "sizefrom":
				s.Tag = st("sizefrom=N") + count
				f = []fieldSpec{fs("N", int(0), mcTag("int64", itoa(n))), s}
			case "size":
				s.Tag = st("size=N * 1") + count
				f = []fieldSpec{fs("N", int64(0), mcTag("", itoa(n))), s}
			case "array":
				if slice.Kind() == reflect.String {
					s.Tag = st("["+itoa(n)+"]byte") + count
				} else {
					s.Type = reflect.ArrayOf(n, et)
				}
				f = []fieldSpec{s}
			case "array cast to slice":
				switch et.Kind() {
				case reflect.Struct, reflect.Ptr, reflect.Array, reflect.String, reflect.Slice, reflect.Map:
					c.Prune()
				}
				s.Tag = st("["+itoa(n)+"]"+bin) + count
				f = []fieldSpec{s}
			case "while":
				if slice.Kind() == reflect.String || off != 0 {
					c.Prune()
				}
				s.Tag = st("while=!_eof") + count
				f = []fieldSpec{s}
			}
			atoms := []Atom{misalign(off), {Fields: f}}
			if ways[way] != "while" {
				atoms = append(atoms, sentinel)
			}
			t := StructOf(atoms...)
			p := n % 2
			check(c, &Case{T: t, V: FillSimple(t, patternAt(p), 0), O: orders[p], Flags: flags})
		},
	}
}

// refChain is a list whose nodes refer to their surroundings.
type refChain struct {
	N    uint8     `struct:"sizeof=Kids"`
	R    *refChain `struct:"root"`
	P    *refChain `struct:"parent"`
	Top  *chainTop `struct:"parent"`
	V    uint8
	Mid  chainMid
	Kids []refChain
	More bool
	Next *refChain `struct:"if=More"`
}

type chainMid struct {
	G *refChain `struct:"parent"`
	T *chainTop `struct:"parent"`
	R *chainTop `struct:"root"`
	A uint16    `struct:"if=T.K == G.V"`
}

type chainTop struct {
	K uint8
	C refChain
}

// chains is the space of deep values with references.
func chains(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("lists of %v nodes in each other, linked by slices, by pointers and by turns, with references to the next, an inner and the outermost struct, 2 byte orders", depths),
		Run: func(c *mc.Ctx) {
			d := depths[c.Choose(len(depths))]
			link := c.Choose(3)
			ends := c.Bool()
			o := orders[c.Choose(2)]
			c.Mine()
			var build func(l int) refChain
			build = func(l int) refChain {
				nd := refChain{V: uint8(l % 3)}
				if nd.V == 1 {
					nd.Mid.A = uint16(0x100 + l)
				}
				if l == d-1 {
					return nd
				}
				next := build(l + 1)
				if link == 0 || link == 2 && l%2 == 0 {
					nd.Kids = []refChain{next}
					if ends {
						nd.Kids = append([]refChain{{V: 7}}, nd.Kids...)
					}
				} else {
					nd.More, nd.Next = true, &next
				}
				nd.N = uint8(len(nd.Kids))
				return nd
			}
			top := chainTop{K: 1, C: build(0)}
			k := &Case{T: rt(top), V: reflect.ValueOf(&top).Elem(), O: o, Flags: fPack | fSizes | fUnpack | fRoundTrip}
			check(c, k)
			checkReferences(c, k)
		},
	}
}
