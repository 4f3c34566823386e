package suites

import (
	"fmt"
	"reflect"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C07: the scope of byte orders.
func propC07() *mc.Property {
	return &mc.Property{ID: "C07", Technique: tech, Level: "model_checking", LevelNote: note,
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				orderTrees("order trees", 2, orderWraps, orderLeaves),
				orderTrees("deep order trees", 3, orderWraps[:4], orderLeaves[:6]),
				orderSpellings("spellings"),
				orderSiblings("siblings", 3),
				orderCalls("byte orders of calls"),
				orderless("calls without a byte order"),
				deepTypes("deep types", orderFlags),
				customSequences("custom pairs", customCore, 2, allOrders, 1, []int{0, 2}, orderFlags, nil),
				deep(orderTrees("deeper order trees", 3, orderWraps, orderLeaves[:7])),
				deep(orderTrees("deepest order trees", 4, orderWraps[:4], orderLeaves[:3])),
				deep(orderSiblings("more siblings", 4)),
			}
		}}
}

const orderFlags = fPack | fUnpack | fSizes | fRoundTrip

var orderTags = []string{"", "big", "little"}

// orderWraps nest a type, with a byte order option of their own.
var orderWraps = []wrapper{
	{"struct", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", t, ""}} }},
	{"array", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", reflect.ArrayOf(2, t), ""}} }},
	{"slice", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("M$", uint16(0), "sizeof=W$"), {"W$", reflect.SliceOf(t), ""}}
	}},
	{"pointer", func(t reflect.Type) []fieldSpec { return []fieldSpec{{"W$", reflect.PtrTo(t), ""}} }},
	{"switch", func(t reflect.Type) []fieldSpec {
		body := reflect.StructOf([]reflect.StructField{
			{Name: "C1", Type: rt(uint16(0)), Tag: `struct:"case=1"`},
			{Name: "C2", Type: t, Tag: `struct:"case=2,big"`},
			{Name: "C3", Type: t, Tag: `struct:"case=3,little"`},
			{Name: "C4", Type: t, Tag: `struct:"default"`},
		})
		return []fieldSpec{fs("K$", uint16(0), `struct:"uint16" mc:"1,2,3,4"`), {"W$", body, st("switch=K$")}}
	}},
	{"if", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("K$", uint16(0), `struct:"uint16" mc:"0,1"`), {"W$", t, st("if=K$ == 1")}}
	}},
	{"slice of pointers", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("M$", uint16(0), ""), {"W$", reflect.SliceOf(reflect.PtrTo(t)), st("sizefrom=M$")}}
	}},
	{"array of arrays", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{{"W$", reflect.ArrayOf(1, reflect.ArrayOf(2, t)), ""}}
	}},
	{"sized", func(t reflect.Type) []fieldSpec {
		return []fieldSpec{fs("K$", uint16(0), `struct:"uint16" mc:"1,2"`), {"W$", reflect.SliceOf(t), st("size=K$")}}
	}},
}

// orderLeaves show which byte order is in force.
var orderLeaves = []Atom{
	one("u16", uint16(0), ""),
	one("u32:20", uint32(0), "uint32:20"),
	one("cPtr", cPtr{}, ""),
	one("arr", [2]uint16{}, ""),
	one("ptr", (*uint32)(nil), ""),
	many("slice", fs("N$", uint16(0), "sizeof=F$"), fs("F$", []uint16{}, "")),
	one("f64", float64(0), ""),
	one("cast", int(0), "int16"),
	one("c128", complex128(0), ""),
	many("from", fs("N$", uint16(0), ""), fs("F$", []int16{}, "sizefrom=N$")),
	one("[2]cVal", [2]cVal{}, ""),
	one("*cSl", (*cSl)(nil), ""),
	one("bool", false, "uint16"),
	one("wide", "", "[2]uint16"),
	one("struct", innerOrder{}, ""),
	many("bits", fs("K$", uint16(0), `struct:"uint16" mc:"11"`), fs("F$", uint16(0), "bits=K$")),
}

// withOrder adds a byte order option to the last field of some.
func withOrder(f []fieldSpec, opt string) []fieldSpec {
	f = append([]fieldSpec{}, f...)
	l := &f[len(f)-1]
	if opt == "" {
		return f
	}
	l.Tag = st(joinTag(rawTag(l.Tag), opt)) + mcPart(l.Tag)
	return f
}

func mcPart(tag string) string {
	if d := reflect.StructTag(tag).Get("mc"); d != "" {
		return ` mc:"` + d + `"`
	}
	return ""
}

var after16 = one("after", uint16(0), "")

// orderTrees is the space of nestings with an order option, or none, at every
// level, and a sibling behind every level.
func orderTrees(name string, depth int, wraps []wrapper, leaves []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d leaf kinds under %d levels of %d wrappers, each level with no option, big or little, a sibling behind each level, 2 byte orders", len(leaves), depth, len(wraps)),
		Run: func(c *mc.Ctx) {
			leaf := leaves[c.Choose(len(leaves))]
			leaf = Atom{Fields: withOrder(leaf.Fields, orderTags[c.Choose(3)])}
			var ws, os []int
			for i := 0; i < depth; i++ {
				ws = append(ws, c.Choose(len(wraps)))
				os = append(os, c.Choose(3))
			}
			c.Mine()
			t := StructOf(leaf, after16)
			for i := range ws {
				t = StructOf(Atom{Fields: withOrder(wraps[ws[i]].Wrap(t), orderTags[os[i]])}, after16)
			}
			valueSpace(c, t, orders, 1, []int{1}, orderFlags)
		},
	}
}

// orderSpellings is the space of all spellings of byte orders, and of
// contradicting options.
func orderSpellings(name string) mc.Space {
	sp := []string{"", "big", "msb", "network", "little", "lsb"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d leaf kinds, every pair of %d spellings on the leaf and on the struct around it, 5 byte orders, values of 3 patterns", len(orderLeaves), len(sp)),
		Run: func(c *mc.Ctx) {
			leaf := orderLeaves[c.Choose(len(orderLeaves))]
			a, b := sp[c.Choose(len(sp))], sp[c.Choose(len(sp))]
			c.Mine()
			t := StructOf(Atom{Fields: withOrder(leaf.Fields, a)}, after16)
			t = StructOf(Atom{Fields: withOrder([]fieldSpec{{"W$", t, ""}}, b)}, after16)
			o := allOrders[c.Choose(len(allOrders))]
			v := Fill(c, t, 1+c.Choose(3), []int{0, 2})
			check(c, &Case{T: t, V: v, O: o, Flags: orderFlags})
		},
	}
}

// orderSiblings is the space of fields next to each other with all options.
func orderSiblings(name string, n int) mc.Space {
	leaves := append(append([]Atom{}, orderLeaves[:8]...),
		many("pad", fs("_", uint16(0), "")), one("skip", uint16(0), "skip=1"), one("io", uint16(0), "out=F$ + 1,in=F$ - 1"),
		many("if", fs("K$", uint16(0), `struct:"uint16" mc:"0,1"`), fs("F$", uint16(0), "if=K$ == 1")))
	if n > 3 {
		leaves = leaves[:6]
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d leaf kinds, each with no option, big or little, 2 byte orders", n, len(leaves)),
		Run: func(c *mc.Ctx) {
			var atoms []Atom
			for i := 0; i < n; i++ {
				a := leaves[c.Choose(len(leaves))]
				a = Atom{Fields: withOrder(a.Fields, orderTags[c.Choose(3)])}
				atoms = append(atoms, a)
			}
			c.Mine()
			t := StructOf(append(atoms, after16)...)
			valueSpace(c, t, orders, 1, []int{1}, orderFlags)
		},
	}
}

// orderCalls is the space of all field kinds with every ByteOrder
// implementation.
// orderless is the space of calls with a nil byte order, which nothing uses.
func orderless(name string) mc.Space {
	all := join(catalog, customAtoms)
	none := Order{"nil", nil, ref.Big}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds in a struct that is big or little endian, itself a field, an element or behind a pointer; a nil byte order for the call", len(all)),
		Run: func(c *mc.Ctx) {
			a := all[c.Choose(len(all))]
			opt := orderTags[1+c.Choose(2)]
			wrap := c.Choose(3)
			c.Mine()
			t := StructOf(a, after16)
			switch wrap {
			case 1:
				t = reflect.ArrayOf(2, t)
			case 2:
				t = reflect.PtrTo(t)
			}
			t = StructOf(Atom{Fields: withOrder([]fieldSpec{{"W$", t, ""}}, opt)}, sentinel)
			valueSpace(c, t, []Order{none}, 1, []int{2}, orderFlags)
		},
	}
}

func orderCalls(name string) mc.Space {
	all := join(catalog, customAtoms)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds in a struct with no option, big or little, 5 implementations of byte orders", len(all)),
		Run: func(c *mc.Ctx) {
			a := all[c.Choose(len(all))]
			opt := orderTags[c.Choose(3)]
			c.Mine()
			t := StructOf(a, after16)
			t = StructOf(Atom{Fields: withOrder([]fieldSpec{{"W$", t, ""}}, opt)}, after16)
			valueSpace(c, t, allOrders, 1, []int{2}, orderFlags)
		},
	}
}
