package suites

import (
	"fmt"
	"reflect"
	"strings"

	"verif/internal/mc"
)

// C11: switches.
func propC11() *mc.Property {
	return &mc.Property{ID: "C11", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Case expressions have the kind of the switch expression: both integers, strings or bools."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				selectors("selectors"),
				caseBodies("bodies of cases", 2, switchFlags),
				caseDefaults("cases that are the default as well"),
				casePositions("numbers of cases and positions of switches"),
				manyCases("many cases", switchFlags),
				longStructs("switches in long structs", switchFlags, "switch"),
				caseOptions("options on switches and cases"),
				switchNests("switches in each other", 2),
				caseRefs("cases that refer to the structs around them", 2),
				deep(caseRefs("more cases that refer to the structs around them", 3)),
				nestings("switches nested", switchAtoms, 2, orders, 1, []int{1}, switchFlags),
				sequences("switches in a row", join(switchAtoms, pickAtoms("u8", "u16:5", "str-sizeof", "if", "pad3bits", "ignored")), 3, orders[:1], 1, []int{1}, switchFlags, nil),
				deep(caseBodies("bodies of more cases", 3, switchFlags)),
				deep(switchNests("switches deep in each other", 3)),
			}
		}}
}

const switchFlags = fPack | fSizes | fUnpack | fRoundTrip | fDirty

type switchNoCase struct{}

type switchOnlyDefault struct {
	D uint16 `struct:"default"`
}

type switchStr struct {
	A uint8  `struct:"case=\"ab\""`
	B uint32 `struct:"case=\"cd\",big"`
	C []byte `struct:"case=\"ef\""`
}

type switchBool struct {
	A inner  `struct:"case=true"`
	B uint16 `struct:"case=false"`
}

type switchDup struct {
	A uint8  `struct:"case=1"`
	B uint16 `struct:"case=1"`
	C uint32 `struct:"default"`
	D uint64 `struct:"case=2"`
}

type switchHidden struct {
	a uint8  `struct:"case=1"`
	A uint16 `struct:"case=2"`
	G uint8  `struct:"-"`
	B inner  `struct:"case=1"`
}

var switchAtoms = []Atom{
	many("switch", fs("K$", uint8(0), mcTag("uint8", "1,2,3,4")), fs("F$", switchBody{}, "switch=K$")),
	many("switch-none", fs("K$", uint8(0), mcTag("uint8", "1,2,3")), fs("F$", switchBody2{}, "switch=K$")),
	many("switch-empty", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", switchNoCase{}, "switch=K$")),
	many("switch-default", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", switchOnlyDefault{}, "switch=K$")),
	many("switch-str", fs("K$", "", mcTag("[2]byte", "ab,cd,xx")), fs("F$", switchStr{}, "switch=K$")),
	many("switch-bool", fs("K$", false, mcTag("uint8:1", "false,true")), fs("F$", switchBool{}, "switch=K$")),
	many("switch-dup", fs("K$", uint16(0), mcTag("uint16:4", "1,2,3")), fs("F$", switchDup{}, "switch=K$")),
	many("switch-hidden", fs("K$", int8(0), mcTag("int8", "1,2,3")), fs("F$", switchHidden{}, "switch=K$ + 0")),
	many("switch-custom", fs("K$", uint8(0), mcTag("uint8", "1,2,3,4")), fs("F$", switchCustom2{}, "switch=K$")),
}

// selectors is the space of what a switch can be on.
func selectors(name string) mc.Space {
	ints := []string{"-70000", "-129", "-128", "-2", "-1", "0", "1", "2", "3", "4", "5", "65", "127", "128", "200", "255", "256", "300", "65535", "65536", "70000", "4294967295", "1099511627776", "9223372036854775807"}
	type sel struct {
		f     fieldSpec
		on    string
		vals  []string
		cases []string
	}
	fits := func(x interface{}) (out []string) {
		v := reflect.New(rt(x)).Elem()
		switch x.(type) { // encoded in 32 bits
		case int:
			v = reflect.New(rt(int32(0))).Elem()
		case uint:
			v = reflect.New(rt(uint32(0))).Elem()
		}
		for _, s := range ints {
			var n int64
			fmt.Sscan(s, &n)
			if v.CanInt() && !v.OverflowInt(n) || v.CanUint() && n >= 0 && !v.OverflowUint(uint64(n)) {
				out = append(out, s)
			}
		}
		if v.Kind() == reflect.Uint64 {
			out = append(out, "18446744073709551615", "18446744073709551614")
		}
		return
	}
	var all []sel
	for _, x := range []interface{}{uint8(0), int8(0), uint16(0), int16(0), uint32(0), int32(0), uint64(0), int64(0), int(0), uint(0), namedU8(0), namedI32(0)} {
		vals := fits(x)
		k := fieldSpec{"K", rt(x), `mc:"` + strings.Join(vals, ",") + `"`}
		for _, cases := range [][]string{
			{"0", "1", "-1", "255"}, {"-1", "-2", "-128", "65535"}, {"'A'", "200", "128", "127"}, {"C", "C + 1", "3", "2"}, {"D", "E", "-1", "5"}, {"0x41", "0xff", "300", "70000"},
			{"1 + 1", "2 * 2", "-(1)", "5 - 5"}, {"B", "B + 1", "U", "C"},
		} {
			all = append(all, sel{k, "K", nil, cases})
		}
		if !reflect.New(rt(x)).Elem().CanUint() || rt(x).Size() < 8 {
			all = append(all, sel{k, "-K", nil, []string{"1", "-1", "-5", "128"}})
		}
		all = append(all, sel{k, "K & 3", nil, []string{"0", "1", "2", "3"}}, sel{k, "K + 1", nil, []string{"0", "1", "2", "128"}}, sel{k, "^K", nil, []string{"0", "-1", "254", "-2"}},
			sel{k, "K > 4", nil, []string{"false", "true"}}, sel{k, "K > 4", nil, []string{"true"}}, sel{k, "K == 5 ? 2 : 3", nil, []string{"2", "3"}})
	}
	str := fs("K", "", mcTag("[2]byte", "ab,cd,zz"))
	cstr := fs("K", namedStr(""), mcTag("[2]byte", "ab,cd,zz"))
	all = append(all,
		sel{str, "K", nil, []string{`"ab"`, `"cd"`}}, sel{str, "K", nil, []string{`""`, `"a"`, `"abc"`, `"zz"`}}, sel{str, "K", nil, []string{"S", `"ab"`}}, sel{cstr, "K", nil, []string{`"ab"`, `"cd"`, "S"}},
		sel{str, "K[0]", nil, []string{"'a'", "'z'", "99"}}, sel{str, `K == "ab"`, nil, []string{"true", "false"}}, sel{str, `K + "x"`, nil, []string{`"ab"`, `"abx"`}},
		sel{fs("K", false, mcTag("bool", "false,true")), "K", nil, []string{"true"}}, sel{fs("K", false, mcTag("bool", "false,true")), "!K", nil, []string{"false", "true"}}, sel{fs("K", namedBool(false), mcTag("uint16", "false,true")), "K", nil, []string{"true", "false"}},
		sel{fs("K", false, mcTag("bool", "false,true")), "K", nil, []string{"1 > 2", "D == 5"}},
		sel{fs("K", uint8(0), mcTag("uint8", "0,1,3,7,255")), "bits.OnesCount8(K)", nil, []string{"0", "1", "3", "8"}},
		sel{fs("K", uint8(0), mcTag("uint8", "0,1")), "2", nil, []string{"1", "2"}}, sel{fs("K", uint8(0), mcTag("uint8", "0,1")), "2", nil, []string{"K", "K + 1"}},
		sel{fs("K", uint8(0), mcTag("uint8", "0,9")), "X.X", nil, []string{"1", "K", "2"}},
	)
	bodies := []interface{}{uint8(0), uint16(0), uint32(0), inner{}}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d pairs of a switch expression and a list of cases over integers of 12 types, strings and bools; literals, fields and expressions as cases; values at and beside every case; with and without default", len(all)),
		Run: func(c *mc.Ctx) {
			s := all[c.Choose(len(all))]
			def := c.Choose(3) // none, first, last
			c.Mine()
			var sf []reflect.StructField
			addDef := func() {
				sf = append(sf, reflect.StructField{Name: "Def", Type: rt(uint64(0)), Tag: `struct:"default"`})
			}
			if def == 1 {
				addDef()
			}
			for i, x := range s.cases {
				sf = append(sf, reflect.StructField{Name: "C" + itoa(i), Type: rt(bodies[i]), Tag: reflect.StructTag(st("case=" + x))})
			}
			if def == 2 {
				addDef()
			}
			t := StructOf(many("pre", s.f, fs("C", uint8(0), mcTag("uint8", "3")), fs("D", int64(0), mcTag("int64", "5")), fs("E", int8(0), mcTag("int8", "-1")), fs("B", int16(0), mcTag("int16", "-2")), fs("U", uint64(0), mcTag("uint64", "18446744073709551615")),
				fs("S", "", mcTag("[2]byte", "ab,zz")), fs("X", inner{}, "")),
				Atom{Fields: []fieldSpec{{"F", reflect.StructOf(sf), st("switch=" + s.on)}}}, sentinel)
			valueSpace(c, t, orders, 1, nil, switchFlags)
		},
	}
}

var caseKinds = []fieldSpec{
	fs("", uint8(0), ""), fs("", uint32(0), ""), fs("", uint16(0), "uint16:5"), fs("", (*innerDyn)(nil), ""), fs("", []byte{}, "size=N"), fs("", []inner{}, "size=N"), fs("", "", "[3]byte"), fs("", [2]uint16{}, ""),
	fs("", innerBits{}, ""), fs("", false, "invertedbool"), fs("", int(0), "int16,big"), fs("", struct{}{}, ""), fs("", uint16(0), "skip=2"), fs("", uint8(0), "if=N == 1"), fs("", uint32(0), "bits=N + 3"), fs("", [2]*inner{}, "little"), fs("", float64(0), ""),
}

// caseBodies is the space of members of all kinds, the default anywhere.
func caseBodies(name string, n, flags int) mc.Space {
	kinds := caseKinds
	if n > 2 {
		kinds = kinds[:10]
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d cases of %d kinds, none, one of them or another member the default, every case and none selected, behind a bit offset of 0 or 5", n, len(kinds)),
		Run: func(c *mc.Ctx) {
			var ks []int
			for i := 0; i < n; i++ {
				ks = append(ks, c.Choose(len(kinds)))
			}
			def := c.Choose(n + 2) // none, or its position
			c.Mine()
			var sf []reflect.StructField
			for i := 0; i <= n; i++ {
				if def == i+1 {
					k := kinds[(ks[0]+ks[n-1]+3)%len(kinds)]
					sf = append(sf, reflect.StructField{Name: "Def", Type: k.Type, Tag: reflect.StructTag(st(joinTag(rawTag(k.Tag), "default")))})
				}
				if i < n {
					k := kinds[ks[i]]
					sf = append(sf, reflect.StructField{Name: "C" + itoa(i), Type: k.Type, Tag: reflect.StructTag(st(joinTag(rawTag(k.Tag), "case="+itoa(i+1))))})
				}
			}
			off := 5 * c.Choose(2)
			t := StructOf(misalign(off), many("k", fs("N", uint8(0), mcTag("uint8", "1,2")), fs("K", uint8(0), mcTag("uint8", "0,1,2,3"[:3+2*(n-1)]))), Atom{Fields: []fieldSpec{{"F", reflect.StructOf(sf), st("switch=K")}}}, sentinel)
			valueSpace(c, t, orders[:1], 2, []int{1}, flags)
		},
	}
}

// caseDefaults is the space of members that are a case and the default: they
// are selected by default, whatever their case says.
func caseDefaults(name string) mc.Space {
	kinds := caseKinds
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("3 members of %d kinds, one of them with both case and default at any position, its case shared with another member before or behind it or not, by tag and by struct-case, every selector", len(kinds)),
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(kinds))
			at := c.Choose(3)
			val := c.Choose(4) // whose case value it repeats
			form := c.Choose(3)
			c.Mine()
			var sf []reflect.StructField
			for i := 0; i < 3; i++ {
				x := kinds[(k+5*i)%len(kinds)]
				opts, tail := "case="+itoa(i+1), ""
				if i == at {
					if val < 3 {
						opts = "case=" + itoa(val+1)
					}
					switch form {
					case 0:
						opts = "default," + opts
					case 1:
						opts += ",default"
					case 2:
						opts, tail = "default", ` struct-case:"`+opts[5:]+`"`
					}
				}
				tag := joinTag(rawTag(x.Tag), opts)
				sf = append(sf, reflect.StructField{Name: "C" + itoa(i), Type: x.Type, Tag: reflect.StructTag(st(tag) + tail)})
			}
			t := StructOf(many("k", fs("N", uint8(0), mcTag("uint8", "1,2")), fs("K", uint8(0), mcTag("uint8", "0,1,2,3,4"))), Atom{Fields: []fieldSpec{{"F", reflect.StructOf(sf), st("switch=K")}}}, sentinel)
			valueSpace(c, t, orders[:1], 1, []int{1}, switchFlags)
		},
	}
}

// casePositions is the space of switches with any number of cases at any
// position.
func casePositions(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "0 to 8 cases, a default or none, 0 to 8 fields before the switch and 0 to 4 behind it, every selector",
		Run: func(c *mc.Ctx) {
			n, def, before, behind := c.Choose(9), c.Bool(), c.Choose(9), c.Choose(5)
			c.Mine()
			sizes := []interface{}{uint8(0), uint16(0), uint32(0), inner{}, uint64(0)}
			var sf []reflect.StructField
			for i := 0; i < n; i++ {
				sf = append(sf, reflect.StructField{Name: "C" + itoa(i), Type: rt(sizes[i%5]), Tag: reflect.StructTag(st("case=" + itoa(i)))})
			}
			if def {
				sf = append(sf, reflect.StructField{Name: "Def", Type: rt([3]uint8{}), Tag: `struct:"default"`})
			}
			list := []Atom{many("k", fs("K", uint8(0), mcTag("uint8", "0,1,2,3,4,5,6,7,8,9")))}
			for i := 0; i < before; i++ {
				list = append(list, one("b", uint16(0), ""))
			}
			list = append(list, Atom{Fields: []fieldSpec{{"F", reflect.StructOf(sf), st("switch=K")}}})
			for i := 0; i < behind; i++ {
				list = append(list, one("a", uint16(0), ""))
			}
			t := StructOf(append(list, sentinel)...)
			valueSpace(c, t, orders[:1], 1, nil, switchFlags|fUnpackExact)
		},
	}
}

// caseOptions is the space of options on the switch and on its cases.
func caseOptions(name string) mc.Space {
	on := []string{"", "big", "little", "skip=1", "if=N == 1", "big,skip=2,if=N > 1"}
	in := []string{"", "big", "little", "skip=1", "if=N == 1", "skip=1,little,if=N == 2"}
	kinds := []fieldSpec{fs("", uint16(0), ""), fs("", uint32(0), "uint32:20"), fs("", innerOrder{}, ""), fs("", []uint16{}, "size=N"), fs("", (*uint32)(nil), ""), fs("", "", "size=N"), fs("", [2]uint16{}, ""), fs("", cPtr{}, ""), fs("", []*cVal{}, "size=N")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d options on the switch, %d options on each of two cases, %d kinds of cases, separate tags as well", len(on), len(in), len(kinds)),
		Run: func(c *mc.Ctx) {
			o, a, b := on[c.Choose(len(on))], in[c.Choose(len(in))], in[c.Choose(len(in))]
			k := kinds[c.Choose(len(kinds))]
			sep := c.Bool()
			c.Mine()
			tag := func(opt, key, val string) string {
				base := joinTag(rawTag(k.Tag), opt)
				if base != "" && base[0] == ',' {
					base = base[1:]
				}
				base = strings.TrimSuffix(base, ",")
				if sep {
					return st(base) + ` struct-` + key + `:"` + val + `"`
				}
				return st(strings.TrimPrefix(joinTag(base, key+"="+val), ","))
			}
			body := reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: k.Type, Tag: reflect.StructTag(tag(a, "case", "1"))},
				{Name: "B", Type: k.Type, Tag: reflect.StructTag(tag(b, "case", "2"))},
			})
			sw := st(strings.TrimPrefix(joinTag(o, "switch=K"), ","))
			if sep {
				sw = st(o) + ` struct-switch:"K"`
			}
			t := StructOf(many("k", fs("N", uint8(0), mcTag("uint8", "1,2")), fs("K", uint8(0), mcTag("uint8", "1,2,3"))), Atom{Fields: []fieldSpec{{"F", body, sw}}}, after16)
			valueSpace(c, t, orders, 1, nil, switchFlags)
		},
	}
}

// switchNests is the space of switches inside of the cases of switches: in a
// struct of their own, and as a case that is itself a switch.
func switchNests(name string, depth int) mc.Space {
	leaves := []fieldSpec{fs("", uint16(0), ""), fs("", (*inner)(nil), ""), fs("", innerDyn{}, ""), fs("", uint8(0), "uint8:3"), fs("", struct{}{}, "")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d levels of switches, each in a struct, directly as a case, in a pointer, an array or a slice, %d leaf kinds, every combination of selectors", depth, len(leaves)),
		Run: func(c *mc.Ctx) {
			l := leaves[c.Choose(len(leaves))]
			var how []int
			for i := 0; i < depth; i++ {
				how = append(how, c.Choose(5))
			}
			def := c.Bool()
			c.Mine()
			inner, tag := l.Type, rawTag(l.Tag)
			var keys []fieldSpec
			for i, h := range how {
				k := "K" + itoa(i)
				d := "case=3"
				if def {
					d = "default"
				}
				body := reflect.StructOf([]reflect.StructField{
					{Name: "A", Type: rt(uint8(0)), Tag: `struct:"case=1"`},
					{Name: "B", Type: inner, Tag: reflect.StructTag(st(joinTag(tag, "case=2")))},
					{Name: "C", Type: inner, Tag: reflect.StructTag(st(joinTag(tag, d)))},
				})
				key := fs(k, uint8(0), mcTag("uint8", "1,2,3,4"))
				if h == 4 && i+1 < depth {
					// The switch is a case of the next one itself.
					if i > 0 && how[i-1] == 4 {
						keys = append(keys, key)
					}
					inner, tag = body, "switch=K"+itoa(i+1)
					continue
				}
				inner, tag = StructOf(many("k", append(keys, key)...), Atom{Fields: []fieldSpec{{"F", body, st("switch=" + k)}}}, sentinel), ""
				keys = nil
				switch h {
				case 1:
					inner = reflect.PtrTo(inner)
				case 2:
					inner = reflect.ArrayOf(1, inner)
				case 3:
					inner = StructOf(many("s", fs("N", uint8(0), "sizeof=S"), fieldSpec{"S", reflect.SliceOf(inner), ""}))
				}
			}
			t := StructOf(Atom{Fields: []fieldSpec{{"W", inner, st(tag)}}}, sentinel)
			valueSpace(c, t, orders[:1], 1, []int{0, 1}, switchFlags)
		},
	}
}
