package suites

import (
	"fmt"
	"reflect"
	"strings"

	"verif/internal/mc"
)

// C05: counters and what they count.
func propC05() *mc.Property {
	return &mc.Property{ID: "C05", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"A counter counts one field; counters are not used in expressions that are evaluated before Pack has set them."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				linkKinds("counter and field kinds"),
				linkOrders("orders of linked fields", 4),
				linkMixed("links among other fields", 3),
				overflow("counts that do not fit"),
				hostileCounters("counters that promise more than there is"),
				linkNested("links in nested structs"),
				linkExprs("links with expressions"),
				linkSeveral("fields with several counters"),
				sequences("counted pairs", join(stringAtoms, sliceAtoms), 2, orders, 1, []int{0, 1, 3}, linkFlags, nil),
				stale("stale counters", fPack|fRoundTrip),
				longStructs("links in long structs", linkFlags, "sizeof", "sizefrom", "two links"),
				longLists("long lists", linkFlags, true, nil),
				deep(linkOrders("orders of more linked fields", 5)),
				deep(linkMixed("links among more other fields", 4)),
				deep(sequences("counted triples", join(stringAtoms, sliceAtoms), 3, orders, 1, []int{0, 2}, linkFlags, nil)),
			}
		}}
}

const linkFlags = fPack | fSizes | fUnpack | fRoundTrip | fDirty | fRepeat

var counterKinds = []fieldSpec{
	fs("", uint8(0), ""), fs("", uint16(0), ""), fs("", uint32(0), ""), fs("", uint64(0), ""),
	fs("", int8(0), ""), fs("", int16(0), ""), fs("", int32(0), ""), fs("", int64(0), ""),
	fs("", int(0), "int8"), fs("", int(0), "int32"), fs("", uint(0), "uint16"), fs("", uint(0), "uint64"),
	fs("", uint64(0), "uint8"), fs("", uint8(0), "uint32"), fs("", namedU8(0), ""), fs("", namedI32(0), "int16"),
	fs("", uint8(0), "uint8:4"), fs("", uint16(0), "uint16:12"), fs("", uint32(0), "uint32:4,little"), fs("", int16(0), "int16:12"), fs("", int64(0), "int64:4"),
	fs("", uint16(0), "big"), fs("", uint32(0), "little"), fs("", uint16(0), "skip=1"), fs("", uint8(0), "uint8:3,skip=1"),
}

var countedKinds = []fieldSpec{
	fs("", []byte{}, ""), fs("", []uint16{}, ""), fs("", "", ""), fs("", []inner{}, ""), fs("", []innerBits{}, ""), fs("", []innerDyn{}, ""),
	fs("", []*inner{}, ""), fs("", []bool{}, ""), fs("", namedSl{}, ""), fs("", namedStr(""), ""), fs("", []int{}, "[]int16"), fs("", "", "[]uint16"),
	fs("", [][2]uint8{}, ""), fs("", []cPtr{}, ""), fs("", []byte{}, "skip=2"), fs("", []uint16{}, "big"), fs("", "", "string"), fs("", []int8{}, "[]int8"),
}

func joinTag(a, b string) string {
	switch {
	case a == "":
		return b
	case b == "":
		return a
	}
	return a + "," + b
}

// rawTag takes the struct tag apart again.
func rawTag(t string) string { return reflect.StructTag(t).Get("struct") }

// linkExprs is the space of linked fields that have expressions of their own.
func linkExprs(name string) mc.Space {
	counts := []fieldSpec{
		fs("", uint8(0), ""), fs("", uint8(0), "out=N + 1,in=N - 1"), fs("", uint16(0), "out=N * 2,in=N / 2"), fs("", uint32(0), "big,out=N ^ 0x10,in=N ^ 0x10"), fs("", int16(0), "out=-N,in=-N"),
		fs("", uint8(0), "bits=K + 3"), fs("", uint16(0), "bits=K + 9,big"), fs("", int32(0), "int16,bits=12"), fs("", uint8(0), "if=K > 0"), fs("", uint16(0), "if=K == 0,skip=1"), fs("", uint8(0), "uint8:4,out=N + K,in=N - K"),
		fs("", int(0), "int8,skip=1,if=true"), fs("", uint8(0), "bits=K > 1 ? 4 : 8,out=N + 1,in=N - 1"),
	}
	lists := []fieldSpec{
		fs("", []uint8{}, ""), fs("", []uint16{}, "if=K > 0"), fs("", "", "if=K == 0"), fs("", []uint16{}, "if=N > 0,big"), fs("", []inner{}, "if=N == N"), fs("", []innerIf{}, "skip=1,if=K < 2"), fs("", "", "skip=1"),
		fs("", []uint8{}, "out=G"), fs("", []uint16{}, "in=H"), fs("", "", "out=T,in=T"), fs("", []cPtr{}, "if=K > 0"), fs("", []*inner{}, "if=K > 0 && N < 3"), fs("", []struct {
			A uint8 `struct:"out=A + 1,in=A - 1"`
			B uint8 `struct:"bits=A & 3 + 1"`
		}{}, ""),
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of counters and %d kinds of counted fields with expressions (if, bits, in, out), sizeof and sizefrom, a field between them or none, lengths 0 to 5 and those around the limits of computed widths, 3 values they depend on, stale counters, 2 byte orders, at the top, in elements and in a case", len(counts), len(lists)),
		Run: func(c *mc.Ctx) {
			n := counts[c.Choose(len(counts))]
			l := lists[c.Choose(len(lists))]
			from := c.Bool()
			between := c.Bool()
			where := c.Choose(3)
			ns := []int{0, 1, 2, 3, 4, 5}
			if strings.Contains(n.Tag, "bits=") && !strings.Contains(n.Tag, "out=") && where == 0 && rawTag(l.Tag) == "" {
				ns = append(ns, 7, 8, 15, 16, 31, 32, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 2049)
			}
			count, stale := ns[c.Choose(len(ns))], c.Choose(3)
			if count > 5 && stale > 0 {
				c.Prune()
			}
			x := []uint64{0, 1, 5}[stale]
			old := x != uint64(count)
			if old && strings.Contains(l.Tag, "N") {
				c.Prune()
			}
			if strings.Contains(l.Tag, "out=G") && count != 3 || strings.Contains(l.Tag, "out=T") && count != 2 {
				c.Prune() // the counter counts something else than what is written
			}
			c.Mine()
			nf, sf := pair(n, l, "", from)
			atoms := []Atom{many("k", fs("K", uint8(0), ""), fs("G", []uint8{}, "[3]uint8"), fs("H", []uint16{}, "[2]uint16"), fs("T", "", "[2]uint8")), {Fields: []fieldSpec{nf}}}
			if between {
				atoms = append(atoms, many("b", fs("B", uint16(0), "uint16:5")))
			}
			atoms = append(atoms, Atom{Fields: []fieldSpec{sf}}, many("z", fs("Z", uint8(0), map[bool]string{true: "", false: "if=N > 1"}[old])), sentinel)
			t := StructOf(atoms...)
			k, o := c.Choose(3), orders[c.Choose(2)]
			// Without its counter, a list has to be empty.
			absent := strings.Contains(n.Tag, "if=K > 0") && k == 0 || strings.Contains(n.Tag, "if=K == 0") && k != 0
			if absent && count > 0 {
				c.Prune()
			}
			v := FillSimple(t, 1, count)
			v.FieldByName("K").SetUint(uint64(k))
			v.FieldByName("S").Set(FillSimple(StructOf(Atom{Fields: []fieldSpec{{"S", sf.Type, `mc:"len=` + itoa(count) + `"`}}}), 1, count).Field(0))
			nv := v.FieldByName("N")
			if nv.CanInt() {
				nv.SetInt(int64(x))
			} else {
				nv.SetUint(x)
			}
			v.FieldByName("G").Set(reflect.ValueOf([]uint8{7, 8, 9}))
			v.FieldByName("H").Set(reflect.ValueOf([]uint16{0x708, 9}))
			v.FieldByName("T").SetString("tT")
			switch where {
			case 1:
				a := reflect.New(StructOf(one("k", uint8(0), "uint8:3"), Atom{Fields: []fieldSpec{{"E", reflect.ArrayOf(2, t), ""}}})).Elem()
				a.Field(1).Index(0).Set(deepCopy(v))
				a.Field(1).Index(1).Set(v)
				if !strings.Contains(n.Tag, "if=K") {
					a.Field(1).Index(0).FieldByName("K").SetUint(uint64(2 - k))
				}
				v = a
			case 2:
				body := StructOf(Atom{Fields: []fieldSpec{{"X", reflect.PtrTo(t), st("case=1")}}})
				a := reflect.New(StructOf(many("k", fs("Q", uint8(0), "")), Atom{Fields: []fieldSpec{{"E", body, st("switch=Q")}}})).Elem()
				a.Field(0).SetUint(1)
				a.Field(1).Field(0).Set(reflect.New(t))
				a.Field(1).Field(0).Elem().Set(v)
				v = a
			}
			flags := fPack | fUnpack | fRepeat
			if !old {
				flags |= fSizes
			}
			if !absent {
				flags |= fDirty
			}
			check(c, &Case{T: v.Type(), V: v, O: o, Flags: flags})
		},
	}
}

// pair makes a linked pair of fields.
func pair(count, counted fieldSpec, id string, from bool) (n, s fieldSpec) {
	if from {
		n = fieldSpec{"N" + id, count.Type, st(rawTag(count.Tag))}
		s = fieldSpec{"S" + id, counted.Type, st(joinTag(rawTag(counted.Tag), "sizefrom=N"+id))}
	} else {
		n = fieldSpec{"N" + id, count.Type, st(joinTag(rawTag(count.Tag), "sizeof=S"+id))}
		s = fieldSpec{"S" + id, counted.Type, st(rawTag(counted.Tag))}
	}
	return
}

// linkKinds is the space of all kinds of counters with all kinds of fields.
func linkKinds(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of counters, %d kinds of counted fields, sizeof and sizefrom, lengths 0 to 7, stale counters, 2 byte orders", len(counterKinds), len(countedKinds)),
		Run: func(c *mc.Ctx) {
			ck := counterKinds[c.Choose(len(counterKinds))]
			sk := countedKinds[c.Choose(len(countedKinds))]
			from := c.Bool()
			c.Mine()
			n, s := pair(ck, sk, "", from)
			if bits := rawTag(ck.Tag); sk.Type == rt([]cPtr{}) && len(bits) > 0 && contains(bits, ":") {
				c.Prune()
			}
			s.Tag += ` mc:"len=0,1,2,3,7"`
			t := StructOf(many("link", n, s), sentinel)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{2})
			setCounters(v, []uint64{0, 3, 0x7e}[c.Choose(3)])
			check(c, &Case{T: t, V: v, O: o, Flags: linkFlags})
		},
	}
}

// linkSeveral is the space of fields with several counters.
func linkSeveral(name string) mc.Space {
	kinds := []fieldSpec{fs("", uint8(0), ""), fs("", uint16(0), "big"), fs("", int8(0), ""), fs("", uint64(0), "uint8:4"), fs("", int(0), "int32,skip=1"), fs("", uint8(0), "uint8:4")}
	lists := []fieldSpec{fs("", []byte{}, ""), fs("", "", "skip=1"), fs("", []uint16{}, "big"), fs("", []innerDyn{}, ""), fs("", "", "[]uint16")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("2 or 3 counters of %d kinds for each of %d kinds of fields, each linked by sizeof or else by sizefrom, other fields among them, lengths 0 to 20, stale counters", len(kinds), len(lists)),
		Run: func(c *mc.Ctx) {
			n := 2 + c.Choose(2)
			list := lists[c.Choose(len(lists))]
			from := c.Choose(n + 1) // The counter that is named by sizefrom.
			between := c.Bool()
			var fields []fieldSpec
			for i := 0; i < n; i++ {
				k := kinds[c.Choose(len(kinds))]
				if i == 0 {
					c.Mine()
				}
				k.Name = fmt.Sprintf("N%d", i)
				if i != from {
					k.Tag = st(joinTag(rawTag(k.Tag), "sizeof=S"))
				}
				fields = append(fields, k)
				if between {
					fields = append(fields, fieldSpec{fmt.Sprintf("P%d", i), rt(uint8(0)), ""})
				}
			}
			list.Name = "S"
			if from < n {
				list.Tag = st(joinTag(rawTag(list.Tag), fmt.Sprintf("sizefrom=N%d", from)))
			}
			list.Tag += ` mc:"len=0,1,3,15,20"`
			fields = append(fields, list)
			t := StructOf(many("several", fields...), sentinel)
			v := Fill(c, t, 1, []int{2})
			setCounters(v, []uint64{0, 5}[c.Choose(2)])
			check(c, &Case{T: t, V: v, O: orders[0], Flags: linkFlags})
		},
	}
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// linkOrders is the space of two linked pairs and some unlinked fields in every
// order in which counters come first.
func linkOrders(name string, n int) mc.Space {
	others := []fieldSpec{
		{"u1", rt(uint32(0)), ""}, {"G1", rt(uint32(0)), st("-")}, {"_", rt(uint16(0)), ""}, {"X1", rt(uint16(0)), ""}, {"G2", rt([]int{}), st("-")},
		{"u2", rt([]byte{}), ""}, {"_", rt(uint8(0)), st("uint8:8")}, {"B1", rt(struct{}{}), ""},
	}
	others[6].Tag = ""
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("two linked pairs and %d of %d other fields (ignored, unexported, padding, plain) in every order with counters first, sizeof and sizefrom", n-2, len(others)),
		Run: func(c *mc.Ctx) {
			f1, f2 := c.Bool(), c.Bool()
			n1, s1 := pair(fs("", uint8(0), ""), fs("", []byte{}, ""), "1", f1)
			n2, s2 := pair(fs("", uint16(0), ""), fs("", []uint16{}, ""), "2", f2)
			pool := []fieldSpec{n1, s1, n2, s2}
			prev := -1
			for i := 0; i < n-2; i++ {
				k := prev + 1 + c.Choose(len(others)-prev-1-(n-3-i))
				prev = k
				pool = append(pool, others[k])
			}
			// Every order of the pool.
			var order []fieldSpec
			used := make([]bool, len(pool))
			for len(order) < len(pool) {
				var free []int
				for i := range pool {
					if used[i] || i == 1 && !used[0] || i == 3 && !used[2] {
						continue
					}
					free = append(free, i)
				}
				i := free[c.Choose(len(free))]
				used[i] = true
				order = append(order, pool[i])
				if len(order) == 2 {
					c.Mine()
				}
			}
			t := StructOf(many("links", order...), sentinel)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{0, 1, 3})
			setCounters(v, 2)
			check(c, &Case{T: t, V: v, O: o, Flags: linkFlags})
		},
	}
}

// linkMixed puts all kinds of fields before, between and behind linked fields.
func linkMixed(name string, n int) mc.Space {
	between := join(pickAtoms("pad8", "pad3bits", "unexported", "ignored", "u8", "u16:5", "str4", "arr-u16", "struct-dyn", "ptr-struct", "if", "switch", "empty", "pad-skip", "parent", "struct-big"), []Atom{
		many("ignored-slice", fs("G$", []string{}, "-")), many("unexported-slice", fs("u$", []string{}, "")), many("padarr", fs("_", [2]uint16{}, "")),
	})
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("a linked pair with %d of %d other field kinds at 3 positions, sizeof and sizefrom", n-1, len(between)),
		Run: func(c *mc.Ctx) {
			from := c.Bool()
			cs, ss := pair(counterKinds[1], countedKinds[c.Choose(3)], "", from)
			var at [3][]Atom
			for i := 0; i < n-1; i++ {
				a := between[c.Choose(len(between))]
				p := c.Choose(3)
				at[p] = append(at[p], a)
				if i == 0 {
					c.Mine()
				}
			}
			var list []Atom
			list = append(list, at[0]...)
			list = append(list, many("count", cs))
			list = append(list, at[1]...)
			list = append(list, many("counted", ss))
			list = append(list, at[2]...)
			list = append(list, sentinel)
			t := StructOf(list...)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{0, 2})
			setCounters(v, 1)
			check(c, &Case{T: t, V: v, O: o, Flags: linkFlags})
		},
	}
}

// overflow is the space of counts around the limits of their counters.
func overflow(name string) mc.Space {
	kinds := []struct {
		f    fieldSpec
		lens []int
	}{
		{fs("", uint8(0), ""), []int{127, 128, 254, 255, 256, 257, 511, 512, 65536}},
		{fs("", int8(0), ""), []int{126, 127, 128, 129, 255, 256, 257}},
		{fs("", uint16(0), ""), []int{255, 256, 32767, 32768, 65535, 65536, 65537}},
		{fs("", int16(0), ""), []int{255, 256, 32766, 32767, 32768, 32769, 65535, 65536}},
		{fs("", uint32(0), ""), []int{65535, 65536, 1 << 17}},
		{fs("", int32(0), ""), []int{32767, 32768, 65536}},
		{fs("", uint8(0), "uint8:4"), []int{7, 8, 15, 16, 17, 31, 32, 255, 256}},
		{fs("", uint8(0), "uint8:1"), []int{0, 1, 2, 3, 4}},
		{fs("", uint16(0), "uint16:9"), []int{255, 256, 511, 512, 513, 1024}},
		{fs("", uint32(0), "uint32:12,little"), []int{255, 256, 4095, 4096, 4097}},
		{fs("", int16(0), "int16:4"), []int{6, 7, 8, 9, 15, 16, 17}},
		{fs("", int32(0), "int32:9"), []int{255, 256, 511, 512}},
		{fs("", int(0), "int8"), []int{127, 128, 255, 256}},
		{fs("", uint(0), "uint8"), []int{255, 256, 257}},
		{fs("", uint64(0), "uint8"), []int{255, 256, 512}},
		{fs("", int64(0), "int16"), []int{32767, 32768, 65536}},
		{fs("", uint8(0), "uint16"), []int{255, 256, 257}},
		{fs("", uint8(0), "uint32"), []int{255, 256}},
		{fs("", int8(0), "int64"), []int{127, 128, 256}},
		{fs("", namedU8(0), ""), []int{255, 256}},
	}
	counted := []fieldSpec{fs("", []byte{}, ""), fs("", "", ""), fs("", []uint16{}, ""), fs("", []bool{}, "")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of counters, counts around their limits, %d kinds of counted fields, sizeof and sizefrom, also inside of slices", len(kinds), len(counted)),
		Run: func(c *mc.Ctx) {
			k := kinds[c.Choose(len(kinds))]
			sk := counted[c.Choose(len(counted))]
			from := c.Bool()
			n := k.lens[c.Choose(len(k.lens))]
			c.Mine()
			nested := c.Bool()
			cs, ss := pair(k.f, sk, "", from)
			t := StructOf(many("link", cs, ss), sentinel)
			if nested {
				t = reflect.ArrayOf(2, t)
			}
			v := reflect.New(t).Elem()
			fill := func(v reflect.Value, n int) {
				f := v.FieldByName("S")
				if f.Kind() == reflect.String {
					b := make([]byte, n)
					for i := range b {
						b[i] = 'a' + byte(i%26)
					}
					f.SetString(string(b))
				} else {
					f.Set(reflect.MakeSlice(f.Type(), n, n))
				}
			}
			if nested {
				fill(v.Index(0), 1)
				fill(v.Index(1), n)
			} else {
				fill(v, n)
			}
			o := orders[c.Choose(2)]
			check(c, &Case{T: t, V: v, O: o, Flags: fPack | fUnpack | fRoundTrip})
		},
	}
}

// linkNested is the space of links inside of each other, with the same names.
func linkNested(name string) mc.Space {
	type leaf struct {
		N uint8 `struct:"sizeof=S"`
		S []byte
	}
	type from struct {
		N uint16
		M uint8    `struct:"-"`
		S []uint16 `struct:"sizefrom=N"`
	}
	type nested struct {
		N uint8 `struct:"sizeof=S"`
		X leaf
		S []leaf
		Y from
	}
	type nested2 struct {
		u uint8
		N int16
		Y []from `struct:"sizefrom=N"`
		M uint8  `struct:"sizeof=S"`
		_ uint8
		S []*nested
	}
	type crossed struct {
		N uint8 `struct:"sizeof=T"`
		M uint8 `struct:"sizeof=S"`
		S []byte
		T []leaf
	}
	ts := []reflect.Type{rt(nested{}), rt(nested2{}), rt(crossed{}), rt([2]crossed{}), rt([2]from{})}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d types with links of the same names in each other, all lengths 0 to 2 of every slice", len(ts)),
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			o := orders[c.Choose(2)]
			c.Mine()
			v := Fill(c, t, 1, []int{0, 2})
			setCounters(v, []uint64{0, 1, 9}[c.Choose(3)])
			check(c, &Case{T: t, V: v, O: o, Flags: linkFlags})
		},
	}
}
