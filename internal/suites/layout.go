package suites

import (
	"fmt"
	"reflect"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

const tech = "explicit-state model checking: exhaustive bounded enumeration of schemas, values, inputs and byte orders, every one replayed on the real code and compared with a reference model"

const note = "Exhaustive within the stated bounds: every configuration of every space is run on the real code and compared with an independent reference model. Trusts the reference model (internal/ref), Go's reflect and encoding/binary."

// medium is a selection for the thorough triples.
var medium = func() []Atom {
	var out []Atom
	for i, a := range catalog {
		if i%2 == 0 {
			out = append(out, a)
		}
	}
	return out
}()

// layoutSpaces are the general spaces: every field kind, alone, at every
// offset, in sequences, nested, and in front of a slice that reads to the end.
func layoutSpaces(flags int) []mc.Space {
	deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
	return []mc.Space{
		sequences("one", catalog, 1, allOrders, 4, []int{0, 1, 2, 3}, flags, nil),
		offsets("offsets", catalog, orders, 3, []int{0, 1, 2}, flags),
		sequences("pairs", catalog, 2, orders, 2, []int{0, 2}, flags, nil),
		sequences("triples", core, 3, orders, 1, []int{1}, flags, nil),
		nestings("nested", catalog, 1, orders, 2, []int{0, 2}, flags),
		nestings("nested2", core, 2, orders, 1, []int{1, 2}, flags),
		sequences("open ended", catalog, 1, orders, 2, []int{0, 1, 2}, flags, lastAtoms),
		topLevel("top level", flags),
		castMatrix("casts", flags),
		longStructs("long structs", flags),
		deepTypes("deep types", flags),
		longLists("long lists", flags, true, nil),
		deep(sequences("triples of 70", medium, 3, orders, 1, []int{1}, flags, nil)),
		deep(sequences("quadruples", core[:20], 4, orders, 1, []int{1}, flags, nil)),
		deep(nestings("nested2 all", catalog, 2, orders, 2, []int{0, 2}, flags)),
		deep(nestings("nested3", core, 3, orders, 1, []int{1}, flags)),
	}
}

// topTypes are types handed to the library directly.
var topTypes = []reflect.Type{
	rt(uint8(0)), rt(int16(0)), rt(uint32(0)), rt(int64(0)), rt(float32(0)), rt(float64(0)), rt(complex64(0)), rt(false), rt(int(0)), rt(uint(0)),
	rt([3]uint8{}), rt([2]uint16{}), rt([2]inner{}), rt([2]innerBits{}), rt([2]innerDyn{}), rt([2]innerIf{}), rt([2][2]uint16{}), rt([2]*inner{}),
	rt(inner{}), rt(innerBits{}), rt(innerDyn{}), rt(innerIf{}), rt(innerSkip{}), rt(innerPad{}), rt(innerOrder{}), rt(struct{}{}),
	rt(namedU8(0)), rt(namedArr{}), rt(namedF(0)),
}

// topLevel is the space of values that are not structs, and of plain structs.
func topLevel(name string, flags int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d types passed directly, 5 byte orders, 4 value patterns", len(topTypes)),
		Run: func(c *mc.Ctx) {
			t := topTypes[c.Choose(len(topTypes))]
			c.Mine()
			valueSpace(c, t, allOrders, 4, []int{0, 1, 2, 3}, flags)
		},
	}
}

func propC01() *mc.Property {
	return &mc.Property{ID: "C01", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Signed bit fields of int8 are left to C06, where their known defect is listed."},
		Spaces: func(tier string) []mc.Space {
			return append(layoutSpaces(fRoundTrip), extremes("extreme values", fRoundTrip|fUnpack), customSequences("custom pairs", customCore, 2, orders, 1, []int{0, 2}, fRoundTrip, nil))
		}}
}

func propC02() *mc.Property {
	return &mc.Property{ID: "C02", Technique: tech, Level: "model_checking", LevelNote: note,
		Spaces: func(tier string) []mc.Space {
			return append(layoutSpaces(fPack|fUnpack), extremes("extreme values", fPack|fUnpack), garbage("arbitrary bytes"))
		}}
}

func propC03() *mc.Property {
	return &mc.Property{ID: "C03", Technique: tech, Level: "model_checking", LevelNote: note,
		Spaces: func(tier string) []mc.Space {
			return append(layoutSpaces(fSizes|fPack|fUnpack), customSequences("custom pairs", customCore, 2, orders, 1, []int{0, 2}, fSizes|fPack|fUnpack, nil), nilPointers("nil pointers", fSizes|fPack),
				sequences("expressions in pairs", join(inoutAtoms, oneWay, condAtoms, switchAtoms), 2, orders[:1], 1, []int{0, 2}, fSizes|fPack, nil),
				bitSizers("types that know their size in bits"))
		}}
}

// extremes is the space of boundary values of every scalar type, cast and
// width.
func extremes(name string, flags int) mc.Space {
	from := join(scalars, casts, bitAtoms, boolAtoms)
	ext := []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
		0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0x0123456789abcdef, 0xfedcba9876543210}
	floats := []uint64{0, 1, 0x8000000000000000, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x000fffffffffffff,
		0x36a0000000000000, 0x47efffffe0000000, 0x7ff8000000000000, 0xbff8000000000001, 0x400921fb54442d18}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d scalar field kinds at 8 bit offsets, %d boundary values each (%d for floats), 2 byte orders", len(from), len(ext), len(floats)),
		Run: func(c *mc.Ctx) {
			a := from[c.Choose(len(from))]
			k := c.Choose(8)
			c.Mine()
			t := typeOf([]Atom{misalign(k), a, sentinel})
			o := orders[c.Choose(2)]
			v := reflect.New(t).Elem()
			n := c.Choose(len(ext))
			i := 0
			if k > 0 {
				v.Field(0).SetUint(ext[n])
				i = 1
			}
			setRaw(v.Field(i), ext[n], floats[n%len(floats)])
			v.Field(i + 1).SetUint(0x5a)
			check(c, &Case{T: t, V: v, O: o, Flags: flags})
		},
	}
}

func setRaw(v reflect.Value, x, fl uint64) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			setRaw(v.Index(i), x, fl)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 3, 3))
		for i := 0; i < v.Len(); i++ {
			setRaw(v.Index(i), x, fl)
		}
	case reflect.Bool:
		v.SetBool(x&1 == 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(floatBits(fl))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(floatBits(fl), floatBits(fl>>3)))
	default:
		if v.CanInt() {
			v.SetInt(int64(x))
		} else {
			v.SetUint(x)
		}
	}
}

// garbage is the space of arbitrary bytes: whatever the input is, its value or
// its error is known.
func garbage(name string) mc.Space {
	alphabet := []byte{0x00, 0x01, 0x7f, 0x80, 0xff, 0xa5}
	small := []byte{0x00, 0x01, 0x02, 0x61}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds at 4 bit offsets; input bytes: all sequences of 3 of %d bytes, repeated with changes, and all sequences of 4 of %d bytes, repeated", len(catalog), len(alphabet), len(small)),
		Run: func(c *mc.Ctx) {
			a := catalog[c.Choose(len(catalog))]
			k := []int{0, 1, 4, 7}[c.Choose(4)]
			c.Mine()
			t := typeOf([]Atom{misalign(k), a, sentinel})
			o := orders[c.Choose(2)]
			data := make([]byte, 60)
			if c.Bool() {
				var p [4]byte
				for i := range p {
					p[i] = small[c.Choose(len(small))]
				}
				for i := range data {
					data[i] = p[i%4]
				}
			} else {
				var p [3]byte
				for i := range p {
					p[i] = alphabet[c.Choose(len(alphabet))]
				}
				for i := range data {
					data[i] = p[i%3] ^ byte(i/3)*0x11
				}
			}
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: o}
			checkDecode(c, kase, data)
		},
	}
}

// checkDecode compares what Unpack makes of some input with the model.
func checkDecode(c *mc.Ctx, k *Case, data []byte) {
	c.State(1)
	c.Sample(func() string { return fmt.Sprintf("input %x order %s type %s", data, k.O.Name, ref.ShowType(k.T)) })
	m := &ref.Model{}
	dv := reflect.New(k.T).Elem()
	in, derr := m.Decode(data, dv, k.O.E)
	c.Step(m.Steps)
	if derr == ref.ErrUnspecified {
		return
	}
	uv := reflect.New(k.T).Elem()
	err := unpack(c, k, "", data, k.O.O, uv.Addr().Interface())
	c.Trace(1)
	if derr == nil && in.Pos > 8*len(data) {
		if err == nil {
			if d := ref.Equal(uv, dv); d != nil {
				c.Fail("Unpack of %x: %v\n%s", data, d, k)
			}
		}
		return
	}
	compareUnpacked(c, k, "", data, uv, err, dv, derr)
}

// nilPointers leaves any pointers of a value nil: nothing is encoded.
func nilPointers(name string, flags int) mc.Space {
	from := join(pointerAtoms, pickAtoms("ptr-lsb", "ptr-skip1", "arr-ptr", "ptrs-sizeof", "switch", "u8", "u16:5"))
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all pairs of %d field kinds, every subset of their pointers nil", len(from)),
		Run: func(c *mc.Ctx) {
			atoms := append(chooseAtoms(c, from, 2), sentinel)
			c.Mine()
			t := typeOf(atoms)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{2})
			cutPointers(c, v)
			check(c, &Case{T: t, V: v, O: o, Flags: flags})
		},
	}
}

func cutPointers(c *mc.Ctx, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && c.Bool() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				cutPointers(c, v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cutPointers(c, v.Index(i))
		}
	}
}

func propC22() *mc.Property {
	return &mc.Property{ID: "C22", Technique: tech, Level: "model_checking", LevelNote: note,
		Spaces: func(tier string) []mc.Space {
			const flags = fPack | fSizes | fByValue
			s := layoutSpaces(flags)
			dynamic := join(condAtoms[:len(condAtoms)-1], inoutAtoms[:len(inoutAtoms)-1], oneWay, switchAtoms)
			return append(s,
				sequences("expressions in pairs", dynamic, 2, orders[:1], 1, []int{0, 2}, flags, nil),
				nestings("expressions nested", dynamic, 1, orders, 1, []int{2}, flags),
				caseBodies("bodies of cases", 2, flags),
				whileEncode("while slices"),
				references("references"),
				customSequences("custom pairs", customCore, 2, orders, 1, []int{0, 2}, fSizes|fPack|fByValue, nil), stale("stale counters", fPack|fSizes|fByValue), unsettable("values that cannot be set"))
		}}
}

// stale is the space of counters that hold something else before packing.
func stale(name string, flags int) mc.Space {
	from := pickAtoms("bytes-sizeof", "u16s-sizefrom", "structs-sizeof", "bitstructs-sizeof", "dyn-sizeof", "str-sizeof", "str-sizefrom", "slices-as", "arr-dyn", "struct-dyn", "ptr-dyn", "slice-skip2")
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all pairs of %d kinds of counted fields, all counters holding 5 other values", len(from)),
		Run: func(c *mc.Ctx) {
			atoms := append(chooseAtoms(c, from, 2), sentinel)
			c.Mine()
			t := typeOf(atoms)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{0, 1, 3})
			setCounters(v, []uint64{0, 1, 2, 7, 0x7f}[c.Choose(5)])
			check(c, &Case{T: t, V: v, O: o, Flags: flags})
		},
	}
}

// setCounters gives every counter of a value another content.
func setCounters(v reflect.Value, x uint64) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			setCounters(v.Elem(), x)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			setCounters(v.Index(i), x)
		}
	case reflect.Struct:
		for _, f := range ref.Fields(v.Type()) {
			if f.Name == "_" || f.Root || f.Parent {
				continue
			}
			fv := v.Field(f.Index)
			if f.Counts >= 0 {
				if fv.CanInt() {
					fv.SetInt(int64(x))
				} else {
					fv.SetUint(x)
				}
				continue
			}
			setCounters(fv, x)
		}
	}
}

// unsettable is the space of targets that Unpack cannot write to.
func unsettable(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds and %d plain types by value as targets of Unpack, inputs of 0 to 3 and of 64 bytes", len(catalog), len(topTypes)),
		Run: func(c *mc.Ctx) {
			i := c.Choose(len(catalog) + len(topTypes))
			c.Mine()
			var t reflect.Type
			if i < len(catalog) {
				t = typeOf([]Atom{catalog[i], sentinel})
			} else {
				t = topTypes[i-len(catalog)]
			}
			if t.Size() == 0 || t.Kind() == reflect.Struct && t.NumField() == 0 {
				c.Prune()
			}
			n := []int{0, 1, 2, 3, 64}[c.Choose(5)]
			data := make([]byte, n)
			for i := range data {
				data[i] = 1
			}
			v := FillSimple(t, 1, 0)
			before := deepCopy(v)
			k := &Case{T: t, V: v, O: orders[0]}
			c.State(1)
			var err error
			safely(c, "Unpack by value", k.String, func() { err = restruct.Unpack(data, k.O.O, v.Interface()) })
			c.Trace(1)
			c.Step(1)
			if err == nil {
				c.Fail("Unpack into a value passed by value reports no error\n%s", k)
			}
			if d := ref.Equal(v, before); d != nil && isPlain(t) {
				c.Fail("Unpack by value changes the value: %v", d)
			}
		},
	}
}
