package suites

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C12: while, in, out, root and parent.
func propC12() *mc.Property {
	return &mc.Property{ID: "C12", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"_eof is used in while conditions on byte boundaries and not when packing.", "An in or out expression gives a value that fits the field's type."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				whiles("while loops"),
				whileEncode("packing while slices"),
				longLists("long while loops", linkFlags, true, nil, "while"),
				inouts("in and out"),
				sequences("in and out in a row", inoutAtoms, 2, orders, 2, []int{0, 2}, inoutFlags, nil),
				nestings("in and out nested", inoutAtoms, 2, orders[:1], 1, []int{1}, inoutFlags),
				references("references"),
				trees("trees", 4),
				chains("chains"),
				chunks("moving elements"),
				whileKinds("kinds of elements of while slices", join(core, parentAtoms), true, 2, 1, fPack|fSizes|fUnpackExact|fRoundTrip),
				deep(whileKinds("more kinds of elements of while slices", catalog, true, 3, 2, fPack|fSizes|fUnpackExact|fRoundTrip|fDirty)),
				counted("counted elements", 0, 280, 4),
				deep(counted("more counted elements", 0, 600, 1)),
				moves("moving elements of all kinds", []byte{0, 1, 2, 3, 4, 8, 16, 31}, 60, 0, 2, 14),
				deep(moves("more moving elements of all kinds", []byte{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 27, 31}, 90, 0, 1, 5, 14, 60)),
				deep(trees("larger trees", 6)),
				deep(sequences("in and out in a longer row", inoutAtoms, 3, orders[:1], 1, []int{1}, inoutFlags, nil)),
			}
		}}
}

const inoutFlags = fPack | fSizes | fUnpack | fRoundTrip | fDirty | fRepeat

var inoutAtoms = []Atom{
	many("add", fs("K$", uint8(0), mcTag("uint8", "0,3")), fs("F$", uint8(0), "out=F$ + K$,in=F$ - K$")),
	many("xor", fs("F$", uint16(0), "big,out=F$ ^ 0xff00,in=F$ ^ 0xff00")),
	many("neg", fs("F$", int32(0), "out=-F$,in=-F$")),
	many("not", fs("F$", false, "out=!F$,in=!F$")),
	many("notv", fs("F$", false, "uint16,variantbool,out=!F$,in=!F$")),
	many("float", fs("F$", float64(0), "out=F$ * 2.0,in=F$ / 2.0")),
	many("float32", fs("F$", float32(0), "little,out=F$ + 1.0,in=F$ - 1.0")),
	many("bits4", fs("F$", uint8(0), "uint8:4,out=F$ ^ 5,in=F$ ^ 5")),
	many("bits11", fs("F$", uint16(0), "uint16:11,big,out=F$ << 1,in=F$ >> 1")),
	many("cast", fs("F$", int(0), "int16,out=F$ * 3,in=F$ / 3")),
	many("named", fs("F$", namedI32(0), "int16,out=F$ - 7,in=F$ + 7")),
	many("namedu8", fs("F$", namedU8(0), "skip=1,out=F$ * 2,in=F$ / 2")),
	many("shift", fs("F$", uint64(0), "uint32,out=F$ >> 8,in=F$ << 8")),
	many("cond", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", uint8(0), "out=K$ == 1 ? F$ + 1 : F$,in=K$ == 1 ? F$ - 1 : F$")),
	many("if", fs("K$", uint8(0), mcTag("uint8", "0,1")), fs("F$", uint16(0), "if=K$ == 1,out=F$ | 0x8000,in=F$ & 0x7fff")),
	many("member", fs("X$", inner{}, ""), fs("F$", uint16(0), "out=F$ + X$.Y,in=F$ - X$.Y")),
	many("element", fs("R$", [2]uint8{}, ""), fs("F$", uint8(0), "out=F$ - R$[1],in=F$ + R$[1]")),
	many("reverse", fs("F$", uint32(0), "out=bits.ReverseBytes32(F$),in=bits.ReverseBytes32(F$)")),
	many("sep", fieldSpec{"F$", rt(uint8(0)), `struct:"uint8:5" struct-out:"F$ + 1" struct-in:"F$ - 1"`}),
	many("slice", fs("G$", []uint16{}, `struct:"-"`), fs("F$", [2]uint16{}, "")),
	many("bitsx", fs("K$", uint8(0), mcTag("uint8", "7,12")), fs("F$", uint16(0), "bits=K$,out=F$ ^ 1,in=F$ ^ 1")),
	many("plain", fs("F$", uint16(0), "")),
}

// oneWay are expressions that are not each other's inverse.
var oneWay = []Atom{
	many("later", fs("F$", uint8(0), "out=F$ ^ K$"), fs("K$", uint8(0), mcTag("uint8", "0,255"))),
	many("outonly", fs("F$", uint8(0), "out=F$ + 1")),
	many("inonly", fs("F$", uint8(0), "in=F$ + 1")),
	many("str", fs("F$", "", "[4]byte,out=F$ + \"!\"")),
	many("outslice", fs("G$", []uint16{}, "[2]uint16"), fs("F$", []uint16{}, "[2]uint16,out=G$")),
	many("outsized", fs("K$", uint8(0), mcTag("uint8", "1,3")), fs("G$", []uint8{}, "size=K$"), fs("F$", []uint8{}, "size=K$,out=G$")),
	many("outstring", fs("K$", uint8(0), mcTag("uint8", "0,2")), fs("G$", "", "size=K$"), fs("F$", "", "size=K$,out=G$")),
	many("outstruct", fs("G$", inner{}, ""), fs("F$", inner{}, "out=G$")),
	many("outdyn", fs("G$", innerDyn{}, ""), fs("F$", innerDyn{}, "out=G$")),
	many("outptr", fs("G$", (*inner)(nil), ""), fs("F$", (*inner)(nil), "out=G$")),
	many("outarray", fs("G$", [2]uint16{}, ""), fs("F$", [2]uint16{}, "big,out=G$")),
	many("outelem", fs("G$", [2]inner{}, ""), fs("F$", inner{}, "out=G$[1]")),
	many("lossy", fs("F$", uint8(0), "out=F$ & 0xf0,in=F$ >> 4")),
	many("outfloat32", fs("G$", float32(0), ""), fs("F$", float32(0), "out=G$")),
	many("instruct", fs("G$", inner{}, ""), fs("F$", inner{}, "in=G$")),
	many("instruct1", fs("G$", struct{ A uint8 }{}, ""), fs("F$", struct{ A uint8 }{}, "in=G$")),
	many("inarray", fs("G$", [2]uint16{}, ""), fs("F$", [2]uint16{}, "big,in=G$")),
	many("inelem", fs("G$", [2][2]uint8{}, ""), fs("F$", [2]uint8{}, "in=G$[1]")),
	many("instring", fs("K$", uint8(0), mcTag("uint8", "0,2")), fs("G$", "", "size=3"), fs("F$", "", "size=K$,in=G$")),
	many("instringfix", fs("F$", "", "[3]uint8,in=F$ + \"!\"")),
	many("inslice", fs("K$", uint8(0), mcTag("uint8", "0,2")), fs("G$", []uint16{}, "size=2"), fs("F$", []uint16{}, "size=K$,in=G$")),
	many("inslicefix", fs("G$", []inner{}, "size=1"), fs("F$", []inner{}, "size=2,in=G$")),
	many("infloat", fs("G$", float64(0), ""), fs("F$", float64(0), "in=G$")),
	many("inbool", fs("G$", false, ""), fs("F$", false, "in=!G$")),
	many("inboolself", fs("F$", false, "invertedbool,in=!F$")),
	many("instructs", fs("F$", []struct {
		A uint8 `struct:"out=A + 1,in=A - 1"`
		B uint8 `struct:"in=A"`
	}{}, "size=2")),
}

// onlyOnce are atoms that cannot occur twice.
var onlyOnce = []Atom{
	many("inswitch", fs("KS", uint8(0), mcTag("uint8", "1,2")), fs("F$", struct {
		A uint8 `struct:"case=1,in=KS + 1"`
		B uint8 `struct:"case=2,out=KS ^ 0x2f,in=KS ^ 0x1f"`
	}{}, "switch=KS")),
}

// inouts is the space of in and out on all values.
func inouts(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of in and out expressions at 8 bit offsets, 4 value patterns, 2 byte orders, packed twice, passed both ways; every value of bytes", len(inoutAtoms)+len(oneWay)+len(onlyOnce)),
		Run: func(c *mc.Ctx) {
			i := c.Choose(len(inoutAtoms) + len(oneWay) + len(onlyOnce))
			flags := inoutFlags
			var a Atom
			if i < len(inoutAtoms) {
				a = inoutAtoms[i]
			} else {
				a = join(oneWay, onlyOnce)[i-len(inoutAtoms)]
				flags &^= fRoundTrip
			}
			off := c.Choose(8)
			c.Mine()
			t := typeOf([]Atom{misalign(off), a, sentinel})
			if c.Bool() {
				valueSpace(c, t, orders, 4, []int{0, 1, 3}, flags|fByValue|fTrunc)
				return
			}
			// Every byte as the last field of the atom.
			v := FillSimple(t, 1, 1)
			f := v.Field(v.NumField() - 2)
			if !f.CanUint() && !f.CanInt() {
				c.Prune()
			}
			setInteger(f, uint64(c.Choose(256)))
			check(c, &Case{T: t, V: v, O: orders[0], Flags: flags})
		},
	}
}

// whiles is the space of while conditions over all streams.
func whiles(name string) mc.Space {
	elems := []fieldSpec{
		fs("", []uint8{}, ""), fs("", []uint16{}, ""), fs("", []inner{}, ""), fs("", []innerDyn{}, ""), fs("", []innerIf{}, ""), fs("", []*inner{}, ""), fs("", [][2]uint8{}, ""), fs("", []int{}, "[]int16"), fs("", []uint32{}, "big"),
		fs("", []bool{}, ""), fs("", []cVar{}, ""), fs("", []*cPtr{}, ""), fs("", []innerSkip{}, ""), fs("", []whileSwitch{}, ""), fs("", namedSl{}, "skip=1"), fs("", []innerBits{}, ""),
		fs("", [5]uint8{}, "[]uint8"), fs("", [4]uint16{}, "[]uint16,big"), fs("", [3]bool{}, "[]bool,skip=1"), fs("", [3][2]uint8{}, "[][2]uint8"), fs("", [2]int{}, "[]int16"), fs("", [9]int64{}, "[]int32"), fs("", [0]uint8{}, "[]uint8"),
	}
	conds := []string{"!_eof", "!_eof && K == 1", "K == 1 && !_eof", "false", "!(_eof || K > 1)", "_eof == false", "_eof != true && true", "_eof ? false : K < 2", "K == 9"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of elements, %d conditions, by while and by struct-while, streams of 0 to 18 bytes of 3 patterns, fresh and used targets, a following field or none", len(elems), len(conds)),
		Run: func(c *mc.Ctx) {
			f := elems[c.Choose(len(elems))]
			w := conds[c.Choose(len(conds))]
			sep, last := c.Bool(), c.Bool()
			c.Mine()
			f.Name = "S"
			if sep {
				f.Tag = st(rawTag(f.Tag)) + ` struct-while:"` + w + `"`
			} else {
				f.Tag = st(joinTag(rawTag(f.Tag), "while="+w))
			}
			list := []Atom{one("k", uint8(0), ""), {Fields: []fieldSpec{fs("K", uint8(0), ""), f}}}
			if last {
				list = append(list, sentinel)
			}
			t := StructOf(list...)
			n := c.Choose(19)
			p := c.Choose(3)
			k := c.Choose(3)
			o := orders[c.Choose(2)]
			data := make([]byte, 2+n)
			for i := range data {
				switch p {
				case 0:
					data[i] = byte(i%3) + 1
				case 1:
					data[i] = byte(i * 37)
				}
			}
			data[1] = byte(k)
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: o}
			checkDecode(c, kase, data)

			// Into a target with earlier contents.
			m := &ref.Model{}
			base := FillSimple(t, 3, 0)
			saturate(base, 2, 0)
			want := deepCopy(base)
			in, derr := m.Decode(data, want, o.E)
			if derr != nil && derr != ref.ErrUnspecified || derr == nil && in.Pos <= 8*len(data) {
				err := unpack(c, kase, "into a used value", data, o.O, base.Addr().Interface())
				compareUnpacked(c, kase, "into a used value", data, base, err, want, derr)
				c.Trace(1)
			}
		},
	}
}

type whileSwitch struct {
	K uint8
	V struct {
		A uint8  `struct:"case=1"`
		B uint16 `struct:"default"`
	} `struct:"switch=K"`
}

// whileEncode is the space of slices with a while condition, packed.
func whileEncode(name string) mc.Space {
	elems := []fieldSpec{fs("", []uint8{}, ""), fs("", []uint16{}, ""), fs("", []inner{}, ""), fs("", []innerDyn{}, ""), fs("", []*inner{}, ""), fs("", []cVar{}, ""), fs("", []whileSwitch{}, ""), fs("", []uint32{}, "big,skip=1")}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of elements, 0 to 4 of them, behind each field kind of a selection of %d", len(elems), len(core)),
		Run: func(c *mc.Ctx) {
			f := elems[c.Choose(len(elems))]
			a := core[c.Choose(len(core))]
			c.Mine()
			f.Name = "S"
			f.Tag = st(joinTag(rawTag(f.Tag), "while=!_eof")) + ` mc:"len=0,1,2,4"`
			t := StructOf(one("k", uint8(0), ""), a, Atom{Fields: []fieldSpec{f}})
			valueSpace(c, t, orders, 2, []int{1}, fPack|fSizes|fUnpackExact|fRoundTrip|fByValue)
		},
	}
}

// Types with references to enclosing structs.
type refTop struct {
	K    uint8 `mc:"0,1,2"`
	One  refMid
	N    uint8 `struct:"sizeof=Many"`
	Many []refMid
	Ptr  *refMid
	Arr  [2]refLeaf
	Sw   refSwitch `struct:"switch=K"`
	Opt  refMid    `struct:"if=K == 1"`
	M    uint8     `struct:"sizeof=Ptrs"`
	Ptrs []*refMid
	End  uint8
}

type refMid struct {
	R  *refTop `struct:"root"`
	P  *refTop `struct:"parent"`
	V  uint8   `struct:"out=V + P.K,in=V - P.K"`
	L  refLeaf
	Ls []refLeaf `struct:"size=P.K"`
	X  uint8     `struct:"if=R.K == 1"`
}

type refLeaf struct {
	M *refMid `struct:"parent"`
	G *refTop `struct:"parent"`
	R *refTop `struct:"root"`
	A uint8
	B uint8 `struct:"if=G.K != 0"`
}

type refSwitch struct {
	A refMid    `struct:"case=0"`
	B *refLeaf  `struct:"case=1"`
	C [2]refMid `struct:"default"`
}

// References of interface types and of declared pointer types.
type (
	refMidder interface{ refMidder() }
	refTopper interface{ Topper() int }
	refAny    interface{}
	refTopPtr *refITop
	refMidPtr *refIMid
)

func (t *refITop) Topper() int { return 1 }
func (m refIMid) refMidder()   {}
func (m *refIMid) Topper() int { return 2 }

type refITop struct {
	R interface{} `struct:"root"`
	Q refTopPtr   `struct:"root"`
	T refTopper   `struct:"root"`
	M refMidder   `struct:"root"`
	K uint8       `mc:"0,1,2"`
	A refIMid
	B *refIMid `struct:"if=K == 1"`
	N uint8    `struct:"sizeof=C"`
	C []refIMid
	S refISwitch `struct:"switch=K"`
}

type refISwitch struct {
	A refIMid     `struct:"case=0"`
	B *refILeaf   `struct:"case=1"`
	C [2]refILeaf `struct:"default"`
}

type refIMid struct {
	P  interface{} `struct:"parent"`
	PA refAny      `struct:"parent"`
	PT refTopper   `struct:"parent"`
	PM refMidder   `struct:"parent"`
	PP refTopPtr   `struct:"parent"`
	R  refAny      `struct:"root"`
	RT refTopper   `struct:"root"`
	N  uint8       `struct:"sizeof=L"`
	L  []refILeaf
	Q  *refILeaf
	E  error `struct:"parent"`
}

type refILeaf struct {
	P  interface{}         `struct:"parent"`
	PT refTopper           `struct:"parent"`
	PM refMidder           `struct:"parent"`
	PP refTopPtr           `struct:"parent"`
	MP refMidPtr           `struct:"parent"`
	D  *refIMid            `struct:"parent"`
	I  interface{ Nope() } `struct:"parent"`
	R  refTopper           `struct:"root"`
	RP refTopPtr           `struct:"root"`
	T  *refITop            `struct:"root"`
	X  uint8               `struct:"if=T.K == 1"`
	Y  uint8
}

// checkRefs compares the references of a value with the structs that really
// enclose it.
func checkRefs(v reflect.Value, chain []reflect.Value, path string) error {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return checkRefs(v.Elem(), chain, path+"*")
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := checkRefs(v.Index(i), chain, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		if m, ok := v.Addr().Interface().(*moveCustom); ok {
			if m.P != moveOwn || m.L.P != moveOwn {
				return fmt.Errorf("%s: the fields of a type that reads itself are set by somebody else", path)
			}
			return nil
		}
		here := append(chain[:len(chain):len(chain)], v)
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			f := v.Field(i)
			p := path + "." + sf.Name
			tag := sf.Tag.Get("struct")
			var want reflect.Value
			switch tag {
			case "root":
				want = here[0]
			case "parent":
				for j := len(chain) - 1; j >= 0; j-- {
					if reflect.PtrTo(chain[j].Type()).AssignableTo(f.Type()) {
						want = chain[j]
						break
					}
				}
			default:
				if tag == "-" || sf.PkgPath != "" || f.IsZero() {
					continue
				}
				if ref.Fields(v.Type()) != nil && rawSwitch(sf) {
					// Members of a switch have no struct of their own.
					for j := 0; j < f.NumField(); j++ {
						if !f.Field(j).IsZero() {
							if err := checkRefs(f.Field(j), here, p+"."+f.Type().Field(j).Name); err != nil {
								return err
							}
						}
					}
					continue
				}
				if err := checkRefs(f, here, p); err != nil {
					return err
				}
				continue
			}
			if !want.IsValid() || !want.Addr().Type().AssignableTo(f.Type()) {
				continue
			}
			if f.Kind() == reflect.Interface {
				if f.IsNil() {
					return fmt.Errorf("%s (%s) is nil, the struct is at %#x", p, tag, want.Addr().Pointer())
				}
				f = f.Elem()
				if f.Type() != want.Addr().Type() {
					return fmt.Errorf("%s (%s) holds a %s, the struct is a %s", p, tag, f.Type(), want.Type())
				}
			}
			if f.Pointer() != want.Addr().Pointer() {
				return fmt.Errorf("%s (%s) points at %#x, the struct is at %#x", p, tag, f.Pointer(), want.Addr().Pointer())
			}
		}
	}
	return nil
}

func rawSwitch(sf reflect.StructField) bool {
	return contains(sf.Tag.Get("struct"), "switch=")
}

// checkReferences packs, sizes and unpacks a value and looks at references.
func checkReferences(c *mc.Ctx, k *Case) {
	m := &ref.Model{}
	s, merr := m.Encode(deepCopy(k.V), k.O.E)
	if merr != nil {
		return
	}
	look := func(what string, v reflect.Value) {
		if err := checkRefs(v, nil, ""); err != nil {
			c.Fail("after %s: %v\n%s", what, err, k)
		}
		c.Trace(1)
	}
	v := deepCopy(k.V)
	sizes(c, k, "", v.Addr().Interface())
	look("SizeOf", v)
	v = deepCopy(k.V)
	pack(c, k, "", k.O.O, v.Addr().Interface())
	look("Pack", v)
	// A shallow copy refers to the original until it is packed.
	w := reflect.New(k.T).Elem()
	w.Set(v)
	data, err := pack(c, k, "of a copy", k.O.O, w.Addr().Interface())
	if err != nil || !bytes.Equal(data, s.Bytes()) {
		c.Fail("Pack of a copy gives %x (%v), expected %x\n%s", data, err, s.Bytes(), k)
	}
	look("Pack of a copy", w)
	u := reflect.New(k.T).Elem()
	if err := unpack(c, k, "", s.Bytes(), k.O.O, u.Addr().Interface()); err != nil {
		c.Fail("Unpack of %x gives %v\n%s", s.Bytes(), err, k)
	}
	look("Unpack", u)
}

// references is the space of structs that refer to the ones around them.
func references(name string) mc.Space {
	ts := []reflect.Type{rt(refTop{}), rt(parentOuter{}), rt(refITop{})}
	return mc.Space{
		Name:   name,
		Bounds: "types with root and parent references (pointers, declared pointers, interfaces) at 3 levels, in structs, arrays, slices, pointers, switches and conditional fields, used by if, size, in and out; 0 to 2 elements; identity of every reference after Pack, SizeOf and Unpack",
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			o := orders[c.Choose(2)]
			p := c.Choose(3)
			c.Mine()
			v := Fill(c, t, p, []int{0, 1, 2})
			k := &Case{T: t, V: v, O: o, Flags: inoutFlags | fTrunc | fByValue}
			check(c, k)
			checkReferences(c, k)
		},
	}
}

// refNode is a tree.
type refNode struct {
	Up   *refNode `struct:"parent"`
	Top  *refNode `struct:"root"`
	V    uint8
	N    uint8 `struct:"sizeof=Kids"`
	Kids []refNode
	W    uint16   `struct:"if=Top.V == 1"`
	P    *refPart `struct:"if=V > 1"`
}

type refPart struct {
	Up  *refNode `struct:"parent"`
	Top *refNode `struct:"root"`
	X   uint8    `struct:"if=Up.V == 2"`
	Y   []byte   `struct:"size=Top.N"`
}

// trees is the space of trees of nodes that refer to each other.
func trees(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all trees of up to %d nodes, every node with one of 4 values that nested expressions depend on", n),
		Run: func(c *mc.Ctx) {
			left := n
			count := 0
			var build func() refNode
			build = func() refNode {
				left--
				nd := refNode{V: uint8(c.Choose(4))}
				count++
				if count == 2 {
					c.Mine()
				}
				for left > 0 && c.Bool() {
					nd.Kids = append(nd.Kids, build())
				}
				nd.N = uint8(len(nd.Kids))
				return nd
			}
			root := build()
			if count < 2 {
				c.Mine()
			}
			var fill func(nd *refNode, k int)
			fill = func(nd *refNode, k int) {
				if root.V == 1 {
					nd.W = uint16(0x100 + k)
				}
				if nd.V > 1 {
					nd.P = &refPart{Y: make([]byte, root.N)}
					for i := range nd.P.Y {
						nd.P.Y[i] = byte(0x30 + k + i)
					}
					if nd.V == 2 {
						nd.P.X = byte(0x70 + k)
					}
				}
				for i := range nd.Kids {
					fill(&nd.Kids[i], 2*k+i+1)
				}
			}
			fill(&root, 0)
			k := &Case{T: rt(root), V: reflect.ValueOf(&root).Elem(), O: orders[0], Flags: fPack | fSizes | fUnpack | fRoundTrip}
			check(c, k)
			checkReferences(c, k)
		},
	}
}

// Elements that move while their slice grows.
type refChunks struct {
	K uint8
	C []refChunk `struct:"while=!_eof"`
}

type refChunk struct {
	P   *refChunks `struct:"parent"`
	R   *refChunks `struct:"root"`
	N   uint8      `struct:"sizeof=D"`
	D   []byte
	L   refChunkLeaf
	Q   *refChunkLeaf  `struct:"if=N > 0"`
	Sub []refChunkLeaf `struct:"size=N"`
}

type refChunkLeaf struct {
	C *refChunk  `struct:"parent"`
	P *refChunks `struct:"parent"`
	Z uint8      `struct:"if=C.N > 1"`
	Y uint16     `struct:"if=P.K == 1"`
	X uint8
}

type refOuterChunks struct {
	K  uint8
	A  refChunk2
	Cs []refChunks2 `struct:"while=!_eof"`
}

type refChunks2 struct {
	O *refOuterChunks `struct:"parent"`
	K uint8
	C []refChunk2 `struct:"while=!_eof && K == O.K"`
}

type refChunk2 struct {
	P *refChunks2     `struct:"parent"`
	O *refOuterChunks `struct:"parent"`
	R *refOuterChunks `struct:"root"`
	N uint8           `struct:"sizeof=D"`
	D []refChunk2Leaf
}

type refChunk2Leaf struct {
	U *refChunk2  `struct:"parent"`
	P *refChunks2 `struct:"parent"`
	V uint8       `struct:"if=U.N != 1"`
	W uint8
}

type refCounted struct {
	K uint8
	N uint16       `struct:"sizeof=E"`
	E []refCounts  `struct:"skip=1"`
	F []*refCounts `struct:"size=N % 3"`
	T uint8
}

type refCounts struct {
	P *refCounted `struct:"parent"`
	R *refCounted `struct:"root"`
	B [8]uint64   `struct:"-"`
	V uint8       `struct:"if=P.K < 2"`
	L refCountLeaf
}

type refCountLeaf struct {
	C *refCounts  `struct:"parent"`
	P *refCounted `struct:"parent"`
	W uint8       `struct:"if=P.K != 1"`
	X uint8       `struct:"if=C.V == 3"`
	Y uint8       `struct:"uint8:4"`
	Z uint8       `struct:"uint8:4"`
}

// counted is the space of streams that are read into slices of given lengths,
// which are longer than the library dares to allocate at once.
func counted(name string, from, to, step int) mc.Space {
	t := rt(refCounted{})
	pats := [][]byte{{1}, {2, 3}, {3, 1, 2}}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("streams of %d to %d counted elements (every %dth) with references to the structs around them and from their own parts to them, %d patterns of bytes, the input as long as needed, 1 byte shorter and 100 bytes longer; identity of every reference", from, to, step, len(pats)),
		Run: func(c *mc.Ctx) {
			n := from + step*c.Choose((to-from)/step+1)
			c.Mine()
			p := pats[c.Choose(len(pats))]
			k := byte(c.Choose(3))
			data := []byte{k, byte(n), byte(n >> 8)}
			for i := 0; i < 4*n+20; i++ {
				data = append(data, p[i%len(p)])
			}
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			m := &ref.Model{}
			want := reflect.New(t).Elem()
			in, derr := m.Decode(data, want, kase.O.E)
			c.Step(m.Steps)
			if derr != nil {
				panic(derr)
			}
			data = data[:in.Pos/8]
			short := false
			switch c.Choose(3) {
			case 1:
				data = data[:len(data)-1]
				short = true
			case 2:
				data = append(data, make([]byte, 100)...)
			}
			u := reflect.New(t).Elem()
			err := unpack(c, kase, "", data, kase.O.O, u.Addr().Interface())
			c.Trace(1)
			if (err != nil) != short {
				c.Fail("Unpack of %s gives error %v\n%s", shortHex(data), err, kase)
			}
			if err != nil {
				return
			}
			if d := ref.Equal(u, want); d != nil {
				c.Fail("Unpack of %s: %v\n%s", shortHex(data), d, kase)
			}
			if err := sameRefs(u, want, ""); err != nil {
				c.Fail("after Unpack of %s: %v\n%s", shortHex(data), err, kase)
			}
			if err := checkRefs(u, nil, ""); err != nil {
				c.Fail("after Unpack of %s: %v\n%s", shortHex(data), err, kase)
			}
			c.State(1)
		},
	}
}

// chunks is the space of streams that are read into growing slices.
func chunks(name string) mc.Space {
	ts := []reflect.Type{rt(refChunks{}), rt(refOuterChunks{})}
	return mc.Space{
		Name:   name,
		Bounds: "two types with references from elements of while slices to the structs around them, streams of every length up to 24 bytes over patterns that give 0 to 12 elements; identity of every reference",
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			n := c.Choose(25)
			c.Mine()
			// The first bytes in all combinations, the rest repeats.
			var p [4]byte
			for i := range p {
				p[i] = byte(c.Choose(4))
			}
			k0 := byte(c.Choose(3))
			data := make([]byte, n)
			for i := range data {
				data[i] = p[i%4]
			}
			if n > 0 {
				data[0] = k0
			}
			kase := &Case{T: t, V: reflect.New(t).Elem(), O: orders[c.Choose(2)]}
			checkDecode(c, kase, data)
			u := reflect.New(t).Elem()
			if err := unpack(c, kase, "", data, kase.O.O, u.Addr().Interface()); err == nil {
				if err := checkRefs(u, nil, ""); err != nil {
					c.Fail("after Unpack of %x: %v\n%s", data, err, kase)
				}
				// And back.
				back, err := pack(c, kase, "", kase.O.O, u.Addr().Interface())
				if err != nil {
					c.Fail("Pack of what %x was unpacked to gives %v\n%s", data, err, kase)
				}
				if t == ts[0] && !bytes.Equal(back, data) {
					c.Fail("Pack of what %x was unpacked to gives %x\n%s", data, back, kase)
				}
				if err := checkRefs(u, nil, ""); err != nil {
					c.Fail("after Pack of what %x was unpacked to: %v\n%s", data, err, kase)
				}
			}
			c.Trace(2)
		},
	}
}
