package suites

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C23: misuse.
func propC23() *mc.Property {
	return &mc.Property{ID: "C23", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Fields of kinds the library does not support at all (maps, functions, channels, interfaces, uintptr) may be ignored or rejected; they never lead to a panic.",
			"The size functions may accept a cast that Pack and Unpack reject.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				castPairs("casts", 1),
				misdeclared("misdeclarations", 1),
				misdeclaredPairs("pairs of declarations"),
				misplaced("misplaced options"),
				badArguments("arguments"),
				withoutExpr("expressions without being enabled"),
				recursiveStructs("recursive types", 0),
				cycles("endless values and types"),
				userPanics("user code that panics or fails"),
				deep(castPairs("casts in containers", 2)),
				deep(recursiveStructs("recursive types, deeper", 1)),
				deep(misdeclared("misdeclarations at deeper positions", 3)),
			}
		}}
}

// Which calls must fail.
const (
	ePack = 1 << iota
	eUnpack
	eSizes
	eAll  = ePack | eUnpack | eSizes
	eCode = ePack | eUnpack
)

// expectErrors makes all calls on a value, by pointer and by value.
func expectErrors(c *mc.Ctx, v reflect.Value, data []byte, what string, mask int) {
	desc := func() string {
		return fmt.Sprintf("%s\ntype %s value %s", what, ref.ShowType(v.Type()), ref.Show(v))
	}
	c.State(1)
	c.Sample(desc)
	t := v.Type()
	for i := 0; i < 2; i++ {
		arg := func() interface{} {
			if i == 0 {
				return deepCopy(v).Addr().Interface()
			}
			return deepCopy(v).Interface()
		}
		o := orders[i].O
		judge := func(call string, bit int, err error) {
			c.Step(1)
			c.Trace(1)
			if mask&bit != 0 && err == nil {
				c.Fail("%s (by value: %v) gives no error\n%s", call, i == 1, desc())
			}
		}
		var err error
		var out []byte
		safely(c, "Pack", desc, func() { out, err = restruct.Pack(o, arg()) })
		if err != nil && out != nil {
			c.Fail("Pack returns %x along with the error %v\n%s", out, err, desc())
		}
		judge("Pack", ePack, err)
		safely(c, "SizeOf", desc, func() { _, err = restruct.SizeOf(arg()) })
		judge("SizeOf", eSizes, err)
		safely(c, "BitSize", desc, func() { _, err = restruct.BitSize(arg()) })
		judge("BitSize", eSizes, err)
		safely(c, "Unpack", desc, func() { err = restruct.Unpack(data, o, reflect.New(t).Interface()) })
		judge("Unpack", eUnpack, err)
	}
}

// What is encoded: the classes of scalars that do not go together.
func castClass(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "signed"
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "unsigned"
	case reflect.Float32, reflect.Float64:
		return "float"
	case reflect.Complex64, reflect.Complex128:
		return "complex"
	case reflect.String, reflect.Slice, reflect.Array:
		return "list"
	case reflect.Struct:
		return "struct"
	case reflect.Ptr:
		return "pointer"
	}
	return "other"
}

func castElem(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.String {
		return rt(uint8(0))
	}
	return t.Elem()
}

// incompatible tells whether a cast must be rejected.
func incompatible(nat, enc reflect.Type) bool {
	n, e := castClass(nat), castClass(enc)
	if n == "other" || e == "other" {
		return false
	}
	switch {
	case n == "list" && e == "list", n == "pointer" && e == "pointer":
		return incompatible(castElem(nat), castElem(enc))
	case n == "bool" && (e == "signed" || e == "unsigned"), n == "unsigned" && e == "bool":
		return false
	}
	return n != e
}

var castNatives = []interface{}{
	false, int8(0), int16(0), int(0), int64(0), uint8(0), uint32(0), uint64(0), uint(0), float32(0), float64(0), complex64(0), complex128(0), "", namedU8(0), namedBool(false), []byte{}, []int16{}, []string{}, []float64{}, []inner{}, []bool{}, []*uint8{}, [][]uint8{},
	[2]uint8{}, [2]float32{}, [2]bool{}, [2]inner{}, [2][2]int16{}, [2]string{}, inner{}, struct{}{}, (*uint8)(nil), (*inner)(nil), (*[]byte)(nil), (*string)(nil), (**int8)(nil), map[string]int{}, make(chan int), (func())(nil), (*error)(nil), uintptr(0),
}

var castEncoded = []string{"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "int", "uint", "uint16:9", "int32:11", "uint8:1", "uintptr", "float32", "float64", "complex64", "complex128", "string", "[]byte", "[]int16", "[]bool", "[]float32", "[]string", "[]*uint8", "[][]uint8", "[2]uint8", "[2]int16", "[2]float64", "[2]bool", "[2]string", "[2][2]int16", "[2]*uint8", "*uint8", "*int8", "*float32", "*[2]uint8", "**uint8", "**int8", "*string", "[1]uint8", "[3]uint8"}

// fillAll fills a value so that nothing is empty or nil.
func fillAll(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		for i := 0; i < 2; i++ {
			fillAll(v.Index(i), depth)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillAll(v.Index(i), depth)
		}
	case reflect.String:
		v.SetString("xy")
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fillAll(v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillAll(v.Field(i), depth)
			}
		}
	default:
		switch {
		case v.CanInt():
			v.SetInt(1)
		case v.CanUint():
			v.SetUint(1)
		case v.CanFloat():
			v.SetFloat(1)
		}
	}
}

// castPairs is the space of all native and encoded types.
func castPairs(name string, depth int) mc.Space {
	wraps := []string{"", "skip", "array", "slice", "pointer", "switch", "struct"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d native types x %d encoded types, links by sizefrom and size expressions or none, %d levels of struct, array, slice, pointer and switch around them", len(castNatives), len(castEncoded), depth),
		Run: func(c *mc.Ctx) {
			nat := rt(castNatives[c.Choose(len(castNatives))])
			enc := castEncoded[c.Choose(len(castEncoded))]
			link := c.Choose(3)
			list := nat.Kind() == reflect.Slice || nat.Kind() == reflect.String
			if link > 0 && !list {
				c.Prune()
				return
			}
			var ws []string
			for i := 0; i < depth; i++ {
				ws = append(ws, wraps[c.Choose(len(wraps))])
			}
			c.Mine()
			tag := enc
			switch link {
			case 1:
				tag += ",sizefrom=N"
			case 2:
				tag += ",size=N"
			}
			name := enc
			if i := strings.IndexByte(enc, ':'); i >= 0 {
				name = enc[:i]
			}
			et, ok := ref.TypeByName(name)
			bad := ok && incompatible(nat, et)
			n := fs("N", uint8(0), "")
			t := StructOf(Atom{Fields: []fieldSpec{n, {"F", nat, st(tag)}}})
			v := reflect.New(t).Elem()
			fillAll(v, 3)
			v.Field(0).SetUint(2)
			for _, w := range ws {
				v = wrapValue(v, w)
			}
			mask := 0
			if bad {
				mask = ePack
				// Without a length there is nothing to read.
				if !list || link > 0 || et.Kind() == reflect.Array {
					mask |= eUnpack
				}
			}
			data := bytes.Repeat([]byte{2, 1, 0, 3}, 100)
			data[0] = 2
			if depth > 0 && ws[0] != "" || depth > 1 && ws[1] != "" {
				data = bytes.Repeat([]byte{1}, 400)
			}
			expectErrors(c, v, data, fmt.Sprintf("cast of %v to %s", nat, enc), mask)
		},
	}
}

// wrapValue puts a value into a struct.
func wrapValue(v reflect.Value, w string) reflect.Value {
	k := fs("K", uint8(0), "")
	mk := func(t reflect.Type, tag string) reflect.Value {
		n := reflect.New(StructOf(Atom{Fields: []fieldSpec{k, {"W", t, tag}, fs("Z", uint16(0), "")}})).Elem()
		n.Field(0).SetUint(1)
		return n
	}
	switch w {
	case "struct":
		n := mk(v.Type(), "")
		n.Field(1).Set(v)
		return n
	case "skip":
		n := mk(v.Type(), st("skip=1,big"))
		n.Field(1).Set(v)
		return n
	case "array":
		n := mk(reflect.ArrayOf(2, v.Type()), "")
		n.Field(1).Index(0).Set(v)
		n.Field(1).Index(1).Set(v)
		return n
	case "slice":
		n := mk(reflect.SliceOf(v.Type()), st("sizefrom=K"))
		n.Field(1).Set(reflect.MakeSlice(n.Field(1).Type(), 1, 1))
		n.Field(1).Index(0).Set(v)
		return n
	case "pointer":
		n := mk(reflect.PtrTo(v.Type()), "")
		n.Field(1).Set(reflect.New(v.Type()))
		n.Field(1).Elem().Set(v)
		return n
	case "switch":
		body := reflect.New(StructOf(Atom{Fields: []fieldSpec{{"C", v.Type(), st("case=1")}, fs("D", uint8(0), "default")}})).Elem()
		body.Field(0).Set(v)
		n := mk(body.Type(), st("switch=K"))
		n.Field(1).Set(body)
		return n
	case "if":
		n := mk(v.Type(), st("if=K == 1"))
		n.Field(1).Set(v)
		return n
	case "sized":
		n := mk(reflect.SliceOf(v.Type()), st("size=K"))
		n.Field(1).Set(reflect.MakeSlice(n.Field(1).Type(), 1, 1))
		n.Field(1).Index(0).Set(v)
		return n
	}
	return v
}

type misuse struct {
	name   string
	fields []fieldSpec
	mask   int
}

func body(fields ...fieldSpec) reflect.Type { return StructOf(Atom{Fields: fields}) }

// misuses is a catalogue of broken declarations. All fields are filled with
// ones, and so is the input.
var misuses = []misuse{
	{"string counter", []fieldSpec{fs("C", "", "[1]byte,sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"float counter", []fieldSpec{fs("C", float32(0), "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"float64 sizefrom counter", []fieldSpec{fs("C", float64(0), ""), fs("S", []uint8{}, "sizefrom=C")}, eCode},
	{"bool counter", []fieldSpec{fs("C", false, "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"complex counter", []fieldSpec{fs("C", complex64(0), "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"struct counter", []fieldSpec{fs("C", inner{}, "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"array counter", []fieldSpec{fs("C", [2]uint8{}, "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"slice counter", []fieldSpec{fs("C", []uint8{}, "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"pointer counter", []fieldSpec{fs("C", (*uint8)(nil), "sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"float cast counter", []fieldSpec{fs("C", uint8(0), "float32,sizeof=S"), fs("S", []uint8{}, "")}, eCode},
	{"counter of an array", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", [2]uint8{}, "")}, eAll},
	{"counter of an integer", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", uint8(0), "")}, eAll},
	{"counter of a struct", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", inner{}, "")}, eAll},
	{"counter of a pointer", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", (*[]uint8)(nil), "")}, eAll},
	{"counter of itself", []fieldSpec{fs("C", uint8(0), "sizeof=C"), fs("S", []uint8{}, "")}, eAll},
	{"counter of nothing", []fieldSpec{fs("C", uint8(0), "sizeof=Nope"), fs("S", []uint8{}, "")}, eAll},
	{"counted by nothing", []fieldSpec{fs("C", uint8(0), ""), fs("S", []uint8{}, "sizefrom=Nope")}, eAll},
	{"counter of an unexported field", []fieldSpec{fs("C", uint8(0), "sizeof=s"), fs("s", []uint8{}, "")}, eAll},
	{"counted by an unexported field", []fieldSpec{fs("c", uint8(0), ""), fs("S", []uint8{}, "sizefrom=c")}, eAll},
	{"counted by an ignored field", []fieldSpec{fs("C", uint8(0), "-"), fs("S", []uint8{}, "sizefrom=C")}, eAll},
	{"counter of an ignored field", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", []uint8{}, "-")}, eAll},
	{"counted array", []fieldSpec{fs("C", uint8(0), ""), fs("S", [2]uint8{}, "sizefrom=C")}, eAll},
	{"counted integer", []fieldSpec{fs("C", uint8(0), ""), fs("S", uint16(0), "sizefrom=C")}, eAll},
	{"counter too late", []fieldSpec{fs("S", []uint8{}, "sizefrom=C"), fs("C", uint8(0), "")}, eAll},
	{"size of an array", []fieldSpec{fs("S", [2]uint8{}, "size=1")}, eAll},
	{"size of an integer", []fieldSpec{fs("S", uint8(0), "size=1")}, eAll},
	{"size of a struct", []fieldSpec{fs("S", inner{}, "size=1")}, eAll},
	{"size of a pointer", []fieldSpec{fs("S", (*[]uint8)(nil), "size=1")}, eAll},
	{"size in a tag of its own", []fieldSpec{{"S", rt(uint8(0)), `struct-size:"1"`}}, eAll},
	{"bits of a string", []fieldSpec{fs("S", "", "[2]byte,bits=3")}, eAll},
	{"bits of a bool", []fieldSpec{fs("S", false, "bits=3")}, eAll},
	{"bits of a slice", []fieldSpec{fs("C", uint8(0), "sizeof=S"), fs("S", []uint8{}, "bits=3")}, eAll},
	{"bits of a struct", []fieldSpec{fs("S", inner{}, "bits=3")}, eAll},
	{"bits of an array", []fieldSpec{fs("S", [2]uint8{}, "bits=3")}, eAll},
	{"bits of a double", []fieldSpec{fs("S", float64(0), "bits=3")}, eAll},
	{"bits in a tag of its own", []fieldSpec{{"S", rt(false), `struct-bits:"1"`}}, eAll},
	{"width of a double", []fieldSpec{fs("S", float64(0), "float64:3")}, eAll},

	{"if on a number", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "if=A")}, eAll},
	{"if on a literal", []fieldSpec{fs("S", uint8(0), "if=1")}, eAll},
	{"if on a string", []fieldSpec{fs("S", uint8(0), `if="true"`)}, eAll},
	{"if on a struct", []fieldSpec{fs("A", inner{}, ""), fs("S", uint8(0), "if=A")}, eAll},
	{"if on a slice", []fieldSpec{fs("A", []uint8{}, "size=1"), fs("S", uint8(0), "if=A")}, eAll},
	{"if on nil", []fieldSpec{fs("S", uint8(0), "if=nil")}, eAll},
	{"if on a function", []fieldSpec{fs("S", uint8(0), "if=len")}, eAll},
	{"if on a package", []fieldSpec{fs("S", uint8(0), "if=bits")}, eAll},
	{"if on an unknown name", []fieldSpec{fs("S", uint8(0), "if=Nope")}, eAll},
	{"if on an unknown member", []fieldSpec{fs("A", inner{}, ""), fs("S", uint8(0), "if=A.Nope == 1")}, eAll},
	{"if on different types", []fieldSpec{fs("A", uint8(0), ""), fs("B", uint16(0), ""), fs("S", uint8(0), "if=A == B")}, eAll},
	{"if on a division by zero", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "if=1 / (A - 1) == 0")}, eAll},
	{"if on an index out of range", []fieldSpec{fs("A", [2]uint8{}, ""), fs("B", uint8(0), ""), fs("S", uint8(0), "if=A[B + 1] == 0")}, eAll},
	{"if on no expression", []fieldSpec{fs("S", uint8(0), "if=A +")}, eAll},
	{"if in a tag of its own", []fieldSpec{{"S", rt(uint8(0)), `struct-if:"7"`}}, eAll},
	{"while on a number", []fieldSpec{fs("A", uint8(0), ""), fs("S", []uint8{}, "while=A")}, eUnpack},
	{"while on a string", []fieldSpec{fs("S", []uint8{}, `while="x"`)}, eUnpack},
	{"while on an unknown name", []fieldSpec{fs("S", []uint8{}, "while=Nope")}, eUnpack},
	{"size string", []fieldSpec{fs("S", []uint8{}, `size="3"`)}, eCode},
	{"size bool", []fieldSpec{fs("S", []uint8{}, "size=true")}, eCode},
	{"size float", []fieldSpec{fs("S", []uint8{}, "size=1.5")}, eCode},
	{"size whole float", []fieldSpec{fs("A", float64(0), ""), fs("S", []uint8{}, "size=A")}, eCode},
	{"size array", []fieldSpec{fs("A", [2]uint8{}, ""), fs("S", []uint8{}, "size=A")}, eCode},
	{"size nil", []fieldSpec{fs("S", []uint8{}, "size=nil")}, eCode},
	{"size unknown", []fieldSpec{fs("S", []uint8{}, "size=Nope")}, eCode},
	{"bits string", []fieldSpec{fs("S", uint8(0), `bits="3"`)}, eAll},
	{"bits bool", []fieldSpec{fs("S", uint8(0), "bits=true")}, eAll},
	{"bits float", []fieldSpec{fs("S", uint8(0), "bits=2.5")}, eAll},
	{"bits unknown", []fieldSpec{fs("S", uint8(0), "bits=Nope")}, eAll},
	{"in unknown", []fieldSpec{fs("S", uint8(0), "in=Nope")}, eUnpack},
	{"in string", []fieldSpec{fs("S", uint8(0), `in="x"`)}, eUnpack},
	{"in bool", []fieldSpec{fs("S", uint8(0), "in=true")}, eUnpack},
	{"in slice", []fieldSpec{fs("A", []uint8{}, "size=1"), fs("S", uint8(0), "in=A")}, eUnpack},
	{"in nil", []fieldSpec{fs("S", uint8(0), "in=nil")}, eUnpack},
	{"in other type", []fieldSpec{fs("A", uint16(0), ""), fs("S", uint8(0), "in=A")}, eUnpack},
	{"in of a string", []fieldSpec{fs("S", "", "[2]byte,in=1")}, eUnpack},
	{"out unknown", []fieldSpec{fs("S", uint8(0), "out=Nope")}, ePack},
	{"out string", []fieldSpec{fs("S", uint8(0), `out="x"`)}, ePack},
	{"out bool", []fieldSpec{fs("S", uint8(0), "out=true")}, 0},
	{"out struct", []fieldSpec{fs("A", inner{}, ""), fs("S", uint8(0), "out=A")}, ePack},
	{"out nil", []fieldSpec{fs("S", uint8(0), "out=nil")}, ePack},

	{"two defaults", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), "case=7"), fs("D", uint8(0), "default"), fs("E", uint8(0), "default")), st("switch=A")}}, eAll},
	{"two defaults only", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("D", uint8(0), "default"), fs("E", uint16(0), "default")), st("switch=A")}}, eAll},
	{"three defaults", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("D", uint8(0), "default"), fs("C", uint8(0), "case=7"), fs("E", uint16(0), "default"), fs("F", uint16(0), "default")), st("switch=A")}}, eAll},
	{"no case", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), ""), fs("D", uint8(0), "case=1")), st("switch=A")}}, eAll},
	{"no case behind others", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), "case=7"), fs("D", uint8(0), "big")), st("switch=A")}}, eAll},
	{"no case behind default", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), "default"), fs("D", uint8(0), "")), st("switch=A")}}, eAll},
	{"switch on an integer", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "switch=A")}, eAll},
	{"switch on a string", []fieldSpec{fs("A", uint8(0), ""), fs("S", "", "[2]byte,switch=A")}, eAll},
	{"switch on a slice", []fieldSpec{fs("A", uint8(0), ""), fs("S", []inner{}, "size=1,switch=A")}, eAll},
	{"switch on an array", []fieldSpec{fs("A", uint8(0), ""), {"S", rt([2]switchBody2{}), st("switch=A")}}, eAll},
	{"switch unknown", []fieldSpec{{"S", rt(switchBody2{}), st("switch=Nope")}}, eAll},
	{"case unknown", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), "case=Nope")), st("switch=A")}}, eAll},
	{"case malformed", []fieldSpec{fs("A", uint8(0), ""), {"S", body(fs("C", uint8(0), "case=1 +")), st("switch=A")}}, eAll},
	{"switch malformed", []fieldSpec{fs("A", uint8(0), ""), {"S", rt(switchBody2{}), st("switch=A A")}}, eAll},

	{"unknown type", []fieldSpec{fs("S", uint8(0), "uint9")}, eAll},
	{"unknown option", []fieldSpec{fs("S", uint8(0), "biggest")}, eAll},
	{"malformed nested tag", []fieldSpec{{"S", body(fs("F", uint8(0), "nope")), ""}}, eAll},
	{"function called wrongly", []fieldSpec{fs("S", uint8(0), "if=bits.Len8() == 1")}, eAll},
	{"function called with too much", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "if=bits.Len8(A, A) == 1")}, eAll},
	{"function called with a string", []fieldSpec{fs("S", uint8(0), `if=bits.Len8("x") == 1`)}, eAll},
	{"call of a number", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "if=A(1) == 1")}, eAll},
}

// harmless are declarations that are put next to broken ones.
var harmless = []misuse{
	{"nothing", nil, 0},
	{"integer", []fieldSpec{fs("H", uint16(0), "")}, 0},
	{"counted", []fieldSpec{fs("HN", uint8(0), "sizeof=H"), fs("H", []uint8{}, "")}, 0},
	{"bits", []fieldSpec{fs("H", uint8(0), "uint8:3"), fs("HB", uint8(0), "uint8:5")}, 0},
	{"if", []fieldSpec{fs("HA", uint8(0), ""), fs("H", uint16(0), "if=HA == 1")}, 0},
	{"pointer", []fieldSpec{fs("H", (*inner)(nil), "")}, 0},
	{"struct", []fieldSpec{fs("H", innerDyn{}, "")}, 0},
	{"switch", []fieldSpec{fs("HA", uint8(0), ""), fs("H", switchBody2{}, "switch=HA")}, 0},
	{"map", []fieldSpec{fs("H", map[string]int{}, "")}, 0},
	{"ignored", []fieldSpec{fs("H", make(chan int), "-")}, 0},
}

// fillOnes fills a value with ones.
func fillOnes(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		fillOnes(v.Index(0), depth)
	case reflect.String:
		v.SetString("\x01")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillOnes(v.Index(i), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillOnes(v.Field(i), depth)
			}
		}
	default:
		fillAll(v, depth)
	}
}

// misdeclared is the space of broken declarations at all places.
func misdeclared(name string, depth int) mc.Space {
	wraps := []string{"", "struct", "array", "slice", "pointer", "switch", "if", "sized", "skip"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d broken declarations x %d harmless ones before x 3 behind x %d levels of %d wrappers", len(misuses), len(harmless), depth, len(wraps)-1),
		Run: func(c *mc.Ctx) {
			m := misuses[c.Choose(len(misuses))]
			h := harmless[c.Choose(len(harmless))]
			after := c.Choose(3)
			var ws []string
			for i := 0; i < depth; i++ {
				ws = append(ws, wraps[c.Choose(len(wraps))])
			}
			if depth > 1 && (h.name != "nothing" || after > 0) {
				c.Prune()
				return
			}
			c.Mine()
			f := append(append([]fieldSpec{}, h.fields...), m.fields...)
			switch after {
			case 1:
				f = append(f, fs("Z", uint32(0), ""))
			case 2:
				f = append(f, fs("ZN", uint8(0), ""), fs("Z", []uint16{}, "sizefrom=ZN"))
			}
			v := reflect.New(StructOf(Atom{Fields: f})).Elem()
			fillOnes(v, 2)
			for _, w := range ws {
				v = wrapValue(v, w)
			}
			expectErrors(c, v, bytes.Repeat([]byte{1}, 200), m.name+" behind "+h.name, m.mask)
		},
	}
}

// misplaced is the space of options on fields of types they have no meaning
// for: counts of what has a fixed length, widths of what has no bits.
func misplaced(name string) mc.Space {
	natives := []interface{}{false, int8(0), int32(0), int64(0), int(0), uint8(0), uint16(0), uint64(0), uint(0), float32(0), float64(0), complex64(0), complex128(0),
		[2]byte{}, [1]uint16{}, [4]bool{}, [0]uint8{}, [1]string{}, [2][]uint8{}, [1]inner{}, inner{}, struct{}{}, innerDyn{}, switchBody2{}, cPtr{}, cVal{},
		(*uint8)(nil), (*[]uint8)(nil), (*string)(nil), (*inner)(nil), (*[2]byte)(nil), (**uint8)(nil), bsVal(0), cArr{}, nBoolT(false), innerSkip{},
		[]uint8{}, "", cSl{}, cName("")}
	casts := []string{"", "uint8", "uint16:3", "uint32", "int64", "bool", "float32", "float64", "[]byte", "[]uint16", "[][2]byte", "string", "[2]byte", "[1]uint16", "[2][]byte", "*uint8", "*[]byte", "*string", "struct{}"}
	options := []string{"sizeof", "sizefrom", "size=1", "size=C", "bits=3", "bits=C"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d options on %d types of fields with %d types given in tags, before and after the option", len(options), len(natives), len(casts)),
		Run: func(c *mc.Ctx) {
			nat := rt(natives[c.Choose(len(natives))])
			cast := casts[c.Choose(len(casts))]
			opt := options[c.Choose(len(options))]
			c.Mine()
			if strings.HasPrefix(opt, "bits") {
				k := nat.Kind()
				if cast != "" {
					switch {
					case cast == "bool":
						k = reflect.Bool
					case cast == "float64":
						k = reflect.Float64
					case strings.HasPrefix(cast, "["), strings.HasPrefix(cast, "*"), cast == "string", cast == "struct{}":
						k = reflect.Array
					default:
						k = reflect.Int
					}
				}
				switch k {
				case reflect.Bool, reflect.Float64, reflect.String, reflect.Array, reflect.Slice, reflect.Ptr, reflect.Struct:
				default:
					c.Prune()
				}
			} else if nat.Kind() == reflect.Slice || nat.Kind() == reflect.String {
				c.Prune()
			}
			counter, tag := fs("C", uint8(0), ""), opt
			switch opt {
			case "sizeof":
				counter, tag = fs("C", uint8(0), "sizeof=S"), ""
			case "sizefrom":
				tag = "sizefrom=C"
			}
			tags := []string{tag + "," + cast, cast + "," + tag}
			if tag == "" || cast == "" {
				tags = []string{tag + cast}
			}
			for _, tag := range tags {
				v := reflect.New(StructOf(Atom{Fields: []fieldSpec{counter, {"S", nat, st(tag)}, fs("Z", uint16(0), "")}})).Elem()
				fillOnes(v, 2)
				expectErrors(c, v, bytes.Repeat([]byte{1}, 200), opt+" on a field of a type it has no meaning for", eAll)
			}
		},
	}
}

// misdeclaredPairs is the space of pairs of broken declarations.
func misdeclaredPairs(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all pairs of %d broken declarations, the second in a struct of its own", len(misuses)),
		Run: func(c *mc.Ctx) {
			m := misuses[c.Choose(len(misuses))]
			c.Mine()
			for _, o := range misuses {
				f := append(append([]fieldSpec{}, m.fields...), fieldSpec{"Second", body(o.fields...), ""})
				v := reflect.New(StructOf(Atom{Fields: f})).Elem()
				fillOnes(v, 2)
				expectErrors(c, v, bytes.Repeat([]byte{1}, 200), m.name+" and "+o.name, m.mask|o.mask)
			}
		},
	}
}

// badArguments is the space of arguments that are no values to encode.
func badArguments(name string) mc.Space {
	x, s := uint16(1), inner{}
	px, ps := &x, &s
	var nilErr error
	m := map[string]int{"a": 1}
	type arg struct {
		name string
		v    interface{}
		mask int
	}
	args := []arg{
		{"nil", nil, eAll},
		{"nil struct pointer", (*inner)(nil), eAll},
		{"nil integer pointer", (*uint32)(nil), eAll},
		{"nil slice pointer", (*[]uint8)(nil), eAll},
		{"nil pointer to pointer", (**inner)(nil), eAll},
		{"nil pointer to a custom type", (*cPtr)(nil), 0},
		{"struct by value", inner{}, eUnpack},
		{"integer by value", uint16(3), eUnpack},
		{"string by value", "abc", eUnpack},
		{"array by value", [2]uint16{}, eUnpack},
		{"bool by value", true, eUnpack},
		{"float by value", 1.5, eUnpack},
		{"slice by value", []uint8{1, 2}, 0},
		{"empty slice by value", []uint16{}, 0},
		{"struct with pointers by value", struct{ P *inner }{&s}, eUnpack},
		{"map", m, 0},
		{"nil map", map[string]int(nil), 0},
		{"pointer to a map", &m, 0},
		{"function", func() {}, 0},
		{"channel", make(chan int), 0},
		{"pointer to an interface", &nilErr, 0},
		{"pointer to a pointer", &px, 0},
		{"pointer to a struct pointer", &ps, 0},
		{"reflect.Value", reflect.ValueOf(s), 0},
		{"uintptr", uintptr(1), 0},
		{"pointer to a string", new(string), 0},
		{"pointer to a slice", &[]inner{{}}, 0},
		{"struct with a map", &struct{ M map[string]int }{m}, 0},
		{"struct with a channel", &struct{ M chan int }{}, 0},
		{"struct with an interface", &struct{ M interface{} }{1}, 0},
		{"struct with a nil interface", &struct{ M error }{}, 0},
		{"struct with a function", &struct{ M func() }{}, 0},
		{"struct with an embedded nil pointer", &struct{ *inner }{}, 0},
		{"struct with a channel slice", &struct{ M []chan int }{make([]chan int, 2)}, 0},
		{"struct with a pointer to an interface", &struct{ M *error }{&nilErr}, 0},
		{"array of maps", &[2]map[string]int{}, 0},
		{"empty struct", &struct{}{}, 0},
		{"unexported fields", &struct{ a, b uint8 }{}, 0},
	}
	orderArgs := []struct {
		name string
		o    binary.ByteOrder
	}{{"LE", binary.LittleEndian}, {"BE", binary.BigEndian}, {"nil", nil}, {"nil *myLittle", (*myLittle)(nil)}}
	datas := [][]byte{nil, {}, {1}, bytes.Repeat([]byte{1}, 50)}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d arguments x %d byte orders x %d inputs", len(args), len(orderArgs), len(datas)),
		Run: func(c *mc.Ctx) {
			a := args[c.Choose(len(args))]
			o := orderArgs[c.Choose(len(orderArgs))]
			d := datas[c.Choose(len(datas))]
			c.Mine()
			desc := func() string {
				return fmt.Sprintf("argument: %s (%T), byte order %s, input %x", a.name, a.v, o.name, d)
			}
			judge := func(call string, bit int, err error) {
				c.Step(1)
				c.Trace(1)
				if a.mask&bit != 0 && err == nil {
					c.Fail("%s gives no error\n%s", call, desc())
				}
			}
			c.State(1)
			var err error
			var out []byte
			safely(c, "Pack", desc, func() { out, err = restruct.Pack(o.o, a.v) })
			if err != nil && out != nil {
				c.Fail("Pack returns %x along with the error %v\n%s", out, err, desc())
			}
			judge("Pack", ePack, err)
			safely(c, "SizeOf", desc, func() { _, err = restruct.SizeOf(a.v) })
			judge("SizeOf", eSizes, err)
			safely(c, "BitSize", desc, func() { _, err = restruct.BitSize(a.v) })
			judge("BitSize", eSizes, err)
			safely(c, "Unpack", desc, func() { err = restruct.Unpack(append([]byte(nil), d...), o.o, a.v) })
			judge("Unpack", eUnpack, err)
			if o.name[0] == 'n' {
				// Without a byte order, wider integers have none.
				var x struct{ A uint16 }
				safely(c, "Pack", desc, func() { out, err = restruct.Pack(o.o, &x) })
				if err == nil || out != nil {
					c.Fail("Pack without a byte order gives %x, %v", out, err)
				}
				safely(c, "Unpack", desc, func() { err = restruct.Unpack([]byte{1, 2}, o.o, &x) })
				if err == nil {
					c.Fail("Unpack without a byte order gives no error")
				}
			}
		},
	}
}

// Recursive types.
type (
	rcPtr struct {
		V    uint16
		More uint8
		Next *rcPtr `struct:"if=More != 0"`
	}
	rcSlice struct {
		N    uint8 `struct:"sizeof=Kids"`
		V    uint8
		Kids []rcSlice
	}
	rcPtrSlice struct {
		V    uint8 `struct:"uint8:4"`
		N    uint8 `struct:"uint8:4,sizeof=Kids"`
		Kids []*rcPtrSlice
	}
	rcSize struct {
		N    uint8
		Kids []rcSize `struct:"size=N"`
		V    int16
	}
	rcSwitch struct {
		K uint8
		B struct {
			Leaf uint16      `struct:"case=0"`
			One  *rcSwitch   `struct:"case=1"`
			Two  [2]*rcMutA  `struct:"case=2"`
			Def  rcSwitchDef `struct:"default"`
		} `struct:"switch=K"`
	}
	rcSwitchDef struct {
		N uint8
		L []rcSwitch `struct:"size=N"`
	}
	rcMutA struct {
		More uint8
		B    *rcMutB `struct:"if=More == 1"`
	}
	rcMutB struct {
		N uint8 `struct:"sizeof=A"`
		A []rcMutA
		V uint32 `struct:"big"`
	}
	rcParent struct {
		N    uint8 `struct:"sizeof=Kids"`
		Kids []rcChild
	}
	rcChild struct {
		Up   *rcParent `struct:"parent"`
		Top  *rcParent `struct:"root"`
		More uint8
		Deep *rcParent `struct:"if=More == 1"`
	}
	rcArr struct {
		A [2]rcArrElem
	}
	rcArrElem struct {
		N uint8 `struct:"sizeof=L"`
		L []rcArr
	}
)

// grow builds a value of a recursive type by choices. Whatever steers the
// recursion is set along.
func growPtr(c *mc.Ctx, d int) *rcPtr {
	v := &rcPtr{V: uint16(0x102 * (d + 1))}
	if d > 0 && c.Bool() {
		v.More, v.Next = 1, growPtr(c, d-1)
	}
	return v
}

func growSlice(c *mc.Ctx, d int) rcSlice {
	v := rcSlice{V: uint8(d + 1)}
	if d > 0 {
		for i := c.Choose(3); i > 0; i-- {
			v.Kids = append(v.Kids, growSlice(c, d-1))
		}
	}
	v.N = uint8(len(v.Kids))
	return v
}

func growPtrSlice(c *mc.Ctx, d int) *rcPtrSlice {
	v := &rcPtrSlice{V: uint8(d + 1)}
	if d > 0 {
		for i := c.Choose(3); i > 0; i-- {
			v.Kids = append(v.Kids, growPtrSlice(c, d-1))
		}
	}
	v.N = uint8(len(v.Kids))
	return v
}

func growSize(c *mc.Ctx, d int) rcSize {
	v := rcSize{V: int16(-d - 1)}
	if d > 0 {
		for i := c.Choose(3); i > 0; i-- {
			v.Kids = append(v.Kids, growSize(c, d-1))
		}
	}
	v.N = uint8(len(v.Kids))
	return v
}

func growSwitch(c *mc.Ctx, d int) *rcSwitch {
	v := &rcSwitch{}
	k := 0
	if d > 0 {
		k = c.Choose(4)
	}
	v.K = uint8(k)
	switch k {
	case 0:
		v.B.Leaf = uint16(d*7 + 1)
	case 1:
		v.B.One = growSwitch(c, d-1)
	case 2:
		v.B.Two = [2]*rcMutA{growMutA(c, d-1), growMutA(c, d-1)}
	case 3:
		for i := c.Choose(2); i > 0; i-- {
			v.B.Def.L = append(v.B.Def.L, *growSwitch(c, d-1))
		}
		v.B.Def.N = uint8(len(v.B.Def.L))
	}
	return v
}

func growMutA(c *mc.Ctx, d int) *rcMutA {
	v := &rcMutA{}
	if d > 0 && c.Bool() {
		v.More = 1
		v.B = &rcMutB{V: uint32(0x01020304 + d)}
		for i := c.Choose(3); i > 0; i-- {
			v.B.A = append(v.B.A, *growMutA(c, d-1))
		}
		v.B.N = uint8(len(v.B.A))
	}
	return v
}

func growParent(c *mc.Ctx, d int) *rcParent {
	v := &rcParent{}
	for i := c.Choose(3); i > 0; i-- {
		k := rcChild{}
		if d > 0 && c.Bool() {
			k.More, k.Deep = 1, growParent(c, d-1)
		}
		v.Kids = append(v.Kids, k)
	}
	v.N = uint8(len(v.Kids))
	return v
}

func growArr(c *mc.Ctx, d int) rcArr {
	v := rcArr{}
	for i := range v.A {
		if d > 0 && c.Bool() {
			v.A[i].L = append(v.A[i].L, growArr(c, d-1))
		}
		v.A[i].N = uint8(len(v.A[i].L))
	}
	return v
}

// recursiveStructs is the space of values of recursive types.
func recursiveStructs(name string, more int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("8 recursive types (through pointers, slices, switches, arrays, each other, with parents), all values up to a depth of %d to %d, 2 byte orders", 2+more, 6+more),
		Run: func(c *mc.Ctx) {
			o := orders[c.Choose(2)]
			var x interface{}
			switch c.Choose(8) {
			case 0:
				x = growPtr(c, 6+more)
			case 1:
				v := growSlice(c, 3+more)
				x = &v
			case 2:
				x = growPtrSlice(c, 3+more)
			case 3:
				v := growSize(c, 3+more)
				x = &v
			case 4:
				x = growSwitch(c, 3)
			case 5:
				x = growMutA(c, 3)
			case 6:
				x = growParent(c, 2)
			case 7:
				v := growArr(c, 3)
				x = &v
			}
			c.Mine()
			v := reflect.ValueOf(x).Elem()
			check(c, &Case{T: v.Type(), V: v, O: o, Flags: fPack | fSizes | fUnpack | fRoundTrip})
		},
	}
}

// Endless types and values.
type (
	endlessPtr  struct{ Next *endlessPtr }
	endlessPtrV struct {
		V    uint8
		Next *endlessPtrV
	}
	endlessA struct{ B *endlessB }
	endlessB struct {
		S struct{ A *endlessA }
	}
	endlessArr    struct{ Next [2]*endlessArr }
	endlessSlice  struct{ Kids []endlessSlice }
	endlessSlice1 struct {
		Kids []endlessSlice1 `struct:"size=1"`
	}
	endlessIf struct {
		Next *endlessIf `struct:"if=true"`
	}
	endlessS []endlessS
)

// cycles is the space of values that contain themselves and types that Unpack
// never comes to the end of.
func cycles(name string) mc.Space {
	type thing struct {
		name string
		mk   func() interface{}
		mask int
	}
	things := []thing{
		{"empty list", func() interface{} { return &endlessPtr{} }, eUnpack},
		{"empty list with values", func() interface{} { return &endlessPtrV{} }, eUnpack},
		{"list of three", func() interface{} { return &endlessPtrV{1, &endlessPtrV{2, &endlessPtrV{3, nil}}} }, eUnpack},
		{"pointer to itself", func() interface{} { v := &endlessPtr{}; v.Next = v; return v }, eAll},
		{"pointer to itself with value", func() interface{} { v := &endlessPtrV{}; v.Next = v; return v }, eAll},
		{"cycle of two", func() interface{} { v := &endlessPtrV{1, &endlessPtrV{2, nil}}; v.Next.Next = v; return v }, eAll},
		{"cycle behind a start", func() interface{} {
			v := &endlessPtrV{1, &endlessPtrV{2, nil}}
			v.Next.Next = v
			return &endlessPtrV{3, v}
		}, eAll},
		{"mutual", func() interface{} { return &endlessA{} }, eUnpack},
		{"mutual cycle", func() interface{} { v := &endlessA{B: &endlessB{}}; v.B.S.A = v; return v }, eAll},
		{"array cycle", func() interface{} { v := &endlessArr{}; v.Next[0] = v; return v }, eAll},
		{"array", func() interface{} { return &endlessArr{} }, eUnpack},
		{"slices", func() interface{} { return &endlessSlice{Kids: []endlessSlice{{}, {}}} }, 0},
		{"sized slices", func() interface{} { return &endlessSlice1{} }, eUnpack},
		{"condition", func() interface{} { return &endlessIf{} }, eUnpack},
		{"condition cycle", func() interface{} { v := &endlessIf{}; v.Next = v; return v }, eAll},
		{"slice type", func() interface{} { return &endlessS{{}, {}} }, 0},
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d values and types without an end x every call", len(things)),
		Run: func(c *mc.Ctx) {
			k := things[c.Choose(len(things))]
			call := c.Choose(4)
			c.Mine()
			desc := func() string { return k.name }
			c.State(1)
			c.Step(1)
			c.Trace(1)
			x := k.mk()
			var err error
			var bit int
			switch call {
			case 0:
				bit = ePack
				var out []byte
				safely(c, "Pack", desc, func() { out, err = restruct.Pack(binary.LittleEndian, x) })
				if err != nil && out != nil {
					c.Fail("Pack returns data along with an error")
				}
			case 1:
				bit = eSizes
				safely(c, "SizeOf", desc, func() { _, err = restruct.SizeOf(x) })
			case 2:
				bit = eSizes
				safely(c, "BitSize", desc, func() { _, err = restruct.BitSize(x) })
			case 3:
				bit = eUnpack
				safely(c, "Unpack", desc, func() {
					err = restruct.Unpack([]byte{1, 2, 3}, binary.BigEndian, reflect.New(reflect.TypeOf(x).Elem()).Interface())
				})
			}
			if k.mask&bit != 0 && err == nil {
				c.Fail("call %d on %s gives no error", call, k.name)
			}
		},
	}
}

// User code that fails in each of its ways.
type upMode uint8

var upPanics = []interface{}{"text", fmt.Errorf("an error"), 42, nil, []int{1}}

type upCustom struct{ mode upMode }

var upCurrent upMode

func (u *upCustom) fail(i upMode) {
	if int(upCurrent) == int(i) {
		panic(upPanics[0])
	}
	for j := range upPanics {
		if upCurrent == 10*i+upMode(j) && upPanics[j] != nil {
			panic(upPanics[j])
		}
	}
}

func (u *upCustom) SizeOf() int { u.fail(1); return 1 }
func (u *upCustom) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	u.fail(2)
	if upCurrent == 4 {
		return nil, fmt.Errorf("cannot pack")
	}
	return buf[1:], nil
}
func (u *upCustom) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	u.fail(3)
	if upCurrent == 5 {
		return nil, fmt.Errorf("cannot unpack")
	}
	return buf[1:], nil
}

// userPanics is the space of failures of user code.
func userPanics(name string) mc.Space {
	modes := []struct {
		m    upMode
		mask int
	}{{0, 0}, {4, ePack}, {5, eUnpack}}
	for i := upMode(1); i <= 3; i++ {
		mask := []int{ePack | eSizes, ePack, eUnpack}[i-1]
		modes = append(modes, struct {
			m    upMode
			mask int
		}{i, mask})
		for j := range upPanics {
			if upPanics[j] != nil {
				modes = append(modes, struct {
					m    upMode
					mask int
				}{10*i + upMode(j), mask})
			}
		}
	}
	wraps := []string{"", "struct", "array", "slice", "pointer", "switch", "if", "sized"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("custom types whose methods fail or panic in %d ways, in %d places", len(modes), len(wraps)),
		Run: func(c *mc.Ctx) {
			m := modes[c.Choose(len(modes))]
			w := wraps[c.Choose(len(wraps))]
			w2 := wraps[c.Choose(len(wraps))]
			c.Mine()
			v := reflect.New(body(fs("A", uint8(0), ""), fs("U", upCustom{}, ""))).Elem()
			v = wrapValue(wrapValue(v, w), w2)
			upCurrent = m.m
			defer func() { upCurrent = 0 }()
			expectErrors(c, v, bytes.Repeat([]byte{1}, 40), fmt.Sprintf("mode %d in %s", m.m, w), m.mask)
		},
	}
}

// Expressions that are not enabled. Enabling them cannot be undone, so these
// cases run in a process of their own.

var noExprDecls = []misuse{
	{"if", []fieldSpec{fs("A", uint8(0), ""), fs("S", uint8(0), "if=A == 1")}, eAll},
	{"if tag", []fieldSpec{fs("A", uint8(0), ""), {"S", rt(uint8(0)), `struct-if:"A == 1"`}}, eAll},
	{"if constant", []fieldSpec{fs("S", uint8(0), "if=true")}, eAll},
	{"size", []fieldSpec{fs("A", uint8(0), ""), fs("S", []uint8{}, "size=A")}, eCode},
	{"size string", []fieldSpec{fs("A", uint8(0), ""), fs("S", "", "size=A")}, eCode},
	{"bits", []fieldSpec{fs("S", uint8(0), "bits=3")}, eAll},
	{"in", []fieldSpec{fs("S", uint8(0), "in=S + 1")}, eUnpack},
	{"out", []fieldSpec{fs("S", uint8(0), "out=S + 1")}, ePack},
	{"while", []fieldSpec{fs("S", []uint8{}, "while=!_eof")}, eUnpack},
	{"switch", []fieldSpec{fs("A", uint8(0), ""), fs("S", switchBody2{}, "switch=A")}, eAll},
	{"switch tag", []fieldSpec{fs("A", uint8(0), ""), {"S", rt(switchBody2{}), `struct-switch:"A"`}}, eAll},
	{"struct if", []fieldSpec{fs("A", uint8(0), ""), fs("S", inner{}, "if=A == 1")}, eAll},
	{"pointer if", []fieldSpec{fs("A", uint8(0), ""), fs("S", (*inner)(nil), "if=A == 1")}, eAll},
	{"padding if", []fieldSpec{fs("A", uint8(0), ""), fs("_", uint16(0), "if=A == 1")}, eAll},
}

var plainDecls = []Atom{
	one("u16", uint16(0), ""), one("bits", uint8(0), "uint8:3"), many("counted", fs("N", uint8(0), "sizeof=S"), fs("S", []uint16{}, "")), one("struct", inner{}, ""), one("pointer", (*inner)(nil), ""), one("str4", "", "[4]byte"), one("bool", false, "uint16,variantbool"), one("skip", uint8(0), "skip=2"),
	many("parent", fs("A", uint8(0), ""), fs("S", parentChild{}, "")), one("custom", cPtr{}, ""),
}

type parentChild struct {
	Up *struct{} `struct:"-"`
	V  uint16
}

type noExprResult struct {
	Fail   []string
	States int64
	Calls  int64
}

// NoExprMain runs the cases without expressions, if this process is made for
// it.
func NoExprMain() bool {
	if os.Getenv("MC_NO_EXPR") == "" {
		return false
	}
	var r noExprResult
	c := mc.Collector(func(msg string) {
		if len(r.Fail) < 5 {
			r.Fail = append(r.Fail, msg)
		}
	})
	try := func(f func()) {
		defer func() {
			if x := recover(); x != nil && !isEngine(x) {
				r.Fail = append(r.Fail, fmt.Sprint(x))
			}
		}()
		f()
	}
	wraps := []string{"", "struct", "array", "slice", "pointer"}
	round := func(enabled bool) {
		for _, m := range noExprDecls {
			for _, w := range wraps {
				m, w := m, w
				mask := m.mask
				if enabled {
					mask = 0
				}
				try(func() {
					v := reflect.New(StructOf(Atom{Fields: m.fields})).Elem()
					fillOnes(v, 2)
					v = wrapValue(v, w)
					if enabled {
						check(c, &Case{T: v.Type(), V: v, O: orders[1], Flags: fPack | fSizes})
						return
					}
					expectErrors(c, v, bytes.Repeat([]byte{1}, 100), "without expressions: "+m.name+" in "+w, mask)
				})
			}
		}
		for _, a := range plainDecls {
			for _, w := range wraps {
				a, w := a, w
				try(func() {
					v := reflect.New(StructOf(a)).Elem()
					fillOnes(v, 2)
					v = wrapValue(v, w)
					check(c, &Case{T: v.Type(), V: v, O: orders[0], Flags: tagFlags})
				})
			}
		}
	}
	round(false)
	round(false) // everything is cached now
	restruct.EnableExprBeta()
	round(true)
	r.States, r.Calls = c.Counts()
	json.NewEncoder(os.Stdout).Encode(r)
	return true
}

// withoutExpr is the space of declarations with expressions in a process that
// has not enabled them.
func withoutExpr(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d declarations with expressions and %d without x 5 places, in a process that has not enabled expressions: twice before enabling them and once after", len(noExprDecls), len(plainDecls)),
		Run: func(c *mc.Ctx) {
			c.Choose(1)
			c.Mine()
			r := child(c, "MC_NO_EXPR=1")
			if len(r.Fail) > 0 {
				c.Fail("%s", strings.Join(r.Fail, "\n"))
			}
			c.State(int(r.States))
			c.Step(int(r.Calls))
			c.Trace(int(r.Calls))
		},
	}
}
