package suites

import (
	"fmt"
	"reflect"

	"verif/internal/mc"
)

// castGroups lists native types and the names of the types they are encoded
// as.
var castGroups = []struct {
	native []interface{}
	as     []string
}{
	{[]interface{}{uint8(0), uint16(0), uint32(0), uint64(0), uint(0), namedU8(0)}, []string{"uint8", "byte", "uint16", "uint32", "uint64", "uint"}},
	{[]interface{}{int8(0), int16(0), int32(0), int64(0), int(0), namedI32(0)}, []string{"int8", "int16", "int32", "rune", "int64", "int"}},
	{[]interface{}{false, namedBool(false)}, []string{"uint8", "byte", "uint16", "uint32", "uint64", "uint", "int8", "int16", "int32", "int64", "int", "bool"}},
	{[]interface{}{float32(0), float64(0), namedF(0)}, []string{"float32", "float64"}},
	{[]interface{}{complex64(0), complex128(0)}, []string{"complex64", "complex128"}},
}

// castAtoms are all casts of scalars, alone and as elements.
var castAtoms = func() (out []Atom) {
	for _, g := range castGroups {
		for _, x := range g.native {
			t := rt(x)
			zero := func(t reflect.Type) interface{} { return reflect.Zero(t).Interface() }
			slice, arr, arr2 := zero(reflect.SliceOf(t)), zero(reflect.ArrayOf(2, t)), zero(reflect.ArrayOf(2, reflect.ArrayOf(2, t)))
			for _, b := range g.as {
				id := func(s string) string { return t.String() + " as " + fmt.Sprintf(s, b) }
				out = append(out,
					one(id("%s"), x, b),
					one(id("*%s"), zero(reflect.PtrTo(t)), "*"+b),
					one(id("[2]%s"), arr, "[2]"+b),
					one(id("[3]%s, of 2"), arr, "[3]"+b),
					one(id("[]%s, of 2"), arr, "[]"+b),
					one(id("[2][2]%s"), arr2, "[2][2]"+b),
					one(id("[3]%s, slice"), slice, "[3]"+b),
					one(id("[3][2]%s, of 2"), arr2, "[3][2]"+b),
					one(id("[3][2]%s, slice"), zero(reflect.SliceOf(reflect.ArrayOf(2, t))), "[3][2]"+b),
					one(id("[2][3]%s, of 2"), arr2, "[2][3]"+b),
					one(id("[2]*%s"), zero(reflect.ArrayOf(2, reflect.PtrTo(t))), "[2]*"+b),
					one(id("*[2]%s"), zero(reflect.PtrTo(reflect.ArrayOf(2, t))), "*[2]"+b),
					one(id("**%s"), zero(reflect.PtrTo(reflect.PtrTo(t))), "**"+b),
					many(id("[]%s, sizeof"), fs("N$", uint8(0), "sizeof=S$"), fs("S$", slice, "[]"+b)),
					many(id("[]%s, sizefrom"), fs("N$", int16(0), ""), fs("S$", slice, "sizefrom=N$,[]"+b)),
					many(id("[]%s, size"), fs("K$", uint8(0), mcTag("uint8", "0,2")), fs("S$", slice, "size=K$ + 1,[]"+b)),
				)
			}
		}
	}
	for _, x := range []interface{}{"", namedStr("")} {
		for _, b := range []string{"uint8", "byte", "int8", "uint16", "uint32", "uint64", "uint"} {
			id := func(s string) string { return rt(x).String() + " as " + fmt.Sprintf(s, b) }
			out = append(out,
				one(id("[3]%s"), x, "[3]"+b),
				many(id("[]%s, sizeof"), fs("N$", uint8(0), "sizeof=S$"), fs("S$", x, "[]"+b)),
				many(id("[]%s, sizefrom"), fs("N$", int16(0), ""), fs("S$", x, "sizefrom=N$,[]"+b)),
				many(id("[]%s, size"), fs("K$", uint8(0), mcTag("uint8", "0,2")), fs("S$", x, "size=K$ + 1,[]"+b)),
			)
		}
	}
	return
}()

// castMatrix is the space of all casts at some bit offsets.
func castMatrix(name string, flags int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d casts of scalars, pointers, arrays, slices and strings at 2 bit offsets, followed by a sentinel, 2 byte orders, 3 value patterns", len(castAtoms)),
		Run: func(c *mc.Ctx) {
			a := castAtoms[c.Choose(len(castAtoms))]
			k := 3 * c.Choose(2)
			c.Mine()
			valueSpace(c, typeOf([]Atom{misalign(k), a, sentinel}), orders, 3, []int{0, 1, 2}, flags)
		},
	}
}
