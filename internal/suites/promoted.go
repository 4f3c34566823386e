package suites

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

// Fields of embedded structs are known by their own names, unless something
// less deep has the same one.

type PromA struct {
	N uint8 `mc:"0,2"`
	K uint8 `mc:"0,1"`
}

type PromB struct {
	PromA
	M uint16 `mc:"1,3"`
}

type PromC struct {
	N int16 `mc:"1,3"`
	L PromA
}

type promHidden struct {
	N uint8 `mc:"2"`
	K uint8 `mc:"0,1"`
}

type promDirect struct {
	PromA
	S []uint8 `struct:"size=N"`
	F uint16  `struct:"if=K == 1"`
	G uint8   `struct:"if=PromA.K == 1"`
	Z uint8
}

type promDeep struct {
	PromB
	S []uint16 `struct:"size=N * 1"`
	F uint16   `struct:"if=K == 1 && M > 2"`
	T []uint8  `struct:"size=PromB.M"`
	U []uint8  `struct:"size=PromA.N"`
}

type promShadow struct {
	PromA
	N uint16  `mc:"1,4"`
	S []uint8 `struct:"size=N"`
	T []uint8 `struct:"size=PromA.N,big"`
	F uint16  `struct:"if=K == 1"`
}

type promShadow2 struct {
	PromB
	PromC
	F uint8   `struct:"if=K == 1"`
	S []uint8 `struct:"size=M"`
	T []uint8 `struct:"size=L.N"`
	U []uint8 `struct:"size=N"` // that of PromC is less deep
}

type promPtr struct {
	*PromA
	S []uint8 `struct:"size=N"`
	F uint16  `struct:"if=K == 1"`
}

type promBehind struct {
	A uint8 `mc:"1,2"`
	PromC
	S []uint8 `struct:"size=N"`
	C uint16  `struct:"if=N == 1 && A == 1"`
}

type promIn struct {
	PromA
	V uint16 `struct:"in=V + N,out=V - N"`
	W uint8  `struct:"out=K * 3,in=K"`
}

type promCases struct {
	A uint8  `struct:"case=0"`
	B uint32 `struct:"case=1"`
}

type promSwitch struct {
	PromA
	F promCases `struct:"switch=K"`
	B uint16    `struct:"bits=N + 5"`
	P uint16    `struct:"bits=11 - N"`
}

type promOuter struct {
	PromA
	I struct {
		PromC
		S []uint8 `struct:"size=N"`
	}
	S []uint8 `struct:"size=N"`
	J [2]promDirect
	F uint8 `struct:"if=I.N == 1"`
}

type promUnseen struct {
	promHidden
	S []uint8 `struct:"size=N"`
	F uint16  `struct:"if=K == 1"`
}

type promClash struct {
	PromA
	X PromC
	PromD
	F uint8 `struct:"if=N == 1"`
}

type PromD struct{ N uint8 }

type promUnder struct {
	X PromA
	F uint8 `struct:"if=N == 1"`
}

type promUpper struct {
	Inner struct {
		F uint8 `struct:"if=N == 1"`
	}
	PromA
}

var promTypes = []interface{}{promDirect{}, promDeep{}, promShadow{}, promShadow2{}, promPtr{}, promBehind{}, promIn{}, promSwitch{}, promOuter{}}

// promotedNames is the space of names of fields of embedded structs.
func promotedNames(name string) mc.Space {
	bad := []interface{}{promClash{}, promUnder{}, promUpper{}}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d types with expressions that use the names of embedded structs, alone and in %d wrappers, with and without what they shadow; %d types with names that are ambiguous or out of reach", len(promTypes)+1, len(wrappers), len(bad)),
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(promTypes) + len(bad) + 1)
			w := c.Choose(len(wrappers) + 1)
			c.Mine()
			var t reflect.Type
			switch {
			case k < len(promTypes):
				t = rt(promTypes[k])
			case k < len(promTypes)+len(bad):
				t = rt(bad[k-len(promTypes)])
				if w > 0 {
					c.Prune()
				}
				c.State(1)
				for _, x := range []reflect.Type{t, reflect.ArrayOf(1, t), StructOf(Atom{Fields: []fieldSpec{{"F$", t, ""}}})} {
					tagCalls(c, x, reflect.New(x).Elem(), t.String(), true)
				}
				return
			default:
				// What is not encoded has names all the same.
				if w > 0 {
					c.Prune()
				}
				o := orders[c.Choose(2)]
				v := promUnseen{promHidden: promHidden{N: uint8(c.Choose(3)), K: uint8(c.Choose(2))}}
				v.S = []uint8{7, 8}[:v.N]
				if v.K == 1 {
					v.F = 0x1234
				}
				rv := reflect.New(rt(v)).Elem()
				rv.Set(reflect.ValueOf(v))
				check(c, &Case{T: rt(v), V: rv, O: o, Flags: fPack | fSizes | fByValue})
				s, err := (&ref.Model{}).Encode(deepCopy(rv), o.E)
				if err != nil {
					c.Fail("model: %v", err)
					return
				}
				got := promUnseen{promHidden: v.promHidden}
				k := &Case{T: rt(v), V: rv, O: o}
				if err := unpack(c, k, "", s.Bytes(), o.O, &got); err != nil || string(got.S) != string(v.S) || got.F != v.F {
					c.Fail("Unpack of %x gives %+v, %v, expected %+v", s.Bytes(), got, err, v)
				}
				return
			}
			if w < len(wrappers) {
				t = StructOf(wrappers[w].atom(t, ""), sentinel)
			} else {
				t = StructOf(Atom{Fields: []fieldSpec{{"F$", t, ""}}}, sentinel)
			}
			o := orders[c.Choose(2)]
			var v reflect.Value
			if w < len(wrappers) {
				v = FillSimple(t, 1, c.Choose(2))
			} else {
				v = Fill(c, t, 1, []int{2})
			}
			check(c, &Case{T: t, V: v, O: o, Flags: fPack | fSizes | fUnpack | fRoundTrip | fTrunc | fByValue | fDirty})
		},
	}
}

// caseNames is the space of names that differ in nothing but case: from each
// other, and from the names that the library knows itself.
func caseNames(name string) mc.Space {
	known := []string{"Bits", "BITS", "Len", "True", "TRUE", "False", "Nil", "NIL", "Int", "INT", "Uint8", "Byte", "Float64", "Bool", "_Eof", "X_eof", "Eof", "Root", "Parent", "Big", "If", "Case", "String", "K", "Kk", "KK", "Éa", "ÉA", "Éé"}
	uses := []struct{ tag, wrong string }{
		{"if=%s == 1", "if=%s == 1"}, {"if=1 == %s && bits.Len8(%[1]s) == 1", "if=1 == %s"}, {"if=(%s == 1)", "if=true && %s == 1"}, {"if=M.%s == 1", "if=M.%s == 1"},
		{"if=!(%s != 1)", "if=-%s == 1"}, {"if=bits.OnesCount8(%s) == 1", "if=bits.OnesCount8(%s) == 1"}}
	swap := func(s string) []string {
		out := map[string]bool{}
		for i, r := range s {
			for _, x := range []string{strings.ToUpper(string(r)), strings.ToLower(string(r))} {
				out[s[:i]+x+s[i+len(string(r)):]] = true
			}
		}
		out[strings.ToLower(s)], out[strings.ToUpper(s)] = true, true
		delete(out, s)
		var l []string
		for x := range out {
			if isName(x) && !isReserved(x) && x != "bits" && x != "_eof" && !goKeyword(x) {
				l = append(l, x)
			}
		}
		return sortedStrings(l)
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d names of fields, most of which are known to the library in lower case, in %d expressions, next to fields whose names differ in case alone; and all names that differ in the case of one or all letters where there is no such field", len(known), len(uses)),
		Run: func(c *mc.Ctx) {
			n := known[c.Choose(len(known))]
			u := uses[c.Choose(len(uses))]
			c.Mine()
			if !exportedName(n) {
				c.Prune()
			}
			mk := func(tag string, more []string) reflect.Type {
				m := reflect.StructOf([]reflect.StructField{{Name: n, Type: rt(uint8(0)), Tag: reflect.StructTag(mcTag("", "0,1"))}})
				fields := []reflect.StructField{}
				for _, x := range more {
					fields = append(fields, reflect.StructField{Name: x, Type: rt(uint8(0))})
				}
				fields = append(fields, reflect.StructField{Name: n, Type: rt(uint8(0)), Tag: reflect.StructTag(mcTag("", "0,1"))}, reflect.StructField{Name: "M", Type: m})
				for _, x := range more {
					fields = append(fields, reflect.StructField{Name: x + "1", Type: rt(uint8(0))})
				}
				return reflect.StructOf(append(fields, reflect.StructField{Name: "F0", Type: rt(uint16(0)), Tag: reflect.StructTag(st(tag))}, reflect.StructField{Name: "G0", Type: rt(uint8(0))}))
			}
			var more []string
			for _, x := range swap(n) {
				if exportedName(x) && x != "M" {
					more = append(more, x)
				}
			}
			right := mk(fmt.Sprintf(u.tag, n), more)
			v := Fill(c, right, 1, []int{2})
			check(c, &Case{T: right, V: v, O: orders[0], Flags: tagFlags})
			rs := []expr.Resolver{expr.NewStructResolver(v), expr.NewMapResolver(map[string]expr.Value{n: expr.ValueOf(uint8(1))})}
			ts := []expr.TypeResolver{expr.NewStructTypeResolver(v.Interface()), expr.NewMapTypeResolver(map[string]expr.Type{n: expr.TypeOf(uint8(1))})}
			for i := range rs {
				for _, x := range append(swap(n), n) {
					known := x == n
					for _, y := range more {
						known = known || i == 0 && x == y
					}
					got, err := safeEval(c, rs[i], x)
					if known != (err == nil) {
						c.Fail("resolver %T: %s gives %s, %v", rs[i], x, showResult(got), err)
					}
					if et := ts[i].TypeResolve(x); known != (et != nil) {
						c.Fail("resolver %T: the type of %s is %v", ts[i], x, et)
					}
				}
			}
			for _, x := range swap(n) {
				t := mk(fmt.Sprintf(u.wrong, x), nil)
				tagCalls(c, t, reflect.New(t).Elem(), fmt.Sprintf(u.wrong, x), true)
			}
		},
	}
}

func exportedName(s string) bool {
	for _, r := range s {
		return strings.ToUpper(string(r)) == string(r) && r != '_'
	}
	return false
}

func sortedStrings(l []string) []string {
	m := map[string]interface{}{}
	for _, x := range l {
		m[x] = nil
	}
	return sortedNames(m)
}
