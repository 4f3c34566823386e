package suites

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C18: names, members, indices, calls, pointers and nil.
func propC18() *mc.Property {
	return &mc.Property{ID: "C18", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Not covered, because the language leaves it open: methods, indices into pointers to arrays, variadic functions, values that hold interfaces or channels, addresses of variables.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				paths("access paths", 4),
				indices("indices"),
				mapKeys("map keys"),
				callLists("calls"),
				nils("comparison with nil"),
				resolverStacks("resolvers"),
				exprNames("names", 3),
				typeDescriptions("type descriptions", 3),
				typePairs("pairs of types"),
				constructedTypes("constructed types", 2),
				packages("packages"),
				promotedNames("promoted names"),
				caseNames("names that differ in case"),
				bitsPackage("bits package"),
				deep(paths("longer access paths", 5)),
				deep(typeDescriptions("deeper type descriptions", 4)),
			}
		}}
}

type accInner struct {
	X int
	S string
}

type accS struct {
	accInner
	A  int
	P  *accS
	N  *int
	L  []accS
	R  [2]uint8
	T  string
	M  map[string]*accS
	F  func(int) *accS
	G  func() func(string, int) []int
	Q  **int
	nt string
	H  nString
	B  bool
}

func newAccS(depth, n int) accS {
	k := n * 3
	pk := &k
	s := accS{accInner: accInner{n + 50, "in"}, A: n, R: [2]uint8{uint8(n), 200}, T: "héy", nt: "hidden", H: "Name", Q: &pk, B: n%2 == 1}
	if depth == 0 {
		return s
	}
	p := newAccS(depth-1, n+1)
	s.P = &p
	s.N = pk
	s.L = []accS{newAccS(depth-1, n+2), newAccS(0, n+3)}
	q := newAccS(depth-1, n+4)
	s.M = map[string]*accS{"k": &q, "nil": nil}
	s.F = func(i int) *accS {
		if i == 0 {
			return nil
		}
		return &q
	}
	list := []int{n, 0, 0}
	s.G = func() func(string, int) []int {
		return func(t string, i int) []int { list[1], list[2] = len(t), i; return list }
	}
	return s
}

var pathSteps = []string{".A", ".X", ".S", ".P", ".N", ".L", ".R", ".T", ".M", ".F", ".G", ".Q", ".H", ".Zz", ".nt", ".accInner", "[0]", "[1]", "[2]", "[i]", "[-1]", `["k"]`, `["z"]`, `["nil"]`, "(1)", "(0)", "()", `("ab", 7)`, "(i)"}

func accVars() vars {
	s := newAccS(2, 1)
	t := newAccS(2, 11)
	k := 1
	pk := &k
	return vars{
		"s": s, "p": &t, "pp": &[]*accS{&t}[0], "np": (*accS)(nil), "l": []*accS{&t, nil}, "m": s.M, "f": s.F, "g": s.G, "str": "a\x80é", "hs": nString("Xyz"),
		"a": [3][]int{{5, 6}, nil, {7}}, "i": uint8(1), "q": &pk, "nm": map[string]int(nil), "pkg": map[string]interface{}{"A": 77, "F": func(i int) int { return i + 1 }, "S": s},
		"nf": (func(int) int)(nil), "ps": &[]string{"str"}[0], "nl": []int(nil),
	}
}

// paths is the space of access paths from a variable.
func paths(name string, n int) mc.Space {
	roots := sortedNames(accVars())
	prefixes := []string{"%s", "*%s", "&%s", "*&%s", "(*%s).A", "-%s", "%s == nil", "nil != %s", "%s + %[1]s", "**%s", "%s == %[1]s"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d variables x all paths of up to %d out of %d steps that go on from a value x %d expressions around them", len(roots), n, len(pathSteps), len(prefixes)),
		Run: func(c *mc.Ctx) {
			root := roots[c.Choose(len(roots))]
			first := pathSteps[c.Choose(len(pathSteps))]
			second := pathSteps[c.Choose(len(pathSteps))]
			c.Mine()
			v := accVars()
			var rec func(src string, left int)
			rec = func(src string, left int) {
				_, err := ref.EvalString(src, v.env)
				for i, p := range prefixes {
					if i > 0 && err != nil {
						break
					}
					evalCheck(c, v, fmt.Sprintf(p, src), fmt.Sprintf(p, src))
					c.Step(1)
				}
				c.State(1)
				if left == 0 || err != nil {
					return
				}
				for _, s := range pathSteps {
					rec(src+s, left-1)
				}
			}
			if first == pathSteps[0] && second == pathSteps[0] {
				rec(root, 0)
			}
			if second == pathSteps[0] {
				rec(root+first, 0)
			}
			if _, err := ref.EvalString(root+first, v.env); err == nil {
				rec(root+first+second, n-2)
			}
			ref.ClearCache()
		},
	}
}

// indices is the space of indices into strings, arrays and slices.
func indices(name string) mc.Space {
	things := []interface{}{"", "abc", "é\x00", nString("xy"), []int{}, []int(nil), []uint8{4, 5, 6}, [0]string{}, [4]string{"a", "b", "c", "d"}, []string{"q"}, [][]int{{1}, nil}, [2]accInner{}, []*int{nil, &someInt}, make([]uint16, 300), make([]int8, 70000), []nInt8{3, 4}, []nString{"z"}}
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d strings, arrays and slices x indices of all basic and named types x boundary values, lengths and lengths minus one; literals", len(things)),
		Run: func(c *mc.Ctx) {
			x := things[c.Choose(len(things))]
			k := c.Choose(len(ts) + 1)
			c.Mine()
			v := vars{"x": x, "e": 1}
			n := reflect.ValueOf(x).Len()
			if k == len(ts) {
				for _, l := range append([]string{fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(n + 1), "'\\x01'", "1 + 1", "e - 1", "x", "x[0]", "nil"}, literals...) {
					src := "x[" + l + "]"
					evalCheck(c, v, src, src)
					c.State(1)
					c.Step(1)
				}
				return
			}
			t := ts[k]
			vals := boundary(t, true)
			for d := -1; d <= 1; d++ {
				z := reflect.New(t).Elem()
				switch {
				case z.CanInt() && !z.OverflowInt(int64(n+d)):
					z.SetInt(int64(n + d))
				case z.CanUint() && n+d >= 0 && !z.OverflowUint(uint64(n+d)):
					z.SetUint(uint64(n + d))
				}
				vals = append(vals, z.Interface())
			}
			for _, i := range vals {
				v["i"] = i
				evalCheck(c, v, "x[i]", "x[i]")
				c.State(1)
				c.Step(1)
			}
		},
	}
}

type keyStruct struct {
	A int8
	B string
}

// mapKeys is the space of indices into maps.
func mapKeys(name string) mc.Space {
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	elems := []reflect.Type{rt(int(0)), rt(""), rt([]int{}), rt(&someInt), rt(nBool(false)), rt(map[string]int{}), rt(func() {}), rt([2]uint8{}), rt(accInner{})}
	return mc.Space{
		Name:   name,
		Bounds: "maps with keys of all basic and named types x 9 element types x keys of all types, present and missing, and literals; struct and array keys",
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(ts) + 2)
			et := elems[c.Choose(len(elems))]
			c.Mine()
			var keys []interface{}
			switch k {
			case len(ts):
				keys = []interface{}{keyStruct{1, "a"}, keyStruct{}, keyStruct{1, "b"}}
			case len(ts) + 1:
				keys = []interface{}{[2]int{1, 2}, [2]int{}, [2]int{2, 1}}
			default:
				keys = boundary(ts[k], false)
			}
			kt := reflect.TypeOf(keys[0])
			m := reflect.MakeMap(reflect.MapOf(kt, et))
			for i, key := range keys {
				if i%2 == 1 {
					continue
				}
				e := reflect.New(et).Elem()
				switch et.Kind() {
				case reflect.Int:
					e.SetInt(int64(i + 100))
				case reflect.String:
					e.SetString(fmt.Sprint("e", i))
				case reflect.Slice:
					e.Set(reflect.ValueOf([]int{i}))
				case reflect.Ptr:
					e.Set(reflect.ValueOf(&someInt))
				case reflect.Bool:
					e.SetBool(true)
				case reflect.Array:
					e.Index(1).SetUint(uint64(i))
				case reflect.Struct:
					e.Field(0).SetInt(int64(i))
				}
				m.SetMapIndex(reflect.ValueOf(key), e)
			}
			v := vars{"m": m.Interface(), "nm": reflect.Zero(m.Type()).Interface()}
			for _, l := range literals {
				evalCheck(c, v, "m["+l+"]", "m["+l+"]")
				c.State(1)
			}
			others := append([]interface{}{}, keys...)
			for _, t := range ts {
				if t.Kind() != kt.Kind() {
					others = append(others, boundary(t, false)[:2]...)
				}
			}
			for _, key := range others {
				v["k"] = key
				for _, src := range []string{"m[k]", "nm[k]", "m[k] == nm[k]", "m[k] != nil"} {
					evalCheck(c, v, src, src)
				}
				c.State(1)
				c.Step(4)
			}
		},
	}
}

// callLists is the space of calls with all numbers and types of arguments.
func callLists(name string) mc.Space {
	type myFunc func(nInt8, nString) nInt8
	n := 9
	fns := vars{
		"f0": func() int { return 1 },
		"f1": func(a int8) int8 { return a + 1 },
		"f2": func(a uint16, b string) string { return fmt.Sprint(a, b) },
		"f3": func(a float64, b bool, c []int) float64 { return a + float64(len(c)) },
		"f4": func(a, b, c, d uint8) uint32 {
			return uint32(a)<<24 | uint32(b)<<16 | uint32(c)<<8 | uint32(d)
		},
		"fp": func(p *int) bool { return p == nil },
		"fm": func(m map[string]int, f func() int, s []int) int {
			return len(m) + len(s) + map[bool]int{true: 100}[f == nil]
		},
		"fn": myFunc(func(a nInt8, b nString) nInt8 { return a - nInt8(len(b)) }),
		"ff": func(f func(int8) int8) int8 { return f(3) },
		"fs": func(s accInner) accInner { s.X++; return s },
		"fe": func() (int, error) { return 1, nil },
		"fi": func(a int) (int, int) { return a, 2 },
		"fz": func() {},
		"fx": func(i int) int { panic("x") },
		"f5": func(a int, b int, c int, d int, e int, f int) int { return a - b*c + d - e*f },
		"ft": func(a uint64, b uintptr, c float32) float32 { return float32(a) + float32(b) + c },
	}
	args := []string{"1", "-1", "2.5", `"s"`, "true", "nil", "i8", "u8", "u16", "u64", "f64", "str", "ns", "n8", "l", "p", "np", "f1", "f0", "st", "f1(2)", "'c'"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d functions of up to 6 parameters x all lists of up to 2 out of %d arguments, and all lists of 3 and more for those that take them", len(fns), len(args)),
		Run: func(c *mc.Ctx) {
			names := sortedNames(fns)
			f := names[c.Choose(len(names))]
			k := c.Choose(6)
			var list []string
			for i := 0; i < k && i < 2; i++ {
				list = append(list, args[c.Choose(len(args))])
			}
			c.Mine()
			v := vars{"i8": int8(4), "u8": uint8(5), "u16": uint16(6), "u64": uint64(7), "f64": 8.5, "str": "S", "ns": nString("N"), "n8": nInt8(9), "l": []int{1, 2}, "p": &n, "np": (*int)(nil), "st": accInner{X: 1}}
			for name, f := range fns {
				v[name] = f
			}
			var rec func()
			rec = func() {
				if len(list) == k {
					src := f + "(" + strings.Join(list, ", ") + ")"
					evalCheck(c, v, src, src)
					c.State(1)
					c.Step(1)
					return
				}
				in := args
				if k > 3 {
					in = []string{"1", "2", "u8", "nil"}
				}
				for _, a := range in {
					list = append(list, a)
					rec()
					list = list[:len(list)-1]
				}
			}
			rec()
			ref.ClearCache()
		},
	}
}

// nils is the space of comparisons with nil.
func nils(name string) mc.Space {
	type (
		namedP *int
		namedS []int
		namedM map[string]int
		namedF func()
	)
	x := 1
	values := []interface{}{
		(*int)(nil), &x, (**int)(nil), (*accS)(nil), &accS{}, namedP(nil), namedP(&x), []int(nil), []int{}, []int{1}, namedS(nil), namedS{}, []accS(nil), map[string]int(nil), map[string]int{}, namedM(nil), namedM{},
		(func())(nil), func() {}, namedF(nil), namedF(func() {}), (func(int) int)(nil), 0, "", false, 1.5, accInner{}, [2]int{}, [0]*int{}, nBool(false), (*[]int)(nil), &[]int{}, (*func())(nil), (map[string][]int)(nil),
	}
	forms := []string{"v == nil", "nil == v", "v != nil", "nil != v", "v < nil", "nil >= v", "v + nil", "!(v == nil)", "v == nil && true", "v == nil ? 1 : 2", "f(nil, v == nil)", "(v) == (nil)", "v == nil || *v == 1", "v != nil && v == v"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d nil and other values of all kinds x %d expressions", len(values), len(forms)),
		Run: func(c *mc.Ctx) {
			v := vars{"v": values[c.Choose(len(values))], "f": func(p *int, b bool) bool { return b && p == nil }}
			src := forms[c.Choose(len(forms))]
			c.Mine()
			if strings.Contains(src, "f(") && reflect.ValueOf(v["v"]).Kind() == reflect.Func {
				v["v"] = values[0]
			}
			evalCheck(c, v, src, src)
			c.State(1)
			c.Step(1)
		},
	}
}

// resolverStacks is the space of combined resolvers.
func resolverStacks(name string) mc.Space {
	names := []string{"A", "B", "C"}
	type built struct {
		r  expr.Resolver
		tr expr.TypeResolver
		v  map[string]interface{}
	}
	return mc.Space{
		Name:   name,
		Bounds: "stacks of up to 4 resolvers, each a map, a struct, a pair or an adapter over all subsets of 3 names: values and types of every name and of an unknown one",
		Run: func(c *mc.Ctx) {
			n := 1 + c.Choose(4)
			m := expr.NewMetaResolver()
			mt := expr.NewMetaTypeResolver()
			want := map[string]interface{}{}
			var desc []string
			one := func(i int) built {
				kind := c.Choose(3)
				set := c.Choose(8)
				vals := map[string]interface{}{}
				for j, name := range names {
					if set>>uint(j)&1 == 1 {
						switch (i + j + kind) % 4 {
						case 0:
							vals[name] = 10*i + j
						case 1:
							vals[name] = fmt.Sprint("s", i, j)
						case 2:
							vals[name] = []int{i, j}
						case 3:
							vals[name] = float32(i) + 0.5
						}
					}
				}
				desc = append(desc, fmt.Sprint(kind, vals))
				b := built{v: vals}
				switch kind {
				case 0:
					ev, et := map[string]expr.Value{}, map[string]expr.Type{}
					for k, x := range vals {
						ev[k], et[k] = expr.ValueOf(x), expr.TypeOf(x)
					}
					b.r, b.tr = expr.NewMapResolver(ev), expr.NewMapTypeResolver(et)
				case 1:
					var fields []reflect.StructField
					for _, name := range names {
						if x, ok := vals[name]; ok {
							fields = append(fields, reflect.StructField{Name: name, Type: rt(x)})
						}
					}
					s := reflect.New(reflect.StructOf(fields)).Elem()
					for k, x := range vals {
						s.FieldByName(k).Set(reflect.ValueOf(x))
					}
					b.r, b.tr = expr.NewStructResolver(s), expr.NewStructTypeResolver(s.Interface())
				case 2:
					r := expr.NewMetaResolver()
					r.AddResolver(expr.NewMapResolver(nil))
					ev := map[string]expr.Value{}
					for k, x := range vals {
						ev[k] = expr.ValueOf(x)
					}
					r.AddResolver(expr.NewMapResolver(ev))
					b.r, b.tr = r, expr.NewTypeResolverAdapter(r)
				}
				return b
			}
			for i := 0; i < n; i++ {
				b := one(i)
				if i == 0 && n > 1 {
					c.Mine()
				}
				m.AddResolver(b.r)
				mt.AddResolver(b.tr)
				for k, x := range b.v {
					if _, ok := want[k]; !ok {
						want[k] = x
					}
				}
			}
			if n == 1 {
				c.Mine()
			}
			for _, name := range append([]string{"Unknown"}, names...) {
				w, ok := want[name]
				got, err := safeEval(c, m, name)
				if ok != (err == nil) || ok && !sameValue(got, w) {
					c.Fail("%s gives %s, %v, expected %v (known: %v)\nresolvers: %v", name, showResult(got), err, w, ok, desc)
				}
				t := mt.TypeResolve(name)
				if ok != (t != nil) || ok && describes(t, rt(w), 5) != nil {
					c.Fail("the type of %s is %v, expected that of %v (known: %v)\nresolvers: %v", name, t, w, ok, desc)
				}
				t = expr.NewTypeResolverAdapter(m).TypeResolve(name)
				if ok != (t != nil) || ok && describes(t, rt(w), 5) != nil {
					c.Fail("the adapted type of %s is %v, expected that of %v (known: %v)\nresolvers: %v", name, t, w, ok, desc)
				}
				c.Trace(3)
			}
			c.State(1)
			c.Step(4)
		},
	}
}

// describes compares a type description with a Go type.
func describes(et expr.Type, t reflect.Type, depth int) error {
	if et == nil {
		return fmt.Errorf("%v has no description", t)
	}
	if et.Kind() != kindOf(t) {
		return fmt.Errorf("%v is described with kind %v, expected %v", t, et.Kind(), kindOf(t))
	}
	_ = et.String()
	if depth == 0 {
		return nil
	}
	switch x := et.(type) {
	case *expr.ArrayType:
		if x.Len() != t.Len() {
			return fmt.Errorf("%v is described with length %d", t, x.Len())
		}
		return describes(x.Elem(), t.Elem(), depth-1)
	case *expr.SliceType:
		return describes(x.Elem(), t.Elem(), depth-1)
	case *expr.PtrType:
		return describes(x.Elem(), t.Elem(), depth-1)
	case *expr.MapType:
		if err := describes(x.Key(), t.Key(), depth-1); err != nil {
			return err
		}
		return describes(x.Value(), t.Elem(), depth-1)
	case *expr.StructType:
		if x.NumFields() != t.NumField() {
			return fmt.Errorf("%v is described with %d fields", t, x.NumFields())
		}
		for i := 0; i < t.NumField(); i++ {
			if x.Field(i).Name != t.Field(i).Name {
				return fmt.Errorf("field %d of %v is described as %s", i, t, x.Field(i).Name)
			}
			if err := describes(x.Field(i).Type, t.Field(i).Type, depth-1); err != nil {
				return err
			}
			f, ok := x.FieldByName(t.Field(i).Name)
			if !ok || f.Name != t.Field(i).Name && t.Field(i).Name != "_" {
				return fmt.Errorf("%v has no description of field %s", t, t.Field(i).Name)
			}
			if err := describes(f.Type, t.Field(i).Type, depth-1); err != nil {
				return err
			}
		}
		if _, ok := x.FieldByName("NoSuchField"); ok {
			return fmt.Errorf("%v has a field too many", t)
		}
	case *expr.FuncType:
		if x.NumIn() != t.NumIn() || x.NumOut() != t.NumOut() || x.IsVariadic() != t.IsVariadic() {
			return fmt.Errorf("%v is described with %d and %d parameters, variadic: %v", t, x.NumIn(), x.NumOut(), x.IsVariadic())
		}
		for i := 0; i < t.NumIn(); i++ {
			if err := describes(x.In(i), t.In(i), depth-1); err != nil {
				return err
			}
		}
		for i := 0; i < t.NumOut(); i++ {
			if err := describes(x.Out(i), t.Out(i), depth-1); err != nil {
				return err
			}
		}
	default:
		if s := basicName(t); et.String() != s {
			return fmt.Errorf("%v is called %s", t, et.String())
		}
	}
	return nil
}

func basicName(t reflect.Type) string { return t.Kind().String() }

// Recursive types.
type (
	recPtr    struct{ Next *recPtr }
	recSlice  struct{ Kids []recSlice }
	recMap    struct{ M map[string]recMap }
	recFunc   struct{ F func(recFunc) *recFunc }
	recNamedS []recNamedS
	recNamedM map[int]recNamedM
	recNamedP *recNamedP
	recNamedF func(recNamedF) recNamedF
	recA      struct {
		B  *recB
		Bs []recB
	}
	recB struct {
		A  *recA
		Aa [2]*recA
		N  int
	}
	recC struct {
		D map[string]*recD
		S []recNamedS
	}
	recD struct {
		C func(*recC) []recD
		E *recPtr
	}
)

var recursiveTypes = []reflect.Type{rt(recPtr{}), rt(recSlice{}), rt(recMap{}), rt(recFunc{}), rt(recNamedS{}), rt(recNamedM{}), rt(recNamedP(nil)), rt(recNamedF(nil)), rt(recA{}), rt(recB{}), rt(recC{}), rt(recD{}), rt(refNode{}), rt(accS{})}

// describedTypes lists types to a depth.
func describedTypes(c *mc.Ctx, depth int) reflect.Type {
	leaves := []reflect.Type{rt(int(0)), rt(uint8(0)), rt(""), rt(nBool(false)), rt(float32(0)), rt(accInner{})}
	kind := 0
	if depth > 0 {
		kind = c.Choose(10)
	}
	switch kind {
	case 0:
		return leaves[c.Choose(len(leaves))]
	case 1:
		return reflect.SliceOf(describedTypes(c, depth-1))
	case 2:
		return reflect.ArrayOf(3, describedTypes(c, depth-1))
	case 3:
		return reflect.PtrTo(describedTypes(c, depth-1))
	case 4:
		return reflect.MapOf(rt(""), describedTypes(c, depth-1))
	case 5:
		return reflect.MapOf(rt(nInt8(0)), describedTypes(c, depth-1))
	case 6:
		return reflect.FuncOf([]reflect.Type{describedTypes(c, depth-1), rt(uint16(0))}, nil, false)
	case 7:
		return reflect.FuncOf(nil, []reflect.Type{rt(false), describedTypes(c, depth-1)}, false)
	case 8:
		return reflect.FuncOf([]reflect.Type{rt(int(0)), reflect.SliceOf(describedTypes(c, depth-1))}, []reflect.Type{rt("")}, true)
	default:
		return reflect.StructOf([]reflect.StructField{{Name: "F1", Type: rt(int8(0))}, {Name: "F2", Type: describedTypes(c, depth-1)}, {Name: "F3", Type: reflect.PtrTo(rt(accInner{}))}})
	}
}

func typeOfExpr(c *mc.Ctx, t reflect.Type) (et expr.Type) {
	safely(c, "TypeOf", t.String, func() { et = expr.TypeOf(reflect.Zero(t).Interface()) })
	return
}

// typeDescriptions is the space of type descriptions.
func typeDescriptions(name string, depth int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all types of depth %d built of slices, arrays, pointers, maps, functions and structs over 6 types, and %d recursive types down to depth 8", depth, len(recursiveTypes)),
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(basics) + len(nameds) + len(recursiveTypes) + 1)
			var t reflect.Type
			switch {
			case k < len(basics):
				t = basics[k]
			case k < len(basics)+len(nameds):
				t = nameds[k-len(basics)]
			case k < len(basics)+len(nameds)+len(recursiveTypes):
				t = recursiveTypes[k-len(basics)-len(nameds)]
			default:
				t = describedTypes(c, depth)
			}
			c.Mine()
			et := typeOfExpr(c, t)
			if err := describes(et, t, 8); err != nil {
				c.Fail("%v", err)
			}
			if !expr.TypeEqual(et, typeOfExpr(c, t)) {
				c.Fail("two descriptions of %v differ", t)
			}
			if v := expr.ValueOf(reflect.Zero(t).Interface()); !expr.TypeEqual(v.Type(), et) {
				c.Fail("the type of a value of %v differs from that of its type", t)
			}
			if t.Kind() == reflect.Struct {
				r := expr.NewStructTypeResolver(reflect.Zero(t).Interface())
				for i := 0; i < t.NumField(); i++ {
					if err := describes(r.TypeResolve(t.Field(i).Name), t.Field(i).Type, 4); err != nil {
						c.Fail("struct type resolver: %v", err)
					}
				}
				if r.TypeResolve("NoSuchField") != nil {
					c.Fail("struct type resolver knows a field too many of %v", t)
				}
			}
			c.State(1)
			c.Step(1)
			c.Trace(3)
		},
	}
}

// typePairs is the space of pairs of types: different ones are not equal.
func typePairs(name string) mc.Space {
	var ts []reflect.Type
	base := append([]reflect.Type{}, basics...)
	ts = append(ts, base...)
	for _, b := range append([]reflect.Type{rt(keyStruct{}), rt(accInner{})}, base[:6]...) {
		ts = append(ts, b, reflect.SliceOf(b), reflect.PtrTo(b), reflect.ArrayOf(2, b), reflect.ArrayOf(3, b), reflect.MapOf(rt(""), b), reflect.MapOf(rt(int(0)), b), reflect.FuncOf([]reflect.Type{b}, nil, false), reflect.FuncOf(nil, []reflect.Type{b}, false),
			reflect.PtrTo(reflect.PtrTo(b)), reflect.SliceOf(reflect.SliceOf(b)), reflect.SliceOf(reflect.PtrTo(b)), reflect.FuncOf([]reflect.Type{b, b}, []reflect.Type{b}, false), reflect.FuncOf([]reflect.Type{reflect.SliceOf(b)}, nil, true), reflect.FuncOf([]reflect.Type{reflect.SliceOf(b)}, nil, false),
			reflect.StructOf([]reflect.StructField{{Name: "A", Type: b}}), reflect.StructOf([]reflect.StructField{{Name: "B", Type: b}}), reflect.StructOf([]reflect.StructField{{Name: "A", Type: b}, {Name: "B", Type: b}}))
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all pairs of %d types", len(ts)),
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			c.Mine()
			for _, u := range ts {
				got := expr.TypeEqual(typeOfExpr(c, t), typeOfExpr(c, u))
				if got != (t == u) {
					c.Fail("%v and %v compare as %v", t, u, got)
				}
				c.State(1)
				c.Step(1)
				c.Trace(1)
			}
		},
	}
}

var bitsFuncs = map[string]interface{}{
	"LeadingZeros": bits.LeadingZeros, "LeadingZeros8": bits.LeadingZeros8, "LeadingZeros16": bits.LeadingZeros16, "LeadingZeros32": bits.LeadingZeros32, "LeadingZeros64": bits.LeadingZeros64,
	"Len": bits.Len, "Len8": bits.Len8, "Len16": bits.Len16, "Len32": bits.Len32, "Len64": bits.Len64,
	"OnesCount": bits.OnesCount, "OnesCount8": bits.OnesCount8, "OnesCount16": bits.OnesCount16, "OnesCount32": bits.OnesCount32, "OnesCount64": bits.OnesCount64,
	"Reverse": bits.Reverse, "Reverse8": bits.Reverse8, "Reverse16": bits.Reverse16, "Reverse32": bits.Reverse32, "Reverse64": bits.Reverse64,
	"ReverseBytes": bits.ReverseBytes, "ReverseBytes16": bits.ReverseBytes16, "ReverseBytes32": bits.ReverseBytes32, "ReverseBytes64": bits.ReverseBytes64,
	"RotateLeft": bits.RotateLeft, "RotateLeft8": bits.RotateLeft8, "RotateLeft16": bits.RotateLeft16, "RotateLeft32": bits.RotateLeft32, "RotateLeft64": bits.RotateLeft64,
	"TrailingZeros": bits.TrailingZeros, "TrailingZeros8": bits.TrailingZeros8, "TrailingZeros16": bits.TrailingZeros16, "TrailingZeros32": bits.TrailingZeros32, "TrailingZeros64": bits.TrailingZeros64,
}

// bitsPackage is the space of calls to the bits package in tags.
func bitsPackage(name string) mc.Space {
	names := sortedNames(bitsFuncs)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d functions of the bits package called by an out expression x all 8-bit values or boundary values x rotations", len(names)),
		Run: func(c *mc.Ctx) {
			fn := names[c.Choose(len(names))]
			c.Mine()
			f := reflect.ValueOf(bitsFuncs[fn])
			ft := f.Type()
			bin := func(t reflect.Type) string {
				switch t.Kind() {
				case reflect.Int:
					return "int64"
				case reflect.Uint:
					return "uint64"
				}
				return t.Kind().String()
			}
			args := "A"
			if ft.NumIn() == 2 {
				args = "A, K"
			}
			t := reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: ft.In(0), Tag: reflect.StructTag(`struct:"` + bin(ft.In(0)) + `"`)},
				{Name: "K", Type: rt(int(0)), Tag: `struct:"int64"`},
				{Name: "R", Type: ft.Out(0), Tag: reflect.StructTag(`struct:"` + bin(ft.Out(0)) + `,out=bits.` + fn + `(` + args + `)"`)},
			})
			var vals []interface{}
			if ft.In(0).Bits() == 8 {
				for i := 0; i < 256; i++ {
					vals = append(vals, uint8(i))
				}
			} else {
				vals = boundary(ft.In(0), true)
				for i := 0; i < ft.In(0).Bits(); i++ {
					z := reflect.New(ft.In(0)).Elem()
					z.SetUint(1<<uint(i) | 1)
					vals = append(vals, z.Interface())
				}
			}
			ks := []int{0}
			if ft.NumIn() == 2 {
				ks = []int{0, 1, -1, 7, 8, 9, 31, -33, 64, 100}
			}
			for _, a := range vals {
				for _, k := range ks {
					in := []reflect.Value{reflect.ValueOf(a), reflect.ValueOf(k)}[:ft.NumIn()]
					want := f.Call(in)[0]
					v := reflect.New(t).Elem()
					v.Field(0).Set(reflect.ValueOf(a))
					v.Field(1).SetInt(int64(k))
					var data []byte
					var err error
					desc := func() string { return fmt.Sprintf("bits.%s(%v, %d)", fn, a, k) }
					safely(c, "Pack", desc, func() { data, err = restruct.Pack(orders[1].O, v.Addr().Interface()) })
					off := (intBitsOf(ft.In(0)) + 64) / 8
					var got uint64
					for _, b := range data {
						if off > 0 {
							off--
							continue
						}
						got = got<<8 | uint64(b)
					}
					var w uint64
					if want.CanInt() {
						w = uint64(want.Int())
					} else {
						w = want.Uint()
					}
					if err != nil || got != w {
						c.Fail("%s gives %d, %v, expected %d", desc(), got, err, w)
					}
					c.State(1)
					c.Step(1)
					c.Trace(1)
				}
			}
		},
	}
}

func intBitsOf(t reflect.Type) int { return t.Bits() }
