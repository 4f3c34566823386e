package suites

import (
	"errors"
	"fmt"
	"go/token"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

// vars are the variables of an expression, for the library and the model.
// Packages are maps from names to values.
type vars map[string]interface{}

// Resolve implements expr.Resolver.
func (v vars) Resolve(name string) expr.Value {
	x, ok := v[name]
	if !ok {
		return nil
	}
	return exprValue(x)
}

func exprValue(x interface{}) expr.Value {
	if p, ok := x.(map[string]interface{}); ok {
		m := map[string]expr.Value{}
		for k, s := range p {
			m[k] = exprValue(s)
		}
		return expr.ValueOf(expr.NewPackage(m))
	}
	return expr.ValueOf(x)
}

func (v vars) env(name string) (interface{}, bool) {
	x, ok := v[name]
	return x, ok
}

// safeEval evaluates a text with the library.
func safeEval(c *mc.Ctx, r expr.Resolver, src string) (x interface{}, err error) {
	safely(c, "Eval", func() string { return src }, func() { x, err = expr.Eval(r, src) })
	return
}

// parseProgram parses a well-formed expression.
func parseProgram(c *mc.Ctx, src string) (p *expr.Program) {
	safely(c, "ParseString", func() string { return src }, func() { p = expr.ParseString(src) })
	return
}

func runProgram(c *mc.Ctx, r expr.Resolver, p *expr.Program, desc func() string) (x interface{}, err error) {
	safely(c, "EvalProgram", desc, func() { x, err = expr.EvalProgram(r, p) })
	return
}

// sameResult compares the result of an evaluation with that of the model. It
// says nothing when the model leaves the result open.
func sameResult(got interface{}, gerr error, want interface{}, werr error) error {
	if errors.Is(werr, ref.ErrUnspecified) {
		return nil
	}
	if werr != nil {
		if gerr == nil {
			return fmt.Errorf("gives %s, expected an error (%v)", showResult(got), werr)
		}
		return nil
	}
	if _, ok := want.(ref.Nil); ok {
		return nil // the literal nil has no type: left open
	}
	if gerr != nil {
		return fmt.Errorf("gives the error %q, expected %s", gerr, showResult(want))
	}
	if cst, ok := want.(ref.Const); ok {
		cv := ref.ConstValue(cst)
		g := reflect.ValueOf(got)
		switch w := cv.(type) {
		case int64:
			if g.CanInt() && g.Int() == w || g.CanUint() && w >= 0 && g.Uint() == uint64(w) {
				return nil
			}
		case uint64:
			if g.CanUint() && g.Uint() == w || g.CanInt() && uint64(g.Int()) == w {
				return nil
			}
		case float64:
			if g.Kind() == reflect.Float64 && g.Float() == w {
				return nil
			}
		case bool:
			if b, ok := got.(bool); ok && b == w {
				return nil
			}
		case nil:
			return nil
		}
		return fmt.Errorf("gives %s, expected the constant %v", showResult(got), cv)
	}
	if !sameValue(got, want) {
		return fmt.Errorf("gives %s, expected %s", showResult(got), showResult(want))
	}
	return nil
}

func sameValue(got, want interface{}) bool {
	if _, ok := want.(map[string]interface{}); ok {
		_, ok = got.(expr.Package)
		return ok
	}
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	g, w := reflect.ValueOf(ref.Basic(got)), reflect.ValueOf(ref.Basic(want))
	if g.Type() != w.Type() {
		return false
	}
	switch w.Kind() {
	case reflect.Float32, reflect.Float64:
		a, b := g.Float(), w.Float()
		if math.IsNaN(a) || math.IsNaN(b) {
			return math.IsNaN(a) && math.IsNaN(b)
		}
		return math.Float64bits(a) == math.Float64bits(b)
	case reflect.Func, reflect.Map, reflect.Ptr, reflect.Chan:
		return g.Pointer() == w.Pointer()
	case reflect.Slice:
		return g.Pointer() == w.Pointer() && g.Len() == w.Len()
	}
	if w.Type().Comparable() {
		return g.Interface() == w.Interface()
	}
	return ref.Equal(addressable(got), addressable(want)) == nil
}

func addressable(x interface{}) reflect.Value {
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	return v
}

func showResult(x interface{}) string {
	if c, ok := x.(ref.Const); ok {
		return fmt.Sprintf("the constant %v", ref.ConstValue(c))
	}
	return fmt.Sprintf("%#v (%T)", x, x)
}

// evalCheck evaluates a text and compares it with what the model makes of
// another text, which is usually the same.
func evalCheck(c *mc.Ctx, v vars, src, oracle string) {
	want, werr := ref.EvalString(oracle, v.env)
	evalAgainst(c, v, src, want, werr)
}

func evalAgainst(c *mc.Ctx, v vars, src string, want interface{}, werr error) {
	got, gerr := safeEval(c, v, src)
	if d := sameResult(got, gerr, want, werr); d != nil {
		c.Fail("%q %v\nvariables: %s", src, d, v)
	}
	c.Trace(1)
}

func (v vars) String() string {
	var b strings.Builder
	for _, k := range sortedNames(v) {
		fmt.Fprintf(&b, "%s = %#v; ", k, v[k])
	}
	return b.String()
}

// Named types: they behave as their underlying types.
type (
	nBool    bool
	nInt     int
	nInt8    int8
	nInt16   int16
	nInt32   int32
	nInt64   int64
	nUint    uint
	nUint8   uint8
	nUint16  uint16
	nUint32  uint32
	nUint64  uint64
	nUintptr uintptr
	nFloat32 float32
	nFloat64 float64
	nString  string
)

// basics are the types operators are defined on.
var basics = []reflect.Type{
	rt(false), rt(int(0)), rt(int8(0)), rt(int16(0)), rt(int32(0)), rt(int64(0)),
	rt(uint(0)), rt(uint8(0)), rt(uint16(0)), rt(uint32(0)), rt(uint64(0)), rt(uintptr(0)),
	rt(float32(0)), rt(float64(0)), rt(""),
}

var nameds = []reflect.Type{
	rt(nBool(false)), rt(nInt(0)), rt(nInt8(0)), rt(nInt16(0)), rt(nInt32(0)), rt(nInt64(0)),
	rt(nUint(0)), rt(nUint8(0)), rt(nUint16(0)), rt(nUint32(0)), rt(nUint64(0)), rt(nUintptr(0)),
	rt(nFloat32(0)), rt(nFloat64(0)), rt(nString("")),
}

// boundary lists interesting values of a basic type.
func boundary(t reflect.Type, more bool) []interface{} {
	var out []interface{}
	seen := map[interface{}]bool{}
	add := func(set func(v reflect.Value)) {
		v := reflect.New(t).Elem()
		set(v)
		x := v.Interface()
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	zero := reflect.Zero(t)
	switch {
	case t.Kind() == reflect.Bool:
		add(func(v reflect.Value) {})
		add(func(v reflect.Value) { v.SetBool(true) })
	case t.Kind() == reflect.String:
		for _, s := range []string{"", "a", "b", "ab", "aa", "\x00", "\xff", "é"} {
			add(func(v reflect.Value) { v.SetString(s) })
		}
	case zero.CanInt():
		n := uint(t.Bits())
		list := []int64{0, 1, -1, 2, 3, -3, 7, -8, 1<<(n-1) - 1, -1 << (n - 1), -1<<(n-1) + 1, 0x5a}
		if more {
			list = append(list, 1<<(n-1)-2, 10, -10, 0x33, 1<<(n/2), -1<<(n/2), 1<<(n/2)-1, 1<<(n/2)+1, 0x7e-0x100, 5)
		}
		for _, i := range list {
			add(func(v reflect.Value) { v.SetInt(i) })
		}
	case zero.CanUint():
		n := uint(t.Bits())
		all := uint64(1)<<n - 1
		list := []uint64{0, 1, 2, 3, 7, 8, all, all - 1, all>>1 + 1, all >> 1, 0x5a}
		if more {
			list = append(list, all-2, 10, 0x33, 1<<(n/2), 1<<(n/2)-1, 1<<(n/2)+1, 0xa5&all, 5, 6, all/3)
		}
		for _, i := range list {
			add(func(v reflect.Value) { v.SetUint(i) })
		}
	case zero.CanFloat():
		list := []float64{0, 1, -1, 0.5, -2.25, 3, 1e10, math.Inf(1), math.Inf(-1), math.NaN(), 0.1}
		if more {
			list = append(list, math.Copysign(0, -1), math.MaxFloat32, math.SmallestNonzeroFloat32, -7, 16777217, 1e-10, 255, 2, -3)
			if t.Bits() == 64 {
				list = append(list, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 9007199254740993)
			}
		}
		for _, f := range list {
			add(func(v reflect.Value) { v.SetFloat(f) })
		}
	}
	return out
}

var binaryTokens = []token.Token{
	token.ADD, token.SUB, token.MUL, token.QUO, token.REM,
	token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR,
	token.LAND, token.LOR,
	token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ,
}

var unaryTokens = []token.Token{token.ADD, token.SUB, token.NOT, token.XOR}

// valueMethods are the operators as methods.
var valueMethods = map[token.Token]func(a, b expr.Value) expr.Value{
	token.ADD:     func(a, b expr.Value) expr.Value { return a.Add(b) },
	token.SUB:     func(a, b expr.Value) expr.Value { return a.Sub(b) },
	token.MUL:     func(a, b expr.Value) expr.Value { return a.Mul(b) },
	token.QUO:     func(a, b expr.Value) expr.Value { return a.Div(b) },
	token.REM:     func(a, b expr.Value) expr.Value { return a.Rem(b) },
	token.AND:     func(a, b expr.Value) expr.Value { return a.And(b) },
	token.OR:      func(a, b expr.Value) expr.Value { return a.Or(b) },
	token.XOR:     func(a, b expr.Value) expr.Value { return a.Xor(b) },
	token.AND_NOT: func(a, b expr.Value) expr.Value { return a.AndNot(b) },
	token.SHL:     func(a, b expr.Value) expr.Value { return a.Lsh(b) },
	token.SHR:     func(a, b expr.Value) expr.Value { return a.Rsh(b) },
	token.LAND:    func(a, b expr.Value) expr.Value { return a.LogicalAnd(b) },
	token.LOR:     func(a, b expr.Value) expr.Value { return a.LogicalOr(b) },
	token.EQL:     func(a, b expr.Value) expr.Value { return a.Equal(b) },
	token.NEQ:     func(a, b expr.Value) expr.Value { return a.NotEqual(b) },
	token.LSS:     func(a, b expr.Value) expr.Value { return a.Lesser(b) },
	token.LEQ:     func(a, b expr.Value) expr.Value { return a.LesserEqual(b) },
	token.GTR:     func(a, b expr.Value) expr.Value { return a.Greater(b) },
	token.GEQ:     func(a, b expr.Value) expr.Value { return a.GreaterEqual(b) },
}

// methodResult calls an operator method; those panic to report errors.
func methodResult(f func() expr.Value) (x interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	v := f()
	x = v.RawValue()
	if v.Value().IsValid() && v.Type().Kind() < expr.UntypedBool {
		// The type of a result describes it.
		if k := kindOf(reflect.TypeOf(x)); k != v.Type().Kind() {
			return nil, fmt.Errorf("a %T is described as %v", x, v.Type())
		}
	}
	return
}

// logical tells whether the right side of a connective is left open.
func logical(op token.Token, x interface{}) bool {
	b, ok := ref.Truth(x)
	return ok && (op == token.LAND && !b || op == token.LOR && b)
}

func binaryCase(c *mc.Ctx, p *expr.Program, src string, op token.Token, x, y interface{}) {
	want, werr := ref.Binary(op, x, y)
	if werr != nil && logical(op, x) {
		return
	}
	v := vars{"a": x, "b": y}
	got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
	if d := sameResult(got, gerr, want, werr); d != nil {
		c.Fail("%q %v\nwith %s", src, d, v)
	}
	got, gerr = methodResult(func() expr.Value { return valueMethods[op](expr.ValueOf(x), expr.ValueOf(y)) })
	if d := sameResult(got, gerr, want, werr); d != nil {
		c.Fail("the method for %q %v\nwith %s", src, d, v)
	}
	c.Step(1)
	c.Trace(2)
}

func propC15() *mc.Property {
	return &mc.Property{ID: "C15", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Shift counts have unsigned types or are constants; constants fit their operand's type, and in arithmetic between constants an int64; operands are not a mix of a named type and its underlying type.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				sameTypes("operators on two operands of the same type", tier == "thorough"),
				allBytes("operators on all pairs of bytes"),
				mixedTypes("operators on operands of different types"),
				unaries("unary operators"),
				shifts("shifts"),
				literalOperands("operators on literals and variables"),
				literalPairs("operators on two literals"),
				connectives("evaluation order and laziness"),
				conditionals("conditional operator"),
				chained("two operators in a row"),
				deep(allWords("unary operators and literals on all 16-bit operands")),
			}
		}}
}

// sameTypes is the space of operators applied to two values of one type.
func sameTypes(name string, more bool) mc.Space {
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	return mc.Space{
		Name:   name,
		Bounds: "19 binary operators x 15 basic types and 15 named types x all pairs of up to 28 boundary values, by expression and by method",
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			t := ts[c.Choose(len(ts))]
			c.Mine()
			src := "a " + op.String() + " b"
			p := parseProgram(c, src)
			vals := boundary(t, true)
			for _, x := range vals {
				for _, y := range vals {
					binaryCase(c, p, src, op, x, y)
				}
			}
			c.State(len(vals) * len(vals))
			c.Sample(func() string { return fmt.Sprintf("%s for %d x %d values of %s", src, len(vals), len(vals), t) })
		},
	}
}

// allBytes is the space of operators on all pairs of int8 or uint8.
func allBytes(name string) mc.Space {
	ts := []reflect.Type{rt(int8(0)), rt(uint8(0))}
	return mc.Space{
		Name:   name,
		Bounds: "19 binary operators x int8 and uint8 x all 65536 pairs of values",
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			t := ts[c.Choose(2)]
			row := c.Choose(8)
			c.Mine()
			src := "a " + op.String() + " b"
			p := parseProgram(c, src)
			for i := row * 32; i < row*32+32; i++ {
				for j := 0; j < 256; j++ {
					x := reflect.ValueOf(uint8(i)).Convert(t).Interface()
					y := reflect.ValueOf(uint8(j)).Convert(t).Interface()
					binaryCase(c, p, src, op, x, y)
				}
			}
			c.State(32 * 256)
		},
	}
}

type cmpStruct struct {
	A int
	B string
}

type uncmpStruct struct{ A []byte }

var someInt, otherInt = 1, 1

// composites are values that few operators are defined on.
var composites = []interface{}{
	cmpStruct{1, "x"}, cmpStruct{1, "y"}, uncmpStruct{[]byte{1}},
	[2]int{1, 2}, [2]int{1, 3}, [3]int{1, 2, 3}, [1]uncmpStruct{},
	[]int{1}, []int(nil), []byte("x"), map[string]int{"a": 1}, map[string]int(nil),
	&someInt, &otherInt, (*int)(nil), &cmpStruct{}, strings.ToUpper, (func())(nil), func(a int) int { return a },
	map[string]interface{}{"X": 1}, // a package
}

// mixedTypes is the space of operators applied to operands of all pairs of
// types.
func mixedTypes(name string) mc.Space {
	var operands [][]interface{}
	for _, t := range append(append([]reflect.Type{}, basics...), nameds...) {
		b := boundary(t, false)
		operands = append(operands, b[:2])
	}
	for i := range composites {
		operands = append(operands, composites[i:i+1])
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("19 binary operators x all ordered pairs of %d operand types (basic, named, structs, arrays, slices, maps, pointers, functions, packages)", len(operands)),
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			xs := operands[c.Choose(len(operands))]
			c.Mine()
			src := "a " + op.String() + " b"
			for _, ys := range operands {
				for _, x := range xs {
					for _, y := range ys {
						if t, u := reflect.TypeOf(x), reflect.TypeOf(y); t != u && t.Kind() == u.Kind() && t.ConvertibleTo(u) {
							continue // named and unnamed types mixed
						}
						v := vars{"a": x, "b": y}
						want, werr := ref.EvalString(src, v.env)
						if werr == nil || !logical(op, x) {
							evalAgainst(c, v, src, want, werr)
						}
						c.State(1)
						c.Step(1)
					}
				}
			}
		},
	}
}

// unaries is the space of unary operators.
func unaries(name string) mc.Space {
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	methods := map[token.Token]func(a expr.Value) expr.Value{
		token.SUB: func(a expr.Value) expr.Value { return a.Negate() },
		token.NOT: func(a expr.Value) expr.Value { return a.Not() },
		token.XOR: func(a expr.Value) expr.Value { return a.BitNot() },
	}
	return mc.Space{
		Name:   name,
		Bounds: "chains of up to 3 unary operators x all basic, named and composite types x boundary values, and all values of the 8-bit types; by expression and by method",
		Run: func(c *mc.Ctx) {
			n := 1 + c.Choose(3)
			src := "a"
			var op token.Token
			for i := 0; i < n; i++ {
				op = unaryTokens[c.Choose(len(unaryTokens))]
				src = op.String() + " " + src
			}
			k := c.Choose(len(ts) + 1)
			c.Mine()
			var vals []interface{}
			if k == len(ts) {
				vals = composites
			} else {
				vals = boundary(ts[k], true)
				if ts[k].Kind() == reflect.Uint8 || ts[k].Kind() == reflect.Int8 {
					vals = nil
					for i := 0; i < 256; i++ {
						vals = append(vals, reflect.ValueOf(uint8(i)).Convert(ts[k]).Interface())
					}
				}
			}
			p := parseProgram(c, src)
			for _, x := range vals {
				v := vars{"a": x}
				want, werr := ref.EvalString(src, v.env)
				got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
				if d := sameResult(got, gerr, want, werr); d != nil {
					c.Fail("%q %v\nwith %s", src, d, v)
				}
				c.Trace(1)
				if m := methods[op]; m != nil && n == 1 {
					got, gerr = methodResult(func() expr.Value { return m(exprValue(x)) })
					if d := sameResult(got, gerr, want, werr); d != nil {
						c.Fail("the method for %q %v\nwith %s", src, d, v)
					}
					c.Trace(1)
				}
			}
			c.State(len(vals))
			c.Step(len(vals))
		},
	}
}

// shifts is the space of shifts.
func shifts(name string) mc.Space {
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	counts := []reflect.Type{rt(uint(0)), rt(uint8(0)), rt(uint16(0)), rt(uint32(0)), rt(uint64(0)), rt(uintptr(0)), rt(nUint8(0)), rt(nUint(0)), nil}
	return mc.Space{
		Name:   name,
		Bounds: "<< and >> x all basic and named types x boundary values x counts 0 to 66, 127, 255 and the largest of every unsigned type, and literal counts",
		Run: func(c *mc.Ctx) {
			op := []string{"<<", ">>"}[c.Choose(2)]
			t := ts[c.Choose(len(ts))]
			ct := counts[c.Choose(len(counts))]
			c.Mine()
			for n := 0; n <= 70; n++ {
				src := "a " + op + " b"
				v := vars{}
				switch {
				case ct == nil:
					src = fmt.Sprintf("a %s %d", op, n)
				default:
					b := reflect.New(ct).Elem()
					switch n {
					case 67:
						b.SetUint(127)
					case 68:
						b.SetUint(255)
					case 69:
						b.SetUint(1<<uint(ct.Bits()) - 1)
					case 70:
						b.SetUint(1 << uint(ct.Bits()-1))
					default:
						b.SetUint(uint64(n))
					}
					v["b"] = b.Interface()
				}
				for _, x := range boundary(t, true) {
					v["a"] = x
					evalCheck(c, v, src, src)
					c.State(1)
					c.Step(1)
				}
			}
		},
	}
}

var literals = []string{
	"0", "1", "2", "3", "7", "-1", "-2", "-8", "10", "0x7f", "0x80", "255", "-128", "256", "0xffff", "0x8000", "017",
	"2147483647", "2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615",
	"'a'", "'\\x00'", "'é'", "'\\377'", "0.5", "2.0", "-1.5", "1e3", "2.5e-1", ".5", "1e300", "true", "false",
	`""`, `"a"`, `"ab"`, "nil", "$'b'",
}

// literalOperands is the space of operators on a literal and a variable.
func literalOperands(name string) mc.Space {
	ts := append(append([]reflect.Type{}, basics...), nameds...)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("19 binary operators x %d literals, on either side, x all basic, named and composite types x boundary values", len(literals)),
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			l := literals[c.Choose(len(literals))]
			right := c.Bool()
			c.Mine()
			src := l + " " + op.String() + " a"
			if right {
				src = "a " + op.String() + " " + l
			}
			for k := 0; k <= len(ts); k++ {
				vals := composites
				if k < len(ts) {
					vals = boundary(ts[k], false)
				}
				for _, x := range vals {
					v := vars{"a": x}
					if op == token.LAND || op == token.LOR {
						first := x
						if !right {
							first, _ = ref.EvalString(l, v.env)
						}
						if _, err := ref.EvalString("true "+op.String()+" ("+src+")", v.env); logical(op, first) && err != nil {
							continue
						}
						if logical(op, first) {
							if other, _ := ref.EvalString(map[bool]string{true: l, false: "a"}[right], v.env); !isTruth(other) {
								continue
							}
						}
					}
					evalCheck(c, v, src, src)
					c.State(1)
					c.Step(1)
				}
			}
		},
	}
}

func isTruth(x interface{}) bool {
	_, ok := ref.Truth(x)
	return ok
}

// literalPairs is the space of operators on two literals, and of the type the
// result takes on next to a variable.
func literalPairs(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("19 binary operators x %d x %d literals; and the result as an operand of a variable of every numeric type", len(literals), len(literals)),
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			l := literals[c.Choose(len(literals))]
			c.Mine()
			for _, r := range literals {
				src := l + " " + op.String() + " " + r
				if op == token.LAND || op == token.LOR {
					x, _ := ref.EvalString(l, nil)
					y, _ := ref.EvalString(r, nil)
					if logical(op, x) && !isTruth(y) {
						continue
					}
				}
				evalCheck(c, vars{}, src, src)
				for _, t := range basics[1:14] {
					v := vars{"a": reflect.ValueOf(3).Convert(t).Interface()}
					s := "(" + src + ") + a"
					evalCheck(c, v, s, s)
				}
				c.State(14)
				c.Step(14)
			}
		},
	}
}

// connectives is the space of logical expressions over functions that count
// their calls.
func connectives(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "all expressions of up to 4 calls joined by &&, ||, ==, !, ?: and parentheses, x all results of the calls: result and calls made",
		Run: func(c *mc.Ctx) {
			n := 1 + c.Choose(4)
			shape := 0
			if n >= 3 {
				shape = c.Choose(3)
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString([]string{" && ", " || ", " == "}[c.Choose(3)])
				}
				if shape == 1 && i == n-2 {
					b.WriteString("(")
				}
				if c.Bool() {
					b.WriteString("!")
				}
				fmt.Fprintf(&b, "F%d()", i)
				if shape == 2 && i == 1 {
					b.WriteString(")")
				}
			}
			src := b.String()
			switch shape {
			case 1:
				src += ")"
			case 2:
				src = "(" + src
			}
			c.Mine()
			for m := 0; m < 1<<uint(n); m++ {
				var calls []int
				v := vars{}
				for i := 0; i < n; i++ {
					i, res := i, m>>uint(i)&1 == 1
					v[fmt.Sprintf("F%d", i)] = func() bool { calls = append(calls, i); return res }
				}
				want, werr := ref.EvalString(src, v.env)
				wcalls := calls
				calls = nil
				evalAgainst(c, v, src, want, werr)
				if fmt.Sprint(calls) != fmt.Sprint(wcalls) {
					c.Fail("%q calls %v, expected %v (results %b)", src, calls, wcalls, m)
				}
				c.State(1)
				c.Step(len(calls))
			}
		},
	}
}

// conditionals is the space of conditional expressions.
func conditionals(name string) mc.Space {
	branches := []string{"F()", "G()", "1", "2.5", `"s"`, "a + 1", "nil == p", "1 / z", "N"}
	conds := []string{"t", "f", "!t", "a > 1", "a < 1", "t && f", "t || f", "nt", "nf", "true", "false", "a", "1", `"x"`, "nil", "p == nil"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d conditions x %d x %d branches, only the chosen one being evaluated", len(conds), len(branches), len(branches)),
		Run: func(c *mc.Ctx) {
			src := conds[c.Choose(len(conds))] + " ? " + branches[c.Choose(len(branches))] + " : " + branches[c.Choose(len(branches))]
			c.Mine()
			var calls []string
			v := vars{"t": true, "f": false, "nt": nBool(true), "nf": nBool(false), "a": 2, "z": 0, "p": (*int)(nil),
				"F": func() uint8 { calls = append(calls, "F"); return 7 },
				"G": func() string { calls = append(calls, "G"); return "g" }}
			want, werr := ref.EvalString(src, v.env)
			wcalls := calls
			calls = nil
			evalAgainst(c, v, src, want, werr)
			if fmt.Sprint(calls) != fmt.Sprint(wcalls) {
				c.Fail("%q calls %v, expected %v", src, calls, wcalls)
			}
			c.State(1)
			c.Step(1)
		},
	}
}

// chained is the space of expressions with two binary operators: results are
// operands.
func chained(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "(a op b) op c for all pairs of 19 operators x 15 basic types x 4 x 3 x 3 values",
		Run: func(c *mc.Ctx) {
			op := binaryTokens[c.Choose(len(binaryTokens))]
			op2 := binaryTokens[c.Choose(len(binaryTokens))]
			t := basics[c.Choose(len(basics))]
			c.Mine()
			src := "(a " + op.String() + " b) " + op2.String() + " c"
			p := parseProgram(c, src)
			vals := boundary(t, false)
			n := func(k int) []interface{} {
				if len(vals) < k {
					return vals
				}
				return vals[len(vals)-k:]
			}
			for _, x := range n(4) {
				for _, y := range n(3) {
					ab, err := ref.Binary(op, x, y)
					if err != nil && (logical(op, x) || errors.Is(err, ref.ErrUnspecified)) {
						continue
					}
					third := n(3)
					if err == nil && reflect.TypeOf(ab) != t {
						third = append([]interface{}{true, false}, third...)
					}
					for _, z := range third {
						if err == nil && logical(op2, ab) && !isTruth(z) {
							continue
						}
						v := vars{"a": x, "b": y, "c": z}
						want, werr := interface{}(nil), err
						if err == nil {
							want, werr = ref.Binary(op2, ab, z)
						}
						got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
						if d := sameResult(got, gerr, want, werr); d != nil {
							c.Fail("%q %v\nwith %s", src, d, v)
						}
						c.State(1)
						c.Step(2)
						c.Trace(1)
					}
				}
			}
		},
	}
}

// allWords is the space of operators on every 16-bit value and a literal.
func allWords(name string) mc.Space {
	ts := []reflect.Type{rt(int16(0)), rt(uint16(0))}
	forms := []string{"-a", "^a", "a + 1", "a - 1", "a * 3", "a / 7", "a % 10", "a & 0xff", "a | 0x101", "a ^ 0x5555", "a &^ 15", "a << 3", "a >> 5", "a < 1000", "a == 257", "a * a", "a / a", "a % a", "a >= a", "1000 - a", "30000 / a", "a << 15 >> 15"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions x all 65536 values of int16 and uint16", len(forms)),
		Run: func(c *mc.Ctx) {
			src := forms[c.Choose(len(forms))]
			t := ts[c.Choose(2)]
			part := c.Choose(16)
			c.Mine()
			p := parseProgram(c, src)
			for i := part << 12; i < part<<12+1<<12; i++ {
				v := vars{"a": reflect.ValueOf(uint16(i)).Convert(t).Interface()}
				want, werr := ref.EvalString(src, v.env)
				got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
				if d := sameResult(got, gerr, want, werr); d != nil {
					c.Fail("%q %v\nwith %s", src, d, v)
				}
			}
			c.State(1 << 12)
			c.Step(1 << 12)
			c.Trace(1 << 12)
		},
	}
}

// kindOf is the kind of expression type that describes a Go type.
func kindOf(t reflect.Type) expr.Kind {
	switch t.Kind() {
	case reflect.Bool:
		return expr.Bool
	case reflect.Int:
		return expr.Int
	case reflect.Int8:
		return expr.Int8
	case reflect.Int16:
		return expr.Int16
	case reflect.Int32:
		return expr.Int32
	case reflect.Int64:
		return expr.Int64
	case reflect.Uint:
		return expr.Uint
	case reflect.Uint8:
		return expr.Uint8
	case reflect.Uint16:
		return expr.Uint16
	case reflect.Uint32:
		return expr.Uint32
	case reflect.Uint64:
		return expr.Uint64
	case reflect.Uintptr:
		return expr.Uintptr
	case reflect.Float32:
		return expr.Float32
	case reflect.Float64:
		return expr.Float64
	case reflect.String:
		return expr.String
	case reflect.Array:
		return expr.Array
	case reflect.Slice:
		return expr.Slice
	case reflect.Struct:
		return expr.Struct
	case reflect.Map:
		return expr.Map
	case reflect.Ptr:
		return expr.Ptr
	case reflect.Func:
		return expr.Func
	}
	return expr.Invalid
}

func sortedNames(v map[string]interface{}) []string {
	var out []string
	for k := range v {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
