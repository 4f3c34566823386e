package suites

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
)

// C17: evaluating any text ends with a value or an error.
func propC17() *mc.Property {
	return &mc.Property{ID: "C17", Technique: tech, Level: "model_checking", LevelNote: note,
		CaseTimeout: 90 * time.Second,
		Assumptions: []string{
			"Functions and resolvers passed to the library return or panic; values passed to it do not contain themselves except through pointers.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				anyText("short texts", 4),
				anyTokens("token sequences", 4),
				edits("edits of expressions"),
				deepExprs("deep and long expressions"),
				nestedExprs("nested operations", 2),
				oddValues("odd values and resolvers"),
				tagTexts("expressions in tags"),
				tagEdits("edits of expressions in tags"),
				deepTags("deep expressions in tags"),
				deep(anyText("longer texts", 5)),
				deep(anyTokens("longer token sequences", 5)),
				deep(nestedExprs("longer nested operations", 3)),
				deep(doubleEdits("two edits of expressions")),
			}
		}}
}

var textChars = []string{"a", "f", "1", "0", "x", "e", " ", ".", "'", `"`, "$", `\`, "u", "+", "-", "*", "/", "%", "&", "|", "^", "<", "=", "!", "(", ")", "[", "]", ",", ":", "?", "é", "\x80", "\n", "\x00", "@", ">"}

type oddStruct struct {
	A int
	b int
	P *oddStruct
	N *int
	F func(int) int
	L []oddStruct
}

func oddVars() vars {
	s := &oddStruct{A: 1, b: 2}
	s.P = s
	return vars{
		"a": 3, "x": "str", "e": []int{1, 2}, "u": (*int)(nil), "f": func(i int) int { return i },
		"s": s, "t": *s, "nf": (func(int) int)(nil), "np": (*oddStruct)(nil), "m": map[string]int(nil),
		"pf": func() int { panic("boom") }, "pe": func() int { panic(fmt.Errorf("boom")) }, "pn": func() []int { return nil },
		"two": func() (int, error) { return 1, nil }, "none": func() {}, "va": func(x ...int) int { return len(x) },
		"bits": map[string]interface{}{"Len": func(i uint) int { return int(i) }}, "em": [0]int{}, "es": struct{}{},
		"fl": 1.5, "b": true, "r": 'r', "mm": map[int]map[string][]int{1: {"k": {1, 2}}},
	}
}

// total evaluates a text and only asks for an end.
func total(c *mc.Ctx, r expr.Resolver, src string) {
	x, err := safeEval(c, r, src)
	if err != nil && x != nil {
		c.Fail("%q gives the value %v along with the error %v", src, x, err)
	}
	if err != nil {
		safely(c, "Error", func() string { return src }, func() { _ = err.Error() })
	}
	c.Trace(1)
}

func anyText(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all texts of up to %d out of %d characters, invalid UTF-8, control characters and unterminated literals included", n, len(textChars)),
		Run: func(c *mc.Ctx) {
			k := c.Choose(n + 1)
			var b []string
			prefix := k - 2
			for i := 0; i < prefix; i++ {
				b = append(b, textChars[c.Choose(len(textChars))])
			}
			c.Mine()
			v := oddVars()
			var rec func()
			rec = func() {
				if len(b) == k {
					total(c, v, strings.Join(b, ""))
					c.State(1)
					c.Step(k)
					return
				}
				for _, t := range textChars {
					b = append(b, t)
					rec()
					b = b[:len(b)-1]
				}
			}
			rec()
		},
	}
}

var anyTokenList = []string{"a", "s", "np", "nf", "pf", "f", "va", "two", "m", "nil", "true", "1", "1.5", `"s"`, "'c'", "(", ")", "[", "]", ".", ",", "?", ":", "+", "-", "!", "*", "&", "^", "<<", "==", "<", "&&", "||", "&^", "%", "A", "int8", "b"}

func anyTokens(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of up to %d out of %d tokens over nil pointers, nil and panicking functions, variadic and multi-valued functions, cyclic structs", n, len(anyTokenList)),
		Run: func(c *mc.Ctx) {
			k := 1 + c.Choose(n)
			var b []string
			for i := 0; i < k-2; i++ {
				b = append(b, anyTokenList[c.Choose(len(anyTokenList))])
			}
			c.Mine()
			v := oddVars()
			var rec func()
			rec = func() {
				if len(b) == k {
					total(c, v, strings.Join(b, " "))
					c.State(1)
					c.Step(k)
					return
				}
				for _, t := range anyTokenList {
					b = append(b, t)
					rec()
					b = b[:len(b)-1]
				}
			}
			rec()
		},
	}
}

var corpus = []string{
	`a + 2 * f(3) - e[1]`, `s.P.P.A == 1 && !b`, `x[0] == 'r' ? 1 : 0`, `$'it\'s' + "\u00e9\x41\101\U0001F600"`,
	`bits.Len(7) << 3 >> 1`, `*s.N + 1`, `mm[1]["k"][0]`, `(a + (a * (a - (a / a))))`, `-1 - -1 - - 1`, `0x1F &^ 07 | 1e3`,
	`np == nil || np.A == 1`, `va(1, 2, 3)`, `f(f(f(1)))`, `1.5e-3 * fl`, `^a % 3`, `nf(1)`, `"abc" < x`, `s.F(1)`, `t.L[0].A`,
	`a >= 1 && a <= 2 || a != 3`, `true ? "a" : 'b'`, `two()`, `pf()`, `em[0]`, `'\n' + '\''`, `.5 + 5.`, `&s.A`, `18446744073709551615 + 1`,
}

var editChars = append(append([]string{}, textChars...), "s", "&&", "nil", "((", "))", "9", "_", "-1", `\x`, `\0`)

// edits is the space of single edits, cuts and middle parts of expressions.
func edits(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions: every contiguous part, every deletion, replacement, insertion out of %d and every duplicated part", len(corpus), len(editChars)),
		Run: func(c *mc.Ctx) {
			src := corpus[c.Choose(len(corpus))]
			i := c.Choose(len(src) + 1)
			c.Mine()
			v := oddVars()
			n := 0
			for _, t := range oneEdit(src, i) {
				total(c, v, t)
				n++
			}
			c.State(n)
			c.Step(n)
		},
	}
}

func oneEdit(src string, i int) (out []string) {
	for j := i; j <= len(src); j++ {
		out = append(out, src[i:j], src[:i]+src[j:], src[:j]+src[i:])
	}
	for _, ch := range editChars {
		out = append(out, src[:i]+ch+src[i:])
		if i < len(src) {
			out = append(out, src[:i]+ch+src[i+1:])
		}
	}
	return
}

func doubleEdits(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions: every pair of a replacement or insertion out of %d with another single edit", len(corpus), len(editChars)),
		Run: func(c *mc.Ctx) {
			src := corpus[c.Choose(len(corpus))]
			i := c.Choose(len(src))
			ch := editChars[c.Choose(len(editChars))]
			c.Mine()
			v := oddVars()
			src = src[:i] + ch + src[i+1:]
			n := 0
			for j := i; j <= len(src); j++ {
				for _, t := range oneEdit(src, j) {
					total(c, v, t)
					n++
				}
			}
			c.State(n)
			c.Step(n)
		},
	}
}

// deepParts are repeated before and after a core.
var deepParts = [][3]string{
	{"(", "1", ")"}, {"-", "a", ""}, {"- ", "1", ""}, {"!", "b", ""}, {"^", "a", ""}, {"+", "a", ""}, {"*", "s", ""}, {"&", "a", ""},
	{"f(", "1", ")"}, {"e[", "0", "]"}, {"s.P.", "A", ""}, {"", "s", ".P"}, {"", "a", "+1"}, {"", "a", "-1"}, {"", "e", "[0]"}, {"", "f", "(1)"}, {"", "pn", "()"},
	{"1+(", "1", ")"}, {"b?1:", "2", ""}, {"b?", "1", ":2"}, {"b&&", "b", ""}, {"b||", "b", ""}, {"(", "", ""}, {"[", "", ""}, {"", "", ")"}, {"f(", "", ""},
	{"", "1", ",1"}, {"", "va(1", ",1"}, {"a ", "", ""}, {" ", "a", " "}, {`"`, "", ""}, {"'", "", ""}, {`\`, "", ""}, {"1", "", ""}, {"1.", "", ""}, {"a", "", ""},
	{"$'", "", ""}, {"e", "", ""}, {"!!", "b", ""}, {"1<<", "1", ""}, {"1*", "1", ""}, {"1==", "1", ""}, {"&^", "1", ""}, {".", "", ""}, {"?", "", ":"}, {"1 ", "", ""},
	{"0x", "", ""}, {"s.", "A", ""}, {`"\x41`, "", ""}, {"(-", "1", ")"}, {"f(f(", "1", "))"}, {"x[", "0", "]"}, {"\x80", "", ""}, {"é", "", ""},
}

func deepExprs(name string) mc.Space {
	depths := []int{10, 1000, 20000, 49999, 50001, 99999, 100001, 200000, 1000000}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d forms of nesting and repetition x depths %v (the last one in the thorough tier)", len(deepParts), depths),
		Run: func(c *mc.Ctx) {
			p := deepParts[c.Choose(len(deepParts))]
			d := depths[c.Choose(len(depths))]
			c.Mine()
			if oneToken(p) && d > 50001 || d > 200000 && !c.Thorough() {
				c.Prune() // the time is quadratic in the length of single tokens
			}
			src := strings.Repeat(p[0], d) + p[1] + strings.Repeat(p[2], d)
			start := time.Now()
			x, err := safeEvalShort(c, oddVars(), src, fmt.Sprintf("%q %d times around %q", p[0]+"..."+p[2], d, p[1]))
			if err != nil && x != nil {
				c.Fail("value along with error %v", err)
			}
			if t := time.Since(start); t > 40*time.Second {
				c.Fail("evaluating %d times %q...%q took %v", d, p[0], p[2], t)
			}
			c.State(1)
			c.Step(d)
			c.Trace(1)
		},
	}
}

// oneToken tells whether repeating a part makes one long token.
func oneToken(p [3]string) bool {
	switch p[0] {
	case `"`, "'", `\`, "1", "1.", "a", "$'", "e", "0x", `"\x41`, "é":
		return true
	}
	return false
}

// nestCores are operands of all kinds.
var nestCores = []string{"a", "b", "fl", "r", "x", "e", "s", "em", "1", "1.5", "'c'", `"t"`, "true", "false", "nil", "(1 == 1)", "(a == 3)", "(b ? 1 : 2)", "f(1)", "e[0]", "s.P", "u", "pf()"}

// nestParts put something around an operand, more than once.
var nestParts = [][2]string{
	{"(", ")"}, {"-", ""}, {"- ", ""}, {"!", ""}, {"^", ""}, {"+", ""}, {"*", ""}, {"&", ""}, {"f(", ")"}, {"va(1, ", ", 2)"}, {"e[", "]"}, {"x[", "]"}, {"", ".P"}, {"(", ").A"}, {"", "[0]"}, {"", "(1)"}, {"", "()"},
	{"", " + 1"}, {"1 + ", ""}, {"(", " + a)"}, {"a + (", ")"}, {"1 - (", ")"}, {"(", " - a)"}, {"2 * ", ""}, {"(", " * a)"}, {"(", " / 2)"}, {"(", " % 3)"}, {"1 << (", ")"}, {"(", " >> 1)"}, {"(", " & 7)"}, {"(", " | a)"}, {"(", " ^ 1)"}, {"(", " &^ a)"},
	{"(1 < ", ")"}, {"(", " >= a)"}, {"(", " == 1)"}, {"(true == ", ")"}, {"(", " != b)"}, {"b && (", ")"}, {"(", " && b)"}, {"true && ", ""}, {"b || (", ")"}, {"(", " || (1 == 2))"}, {"false || ", ""},
	{"(", " ? 1 : 2)"}, {"(", " ? a : 2)"}, {"b ? (", ") : 1"}, {"(b ? 1 : ", ")"}, {"(true ? ", " : a)"}, {"(", " == nil)"}, {"x + (", ")"}, {`(`, ` + "z")`},
}

// nestedExprs are expressions whose evaluation takes long if any part of them
// is evaluated more than once.
func nestedExprs(name string, most int) mc.Space {
	const depth = 26
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d forms of nesting, repeated up to depth %d around %d operands: none takes more than 3 s", most, len(nestParts), depth, len(nestCores)),
		Run: func(c *mc.Ctx) {
			core := nestCores[c.Choose(len(nestCores))]
			parts := make([][2]string, most)
			for i := range parts {
				parts[i] = nestParts[c.Choose(len(nestParts))]
				if i == 1 {
					c.Mine()
				}
			}
			src := core
			for d := 0; d < depth; d++ {
				p := parts[d%most]
				src = p[0] + src + p[1]
			}
			took := time.Hour
			for i := 0; i < 3 && took > 3*time.Second; i++ {
				start := time.Now()
				total(c, oddVars(), src)
				if t := time.Since(start); t < took {
					took = t
				}
			}
			if took > 3*time.Second {
				c.Fail("evaluating %q takes %v, three times in a row", src, took)
			}
			c.State(1)
			c.Step(depth)
		},
	}
}

func safeEvalShort(c *mc.Ctx, r expr.Resolver, src, desc string) (x interface{}, err error) {
	safely(c, "Eval", func() string { return desc }, func() { x, err = expr.Eval(r, src) })
	return
}

type oddResolver struct{ f func(string) expr.Value }

func (o oddResolver) Resolve(name string) expr.Value { return o.f(name) }

// oddValues is the space of expressions over values and resolvers that are
// unusual.
func oddValues(name string) mc.Space {
	var nilIface interface{}
	ch := make(chan int)
	values := []interface{}{
		nilIface, ch, 1i, complex64(1), struct{ X interface{} }{1}, struct{ x int }{1}, []interface{}{1}, map[interface{}]int{1: 1}, &nilIface,
		func(interface{}) int { return 1 }, func() interface{} { return nil }, func(...string) int { return 1 }, errorsValue, &ch, [2]chan int{}, map[string]chan int{},
		reflect.ValueOf(1), (*[]int)(nil), &[]int{1}, &[2]int{1, 2}, &map[string]int{}, new(func()), func() func() { return nil },
		map[[2]int]int{{1, 2}: 3}, map[cmpStruct]int{{1, "x"}: 4}, map[float64]int{0.5: 5}, map[bool]int{true: 6}, map[*int]int{nil: 7},
		[]func() int{nil, func() int { return 9 }}, struct{ F func() }{}, (*struct{ X *int })(nil), &struct{ X *int }{}, []string(nil), "", [0]string{},
		nBool(true), nString("n"), []nInt8{1}, map[nString]nBool{"k": true}, uintptr(1), int8(-128), uint64(1 << 63), float32(1.5),
	}
	forms := []string{
		"v", "-v", "!v", "^v", "*v", "**v", "&v", "+v", "v.X", "v.x", "v.F", "v.F()", "v()", "v(1)", "v(nil)", "v(v)", `v("s")`, "v(1, 2)", "v()()", "v[0]", "v[-1]", "v[1]", `v["k"]`, `v["z"]`, "v[nil]", "v[v]", "v[true]", "v[1.5]",
		"v[99999999999]", "v[0][0]", "v[0]()", "*v.X", "(*v)[0]", "v + v", "v == v", "v != v", "v < v", "v == nil", "nil == v", "v && v", "v || v", "v && true", "v ? 1 : 2", "true ? v : 1", "v << v", "1 << v", "v << 1", "v / v", "v % v", "v / 0", "v % 0", "v + 1", "1 + v", `v + "s"`, "v == 1", "v &^ v", "v.X.X", "f(v)", "v - -1", "v == true",
	}
	resolvers := 5
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d values of unusual types x %d expressions x %d ways to pass them", len(values), len(forms), resolvers),
		Run: func(c *mc.Ctx) {
			x := values[c.Choose(len(values))]
			k := c.Choose(resolvers)
			c.Mine()
			for _, src := range forms {
				var r expr.Resolver
				switch k {
				case 0:
					r = oddResolver{func(name string) expr.Value { return expr.ValueOf(x) }}
				case 1:
					r = oddResolver{func(name string) expr.Value {
						if name == "v" {
							return expr.ValueOf(x)
						}
						return nil
					}}
				case 2:
					m := expr.NewMetaResolver()
					m.AddResolver(oddResolver{func(name string) expr.Value { return nil }})
					m.AddResolver(oddResolver{func(name string) expr.Value { return expr.ValueOf(x) }})
					r = m
				case 3:
					s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: reflect.TypeOf(&x).Elem()}})).Elem()
					if x != nil {
						s.Field(0).Set(reflect.ValueOf(x))
					}
					src = strings.ReplaceAll(src, "v", "V")
					r = expr.NewStructResolver(s)
				case 4:
					r = nil
					if x == nil {
						r = expr.NewMetaResolver()
					}
				}
				total(c, r, src)
				c.State(1)
				c.Step(1)
			}
		},
	}
}

var errorsValue = fmt.Errorf("error")

// tagForms are structs with an expression in a tag.
var tagForms = []func(e string) []reflect.StructField{
	func(e string) []reflect.StructField { return tagField(uint8(0), "if="+e) },
	func(e string) []reflect.StructField { return tagField([]uint8{}, "size="+e) },
	func(e string) []reflect.StructField { return tagField("", "size="+e) },
	func(e string) []reflect.StructField { return tagField(uint8(0), "bits="+e) },
	func(e string) []reflect.StructField { return tagField(uint8(0), "in="+e) },
	func(e string) []reflect.StructField { return tagField(uint8(0), "out="+e) },
	func(e string) []reflect.StructField { return tagField([]uint8{}, "while="+e) },
	func(e string) []reflect.StructField {
		return tagField(struct {
			C uint8 `struct:"case=1"`
			D uint8 `struct:"default"`
		}{}, "switch="+e)
	},
	func(e string) []reflect.StructField {
		in := reflect.StructOf([]reflect.StructField{
			{Name: "C", Type: rt(uint8(0)), Tag: reflect.StructTag("struct:" + strconv.Quote("case="+e))},
			{Name: "D", Type: rt(uint8(0)), Tag: `struct:"default"`},
		})
		return []reflect.StructField{{Name: "F", Type: in, Tag: `struct:"switch=A"`}}
	},
	func(e string) []reflect.StructField {
		return []reflect.StructField{{Name: "F", Type: rt(uint8(0)), Tag: reflect.StructTag("struct-if:" + strconv.Quote(e))}}
	},
	func(e string) []reflect.StructField { return tagField(&struct{ X uint8 }{}, "big,if="+e+",skip=1") },
}

func tagField(x interface{}, tag string) []reflect.StructField {
	return []reflect.StructField{{Name: "F", Type: rt(x), Tag: reflect.StructTag("struct:" + strconv.Quote(tag))}}
}

// totalTag calls all functions with a struct whose tag holds a text.
func totalTag(c *mc.Ctx, form int, e string) {
	fields := append([]reflect.StructField{
		{Name: "A", Type: rt(uint8(0))},
		{Name: "N", Type: rt(uint8(0)), Tag: `struct:"sizeof=L"`},
		{Name: "L", Type: rt([]uint8{})},
		{Name: "P", Type: rt(&someInt), Tag: `struct:"-"`},
	}, tagForms[form](e)...)
	t := reflect.StructOf(fields)
	desc := func() string { return fmt.Sprintf("form %d with %q", form, e) }
	v := reflect.New(t)
	v.Elem().Field(0).SetUint(1)
	v.Elem().Field(2).SetBytes([]byte{5, 6})
	o := orders[0].O
	safely(c, "Pack", desc, func() {
		data, err := restruct.Pack(o, v.Interface())
		if err != nil && data != nil {
			c.Fail("Pack returns data along with the error %v: %s", err, desc())
		}
	})
	safely(c, "SizeOf", desc, func() { restruct.SizeOf(v.Interface()) })
	safely(c, "BitSize", desc, func() { restruct.BitSize(v.Interface()) })
	for _, data := range [][]byte{nil, {1, 2, 5, 6, 1, 0, 7}, {0, 0}} {
		safely(c, "Unpack", desc, func() { restruct.Unpack(data, o, reflect.New(t).Interface()) })
	}
	c.State(1)
	c.Step(6)
	c.Trace(6)
}

var tagTokenList = []string{"A", "L", "P", "N", "F", "nil", "1", `"s"`, "(", ")", "[", "]", ".", ",", "?", ":", "-", "!", "*", "/", "==", "&&", "_eof", "bits", "'", "=", " ", "Len8", "0", "$'"}

// tagTexts is the space of short texts as expressions in tags.
func tagTexts(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d places of expressions x all sequences of up to 2 (thorough: 3) out of %d tokens, glued together: Pack, SizeOf, BitSize, Unpack", len(tagForms), len(tagTokenList)),
		Run: func(c *mc.Ctx) {
			form := c.Choose(len(tagForms))
			x := tagTokenList[c.Choose(len(tagTokenList))]
			c.Mine()
			totalTag(c, form, x)
			for _, y := range tagTokenList {
				totalTag(c, form, x+y)
				if c.Thorough() {
					for _, z := range tagTokenList {
						totalTag(c, form, x+y+z)
					}
				}
			}
		},
	}
}

// tagEdits is the space of edits of expressions in tags.
func tagEdits(name string) mc.Space {
	list := []string{"A == 1 && L[0] == 5", "bits.Len8(A) + 1", `P != nil ? 1 : 2`, "A<<1-N*(2)", `"x'y" == $'\''`}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions x every single edit x a place (thorough: all %d places)", len(list), len(tagForms)),
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(list))
			src := list[k]
			i := c.Choose(len(src) + 1)
			c.Mine()
			for j, t := range oneEdit(src, i) {
				if c.Thorough() {
					for form := range tagForms {
						totalTag(c, form, t)
					}
				} else {
					totalTag(c, (i+j+k)%len(tagForms), t)
				}
			}
		},
	}
}

func deepTags(name string) mc.Space {
	depths := []int{100, 50001, 100001}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d forms of nesting and repetition x depths %v x %d places in tags", len(deepParts), depths, len(tagForms)),
		Run: func(c *mc.Ctx) {
			p := deepParts[c.Choose(len(deepParts))]
			d := depths[c.Choose(len(depths))]
			form := c.Choose(len(tagForms))
			c.Mine()
			if d > 100 && (oneToken(p) || form%4 != 0 && !c.Thorough()) {
				c.Prune()
			}
			totalTag(c, form, strings.Repeat(p[0], d)+p[1]+strings.Repeat(p[2], d))
		},
	}
}
