package suites

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

func propC16() *mc.Property {
	return &mc.Property{ID: "C16", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Not covered, because the language leaves it open: nested conditional operators without parentheses, || in their branches, commas outside of argument lists, trailing commas, digit separators, binary, 0o and hexadecimal float literals, literals that do not fit 64 bits, comments, and adjacent signs that Go reads as ++, -- or <-.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				operatorRows("four operands", 4, rowParens4, tier == "thorough"),
				prefixRows("three operands with prefix operators"),
				postfixRows("three operands with postfix operators"),
				conditionalRows("conditional operators among others"),
				spacings("spacing"),
				integers("integer literals"),
				floats("float literals"),
				escapes("characters and escapes"),
				tokenRows("token sequences", 5),
				charRows("character sequences", 4),
				readers("readers"),
				deep(tokenRows("longer token sequences", 6)),
				deep(charRows("longer character sequences", 5)),
			}
		}}
}

// rowParens4 are the ways to put parentheses around parts of four operands.
var rowParens4 = [][][2]int{
	nil,
	{{0, 1}}, {{1, 2}}, {{2, 3}}, {{0, 2}}, {{1, 3}},
	{{0, 1}, {2, 3}}, {{0, 2}, {0, 1}}, {{0, 2}, {1, 2}}, {{1, 3}, {1, 2}}, {{1, 3}, {2, 3}},
}

// grouping values: chosen so that different groupings show.
var groupInts = [][]int{{7, 2, 3, 5}, {100, 9, 4, 3}, {-6, 5, 1, 2}, {1, 1, 0, 1}}

func rowVars(types, n, set int) vars {
	v := vars{}
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		if types>>uint(i)&1 == 1 {
			v[name] = (set>>uint(i)&1 == 1) != (i&1 == 1)
		} else {
			v[name] = uint(groupInts[set%len(groupInts)][i]) & 0xffff
			if groupInts[set%len(groupInts)][i] < 0 {
				v[name] = ^uint(5)
			}
		}
	}
	return v
}

// operatorRows is the space of operands joined by binary operators, with
// parentheses in all places.
func operatorRows(name string, n int, parens [][][2]int, more bool) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all rows of %d operands joined by 19 binary operators x %d placements of parentheses x all assignments of bool and uint operands x 4 sets of values (16 for bools)", n, len(parens)),
		Run: func(c *mc.Ctx) {
			var ops []string
			for i := 0; i < n-1; i++ {
				ops = append(ops, binaryTokens[c.Choose(len(binaryTokens))].String())
				if i == n-3 {
					c.Mine()
				}
			}
			for _, pp := range parens {
				open, closing := make([]int, n), make([]int, n)
				for _, p := range pp {
					open[p[0]]++
					closing[p[1]]++
				}
				var b strings.Builder
				for i := 0; i < n; i++ {
					if i > 0 {
						b.WriteString(" " + ops[i-1] + " ")
					}
					b.WriteString(strings.Repeat("(", open[i]) + string(rune('a'+i)) + strings.Repeat(")", closing[i]))
				}
				src := b.String()
				p := parseProgram(c, src)
				node, err := ref.Parse(src)
				if err != nil {
					panic(err)
				}
				for types := 0; types < 1<<uint(n); types++ {
					sets := 4
					if types == 1<<uint(n)-1 {
						sets = 16
					}
					for set := 0; set < sets; set++ {
						v := rowVars(types, n, set)
						want, werr := ref.Eval(node, v.env)
						got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
						if d := sameResult(got, gerr, want, werr); d != nil {
							c.Fail("%q %v\nwith %s", src, d, v)
						}
						c.Trace(1)
						c.Step(n - 1)
						if werr != nil && set == 0 && types != 0 {
							break // a type error: other values give the same
						}
					}
					c.State(1)
				}
			}
			c.Sample(func() string { return fmt.Sprint(ops) })
		},
	}
}

// prefixRows is the space of operands with prefix operators.
func prefixRows(name string) mc.Space {
	prefixes := []string{"", "-", "!", "^", "+", "- -", "!!", "-^"}
	return mc.Space{
		Name:   name,
		Bounds: "three operands, each with one of 8 sequences of prefix operators, joined by all pairs of 19 operators, with and without parentheses around the first or last two",
		Run: func(c *mc.Ctx) {
			op1 := binaryTokens[c.Choose(len(binaryTokens))].String()
			op2 := binaryTokens[c.Choose(len(binaryTokens))].String()
			par := c.Choose(4)
			c.Mine()
			for i := 0; i < 8*8*8; i++ {
				x := prefixes[i%8] + "a"
				y := prefixes[i/8%8] + "b"
				z := prefixes[i/64] + "c"
				src := x + " " + op1 + " " + y + " " + op2 + " " + z
				switch par {
				case 1:
					src = "(" + x + " " + op1 + " " + y + ") " + op2 + " " + z
				case 2:
					src = x + " " + op1 + " (" + y + " " + op2 + " " + z + ")"
				case 3:
					src = "-(" + x + " " + op1 + " " + y + ") " + op2 + " " + z
				}
				p := parseProgram(c, src)
				node, err := ref.Parse(src)
				if err != nil {
					panic(err)
				}
				for types := 0; types < 8; types++ {
					for set := 0; set < 4; set++ {
						v := rowVars(types, 3, set)
						want, werr := ref.Eval(node, v.env)
						got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
						if d := sameResult(got, gerr, want, werr); d != nil {
							c.Fail("%q %v\nwith %s", src, d, v)
						}
						c.Trace(1)
						if werr != nil {
							break
						}
					}
				}
				c.State(1)
				c.Step(2)
			}
		},
	}
}

type gramS struct {
	A int
	B bool
	P *gramS
	L []int
	F func(int) int
}

func gramVars() vars {
	s := &gramS{A: 6, B: true, L: []int{9, 4, 2}, F: func(i int) int { return 3*i + 1 }}
	s.P = &gramS{A: 11, L: []int{1, 0, 5}, F: func(i int) int { return -i }}
	n := 4
	return vars{
		"s": s, "t": *s, "l": [][]int{{3, 1}, {0, 2, 8}}, "p": &n, "a": 5, "b": true, "i": 1,
		"f": func(i int) int { return i * i }, "g": func(i, j int) int { return 10*i - j }, "h": func() int { return 12 },
		"k": func(i int) func(int) int { return func(j int) int { return 100*i + j } },
		"m": map[string]int{"x": 20, "y": -3}, "w": "qz",
	}
}

// postfixRows is the space of operands with postfix operators.
func postfixRows(name string) mc.Space {
	operands := []string{
		"a", "b", "3", "s.A", "s.P.A", "t.B", "s.L[0]", "s.L[a - 4]", "l[1][2]", "s.P.L[s.P.L[0]]",
		"f(2)", "g(a, 2 + i)", "g(f(1), -1)", "h()", "k(1)(2)", "s.F(a)", "s.P.F(s.L[i])", `m["x"]`, "w[1]",
		"*p", "*&*p", "-*p", "-s.A", "!t.B", "^s.L[1]", "-f(2)", "(s).A", "(*s).A", "(a)", "(a + 1)", "(f)(2)", "(l[0])[1]",
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("three operands out of %d with member access, indices, calls, dereferences and prefix operators, joined by all pairs of 19 operators", len(operands)),
		Run: func(c *mc.Ctx) {
			x := operands[c.Choose(len(operands))]
			y := operands[c.Choose(len(operands))]
			c.Mine()
			v := gramVars()
			for _, op1 := range binaryTokens {
				for _, op2 := range binaryTokens {
					for k, z := range operands {
						if k%7 != 0 && !c.Thorough() {
							continue
						}
						src := x + " " + op1.String() + " " + y + " " + op2.String() + " " + z
						evalCheck(c, v, src, src)
						c.State(1)
						c.Step(2)
					}
				}
			}
			clearExprCache()
		},
	}
}

func clearExprCache() { ref.ClearCache() }

// conditionalRows is the space of conditional operators with operators in the
// condition and the branches.
func conditionalRows(name string) mc.Space {
	forms := []string{
		"a %s b ? c %s d : e %s f", "a %s (b ? c : d)", "(a ? b : c) %s d", "a %s b ? (c %s d) : (e %s f)",
		"h(a %s b ? c : d)", "l[a %s b ? c : d]", "g(a ? b : c %s d, a %s b ? c : d)", "!a ? -b : ^c %s d", "(a %s b) ? c %s d : e",
		"a %s b %s c ? d : e", "(a ? b : c) ? d : (e %s f ? b : c)",
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d forms of expressions with conditional operators x all operators in up to 3 places x all values of bool operands and 4 sets of uint operands", len(forms)),
		Run: func(c *mc.Ctx) {
			form := forms[c.Choose(len(forms))]
			n := strings.Count(form, "%s")
			var args []interface{}
			args = append(args, binaryTokens[c.Choose(len(binaryTokens))].String())
			c.Mine()
			for len(args) < n {
				args = append(args, binaryTokens[c.Choose(len(binaryTokens))].String())
			}
			src := fmt.Sprintf(form, args...)
			node, err := ref.Parse(src)
			if errors.Is(err, ref.ErrUnspecified) {
				c.Prune()
			}
			if err != nil {
				panic(err)
			}
			p := parseProgram(c, src)
			for types := 0; types < 64; types++ {
				for set := 0; set < 2; set++ {
					v := vars{}
					for i := 0; i < 6; i++ {
						if types>>uint(i)&1 == 1 {
							v[string(rune('a'+i))] = (set+i)%2 == 0
						} else {
							v[string(rune('a'+i))] = []int{7, 2, 3, 5, 1, 4}[(i+3*set)%6]
						}
					}
					v["h"] = func(i int) int { return 2*i + 1 }
					v["g"] = func(i, j int) int { return 100*i + j }
					v["l"] = []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
					want, werr := ref.Eval(node, v.env)
					got, gerr := runProgram(c, v, p, func() string { return src + " with " + v.String() })
					if d := sameResult(got, gerr, want, werr); d != nil {
						c.Fail("%q %v\nwith %s", src, d, v)
					}
					c.Trace(1)
					c.Step(1)
				}
			}
			c.State(1)
		},
	}
}

// spacings is the space of expressions with all ways to put spaces between
// their tokens.
func spacings(name string) mc.Space {
	operands := []string{"a", "2", "- 3", "0.5", "- 1.5", "! b", "^ a", "- a", "f ( 1 )", "l [ 1 ]", "s . A", "( a - 1 )", "* p", "& x", `"q"`, "'c'", "f ( - 1 )", "l [ - 1 + 1 ]", "0x1f", "- 0x1f"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("three operands out of %d joined by all pairs of 20 operators (conditional included); no, one or other white space in every gap", len(operands)),
		Run: func(c *mc.Ctx) {
			k1 := c.Choose(len(binaryTokens) + 1)
			x, y := operands[c.Choose(len(operands))], operands[c.Choose(len(operands))]
			c.Mine()
			n := 4.25
			v := vars{"a": 5, "b": true, "f": func(i int) int { return 7 - i }, "l": []int{4, 6}, "s": gramS{A: 3}, "p": &n}
			for k2 := range binaryTokens {
				for _, z := range operands[:4] {
					var src string
					if k1 == len(binaryTokens) {
						src = "b ? " + x + " : " + y + " " + binaryTokens[k2].String() + " " + z
						if binaryTokens[k2].String() == "||" {
							continue
						}
					} else {
						src = x + " " + binaryTokens[k1].String() + " " + y + " " + binaryTokens[k2].String() + " " + z
					}
					want, werr := ref.EvalString(src, v.env)
					toks := strings.Split(src, " ")
					evalAgainst(c, v, strings.Join(toks, "  "), want, werr)
					evalAgainst(c, v, "\t"+strings.Join(toks, " \t")+" \t", want, werr)
					evalAgainst(c, v, glue(toks, -1, -1), want, werr)
					for i := 0; i < len(toks)-1; i++ {
						evalAgainst(c, v, glue(toks, i, i), want, werr)
						if c.Thorough() {
							for j := i + 1; j < len(toks)-1; j++ {
								evalAgainst(c, v, glue(toks, i, j), want, werr)
							}
						}
					}
					c.State(len(toks) + 3)
					c.Step(2)
				}
			}
			ref.ClearCache()
		},
	}
}

// glue joins tokens without spaces, except where tokens would run together,
// and in the gaps i and j. With i = j >= 0 it leaves out only gap i instead
// when that is possible.
func glue(toks []string, i, j int) string {
	var b strings.Builder
	for k, t := range toks {
		if k > 0 {
			space := k-1 == i || k-1 == j
			if i >= 0 && i == j {
				space = k-1 != i
			}
			if space || runTogether(toks[k-1], t) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

// runTogether tells whether two tokens would be read as others.
func runTogether(a, b string) bool {
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	x, y := a[len(a)-1], b[0]
	switch {
	case word(x) && word(y):
		return true
	case x == '.' && y >= '0' && y <= '9', x >= '0' && x <= '9' && y == '.':
		return true
	case x == '.' || y == '.':
		return a != "s" && b != "A" && a != "." && b != "."
	}
	for _, op := range []string{"&&", "||", "&^", "<<", ">>", "<=", ">=", "==", "!="} {
		if x == op[0] && y == op[1] {
			return true
		}
	}
	return false
}

// integers is the space of integer literals.
func integers(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "2^k-1, 2^k, 2^k+1 for k up to 63, 10^k, all numbers below 4096 and 2^64-1; decimal, hexadecimal in both cases and octal; negative ones with and without space; alone and next to operators",
		Run: func(c *mc.Ctx) {
			k := c.Choose(64 + 20 + 64)
			c.Mine()
			var nums []uint64
			switch {
			case k < 64:
				nums = []uint64{1<<uint(k) - 1, 1 << uint(k), 1<<uint(k) + 1}
				if k == 63 {
					nums = append(nums, 1<<64-1)
				}
			case k < 84:
				n := uint64(1)
				for i := 64; i < k; i++ {
					n *= 10
				}
				nums = []uint64{n - 1, n, n + 1}
			default:
				for i := 0; i < 64; i++ {
					nums = append(nums, uint64(k-84)*64+uint64(i))
				}
			}
			for _, n := range nums {
				for _, f := range []string{"%d", "0x%x", "0X%X", "0x%X", "0X%x", "0%o", "0x0%x", "00%o"} {
					lit := fmt.Sprintf(f, n)
					v := vars{"a": uint64(1)}
					evalCheck(c, v, lit, lit)
					evalCheck(c, v, "("+lit+")", lit)
					evalCheck(c, v, lit+"+a", lit+" + a")
					evalCheck(c, v, "a-"+lit, "a - "+lit)
					if n <= 1<<63-1 {
						v["a"] = int64(1)
						evalCheck(c, v, "-"+lit, "-"+lit)
						evalCheck(c, v, "- "+lit, "-"+lit)
						evalCheck(c, v, "a*-"+lit, "a * -"+lit)
						evalCheck(c, v, "a-"+lit+"*2", "a - "+lit+" * 2")
						evalCheck(c, v, "a-"+lit+"-"+lit, "a - "+lit+" - "+lit)
						evalCheck(c, v, "-"+lit+"-"+lit, "-"+lit+" - "+lit)
					}
					c.State(1)
				}
			}
			ref.ClearCache()
		},
	}
}

// floats is the space of float literals.
func floats(name string) mc.Space {
	ints := []string{"", "0", "1", "12", "007", "9007199254740993", "123456789012345678901234567890"}
	fracs := []string{"", ".", ".0", ".5", ".25", ".000", ".1234567890123456789", ".1"}
	exps := []string{"", "e0", "e5", "E3", "e+3", "E+3", "e-3", "E-12", "e00", "e+00", "e-300", "e300", "e-330"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d x %d x %d integer, fraction and exponent parts; with signs and next to operators; malformed ones", len(ints), len(fracs), len(exps)),
		Run: func(c *mc.Ctx) {
			i := ints[c.Choose(len(ints))]
			f := fracs[c.Choose(len(fracs))]
			e := exps[c.Choose(len(exps))]
			c.Mine()
			lit := i + f + e
			if i == "" && (f == "" || f == ".") || f == "" && e == "" {
				c.Prune()
			}
			if strings.HasPrefix(lit, "00") && f == "" && e == "" {
				c.Prune()
			}
			x, err := strconv.ParseFloat(lit, 64)
			if err != nil {
				c.Prune() // literal overflow
			}
			v := vars{"a": float64(2)}
			for _, s := range []struct {
				src  string
				want float64
			}{
				{lit, x}, {"-" + lit, -x}, {"- " + lit, -x}, {"(" + lit + ")", x}, {lit + "+a", x + 2}, {"a-" + lit, 2 - x},
				{"a*-" + lit, 2 * -x}, {"a-" + lit + "*a", 2 - x*2}, {lit + "-" + lit, x - x}, {"-" + lit + "-a", -x - 2}, {"a<" + lit + "?1.0:2.0", map[bool]float64{true: 1, false: 2}[2 < x]},
			} {
				got, err := safeEval(c, v, s.src)
				if g, ok := got.(float64); !ok || err != nil || g != s.want {
					c.Fail("%q gives %s, %v, expected %v", s.src, showResult(got), err, s.want)
				}
				c.Trace(1)
			}
			for _, s := range []string{lit + "e", lit + "x", lit + ".1", lit + "e+", lit + "-", lit + "f"} {
				if _, err := strconv.ParseFloat(s, 64); err == nil {
					continue
				}
				if got, err := safeEval(c, v, s); err == nil {
					c.Fail("%q gives %s, expected an error", s, showResult(got))
				}
				c.Trace(1)
			}
			c.State(1)
		},
	}
}

// quoted is a part of a character or string literal and what it stands for.
type quoted struct {
	src  string
	val  string
	rune bool // denotes a code point, not a byte
	bad  bool
}

// escapesFor lists escapes. The quote that needs escaping differs.
func escapesFor(part int, quote byte) (out []quoted) {
	add := func(src, val string, r bool) { out = append(out, quoted{src: src, val: val, rune: r}) }
	bad := func(src string) { out = append(out, quoted{src: src, bad: true}) }
	switch {
	case part == 0:
		for e, v := range map[string]string{"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", `\`: `\`, string(quote): string(quote)} {
			add(`\`+e, v, false)
		}
		for ch := 0x20; ch < 0x7f; ch++ {
			s := string(rune(ch))
			if !strings.Contains(`abfnrtv\xuU01234567`, s) && byte(ch) != quote {
				bad(`\` + s)
			}
		}
	case part == 1:
		for i := 0; i < 256; i++ {
			add(fmt.Sprintf(`\%03o`, i), string([]byte{byte(i)}), false)
			add(fmt.Sprintf(`\x%02x`, i), string([]byte{byte(i)}), false)
			add(fmt.Sprintf(`\x%02X`, i), string([]byte{byte(i)}), false)
		}
		for i := 256; i < 512; i++ {
			bad(fmt.Sprintf(`\%03o`, i))
		}
		for _, s := range []string{`\0`, `\00`, `\08`, `\080`, `\8`, `\x`, `\x0`, `\x0g`, `\xg0`, `\u`, `\u0`, `\u00`, `\u000`, `\u000g`, `\U0000000`, `\U0000000g`, `\u{12}`, `\X00`, `\18`, `\x-1`, `\x+1`, `\u+123`, `\U-0000001`, `\0_0`, `\x_1`} {
			bad(s)
		}
	case part == 2:
		for _, ch := range []rune{0xffff, 0x10000, 0x10ffff, 0x1f600, 0x41, 0, 0x7f, 0x80, 0xfffd, 0xd7ff, 0xe000} {
			add(fmt.Sprintf(`\U%08x`, ch), string(ch), true)
			add(fmt.Sprintf(`\U%08X`, ch), string(ch), true)
			if ch >= 0x80 {
				add(string(ch), string(ch), true)
			}
		}
		for _, u := range []uint32{0xd800, 0xdfff, 0x110000, 0xffffffff, 0x80000000, 0x80000041} {
			bad(fmt.Sprintf(`\U%08x`, u))
		}
		for i := 0xd800; i < 0xe000; i++ {
			bad(fmt.Sprintf(`\u%04x`, i))
		}
		for ch := 0x20; ch < 0x7f; ch++ {
			if ch != '\\' && byte(ch) != quote {
				add(string(rune(ch)), string(rune(ch)), true)
			}
		}
	default: // code points of the basic plane
		for i := (part - 3) << 12; i < (part-2)<<12; i++ {
			if i >= 0xd800 && i < 0xe000 {
				continue
			}
			add(fmt.Sprintf(`\u%04x`, i), string(rune(i)), true)
			if i >= 0x80 {
				add(string(rune(i)), string(rune(i)), true)
			}
		}
	}
	return
}

// escapes is the space of characters and escapes in literals.
func escapes(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "character, double-quoted and $'...' literals with every escape, every code point of the basic plane and some above, every byte as octal and hex, malformed escapes, also between other characters; every unterminated prefix",
		Run: func(c *mc.Ctx) {
			kind := c.Choose(3)
			part := c.Choose(3 + 16)
			c.Mine()
			quote := byte('\'')
			open := []string{"'", `"`, "$'"}[kind]
			if kind == 1 {
				quote = '"'
			}
			q := string(quote)
			none := vars{}
			expect := func(src string, want interface{}) {
				got, err := safeEval(c, none, src)
				ok := err == nil
				switch w := want.(type) {
				case nil:
					if ok {
						c.Fail("%q gives %s, expected an error", src, showResult(got))
					}
				case string:
					if s, is := got.(string); !ok || !is || s != w {
						c.Fail("%q gives %s, %v, expected %q", src, showResult(got), err, w)
					}
				case int64:
					g := reflect.ValueOf(got)
					if !ok || !g.CanInt() || g.Int() != w {
						c.Fail("%q gives %s, %v, expected %d", src, showResult(got), err, w)
					}
				}
				c.Trace(1)
			}
			for _, e := range escapesFor(part, quote) {
				c.State(1)
				if kind == 0 {
					if e.bad {
						expect(open+e.src+q, nil)
						continue
					}
					var n int64
					if e.rune {
						r, _ := utf8.DecodeRuneInString(e.val)
						n = int64(r)
					} else {
						n = int64(e.val[0])
					}
					expect(open+e.src+q, n)
					expect(open+e.src+q+"+1", n+1)
					expect(open+e.src, nil)
					expect(open+e.src+"a"+q, nil)
					expect(open+e.src+e.src+q, nil)
					continue
				}
				if e.bad {
					expect(open+e.src+q, nil)
					expect(open+"ab"+e.src+"yz"+q, nil)
					continue
				}
				expect(open+e.src+q, e.val)
				expect(open+"a"+e.src+"7"+q, "a"+e.val+"7")
				expect(open+e.src+e.src+q, e.val+e.val)
				expect(open+`\n`+e.src+`\x41`+q, "\n"+e.val+"A")
				expect(open+e.src, nil)
				expect(open+e.src+q+"+"+open+e.src+q, e.val+e.val)
			}
			if part == 0 {
				expect(open, nil)
				expect(open+`\`, nil)
				expect(open+`\`+q, nil)
				if kind == 0 {
					expect(open+q, nil)
				} else {
					expect(open+q, "")
					expect("$"+`"a"`, nil)
				}
				for _, s := range []string{"$", "$a", "$ 'a'", "`a`", "#", "@", "~", "{", "}", ";", "\\", "_ _", "a $", "1 $'a", `"a" "b"`, `"a'`, `'a"`, "\x00", "\x7f", "€", "a€"} {
					expect(s, nil)
				}
			}
		},
	}
}

// rowTokens are the tokens that sequences are built from.
var rowTokens = []string{"A", "L", "F", "S", "1", "(", ")", "[", "]", "+", "-", "!", "*", "&", "^", ".", ",", "?", ":", `"s"`, "==", "&&"}

func tokenVars() vars {
	type S struct {
		A int
		L []int
		F func(int) int
		S *S
		X bool
	}
	f := func(i int) int { return 40 + i }
	s := &S{A: 1, L: []int{7, 8}, F: f, X: true}
	s.S = &S{A: 2, L: []int{3, 0, 6}, F: f}
	n := 1
	return vars{"A": &n, "L": []int{4, 5}, "F": f, "S": s, "B": true}
}

// leftOpen tells whether a sequence uses what the language leaves open.
func leftOpen(src string) bool {
	flat := strings.Join(strings.Fields(src), "")
	if strings.Contains(flat, ",)") || strings.Contains(flat, ",]") {
		return true
	}
	return false
}

// tokenRows is the space of all short sequences of tokens, well-formed or not.
func tokenRows(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of up to %d out of %d tokens: value or error as in Go", n, len(rowTokens)),
		Run: func(c *mc.Ctx) {
			k := 1 + c.Choose(n)
			var toks []string
			prefix := k - 2
			if prefix < 0 {
				prefix = 0
			}
			for i := 0; i < prefix; i++ {
				toks = append(toks, rowTokens[c.Choose(len(rowTokens))])
			}
			c.Mine()
			v := tokenVars()
			var rec func()
			rec = func() {
				if len(toks) == k {
					src := strings.Join(toks, " ")
					tokenCase(c, v, src)
					c.State(1)
					c.Step(k)
					return
				}
				for _, t := range rowTokens {
					toks = append(toks, t)
					rec()
					toks = toks[:len(toks)-1]
				}
			}
			rec()
		},
	}
}

func tokenCase(c *mc.Ctx, v vars, src string) {
	got, gerr := safeEval(c, v, src)
	node, perr := ref.Parse(src)
	if errors.Is(perr, ref.ErrUnspecified) || leftOpen(src) {
		return
	}
	if perr != nil {
		if strings.Contains(src, ",") {
			return // commas outside of argument lists
		}
		if gerr == nil {
			c.Fail("%q gives %s, expected an error: %v", src, showResult(got), perr)
		}
		c.Trace(1)
		return
	}
	want, werr := ref.Eval(node, v.env)
	if d := sameResult(got, gerr, want, werr); d != nil {
		c.Fail("%q %v", src, d)
	}
	c.Trace(1)
}

var rowChars = []string{"a", "b", "1", "0", ".", "+", "-", "*", "(", ")", "[", "]", "'", `"`, `\`, " ", "<", "=", "!", "&", "^", "|", "x", "e", "/", "%", ">", "?", ":"}

// charRows is the space of all short texts.
func charRows(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all texts of up to %d out of %d characters: value or error as in Go, unless Go reads ++, --, <-, comments or imaginary numbers", n, len(rowChars)),
		Run: func(c *mc.Ctx) {
			k := 1 + c.Choose(n)
			var b []byte
			prefix := k - 2
			if prefix < 0 {
				prefix = 0
			}
			for i := 0; i < prefix; i++ {
				b = append(b, rowChars[c.Choose(len(rowChars))]...)
			}
			c.Mine()
			x := 3
			v := vars{"a": &x, "b": true, "x": 2, "e": []int{1, 2}}
			var rec func()
			rec = func() {
				if len(b) == k {
					charCase(c, v, string(b))
					c.State(1)
					c.Step(k)
					return
				}
				for _, t := range rowChars {
					b = append(b, t...)
					rec()
					b = b[:len(b)-1]
				}
			}
			rec()
		},
	}
}

func charCase(c *mc.Ctx, v vars, src string) {
	for _, s := range []string{"++", "--", "<-", "//", "/*", "...", "==="} {
		if strings.Contains(src, s) {
			return
		}
	}
	if strings.ContainsAny(src, "?") && strings.ContainsAny(src, `'"`) {
		return // the model splits conditional operators textually
	}
	tokenCase(c, v, src)
}

var _ = expr.Eval
