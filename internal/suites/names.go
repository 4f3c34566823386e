package suites

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
)

// nameChars are characters that names are made of: the ends of the ranges of
// ASCII, other alphabets, and digits of another alphabet.
var nameChars = []string{"a", "z", "A", "Z", "_", "0", "9", "é", "ß", "É", "Ж", "٣", "日", "x", "e"}

func isName(s string) bool {
	for i, r := range s {
		if !(r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}

var reservedNames = []string{"true", "false", "nil", "bool", "byte", "float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}

func isReserved(s string) bool {
	for _, r := range reservedNames {
		if s == r {
			return true
		}
	}
	return false
}

// goKeyword tells whether Go, and not the library, reserves a name.
func goKeyword(s string) bool {
	switch s {
	case "break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import",
		"interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var":
		return true
	}
	return false
}

// nameForms are expressions in which a name has the value 7.
var nameForms = []struct {
	src  string
	want interface{}
}{
	{"%s", 7}, {"%s+1", 8}, {"1+%s", 8}, {"-%s", -7}, {"(%s)", 7}, {" %s ", 7}, {"%s==7", true}, {"qf(%s)", 14}, {"%s*%[1]s", 49}, {"ql[%s-6]", 21}, {"!(%s>7)", true}, {"%s>6?%[1]s:0", 7},
}

// exprNames is the space of names in expressions.
func exprNames(name string, most int) mc.Space {
	double := expr.ValueOf(func(i int) int { return 2 * i })
	list := expr.ValueOf([]int{20, 21})
	value := expr.ValueOf(7)
	env := func(known string) expr.Resolver {
		return oddResolver{func(n string) expr.Value {
			switch n {
			case known:
				return value
			case "qf":
				return double
			case "ql":
				return list
			}
			return nil
		}}
	}
	judge := func(c *mc.Ctx, r expr.Resolver, src string, want interface{}) {
		c.Step(1)
		c.Trace(1)
		x, err := safeEval(c, r, src)
		if want == nil {
			if err == nil {
				c.Fail("%q gives %s, expected an error", src, showResult(x))
			}
			return
		}
		if err != nil || x != want {
			c.Fail("%q gives %s, %v, expected %v", src, showResult(x), err, want)
		}
	}
	one := func(c *mc.Ctx, id string) {
		c.State(1)
		for _, f := range nameForms {
			judge(c, env(id), fmt.Sprintf(f.src, id), f.want)
		}
		// Names are distinct however little they differ.
		for _, other := range []string{id + "a", "a" + id, id + "_", id + "0", strings.ToUpper(id), strings.ToLower(id), id[:len(id)-1], id[1:]} {
			if other != id && isName(other) && other != "qf" && other != "ql" && !isReserved(other) && !goKeyword(other) {
				judge(c, env(id), other, nil)
			}
		}
	}
	return mc.Space{
		Name: name,
		Bounds: fmt.Sprintf("all names of up to %d out of %d characters, all names of one letter and of a letter and one other character of Unicode, all spellings of %d reserved names with letters in upper case, with one more and one less character; names of up to 2000 characters: each in %d expressions, and other names next to it that are unknown",
			most, len(nameChars), len(reservedNames), len(nameForms)),
		Run: func(c *mc.Ctx) {
			switch c.Choose(4) {
			case 0:
				n := 1 + c.Choose(most)
				id := ""
				for i := 0; i < n; i++ {
					id += nameChars[c.Choose(len(nameChars))]
					if i == 0 {
						c.Mine()
						if !isName(id) {
							c.Prune()
						}
					}
				}
				one(c, id)
			case 1:
				block := c.Choose(0x110)
				c.Mine()
				for r := rune(block) << 12; r < rune(block+1)<<12; r++ {
					if r < 0x80 || r >= 0xd800 && r < 0xe000 {
						continue // ASCII is in the grammar's spaces
					}
					c.State(1)
					for _, id := range []string{string(r), "A" + string(r), "A" + string(r) + "b", "s.A" + string(r)} {
						var want interface{}
						if !strings.HasPrefix(id, "s.") {
							if isName(id) {
								want = 7
							}
							judge(c, env(id), id, want)
						}
					}
				}
			case 2:
				word := reservedNames[c.Choose(len(reservedNames))]
				c.Mine()
				for set := 0; set < 1<<uint(len(word)); set++ {
					id := []byte(word)
					for i := range id {
						if set>>uint(i)&1 != 0 {
							id[i] = strings.ToUpper(word)[i]
						}
					}
					if id := string(id); !isReserved(id) {
						one(c, id)
					}
				}
				for _, ch := range nameChars {
					for i := 0; i <= len(word); i++ {
						for _, id := range []string{word[:i] + ch + word[i:], word[:i] + word[min(i+1, len(word)):], word[:i]} {
							if isName(id) && !isReserved(id) && !goKeyword(id) {
								one(c, id)
							}
						}
					}
				}
			case 3:
				ch := nameChars[c.Choose(len(nameChars))]
				c.Mine()
				if !isName(ch) {
					c.Prune()
				}
				for n := 4; n <= 2000; n += 1 + n/16 {
					one(c, strings.Repeat(ch, n))
				}
			}
		},
	}
}

// classEdges are the characters at which the classes of letters and digits
// start or end.
func classEdges() []rune {
	var out []rune
	class := func(r rune) int {
		switch {
		case unicode.IsLetter(r):
			return 1
		case unicode.IsDigit(r):
			return 2
		}
		return 0
	}
	for r := rune(0x80); r <= unicode.MaxRune; r++ {
		if r >= 0xd7ff && r <= 0xe000 {
			continue
		}
		if class(r) != class(r-1) || class(r) != class(r+1) {
			out = append(out, r)
		}
	}
	return out
}

// linkNames is the space of field names in options and expressions.
func linkNames(name string, most int) mc.Space {
	edges := classEdges()
	first := []string{"A", "Z", "É", "Ж"}
	type use struct {
		what   string
		fields func(n string) []fieldSpec
	}
	uses := []use{
		{"sizeof", func(n string) []fieldSpec {
			return []fieldSpec{fs("N0", uint8(0), "sizeof="+n), fs(n, []uint16{}, "")}
		}},
		{"sizefrom", func(n string) []fieldSpec {
			return []fieldSpec{fs(n, uint8(0), mcTag("", "2")), fs("S0", "", "sizefrom="+n)}
		}},
		{"sizefrom first", func(n string) []fieldSpec {
			return []fieldSpec{fs(n, uint16(0), mcTag("", "2")), fs("S0", []uint16{}, "sizefrom="+n+",big")}
		}},
		{"if", func(n string) []fieldSpec {
			return []fieldSpec{fs(n, uint8(0), mcTag("", "0,1")), fs("S0", uint16(0), "if="+n+"==1")}
		}},
		{"size", func(n string) []fieldSpec {
			return []fieldSpec{fs(n, uint8(0), mcTag("", "2")), fs("S0", []uint8{}, "size="+n)}
		}},
		{"member", func(n string) []fieldSpec {
			m := reflect.StructOf([]reflect.StructField{{Name: n, Type: rt(uint8(0)), Tag: reflect.StructTag(mcTag("", "0,1"))}})
			return []fieldSpec{{"M0", m, ""}, fs("S0", uint16(0), "if=M0."+n+"==1")}
		}},
	}
	return mc.Space{
		Name: name,
		Bounds: fmt.Sprintf("all exported names of up to %d out of %d characters, names of up to 300 characters, and names with each of the %d characters at which the classes of letters and digits start or end (if it is no such character: tags that must be rejected) x %d uses in links and expressions x fields of names that differ in one character before and behind",
			most, len(nameChars), len(edges), len(uses)),
		Run: func(c *mc.Ctx) {
			var n string
			switch c.Choose(3) {
			case 0:
				n = first[c.Choose(len(first))]
				for i := c.Choose(most); i > 0; i-- {
					n += nameChars[c.Choose(len(nameChars))]
				}
			case 1:
				n = "A" + string(edges[c.Choose(len(edges))])
			case 2:
				n = strings.Repeat(first[c.Choose(len(first))], 1<<uint(2+c.Choose(7)))
			}
			u := uses[c.Choose(len(uses))]
			c.Mine()
			if !isName(n) {
				if !strings.HasPrefix(u.what, "size") || u.what == "size" {
					c.Prune()
				}
				f := u.fields("A")
				for i := range f {
					f[i].Tag = strings.ReplaceAll(f[i].Tag, "=A", "="+n)
				}
				t := StructOf(Atom{Fields: f}, sentinel)
				c.State(1)
				tagCalls(c, t, FillSimpleOr(t), f[0].Tag+f[1].Tag, true)
				return
			}
			others := []fieldSpec{fs(n+"a", uint8(0), ""), fs("X"+n, []uint8{}, "size=1"), fs(n+"0", uint8(0), "")}
			f := append(append([]fieldSpec{others[0]}, u.fields(n)...), others[1:]...)
			var fields []reflect.StructField
			for _, x := range f {
				fields = append(fields, reflect.StructField{Name: x.Name, Type: x.Type, Tag: reflect.StructTag(x.Tag)})
			}
			t := reflect.StructOf(fields)
			for p := 0; p < 2; p++ {
				check(c, &Case{T: t, V: FillSimple(t, 1, p), O: orders[p], Flags: tagFlags})
			}
		},
	}
}
