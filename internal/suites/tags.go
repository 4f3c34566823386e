package suites

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C19: the tag language.
func propC19() *mc.Property {
	return &mc.Property{ID: "C19", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Not covered, because the language leaves it open: bit widths equal to the width of the type, spaces and parentheses in type names, octal and underscored integers, empty expressions, the same option twice (byte orders and types excepted), options on fields they have no meaning for.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				tagOrderings("orderings", 4),
				tagSpellings("spellings"),
				tagOverrides("overriding options"),
				spoiledTags("single edits", 1),
				tagPairs("pairs of options"),
				tagPositions("malformed tags at all positions"),
				tagNumbers("numbers", 70000),
				tagLongSkips("long skips"),
				tagLiterals("literals in tags", 3),
				linkTargets("targets of links"),
				linkNames("names", 3),
				deep(tagOrderings("longer orderings", 6)),
				deep(tagNumbers("larger numbers", 1<<20)),
				deep(tagLiterals("longer literals in tags", 4)),
				deep(spoiledTags("double edits", 2)),
			}
		}}
}

const tagFlags = fPack | fSizes | fUnpack | fRoundTrip

// tagHost is a kind of field with the options it may have.
type tagHost struct {
	name    string
	before  []fieldSpec
	native  reflect.Type
	after   []fieldSpec
	need    []string   // options it must have
	options [][]string // at most one out of each list
}

var (
	tagA = fs("A", uint8(0), mcTag("uint8", "0,1"))
	tagN = fs("N", uint8(0), mcTag("uint8", "2"))
	ords = []string{"big", "little"}
)

var tagHosts = []tagHost{
	{"uint16", []fieldSpec{tagA}, rt(uint16(0)), nil, nil, [][]string{ords, {"uint8", "uint32", "uint16:9", "uint32:20"}, {"skip=1", "skip=3"}, {"if=A == 1", "if=(A == 1) || ',' == 0"}, {"in=F + 1"}, {"out=F - 1"}}},
	{"int32", []fieldSpec{tagA}, rt(int32(0)), nil, nil, [][]string{ords, {"int16", "int64", "rune"}, {"skip=2"}, {"if=A != 1"}, {"bits=A + 11"}}},
	{"bool", []fieldSpec{tagA}, rt(false), nil, nil, [][]string{ords, {"uint16", "uint8:3", "bool"}, {"variantbool"}, {"invertedbool"}, {"skip=1"}, {"if=A == 1"}}},
	{"counted slice", []fieldSpec{tagA, tagN}, rt([]uint16{}), nil, []string{"sizefrom=N"}, [][]string{ords, {"skip=1"}, {"if=A >= 0"}, {"[]uint16", "[]uint32"}}},
	{"sized slice", []fieldSpec{tagA}, rt([]uint16{}), nil, []string{"size=A + 1"}, [][]string{ords, {"skip=1"}, {"if=A == 1"}, {"[]uint8"}}},
	{"fixed slice", []fieldSpec{tagA}, rt([]uint16{}), nil, []string{"[2]uint16"}, [][]string{ords, {"skip=4"}, {"if=A == 1"}}},
	{"counter", []fieldSpec{tagA}, rt(uint16(0)), []fieldSpec{fs("S", []uint8{}, "")}, []string{"sizeof=S"}, [][]string{ords, {"uint32", "uint8", "uint16:9"}, {"skip=1"}}},
	{"string", []fieldSpec{tagA, tagN}, rt(""), nil, []string{"sizefrom=N"}, [][]string{ords, {"skip=1"}, {"string"}}},
	{"fixed string", []fieldSpec{tagA}, rt(""), nil, []string{"[4]byte"}, [][]string{ords, {"skip=1"}, {"if=A == 1"}}},
	{"array", []fieldSpec{tagA}, rt([2]uint16{}), nil, nil, [][]string{ords, {"[2]uint32", "[3]uint16"}, {"skip=1"}, {"if=A == 1"}}},
	{"bool array", []fieldSpec{tagA}, rt([2]bool{}), nil, nil, [][]string{ords, {"[2]uint16"}, {"variantbool"}, {"invertedbool"}, {"skip=1"}}},
	{"struct", []fieldSpec{tagA}, rt(inner{}), nil, nil, [][]string{ords, {"skip=1"}, {"if=A == 1"}}},
	{"switch", []fieldSpec{tagA}, rt(switchBody2{}), nil, []string{"switch=A + 1"}, [][]string{ords, {"skip=1"}, {"if=A == 1"}}},
	{"pointer", []fieldSpec{tagA}, rt((*uint16)(nil)), nil, nil, [][]string{ords, {"*uint32"}, {"skip=1"}, {"if=A == 1"}}},
	{"float", []fieldSpec{tagA}, rt(float64(0)), nil, nil, [][]string{ords, {"float32", "float64"}, {"skip=1"}, {"if=A == 1"}}},
	{"padding", []fieldSpec{tagA}, rt(uint16(0)), nil, nil, [][]string{ords, {"uint32", "uint16:9"}, {"skip=1"}, {"if=A == 1"}}},
}

func quoteTag(tag string) string { return "struct:" + strconv.Quote(tag) }

func (h tagHost) atom(tag, sep string) Atom {
	name := "F"
	if h.name == "padding" {
		name = "_"
	}
	t := quoteTag(tag)
	if sep != "" {
		t += " " + sep
	}
	f := append(append(append([]fieldSpec{}, h.before...), fieldSpec{name, h.native, t}), h.after...)
	return Atom{Name: h.name, Fields: append(f, fs("Z", uint16(0), ""))}
}

func exprOption(o string) (name, src string, ok bool) {
	for _, n := range []string{"if", "size", "bits", "in", "out", "while", "switch", "case"} {
		if strings.HasPrefix(o, n+"=") {
			return n, o[len(n)+1:], true
		}
	}
	return
}

func permute(c *mc.Ctx, list []string) (out []string) {
	rest := append([]string{}, list...)
	for len(rest) > 0 {
		i := c.Choose(len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return
}

// tagOrderings is the space of sets of options in all orders.
func tagOrderings(name string, most int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of fields x all sets of up to %d options x all orders of the options x 2 byte orders x 2 patterns", len(tagHosts), most),
		Run: func(c *mc.Ctx) {
			h := tagHosts[c.Choose(len(tagHosts))]
			opts := append([]string{}, h.need...)
			for _, g := range h.options {
				if len(opts) == most {
					break
				}
				if k := c.Choose(len(g) + 1); k > 0 {
					opts = append(opts, g[k-1])
				}
			}
			if conflicting(opts) {
				c.Prune()
				return
			}
			opts = permute(c, opts)
			c.Mine()
			t := StructOf(h.atom(strings.Join(opts, ","), ""))
			valueSpace(c, t, orders, 2, []int{2}, tagFlags)
		},
	}
}

// conflicting tells whether options do not go together: a width in the type
// and a computed one, an encoded type for what an expression gives, or a
// condition on what is counted elsewhere.
func conflicting(opts []string) bool {
	all := "," + strings.Join(opts, ",")
	in, out := strings.Contains(all, ",in="), strings.Contains(all, ",out=")
	return in != out || in && strings.Contains(all, ",uint") || strings.Contains(all, ",bits=") && strings.Contains(all, ",int")
}

// tagSpellings is the space of spellings: options in the tag and in tags of
// their own, names of byte orders and types, ways to write numbers.
// tagNumbers is the space of numbers in tags of all magnitudes.
func tagNumbers(name string, most int) mc.Space {
	var ns []int
	for i := 0; i <= 18; i++ {
		ns = append(ns, i)
	}
	for p := 32; p <= most; p *= 2 {
		ns = append(ns, p-1, p, p+1)
	}
	for p := 100; p <= most; p *= 10 {
		ns = append(ns, p-1, p, p+1)
	}
	forms := []struct {
		name, tag string
		native    reflect.Type
	}{
		{"string", "[%d]byte", rt("")},
		{"slice", "[%d]byte", rt([]byte{})},
		{"wide slice", "[%d]uint16", rt([]uint16{})},
		{"cast slice", "[%d]uint16", rt([]uint32{})},
		{"slice of bools", "[%d]uint8", rt([]bool{})},
		{"array", "[%d]byte", rt([2]byte{})},
		{"array of arrays", "[%d][2]byte", rt([1][2]byte{})},
		{"slice of arrays", "[%d][2]byte", rt([][2]byte{})},
		{"inner array", "[2][%d]byte", rt([2][1]byte{})},
		{"inner slice", "[2][%d]byte", rt([2][]byte{})},
		{"inner string", "[1][%d]byte", rt([1]string{})},
		{"skip", "skip=%d", rt(uint8(0))},
		{"hexadecimal skip", "skip=%#x", rt(uint16(0))},
		{"skip of an array", "skip=%d", rt([2]uint16{})},
		{"size", "size=%d", rt([]byte{})},
		{"hexadecimal size", "size=%#x", rt([]uint16{})},
		{"size of string", "size=%d", rt("")},
		{"bits", "bits=(%d == A ? 4 : 5)", rt(uint8(0))},
		{"if", "if=A + 1 == %d", rt(uint8(0))},
		{"if of a sum", "if=A + %d > %[1]d", rt(uint8(0))},
		{"in and out", "out=F + %d,in=F - %[1]d", rt(uint32(0))},
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d numbers between 0 and %d (all up to 18, then powers of 2 and 10 and their neighbours) in %d forms of options; 2 byte orders, 2 value patterns and 4 values of another field for those up to 300", len(ns), most, len(forms)),
		Run: func(c *mc.Ctx) {
			f := forms[c.Choose(len(forms))]
			n := ns[c.Choose(len(ns))]
			c.Mine()
			a, ords, patterns := "0,1,2,9", orders, 2
			if n > 300 {
				a, ords, patterns = "1", orders[n/2%2:][:1], 1
			}
			t := StructOf(Atom{Fields: []fieldSpec{fs("A", uint(0), mcTag("uint8", a)), {"F", f.native, st(fmt.Sprintf(f.tag, n))}, fs("Z", uint8(0), "")}})
			valueSpace(c, t, ords, patterns, []int{0, 2, n}, tagFlags)
		},
	}
}

// tagLongSkips is the space of skips so long that only their size can be asked.
func tagLongSkips(name string) mc.Space {
	forms := []string{"%d", "%#x", "%#X"}
	spots := []string{"A", "F", "Z", "inside of an array", "padding"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("sizes of structs with skips of 2^k - 1, 2^k and 2^k + 1 bytes for k from 17 to 55, in %d spellings, at %d places", len(forms), len(spots)),
		Run: func(c *mc.Ctx) {
			k := 17 + c.Choose(39)
			n := 1<<uint(k) - 1 + c.Choose(3)
			form := forms[c.Choose(len(forms))]
			spot := c.Choose(len(spots))
			c.Mine()
			tag := fmt.Sprintf("skip="+form, n)
			fields := []fieldSpec{fs("A", uint8(0), ""), fs("F", uint16(0), ""), fs("Z", uint8(0), "")}
			want := 4 + n
			switch spot {
			case 0, 1, 2:
				fields[spot].Tag = st(tag)
			case 3:
				fields[1] = fieldSpec{"F", reflect.ArrayOf(2, StructOf(many("e", fs("E", uint8(0), tag)))), ""}
				want += n
			case 4:
				fields[1] = fs("_", uint16(0), tag)
			}
			t := StructOf(Atom{Fields: fields})
			c.State(1)
			c.Step(2)
			c.Trace(2)
			x := reflect.New(t).Interface()
			size, err := restruct.SizeOf(x)
			bits, berr := restruct.BitSize(x)
			if err != nil || berr != nil || size != want || bits != 8*want {
				c.Fail("SizeOf gives %d (%v), BitSize %d (%v), expected %d bytes\n%s", size, err, bits, berr, want, ref.ShowType(t))
			}
		},
	}
}

// tagLiterals is the space of string and rune literals in expressions, with
// characters that mean something in tags.
func tagLiterals(name string, most int) mc.Space {
	// What is between the quotes, and what it stands for.
	parts := []struct{ src, val string }{{`\\`, `\`}, {`\Q`, "Q"}, {"q", "q"}, {",", ","}, {"(", "("}, {")", ")"}, {"[", "["}, {"]", "]"}, {"{", "{"}, {"}", "}"}, {"a", "a"}, {":", ":"}, {"=", "="}, {`\x2c`, ","}}
	forms := []string{"if=S == LIT", "if=LIT == S,big", "big,if=(S == LIT)", "uint8,if=S == LIT && S != (LIT + \"x\")", "case=LIT", "big,case=LIT,skip=1"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("string literals of both kinds and rune literals of up to %d out of %d characters, quotes, brackets, commas and escapes among them, in %d options", most, len(parts), len(forms)),
		Run: func(c *mc.Ctx) {
			kind := c.Choose(3)
			form := forms[c.Choose(len(forms))]
			n := c.Choose(most + 1)
			if kind == 2 && n != 1 {
				c.Prune()
			}
			quote, other := `"`, `'`
			if kind > 0 {
				quote, other = `'`, `"`
			}
			lit, val := "", ""
			for i := 0; i < n; i++ {
				p := parts[c.Choose(len(parts))]
				lit += strings.NewReplacer("Q", quote, "q", other).Replace(p.src)
				val += strings.NewReplacer("Q", quote, "q", other).Replace(p.val)
			}
			c.Mine()
			lit = quote + lit + quote
			if kind == 1 {
				lit = "$" + lit
			}
			key := fieldSpec{"S", rt(""), st(fmt.Sprintf("[%d]byte", most))}
			if kind == 2 {
				key = fieldSpec{"S", rt(int32(0)), ""}
				form = strings.Replace(form, ` && S != (LIT + "x")`, "", 1)
			}
			fv := fieldSpec{"F", rt(uint16(0)), ""}
			fv.Tag = `struct:` + strconv.Quote(strings.ReplaceAll(form, "LIT", lit))
			body := strings.Contains(form, "case=")
			if body {
				fv = fieldSpec{"F", StructOf(Atom{Fields: []fieldSpec{fs("C", uint8(0), `case="bb"`), {"L", rt(uint16(0)), fv.Tag}, fs("D", uint8(0), "default")}}), st("switch=S")}
				if kind == 2 {
					fv = fieldSpec{"F", StructOf(Atom{Fields: []fieldSpec{{"L", rt(uint16(0)), `struct:` + strconv.Quote(strings.ReplaceAll(form, "LIT", lit))}, fs("D", uint8(0), "default")}}), st("switch=S")}
				}
			}
			t := StructOf(Atom{Fields: []fieldSpec{key, fv, fs("Z", uint8(0), "")}})
			for hit := 0; hit < 2; hit++ {
				v := reflect.New(t).Elem()
				v.Field(2).SetUint(0x9c)
				content := val
				if hit == 1 {
					content = "b" + val
					if len(content) > most {
						content = content[:most]
					}
					if content == val {
						continue
					}
				}
				if kind == 2 {
					v.Field(0).SetInt(int64([]rune(content)[0]))
				} else {
					v.Field(0).SetString(content)
				}
				switch {
				case body && content == val:
					v.Field(1).FieldByName("L").SetUint(0x8123)
				case body:
					v.Field(1).FieldByName("D").SetUint(0xd4)
				case strings.HasPrefix(form, "uint8") && content == val:
					v.Field(1).SetUint(0x81)
				case content == val:
					v.Field(1).SetUint(0x8123)
				}
				check(c, &Case{T: t, V: v, O: orders[n%2], Flags: tagFlags})
			}
		},
	}
}

func tagSpellings(name string) mc.Space {
	spell := map[string][]string{
		"big": {"big", "msb", "network"}, "little": {"little", "lsb"}, "uint8": {"uint8", "byte"}, "rune": {"rune", "int32"}, "[4]byte": {"[4]byte", "[4]uint8", "[4]int8"}, "[3]byte": {"[3]byte", "[3]uint8"},
		"string": {"string", "[]byte", "[]uint8"}, "skip=3": {"skip=3", "skip=0x3", "skip=0x03", "skip=0X3"}, "skip=1": {"skip=1", "skip=0x1"}, "uint16:9": {"uint16:9", "uint16:0x9", "uint16:0X09"}, "float64": {"float64", ""}, "bool": {"bool", ""},
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of fields x all sets of up to 3 options x all spellings of each, each expression in the tag or in a tag of its own", len(tagHosts)),
		Run: func(c *mc.Ctx) {
			h := tagHosts[c.Choose(len(tagHosts))]
			opts := append([]string{}, h.need...)
			for _, g := range h.options {
				if len(opts) == 3 {
					break
				}
				if k := c.Choose(len(g) + 1); k > 0 {
					opts = append(opts, g[k-1])
				}
			}
			if conflicting(opts) {
				c.Prune()
				return
			}
			tag, sep := "", ""
			for _, o := range opts {
				if n, src, ok := exprOption(o); ok && c.Bool() {
					sep += fmt.Sprintf("struct-%s:%s ", n, strconv.Quote(src))
					continue
				}
				if s, ok := spell[o]; ok {
					o = s[c.Choose(len(s))]
				}
				tag = joinTag(tag, o)
			}
			c.Mine()
			t := StructOf(h.atom(tag, strings.TrimSpace(sep)))
			valueSpace(c, t, orders, 1, []int{2}, tagFlags)
		},
	}
}

// tagOverrides is the space of several byte orders and types: the last counts.
func tagOverrides(name string) mc.Space {
	types := []string{"", "uint8", "uint8:3", "uint16", "uint16:12", "uint32", "uint32:31", "uint64:33", "byte"}
	ords := []string{"", "big", "little", "msb", "lsb", "network"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all triples of %d types, all triples of %d byte orders, all mixes of two of each", len(types), len(ords)),
		Run: func(c *mc.Ctx) {
			var opts []string
			switch c.Choose(3) {
			case 0:
				for i := 0; i < 3; i++ {
					opts = append(opts, types[c.Choose(len(types))])
				}
			case 1:
				for i := 0; i < 3; i++ {
					opts = append(opts, ords[c.Choose(len(ords))])
				}
			case 2:
				opts = []string{types[c.Choose(len(types))], ords[c.Choose(3)], types[c.Choose(len(types))], ords[c.Choose(3)]}
			}
			c.Mine()
			tag := ""
			for _, o := range opts {
				tag = joinTag(tag, o)
			}
			t := StructOf(tagHost{name: "x", before: []fieldSpec{tagA}, native: rt(uint32(0))}.atom(tag, ""))
			valueSpace(c, t, orders, 3, nil, tagFlags)
		},
	}
}

// The grammar of tags, read independently of the code.

type tagClass int

const (
	tagOpen   tagClass = iota // left open
	tagGood                   // well-formed, compared with the model
	tagLegal                  // well-formed, not compared
	tagBroken                 // malformed: all calls fail
)

func (k tagClass) String() string { return [...]string{"open", "good", "legal", "broken"}[k] }

func worse(a, b tagClass) tagClass {
	switch {
	case a == tagBroken || b == tagBroken:
		return tagBroken
	case a == tagOpen || b == tagOpen:
		return tagOpen
	case a == tagLegal || b == tagLegal:
		return tagLegal
	}
	return tagGood
}

var (
	tagDecimal = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)
	tagHex     = regexp.MustCompile(`^0[xX][0-9a-fA-F]+$`)
	tagOddInt  = regexp.MustCompile(`^(0[0-9]*|0[bBoO]?[0-9_]*|[0-9][0-9_]*|0[xX][0-9a-fA-F_]*)$`)
	oddNumber  = regexp.MustCompile(`\b0[0-9_oObB]|[0-9]_`)
	oddType    = regexp.MustCompile(`[\s;()/]`)
)

// cutTag splits a tag at commas outside of brackets and quotes. It fails if
// one is left open, and says so if a closing one does not match.
func cutTag(tag string) (parts []string, odd bool, err error) {
	var stack []byte
	start := 0
	for i := 0; i < len(tag); i++ {
		switch b := tag[i]; b {
		case '"', '\'':
			for i++; ; i++ {
				if i >= len(tag) {
					return nil, odd, fmt.Errorf("open quote")
				}
				if tag[i] == '\\' {
					i++
				} else if tag[i] == b {
					break
				}
			}
		case '(', '[', '{':
			stack = append(stack, map[byte]byte{'(': ')', '[': ']', '{': '}'}[b])
		case ')', ']', '}':
			if len(stack) == 0 || stack[len(stack)-1] != b {
				odd = true
				continue
			}
			stack = stack[:len(stack)-1]
		case ',':
			if len(stack) == 0 {
				parts = append(parts, tag[start:i])
				start = i + 1
			}
		}
	}
	if len(stack) > 0 {
		return nil, odd, fmt.Errorf("open bracket")
	}
	return append(parts, tag[start:]), odd, nil
}

// classify reads a tag on a field of one of the hosts.
func classify(h tagHost, tag string) tagClass {
	if tag == "" || tag == "-" {
		return tagLegal
	}
	if !utf8.ValidString(tag) {
		return tagOpen
	}
	parts, odd, err := cutTag(tag)
	if err != nil {
		return tagBroken
	}
	k := tagGood
	seen := map[string]bool{}
	var typ string
	times := map[string]int{}
	for _, p := range parts {
		if i := strings.IndexByte(p, '='); i > 0 {
			times[p[:i]]++
		}
	}
	for _, n := range times {
		if odd && n > 1 {
			return tagOpen
		}
	}
	if odd {
		return tagBroken // no option holds a bracket that is closed twice
	}
	for _, p := range parts {
		one, key := h.classifyOption(p)
		if i := strings.IndexByte(p, '='); i > 0 && times[p[:i]] > 1 && key != "skip" {
			one = tagOpen // an earlier one may go unread
		}
		k = worse(k, one)
		if key == "type" {
			typ = p
		}
		if seen[key] && key != "order" && key != "type" {
			k = worse(k, tagOpen)
		}
		seen[key] = true
	}
	if k == tagBroken {
		return k
	}
	sizable := h.native.Kind() == reflect.Slice || h.native.Kind() == reflect.String
	if seen["root"] || seen["parent"] {
		return tagOpen
	}
	if (seen["size"] || seen["sizefrom"]) && !sizable {
		return tagBroken
	}
	if seen["bits"] {
		switch t := typ; {
		case t == "" && (h.native.Kind() < reflect.Int || h.native.Kind() > reflect.Uint64 || h.native.Kind() == reflect.Uintptr) && h.native.Kind() != reflect.Float32 && h.native.Kind() != reflect.Complex64 && h.native.Kind() != reflect.Complex128:
			return tagBroken
		default:
			return worse(k, tagLegal)
		}
	}
	if k == tagGood && (len(parts) != len(seen) || seen["expr"]) {
		k = tagLegal
	}
	if k == tagGood {
		for _, n := range h.need {
			if !strings.Contains(","+tag+",", ","+n+",") {
				k = tagLegal
			}
		}
	}
	return k
}

// classifyOption reads an option.
func (h tagHost) classifyOption(p string) (k tagClass, key string) {
	switch p {
	case "lsb", "little", "msb", "big", "network":
		return tagGood, "order"
	case "variantbool", "invertedbool":
		if h.native.Kind() != reflect.Bool && h.name != "bool array" {
			return tagOpen, p
		}
		return tagGood, p
	case "root", "parent", "default":
		return tagLegal, p
	case "":
		return tagBroken, p
	}
	for _, w := range []string{"lsb", "little", "msb", "big", "network", "variantbool", "invertedbool", "root", "parent", "default", "-"} {
		if strings.HasPrefix(p, w) {
			return tagBroken, p
		}
	}
	if n, src, ok := exprOption(p); ok {
		if strings.TrimSpace(src) == "" {
			return tagOpen, "blank"
		}
		for _, o := range append(h.options, h.need) {
			for _, o := range o {
				if o == p {
					return tagGood, n
				}
			}
		}
		return classifyExpr(src), n
	}
	switch {
	case strings.HasPrefix(p, "skip="):
		s := p[5:]
		n, err := strconv.ParseInt(s, 0, 64)
		switch {
		case tagDecimal.MatchString(s) || tagHex.MatchString(s):
			if err != nil {
				return tagBroken, "skip"
			}
			if n > 100 {
				return tagLegal, "skip"
			}
			return tagGood, "skip"
		case tagOddInt.MatchString(s) && s != "":
			return tagOpen, "skip"
		}
		return tagBroken, "skip"
	case strings.HasPrefix(p, "sizeof="):
		id := p[7:]
		switch {
		case !isIdentifier(id):
			return tagBroken, "sizeof"
		case id == "S" && h.name == "counter":
			return tagGood, "sizeof"
		case h.hasField(id):
			return tagOpen, "sizeof"
		}
		return tagBroken, "sizeof"
	case strings.HasPrefix(p, "sizefrom="):
		id := p[9:]
		switch {
		case !isIdentifier(id):
			return tagBroken, "sizefrom"
		case id == "N" && h.hasField("N") || id == "A":
			return tagGood, "sizefrom"
		case h.hasField(id):
			return tagOpen, "sizefrom"
		}
		return tagBroken, "sizefrom"
	}
	return h.classifyType(p), "type"
}

func isIdentifier(s string) bool {
	for i, r := range s {
		if r != '_' && !unicode.IsLetter(r) && (i == 0 || r < '0' || r > '9') {
			return false
		}
	}
	return s != ""
}

func (h tagHost) hasField(id string) bool {
	for _, f := range append(append([]fieldSpec{{Name: "Z"}, {Name: "F"}}, h.before...), h.after...) {
		if f.Name == id {
			return true
		}
	}
	return false
}

func classifyExpr(src string) tagClass {
	for _, s := range []string{"\x00", "++", "--", "//", "/*", "<-", "\n"} {
		if strings.Contains(src, s) {
			return tagOpen // see C16
		}
	}
	if oddNumber.MatchString(src) {
		return tagOpen
	}
	_, err := ref.Parse(src)
	switch {
	case err == ref.ErrUnspecified:
		return tagOpen
	case err != nil:
		return tagBroken
	}
	return tagLegal
}

// classifyType reads a type, with or without a width.
func (h tagHost) classifyType(p string) tagClass {
	if oddType.MatchString(p) {
		return tagOpen
	}
	name, width := p, ""
	if i := strings.IndexByte(p, ':'); i >= 0 {
		name, width = p[:i], p[i+1:]
		if strings.HasPrefix(width, "0") && tagOddInt.MatchString(width) && width != "0" || strings.ContainsRune(width, '_') {
			return tagOpen
		}
	}
	if strings.Contains(name, "[0") || strings.Contains(name, "_") {
		return tagOpen
	}
	if name == "uintptr" {
		return tagOpen
	}
	t, ok := ref.TypeByName(name)
	if !ok {
		return tagBroken
	}
	integer := t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64
	if strings.ContainsRune(p, ':') {
		n, err := strconv.Atoi(width)
		switch {
		case !tagDecimal.MatchString(width) || err != nil || n == 0:
			return tagBroken
		case t.Kind() == reflect.Float32 || t.Kind() == reflect.Complex64 || t.Kind() == reflect.Complex128:
			return tagOpen
		case !integer || n > t.Bits():
			return tagBroken
		case n == t.Bits() || t.Kind() == reflect.Int8:
			return tagOpen
		}
	}
	nat := h.native
	signed := func(t reflect.Type) bool { return t.Kind() <= reflect.Int64 }
	switch {
	case t.Kind() == reflect.Int || t.Kind() == reflect.Uint:
		return tagLegal
	case integer && (nat.Kind() == reflect.Bool || nat.Kind() >= reflect.Int && nat.Kind() <= reflect.Uint64 && signed(nat) == signed(t)):
		return tagGood
	}
	for _, o := range append(h.options, h.need) {
		for _, o := range o {
			if o == p {
				return tagGood
			}
		}
	}
	return tagLegal
}

// tagTry judges a tag.
func tagTry(c *mc.Ctx, h tagHost, tag string) {
	k := classify(h, tag)
	c.State(1)
	if k == tagGood {
		parts := strings.Split(tag, ",")
		if conflicting(parts) {
			k = tagLegal
		}
	}
	t := StructOf(h.atom(tag, ""))
	if k == tagGood {
		v := FillSimple(t, 1, 1)
		check(c, &Case{T: t, V: v, O: orders[len(tag)%2], Flags: tagFlags})
		return
	}
	tagCalls(c, t, FillSimpleOr(t), tag, k == tagBroken)
}

// tagCalls makes all calls with a type and checks that they fail, or only that
// they return.
func tagCalls(c *mc.Ctx, t reflect.Type, v reflect.Value, what string, fail bool) {
	desc := func() string { return fmt.Sprintf("tag %q\ntype %s", what, ref.ShowType(t)) }
	c.Sample(desc)
	judge := func(call string, err error) {
		c.Step(1)
		c.Trace(1)
		if fail && err == nil {
			c.Fail("%s gives no error\n%s", call, desc())
		}
	}
	var err error
	var data []byte
	safely(c, "Pack", desc, func() { data, err = restruct.Pack(orders[0].O, deepCopy(v).Addr().Interface()) })
	if err != nil && data != nil {
		c.Fail("Pack returns data along with an error\n%s", desc())
	}
	judge("Pack", err)
	safely(c, "Unpack", desc, func() {
		err = restruct.Unpack([]byte{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, orders[1].O, reflect.New(t).Interface())
	})
	judge("Unpack", err)
	safely(c, "SizeOf", desc, func() { _, err = restruct.SizeOf(deepCopy(v).Addr().Interface()) })
	judge("SizeOf", err)
	safely(c, "BitSize", desc, func() { _, err = restruct.BitSize(deepCopy(v).Interface()) })
	judge("BitSize", err)
}

// FillSimpleOr makes a value without asking what its tags mean.
func FillSimpleOr(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.CanSet() {
			switch {
			case f.CanUint():
				f.SetUint(1)
			case f.Kind() == reflect.Slice:
				f.Set(reflect.MakeSlice(f.Type(), 1, 1))
			case f.Kind() == reflect.String:
				f.SetString("x")
			case f.Kind() == reflect.Ptr:
				f.Set(reflect.New(f.Type().Elem()))
			}
		}
	}
	return v
}

var tagAlphabet = []string{",", "=", ":", "(", ")", "[", "]", "{", "\"", "'", "\\", "-", "*", "0", "9", "x", "i", "A", "_", " ", "é", ".", "\x00", "\n", "8", "!"}

// baseTags are well-formed tags for each host.
func (h tagHost) baseTags() (out []string) {
	need := strings.Join(h.need, ",")
	out = append(out, need)
	for _, g := range h.options {
		for _, o := range g {
			out = append(out, joinTag(need, o))
		}
	}
	if len(h.options) > 2 {
		out = append(out, joinTag(joinTag(h.options[1][0], need), h.options[0][0]))
	}
	return
}

// spoiledTags is the space of tags with edits.
func spoiledTags(name string, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("the tags of %d kinds of fields with each option x every deletion, insertion and replacement by %d characters, every truncation and swap, %d times", len(tagHosts), len(tagAlphabet), n),
		Run: func(c *mc.Ctx) {
			h := tagHosts[c.Choose(len(tagHosts))]
			if n > 1 && h.name != "uint16" && h.name != "counter" && h.name != "counted slice" {
				c.Prune()
				return
			}
			base := h.baseTags()
			tag := base[c.Choose(len(base))]
			if n > 1 && len(tag) > 12 {
				c.Prune()
				return
			}
			pos := c.Choose(len(tag) + 1)
			c.Mine()
			// The edits at one place make one leaf, so that the types of a
			// leaf can be told apart by few choices.
			for _, e := range editsAt(tag, pos) {
				if n == 1 {
					tagTry(c, h, e)
					continue
				}
				for q := pos; q <= len(e); q++ {
					for _, e := range editsAt(e, q) {
						tagTry(c, h, e)
					}
				}
			}
		},
	}
}

func editsAt(s string, i int) (out []string) {
	out = append(out, s[:i])
	if i < len(s) {
		out = append(out, s[:i]+s[i+1:])
	}
	if i+1 < len(s) {
		out = append(out, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
	}
	for _, a := range tagAlphabet {
		out = append(out, s[:i]+a+s[i:])
		if i < len(s) {
			out = append(out, s[:i]+a+s[i+1:])
		}
	}
	return
}

// tagPairs is the space of pairs of options, meaningful or not.
func tagPairs(name string) mc.Space {
	opts := []string{"", "lsb", "msb", "big", "little", "network", "variantbool", "invertedbool", "default", "sizeof=S", "sizeof=F", "sizeof=A", "sizeof=", "sizeof=Nope", "sizeof=9", "sizefrom=A", "sizefrom=N", "sizefrom=", "sizefrom=Nope", "sizefrom=A.B", "skip=1", "skip=", "skip=x", "skip=-1", "skip=1.5",
		"skip=99999999999999999999", "if=true", "if=", "if=(", "if=A +", "if", "size=1", "size=)", "bits=3", "bits=\"", "in=F", "in=F F", "out=F", "out==", "while=true", "while", "switch=A", "switch=A{}", "case=1", "case='", "-", "--", "uint8", "uint8:3", "uint8:0", "uint8:9", "uint8:-1", "uint8:", "uint8:x", "uint16:300", "uint32:33", "uint64:99999999999",
		"int64:65", "bool:1", "string:3", "[2]uint8:3", "*uint8:3", "float64:3", "int32", "uint", "[2]uint8", "[]uint8", "*uint16", "**int8", "[x]uint8", "[1.5]uint8", "[-1]uint8", "[2", "[2]", "[]", "*", "[...]uint8", "float128", "struct", "struct{}", "interface{}", "map[string]int", "chan int", "func()", "inner", "pkg.Type", "uint8=3", "Big", "bigger", "bi", "=", ":", "1", "size", "skip", "sizeof", "\"", "é", "\x00", "uint8\x00", "lsb\x00big"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of fields x all pairs of %d options, meaningful, misplaced and malformed", len(tagHosts), len(opts)),
		Run: func(c *mc.Ctx) {
			h := tagHosts[c.Choose(len(tagHosts))]
			a := opts[c.Choose(len(opts))]
			c.Mine()
			tagTry(c, h, a)
			for _, b := range opts {
				tagTry(c, h, a+","+b)
			}
		},
	}
}

// tagPositions is the space of malformed tags at all places of a type that are
// reached.
func tagPositions(name string) mc.Space {
	broken := []string{"nope", "uint8:9", "uint8:0", "skip=x", "sizeof=Nope", "sizefrom=Nope", "if=(", "lsb,", "-,lsb", "sizeof=1", "uint8 big", "bigmsb", "if=A +", "size=1", "sizefrom=A", "bits=\"", "uint8\x00"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d malformed tags x first, middle and last field x padding and named fields x 2 levels of struct, array, counted slice, pointer, switch and condition", len(broken)),
		Run: func(c *mc.Ctx) {
			tag := broken[c.Choose(len(broken))]
			place := c.Choose(3)
			fname := []string{"F", "_"}[c.Choose(2)]
			c1, c2 := c.Choose(8), c.Choose(8)
			c.Mine()
			f := fieldSpec{fname, rt(uint8(0)), quoteTag(tag)}
			a, b := fs("A", uint8(0), ""), fs("B", uint16(0), "")
			t := StructOf(Atom{Fields: [][]fieldSpec{{f, a, b}, {a, f, b}, {a, b, f}}[place]})
			v := reflect.New(t).Elem()
			for _, w := range []int{c1, c2} {
				inner := v
				one := fs("K", uint8(0), "")
				field := func(t reflect.Type, tag string) {
					v = reflect.New(StructOf(Atom{Fields: []fieldSpec{one, {"W", t, tag}}})).Elem()
					v.Field(0).SetUint(1)
				}
				switch w {
				case 0:
					continue
				case 1:
					field(inner.Type(), "")
					v.Field(1).Set(inner)
				case 2:
					field(reflect.ArrayOf(2, inner.Type()), "")
					v.Field(1).Index(0).Set(inner)
					v.Field(1).Index(1).Set(inner)
				case 3:
					field(reflect.SliceOf(inner.Type()), st("sizefrom=K"))
					v.Field(1).Set(reflect.MakeSlice(v.Field(1).Type(), 1, 1))
					v.Field(1).Index(0).Set(inner)
				case 4:
					field(reflect.PtrTo(inner.Type()), "")
					v.Field(1).Set(reflect.New(inner.Type()))
					v.Field(1).Elem().Set(inner)
				case 5:
					body := reflect.New(StructOf(Atom{Fields: []fieldSpec{{"C", inner.Type(), st("case=1")}, fs("D", uint8(0), "default")}})).Elem()
					body.Field(0).Set(inner)
					field(body.Type(), st("switch=K"))
					v.Field(1).Set(body)
				case 6:
					field(inner.Type(), st("if=K == 1"))
					v.Field(1).Set(inner)
				case 7:
					field(reflect.SliceOf(inner.Type()), st("size=K"))
					v.Field(1).Set(reflect.MakeSlice(v.Field(1).Type(), 1, 1))
					v.Field(1).Index(0).Set(inner)
				}
			}
			c.State(1)
			tagCalls(c, v.Type(), v, tag, true)
		},
	}
}

// linkTargets is the space of links to whatever a name may stand for.
func linkTargets(name string) mc.Space {
	type target struct {
		f    fieldSpec
		name string // what the link says
		good int    // 1: fit to be counted, 2: fit to be a counter
		side int    // 1: legal behind, -1: legal before, 0 both
	}
	targets := []target{
		{fs("T", []uint8{}, ""), "T", 1, 0}, {fs("T", "", ""), "T", 1, 0}, {fs("T", []inner{}, "skip=1"), "T", 1, 0}, {fs("T", uint8(0), ""), "T", 2, 0}, {fs("T", uint16(0), "uint16:9"), "T", 2, 0}, {fs("T", int32(0), "int16,big"), "T", 2, 0},
		{fs("T", []uint8{}, "-"), "T", 0, 0}, {fs("T", "", "-"), "T", 0, 0}, {fs("T", uint8(0), "-"), "T", 0, 0}, {fs("T", uint16(0), "-"), "T", 0, 0},
		{fs("t", []uint8{}, ""), "t", 0, 0}, {fs("t", uint8(0), ""), "t", 0, 0}, {fs("t", uint8(0), "uint16"), "t", 0, 0}, {fs("t", []uint8{}, "[]uint8"), "t", 0, 0}, {fs("t", []uint8{}, "-"), "t", 0, 0},
		{fs("_", [2]uint8{}, ""), "_", 0, 0}, {fs("_", uint8(0), ""), "_", 0, 0}, {fs("_", uint16(0), "-"), "_", 0, 0},
		{fs("T", []uint8{}, "size=1"), "t", 0, 0}, {fs("T", []uint8{}, "size=1"), "Tt", 0, 0}, {fs("T", []uint8{}, "size=1"), "TT", 0, 0}, {fs("T", uint8(0), ""), "T1", 0, 0},
		{fs("T", (*linkHost)(nil), "parent"), "T", 0, 0}, {fs("T", (*linkHost)(nil), "root"), "T", 0, 0},
		{fs("T", struct{ S []uint8 }{}, ""), "S", 0, 0}, {fs("T", struct{ N uint8 }{}, ""), "N", 0, 0},
		{fs("T", [2]uint8{}, ""), "T", 0, 0}, {fs("T", inner{}, ""), "T", 0, 0}, {fs("T", (*[]uint8)(nil), ""), "T", 0, 0}, {fs("T", (*uint8)(nil), ""), "T", 0, 0},
	}
	links := []struct {
		f    fieldSpec
		kind int // which targets are fit
	}{
		{fs("L", uint8(0), "sizeof="), 1}, {fs("L", uint32(0), "uint16:9,sizeof="), 1}, {fs("L", int(0), "int16,sizeof="), 1},
		{fs("L", []uint8{}, "sizefrom="), 2}, {fs("L", "", "skip=1,sizefrom="), 2}, {fs("L", []inner{}, "big,sizefrom="), 2},
		{fs("_", uint8(0), "sizeof="), 0}, {fs("_", uint16(0), "uint16:9,sizeof="), 0},
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d links by sizeof and sizefrom, as first or last option, to %d kinds of targets (encoded, ignored, unexported, padding, references, of other names), the link before or behind its target, 0 to 2 fields before, between and behind; itself", len(links), len(targets)),
		Run: func(c *mc.Ctx) {
			l := links[c.Choose(len(links))]
			tg := targets[c.Choose(len(targets))]
			late := c.Bool() // the link behind the target
			pre, mid, post := c.Choose(3), c.Choose(3), c.Choose(2)
			self := c.Choose(3)
			c.Mine()
			to := tg.name
			if self == 1 {
				to = l.f.Name
			}
			opt := rawTag(l.f.Tag) + to
			if self == 2 { // the link first among the options
				if i := strings.LastIndexByte(opt, ','); i >= 0 {
					opt = opt[i+1:] + "," + opt[:i]
				} else {
					opt = "little," + opt
				}
			}
			lf := fieldSpec{l.f.Name, l.f.Type, quoteTag(opt)}
			var f []fieldSpec
			add := func(n int, p string) {
				for i := 0; i < n; i++ {
					f = append(f, fs(p+itoa(i), uint16(0), []string{"", "-"}[(i+n)%2]))
				}
			}
			add(pre, "A")
			if late {
				f = append(f, tg.f)
				add(mid, "B")
				f = append(f, lf)
			} else {
				f = append(f, lf)
				add(mid, "B")
				f = append(f, tg.f)
			}
			add(post, "C")
			t := StructOf(Atom{Fields: f}, sentinel)
			c.State(1)
			if self != 1 && l.kind != 0 && tg.good == l.kind && late == (l.kind == 2) {
				check(c, &Case{T: t, V: FillSimple(t, 1, 1), O: orders[pre%2], Flags: tagFlags})
				return
			}
			if self != 1 && tg.name == tg.f.Name && tg.name == "T" && rawTag(tg.f.Tag) != "-" && l.kind != 0 && late == (l.kind == 2) {
				c.Prune() // a target of the wrong kind: see C23
			}
			tagCalls(c, t, reflect.New(t).Elem(), opt, true)
			tagCalls(c, t, FillSimpleOr(t), opt, true)
		},
	}
}

type linkHost struct{ A uint8 }
