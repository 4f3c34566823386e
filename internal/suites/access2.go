package suites

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
)

// construct builds the description of a type by hand.
func construct(t reflect.Type) expr.Type {
	list := func(n int, at func(int) reflect.Type) []expr.Type {
		out := []expr.Type{}
		for i := 0; i < n; i++ {
			out = append(out, construct(at(i)))
		}
		return out
	}
	switch t.Kind() {
	case reflect.Slice:
		return expr.NewSliceType(construct(t.Elem()))
	case reflect.Array:
		return expr.NewArrayType(t.Len(), construct(t.Elem()))
	case reflect.Ptr:
		return expr.NewPtrType(construct(t.Elem()))
	case reflect.Map:
		return expr.NewMapType(construct(t.Key()), construct(t.Elem()))
	case reflect.Func:
		return expr.NewFuncType(list(t.NumIn(), t.In), list(t.NumOut(), t.Out), t.IsVariadic())
	case reflect.Struct:
		fields := []expr.Field{}
		for i := 0; i < t.NumField(); i++ {
			fields = append(fields, expr.Field{Name: t.Field(i).Name, Type: construct(t.Field(i).Type)})
		}
		return expr.NewStructType(fields)
	}
	return expr.NewPrimitiveType(kindOf(t))
}

// constructedTypes is the space of type descriptions made by hand.
func constructedTypes(name string, depth int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all types of depth %d built of slices, arrays, pointers, maps, functions and structs over 6 types, and all basic types: their descriptions made by the constructors describe the same, and compare like those of values", depth),
		Run: func(c *mc.Ctx) {
			k := c.Choose(len(basics) + 1)
			var t reflect.Type
			if k < len(basics) {
				t = basics[k]
			} else {
				t = describedTypes(c, depth)
			}
			c.Mine()
			var et expr.Type
			safely(c, "constructing", t.String, func() { et = construct(t) })
			if err := describes(et, t, 8); err != nil {
				c.Fail("constructed: %v", err)
			}
			of := typeOfExpr(c, t)
			if et.String() != of.String() {
				c.Fail("the description of %v that was constructed is called %s, that of a value %s", t, et, of)
			}
			again := construct(t)
			if !expr.TypeEqual(et, again) || !expr.TypeEqual(et, of) || !expr.TypeEqual(of, et) {
				c.Fail("descriptions of %v differ by how they were made", t)
			}
			for _, u := range []reflect.Type{reflect.SliceOf(t), reflect.PtrTo(t), reflect.ArrayOf(1, t), rt(int16(0)), reflect.FuncOf(nil, []reflect.Type{t}, false)} {
				if want := u == t; expr.TypeEqual(et, construct(u)) != want || expr.TypeEqual(construct(u), of) != want {
					c.Fail("constructed descriptions of %v and %v compare wrong", t, u)
				}
			}
			c.State(1)
			c.Step(2)
			c.Trace(4)
		},
	}
}

// packages is the space of packages and their symbols.
func packages(name string) mc.Space {
	syms := map[string]interface{}{"A": 1, "B": "b", "C": uint8(3), "D": nFloat64(1.5), "F": func(x int) int { return x + 1 }, "G": func(a, b string) string { return a + b }, "S": accInner{}, "L": []int{4, 5}, "M": map[string]bool{"m": true}}
	names := sortedNames(syms)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all packages of up to 3 of %d symbols, alone and inside of another package: symbols, their types, selection in expressions", len(names)),
		Run: func(c *mc.Ctx) {
			in := map[string]bool{}
			for i := 0; i < 3; i++ {
				if k := c.Choose(len(names) + 1); k < len(names) {
					in[names[k]] = true
				}
			}
			c.Mine()
			vals := map[string]expr.Value{}
			for n := range in {
				vals[n] = expr.ValueOf(syms[n])
			}
			p := expr.NewPackage(vals)
			outer := expr.NewPackage(map[string]expr.Value{"p": expr.ValueOf(p), "Z": expr.ValueOf(26)})
			r := expr.NewMapResolver(map[string]expr.Value{"p": expr.ValueOf(p), "o": expr.ValueOf(outer), "A": expr.ValueOf("not in p")})
			types := map[string]expr.Type{}
			for _, pt := range []expr.Type{p.Type(), expr.TypeOf(p), expr.ValueOf(p).Type(), expr.NewTypeResolverAdapter(r).TypeResolve("p")} {
				if pt == nil || pt.Kind() != expr.Pkg || pt.String() != "package" {
					c.Fail("a package is described as %v", pt)
					return
				}
				x, ok := pt.(*expr.PackageType)
				if !ok {
					c.Fail("a package is described by a %T", pt)
					return
				}
				for _, n := range append([]string{"Unknown", "p", ""}, names...) {
					st := x.Symbol(n)
					if in[n] != (st != nil) || in[n] && describes(st, rt(syms[n]), 4) != nil {
						c.Fail("the type of symbol %q of package %v is %v", n, in, st)
					}
					if st != nil {
						types[n] = st
					}
				}
				if !expr.TypeEqual(expr.NewPackageType(types), pt) {
					c.Fail("the type of package %v made by hand differs", in)
				}
			}
			for _, n := range append([]string{"Unknown", "p", ""}, names...) {
				s := p.Symbol(n)
				if in[n] != (s != nil) {
					c.Fail("symbol %q of package %v is %v", n, in, s)
				}
				if s != nil && rt(s.Value().Interface()) != rt(syms[n]) {
					c.Fail("symbol %q of package %v is a %T", n, in, s.Value().Interface())
				}
				if n == "" {
					continue
				}
				for _, e := range []string{"p." + n, "o.p." + n} {
					if n == "F" || n == "G" {
						continue
					}
					got, err := safeEval(c, r, e)
					if in[n] != (err == nil) || in[n] && !sameValue(got, syms[n]) {
						c.Fail("%s gives %s, %v in package %v", e, showResult(got), err, in)
					}
				}
				c.Trace(1)
			}
			for _, x := range []struct {
				e, sym string
				want   interface{}
			}{{"p.F(41)", "F", 42}, {`o.p.G("x", "y")`, "G", "xy"}, {"p.L[1] + o.Z", "L", 31}, {`p.M["m"]`, "M", true}, {"o.A", "no", nil}, {"o.p.p", "no", nil}} {
				got, err := safeEval(c, r, x.e)
				if in[x.sym] != (err == nil) || in[x.sym] && !sameValue(got, x.want) {
					c.Fail("%s gives %s, %v in package %v", x.e, showResult(got), err, in)
				}
			}
			c.State(1)
			c.Step(1)
		},
	}
}

// strictRunes is a reader of runes that minds how it is used.
type strictRunes struct {
	r      []rune
	i      int
	unread bool
	fail   int
	err    error
	misuse string
}

func (s *strictRunes) ReadRune() (rune, int, error) {
	if s.err != nil && s.i >= s.fail {
		s.unread = false
		return 0, 0, s.err
	}
	if s.i >= len(s.r) {
		s.unread = false
		return 0, 0, io.EOF
	}
	s.unread = true
	s.i++
	return s.r[s.i-1], len(string(s.r[s.i-1])), nil
}

func (s *strictRunes) UnreadRune() error {
	if !s.unread {
		return errors.New("nothing to unread")
	}
	s.unread = false
	s.i--
	return nil
}

var readerSources = []string{"1", "A", "A + B * 2", "-A", "!T", "A == 1 && B != 2 || T", "(A + B) * (A - B)", "T ? A : B", "L[A]", "S.X", "F(A, B)", `"text" == "te" + "xt"`, `'x' + 1`, "0x1F << 3", "1.5e3", "A  ", "  A", "A>=B", "A<<B", "A&^B", "A&&T", "", "A +", "(A", "A)", "1a", `"open`, "'", "A ? B", "A @ B", "\u00e9", "L[", "F(A,", "S.", "T?A:B", `"\u00e9"`, "`raw`", "nil", "true", "A!=B", "A|B", "A||T"}

// readers is the space of ways to hand in the source of an expression.
func readers(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d expressions through 5 kinds of readers of runes, and through readers that fail at every position", len(readerSources)),
		Run: func(c *mc.Ctx) {
			src := readerSources[c.Choose(len(readerSources))]
			c.Mine()
			env := map[string]expr.Value{"A": expr.ValueOf(1), "B": expr.ValueOf(3), "T": expr.ValueOf(true), "L": expr.ValueOf([]int{7, 8, 9}), "S": expr.ValueOf(accInner{}), "F": expr.ValueOf(func(a, b int) int { return a*10 + b })}
			r := expr.NewMapResolver(env)
			eval := func(p *expr.Program) (v interface{}, err error) {
				safely(c, "EvalProgram", func() string { return src }, func() { v, err = expr.EvalProgram(r, p) })
				return
			}
			parse := func(rd io.RuneScanner) (p *expr.Program, failure interface{}) {
				defer func() { failure = recover() }()
				return expr.Parse(rd), nil
			}
			var want interface{}
			var wantErr error
			p, wantFail := func() (p *expr.Program, failure interface{}) {
				defer func() { failure = recover() }()
				return expr.ParseString(src), nil
			}()
			if wantFail == nil {
				want, wantErr = eval(p)
			}
			broken := bufio.NewReaderSize(strings.NewReader(src), 16)
			rs := map[string]io.RuneScanner{
				"strings.Reader": strings.NewReader(src), "bytes.Reader": bytes.NewReader([]byte(src)), "bytes.Buffer": bytes.NewBufferString(src),
				"bufio.Reader": broken, "strict": &strictRunes{r: []rune(src)}}
			for n, rd := range rs {
				p, failure := parse(rd)
				if (failure == nil) != (wantFail == nil) {
					c.Fail("%q through %s: parsing gives %v, from a string %v", src, n, failure, wantFail)
					continue
				}
				if failure != nil {
					continue
				}
				got, err := eval(p)
				if (err == nil) != (wantErr == nil) || err == nil && !sameValue(got, want) {
					c.Fail("%q through %s: %v, %v; from a string %v, %v", src, n, got, err, want, wantErr)
				}
				c.Trace(1)
			}
			// A source that cannot be read to its end is not one.
			for i := 0; i <= len([]rune(src)); i++ {
				for _, e := range []error{errors.New("failure of a reader"), io.ErrUnexpectedEOF} {
					rd := &strictRunes{r: []rune(src), fail: i, err: e}
					p, failure := parse(rd)
					if failure == nil {
						_, err := eval(p)
						failure = err
						if err == nil {
							c.Fail("%q can be used though reading it fails with %v at rune %d", src, e, i)
						}
					}
					c.Trace(1)
				}
			}
			c.State(1)
			c.Step(1)
		},
	}
}
