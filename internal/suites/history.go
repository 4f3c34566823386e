package suites

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C14: histories.
func propC14() *mc.Property {
	return &mc.Property{ID: "C14", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Fields that the input does not carry (failed conditions) keep what the target held; cases of a switch that are not selected are reset.",
			"Byte slices that Unpack fills may share memory with its input.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			n := len(procOps())
			return []mc.Space{
				procHistories("histories in new processes", 2, n),
				typeHistories("histories on new types", 3, histAtoms),
				afterRejected("types after rejected types", core),
				afterRejected("types after rejected types of the same fields", catalog),
				switchedTargets("targets used before", 1, catalog),
				usedTargets("targets used before, pairs", 2, core),
				programHistories("expression programs used again", 3),
				retained("results stay what they were", catalog),
				manyTypes("many types", histAtoms),
				manyCalls("many calls", catalog),
				deep(procHistories("longer histories in new processes", 3, n)),
				deep(typeHistories("longer histories on new types", 4, histAtomsFew)),
				deep(usedTargets("targets used before, more pairs", 2, medium)),
				deep(programHistories("expression programs used again and again", 4)),
			}
		}}
}

// A hist is a history being run: everything handed out so far is kept, and
// must not change.
type hist struct {
	c    *mc.Ctx
	log  []string
	outs []retainedOut
	errs []error
}

type retainedOut struct {
	what      string
	got, copy []byte
}

func (h *hist) keep(what string, b []byte) {
	h.outs = append(h.outs, retainedOut{what, b, append([]byte(nil), b...)})
}

// done checks that results handed out earlier are what they were.
func (h *hist) done() {
	for _, o := range h.outs {
		if !bytes.Equal(o.got, o.copy) {
			h.c.Fail("the result of %s was %x, and is %x after other calls\n%s", o.what, o.copy, o.got, h)
		}
	}
}

func (h *hist) String() string {
	log, first := h.log, ""
	if n := len(log); n > 40 {
		log, first = log[n-40:], fmt.Sprintf("%d calls, then ", n-40)
	}
	return "history: " + first + strings.Join(log, "; ")
}

func (h *hist) fail(format string, args ...interface{}) {
	h.c.Fail("%s\n%s", fmt.Sprintf(format, args...), h)
}

// pack packs and compares with the model.
func (h *hist) pack(name string, o Order, v reflect.Value, byValue bool) {
	h.log = append(h.log, fmt.Sprintf("Pack %s of %s", o.Name, name))
	h.c.Step(1)
	h.c.Trace(1)
	m := &ref.Model{}
	mv := deepCopy(v)
	s, merr := m.Encode(mv, o.E)
	if merr == ref.ErrUnspecified {
		return
	}
	iv := deepCopy(v)
	x := iv.Addr().Interface()
	if byValue {
		x = iv.Interface()
	}
	var data []byte
	var err error
	safely(h.c, "Pack", h.String, func() { data, err = restruct.Pack(o.O, x) })
	if merr != nil {
		if err == nil {
			h.fail("Pack gives %x, expected the error %v", data, merr)
		}
		return
	}
	if err != nil {
		h.fail("Pack gives the error %v, expected %x", err, s.Bytes())
	}
	if !bytes.Equal(data, s.Bytes()) {
		h.fail("Pack gives %x, expected %x", data, s.Bytes())
	}
	h.keep(h.log[len(h.log)-1], data)
}

// unpack unpacks into a target, which holds the state of mtarget, and compares
// with the model.
func (h *hist) unpack(name string, o Order, data []byte, target, mtarget reflect.Value) {
	h.log = append(h.log, fmt.Sprintf("Unpack %s %x into %s", o.Name, data, name))
	h.c.Step(1)
	h.c.Trace(1)
	m := &ref.Model{}
	_, merr := m.Decode(data, mtarget, o.E)
	if merr == ref.ErrUnspecified {
		return
	}
	in := append([]byte(nil), data...)
	var err error
	safely(h.c, "Unpack", h.String, func() { err = restruct.Unpack(in, o.O, target.Addr().Interface()) })
	if merr != nil {
		if err == nil {
			h.fail("Unpack gives no error, expected %v", merr)
		}
		// What an incomplete input leaves behind is open.
		mtarget.Set(deepCopy(target))
		return
	}
	if err != nil {
		h.fail("Unpack gives the error %v, expected %s", err, ref.Show(mtarget))
	}
	if d := ref.Equal(target, mtarget); d != nil {
		h.fail("Unpack: %v\ngot      %s\nexpected %s", d, ref.Show(target), ref.Show(mtarget))
	}
}

func (h *hist) sizes(name string, v reflect.Value) {
	h.log = append(h.log, "SizeOf and BitSize of "+name)
	h.c.Step(2)
	h.c.Trace(2)
	m := &ref.Model{}
	s, merr := m.Encode(deepCopy(v), ref.Little)
	if merr != nil {
		return
	}
	iv := deepCopy(v)
	var n, b int
	var err, err2 error
	safely(h.c, "SizeOf", h.String, func() { n, err = restruct.SizeOf(iv.Addr().Interface()) })
	safely(h.c, "BitSize", h.String, func() { b, err2 = restruct.BitSize(iv.Addr().Interface()) })
	if err != nil || err2 != nil || b != len(s.Bit) || n != (b+7)/8 {
		h.fail("SizeOf is %d (%v), BitSize is %d (%v), expected %d bits", n, err, b, err2, len(s.Bit))
	}
}

// mustFail makes a call that has to give an error.
func (h *hist) mustFail(what string, f func() error) {
	h.log = append(h.log, what)
	h.c.Step(1)
	h.c.Trace(1)
	var err error
	safely(h.c, what, h.String, func() { err = f() })
	if err == nil {
		h.fail("%s gives no error", what)
	}
}

// Histories on types that nothing has seen before.

var histAtoms = append(pickAtoms(
	"u16", "u16-big", "int-as-i16", "u16:5", "i32:17", "u32:20le", "bool:1", "ivbool-i32",
	"str4", "str-sizeof", "str-sizefrom", "str-size", "arr-u16", "slice-as-arr", "arr-dyn", "arr-if", "bytes-sizeof", "u16s-sizefrom", "dyn-sizeof", "ptrs-sizeof", "size-expr", "slice-skip2", "bits-skip1",
	"ptr-u16", "ptr-struct", "ptr-dyn", "struct", "struct-if", "struct-big", "if", "if-bits", "bits-expr", "switch", "switch-nodef", "inout", "pad12bits", "unexported", "ignored", "parent",
), lastAtoms...)

var histAtomsFew = pickAtoms("u16-big", "i32:17", "str-sizeof", "dyn-sizeof", "size-expr", "arr-if", "ptr-dyn", "bits-expr", "switch", "inout")

var freshCounter int

// freshType builds a type that did not exist before.
func freshType(fields []fieldSpec) reflect.Type {
	freshCounter++
	f := append([]fieldSpec{}, fields...)
	tag := f[0].Tag
	f[0].Tag = tag + ` uniq:"` + strconv.Itoa(freshCounter) + `"`
	return StructOf(Atom{Fields: f})
}

var histOps = []string{"pack 1", "pack 2", "pack 2 by value", "unpack 1", "unpack 2", "unpack 1 cut off", "sizes 2", "pack wrapped", "unpack wrapped", "fail in wrapper", "eval"}

// typeHistories is the space of histories over types that are new.
func typeHistories(name string, depth int, atoms []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d calls (2 values, 2 byte orders, by pointer and by value, inside of a wrapper, cut off, failing) on types that are new in each history, for %d field kinds; the target of Unpack is used again", depth, len(histOps), len(atoms)),
		Run: func(c *mc.Ctx) {
			a := atoms[c.Choose(len(atoms))]
			var ops []int
			for i := 0; i < depth; i++ {
				ops = append(ops, c.Choose(len(histOps)))
			}
			c.Mine()
			h := &hist{c: c}
			c.Sample(h.String)
			c.State(depth)
			t := freshType(append(append([]fieldSpec{fs("Lead", uint16(0), "")}, StructOfFields(a)...), fs("Trail", uint8(0), "")))
			wf := []fieldSpec{fs("WN", uint8(0), "sizeof=WS"), {"WA", t, st("big")}, {"WS", reflect.SliceOf(t), ""}, fs("WZ", uint8(0), "")}
			if a.Last {
				wf = []fieldSpec{fs("WN", uint8(0), ""), {"WA", t, st("big")}}
			}
			w := freshType(wf)
			v := [2]reflect.Value{FillSimple(t, 1, 0), FillSimple(t, 2, 1)}
			wv := FillSimple(w, 3, 1)
			var data [2][]byte
			o := [2]Order{orders[0], orders[1]}
			for i := range v {
				s, err := (&ref.Model{}).Encode(deepCopy(v[i]), o[i].E)
				if err != nil {
					c.Fail("internal: %v", err)
				}
				data[i] = s.Bytes()
			}
			ws, err := (&ref.Model{}).Encode(deepCopy(wv), ref.Big)
			if err != nil {
				c.Fail("internal: %v", err)
			}
			var broken reflect.Type
			target, mtarget := reflect.New(t).Elem(), reflect.New(t).Elem()
			for _, op := range ops {
				switch histOps[op] {
				case "pack 1":
					h.pack("value 1", o[0], v[0], false)
				case "pack 2":
					h.pack("value 2", o[1], v[1], false)
				case "pack 2 by value":
					h.pack("value 2 by value", o[1], v[1], true)
				case "unpack 1":
					h.unpack("the target", o[0], data[0], target, mtarget)
				case "unpack 2":
					h.unpack("the target", o[1], data[1], target, mtarget)
				case "unpack 1 cut off":
					h.unpack("the target, cut off", o[0], data[0][:len(data[0])/2], target, mtarget)
				case "sizes 2":
					h.sizes("value 2", v[1])
				case "pack wrapped":
					h.pack("the wrapper", orders[1], wv, false)
				case "unpack wrapped":
					h.unpack("a wrapper", orders[1], ws.Bytes(), reflect.New(w).Elem(), reflect.New(w).Elem())
				case "fail in wrapper":
					if broken == nil {
						broken = freshType([]fieldSpec{{"BA", t, ""}, {"BP", reflect.PtrTo(w), ""}, fs("BC", uint8(0), "sizeof=Nope")})
					}
					x := reflect.New(broken).Interface()
					h.mustFail("Pack of a broken type", func() error { _, err := restruct.Pack(binary.BigEndian, x); return err })
					h.mustFail("Unpack of a broken type", func() error { return restruct.Unpack(bytes.Repeat([]byte{1}, 100), binary.BigEndian, x) })
					h.mustFail("SizeOf of a broken type", func() error { _, err := restruct.SizeOf(x); return err })
				case "eval":
					h.log = append(h.log, "evaluation of Lead")
					h.evalLead(v[0])
				}
			}
			h.done()
		},
	}
}

// afterRejected is the space of new types that are used after types with
// fields of the same names have been rejected.
func afterRejected(name string, atoms []Atom) mc.Space {
	plain := func(a Atom) (out []fieldSpec) {
		for _, f := range a.Fields {
			f.Name = strings.ReplaceAll(f.Name, "$", "")
			f.Tag = strings.ReplaceAll(f.Tag, "$", "")
			out = append(out, f)
		}
		return
	}
	var broken []fieldSpec
	for _, x := range []interface{}{uint8(0), []byte{}, "", inner{}} {
		for _, tag := range []string{"nope", "skip=x", "sizeof=Nope", "sizefrom=Nope", "sizefrom=S", "sizeof=S,uint8", "if=(", "-,lsb", "size=1", "bits=\"", "bits=3", "default,case=1,lsb,", "uint8:9"} {
			broken = append(broken, fieldSpec{"Broken", rt(x), quoteTag(tag)})
		}
	}
	other := []reflect.Type{rt(uint32(0)), rt([2]uint8{}), rt(inner{}), rt(map[string]int{})}
	cross := len(atoms) < len(catalog)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("types of %d kinds of fields, with one of %d malformed fields put in anywhere or one field of one of %d other types, used 2 times; then a new type of fields of the same names, of the same kind or of any: %v", len(atoms), len(broken), len(other), cross),
		Run: func(c *mc.Ctx) {
			a := atoms[c.Choose(len(atoms))]
			b := a
			if cross {
				b = atoms[c.Choose(len(atoms))]
			}
			c.Mine()
			h := &hist{c: c}
			c.Sample(h.String)
			c.State(2)
			fields := plain(a)
			at := c.Choose(len(fields) + 1)
			if k := c.Choose(len(broken) + len(other)); k < len(broken) {
				fields = append(fields[:at:at], append([]fieldSpec{broken[k]}, fields[at:]...)...)
			} else {
				if at == len(fields) || fields[at].Name == "_" {
					c.Prune()
				}
				fields[at].Type = other[k-len(broken)]
			}
			x := reflect.New(freshType(fields))
			if err := safeFill(x.Elem()); err != nil {
				c.Prune()
			}
			var first [3]string
			for i := 0; i < 2; i++ {
				var now [3]string
				data, err := pack(c, &Case{}, "of a type that may be rejected", orders[0].O, deepCopy(x.Elem()).Addr().Interface())
				now[0] = fmt.Sprint(data, err != nil)
				n, bits, err := sizes(c, &Case{}, "of a type that may be rejected", x.Interface())
				now[1] = fmt.Sprint(n, bits, err != nil)
				y := reflect.New(x.Elem().Type())
				err = unpack(c, &Case{}, "of a type that may be rejected", bytes.Repeat([]byte{1}, 100), orders[0].O, y.Interface())
				now[2] = fmt.Sprint(err != nil)
				h.log = append(h.log, fmt.Sprintf("Pack, SizeOf, Unpack of %s: %q", x.Elem().Type(), now))
				if i == 0 {
					first = now
				} else if first != now {
					h.fail("the results are not those of the first time")
				}
			}
			good := freshType(append([]fieldSpec{fs("Lead", uint16(0), "")}, plain(b)...))
			v := FillSimple(good, 1, 1)
			s, err := (&ref.Model{}).Encode(deepCopy(v), ref.Big)
			if err != nil {
				c.Fail("internal: %v", err)
			}
			h.sizes("a new type", v)
			h.pack("a new type", orders[1], v, false)
			h.unpack("a new type", orders[1], s.Bytes(), reflect.New(good).Elem(), reflect.New(good).Elem())
			h.done()
		},
	}
}

var typeCounts = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049}

// manyTypes is the space of histories of many new types.
func manyTypes(name string, atoms []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%v new types, of all of %d kinds of fields in turns, each used when it is new and once more after the last, in the same order or backwards, 2 values, packed, measured and unpacked, or first packed and then unpacked, between them none, rejected types or expressions", typeCounts, len(atoms)),
		Run: func(c *mc.Ctx) {
			n := typeCounts[c.Choose(len(typeCounts))]
			back := c.Bool()
			half := c.Bool()
			between := c.Choose(3)
			from := c.Choose(2) * len(atoms) / 2
			c.Mine()
			h := &hist{c: c}
			c.Sample(h.String)
			c.State(n)
			ts := make([]reflect.Type, n)
			use := func(i, round int) {
				t := ts[i]
				v := FillSimple(t, round+i%2, round%2)
				o := orders[(i+round)%2]
				if !half || round == 0 {
					h.pack("type "+itoa(i), o, v, i%3 == 1)
				}
				if !half {
					h.sizes("type "+itoa(i), v)
				}
				if !half || round == 1 {
					s, err := (&ref.Model{}).Encode(deepCopy(v), o.E)
					if err != nil {
						c.Fail("internal: %v", err)
					}
					h.unpack("type "+itoa(i), o, s.Bytes(), reflect.New(t).Elem(), reflect.New(t).Elem())
				}
				switch between {
				case 1:
					x := reflect.New(freshType([]fieldSpec{{"BA", t, ""}, fs("BC", uint8(0), "sizeof=Nope")})).Interface()
					h.mustFail("Pack of a broken type", func() error { _, err := restruct.Pack(binary.BigEndian, x); return err })
				case 2:
					h.evalLead(v)
				}
			}
			for i := range ts {
				a := atoms[(i+from)%len(atoms)]
				ts[i] = freshType(append(append([]fieldSpec{fs("Lead", uint16(0), "")}, StructOfFields(a)...), fs("Trail", uint8(0), "")))
				if a.Last {
					ts[i] = freshType(append([]fieldSpec{fs("Lead", uint16(0), "")}, StructOfFields(a)...))
				}
				use(i, 0)
			}
			for i := range ts {
				if back {
					i = n - 1 - i
				}
				use(i, 1)
			}
			h.done()
		},
	}
}

var callCounts = []int{100, 255, 256, 257, 1023, 1024, 1025, 5000}

// manyCalls is the space of histories of one call made again and again.
func manyCalls(name string, atoms []Atom) mc.Space {
	calls := []string{"pack", "pack by value", "sizes", "unpack", "unpack into the same", "unpack cut off", "all in turns"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("one call of %d made %v times in a row on a new type of %d kinds of fields, each time compared with the model; then each of the others", len(calls), callCounts[:5], len(atoms)) + fmt.Sprintf(" (up to %d times for %d kinds)", callCounts[len(callCounts)-1], len(core)),
		Run: func(c *mc.Ctx) {
			a := atoms[c.Choose(len(atoms))]
			call := c.Choose(len(calls))
			c.Mine()
			n := callCounts[3]
			if call == 6 {
				n = callCounts[4]
			}
			for _, x := range core {
				if x.Name == a.Name && call == 6 {
					n = callCounts[7]
				}
			}
			h := &hist{c: c}
			c.Sample(h.String)
			c.State(n)
			t := freshType(StructOfFields(a))
			if !a.Last {
				t = freshType(append(StructOfFields(a), fs("Trail", uint8(0), "")))
			}
			v := [2]reflect.Value{FillSimple(t, 1, 0), FillSimple(t, 2, 1)}
			var data [2][]byte
			for i := range v {
				s, err := (&ref.Model{}).Encode(deepCopy(v[i]), orders[i].E)
				if err != nil {
					c.Fail("internal: %v", err)
				}
				data[i] = s.Bytes()
			}
			target, mtarget := reflect.New(t).Elem(), reflect.New(t).Elem()
			one := func(call, i int) {
				i %= 2
				switch calls[call] {
				case "pack":
					h.pack("a value", orders[i], v[i], false)
				case "pack by value":
					h.pack("a value, by value", orders[i], v[i], true)
				case "sizes":
					h.sizes("a value", v[i])
				case "unpack":
					h.unpack("a new target", orders[i], data[i], reflect.New(t).Elem(), reflect.New(t).Elem())
				case "unpack into the same":
					h.unpack("the target", orders[i], data[i], target, mtarget)
				case "unpack cut off":
					h.unpack("the target, cut off", orders[i], data[i][:len(data[i])/2], target, mtarget)
				}
			}
			for i := 0; i < n; i++ {
				if call == 6 {
					one(i%6, i/6)
				} else {
					one(call, i)
				}
				if len(h.log) > 1000 {
					h.log = append([]string{"..."}, h.log[900:]...)
				}
				if len(h.outs) > 50 {
					h.done()
					h.outs = h.outs[25:]
				}
			}
			for i := 0; i < 12; i++ {
				one(i%6, i/6)
			}
			h.done()
		},
	}
}

// safeFill fills a value if its type makes sense.
func safeFill(v reflect.Value) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if isEngine(r) {
				panic(r)
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	saturateAll(v, 1)
	return nil
}

// StructOfFields are the fields of an atom, named.
func StructOfFields(a Atom) []fieldSpec {
	var out []fieldSpec
	for _, f := range a.Fields {
		f.Name = strings.ReplaceAll(f.Name, "$", "Q")
		f.Tag = strings.ReplaceAll(f.Tag, "$", "Q")
		out = append(out, f)
	}
	return out
}

type valueResolver struct{ v expr.Value }

func (r valueResolver) Resolve(ident string) expr.Value {
	if ident == "X" {
		return r.v
	}
	return nil
}

// evalLead evaluates an expression on a struct value. Types that expressions
// cannot represent are left out.
func (h *hist) evalLead(v reflect.Value) {
	defer func() {
		if r := recover(); r != nil {
			if isEngine(r) {
				panic(r)
			}
			if r != expr.ErrNotRepresentable {
				h.fail("panic in an expression: %v", r)
			}
		}
	}()
	x, err := expr.Eval(valueResolver{expr.ValueOf(v.Interface())}, "X.Lead + X.Lead")
	if err != nil {
		if errors.Is(err, expr.ErrNotRepresentable) {
			return
		}
		h.fail("evaluation gives the error %v", err)
	}
	if want := 2 * uint16(v.Field(0).Uint()); x != want {
		h.fail("evaluation gives %v, expected %v", x, want)
	}
}

// Targets.

// switchedTargets unpacks two encodings one after the other into the same
// target: every pair of values.
func switchedTargets(name string, n int, atoms []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds x all pairs of 12 values, unpacked one after the other into one target, the second complete and cut off, then the first again; targets full of other contents", len(atoms)),
		Run: func(c *mc.Ctx) {
			a := atoms[c.Choose(len(atoms))]
			c.Mine()
			t := typeOf([]Atom{a, sentinel})
			if a.Last {
				t = typeOf([]Atom{a})
			}
			first, second := c.Choose(12), c.Choose(12)
			oi := c.Choose(2)
			o := orders[oi]
			h := &hist{c: c}
			c.Sample(h.String)
			enc := func(i int) []byte {
				s, err := (&ref.Model{}).Encode(FillSimple(t, patternAt(i/3), i%3), o.E)
				if err != nil {
					c.Fail("internal: %v", err)
				}
				return s.Bytes()
			}
			d1, d2 := enc(first), enc(second)
			for used := 0; used < 2; used++ {
				c.State(1)
				target := reflect.New(t).Elem()
				if used > 0 {
					saturate(target, first, 0)
				}
				mtarget := deepCopy(target)
				h.log = h.log[:0]
				h.unpack("the target", o, d1, target, mtarget)
				h.unpack("the target again", o, d2, target, mtarget)
				if len(d2) > 0 && !usesEOF(t) {
					h.unpack("the target, cut off", o, d2[:len(d2)-1], target, mtarget)
				}
				h.unpack("the target again", o, d1, target, mtarget)
				h.pack("the target", o, target, false)
			}
			h.done()
		},
	}
}

// usedTargets is the space of structs unpacked into used values.
func usedTargets(name string, n int, atoms []Atom) mc.Space {
	s := sequences(name, atoms, n, orders, 2, []int{0, 2}, fDirty|fRepeat|fPack, nil)
	s.Bounds += "; unpacked into 3 used targets, packed twice"
	return s
}

// retained is the space of results that are kept while their sources change.
func retained(name string, atoms []Atom) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d field kinds x 3 values: packed data stays the same when the value, later results or the input change, and the other way round; copies of a target stay the same when it is used again", len(atoms)),
		Run: func(c *mc.Ctx) {
			a := atoms[c.Choose(len(atoms))]
			c.Mine()
			i := c.Choose(3)
			c.State(1)
			t := typeOf([]Atom{a, sentinel})
			if a.Last {
				t = typeOf([]Atom{a})
			}
			v := FillSimple(t, 1, i)
			desc := func() string { return "type " + ref.ShowType(t) + " value " + ref.Show(v) }
			x := deepCopy(v)
			d1, err := restruct.Pack(binary.LittleEndian, x.Addr().Interface())
			c.Trace(6)
			c.Step(6)
			if err != nil {
				c.Fail("Pack: %v\n%s", err, desc())
			}
			was := append([]byte(nil), d1...)
			after := deepCopy(x)
			// The result is the caller's.
			for j := range d1 {
				d1[j] ^= 0xff
			}
			if d := ref.Equal(x, after); d != nil {
				c.Fail("the value changes with the packed data: %v\n%s", d, desc())
			}
			d2, err := restruct.Pack(binary.LittleEndian, x.Addr().Interface())
			if err != nil || !bytes.Equal(d2, was) {
				c.Fail("packing again after changing the first result gives %x (%v), was %x\n%s", d2, err, was, desc())
			}
			if cap(d1) > len(d1) {
				for j := range d1[:cap(d1)] {
					d1[:cap(d1)][j] = 0xee
				}
				if !bytes.Equal(d2, was) {
					c.Fail("results of Pack share memory\n%s", desc())
				}
			}
			// Appending to a result must not reach anything else.
			_ = append(d2, 1, 2, 3)
			d3, err := restruct.Pack(binary.BigEndian, x.Addr().Interface())
			if err != nil || !bytes.Equal(d2, was) {
				c.Fail("a later Pack changes an earlier result from %x to %x (%v)\n%s", was, d2, err, desc())
			}
			_ = d3
			// The value may change later.
			saturateAll(x, i)
			if !bytes.Equal(d2, was) {
				c.Fail("changing the value changes data packed earlier from %x to %x\n%s", was, d2, desc())
			}
			// Two results of Unpack from different inputs share nothing.
			u1, u2 := reflect.New(t).Elem(), reflect.New(t).Elem()
			e1 := restruct.Unpack(append([]byte(nil), was...), binary.LittleEndian, u1.Addr().Interface())
			keep := deepCopy(u1)
			e2 := restruct.Unpack(append([]byte(nil), was...), binary.LittleEndian, u2.Addr().Interface())
			if e1 != nil || e2 != nil {
				c.Fail("Unpack: %v %v\n%s", e1, e2, desc())
			}
			saturateAll(u2, i+1)
			if d := ref.Equal(u1, keep); d != nil {
				c.Fail("changing one unpacked value changes another: %v\n%s", d, desc())
			}
			// What an earlier call gave stays when the target is used again.
			for j := 1; j < 3; j++ {
				next, err := (&ref.Model{}).Encode(FillSimple(t, 2, (i+j)%3), ref.Little)
				if err != nil {
					c.Fail("internal: %v", err)
				}
				for _, data := range [][]byte{next.Bytes(), was} {
					kept := reflect.New(t).Elem()
					kept.Set(u1)
					content := deepCopy(kept)
					if err := restruct.Unpack(append([]byte(nil), data...), binary.LittleEndian, u1.Addr().Interface()); err != nil {
						c.Fail("Unpack: %v\n%s", err, desc())
					}
					if d := ref.Equal(kept, content); d != nil {
						c.Fail("unpacking %x into the same target changes a copy of what was there: %v\n%s", data, d, desc())
					}
				}
			}
			u3 := reflect.New(t).Elem()
			if err := restruct.Unpack(append([]byte(nil), was...), binary.LittleEndian, u3.Addr().Interface()); err != nil {
				c.Fail("Unpack: %v\n%s", err, desc())
			}
			if d := ref.Equal(u3, keep); d != nil {
				c.Fail("unpacking again after changing an earlier result: %v\n%s", d, desc())
			}
		},
	}
}

// saturateAll overwrites everything that can be reached in place.
func saturateAll(v reflect.Value, k int) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Kind() != reflect.Struct {
			saturateAll(v.Elem(), k)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			saturateAll(v.Index(i), k)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			tag := v.Type().Field(i).Tag.Get("struct")
			if v.Field(i).CanSet() && tag != "root" && tag != "parent" {
				saturateAll(v.Field(i), k)
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		setInteger(v, uint64(0x71+k))
	}
}

// Expressions.

var histPrograms = []string{
	"A", "A + B", "A * 2 + B", "A == B", "A < B && B != 0", "A / B", "-A", "A << 2", "S.X + A", "S.Y[A]", "S.P.X", "L[A] + L[B]", "len(L)", "F(A)", "bits.Len8(A)", "A == 1 ? B : A", "T == \"x\"", "A != 1 || B / (A - 1) == 0", "(A + 1) * (B + 1)", "nil == S.P", "A + 1 == B",
}

type histS struct {
	X uint8
	Y [3]uint8
	P *histS
}

type histS2 struct {
	Y []uint8
	X uint8
	P *histS2
}

// histEnvs are environments for the same programs: other values, other types,
// missing names.
var histEnvs = []map[string]interface{}{
	{"A": uint8(1), "B": uint8(2), "S": histS{X: 5, Y: [3]uint8{7, 8, 9}}, "L": []uint8{3, 4, 5}, "T": "x", "F": func(x uint8) uint8 { return x + 1 }},
	{"A": uint8(2), "B": uint8(0), "S": histS{X: 6, Y: [3]uint8{1, 2, 3}, P: &histS{X: 4}}, "L": []uint8{9}, "T": "y", "F": func(x uint8) uint8 { return x * 2 }},
	{"A": int64(1), "B": int64(-3), "S": histS2{X: 1, Y: []uint8{1, 1}}, "L": []int64{6, 7}, "T": "x", "F": func(x int64) int64 { return -x }},
	{"A": uint16(1), "B": uint16(1), "S": histS2{X: 2, Y: []uint8{4, 3, 2}, P: &histS2{X: 9}}, "L": [2]uint16{500, 600}, "T": uint8(1), "F": func(x uint16) bool { return x > 0 }},
	{"B": uint8(1), "S": histS{}, "T": "", "L": nil},
	{},
}

type mapResolver struct {
	m    map[string]interface{}
	bits expr.Value
}

func (r mapResolver) Resolve(ident string) expr.Value {
	if ident == "bits" {
		return r.bits
	}
	if v, ok := r.m[ident]; ok && v != nil {
		return expr.ValueOf(v)
	}
	return nil
}

// programHistories is the space of sequences of evaluations of one program.
func programHistories(name string, depth int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d programs x all sequences of %d of %d environments (other values, other types, missing names) for one parsed program", len(histPrograms), depth, len(histEnvs)),
		Run: func(c *mc.Ctx) {
			src := histPrograms[c.Choose(len(histPrograms))]
			var seq []int
			for i := 0; i < depth; i++ {
				seq = append(seq, c.Choose(len(histEnvs)))
			}
			c.Mine()
			desc := func() string { return fmt.Sprintf("%s evaluated in environments %v", src, seq) }
			c.Sample(desc)
			c.State(depth)
			p := expr.ParseString(src)
			for _, e := range seq {
				env := histEnvs[e]
				want, werr := ref.EvalString(src, func(n string) (interface{}, bool) {
					if n == "bits" {
						return ref.BitsPkg(), true
					}
					v, ok := env[n]
					return v, ok && v != nil
				})
				if werr == ref.ErrUnspecified {
					continue
				}
				var got interface{}
				var err error
				func() {
					// The resolver makes values out of the environment.
					defer func() {
						if r := recover(); r != nil {
							if isEngine(r) {
								panic(r)
							}
							err = fmt.Errorf("%v", r)
						}
					}()
					got, err = expr.EvalProgram(mapResolver{env, bitsValue()}, p)
				}()
				c.Step(1)
				c.Trace(1)
				if werr != nil {
					if err == nil {
						c.Fail("gives %v in environment %d, expected the error %v\n%s", got, e, werr, desc())
					}
					continue
				}
				if err != nil {
					c.Fail("gives the error %v in environment %d, expected %v\n%s", err, e, want, desc())
				}
				if !reflect.DeepEqual(got, want) {
					c.Fail("gives %v (%T) in environment %d, expected %v (%T)\n%s", got, got, e, want, want, desc())
				}
			}
		},
	}
}

// Histories in new processes: every cache is empty, whatever it is.

// Types with the same name.
func sameName1() reflect.Type {
	type Header struct {
		A uint8
		B uint16
		N uint8 `struct:"sizeof=S"`
		S []uint8
	}
	return rt(Header{})
}

func sameName2() reflect.Type {
	type Header struct {
		A uint16 `struct:"big"`
		N uint8  `struct:"uint8:4"`
		B uint8  `struct:"uint8:4,sizeof=S"`
		S []uint16
	}
	return rt(Header{})
}

func sameName3() reflect.Type {
	type Header struct {
		A uint8  `struct:"skip=1"`
		B uint16 `struct:"if=A == 1"`
		S string `struct:"[3]byte"`
	}
	return rt(Header{})
}

func sameName4() reflect.Type {
	type Header struct {
		A uint8
		B uint16 `struct:"sizeof=Nope"`
	}
	return rt(Header{})
}

type (
	// Types that convert into each other.
	plainT  struct{ A, B uint16 }
	taggedT struct {
		A uint16 `struct:"uint8"`
		B uint16 `struct:"big"`
	}
	namedPlain plainT

	histItem struct {
		K uint8  `struct:"uint8:4" mc:"0,1"`
		L uint8  `struct:"uint8:4"`
		V uint16 `struct:"if=K == 1,big"`
	}
	histList struct {
		N     uint8 `struct:"sizeof=Items"`
		Items []histItem
		T     uint8
	}
	histOuter struct {
		A    histList
		B    *histList
		Up   *histOuter `struct:"root"`
		Pick uint8      `mc:"1,2,9"`
		Body switchBody `struct:"switch=Pick"`
		Tail []byte     `struct:"size=Pick"`
	}
	histBroken struct {
		A histList
		B *histOuter
		C histItem
		D uint8 `struct:"if=Nope"`
	}
	histBroken2 struct {
		A histItem
		B uint8 `struct:"nonsense"`
	}
	histCustom struct {
		A cPtr
		B []cPtr `struct:"size=2"`
		C histItem
	}
)

type procOp struct {
	name string
	run  func(h *hist)
}

var procTypes = []struct {
	name string
	t    reflect.Type
	bad  bool
}{
	{"Header 1", sameName1(), false},
	{"Header 2", sameName2(), false},
	{"Header 3", sameName3(), false},
	{"Header 4 (broken)", sameName4(), true},
	{"plainT", rt(plainT{}), false},
	{"taggedT", rt(taggedT{}), false},
	{"namedPlain", rt(namedPlain{}), false},
	{"histItem", rt(histItem{}), false},
	{"histList", rt(histList{}), false},
	{"histOuter", rt(histOuter{}), false},
	{"histBroken", rt(histBroken{}), true},
	{"histBroken2", rt(histBroken2{}), true},
	{"histCustom", rt(histCustom{}), false},
	{"rcSlice", rt(rcSlice{}), false},
}

func procValue(t reflect.Type, pattern, nth int) reflect.Value {
	if t == rt(rcSlice{}) {
		x := rcSlice{V: uint8(pattern), N: 2, Kids: []rcSlice{{V: 7}, {V: uint8(nth), N: 1, Kids: []rcSlice{{V: 9}}}}}
		return reflect.ValueOf(&x).Elem()
	}
	return FillSimple(t, pattern, nth)
}

// procOps are the calls that histories in processes are made of.
func procOps() []procOp {
	var ops []procOp
	for i := range procTypes {
		p := procTypes[i]
		if p.bad {
			ops = append(ops, procOp{"Pack and Unpack " + p.name, func(h *hist) {
				x := reflect.New(p.t).Interface()
				h.mustFail("Pack of "+p.name, func() error { _, err := restruct.Pack(binary.BigEndian, x); return err })
				h.mustFail("Unpack of "+p.name, func() error { return restruct.Unpack(bytes.Repeat([]byte{1}, 100), binary.BigEndian, x) })
			}})
			continue
		}
		ops = append(ops, procOp{"Pack " + p.name, func(h *hist) {
			h.pack(p.name, orders[0], procValue(p.t, 1, 1), false)
			h.pack(p.name+" by value", orders[1], procValue(p.t, 2, 0), true)
		}}, procOp{"Unpack " + p.name, func(h *hist) {
			v := procValue(p.t, 2, 2)
			s, err := (&ref.Model{}).Encode(v, ref.Big)
			if err != nil {
				h.fail("internal: %v", err)
			}
			d := s.Bytes()
			target, mtarget := reflect.New(p.t).Elem(), reflect.New(p.t).Elem()
			h.unpack(p.name+", cut off", orders[1], d[:len(d)/2], target, mtarget)
			h.unpack(p.name, orders[1], d, target, mtarget)
		}}, procOp{"SizeOf " + p.name, func(h *hist) {
			h.sizes(p.name, procValue(p.t, 1, 0))
		}})
	}
	ops = append(ops, procOp{"Eval", func(h *hist) {
		h.log = append(h.log, "evaluations")
		for _, i := range []int{0, 7, 9, 10, 14} {
			for e := 0; e < 4; e++ {
				h.evalOnce(histPrograms[i], e)
			}
		}
	}})
	return ops
}

func (h *hist) evalOnce(src string, e int) {
	env := histEnvs[e]
	want, werr := ref.EvalString(src, func(n string) (interface{}, bool) {
		if n == "bits" {
			return ref.BitsPkg(), true
		}
		v, ok := env[n]
		return v, ok && v != nil
	})
	if werr == ref.ErrUnspecified {
		return
	}
	h.c.Trace(1)
	got, err := expr.Eval(mapResolver{env, bitsValue()}, src)
	if werr != nil {
		if err == nil {
			h.fail("%s gives %v in environment %d, expected the error %v", src, got, e, werr)
		}
		return
	}
	if err != nil || !reflect.DeepEqual(got, want) {
		h.fail("%s gives %v (%T, %v) in environment %d, expected %v", src, got, got, err, e, want)
	}
}

// bitsValue is a package of functions for expressions.
func bitsValue() expr.Value {
	m := map[string]expr.Value{}
	for n, f := range ref.BitsPkg() {
		m[n] = expr.ValueOf(f)
	}
	return expr.ValueOf(expr.NewPackage(m))
}

// HistoryMain runs one history, if this process is made for it: the calls that
// are named, then every call there is.
func HistoryMain() bool {
	s := os.Getenv("MC_HISTORY")
	if s == "" {
		return false
	}
	var r noExprResult
	c := mc.Collector(func(msg string) {
		if len(r.Fail) < 3 {
			r.Fail = append(r.Fail, msg)
		}
	})
	ops := procOps()
	h := &hist{c: c}
	try := func(f func()) {
		defer func() {
			if x := recover(); x != nil && !isEngine(x) {
				r.Fail = append(r.Fail, fmt.Sprint(x))
			}
		}()
		f()
	}
	seq := strings.Split(s, ",")
	back := seq[0] == "back"
	for _, f := range seq[1:] {
		i, err := strconv.Atoi(f)
		if err != nil {
			panic(err)
		}
		try(func() { ops[i].run(h) })
	}
	for i := range ops {
		if back {
			i = len(ops) - 1 - i
		}
		try(func() { ops[i].run(h) })
	}
	try(h.done)
	r.States = int64(len(seq) - 1 + len(ops))
	_, r.Calls = c.Counts()
	json.NewEncoder(os.Stdout).Encode(r)
	return true
}

// procHistories is the space of histories that begin with a new process.
func procHistories(name string, depth, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d calls, each followed by all calls in order or in reverse, in a process of its own; types of the same name, of the same underlying type, sharing elements, broken ones", depth, n),
		Run: func(c *mc.Ctx) {
			dir := []string{"forth", "back"}[c.Choose(2)]
			seq := []string{dir}
			for i := 0; i < depth; i++ {
				seq = append(seq, strconv.Itoa(c.Choose(n)))
			}
			c.Mine()
			r := child(c, "MC_HISTORY="+strings.Join(seq, ","))
			c.State(int(r.States))
			c.Step(int(r.Calls))
			c.Trace(int(r.Calls))
			if len(r.Fail) > 0 {
				c.Fail("%s", strings.Join(r.Fail, "\n"))
			}
		},
	}
}

// child runs this program in another mode.
func child(c *mc.Ctx, env string) (r noExprResult) {
	exe, err := os.Executable()
	if err != nil {
		c.Fail("internal: %v", err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), env, "GOMAXPROCS=2")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil {
		s := errb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		c.Fail("the process %s ends with %v\n%s", env, err, s)
	}
	return r
}
