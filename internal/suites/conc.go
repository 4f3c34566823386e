package suites

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	format "github.com/go-restruct/restruct/formats/png"

	"verif/internal/mc"
	"verif/internal/ref"
	"verif/shim/sched"
)

// C13: schedules. The check script builds this program with the race detector
// and against an instrumented copy of the library (see cmd/instrument), in
// which every synchronisation operation is a decision of the scheduler.
func propC13() *mc.Property {
	return &mc.Property{ID: "C13", Technique: "stateless model checking of the implementation: every schedule up to a preemption bound under a cooperative scheduler, with happens-before race detection in each", Level: "model_checking",
		LevelNote: "Bounded: everything up to the stated bounds is covered, nothing beyond them. The library is instrumented mechanically: sync and sync/atomic operations become scheduling points, and package variables are restored before each schedule.",
		Assumptions: []string{
			"Memory accesses between synchronisation operations cannot be observed by other goroutines without a data race, which the race detector reports in some schedule.",
			"Expected results are those of the same calls made alone, on a fresh state; other checks compare these with the models.",
		},
		NoMemLimit:  true,
		CaseTimeout: 10 * time.Minute,
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			quick := func(s mc.Space) mc.Space { s.Quick = true; return s }
			n := len(concOps)
			return []mc.Space{
				quick(concCalls("two goroutines", []int{1, 1}, 2, n)),
				quick(concCalls("two goroutines, two calls and one", []int{2, 1}, 1, concCore)),
				quick(concCalls("three goroutines", []int{1, 1, 1}, 1, concCore)),
				quick(concTypes("two goroutines, every kind of field", 1)),
				deep(concTypes("two goroutines, every kind of field, more preemptions", 2)),
				deep(concCalls("two goroutines, two calls each", []int{2, 2}, 1, concCore)),
				deep(concCalls("two goroutines, two calls and one, more preemptions", []int{2, 1}, 2, concCore)),
				deep(concCalls("three goroutines, all", []int{1, 1, 1}, 1, n)),
				deep(concCalls("two goroutines, more preemptions", []int{1, 1}, 3, concCore)),
			}
		}}
}

type (
	conInner struct {
		N uint8 `struct:"uint8,sizeof=D"`
		D []byte
		V uint16 `struct:"big"`
	}
	conFlat struct {
		A uint16
		B int32  `struct:"int16,big"`
		C string `struct:"[4]byte"`
		F uint8  `struct:"uint8:3"`
		G uint8  `struct:"uint8:5"`
	}
	conOuter struct {
		N  uint16 `struct:"uint16,little,sizeof=L"`
		In conInner
		L  []conInner
		P  *conFlat
		T  [2]conFlat
	}
	conExpr struct {
		K  uint8
		X  uint32 `struct-if:"K == 1"`
		In conExprIn
		S  []uint16 `struct-size:"K * 2 + In.N"`
		W  struct {
			A conFlat `struct-case:"1"`
			B uint8   `struct-case:"2" struct:"default"`
		} `struct-switch:"K"`
		Y uint8 `struct-out:"K + 1" struct-in:"Y + 0"`
	}
	conExprIn struct {
		N uint8
		Z uint16 `struct-if:"N != 0"`
	}
	conIn64 struct{ N uint8 }
	conTree struct {
		N    uint8 `struct:"uint8,sizeof=Kids"`
		Kids []conTree
	}
	conList struct {
		More uint8
		Next *conList `struct-if:"More != 0"`
	}
	conBroken struct {
		In conInner
		X  uint8 `struct:"uint8,sizeof=Nope"`
	}
	conBrokenOuter struct {
		F conFlat
		B conBroken
		O conOuter
	}
	conHolder struct {
		A uint8
		C conCustom
		D conFlat
	}
	conA struct {
		B  *conB
		Bs []conB
		In conInner
	}
	conB struct {
		A  *conA
		Aa [2]*conA
		N  int
		F  conFlat
	}
)

// conFuncs uses the functions there are.
type conFuncs struct {
	N uint8
	S []byte `struct:"size=bits.Len8(N)"`
	M uint16
	T uint8  `struct:"if=bits.OnesCount16(M) > 1"`
	U []byte `struct:"size=bits.TrailingZeros16(M)"`
}

func conFuncsV() interface{} { return &conFuncs{2, []byte{1, 2}, 6, 7, []byte{8}} }

// conCustom packs itself with the library.
type conCustom struct{ V conInner }

func (c *conCustom) SizeOf() int { n, _ := restruct.SizeOf(&c.V); return n }
func (c *conCustom) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	b, err := restruct.Pack(o, &c.V)
	if err != nil {
		return nil, err
	}
	return buf[copy(buf, b):], nil
}
func (c *conCustom) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if err := restruct.Unpack(buf, o, &c.V); err != nil {
		return nil, err
	}
	n, err := restruct.SizeOf(&c.V)
	return buf[n:], err
}

// A concEnv is shared by the goroutines of a run.
type concEnv struct {
	prog  *expr.Program
	prog2 *expr.Program
	types reflect.Type
	res   expr.Resolver
}

// A concResult is what a call gives.
type concResult struct {
	data  []byte
	val   interface{}
	n     int
	err   error
	panic interface{}
}

func (r concResult) String() string {
	s := ""
	if r.panic != nil {
		s = fmt.Sprintf("panic %v ", r.panic)
	}
	if r.err != nil {
		return s + "an error"
	}
	if r.data != nil {
		s += fmt.Sprintf("data %x ", r.data)
	}
	if r.val != nil {
		s += "value " + ref.Show(reflect.ValueOf(r.val)) + " "
	}
	return s + fmt.Sprint(r.n)
}

type concOp struct {
	name  string
	run   func(e *concEnv) concResult
	fails bool
}

func concPack(o binary.ByteOrder, x func() interface{}) func(e *concEnv) concResult {
	return func(e *concEnv) (r concResult) {
		r.data, r.err = restruct.Pack(o, x())
		return
	}
}

func concUnpack(o binary.ByteOrder, data string, x func() interface{}) func(e *concEnv) concResult {
	return func(e *concEnv) (r concResult) {
		v := x()
		r.err = restruct.Unpack([]byte(data), o, v)
		r.val = v
		return
	}
}

func concSize(x func() interface{}) func(e *concEnv) concResult {
	return func(e *concEnv) (r concResult) {
		r.n, r.err = restruct.SizeOf(x())
		return
	}
}

func concBits(x func() interface{}) func(e *concEnv) concResult {
	return func(e *concEnv) (r concResult) {
		r.n, r.err = restruct.BitSize(x())
		return
	}
}

func conInnerV(k byte) conInner { return conInner{2, []byte{k, k + 1}, 0x0102} }
func conFlatV() conFlat         { return conFlat{0x0102, -2, "abc\x00", 5, 17} }
func conOuterV() interface{} {
	f := conFlatV()
	return &conOuter{2, conInnerV(1), []conInner{conInnerV(3), conInnerV(5)}, &f, [2]conFlat{f, f}}
}
func conExprV() interface{} {
	v := &conExpr{K: 1, X: 7, In: conExprIn{1, 9}, S: []uint16{1, 2, 3}}
	v.W.A = conFlatV()
	return v
}
func conTreeV() interface{} {
	return &conTree{2, []conTree{{1, []conTree{{}}}, {}}}
}
func conListV() interface{} { return &conList{1, &conList{1, &conList{}}} }
func conHolderV() interface{} {
	return &conHolder{7, conCustom{conInnerV(8)}, conFlatV()}
}

func concTypeOf(xs ...interface{}) func(e *concEnv) concResult {
	return func(e *concEnv) (r concResult) {
		for _, x := range xs {
			t := expr.TypeOf(x)
			if r.err = describes(t, reflect.TypeOf(x), 6); r.err != nil {
				r.panic = r.err
				return
			}
		}
		return
	}
}

type conResolver struct{ x interface{} }

func (r conResolver) Resolve(name string) expr.Value {
	if name == "X" {
		return expr.ValueOf(r.x)
	}
	return nil
}

// The first concCore operations are the ones that interfere most.
const concCore = 7

var concOps = []concOp{
	{"Pack of nested structs", concPack(binary.LittleEndian, conOuterV), false},
	{"Unpack of structs with expressions", concUnpack(binary.LittleEndian, "\x01\x07\x00\x00\x00\x01\x09\x00\x01\x00\x02\x00\x03\x00\x02\x01\xff\xfeabc\x00\xb1\x03\x00", func() interface{} { return &conExpr{} }), false},
	{"TypeOf of types that refer to each other", concTypeOf(conA{}, conB{}), false},
	{"Pack of a broken type", concPack(binary.BigEndian, func() interface{} { return &conBrokenOuter{} }), true},
	{"evaluation of a shared program", func(e *concEnv) (r concResult) {
		r.val, r.err = expr.EvalProgram(conResolver{conExpr{K: 1, In: conExprIn{N: 3}, S: []uint16{5, 6}}}, e.prog)
		return
	}, false},
	{"SizeOf of nested structs", concSize(conOuterV), false},
	{"Unpack of inner structs", concUnpack(binary.BigEndian, "\x02ab\x00\x05", func() interface{} { return &conInner{} }), false},

	{"Pack of structs with expressions", concPack(binary.BigEndian, conExprV), false},
	{"Unpack of nested structs", concUnpack(binary.BigEndian, "\x01\x00\x01x\x00\x05\x00\x00\x07\x02\x01\xff\xfeabc\x00\xb1"+"\x02\x01\xff\xfeabc\x00\xb1"+"\x02\x01\xff\xfeabc\x00\xb1", func() interface{} { return &conOuter{} }), false},
	{"BitSize of structs with expressions", concBits(conExprV), false},
	{"Pack of a tree", concPack(binary.BigEndian, conTreeV), false},
	{"Unpack of a list", concUnpack(binary.BigEndian, "\x01\x01\x00", func() interface{} { return &conList{} }), false},
	{"Unpack of input that ends early", concUnpack(binary.BigEndian, "\x02a", func() interface{} { return &conInner{} }), true},
	{"Pack of types that pack themselves", concPack(binary.LittleEndian, conHolderV), false},
	{"Unpack of types that pack themselves", concUnpack(binary.LittleEndian, "\x07\x02ab\x00\x05\x02\x01\xff\xfeabc\x00\xb1", func() interface{} { return &conHolder{} }), false},
	{"TypeOf in the other order", concTypeOf(conB{}, conA{}, conInner{}, recC{}), false},
	{"Eval of an expression", func(e *concEnv) (r concResult) {
		r.val, r.err = expr.Eval(conResolver{conB{N: 4, F: conFlatV()}}, "X.N + 1 == 5 ? X.F.A : 0")
		return
	}, false},
	{"evaluation of a shared program on another type", func(e *concEnv) (r concResult) {
		r.val, r.err = expr.EvalProgram(conResolver{struct {
			K  uint8
			In conIn64
			S  [2]uint16
		}{2, conIn64{4}, [2]uint16{1, 2}}}, e.prog)
		return
	}, false},
	{"evaluation of a program that fails", func(e *concEnv) (r concResult) {
		r.val, r.err = expr.EvalProgram(conResolver{conInnerV(1)}, e.prog2)
		return
	}, true},
	{"Pack of structs with functions", concPack(binary.BigEndian, conFuncsV), false},
	{"Unpack of structs with functions", concUnpack(binary.BigEndian, "\x02ab\x00\x06\x07x", func() interface{} { return &conFuncs{} }), false},
	{"evaluations with shared resolvers", func(e *concEnv) (r concResult) {
		var vals []interface{}
		for _, src := range []string{"m.Two * 2", "N + m.Two", "q == 5 ? f(q) : 0", "N", "f(2)", "nope"} {
			v, err := expr.Eval(e.res, src)
			if (err != nil) != (src == "nope") {
				r.err = err
				return
			}
			vals = append(vals, v)
		}
		r.val = fmt.Sprint(vals)
		return
	}, false},
	{"Unpack of a PNG", concUnpack(binary.BigEndian, conPNG, func() interface{} { return &format.File{} }), false},
}

const conPNG = "\x89PNG\r\n\x1a\n" + "\x00\x00\x00\x0dIHDR\x00\x00\x00\x01\x00\x00\x00\x01\x08\x00\x00\x00\x00\x01\x02\x03\x04" + "\x00\x00\x00\x00IEND\xae\x42\x60\x82"

// prepare restores the initial state.
func prepare() *concEnv {
	sched.Reset()
	restruct.EnableExprBeta()
	res := expr.NewMetaResolver()
	res.AddResolver(expr.NewMapResolver(map[string]expr.Value{
		"q": expr.ValueOf(uint8(5)),
		"f": expr.ValueOf(func(x uint8) uint8 { return 2 * x }),
		"m": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"Two": expr.ValueOf(uint8(2))})),
	}))
	res.AddResolver(expr.NewStructResolver(reflect.ValueOf(conInnerV(4))))
	return &concEnv{
		res:   res,
		prog:  expr.ParseString("X.S[1] == 6 ? (X.K * 2 + X.In.N) * 3 : X.K - X.In.N"),
		prog2: expr.ParseString("X.Nope + 1"),
	}
}

func guarded(f func(e *concEnv) concResult, e *concEnv, out *concResult) {
	defer func() {
		if p := recover(); p != nil {
			out.panic = p
		}
	}()
	*out = f(e)
}

var concAlone = map[string]string{}

// alone returns what a call gives when nothing else runs.
func alone(c *mc.Ctx, key string, f func(e *concEnv) concResult, fails bool) string {
	if s, ok := concAlone[key]; ok && key != "" {
		return s
	}
	var r concResult
	sched.Explore(0, 1, func() []func() {
		e := prepare()
		r = concResult{}
		return []func(){func() { guarded(f, e, &r) }}
	}, func(o sched.Outcome) bool {
		if o.Hang || o.Deadlock {
			c.Fail("a call that is made alone does not end: %s", key)
		}
		return true
	})
	if (r.err != nil || r.panic != nil) != fails {
		c.Fail("%s gives %v (%v)", key, r, r.err)
	}
	concAlone[key] = r.String()
	return r.String()
}

// explore runs goroutines, each of which makes calls in a row.
func exploreCalls(c *mc.Ctx, bound int, warm func(e *concEnv), threads [][]concOp, desc func() string) {
	var want [][]string
	for _, th := range threads {
		var w []string
		for _, op := range th {
			w = append(w, alone(c, op.name, op.run, op.fails))
		}
		want = append(want, w)
	}
	var got [][]concResult
	before := raceErrors()
	max := int64(200000)
	if c.Thorough() {
		max = 3000000
	}
	st := sched.Explore(bound, max, func() []func() {
		e := prepare()
		if warm != nil {
			warm(e)
		}
		got = make([][]concResult, len(threads))
		var fs []func()
		for i, th := range threads {
			i, th := i, th
			got[i] = make([]concResult, len(th))
			fs = append(fs, func() {
				for j := range th {
					guarded(th[j].run, e, &got[i][j])
				}
			})
		}
		return fs
	}, func(o sched.Outcome) bool {
		where := func() string { return fmt.Sprintf("%s\nschedule: %s", desc(), sched.Schedule()) }
		if o.Deadlock {
			c.Fail("the goroutines wait for each other\n%s", where())
		}
		if o.Hang {
			if len(sched.Unmodelled) > 0 {
				return false
			}
			c.Fail("the goroutines do not end\n%s", where())
		}
		if n := raceErrors(); n != before {
			c.Fail("data race\n%s\n%s", where(), raceReport())
		}
		for i := range got {
			for j := range got[i] {
				if g := got[i][j].String(); g != want[i][j] {
					c.Fail("call %d of goroutine %d (%s) gives %s, expected %s\n%s", j+1, i+1, threads[i][j].name, g, want[i][j], where())
				}
			}
		}
		return !c.Expired()
	})
	if !st.Complete || st.Nondeterministic || len(sched.Unmodelled) > 0 {
		c.Incomplete()
	}
	c.State(int(st.Schedules))
	c.Step(int(st.Points))
	c.Trace(int(st.Schedules))
}

// raceReport returns the beginning of what the race detector wrote.
func raceReport() string {
	log := ""
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(o, "log_path=") {
			log = strings.TrimPrefix(o, "log_path=")
		}
	}
	files, _ := filepath.Glob(fmt.Sprintf("%s.%d", log, os.Getpid()))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if len(b) > 6000 {
			b = b[:6000]
		}
		return string(b)
	}
	return ""
}

func describeThreads(threads [][]concOp, warm string) string {
	s := "caches: " + warm
	for i, th := range threads {
		s += fmt.Sprintf("; goroutine %d:", i+1)
		for _, op := range th {
			s += " " + op.name + ","
		}
	}
	return s
}

// concCalls is the space of the schedules of goroutines that make calls.
func concCalls(name string, shape []int, bound, n int) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("goroutines that make %v calls of %d kinds (every selection), with empty caches, with caches filled by the first goroutine's calls and with caches filled by a call on an enclosing broken type; every schedule with at most %d preemptions at the library's synchronisation operations (waiting and ending are free)", shape, n, bound),
		Run: func(c *mc.Ctx) {
			var threads [][]concOp
			last := -1
			for i, k := range shape {
				var th []concOp
				first := -1
				for j := 0; j < k; j++ {
					x := c.Choose(n)
					if j == 0 {
						first = x
					}
					th = append(th, concOps[x])
				}
				if i > 0 && k == shape[i-1] && first < last {
					c.Prune() // the same goroutines in another order
				}
				last = first
				threads = append(threads, th)
			}
			warmth := c.Choose(3)
			c.Mine()
			var warm func(e *concEnv)
			switch warmth {
			case 1:
				warm = func(e *concEnv) {
					for _, op := range threads[0] {
						var r concResult
						guarded(op.run, e, &r)
					}
				}
			case 2:
				warm = func(e *concEnv) {
					var r concResult
					guarded(concOps[3].run, e, &r)
				}
			}
			desc := func() string {
				return describeThreads(threads, [...]string{"empty", "filled by the first goroutine's calls", "filled by a failed call"}[warmth])
			}
			c.Sample(desc)
			exploreCalls(c, bound, warm, threads, desc)
		},
	}
}

// concTypes is the space of first uses of a type.
func concTypes(name string, bound int) mc.Space {
	ops := []string{"Pack", "Unpack", "SizeOf", "Pack in a wrapper", "Unpack in a wrapper"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("two goroutines that each make one of %d calls on the same type or on an enclosing type, for %d field kinds, with empty caches; every schedule with at most %d preemptions", len(ops), len(catalog), bound),
		Run: func(c *mc.Ctx) {
			a := catalog[c.Choose(len(catalog))]
			var sel [2]int
			for i := range sel {
				sel[i] = c.Choose(len(ops))
			}
			if sel[1] < sel[0] {
				c.Prune()
			}
			c.Mine()
			t := freshType(append(append([]fieldSpec{fs("Lead", uint16(0), "")}, StructOfFields(a)...), fs("Trail", uint8(0), "")))
			w := freshType([]fieldSpec{fs("WN", uint8(0), ""), {"WA", t, st("big")}})
			v, wv := FillSimple(t, 1, 1), FillSimple(w, 2, 1)
			s, err := (&ref.Model{}).Encode(deepCopy(v), ref.Big)
			ws, werr := (&ref.Model{}).Encode(deepCopy(wv), ref.Big)
			if err != nil || werr != nil {
				c.Fail("internal: %v %v", err, werr)
			}
			data, wdata := s.Bytes(), ws.Bytes()
			mk := func(k int) concOp {
				op := concOp{name: fmt.Sprintf("%s of %s", ops[k], ref.ShowType(t))}
				switch ops[k] {
				case "Pack":
					op.run = func(e *concEnv) (r concResult) {
						r.data, r.err = restruct.Pack(binary.BigEndian, concCopy(v))
						return
					}
				case "Pack in a wrapper":
					op.run = func(e *concEnv) (r concResult) {
						r.data, r.err = restruct.Pack(binary.BigEndian, concCopy(wv))
						return
					}
				case "SizeOf":
					op.run = func(e *concEnv) (r concResult) {
						r.n, r.err = restruct.SizeOf(concCopy(v))
						return
					}
				case "Unpack":
					op.run = func(e *concEnv) (r concResult) {
						x := reflect.New(t)
						r.err = restruct.Unpack(data, binary.BigEndian, x.Interface())
						r.val = x.Interface()
						return
					}
				case "Unpack in a wrapper":
					op.run = func(e *concEnv) (r concResult) {
						x := reflect.New(w)
						r.err = restruct.Unpack(wdata, binary.BigEndian, x.Interface())
						r.val = x.Interface()
						return
					}
				}
				return op
			}
			threads := [][]concOp{{mk(sel[0])}, {mk(sel[1])}}
			desc := func() string { return describeThreads(threads, "empty") }
			c.Sample(desc)
			exploreCalls(c, bound, nil, threads, desc)
		},
	}
}

// concCopy copies a value without the memory of deepCopy.
func concCopy(v reflect.Value) interface{} {
	n := reflect.New(v.Type())
	concCopyInto(n.Elem(), v)
	return n.Interface()
}

func concCopyInto(dst, src reflect.Value) {
	dst.Set(src)
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			concCopyInto(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				concCopyInto(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			concCopyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if f := src.Type().Field(i); f.PkgPath == "" && !strings.Contains(string(f.Tag), "parent") && !strings.Contains(string(f.Tag), "root") {
				concCopyInto(dst.Field(i), src.Field(i))
			}
		}
	}
}
