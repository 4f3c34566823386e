// Package suites holds the checks: which spaces are explored for which
// property, and what is compared with the reference model.
package suites

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

func init() {
	// One check looks at a process that has not enabled expressions.
	if os.Getenv("MC_NO_EXPR") == "" {
		restruct.EnableExprBeta()
	}
}

// Order is a byte order to pass to the library.
type Order struct {
	Name string
	O    binary.ByteOrder
	E    ref.Endian
}

// myBig and myLittle are byte orders of our own: any implementation may be
// passed to the library.
type myBig struct{ binary.ByteOrder }
type myLittle struct{ o binary.ByteOrder }

func (m *myLittle) Uint16(b []byte) uint16       { return m.o.Uint16(b) }
func (m *myLittle) Uint32(b []byte) uint32       { return m.o.Uint32(b) }
func (m *myLittle) Uint64(b []byte) uint64       { return m.o.Uint64(b) }
func (m *myLittle) PutUint16(b []byte, v uint16) { m.o.PutUint16(b, v) }
func (m *myLittle) PutUint32(b []byte, v uint32) { m.o.PutUint32(b, v) }
func (m *myLittle) PutUint64(b []byte, v uint64) { m.o.PutUint64(b, v) }
func (m *myLittle) String() string               { return "myLittle" }

var orders = []Order{
	{"LE", binary.LittleEndian, ref.Little},
	{"BE", binary.BigEndian, ref.Big},
}

var allOrders = append(append([]Order{}, orders...),
	Order{"Native", binary.NativeEndian, ref.OrderOf(binary.NativeEndian)},
	Order{"myBig", myBig{binary.BigEndian}, ref.Big},
	Order{"myLittle", &myLittle{binary.LittleEndian}, ref.Little},
)

// What a leaf compares.
const (
	fPack        = 1 << iota // Pack against the model, and what it mutates
	fSizes                   // SizeOf and BitSize against the model
	fUnpack                  // Unpack against the model, garbage in padding and behind
	fRoundTrip               // Pack, Unpack, Pack
	fTrunc                   // every truncation
	fByValue                 // by value against by pointer
	fDirty                   // Unpack into a used value
	fRepeat                  // the same call again
	fUnpackExact             // Unpack of exactly the encoding
)

// safely runs a call of the library and reports escaping panics.
func safely(c *mc.Ctx, what string, desc func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if isEngine(r) {
				panic(r)
			}
			c.Fail("%s panics: %v\n%s\n%s", what, r, desc(), debug.Stack())
		}
	}()
	f()
}

func isEngine(r interface{}) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", r), "mc.")
}

// deepCopy copies a value with everything it points to. References to
// enclosing structs are left out.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	copyInto(n, v)
	return n
}

var plainMemo = map[reflect.Type]bool{}

// isPlain tells whether values of a type can be copied by assignment.
func isPlain(t reflect.Type) bool {
	if b, ok := plainMemo[t]; ok {
		return b
	}
	plainMemo[t] = false
	b := false
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
	case reflect.Array:
		b = isPlain(t.Elem())
	case reflect.Struct:
		b = true
		for i := 0; i < t.NumField(); i++ {
			b = b && isPlain(t.Field(i).Type)
		}
	default:
		b = true
	}
	plainMemo[t] = b
	return b
}

func copyInto(dst, src reflect.Value) {
	if isPlain(src.Type()) {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.New(src.Type().Elem()))
		copyInto(dst.Elem(), src.Elem())
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		dst.Set(src) // unexported fields too
		for i := 0; i < src.NumField(); i++ {
			sf := src.Type().Field(i)
			if sf.PkgPath != "" {
				continue
			}
			switch sf.Tag.Get("struct") {
			case "root", "parent":
				dst.Field(i).Set(reflect.Zero(sf.Type))
				continue
			}
			if !isPlain(sf.Type) {
				dst.Field(i).Set(reflect.Zero(sf.Type))
				copyInto(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Interface:
		if !src.IsNil() {
			dst.Set(deepCopy(src.Elem()))
		}
	default:
		dst.Set(src)
	}
}

// identities lists the pointers, slices and strings of a value: where they
// point to and how long they are. References are left out.
func identities(v reflect.Value, list []uintptr) []uintptr {
	if isPlain(v.Type()) {
		return list
	}
	switch v.Kind() {
	case reflect.Ptr:
		list = append(list, v.Pointer())
		if !v.IsNil() {
			list = identities(v.Elem(), list)
		}
	case reflect.Slice:
		list = append(list, v.Pointer(), uintptr(v.Len()), uintptr(v.Cap()))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			list = identities(v.Index(i), list)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			switch tag := sf.Tag.Get("struct"); {
			case sf.PkgPath != "", tag == "root", tag == "parent":
				continue
			}
			list = identities(v.Field(i), list)
		}
	}
	return list
}

func sameIdentities(a, b []uintptr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fill gives every part of a value a content. Parts with an mc tag take every
// value listed there; the others follow a pattern.
type filler struct {
	c       *mc.Ctx
	pattern int
	n       int
	lens    []int // lengths that counted slices and strings take
	scope   []reflect.Value
	// choose asks for one of n alternatives.
	choose func(n int) int
}

var patternBytes = [][]byte{
	{0},
	{0x81, 0x12, 0xe3, 0x24, 0xb5, 0x46, 0xd7, 0x68, 0xf9, 0x0a, 0x9b, 0x5c, 0xad},
	{0xff},
	{0x80, 0x01, 0x7f, 0xfe, 0x55, 0xaa, 0xc3},
}

// patternAt returns the pattern that is used as the i-th one: varied bytes come
// before zeros.
func patternAt(i int) int { return []int{1, 0, 2, 3}[i%4] }

func (f *filler) bits() uint64 {
	p := patternBytes[f.pattern%len(patternBytes)]
	var x uint64
	for i := 0; i < 8; i++ {
		x = x<<8 | uint64(p[f.n%len(p)])
		f.n++
	}
	// Leave the low byte varied as well for small types.
	return x
}

var floatTable = []float64{1.5, -0.25, 0, 3.0e10, -1e-3}

func (f *filler) value(v reflect.Value, fd *ref.Field, tag reflect.StructTag) {
	if d := tag.Get("mc"); d != "" && !strings.HasPrefix(d, "len=") {
		opts := strings.Split(d, ",")
		s := opts[f.choose(len(opts))]
		switch {
		case v.CanInt():
			n, err := strconv.ParseInt(s, 0, 64)
			if err != nil {
				panic(err)
			}
			v.SetInt(n)
		case v.CanUint():
			n, err := strconv.ParseUint(s, 0, 64)
			if err != nil {
				panic(err)
			}
			v.SetUint(n)
		case v.Kind() == reflect.Bool:
			v.SetBool(s == "true")
		case v.Kind() == reflect.String:
			v.SetString(s)
		default:
			panic("mc tag on " + v.Type().String())
		}
		return
	}
	if s, ok := v.Addr().Interface().(selfFilling); ok {
		f.n++
		s.mcFill(f.n + 7*f.pattern)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(f.bits()&1 != 0)
	case reflect.Float32:
		if f.pattern != 0 {
			f.n++
			v.SetFloat(float64(float32(floatTable[(f.n+f.pattern)%len(floatTable)])))
		}
	case reflect.Float64:
		if f.pattern != 0 {
			f.n++
			v.SetFloat(f.floatFor(fd))
		}
	case reflect.Complex64, reflect.Complex128:
		if f.pattern != 0 {
			f.n += 2
			v.SetComplex(complex(float64(float32(floatTable[f.n%5])), float64(float32(floatTable[(f.n+3)%5]))))
		}
	case reflect.Ptr:
		if fd != nil && (fd.Root || fd.Parent) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		f.value(v.Elem(), nil, "")
	case reflect.String:
		v.SetString(f.str(f.length(v, fd, tag)))
	case reflect.Slice:
		n := f.length(v, fd, tag)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			f.value(v.Index(i), nil, "")
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.value(v.Index(i), nil, "")
		}
	case reflect.Struct:
		f.structure(v, fd)
	default:
		switch {
		case v.CanInt():
			v.SetInt(int64(f.bits()))
		case v.CanUint():
			v.SetUint(f.bits())
		}
	}
}

func (f *filler) floatFor(fd *ref.Field) float64 {
	x := floatTable[(f.n+f.pattern)%len(floatTable)]
	if fd != nil && fd.Bin.Kind() == reflect.Float32 {
		return float64(float32(x))
	}
	return x
}

func (f *filler) str(n int) string {
	b := make([]byte, n)
	for i := range b {
		f.n++
		switch f.pattern {
		case 2:
			b[i] = 0xff
		case 3:
			b[i] = byte(f.n%4) * (0x3f + byte(f.n%100)) // with zeros
		default:
			b[i] = 'a' + byte(f.n%26)
		}
	}
	return string(b)
}

func (f *filler) length(v reflect.Value, fd *ref.Field, tag reflect.StructTag) int {
	lens := f.lens
	if d := tag.Get("mc"); strings.HasPrefix(d, "len=") {
		lens = nil
		for _, s := range strings.Split(d[4:], ",") {
			n, err := strconv.Atoi(s)
			if err != nil {
				panic(err)
			}
			lens = append(lens, n)
		}
	} else if fd != nil {
		switch {
		case fd.Bin.Kind() == reflect.Array && v.Kind() == reflect.Slice:
			return fd.Bin.Len()
		case fd.Bin.Kind() == reflect.Array:
			lens = []int{fd.Bin.Len() / 2, fd.Bin.Len()}
			if fd.Bin.Len() == 0 {
				lens = lens[:1]
			}
		case fd.Size != "":
			x, err := ref.EvalString(fd.Size, f.env)
			if err != nil {
				panic(fmt.Errorf("size expression %s: %v", fd.Size, err))
			}
			n, _ := ref.ToInt(x)
			return int(n)
		}
	}
	return lens[f.choose(len(lens))]
}

func (f *filler) env(name string) (interface{}, bool) {
	if name == "bits" {
		return ref.BitsPkg(), true
	}
	v := f.scope[len(f.scope)-1].FieldByName(name)
	if !v.IsValid() || !v.CanInterface() {
		return nil, false
	}
	return v.Interface(), true
}

// filler interface: test types that want to be filled in their own way.
type selfFilling interface{ mcFill(k int) }

func (f *filler) structure(v reflect.Value, sw *ref.Field) {
	if sw != nil && sw.Switch != "" {
		// Only the selected case is part of the encoding.
		on, err := ref.EvalString(sw.Switch, f.env)
		if err != nil {
			panic(err)
		}
		var sel *ref.Field
		fs := ref.Fields(v.Type())
		for i := range fs {
			if fs[i].Default {
				if sel == nil {
					sel = &fs[i]
				}
				continue
			}
			c, err := ref.EvalString(fs[i].Case, f.env)
			if err != nil {
				panic(err)
			}
			if ok, _ := ref.Binary(eql, c, on); ok == true {
				sel = &fs[i]
				break
			}
		}
		if sel != nil {
			sf := v.Type().Field(sel.Index)
			f.value(v.Field(sel.Index), sel, sf.Tag)
		}
		return
	}
	f.scope = append(f.scope, v)
	defer func() { f.scope = f.scope[:len(f.scope)-1] }()
	fs := ref.Fields(v.Type())
	for i := range fs {
		fd := &fs[i]
		if fd.Name == "_" || fd.Counts >= 0 {
			continue
		}
		fv := v.Field(fd.Index)
		if fd.Root || fd.Parent {
			for j := range f.scope {
				k := j // root: the first
				if fd.Parent {
					k = len(f.scope) - 2 - j
				}
				if k >= 0 && f.scope[k].Addr().Type() == fv.Type() {
					fv.Set(f.scope[k].Addr())
					break
				}
				if fd.Root {
					break
				}
			}
			continue
		}
		if fd.If != "" {
			x, err := ref.EvalString(fd.If, f.env)
			if err != nil {
				panic(err)
			}
			if b, _ := ref.Truth(x); !b {
				continue
			}
		}
		f.value(fv, fd, v.Type().Field(fd.Index).Tag)
		if fd.CountedBy >= 0 {
			cv := v.Field(fd.CountedBy)
			if cv.CanInt() {
				cv.SetInt(int64(fv.Len()))
			} else if cv.CanUint() {
				cv.SetUint(uint64(fv.Len()))
			}
		}
	}
}

// Fill fills a value; every choice is explored.
func Fill(c *mc.Ctx, t reflect.Type, pattern int, lens []int) reflect.Value {
	v := reflect.New(t).Elem()
	f := &filler{c: c, pattern: pattern, lens: lens, choose: c.Choose}
	f.value(v, nil, "")
	return v
}

// FillSimple fills a value without asking; domains take their nth value.
func FillSimple(t reflect.Type, pattern, nth int) reflect.Value {
	v := reflect.New(t).Elem()
	f := &filler{pattern: pattern, lens: []int{2, 1, 0}, choose: func(n int) int { return nth % n }}
	f.value(v, nil, "")
	return v
}

// saturate gives everything in a value that is still zero a content: members
// of a switch that are not selected and missing conditional fields included.
func saturate(v reflect.Value, k, depth int) {
	if depth > 6 || !v.CanSet() {
		return
	}
	if s, ok := v.Addr().Interface().(selfFilling); ok {
		if v.IsZero() {
			s.mcFill(k + depth + 1)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		saturate(v.Elem(), k, depth+1)
	case reflect.Slice:
		if v.Len() == 0 {
			v.Set(reflect.MakeSlice(v.Type(), k+1, k+3))
		}
		for i := 0; i < v.Len(); i++ {
			saturate(v.Index(i), k+i, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			saturate(v.Index(i), k+i, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			switch tag := sf.Tag.Get("struct"); {
			case sf.PkgPath != "", sf.Name == "_", tag == "-", tag == "root", tag == "parent":
				continue
			}
			saturate(v.Field(i), k+i, depth+1)
		}
	case reflect.String:
		if v.Len() == 0 {
			v.SetString("stale"[:1+k%4])
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(7.5)
	default:
		if v.IsZero() {
			setInteger(v, uint64(0x5a+k))
		}
	}
}

func hex(b []byte) string { return fmt.Sprintf("%x", b) }

// Case is a configuration: a type, a value of it and a byte order.
type Case struct {
	T     reflect.Type
	V     reflect.Value
	O     Order
	Flags int
	// Relaxed cases do not compare truncations with unclear ends.
}

func (k *Case) String() string {
	return fmt.Sprintf("order %s type %s value %s", k.O.Name, ref.ShowType(k.T), ref.Show(k.V))
}

func clearPointers(v reflect.Value) interface{} { return v.Addr().Interface() }

// packErr packs and requires that no data comes with an error.
func pack(c *mc.Ctx, k *Case, what string, order binary.ByteOrder, x interface{}) (data []byte, err error) {
	safely(c, "Pack "+what, k.String, func() { data, err = restruct.Pack(order, x) })
	if err != nil && data != nil {
		c.Fail("Pack %s returns data along with the error %v\n%s", what, err, k)
	}
	return
}

func unpack(c *mc.Ctx, k *Case, what string, data []byte, order binary.ByteOrder, x interface{}) (err error) {
	before := append([]byte{}, data[:cap(data)]...)
	safely(c, "Unpack "+what, k.String, func() { err = restruct.Unpack(data, order, x) })
	if !bytes.Equal(before, data[:cap(data)]) {
		c.Fail("Unpack %s modifies its input: %x became %x\n%s", what, before, data[:cap(data)], k)
	}
	return
}

func sizes(c *mc.Ctx, k *Case, what string, x interface{}) (n, bits int, err error) {
	var err2 error
	safely(c, "SizeOf "+what, k.String, func() { n, err = restruct.SizeOf(x) })
	safely(c, "BitSize "+what, k.String, func() { bits, err2 = restruct.BitSize(x) })
	if (err == nil) != (err2 == nil) {
		c.Fail("SizeOf %s gives error %v, BitSize %v\n%s", what, err, err2, k)
	}
	return
}

// check explores one configuration.
func check(c *mc.Ctx, k *Case) {
	c.State(1)
	c.Sample(k.String)
	m := &ref.Model{}
	mv := deepCopy(k.V)
	s, merr := m.Encode(mv, k.O.E)
	defer func() { c.Step(m.Steps) }()
	if merr == ref.ErrUnspecified {
		return
	}

	if k.Flags&fSizes != 0 {
		iv := deepCopy(k.V)
		ids := identities(iv, nil)
		n, nbits, err := sizes(c, k, "by pointer", iv.Addr().Interface())
		c.Trace(2)
		if merr == nil {
			if err != nil {
				c.Fail("SizeOf gives the error %v, %d bits expected\n%s", err, len(s.Bit), k)
			}
			if nbits != len(s.Bit) {
				c.Fail("BitSize is %d, the fields occupy %d bits\n%s", nbits, len(s.Bit), k)
			}
			if n != (len(s.Bit)+7)/8 {
				c.Fail("SizeOf is %d, the fields occupy %d bits\n%s", n, len(s.Bit), k)
			}
		}
		if d := ref.Equal(iv, k.V); d != nil {
			c.Fail("SizeOf or BitSize changes the value: %v\n%s", d, k)
		}
		if !sameIdentities(ids, identities(iv, nil)) {
			c.Fail("SizeOf or BitSize replaces what the value points to\n%s", k)
		}
	}

	if k.Flags&fPack != 0 {
		iv := deepCopy(k.V)
		ids := identities(iv, nil)
		data, err := pack(c, k, "", k.O.O, iv.Addr().Interface())
		c.Trace(1)
		if !sameIdentities(ids, identities(iv, nil)) {
			c.Fail("Pack replaces what the value points to\n%s", k)
		}
		comparePacked(c, k, "", data, err, s, merr)
		if merr == nil {
			if d := ref.Equal(iv, mv); d != nil {
				c.Fail("Pack leaves the value in another state than expected: %v\n%s", d, k)
			}
		}
		if k.Flags&fRepeat != 0 {
			data2, err2 := pack(c, k, "again", k.O.O, iv.Addr().Interface())
			comparePacked(c, k, "again", data2, err2, s, merr)
			c.Trace(1)
		}
	}

	if k.Flags&fByValue != 0 {
		iv := deepCopy(k.V)
		n, nbits, err := sizes(c, k, "by value", iv.Interface())
		if merr == nil && (err != nil || nbits != len(s.Bit) || n != (len(s.Bit)+7)/8) {
			c.Fail("by value: SizeOf %d, BitSize %d, error %v; the fields occupy %d bits\n%s", n, nbits, err, len(s.Bit), k)
		}
		data, err := pack(c, k, "by value", k.O.O, iv.Interface())
		comparePacked(c, k, "by value", data, err, s, merr)
		if d := equalShallow(iv, k.V, mv); d != nil {
			c.Fail("Pack by value changes the value: %v\n%s", d, k)
		}
		pp := reflect.New(iv.Addr().Type())
		pp.Elem().Set(iv.Addr())
		data, err = pack(c, k, "by pointer to pointer", k.O.O, pp.Interface())
		comparePacked(c, k, "by pointer to pointer", data, err, s, merr)
		c.Trace(4)
	}

	if merr != nil {
		return
	}
	data := s.Bytes()
	if len(s.Bit)%8 != 0 && usesEOF(k.T) {
		return // where the input ends is not where the elements do
	}

	if k.Flags&(fUnpack|fUnpackExact|fRoundTrip|fDirty) != 0 {
		dv := reflect.New(k.T).Elem()
		in, derr := m.Decode(data, dv, k.O.E)
		if derr == ref.ErrUnspecified {
			return
		}
		if derr != nil {
			c.Fail("internal: the model cannot decode its own encoding %x: %v\n%s", data, derr, k)
		}
		if in.Pos != len(s.Bit) {
			c.Fail("internal: the model reads %d of %d bits\n%s", in.Pos, len(s.Bit), k)
		}

		if k.Flags&(fUnpack|fUnpackExact) != 0 {
			uv := reflect.New(k.T).Elem()
			err := unpack(c, k, "", data, k.O.O, uv.Addr().Interface())
			compareUnpacked(c, k, "", data, uv, err, dv, nil)
			if d := sameRefs(uv, dv, ""); d != nil {
				c.Fail("Unpack of %x: %v\n%s", data, d, k)
			}
			c.Trace(1)

			// Whatever is in the padding and behind the encoding.
			if k.Flags&fUnpack != 0 && !usesEOF(k.T) {
				for _, fillb := range []byte{0xff, 0x00, 0xa5} {
					dirty := append([]byte{}, data...)
					mask := s.PadMask()
					for i := range dirty {
						dirty[i] |= fillb &^ mask[i]
					}
					dirty = append(dirty, bytes.Repeat([]byte{fillb}, 9)...)
					uv := reflect.New(k.T).Elem()
					err := unpack(c, k, "with garbage in padding and behind", dirty, k.O.O, uv.Addr().Interface())
					compareUnpacked(c, k, "with garbage in padding and behind", dirty, uv, err, dv, nil)
					c.Trace(1)
				}
			}
		}

		if k.Flags&fDirty != 0 {
			for nth := 0; nth < 3; nth++ {
				base := FillSimple(k.T, 2+nth, nth)
				if nth > 0 {
					saturate(base, nth, 0)
				}
				dv2 := deepCopy(base)
				if _, derr := m.Decode(data, dv2, k.O.E); derr != nil {
					c.Fail("internal: the model cannot decode into a used value: %v\n%s", derr, k)
				}
				err := unpack(c, k, "into a used value", data, k.O.O, base.Addr().Interface())
				compareUnpacked(c, k, "into a used value", data, base, err, dv2, nil)
				c.Trace(1)
			}
		}

		if k.Flags&fRoundTrip != 0 {
			// dv is representable by construction.
			iv := deepCopy(dv)
			d1, err := pack(c, k, "of a representable value", k.O.O, iv.Addr().Interface())
			if err != nil {
				c.Fail("Pack of %s gives the error %v\n%s", ref.Show(dv), err, k)
			}
			uv := reflect.New(k.T).Elem()
			if err := unpack(c, k, "of packed data", d1, k.O.O, uv.Addr().Interface()); err != nil {
				c.Fail("Unpack of the packed data %x gives the error %v\n%s", d1, err, k)
			}
			if d := ref.Equal(uv, dv); d != nil {
				c.Fail("value changes on a round trip through %x: %v\n%s", d1, d, k)
			}
			d2, err := pack(c, k, "of an unpacked value", k.O.O, uv.Addr().Interface())
			if err != nil || !bytes.Equal(d1, d2) {
				c.Fail("packing the unpacked value gives %x (%v), was %x\n%s", d2, err, d1, k)
			}
			c.Trace(3)
		}
	}

	if k.Flags&fTrunc != 0 {
		truncations(c, k, m, data)
	}
}

// equalShallow compares a value that was passed by value: what it shares with
// the callee through pointers and slices may hold updated counters.
func equalShallow(got, before, after reflect.Value) error {
	if d := ref.Equal(got, before); d == nil {
		return nil
	}
	for i := 0; i < got.NumField() && got.Kind() == reflect.Struct; i++ {
		if got.Type().Field(i).Name == "_" {
			continue
		}
		if d := ref.Equal(got.Field(i), before.Field(i)); d != nil {
			if isPlain(got.Field(i).Type()) {
				return d
			}
			if d := ref.Equal(got.Field(i), after.Field(i)); d != nil {
				return d
			}
		}
	}
	return nil
}

func comparePacked(c *mc.Ctx, k *Case, what string, data []byte, err error, s *ref.Stream, merr error) {
	if merr != nil {
		if err == nil {
			c.Fail("Pack %s succeeds with %x, an error was expected (%v)\n%s", what, data, merr, k)
		}
		return
	}
	if err != nil {
		c.Fail("Pack %s gives the error %v, expected %x\n%s", what, err, s.Bytes(), k)
	}
	if !bytes.Equal(data, s.Bytes()) {
		c.Fail("Pack %s gives %x, expected %x (%d bits)\n%s", what, data, s.Bytes(), len(s.Bit), k)
	}
}

func compareUnpacked(c *mc.Ctx, k *Case, what string, data []byte, uv reflect.Value, err error, want reflect.Value, wantErr error) {
	if wantErr != nil {
		if err == nil {
			c.Fail("Unpack %s of %x succeeds with %s, an error was expected (%v)\n%s", what, data, ref.Show(uv), wantErr, k)
		}
		return
	}
	if err != nil {
		c.Fail("Unpack %s of %x gives the error %v, expected %s\n%s", what, data, err, ref.Show(want), k)
	}
	if d := ref.Equal(uv, want); d != nil {
		c.Fail("Unpack %s of %x: %v\n%s", what, data, d, k)
	}
}

// truncations unpacks every prefix of an encoding, with and without spare
// capacity behind it.
func truncations(c *mc.Ctx, k *Case, m *ref.Model, data []byte) {
	for cut := 0; cut <= len(data); cut++ {
		exact := append(make([]byte, 0, cut), data[:cut]...)[:cut:cut]
		room := append(append([]byte{}, data...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)[:cut]
		dv := reflect.New(k.T).Elem()
		in, derr := m.Decode(exact, dv, k.O.E)
		if derr == ref.ErrUnspecified {
			continue
		}
		for i, b := range [][]byte{exact, room} {
			what := fmt.Sprintf("of the first %d of %d bytes", cut, len(data))
			if i == 1 {
				what += " (with spare capacity)"
			}
			uv := reflect.New(k.T).Elem()
			err := unpack(c, k, what, b, k.O.O, uv.Addr().Interface())
			c.Trace(1)
			if derr == nil && in.Pos > 8*cut {
				// Only padding is missing: either outcome is fine.
				if err == nil {
					if d := ref.Equal(uv, dv); d != nil {
						c.Fail("Unpack %s %x: %v\n%s", what, b, d, k)
					}
				}
				continue
			}
			compareUnpacked(c, k, what, b, uv, err, dv, derr)
		}
	}
}

var eofMemo = map[reflect.Type]bool{}

// usesEOF tells whether the meaning of bytes depends on where the input ends.
func usesEOF(t reflect.Type) bool {
	if b, ok := eofMemo[t]; ok {
		return b
	}
	eofMemo[t] = false
	b := false
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if strings.Contains(string(t.Field(i).Tag), "_eof") || usesEOF(t.Field(i).Type) {
				b = true
			}
		}
	case reflect.Ptr, reflect.Slice, reflect.Array:
		b = usesEOF(t.Elem())
	}
	eofMemo[t] = b
	return b
}
