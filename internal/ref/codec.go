package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

// Endian is a byte order.
type Endian int

// The byte orders.
const (
	Unset Endian = iota
	Big
	Little
)

// CustomBits is implemented by test types of which only the size matters.
type CustomBits interface{ ModelOnlySize() }

// Custom is implemented by test types that pack themselves. The model calls
// these methods, the library calls Pack, Unpack and SizeOf.
type Custom interface {
	ModelSizeBits() int
	ModelPack(e Endian) ([]byte, error)
}

// CustomUnpack is the reading half; implemented on pointers.
type CustomUnpack interface {
	ModelUnpack(buf []byte, e Endian) (n int, err error)
}

// Field is what a struct field and its tag mean.
type Field struct {
	Name            string
	Index           int
	Nat, Bin        reflect.Type
	Bits            int
	Order           Endian
	Skip            int
	Counts          int // index of the field this one counts, or -1
	CountedBy       int // index of the counter of this field, or -1
	VBool, IBool    bool
	Root, Parent    bool
	Default         bool
	If, Size, BitsX string
	In, Out, While  string
	Switch, Case    string
}

var types = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "byte": reflect.TypeOf(byte(0)), "rune": reflect.TypeOf(rune(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
	"int": reflect.TypeOf(int(0)), "uint": reflect.TypeOf(uint(0)), "string": reflect.TypeOf([]byte{}),
}

// TypeByName reads a type name of a tag.
func TypeByName(s string) (reflect.Type, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		t, ok := TypeByName(s[1:])
		if !ok {
			return nil, false
		}
		return reflect.PtrTo(t), true
	}
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return nil, false
		}
		t, ok := TypeByName(s[i+1:])
		if !ok {
			return nil, false
		}
		if i == 1 {
			return reflect.SliceOf(t), true
		}
		n, err := strconv.Atoi(s[1:i])
		if err != nil || n < 0 || n > 1<<20 {
			return nil, false
		}
		return reflect.ArrayOf(n, t), true
	}
	t, ok := types[s]
	return t, ok
}

// splitTag splits a tag at its top-level commas.
func splitTag(tag string) (parts []string) {
	depth, quote, start := 0, byte(0), 0
	for i := 0; i < len(tag); i++ {
		c := tag[i]
		switch {
		case quote != 0:
			if c == '\\' {
				i++
			} else if c == quote {
				quote = 0
			}
		case c == '\'' || c == '"':
			quote = c
		case c == '(' || c == '[' || c == '{':
			depth++
		case c == ')' || c == ']' || c == '}':
			depth--
		case c == ',' && depth == 0:
			parts = append(parts, tag[start:i])
			start = i + 1
		}
	}
	return append(parts, tag[start:])
}

var fieldCache = map[reflect.Type][]Field{}

// Fields lists the fields of a struct that have a meaning. Padding fields are
// included, ignored and unexported ones are not.
func Fields(t reflect.Type) []Field {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	var out []Field
	from := map[int]bool{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.PkgPath != "" && sf.Name != "_" {
			continue
		}
		tag := sf.Tag.Get("struct")
		if tag == "-" {
			continue
		}
		f := Field{Name: sf.Name, Index: i, Nat: sf.Type, Bin: sf.Type, Counts: -1, CountedBy: -1,
			If: sf.Tag.Get("struct-if"), Size: sf.Tag.Get("struct-size"), BitsX: sf.Tag.Get("struct-bits"),
			In: sf.Tag.Get("struct-in"), Out: sf.Tag.Get("struct-out"), While: sf.Tag.Get("struct-while"),
			Switch: sf.Tag.Get("struct-switch"), Case: sf.Tag.Get("struct-case")}
		if tag != "" {
			for _, p := range splitTag(tag) {
				key, val := p, ""
				if j := strings.IndexByte(p, '='); j >= 0 {
					key, val = p[:j], p[j+1:]
				}
				switch key {
				case "lsb", "little":
					f.Order = Little
				case "msb", "big", "network":
					f.Order = Big
				case "variantbool":
					f.VBool = true
				case "invertedbool":
					f.IBool = true
				case "root":
					f.Root = true
				case "parent":
					f.Parent = true
				case "default":
					f.Default = true
				case "sizeof":
					sf2, ok := t.FieldByName(val)
					if ok {
						f.Counts = sf2.Index[0]
					}
				case "sizefrom":
					sf2, ok := t.FieldByName(val)
					if ok {
						f.CountedBy = sf2.Index[0]
						from[len(out)] = true
					}
				case "skip":
					n, err := strconv.ParseInt(val, 0, 64)
					if err != nil {
						panic(err)
					}
					f.Skip = int(n)
				case "if":
					f.If = val
				case "size":
					f.Size = val
				case "bits":
					f.BitsX = val
				case "in":
					f.In = val
				case "out":
					f.Out = val
				case "while":
					f.While = val
				case "switch":
					f.Switch = val
				case "case":
					f.Case = val
				default:
					name := p
					f.Bits = 0
					if j := strings.LastIndexByte(p, ':'); j >= 0 {
						n, err := strconv.ParseInt(p[j+1:], 0, 16)
						if err != nil {
							panic("ref: bad bits in " + tag)
						}
						f.Bits = int(n)
						name = p[:j]
					}
					bt, ok := TypeByName(name)
					if !ok {
						panic("ref: bad type in tag " + tag)
					}
					f.Bin = bt
				}
			}
		}
		out = append(out, f)
	}
	// Both spellings of a link mean the same.
	// The counter named by sizefrom is the one that is believed.
	for i := range out {
		for j := range out {
			if out[j].CountedBy == out[i].Index {
				out[i].Counts = out[j].Index
			}
		}
	}
	for i := range out {
		for j := range out {
			if out[i].Counts == out[j].Index && !from[j] {
				out[j].CountedBy = out[i].Index
			}
		}
	}
	fieldCache[t] = out
	return out
}

// Stream is a sequence of bits. Pad marks the bits that carry no field data.
type Stream struct {
	Bit []byte
	Pad []bool
}

// Bytes packs the bits into bytes, the first bit being the most significant.
func (s *Stream) Bytes() []byte {
	out := make([]byte, (len(s.Bit)+7)/8)
	for i, b := range s.Bit {
		out[i/8] |= b << uint(7-i%8)
	}
	return out
}

// DataBytes is how many bytes hold all the bits that carry data.
func (s *Stream) DataBytes() int {
	for i := len(s.Pad) - 1; i >= 0; i-- {
		if !s.Pad[i] {
			return i/8 + 1
		}
	}
	return 0
}

// PadMask has ones where the bits of the encoding carry field data.
func (s *Stream) PadMask() []byte {
	out := make([]byte, (len(s.Bit)+7)/8)
	for i, p := range s.Pad {
		if !p {
			out[i/8] |= 1 << uint(7-i%8)
		}
	}
	return out
}

func (s *Stream) pad(n int) {
	for i := 0; i < n; i++ {
		s.Bit = append(s.Bit, 0)
		s.Pad = append(s.Pad, true)
	}
}

func (s *Stream) msb(x uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		s.Bit = append(s.Bit, byte(x>>uint(i))&1)
		s.Pad = append(s.Pad, false)
	}
}

// uint appends the low n bits of x in a byte order.
func (s *Stream) uint(x uint64, n int, e Endian) {
	if e == Little {
		for n > 8 {
			s.msb(x&0xff, 8)
			x >>= 8
			n -= 8
		}
	}
	s.msb(x, n)
}

// checkBits tells whether a computed width can be used: what widths below one
// mean is not specified, those of more bits than the type has are errors.
func checkBits(n int, t reflect.Type) error {
	if n < 0 {
		return errModel
	}
	if n == 0 {
		return ErrUnspecified
	}
	if w := intBits(t); w != 0 && n > w {
		return errModel
	}
	return nil
}

// Model runs the reference encoder or decoder.
type Model struct {
	Steps  int // transitions: fields and elements processed
	Native Endian
	stack  []reflect.Value
}

// errors of the model
var (
	ErrShort = errors.New("model: input too short")
	errModel = errors.New("model: invalid")
)

var bitsPkg = map[string]interface{}{
	"LeadingZeros": bits.LeadingZeros, "LeadingZeros8": bits.LeadingZeros8, "LeadingZeros16": bits.LeadingZeros16, "LeadingZeros32": bits.LeadingZeros32, "LeadingZeros64": bits.LeadingZeros64,
	"Len": bits.Len, "Len8": bits.Len8, "Len16": bits.Len16, "Len32": bits.Len32, "Len64": bits.Len64,
	"OnesCount": bits.OnesCount, "OnesCount8": bits.OnesCount8, "OnesCount16": bits.OnesCount16, "OnesCount32": bits.OnesCount32, "OnesCount64": bits.OnesCount64,
	"Reverse": bits.Reverse, "Reverse8": bits.Reverse8, "Reverse16": bits.Reverse16, "Reverse32": bits.Reverse32, "Reverse64": bits.Reverse64,
	"ReverseBytes": bits.ReverseBytes, "ReverseBytes16": bits.ReverseBytes16, "ReverseBytes32": bits.ReverseBytes32, "ReverseBytes64": bits.ReverseBytes64,
	"RotateLeft": bits.RotateLeft, "RotateLeft8": bits.RotateLeft8, "RotateLeft16": bits.RotateLeft16, "RotateLeft32": bits.RotateLeft32, "RotateLeft64": bits.RotateLeft64,
	"TrailingZeros": bits.TrailingZeros, "TrailingZeros8": bits.TrailingZeros8, "TrailingZeros16": bits.TrailingZeros16, "TrailingZeros32": bits.TrailingZeros32, "TrailingZeros64": bits.TrailingZeros64,
}

// BitsPkg is the bits package as expressions see it.
func BitsPkg() map[string]interface{} { return bitsPkg }

func (m *Model) env(eof func() bool) Env {
	return func(name string) (interface{}, bool) {
		switch name {
		case "_eof":
			if eof == nil {
				return nil, false
			}
			return eof(), true
		case "bits":
			return bitsPkg, true
		}
		if len(m.stack) == 0 {
			return nil, false
		}
		f := m.stack[len(m.stack)-1].FieldByName(name)
		if !f.IsValid() || !f.CanInterface() {
			return nil, false
		}
		return f.Interface(), true
	}
}

func (m *Model) cond(src string, eof func() bool) (bool, error) {
	x, err := EvalString(src, m.env(eof))
	if err != nil {
		return false, err
	}
	b, ok := truth(x)
	if !ok {
		return false, errors.New("model: not a bool")
	}
	return b, nil
}

func (m *Model) num(src string, eof func() bool) (int, error) {
	x, err := EvalString(src, m.env(eof))
	if err != nil {
		return 0, err
	}
	n, ok := ToInt(x)
	if !ok {
		return 0, errors.New("model: not an integer")
	}
	return int(n), nil
}

func same(c, on interface{}) bool {
	if n, ok := ToInt(c); ok {
		if k, ok := ToInt(on); ok {
			return n == k && negative(c) == negative(on)
		}
		return false
	}
	if b, ok := truth(c); ok {
		if k, ok := truth(on); ok {
			return b == k
		}
		return false
	}
	cv, ov := reflect.ValueOf(c), reflect.ValueOf(on)
	return cv.Kind() == reflect.String && ov.Kind() == reflect.String && cv.String() == ov.String()
}

func negative(x interface{}) bool {
	if _, ok := x.(Const); ok {
		n, _ := ToInt(x)
		return n < 0
	}
	v := reflect.ValueOf(x)
	return v.CanInt() && v.Int() < 0
}

// selected finds the case of a switch that is selected.
func (m *Model) selected(f Field, eof func() bool) (*Field, error) {
	on, err := EvalString(f.Switch, m.env(eof))
	if err != nil {
		return nil, err
	}
	var def *Field
	fs := Fields(f.Nat)
	for i := range fs {
		if fs[i].Default {
			def = &fs[i]
			continue
		}
		c, err := EvalString(fs[i].Case, m.env(eof))
		if err != nil {
			return nil, err
		}
		if same(c, on) {
			return &fs[i], nil
		}
	}
	return def, nil
}

func intBits(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int, reflect.Uint, reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	case reflect.Int64, reflect.Uint64, reflect.Float64:
		return 64
	}
	return 0
}

func signed(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return true
	}
	return false
}

// StaticBits is the size of a type that does not depend on its value.
func StaticBits(t reflect.Type) (int, bool) {
	if b := intBits(t); b != 0 {
		return b, true
	}
	switch t.Kind() {
	case reflect.Complex64:
		return 64, true
	case reflect.Complex128:
		return 128, true
	case reflect.Array:
		n, ok := StaticBits(t.Elem())
		return n * t.Len(), ok
	case reflect.Struct:
		sum := 0
		for _, f := range Fields(t) {
			n, ok := fieldStaticBits(f)
			if !ok {
				return 0, false
			}
			sum += n
		}
		return sum, true
	}
	return 0, false
}

func fieldStaticBits(f Field) (int, bool) {
	if f.If != "" || f.BitsX != "" || f.Switch != "" {
		return 0, false
	}
	if f.Bits != 0 {
		return f.Bits + 8*f.Skip, true
	}
	n, ok := StaticBits(f.Bin)
	return n + 8*f.Skip, ok
}

func pick(o, e Endian) Endian {
	if o != Unset {
		return o
	}
	return e
}

func asCustom(v reflect.Value) (Custom, bool) {
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return nil, false
	}
	if c, ok := v.Interface().(Custom); ok {
		return c, true
	}
	if v.CanAddr() {
		c, ok := v.Addr().Interface().(Custom)
		return c, ok
	}
	return nil, false
}

func elem(f Field) Field {
	e := Field{Name: "*" + f.Name, Index: -1, Counts: -1, CountedBy: -1, VBool: f.VBool, IBool: f.IBool}
	get := func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.String {
			return reflect.TypeOf(byte(0))
		}
		return t.Elem()
	}
	e.Nat, e.Bin = get(f.Nat), get(f.Bin)
	return e
}

// Addressable returns an addressable copy of a value.
func Addressable(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// Encode gives the bits that a value is encoded as. The value has to be
// addressable. Its counters are updated as Pack has to.
func (m *Model) Encode(v reflect.Value, e Endian) (*Stream, error) {
	s := &Stream{}
	f := Field{Index: -1, Counts: -1, CountedBy: -1, Nat: v.Type(), Bin: v.Type()}
	err := m.enc(s, f, v, e)
	return s, err
}

func (m *Model) enc(s *Stream, f Field, v reflect.Value, e Endian) error {
	m.Steps++
	if f.Root || f.Parent {
		m.ancestor(f, v)
		return nil
	}
	if f.If != "" {
		ok, err := m.cond(f.If, nil)
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
	}
	e = pick(f.Order, e)
	s.pad(8 * f.Skip)

	if f.Name == "_" {
		n, ok := StaticBits(f.Bin)
		if f.Bits != 0 {
			n, ok = f.Bits, true
		}
		if f.BitsX != "" {
			var err error
			if n, err = m.num(f.BitsX, nil); err != nil {
				return err
			}
			if n < 0 {
				return errModel
			}
			if n == 0 {
				return ErrUnspecified
			}
			ok = true
		}
		if !ok {
			return ErrUnspecified
		}
		s.pad(n)
		return nil
	}

	if f.Switch != "" {
		c, err := m.selected(f, nil)
		if err != nil || c == nil {
			return err
		}
		return m.enc(s, *c, v.Field(c.Index), e)
	}

	if c, ok := asCustom(v); ok {
		if _, ok := c.(CustomBits); ok {
			s.pad(c.ModelSizeBits())
			return nil
		}
		if len(s.Bit)%8 != 0 {
			return ErrUnspecified
		}
		b, err := c.ModelPack(e)
		if err != nil {
			return err
		}
		for _, x := range b {
			s.msb(uint64(x), 8)
		}
		return nil
	}

	nbits := f.Bits
	if f.BitsX != "" {
		var err error
		if nbits, err = m.num(f.BitsX, nil); err != nil {
			return err
		}
		if err := checkBits(nbits, f.Bin); err != nil {
			return err
		}
	}

	if f.Counts >= 0 {
		n := uint64(m.stack[len(m.stack)-1].Field(f.Counts).Len())
		w := intBits(f.Bin)
		if nbits != 0 {
			w = nbits
		}
		if f.Nat.Bits() < w {
			w = f.Nat.Bits()
		}
		if signed(f.Bin) {
			w--
		}
		if w < 64 && n>>uint(w) != 0 {
			return errModel
		}
		if v.CanInt() {
			v.SetInt(int64(n))
		} else {
			v.SetUint(n)
		}
	}

	if f.Out != "" {
		x, err := EvalString(f.Out, m.env(nil))
		if err != nil {
			return err
		}
		if c, ok := x.(Const); ok {
			x = ConstValue(c)
		}
		v = Addressable(reflect.ValueOf(x))
	}

	switch f.Bin.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return m.enc(s, elem(f), v.Elem(), e)

	case reflect.Array, reflect.Slice, reflect.String:
		if f.Size != "" && f.Nat.Kind() != reflect.Array {
			n, err := m.num(f.Size, nil)
			if err != nil {
				return err
			}
			if n != v.Len() {
				return errModel
			}
		}
		ef := elem(f)
		n := v.Len()
		if f.Bin.Kind() == reflect.Array {
			if n > f.Bin.Len() {
				return errModel
			}
			n = f.Bin.Len()
		}
		for i := 0; i < n; i++ {
			var ev reflect.Value
			switch {
			case i >= v.Len():
				// What is missing is written as zeros.
				ev = reflect.New(f.Bin.Elem()).Elem()
			case v.Kind() == reflect.String:
				ev = reflect.New(reflect.TypeOf(byte(0))).Elem()
				ev.SetUint(uint64(v.String()[i]))
			default:
				ev = v.Index(i)
				if !ev.CanAddr() {
					ev = Addressable(ev)
				}
			}
			if err := m.enc(s, ef, ev, e); err != nil {
				return err
			}
		}
		return nil

	case reflect.Struct:
		m.stack = append(m.stack, v)
		defer func() { m.stack = m.stack[:len(m.stack)-1] }()
		for _, sf := range Fields(f.Bin) {
			if err := m.enc(s, sf, v.Field(sf.Index), e); err != nil {
				return err
			}
		}
		return nil

	case reflect.Float32:
		s.uint(uint64(math.Float32bits(float32(v.Float()))), 32, e)
		return nil
	case reflect.Float64:
		s.uint(math.Float64bits(v.Float()), 64, e)
		return nil
	case reflect.Complex64:
		s.uint(uint64(math.Float32bits(float32(real(v.Complex())))), 32, e)
		s.uint(uint64(math.Float32bits(float32(imag(v.Complex())))), 32, e)
		return nil
	case reflect.Complex128:
		s.uint(math.Float64bits(real(v.Complex())), 64, e)
		s.uint(math.Float64bits(imag(v.Complex())), 64, e)
		return nil
	}

	w := intBits(f.Bin)
	if w == 0 {
		return ErrUnspecified
	}
	if nbits != 0 {
		w = nbits
	}
	var x uint64
	switch {
	case v.Kind() == reflect.Bool:
		b := v.Bool() != f.IBool
		if b {
			x = 1
			if f.VBool {
				x = math.MaxUint64
			}
		}
	case v.CanInt() && signed(f.Bin):
		x = uint64(v.Int())
	case v.CanUint() && !signed(f.Bin):
		x = v.Uint()
	default:
		return errModel
	}
	s.uint(x, w, e)
	return nil
}

// Input is what the decoder reads from.
type Input struct {
	Data []byte
	Pos  int // in bits
	// Mask marks the bits that were read as data.
	Last int // end of the data read so far, in bits
}

func (in *Input) eof() bool { return in.Pos/8 >= len(in.Data) }

func (in *Input) msb(n int) (uint64, error) {
	if in.Pos+n > 8*len(in.Data) {
		return 0, ErrShort
	}
	var x uint64
	for i := 0; i < n; i++ {
		x = x<<1 | uint64(in.Data[in.Pos/8]>>uint(7-in.Pos%8)&1)
		in.Pos++
	}
	in.Last = in.Pos
	return x, nil
}

func (in *Input) uint(n int, e Endian) (uint64, error) {
	var x uint64
	shift := uint(0)
	if e == Little {
		for n > 8 {
			b, err := in.msb(8)
			if err != nil {
				return 0, err
			}
			x |= b << shift
			shift += 8
			n -= 8
		}
	}
	b, err := in.msb(n)
	return x | b<<shift, err
}

// Decode reads a value from the input. What the value held before stays where
// the input has nothing to say.
func (m *Model) Decode(data []byte, v reflect.Value, e Endian) (*Input, error) {
	in := &Input{Data: data}
	f := Field{Index: -1, Counts: -1, CountedBy: -1, Nat: v.Type(), Bin: v.Type()}
	err := m.dec(in, f, v, e)
	return in, err
}

func (m *Model) ancestor(f Field, v reflect.Value) {
	if f.Root {
		if len(m.stack) > 0 && reflect.PtrTo(m.stack[0].Type()).AssignableTo(v.Type()) {
			v.Set(m.stack[0].Addr())
		}
		return
	}
	for i := len(m.stack) - 2; i >= 0; i-- {
		if reflect.PtrTo(m.stack[i].Type()).AssignableTo(v.Type()) {
			v.Set(m.stack[i].Addr())
			return
		}
	}
}

// maxElems keeps the model from following absurd counters; more elements than
// there are bits in the input cannot be read.
func (m *Model) tooMany(n int, in *Input, t reflect.Type) bool {
	return n > 8*len(in.Data)+64
}

func (m *Model) dec(in *Input, f Field, v reflect.Value, e Endian) error {
	m.Steps++
	if f.Root || f.Parent {
		m.ancestor(f, v)
		return nil
	}
	if f.If != "" {
		ok, err := m.cond(f.If, in.eof)
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
	}
	e = pick(f.Order, e)
	in.Pos += 8 * f.Skip

	if f.Name == "_" {
		n, ok := StaticBits(f.Bin)
		if f.Bits != 0 {
			n, ok = f.Bits, true
		}
		if f.BitsX != "" {
			var err error
			if n, err = m.num(f.BitsX, in.eof); err != nil {
				return err
			}
			if n < 0 {
				return errModel
			}
			if n == 0 {
				return ErrUnspecified
			}
			ok = true
		}
		if !ok {
			return ErrUnspecified
		}
		in.Pos += n
		return nil
	}

	if f.Switch != "" {
		for _, c := range Fields(f.Nat) {
			v.Field(c.Index).Set(reflect.Zero(c.Nat))
		}
		c, err := m.selected(f, in.eof)
		if err != nil || c == nil {
			return err
		}
		return m.dec(in, *c, v.Field(c.Index), e)
	}

	if !(v.Kind() == reflect.Ptr && v.IsNil()) {
		c, ok := v.Interface().(CustomUnpack)
		if !ok {
			c, ok = v.Addr().Interface().(CustomUnpack)
		}
		if ok {
			if in.Pos%8 != 0 {
				return ErrUnspecified
			}
			if in.Pos/8 > len(in.Data) {
				return ErrShort
			}
			n, err := c.ModelUnpack(in.Data[in.Pos/8:], e)
			if err != nil {
				return err
			}
			in.Pos += 8 * n
			if n > 0 {
				in.Last = in.Pos
			}
			return nil
		}
	}

	nbits := f.Bits
	if f.BitsX != "" {
		var err error
		if nbits, err = m.num(f.BitsX, in.eof); err != nil {
			return err
		}
		if err := checkBits(nbits, f.Bin); err != nil {
			return err
		}
	}
	count := 0
	if f.Size != "" {
		var err error
		if count, err = m.num(f.Size, in.eof); err != nil {
			return err
		}
	} else if f.CountedBy >= 0 {
		cv := m.stack[len(m.stack)-1].Field(f.CountedBy)
		if cv.CanInt() {
			count = int(cv.Int())
		} else {
			count = int(cv.Uint())
		}
	}
	if count < 0 {
		return errModel
	}

	if err := m.decKind(in, f, v, e, nbits, count); err != nil {
		return err
	}

	if f.In != "" {
		x, err := EvalString(f.In, m.env(in.eof))
		if err != nil {
			return err
		}
		nv, err := ConvertTo(x, v.Type())
		if err != nil {
			return err
		}
		v.Set(nv)
	}
	return nil
}

// whileArray reads an array with a while condition. Elements that are not read
// are left alone, which is only specified for new ones.
func (m *Model) whileArray(in *Input, f, ef Field, v reflect.Value, e Endian) error {
	fresh := v.IsZero()
	i := 0
	for ; ; i++ {
		ok, err := m.cond(f.While, in.eof)
		if err != nil {
			return err
		}
		if !ok {
			break
		}
		if i >= v.Len() {
			return errModel
		}
		if err := m.dec(in, ef, v.Index(i), e); err != nil {
			return err
		}
	}
	if i < v.Len() && !fresh {
		return ErrUnspecified
	}
	return nil
}

func (m *Model) decKind(in *Input, f Field, v reflect.Value, e Endian, nbits, count int) error {
	ef := Field{}
	switch f.Bin.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		return m.dec(in, elem(f), v.Elem(), e)

	case reflect.Array, reflect.Slice, reflect.String:
		ef = elem(f)
		if f.Bin.Kind() == reflect.Array {
			count = f.Bin.Len()
		}
		switch f.Nat.Kind() {
		case reflect.String:
			if m.tooMany(count, in, ef.Bin) {
				return ErrShort
			}
			s := []byte{}
			for i := 0; i < count; i++ {
				c := reflect.New(reflect.TypeOf(byte(0))).Elem()
				if ef.Bin.Kind() == reflect.Int8 {
					ef.Bin = ef.Nat
				}
				if err := m.dec(in, ef, c, e); err != nil {
					return err
				}
				s = append(s, byte(c.Uint()))
			}
			if f.Bin.Kind() == reflect.Array {
				if i := strings.IndexByte(string(s), 0); i >= 0 {
					s = s[:i]
				}
			}
			v.SetString(string(s))
			return nil

		case reflect.Array:
			if f.Bin.Kind() != reflect.Array {
				count = v.Len()
				if f.While != "" {
					return m.whileArray(in, f, ef, v, e)
				}
			}
			for i := 0; i < count; i++ {
				ev := reflect.New(ef.Nat).Elem()
				if i < v.Len() {
					ev = v.Index(i)
				}
				if err := m.dec(in, ef, ev, e); err != nil {
					return err
				}
			}
			return nil

		case reflect.Slice:
			res := reflect.MakeSlice(v.Type(), 0, 0)
			v.Set(res)
			if f.While != "" {
				var elems []reflect.Value
				for {
					ok, err := m.cond(f.While, in.eof)
					if err != nil {
						return err
					}
					if !ok {
						break
					}
					ev := reflect.New(ef.Nat).Elem()
					before := in.Pos
					if err := m.dec(in, ef, ev, e); err != nil {
						return err
					}
					if in.Pos == before {
						return ErrUnspecified // zero-size elements
					}
					// While conditions may look at the slice itself.
					elems = append(elems, ev)
					v.Set(reflect.Append(v, ev))
				}
				return nil
			}
			if m.tooMany(count, in, ef.Bin) {
				return ErrShort
			}
			v.Set(reflect.MakeSlice(v.Type(), count, count))
			for i := 0; i < count; i++ {
				if err := m.dec(in, ef, v.Index(i), e); err != nil {
					return err
				}
			}
			return nil
		}
		return errModel

	case reflect.Struct:
		m.stack = append(m.stack, v)
		defer func() { m.stack = m.stack[:len(m.stack)-1] }()
		for _, sf := range Fields(f.Bin) {
			if err := m.dec(in, sf, v.Field(sf.Index), e); err != nil {
				return err
			}
		}
		return nil

	case reflect.Float32:
		x, err := in.uint(32, e)
		if err != nil {
			return err
		}
		v.SetFloat(float64(math.Float32frombits(uint32(x))))
		return nil
	case reflect.Float64:
		x, err := in.uint(64, e)
		if err != nil {
			return err
		}
		v.SetFloat(math.Float64frombits(x))
		return nil
	case reflect.Complex64:
		r, err := in.uint(32, e)
		if err != nil {
			return err
		}
		i, err := in.uint(32, e)
		if err != nil {
			return err
		}
		v.SetComplex(complex(float64(math.Float32frombits(uint32(r))), float64(math.Float32frombits(uint32(i)))))
		return nil
	case reflect.Complex128:
		r, err := in.uint(64, e)
		if err != nil {
			return err
		}
		i, err := in.uint(64, e)
		if err != nil {
			return err
		}
		v.SetComplex(complex(math.Float64frombits(r), math.Float64frombits(i)))
		return nil
	}

	w := intBits(f.Bin)
	if w == 0 {
		return ErrUnspecified
	}
	if nbits != 0 {
		w = nbits
	}
	x, err := in.uint(w, e)
	if err != nil {
		return err
	}
	switch {
	case v.Kind() == reflect.Bool:
		v.SetBool((x != 0) != f.IBool)
	case v.CanInt() && signed(f.Bin):
		if w < 64 && x>>uint(w-1) != 0 {
			x |= ^uint64(0) << uint(w)
		}
		v.SetInt(int64(x))
	case v.CanUint() && !signed(f.Bin):
		v.SetUint(x)
	default:
		return errModel
	}
	return nil
}

// Equal tells whether two values are equal. Nil and empty slices are; NaNs of
// the same bits are; root and parent references are compared by identity of
// structure elsewhere and left out here.
func Equal(a, b reflect.Value) error { return equal(a, b, "", 0) }

func equal(a, b reflect.Value, path string, depth int) error {
	if depth > 5000 {
		return nil
	}
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	diff := func() error { return fmt.Errorf("%s: got %s, want %s", path, Show(a), Show(b)) }
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
		if a.IsNil() {
			return nil
		}
		return equal(a.Elem(), b.Elem(), path+"*", depth+1)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return diff()
		}
		if a.Len() > 0 && a.Type().Elem().Kind() == reflect.Uint8 {
			if string(a.Bytes()) != string(b.Bytes()) {
				return diff()
			}
			return nil
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if err := equal(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			sf := a.Type().Field(i)
			tag := sf.Tag.Get("struct")
			if sf.Name == "_" || tag == "root" || tag == "parent" {
				continue
			}
			if err := equal(a.Field(i), b.Field(i), path+"."+sf.Name, depth+1); err != nil {
				return err
			}
		}
		return nil
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return diff()
		}
		return nil
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		if math.Float64bits(real(x)) != math.Float64bits(real(y)) || math.Float64bits(imag(x)) != math.Float64bits(imag(y)) {
			return diff()
		}
		return nil
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
		if a.IsNil() {
			return nil
		}
		return equal(a.Elem(), b.Elem(), path, depth+1)
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return diff()
		}
		return nil
	case reflect.String:
		if a.String() != b.String() {
			return diff()
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return diff()
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return diff()
			}
			if err := equal(a.MapIndex(k), x, path+"[]", depth+1); err != nil {
				return err
			}
		}
		return nil
	case reflect.Func, reflect.Chan:
		if a.Pointer() != b.Pointer() {
			return diff()
		}
		return nil
	case reflect.UnsafePointer:
		return nil
	}
	switch {
	case a.CanInt():
		if a.Int() != b.Int() {
			return diff()
		}
	case a.CanUint():
		if a.Uint() != b.Uint() {
			return diff()
		}
	}
	return nil
}

// Show describes a value.
func Show(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, 0)
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 || b.Len() > 2000 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		show(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if sf.Name == "_" {
				continue
			}
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(sf.Name + ":")
			tag := sf.Tag.Get("struct")
			if tag == "root" || tag == "parent" {
				b.WriteString("^")
				continue
			}
			show(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "%#x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// ShowType describes a type with its tags.
func ShowType(t reflect.Type) string {
	var b strings.Builder
	showType(&b, t, 0)
	return b.String()
}

func showType(b *strings.Builder, t reflect.Type, depth int) {
	if t.Name() != "" || depth > 8 {
		b.WriteString(t.String())
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		b.WriteString("struct{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(f.Name + " ")
			showType(b, f.Type, depth+1)
			if f.Tag != "" {
				b.WriteString(" `" + string(f.Tag) + "`")
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[]")
		showType(b, t.Elem(), depth+1)
	case reflect.Array:
		fmt.Fprintf(b, "[%d]", t.Len())
		showType(b, t.Elem(), depth+1)
	case reflect.Ptr:
		b.WriteString("*")
		showType(b, t.Elem(), depth+1)
	default:
		b.WriteString(t.String())
	}
}

// OrderOf classifies a byte order.
func OrderOf(o binary.ByteOrder) Endian {
	if o == nil {
		return Unset
	}
	if o.Uint16([]byte{1, 0}) == 1 {
		return Little
	}
	return Big
}
