package suites

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"

	"verif/internal/mc"
	"verif/internal/ref"
)

// Test types that pack themselves. Each has an encoding that its underlying
// representation would not have, and records how it is called.

var callLog []string

func logCall(what, typ string, data []byte, e ref.Endian) {
	if len(callLog) < 10000 {
		callLog = append(callLog, fmt.Sprintf("%s %s %x %s", what, typ, data, endianName(e)))
	}
}

func endianName(e ref.Endian) string { return [...]string{"?", "BE", "LE"}[e] }

func put16(e ref.Endian, x uint16) []byte {
	if e == ref.Big {
		return []byte{byte(x >> 8), byte(x)}
	}
	return []byte{byte(x), byte(x >> 8)}
}

func get16(e ref.Endian, b []byte) uint16 {
	if e == ref.Big {
		return uint16(b[0])<<8 | uint16(b[1])
	}
	return uint16(b[1])<<8 | uint16(b[0])
}

var errCustom = errors.New("error of a custom type")

// What the library calls is expressed by what the model calls.
func libPack(typ string, x ref.Custom, buf []byte, order binary.ByteOrder) ([]byte, error) {
	e := ref.OrderOf(order)
	b, err := x.ModelPack(e)
	if err != nil {
		panics(err)
		return nil, err
	}
	return buf[copy(buf[:len(b)], b):], nil
}

func libUnpack(typ string, x ref.CustomUnpack, buf []byte, order binary.ByteOrder) ([]byte, error) {
	n, err := x.ModelUnpack(buf, ref.OrderOf(order))
	if err != nil {
		panics(err)
		return nil, err
	}
	return buf[n:], nil
}

// short returns the first n bytes of the input.
func short(buf []byte, n int) ([]byte, error) {
	if len(buf) < n {
		return nil, errCustomShort
	}
	return buf[:n], nil
}

var errCustomShort = errors.New("custom type: input too short")

// cPtr has pointer receivers.
type cPtr struct{ V uint16 }

func (c *cPtr) ModelSizeBits() int { return 24 }
func (c *cPtr) ModelPack(e ref.Endian) ([]byte, error) {
	b := append([]byte{0xc1}, put16(e, c.V)...)
	logCall("pack", "cPtr", b, e)
	return b, nil
}
func (c *cPtr) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cPtr", buf, e)
	b, err := short(buf, 3)
	if err != nil {
		return 0, err
	}
	c.V = get16(e, b[1:])
	return 3, nil
}
func (c *cPtr) SizeOf() int { return 3 }
func (c *cPtr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cPtr", c, buf, o)
}
func (c *cPtr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cPtr", c, buf, o)
}
func (c *cPtr) mcFill(k int) { c.V = uint16(0x1234 + k*0x0101) }

// cVal has value receivers where it can.
type cVal struct {
	A uint32
	B [2]uint8
}

func (c cVal) ModelSizeBits() int { return 16 }
func (c cVal) ModelPack(e ref.Endian) ([]byte, error) {
	b := put16(e, uint16(c.A))
	logCall("pack", "cVal", b, e)
	return b, nil
}
func (c *cVal) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cVal", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	*c = cVal{A: uint32(get16(e, b))}
	return 2, nil
}
func (c cVal) SizeOf() int { return 2 }
func (c cVal) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cVal", c, buf, o)
}
func (c *cVal) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cVal", c, buf, o)
}
func (c *cVal) mcFill(k int) { c.A = uint32(uint16(0x2345 + k*0x0203)) }

// cByte is a custom type over a byte; its size differs from that of a byte.
type cByte uint8

func (c cByte) ModelSizeBits() int { return 16 }
func (c cByte) ModelPack(e ref.Endian) ([]byte, error) {
	b := put16(e, uint16(c)<<4|0xb)
	logCall("pack", "cByte", b, e)
	return b, nil
}
func (c *cByte) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cByte", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	*c = cByte(get16(e, b) >> 4)
	return 2, nil
}
func (c cByte) SizeOf() int { return 2 }
func (c cByte) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cByte", c, buf, o)
}
func (c *cByte) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cByte", c, buf, o)
}
func (c *cByte) mcFill(k int) { *c = cByte(0x11 + k*3) }

// cVar is as long as its value needs.
type cVar uint64

func (c *cVar) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c *cVar) ModelPack(e ref.Endian) ([]byte, error) {
	var b []byte
	for x := uint64(*c); ; x >>= 7 {
		if x < 0x80 {
			b = append(b, byte(x))
			break
		}
		b = append(b, byte(x)|0x80)
	}
	logCall("pack", "cVar", b, e)
	return b, nil
}
func (c *cVar) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cVar", buf, e)
	x, n := binary.Uvarint(buf)
	if n <= 0 {
		return 0, errCustomShort
	}
	*c = cVar(x)
	return n, nil
}
func (c *cVar) SizeOf() int {
	n := 1
	for x := uint64(*c); x >= 0x80; x >>= 7 {
		n++
	}
	return n
}
func (c *cVar) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cVar", c, buf, o)
}
func (c *cVar) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cVar", c, buf, o)
}
func (c *cVar) mcFill(k int) { *c = cVar([]uint64{1, 0x80, 0x4000, 0, 0x200000}[k%5]) }

// cStr is a string with its length in front.
type cStr string

func (c cStr) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c cStr) ModelPack(e ref.Endian) ([]byte, error) {
	b := append([]byte{byte(len(c))}, c...)
	logCall("pack", "cStr", b, e)
	return b, nil
}
func (c *cStr) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cStr", buf, e)
	b, err := short(buf, 1)
	if err != nil {
		return 0, err
	}
	n := int(b[0])
	if b, err = short(buf, n+1); err != nil {
		return 0, err
	}
	*c = cStr(b[1:])
	return n + 1, nil
}
func (c cStr) SizeOf() int { return 1 + len(c) }
func (c cStr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cStr", c, buf, o)
}
func (c *cStr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cStr", c, buf, o)
}
func (c *cStr) mcFill(k int) { *c = cStr("abcdefgh"[:k%4]) }

// cSl is a slice with its length in front, in the byte order in force.
type cSl []uint16

func (c cSl) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c cSl) ModelPack(e ref.Endian) ([]byte, error) {
	b := put16(e, uint16(len(c)))
	for _, x := range c {
		b = append(b, put16(e, ^x)...)
	}
	logCall("pack", "cSl", b, e)
	return b, nil
}
func (c *cSl) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cSl", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	n := int(get16(e, b))
	if b, err = short(buf, 2+2*n); err != nil {
		return 0, err
	}
	*c = make(cSl, n)
	for i := range *c {
		(*c)[i] = ^get16(e, b[2+2*i:])
	}
	return 2 + 2*n, nil
}
func (c cSl) SizeOf() int { return 2 + 2*len(c) }
func (c cSl) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cSl", c, buf, o)
}
func (c *cSl) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cSl", c, buf, o)
}
func (c *cSl) mcFill(k int) {
	*c = nil
	for i := 0; i < k%3; i++ {
		*c = append(*c, uint16(k*77+i))
	}
}

// cBits says its size in bits as well; that comes first.
type cBits struct{ X, Y uint64 }

func (c *cBits) ModelSizeBits() int { return 16 }
func (c *cBits) ModelPack(e ref.Endian) ([]byte, error) {
	b := []byte{byte(c.X), byte(c.Y)}
	logCall("pack", "cBits", b, e)
	return b, nil
}
func (c *cBits) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cBits", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	c.X, c.Y = uint64(b[0]), uint64(b[1])
	return 2, nil
}
func (c *cBits) SizeOf() int  { return 2 }
func (c *cBits) BitSize() int { return 16 }
func (c *cBits) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cBits", c, buf, o)
}
func (c *cBits) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cBits", c, buf, o)
}
func (c *cBits) mcFill(k int) { c.X, c.Y = uint64(byte(k)), uint64(byte(k*5+1)) }

// cArr has an array underneath and takes no space at all when it is zero.
type cArr [2]uint16

func (c *cArr) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c *cArr) ModelPack(e ref.Endian) ([]byte, error) {
	b := append(put16(e, c[1]), put16(e, c[0])...)
	logCall("pack", "cArr", b, e)
	return b, nil
}
func (c *cArr) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cArr", buf, e)
	b, err := short(buf, 4)
	if err != nil {
		return 0, err
	}
	c[1], c[0] = get16(e, b), get16(e, b[2:])
	return 4, nil
}
func (c *cArr) SizeOf() int { return 4 }
func (c *cArr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cArr", c, buf, o)
}
func (c *cArr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cArr", c, buf, o)
}
func (c *cArr) mcFill(k int) { c[0], c[1] = uint16(k*3+1), uint16(0x8000+k) }

// cText is a slice that has only pointer receivers.
type cText []byte

func (c *cText) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c *cText) ModelPack(e ref.Endian) ([]byte, error) {
	b := append(put16(e, uint16(len(*c))), *c...)
	logCall("pack", "cText", b, e)
	return b, nil
}
func (c *cText) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cText", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	n := int(get16(e, b))
	if b, err = short(buf, 2+n); err != nil {
		return 0, err
	}
	*c = append(cText{}, b[2:]...)
	return 2 + n, nil
}
func (c *cText) SizeOf() int { return 2 + len(*c) }
func (c *cText) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cText", c, buf, o)
}
func (c *cText) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cText", c, buf, o)
}
func (c *cText) mcFill(k int) { *c = cText("pqrs"[:k%3+1]) }

// cName is a string with only pointer receivers, at its end a zero.
type cName string

func (c *cName) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c *cName) ModelPack(e ref.Endian) ([]byte, error) {
	b := append([]byte(*c), 0)
	logCall("pack", "cName", b, e)
	return b, nil
}
func (c *cName) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cName", buf, e)
	for i, b := range buf {
		if b == 0 {
			*c = cName(buf[:i])
			return i + 1, nil
		}
	}
	return 0, errCustomShort
}
func (c *cName) SizeOf() int { return len(*c) + 1 }
func (c *cName) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cName", c, buf, o)
}
func (c *cName) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cName", c, buf, o)
}
func (c *cName) mcFill(k int) { *c = cName("tuvw"[:k%4]) }

// cFloat is a fixed point number in binary.
type cFloat float64

func (c *cFloat) ModelSizeBits() int { return 16 }
func (c *cFloat) ModelPack(e ref.Endian) ([]byte, error) {
	b := put16(e, uint16(*c*16))
	logCall("pack", "cFloat", b, e)
	return b, nil
}
func (c *cFloat) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cFloat", buf, e)
	b, err := short(buf, 2)
	if err != nil {
		return 0, err
	}
	*c = cFloat(get16(e, b)) / 16
	return 2, nil
}
func (c *cFloat) SizeOf() int { return 2 }
func (c *cFloat) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cFloat", c, buf, o)
}
func (c *cFloat) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cFloat", c, buf, o)
}
func (c *cFloat) mcFill(k int) { *c = cFloat(k) + 0.25 }

// cBool is as long as its value is, and has value receivers.
type cBool bool

func (c cBool) ModelSizeBits() int { return 8 * c.SizeOf() }
func (c cBool) ModelPack(e ref.Endian) ([]byte, error) {
	b := []byte("yes")
	if !c {
		b = []byte("no")
	}
	logCall("pack", "cBool", b, e)
	return b, nil
}
func (c *cBool) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cBool", buf, e)
	n := 2
	if len(buf) > 0 && buf[0] == 'y' {
		n = 3
	}
	if _, err := short(buf, n); err != nil {
		return 0, err
	}
	*c = n == 3
	return n, nil
}
func (c cBool) SizeOf() int {
	if c {
		return 3
	}
	return 2
}
func (c cBool) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cBool", c, buf, o)
}
func (c *cBool) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cBool", c, buf, o)
}
func (c *cBool) mcFill(k int) { *c = k%2 == 0 }

// failure is an error of a certain type.
type failure struct{ N int }

func (f failure) Error() string { return "failure" }

// failures is an error that cannot be compared.
type failures []string

func (f failures) Error() string { return "failures" }

// nilFailure is an error that can be a nil pointer.
type nilFailure struct{ n int }

func (f *nilFailure) Error() string { return "nil failure" }

// panicked stands for a method that panics.
type panicked struct{ v interface{} }

func (p panicked) Error() string { return fmt.Sprintf("panic: %v", p.v) }

func panics(err error) {
	if p, ok := err.(panicked); ok {
		if f, ok := p.v.(func()); ok {
			f()
		}
		panic(p.v)
	}
}

func runtimeError() (err error) {
	defer func() { err = recover().(error) }()
	return []error{}[len(callLog)-len(callLog)]
}

// errKinds are what methods fail with: cErr with the code 13+i fails with the
// error i.
var errKinds = []error{
	errCustom, io.EOF, io.ErrUnexpectedEOF, io.ErrShortBuffer, io.ErrShortWrite, io.ErrNoProgress,
	fmt.Errorf("wrapped: %w", io.EOF), os.ErrInvalid, strconv.ErrRange, &strconv.NumError{Func: "f", Num: "1", Err: strconv.ErrSyntax},
	failure{3}, &failure{4}, failures{"a", "b"}, &failures{}, (*nilFailure)(nil), errors.New(""), runtimeError(),
	&os.PathError{Op: "o", Path: "p", Err: io.EOF}, &reflect.ValueError{Method: "m", Kind: reflect.Int},
	restruct.ErrInvalidSize, restruct.ErrInvalidSizeOf, expr.ErrInvalidKind,
	panicked{"text"}, panicked{5}, panicked{errCustom}, panicked{io.EOF}, panicked{failure{7}}, panicked{failures{"c"}}, panicked{[]int{1}}, panicked{runtimeError()},
	panicked{func() { var m map[string]int; m["x"] = 1 }}, panicked{func() { var p *int; *p = 1 }}, panicked{func() { var e interface{} = 5; _ = e.(string) }},
}

func sameError(a, b error) (same bool) {
	defer func() {
		if recover() != nil {
			same = reflect.DeepEqual(a, b)
		}
	}()
	return a == b
}

// failed returns if the error is that of a method, and what it is expected to
// be in the end, if that is known.
func failed(err error) (want error, ok bool) {
	if p, ok := err.(panicked); ok {
		want, _ := p.v.(error)
		return want, true
	}
	if sameError(err, errCustomShort) {
		return err, true
	}
	for _, e := range errKinds {
		if sameError(err, e) {
			return err, true
		}
	}
	return nil, false
}

// cErr fails for certain values.
type cErr struct{ Code uint8 }

func (c *cErr) ModelSizeBits() int { return 8 }
func (c *cErr) ModelPack(e ref.Endian) ([]byte, error) {
	logCall("pack", "cErr", []byte{c.Code}, e)
	if i := int(c.Code) - 13; i >= 0 && i < len(errKinds) {
		return nil, errKinds[i]
	}
	return []byte{c.Code}, nil
}
func (c *cErr) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cErr", buf, e)
	b, err := short(buf, 1)
	if err != nil {
		return 0, err
	}
	if i := int(b[0]) - 13; i >= 0 && i < len(errKinds) {
		return 0, errKinds[i]
	}
	c.Code = b[0]
	return 1, nil
}
func (c *cErr) SizeOf() int { return 1 }
func (c *cErr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cErr", c, buf, o)
}
func (c *cErr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cErr", c, buf, o)
}
func (c *cErr) mcFill(k int) { c.Code = uint8(k%10 + 1) }

// cRest takes all that is left.
type cRest []byte

func (c cRest) ModelSizeBits() int { return 8 * len(c) }
func (c cRest) ModelPack(e ref.Endian) ([]byte, error) {
	logCall("pack", "cRest", c, e)
	return append([]byte{}, c...), nil
}
func (c *cRest) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cRest", buf, e)
	*c = append(cRest{}, buf...)
	return len(buf), nil
}
func (c cRest) SizeOf() int { return len(c) }
func (c cRest) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cRest", c, buf, o)
}
func (c *cRest) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cRest", c, buf, o)
}
func (c *cRest) mcFill(k int) { *c = cRest("wxyz"[:k%4+1]) }

// structs with custom types inside
type innerCustom struct {
	A uint8
	C cPtr
	V cVar
	S cStr
	T cText
	B uint16
}

type switchCustom struct {
	A cPtr  `struct:"case=1"`
	B *cVal `struct:"case=2"`
	C cVar  `struct:"case=3"`
	D []cByte
}

type switchCustom2 struct {
	A cPtr        `struct:"case=1"`
	B *cVal       `struct:"case=2"`
	C [2]cVar     `struct:"case=3"`
	D innerCustom `struct:"default"`
}

// cEmb has the methods of what it embeds, which leave the rest of it out.
type cEmb struct {
	CPtr
	X uint16
}

type CPtr struct{ cPtr }

// cTwo embeds two types with methods, and so has none of its own.
type cTwo struct {
	CPtr
	CByte
	X uint8
}

type CByte struct{ C cByte }

func (c CByte) ModelSizeBits() int                                 { return c.C.ModelSizeBits() }
func (c CByte) ModelPack(e ref.Endian) ([]byte, error)             { return c.C.ModelPack(e) }
func (c *CByte) ModelUnpack(buf []byte, e ref.Endian) (int, error) { return c.C.ModelUnpack(buf, e) }
func (c CByte) SizeOf() int                                        { return c.C.SizeOf() }
func (c CByte) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return c.C.Pack(buf, o)
}
func (c *CByte) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) { return c.C.Unpack(buf, o) }
func (c *CByte) mcFill(k int)                                          { c.C.mcFill(k) }

// The next ones have some of the methods only. They write and read what the
// library would, so that only the calls tell.

// cUnpacks is read by its method.
type cUnpacks struct {
	A uint8
	B [2]uint8
}

func (c *cUnpacks) ModelUnpack(buf []byte, e ref.Endian) (int, error) {
	logCall("unpack", "cUnpacks", buf, e)
	b, err := short(buf, 3)
	if err != nil {
		return 0, err
	}
	c.A, c.B = b[0], [2]uint8{b[1], b[2]}
	return 3, nil
}
func (c *cUnpacks) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libUnpack("cUnpacks", c, buf, o)
}

// cPacks has no size of its own, without which it is no Packer: its method is
// not called.
type cPacks [3]uint8

func (c cPacks) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	logCall("pack", "cPacks", c[:], ref.OrderOf(o))
	return buf[copy(buf[:3], c[:]):], nil
}

// cSized knows its size, and is read as the library does.
type cSized struct{ A, B uint8 }

func (c *cSized) SizeOf() int        { return 2 }
func (c *cSized) ModelSizeBits() int { return 16 }
func (c *cSized) ModelPack(e ref.Endian) ([]byte, error) {
	b := []byte{c.A, c.B}
	logCall("pack", "cSized", b, e)
	return b, nil
}
func (c *cSized) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return libPack("cSized", c, buf, o)
}

var customTypes = []interface{}{cPtr{}, cVal{}, cByte(0), cVar(0), cStr(""), cSl{}, cBits{}, cArr{}, cText{}, cName(""), cFloat(0), cBool(false), cEmb{}, cTwo{}, cUnpacks{}, cPacks{}, cSized{}, cMap{}, cOpaque{}, cRe{}}

var customAtoms = func() []Atom {
	out := []Atom{}
	for _, x := range customTypes {
		t := reflect.TypeOf(x)
		n := t.Name()
		out = append(out,
			Atom{Name: n, Fields: []fieldSpec{{"F$", t, ""}}},
			Atom{Name: n + "-big", Fields: []fieldSpec{{"F$", t, st("big")}}},
			Atom{Name: n + "-little", Fields: []fieldSpec{{"F$", t, st("little")}}},
			Atom{Name: n + "-skip", Fields: []fieldSpec{{"F$", t, st("skip=2")}}},
			Atom{Name: n + "-if", Fields: []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), {"F$", t, st("if=K$ == 1")}}},
			Atom{Name: n + "-if-skip-big", Fields: []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), {"F$", t, st("big,if=K$ == 1,skip=1")}}},
			Atom{Name: "*" + n, Fields: []fieldSpec{{"F$", reflect.PtrTo(t), ""}}},
			Atom{Name: "*" + n + "-skip-big", Fields: []fieldSpec{{"F$", reflect.PtrTo(t), st("skip=1,big")}}},
			Atom{Name: "[2]" + n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, t), ""}}},
			Atom{Name: "[2]*" + n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, reflect.PtrTo(t)), st("big")}}},
			Atom{Name: "[]" + n, Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(t), ""}}},
			Atom{Name: "[]" + n + "-skip-little", Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(t), st("skip=1,little")}}},
			Atom{Name: "[]*" + n, Fields: []fieldSpec{fs("N$", uint16(0), ""), {"F$", reflect.SliceOf(reflect.PtrTo(t)), st("sizefrom=N$")}}},
			Atom{Name: "[]" + n + "-size", Fields: []fieldSpec{fs("K$", uint8(0), `struct:"uint8" mc:"0,2"`), {"F$", reflect.SliceOf(t), st("size=K$ + 1")}}},
			Atom{Name: "[2][2]" + n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, reflect.ArrayOf(2, t)), ""}}},
		)
	}
	out = append(out,
		one("innerCustom", innerCustom{}, ""),
		one("innerCustom-big", innerCustom{}, "big"),
		one("[2]innerCustom", [2]innerCustom{}, ""),
		one("*innerCustom", (*innerCustom)(nil), ""),
		many("switchCustom", fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3,4"`), fs("F$", switchCustom2{}, "switch=K$")),
		many("switchCustom-big-skip", fs("K$", uint8(0), `struct:"uint8" mc:"1,2,3,4"`), fs("F$", switchCustom2{}, "big,skip=1,switch=K$")),
	)
	return out
}()

var customLast = []Atom{
	{Name: "cRest", Last: true, Fields: []fieldSpec{fs("F$", cRest{}, "")}},
	{Name: "*cRest", Last: true, Fields: []fieldSpec{fs("F$", (*cRest)(nil), "")}},
	{Name: "while-cVar", Last: true, Fields: []fieldSpec{fs("F$", []cVar{}, "while=!_eof")}},
	{Name: "while-cPtr", Last: true, Fields: []fieldSpec{fs("F$", []*cPtr{}, "while=!_eof")}},
}

// customCore is for the longer sequences.
var customCore = func() (out []Atom) {
	for _, n := range []string{"cPtr", "cVal-if", "cByte", "*cVar", "[2]cStr", "[]cVar", "[]*cPtr", "cSl-big", "[2]cByte", "cBits-skip", "cText", "cName", "innerCustom", "switchCustom", "*cPtr"} {
		for _, a := range customAtoms {
			if a.Name == n {
				out = append(out, a)
			}
		}
	}
	return append(out, pickAtoms("u8", "u32", "struct-big", "bytes-sizeof")...)
}()

const customFlags = fPack | fSizes | fUnpack | fRoundTrip | fByValue | fDirty

// manyCustom are the elements of long lists.
func manyCustom() (out []interface{}) {
	for _, x := range customTypes {
		out = append(out, x, reflect.Zero(reflect.PtrTo(rt(x))).Interface())
	}
	return
}

// calls checks that the methods of custom types are called once for each
// value, in order, with the byte order in force.
func calls(c *mc.Ctx, k *Case) {
	m := &ref.Model{}
	mv := deepCopy(k.V)
	callLog = nil
	s, merr := m.Encode(mv, k.O.E)
	want := callLog
	if merr == ref.ErrUnspecified {
		return
	}
	callLog = nil
	iv := deepCopy(k.V)
	_, err := pack(c, k, "", k.O.O, iv.Addr().Interface())
	compareCalls(c, k, "Pack", callLog, want)
	if merr != nil {
		compareError(c, k, "Pack", err, merr)
		return
	}
	data := s.Bytes()

	// A byte order of its own in front of the data, and more behind.
	for _, in := range [][]byte{data, append(append([]byte{}, data...), 1, 2, 3), data[:len(data)/2]} {
		callLog = nil
		dv := reflect.New(k.T).Elem()
		_, derr := m.Decode(in, dv, k.O.E)
		want := callLog
		if derr == ref.ErrUnspecified {
			continue
		}
		callLog = nil
		uv := reflect.New(k.T).Elem()
		err := unpack(c, k, "", in, k.O.O, uv.Addr().Interface())
		compareDecoded(c, k, fmt.Sprintf("Unpack of %x", in), callLog, want, derr)
		compareError(c, k, "Unpack", err, derr)
	}
	callLog = nil
	c.Trace(4)
}

// compareDecoded compares the calls made on reading. Once the input is found to
// be too short, it does not matter how far the reading got.
func compareDecoded(c *mc.Ctx, k *Case, what string, got, want []string, derr error) {
	if derr == ref.ErrShort {
		n := len(got)
		if n > len(want) {
			n = len(want)
		}
		got, want = got[:n], want[:n]
	}
	compareCalls(c, k, what, got, want)
}

func compareCalls(c *mc.Ctx, k *Case, what string, got, want []string) {
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.Fail("%s calls the methods of custom types like this:\n  %s\nexpected:\n  %s\n%s", what, strings.Join(got, "\n  "), strings.Join(want, "\n  "), k)
	}
}

func compareError(c *mc.Ctx, k *Case, what string, got, want error) {
	if err, ok := failed(want); ok {
		if got == nil {
			c.Fail("%s succeeds, the method of a custom type failed with %T(%v)\n%s", what, want, want, k)
		}
		if err != nil && !sameError(got, err) {
			c.Fail("%s gives the error %T(%v), the method of a custom type failed with %T(%v)\n%s", what, got, got, want, want, k)
		}
	}
}

func withCalls(s mc.Space, f func(c *mc.Ctx) *Case, flags int) mc.Space {
	s.Run = func(c *mc.Ctx) {
		k := f(c)
		k.Flags = flags
		check(c, k)
		calls(c, k)
	}
	return s
}

func customSequences(name string, from []Atom, n int, ords []Order, patterns int, lens []int, flags int, last []Atom) mc.Space {
	return withCalls(mc.Space{Name: name, Bounds: boundsOf(from, n, ords, patterns, lens) + ", calls of their methods logged"}, func(c *mc.Ctx) *Case {
		atoms := chooseAtoms(c, from, n)
		if last != nil {
			atoms = append(atoms, last[c.Choose(len(last))])
		}
		c.Mine()
		if last == nil {
			atoms = append(atoms, sentinel)
		}
		t := typeOf(atoms)
		o := ords[c.Choose(len(ords))]
		p := patternAt(c.Choose(patterns))
		return &Case{T: t, V: Fill(c, t, p, lens), O: o}
	}, flags)
}

func customNestings(name string, from []Atom, depth int, ords []Order, lens []int, flags int) mc.Space {
	return withCalls(mc.Space{Name: name, Bounds: fmt.Sprintf("%d custom field kinds in all nestings of depth %d of %d wrappers, calls logged", len(from), depth, len(wrappers))}, func(c *mc.Ctx) *Case {
		a := from[c.Choose(len(from))]
		t := StructOf(a, sentinel)
		for i := 0; i < depth; i++ {
			w := wrappers[c.Choose(len(wrappers))]
			if i == depth-1 {
				c.Mine()
			}
			t = StructOf(w.atom(t, ""), sentinel)
		}
		o := ords[c.Choose(len(ords))]
		return &Case{T: t, V: Fill(c, t, 1, lens), O: o}
	}, flags)
}

// customTop is the space of custom types handed to the library directly.
func customTop(name string) mc.Space {
	var ts []reflect.Type
	for _, x := range append(customTypes, cErr{}) {
		t := reflect.TypeOf(x)
		ts = append(ts, t, reflect.ArrayOf(2, t), reflect.ArrayOf(2, reflect.PtrTo(t)))
	}
	ts = append(ts, rt(innerCustom{}), rt([2]innerCustom{}))
	return withCalls(mc.Space{Name: name, Bounds: fmt.Sprintf("%d custom types and arrays of them passed directly, by value, by pointer and by pointer to pointer, 5 byte orders", len(ts))}, func(c *mc.Ctx) *Case {
		t := ts[c.Choose(len(ts))]
		c.Mine()
		o := allOrders[c.Choose(len(allOrders))]
		p := c.Choose(4)
		return &Case{T: t, V: Fill(c, t, patternAt(p), []int{0, 1, 2}), O: o}
	}, customFlags)
}

// customErrors is the space of methods that fail, wherever they are.
func customErrors(name string, n int, kinds []uint8) mc.Space {
	from := []Atom{
		one("cErr", cErr{}, ""),
		one("*cErr", (*cErr)(nil), ""),
		one("[2]cErr", [2]cErr{}, ""),
		one("cErr-skip", cErr{}, "skip=1"),
		many("[]cErr", fs("N$", uint8(0), "sizeof=F$"), fs("F$", []cErr{}, "")),
		many("cErr-if", fs("K$", uint8(0), `struct:"uint8" mc:"0,1"`), fs("F$", cErr{}, "if=K$ == 1")),
		many("switch-cErr", fs("K$", uint8(0), `struct:"uint8" mc:"1,2"`), fs("F$", struct {
			A cErr   `struct:"case=1"`
			B uint16 `struct:"default"`
		}{}, "switch=K$")),
		many("while-cErr", fs("F$", []cErr{}, "while=!_eof")),
		one("struct of cErr", struct{ A, B cErr }{}, ""),
		many("size-cErr", fs("F$", []cErr{}, "size=2")),
		one("u16", uint16(0), ""),
		one("cPtr", cPtr{}, ""),
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of %d of %d field kinds, every subset of the custom values failing with one of %d errors and panics, on Pack and on Unpack", n, len(from), len(kinds)),
		Run: func(c *mc.Ctx) {
			atoms := append(chooseAtoms(c, from, n), sentinel)
			c.Mine()
			code := kinds[c.Choose(len(kinds))]
			t := typeOf(atoms)
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{2})
			good := deepCopy(v)
			var codes []*cErr
			collect(v, &codes)
			bad := false
			for _, e := range codes {
				if c.Bool() {
					e.Code = code
					bad = true
				}
			}
			k := &Case{T: t, V: v, O: o}
			c.State(1)
			calls(c, k)
			if !bad {
				return
			}
			// The same failure on reading: encode a value that does not fail,
			// then put the failing code where it would be.
			m := &ref.Model{}
			s, err := m.Encode(deepCopy(good), o.E)
			if err != nil {
				return
			}
			c.Step(m.Steps)
			data := s.Bytes()
			for i := range data {
				d2 := append([]byte{}, data...)
				d2[i] = code
				callLog = nil
				dv := reflect.New(t).Elem()
				in, derr := m.Decode(d2, dv, o.E)
				want := callLog
				if derr == ref.ErrUnspecified {
					continue
				}
				callLog = nil
				uv := reflect.New(t).Elem()
				err := unpack(c, k, "", d2, o.O, uv.Addr().Interface())
				compareDecoded(c, k, fmt.Sprintf("Unpack of %x", d2), callLog, want, derr)
				compareError(c, k, fmt.Sprintf("Unpack of %x", d2), err, derr)
				if derr == nil && in.Pos <= 8*len(d2) || derr != nil {
					compareUnpacked(c, k, "", d2, uv, err, dv, derr)
				}
				c.Trace(1)
			}
			callLog = nil
		},
	}
}

func errCodes() (out []uint8) {
	for i := range errKinds {
		out = append(out, uint8(13+i))
	}
	return
}

func collect(v reflect.Value, out *[]*cErr) {
	if e, ok := v.Addr().Interface().(*cErr); ok {
		*out = append(*out, e)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			collect(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				collect(v.Field(i), out)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), out)
		}
	}
}

// customNil is the space of nil pointers to custom types.
func customNil(name string) mc.Space {
	var from []Atom
	for _, a := range customAtoms {
		if strings.Contains(a.Name, "*") {
			from = append(from, a)
		}
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of pointers to custom types, every subset nil", len(from)),
		Run: func(c *mc.Ctx) {
			a := from[c.Choose(len(from))]
			c.Mine()
			t := typeOf([]Atom{a, sentinel})
			o := orders[c.Choose(2)]
			v := Fill(c, t, 1, []int{0, 2})
			cutPointers(c, v)
			k := &Case{T: t, V: v, O: o, Flags: fPack | fSizes | fByValue}
			check(c, k)
			callLog = nil
			m := &ref.Model{}
			m.Encode(deepCopy(v), o.E)
			want := callLog
			callLog = nil
			pack(c, k, "", o.O, deepCopy(v).Addr().Interface())
			compareCalls(c, k, "Pack", callLog, want)
			callLog = nil
		},
	}
}

func propC09() *mc.Property {
	return &mc.Property{ID: "C09", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{"Custom types start on byte boundaries: their methods work on bytes."},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				customTop("top level"),
				customSequences("one", customAtoms, 1, allOrders, 4, []int{0, 1, 2, 3}, customFlags|fTrunc, nil),
				customSequences("pairs", customAtoms, 2, orders, 1, []int{0, 2}, customFlags, nil),
				customSequences("triples", customCore, 3, orders, 1, []int{2}, customFlags, nil),
				customSequences("last", customAtoms, 1, orders, 2, []int{2}, fPack|fSizes|fUnpackExact|fRoundTrip, customLast),
				customNestings("nested", customAtoms, 1, orders, []int{2}, customFlags),
				customNestings("nested2", customCore, 2, orders, []int{2}, customFlags),
				customErrors("failing methods", 3, []uint8{13}),
				customErrors("kinds of failures", 2, errCodes()),
				customNil("nil pointers"),
				customInterfaces("interfaces"),
				longLists("long lists", customFlags, true, manyCustom()),
				deep(customSequences("quadruples", customCore, 4, orders, 1, []int{2}, customFlags, nil)),
				deep(customNestings("nested3", customCore, 3, orders, []int{1}, customFlags)),
			}
		}}
}

var _ = restruct.Pack

// Types that know their size in bits: by that alone, along with a size in
// bytes that is something else, or along with one of its own.
type bsOnly struct{ N int }

func (b *bsOnly) BitSize() int                         { return b.N }
func (b *bsOnly) ModelSizeBits() int                   { return b.N }
func (b *bsOnly) ModelPack(ref.Endian) ([]byte, error) { panic("packed") }
func (b *bsOnly) ModelOnlySize()                       {}
func (b *bsOnly) mcFill(k int)                         { b.N = k * 3 % 29 }

type bsVal int16

func (b bsVal) BitSize() int                         { return int(b) }
func (b bsVal) ModelSizeBits() int                   { return int(b) }
func (b bsVal) ModelPack(ref.Endian) ([]byte, error) { panic("packed") }
func (b bsVal) ModelOnlySize()                       {}
func (b *bsVal) mcFill(k int)                        { *b = bsVal(k * 7 % 31) }

type bsBoth struct{ N [3]uint8 }

func (b *bsBoth) BitSize() int                         { return int(b.N[0]) }
func (b *bsBoth) SizeOf() int                          { return int(b.N[0])/8 + 1 }
func (b *bsBoth) ModelSizeBits() int                   { return int(b.N[0]) }
func (b *bsBoth) ModelPack(ref.Endian) ([]byte, error) { panic("packed") }
func (b *bsBoth) ModelOnlySize()                       {}
func (b *bsBoth) mcFill(k int)                         { b.N[0] = uint8(k * 5 % 37) }

type bsList []uint16

func (b bsList) BitSize() int                         { return 11 * len(b) }
func (b bsList) SizeOf() int                          { return 100 }
func (b bsList) ModelSizeBits() int                   { return 11 * len(b) }
func (b bsList) ModelPack(ref.Endian) ([]byte, error) { panic("packed") }
func (b bsList) ModelOnlySize()                       {}
func (b *bsList) mcFill(k int)                        { *b = make(bsList, k%5) }

type bsBytes string

func (b *bsBytes) SizeOf() int                          { return 2*len(*b) + 1 }
func (b *bsBytes) ModelSizeBits() int                   { return 16*len(*b) + 8 }
func (b *bsBytes) ModelPack(ref.Endian) ([]byte, error) { panic("packed") }
func (b *bsBytes) ModelOnlySize()                       {}
func (b *bsBytes) mcFill(k int)                         { *b = bsBytes("abcdefg"[:k%7]) }

// bitSizers is the space of the sizes of types that know their size.
func bitSizers(name string) mc.Space {
	ts := []reflect.Type{rt(bsOnly{}), rt(bsVal(0)), rt(bsBoth{}), rt(bsList{}), rt(bsBytes(""))}
	var from []Atom
	for _, t := range ts {
		n := t.Name()
		from = append(from,
			Atom{Name: n, Fields: []fieldSpec{{"F$", t, ""}}},
			Atom{Name: n + "-skip", Fields: []fieldSpec{{"F$", t, st("skip=2,big")}}},
			Atom{Name: "*" + n, Fields: []fieldSpec{{"F$", reflect.PtrTo(t), ""}}},
			Atom{Name: "[3]" + n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(3, t), ""}}},
			Atom{Name: "[2]*" + n, Fields: []fieldSpec{{"F$", reflect.ArrayOf(2, reflect.PtrTo(t)), ""}}},
			Atom{Name: "[]" + n, Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(t), ""}}},
			Atom{Name: "[]*" + n, Fields: []fieldSpec{fs("N$", uint8(0), "sizeof=F$"), {"F$", reflect.SliceOf(reflect.PtrTo(t)), st("skip=1")}}},
			Atom{Name: n + "-if", Fields: []fieldSpec{fs("K$", uint8(0), mcTag("uint8", "0,1")), {"F$", t, st("if=K$ == 1")}}},
		)
	}
	from = append(from, pickAtoms("u8", "u8:3", "u16:12", "bytes-sizeof", "pad3bits")...)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d kinds of types with methods for their size, any number of bits, in pairs, within %d wrappers or none, 3 values, lengths 0 and 2, by pointer and by value; sizes only", len(from), len(wrappers)),
		Run: func(c *mc.Ctx) {
			a := chooseAtoms(c, from, 2)
			w := c.Choose(len(wrappers) + 1)
			c.Mine()
			t := StructOf(append(a, sentinel)...)
			if w < len(wrappers) {
				t = StructOf(wrappers[w].atom(t, ""), sentinel)
			}
			v := Fill(c, t, patternAt(c.Choose(3)), []int{0, 2})
			check(c, &Case{T: t, V: v, O: orders[0], Flags: fSizes})
			n, nbits, err := sizes(c, &Case{T: t, V: v, O: orders[0]}, "by value", deepCopy(v).Interface())
			s, merr := (&ref.Model{}).Encode(deepCopy(v), ref.Little)
			if merr == nil && (err != nil || nbits != len(s.Bit) || n != (len(s.Bit)+7)/8) {
				c.Fail("by value: SizeOf %d, BitSize %d, error %v; the fields occupy %d bits\ntype %s value %s", n, nbits, err, len(s.Bit), ref.ShowType(t), ref.Show(v))
			}
			c.Trace(2)
		},
	}
}
