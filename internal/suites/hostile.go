package suites

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"time"

	"github.com/go-restruct/restruct"

	"verif/internal/mc"
	"verif/internal/ref"
)

// C04: truncated and hostile input.
func propC04() *mc.Property {
	return &mc.Property{ID: "C04", Technique: tech, Level: "model_checking", LevelNote: note,
		CaseTimeout: 60 * time.Second,
		Assumptions: []string{
			"Elements occupy at least one bit; slices of elements of no size at all are as long as their counter says.",
			"When only padding is cut off, either outcome is accepted.",
			"The memory bound is 4 MB plus 64 times what the input would fill as elements.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				sequences("truncations", catalog, 1, orders, 3, []int{0, 1, 3}, fTrunc, nil),
				offsets("truncations at offsets", catalog, orders, 1, []int{2}, fTrunc),
				sequences("truncated pairs", join(core, parentAtoms[:1]), 2, orders, 1, []int{2}, fTrunc, nil),
				nestings("truncated nestings", catalog, 1, orders, 1, []int{2}, fTrunc),
				sequences("truncated open ended", catalog, 1, orders, 1, []int{2}, fTrunc, lastAtoms),
				customSequences("truncated custom types", customAtoms, 1, orders, 2, []int{2}, fTrunc, nil),
				topLevel("truncated top level", fTrunc),
				shortInputs("all short inputs", 5, false),
				hostileCounters("hostile counters"),
				hostileLarge("large hostile input"),
				hostileNested("hostile nested counters"),
				hostileExprs("hostile expressions"),
				deepInputs("deeply nested input"),
				deep(shortInputs("all longer inputs", 6, true)),
				deep(sequences("truncated triples", core, 3, orders, 1, []int{1}, fTrunc, nil)),
				deep(nestings("truncated nestings 2", core, 2, orders, 1, []int{1}, fTrunc)),
			}
		}}
}

var dynamic = join(stringAtoms, sliceAtoms, exprAtoms, parentAtoms, pointerAtoms, structAtoms, bitAtoms[3:6], skipAtoms[7:], padAtoms[:4], arrayAtoms[6:9], boolAtoms[:3], lastAtoms, []Atom{
	many("two-slices", fs("N$", uint8(0), "sizeof=S$"), fs("M$", uint8(0), "sizeof=T$"), fs("S$", []uint8{}, ""), fs("T$", []uint16{}, "")),
	many("i8-count", fs("N$", int8(0), "sizeof=S$"), fs("S$", []uint8{}, "")),
	many("i16-count", fs("N$", int16(0), "sizeof=S$"), fs("S$", "", "")),
	many("u32-count", fs("N$", uint32(0), "sizeof=S$"), fs("S$", []bool{}, "")),
	many("i64-count", fs("N$", int64(0), "sizeof=S$"), fs("S$", []inner{}, "")),
	many("u4-count", fs("N$", uint8(0), "uint8:4,sizeof=S$"), fs("S$", []uint8{}, "")),
	many("u4-str", fs("N$", uint8(0), "uint8:4,sizeof=S$"), fs("S$", "", "")),
	one("slice-of-slices", [2][]innerDyn{}, ""),
})

// shortInputs is the space of all short inputs.
func shortInputs(name string, max int, wide bool) mc.Space {
	alphabet := []byte{0x00, 0x01, 0x02, 0x03, 0x80, 0xff}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d dynamic field kinds with a sentinel behind, all inputs of up to %d bytes of %x, 2 byte orders", len(dynamic), max, alphabet),
		Run: func(c *mc.Ctx) {
			a := dynamic[c.Choose(len(dynamic))]
			n := c.Choose(max + 1)
			c.Mine()
			t := typeOf([]Atom{a, sentinel})
			if a.Last {
				t = typeOf([]Atom{a})
			}
			o := orders[c.Choose(2)]
			data := make([]byte, n)
			for i := range data {
				data[i] = alphabet[c.Choose(len(alphabet))]
			}
			checkDecode(c, &Case{T: t, V: reflect.New(t).Elem(), O: o}, data)
		},
	}
}

// measured unpacks hostile input under a limit of memory.
func measured(c *mc.Ctx, k *Case, data []byte, elem uintptr) error {
	var before, after runtime.MemStats
	uv := reflect.New(k.T)
	input := append([]byte{}, data...)
	runtime.ReadMemStats(&before)
	var err error
	safely(c, "Unpack", func() string { return fmt.Sprintf("input %s %s", shortHex(data), k) }, func() { err = restruct.Unpack(data, k.O.O, uv.Interface()) })
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	limit := uint64(4<<20) + 64*8*uint64(len(data))*uint64(elem+16)
	if used > limit {
		c.Fail("Unpack of the %d bytes %s allocates %d bytes\n%s", len(data), shortHex(data), used, k)
	}
	if !bytes.Equal(input, data) {
		c.Fail("Unpack modifies its input %s\n%s", shortHex(input), k)
	}
	c.Trace(1)
	c.State(1)
	return err
}

func shortHex(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x...", b[:40])
	}
	return fmt.Sprintf("%x", b)
}

type wideElem struct {
	A uint8      `struct:"uint8:1"`
	B [64]uint64 `struct:"-"`
}

// hostileCounters is the space of counters that promise more than there is.
func hostileCounters(name string) mc.Space {
	counters := []interface{}{uint8(0), uint16(0), uint32(0), uint64(0), int8(0), int16(0), int32(0), int64(0)}
	values := []uint64{0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 1 << 20, 1 << 24, 1<<28 + 1, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1<<32 + 1, 1<<32 + 7, 1 << 40, 1<<40 + 1, 1 << 47, 1 << 48, 1<<60 + 5, 1<<62 - 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
	elems := []reflect.Type{rt([]byte{}), rt([]uint16{}), rt([]uint64{}), rt(""), rt([]bool{}), rt([]inner{}), rt([]*inner{}), rt([]innerDyn{}), rt([]wideElem{}), rt([][4]uint32{}), rt([]innerBits{}), rt([]cPtr{}), rt([]cByte{}), rt([]*uint8{})}
	tags := []string{"", "skip=1", "big", "[]uint16"}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d counter types, %d values of theirs, %d element types, %d tags, sizeof and sizefrom, 4 amounts of input left", len(counters), len(values), len(elems), len(tags)),
		Run: func(c *mc.Ctx) {
			ct := rt(counters[c.Choose(len(counters))])
			et := elems[c.Choose(len(elems))]
			tag := tags[c.Choose(len(tags))]
			from := c.Bool()
			c.Mine()
			if tag == "[]uint16" && et != rt("") {
				c.Prune()
			}
			x := values[c.Choose(len(values))]
			left := []int{0, 1, 7, 100}[c.Choose(4)]
			t := StructOf(many("hostile", fs("N", reflect.Zero(ct).Interface(), "sizeof=S"), fieldSpec{"S", et, st(tag)}))
			if from {
				sep := tag
				if sep != "" {
					sep += ","
				}
				t = StructOf(many("hostile", fs("N", reflect.Zero(ct).Interface(), ""), fieldSpec{"S", et, st(sep + "sizefrom=N")}))
			}
			n := int(ct.Size())
			data := make([]byte, n+left)
			for i := 0; i < n; i++ {
				data[i] = byte(x >> uint(8*i))
			}
			for i := n; i < len(data); i++ {
				data[i] = 1
			}
			k := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			elem := et.Size()
			if et.Kind() == reflect.Slice {
				elem = et.Elem().Size()
			}
			err := measured(c, k, data, elem)
			m := &ref.Model{}
			dv := reflect.New(t).Elem()
			in, derr := m.Decode(data, dv, k.O.E)
			c.Step(m.Steps)
			if derr == nil && in.Pos > 8*len(data) || derr == ref.ErrUnspecified {
				return
			}
			if (err == nil) != (derr == nil) {
				c.Fail("Unpack of %s gives the error %v, the model %v\n%s", shortHex(data), err, derr, k)
			}
		},
	}
}

// hostileLarge is the space of counters that promise more than there is when
// there is a lot.
func hostileLarge(name string) mc.Space {
	elems := []reflect.Type{rt([]byte{}), rt([]uint16{}), rt([]uint64{}), rt(""), rt([]bool{}), rt([]inner{}), rt([]*inner{}), rt([]wideElem{}), rt([][4]uint32{}), rt([]innerBits{}), rt([]cPtr{}), rt([]*uint8{})}
	values := []uint64{1<<20 + 1, 1 << 26, 0x7fffffff, 0xffffffff, 1 << 40, 1<<62 - 1}
	lens := []int{1000, 4096, 5000, 20000, 65536}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d element types, %d counts, inputs of %v bytes, sizeof, sizefrom and size, in front and one level down", len(elems), len(values), lens),
		Run: func(c *mc.Ctx) {
			et := elems[c.Choose(len(elems))]
			how := c.Choose(3)
			c.Mine()
			x := values[c.Choose(len(values))]
			left := lens[c.Choose(len(lens))]
			nested := c.Bool()
			var fields []fieldSpec
			switch how {
			case 0:
				fields = many("large", fs("N", uint64(0), "sizeof=S"), fieldSpec{"S", et, ""}).Fields
			case 1:
				fields = many("large", fs("N", uint64(0), ""), fieldSpec{"S", et, st("sizefrom=N")}).Fields
			case 2:
				fields = many("large", fs("N", uint64(0), ""), fieldSpec{"S", et, st("size=N")}).Fields
			}
			t := StructOf(Atom{Name: "large", Fields: fields})
			if nested {
				t = StructOf(many("outer", fieldSpec{"I", reflect.SliceOf(t), st("size=1")}))
			}
			data := make([]byte, 8+left)
			for i := 0; i < 8; i++ {
				data[i] = byte(x >> uint(8*i))
			}
			for i := 8; i < len(data); i++ {
				data[i] = 1
			}
			k := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			elem := uintptr(1)
			if et.Kind() == reflect.Slice {
				elem = et.Elem().Size()
			}
			err := measured(c, k, data, elem)
			if err == nil {
				c.Fail("Unpack of %d elements from %d bytes gives no error\n%s", x, left, k)
			}
			c.Step(1)
		},
	}
}

type hostileOuter struct {
	N uint8 `struct:"sizeof=S"`
	S []hostileInner
}

type hostileInner struct {
	N uint32 `struct:"sizeof=S"`
	S []uint64
}

type hostileStr struct {
	N uint32 `struct:"sizeof=S"`
	S []struct {
		L uint64 `struct:"sizeof=T"`
		T string
	}
}

type hostilePtr struct {
	N uint64 `struct:"sizeof=S"`
	S []*struct {
		L int64 `struct:"sizeof=T"`
		T []*inner
	}
}

// hostileNested is the space of counters inside of counted elements.
func hostileNested(name string) mc.Space {
	ts := []reflect.Type{rt(hostileOuter{}), rt(hostileInner{}), rt(hostileStr{}), rt(hostilePtr{})}
	words := [][]byte{{0}, {1}, {0xff}, {0, 0, 0, 0}, {2, 0, 0, 0}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0x40}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0, 1, 0, 0, 0}, {3, 0, 0, 0, 0, 0, 0, 0}}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d nested counted types, all sequences of up to 4 of %d words as input", len(ts), len(words)),
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			n := c.Choose(5)
			var data []byte
			for i := 0; i < n; i++ {
				data = append(data, words[c.Choose(len(words))]...)
				if i == 1 {
					c.Mine()
				}
			}
			c.Mine()
			k := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			err := measured(c, k, data, 64)
			m := &ref.Model{}
			_, derr := m.Decode(data, reflect.New(t).Elem(), k.O.E)
			c.Step(m.Steps)
			if (err == nil) != (derr == nil) {
				c.Fail("Unpack of %s gives the error %v, the model %v\n%s", shortHex(data), err, derr, k)
			}
		},
	}
}

// hostileExprs is the space of inputs that drive expressions to extremes.
func hostileExprs(name string) mc.Space {
	types := []reflect.Type{
		rt(struct {
			K int32
			S []uint64 `struct:"size=K"`
		}{}),
		rt(struct {
			K uint32
			S string `struct:"size=K"`
		}{}),
		rt(struct {
			K int8
			S []byte `struct:"size=K"`
		}{}),
		rt(struct {
			K int16
			S []inner `struct:"size=K - 5"`
		}{}),
		rt(struct {
			K uint64
			S []innerDyn `struct:"size=K * 2"`
		}{}),
		rt(struct {
			K uint64
			S []*inner `struct:"size=K"`
		}{}),
		rt(struct {
			K uint8
			B uint32 `struct:"bits=K"`
		}{}),
		rt(struct {
			K uint8
			B uint64 `struct:"bits=K,little"`
		}{}),
		rt(struct {
			K int8
			B uint8 `struct:"bits=K"`
			C uint8
		}{}),
		rt(struct {
			K uint8
			B uint8 `struct:"if=10 / K > 2"`
		}{}),
		rt(struct {
			K uint8
			S [4]uint8
			B uint8 `struct:"if=S[K] == 1"`
		}{}),
		rt(struct {
			K uint8
			N uint8
			B uint8 `struct:"if=K % N == 0"`
		}{}),
		rt(struct {
			K uint8
			B uint16 `struct:"skip=200"`
		}{}),
		rt(struct {
			K uint8
			B []uint16 `struct:"size=1 << K"`
		}{}),
		rt(struct {
			K uint8
			S []uint8 `struct:"while=100 / K > 10"`
		}{}),
		rt(struct {
			K uint8
			B uint8 `struct:"in=B / K"`
		}{}),
		rt(struct {
			K uint8
			W struct {
				A uint8 `struct:"case=1"`
				B uint8 `struct:"case=2"`
			} `struct:"switch=4 / K"`
		}{}),
	}
	alphabet := []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0xff}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d types with expressions over the input, all inputs of up to 4 bytes of %x, alone and with 200 bytes behind, 2 byte orders", len(types), alphabet),
		Run: func(c *mc.Ctx) {
			t := types[c.Choose(len(types))]
			n := c.Choose(5)
			c.Mine()
			o := orders[c.Choose(2)]
			data := make([]byte, n)
			for i := range data {
				data[i] = alphabet[c.Choose(len(alphabet))]
			}
			if c.Bool() {
				data = append(data, bytes.Repeat([]byte{1}, 200)...)
			}
			k := &Case{T: t, V: reflect.New(t).Elem(), O: o}
			measured(c, k, data, 64)
			c.Step(1)
		},
	}
}

// chains of values as deep as the input is long
type deepChain struct {
	More uint8
	Next *deepChain `struct:"if=More == 1"`
}

type deepTree struct {
	N    uint8 `struct:"sizeof=Kids"`
	Kids []deepTree
}

type deepWhile struct {
	A    uint8
	Kids []deepWhile `struct:"while=!_eof"`
}

type deepSwitch struct {
	T uint8
	B struct {
		A *deepSwitch `struct:"case=1"`
		B uint8       `struct:"default"`
	} `struct:"switch=T"`
}

type deepBits struct {
	More uint8       `struct:"uint8:1"`
	Next []*deepBits `struct:"size=More"`
}

// deepInputs is the space of inputs nested as deep as they are long.
func deepInputs(name string) mc.Space {
	ts := []reflect.Type{rt(deepChain{}), rt(deepTree{}), rt(deepWhile{}), rt(deepSwitch{}), rt(deepBits{})}
	lens := []int{0, 1, 2, 3, 10, 100, 1000, 10000, 100000, 1 << 20}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("%d recursive types, inputs of %v bytes all 0x01 or 0xff; equal to the model up to 1000 bytes", len(ts), lens),
		Run: func(c *mc.Ctx) {
			t := ts[c.Choose(len(ts))]
			n := lens[c.Choose(len(lens))]
			b := []byte{1, 0xff}[c.Choose(2)]
			end := c.Bool()
			c.Mine()
			if b == 0xff && t == rt(deepTree{}) {
				c.Prune()
			}
			data := bytes.Repeat([]byte{b}, n)
			if end && n > 0 {
				data[n-1] = 0
			}
			k := &Case{T: t, V: reflect.New(t).Elem(), O: orders[0]}
			if n <= 1000 {
				checkDecode(c, k, data)
				return
			}
			measured(c, k, data, 4096)
			c.Step(1)
		},
	}
}
