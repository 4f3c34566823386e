package suites

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"

	"github.com/go-restruct/restruct"
	format "github.com/go-restruct/restruct/formats/png"

	"verif/internal/mc"
)

// C21: the PNG format definition.
func propC21() *mc.Property {
	return &mc.Property{ID: "C21", Technique: tech, Level: "model_checking", LevelNote: note,
		Assumptions: []string{
			"Header chunks that announce a length other than that of a header are left out: the definition reads them as headers all the same.",
			"Chunk types have no zero bytes: PNG makes them of letters, and strings end at the first zero.",
			"A stream cut between two chunks is a shorter stream.",
		},
		Spaces: func(tier string) []mc.Space {
			deep := func(s mc.Space) mc.Space { s.Thorough = true; return s }
			return []mc.Space{
				pngSequences("sequences", 2, 6, true),
				pngSequences("longer sequences", 4, 3, false),
				pngHeaders("headers"),
				pngTypes("chunk types"),
				pngLengths("lengths"),
				pngImages("encoded images"),
				deep(pngSequences("sequences of three", 3, 6, true)),
				deep(pngSequences("sequences of six", 6, 1, false)),
			}
		}}
}

type pngChunk struct {
	typ  string
	data []byte
	crc  uint32
}

func (k pngChunk) String() string { return fmt.Sprintf("%q[%d]%08x", k.typ, len(k.data), k.crc) }

const pngMagic = "\x89PNG\r\n\x1a\n"

// pngStream writes a stream. It returns the places where it may be cut.
func pngStream(o binary.ByteOrder, chunks []pngChunk) (data []byte, ends map[int]int) {
	ends = map[int]int{}
	data = append(data, pngMagic...)
	num := func(x uint32) {
		var b [4]byte
		o.PutUint32(b[:], x)
		data = append(data, b[:]...)
	}
	for i, k := range chunks {
		num(uint32(len(k.data)))
		data = append(data, k.typ...)
		data = append(data, k.data...)
		num(k.crc)
		ends[len(data)] = i + 1
	}
	return
}

func pngMatches(c *format.Chunk, k pngChunk, o binary.ByteOrder) error {
	if int(c.Len) != len(k.data) || c.Type != k.typ || c.CRC != k.crc {
		return fmt.Errorf("chunk %q of length %d with checksum %08x, expected %v", c.Type, c.Len, c.CRC, k)
	}
	n := 0
	if c.Data.IHDR != nil {
		n++
		if k.typ != "IHDR" {
			return fmt.Errorf("%v is read as a header", k)
		}
		h := c.Data.IHDR
		d := []byte{h.BitDepth, byte(h.ColorType), h.CompressionMethod, h.FilterMethod, h.InterlaceMethod}
		if h.Width != o.Uint32(k.data) || h.Height != o.Uint32(k.data[4:]) || !bytes.Equal(d, k.data[8:]) {
			return fmt.Errorf("header %x is read as %+v", k.data, *h)
		}
	}
	if c.Data.IDAT != nil {
		n++
		if k.typ != "IDAT" {
			return fmt.Errorf("%v is read as image data", k)
		}
		if !bytes.Equal(c.Data.IDAT.Data, k.data) {
			return fmt.Errorf("image data %x is read as %x", k.data, c.Data.IDAT.Data)
		}
		if c.Data.IDAT.Parent != c {
			return fmt.Errorf("parent of image data is not its chunk")
		}
	}
	if c.Data.IEND != nil {
		n++
		if k.typ != "IEND" {
			return fmt.Errorf("%v is read as the end", k)
		}
	}
	if c.Data.Raw != nil {
		n++
		if k.typ == "IHDR" || k.typ == "IDAT" || k.typ == "IEND" {
			return fmt.Errorf("%v is read as an unknown chunk", k)
		}
		if !bytes.Equal(c.Data.Raw.Data, k.data) {
			return fmt.Errorf("raw data %x is read as %x", k.data, c.Data.Raw.Data)
		}
		if c.Data.Raw.Parent != c {
			return fmt.Errorf("parent of raw data is not its chunk")
		}
	}
	if n != 1 {
		return fmt.Errorf("%v is in %d members", k, n)
	}
	return nil
}

// pngBuild makes a File by hand.
func pngBuild(o binary.ByteOrder, chunks []pngChunk) *format.File {
	f := &format.File{Chunks: make([]format.Chunk, len(chunks)-1)}
	copy(f.Magic[:], pngMagic)
	for i, k := range chunks {
		c := &f.Header
		if i > 0 {
			c = &f.Chunks[i-1]
		}
		c.Len, c.Type, c.CRC = uint32(len(k.data)), k.typ, k.crc
		switch k.typ {
		case "IHDR":
			c.Data.IHDR = &format.ChunkIHDR{Width: o.Uint32(k.data), Height: o.Uint32(k.data[4:]), BitDepth: k.data[8], ColorType: format.ColorType(k.data[9]), CompressionMethod: k.data[10], FilterMethod: k.data[11], InterlaceMethod: k.data[12]}
		case "IDAT":
			c.Data.IDAT = &format.ChunkIDAT{Data: k.data}
		case "IEND":
			c.Data.IEND = &format.ChunkIEND{}
		default:
			c.Data.Raw = &format.ChunkRaw{Data: k.data}
		}
	}
	return f
}

func pngCompare(f *format.File, chunks []pngChunk, o binary.ByteOrder) error {
	if string(f.Magic[:]) != pngMagic {
		return fmt.Errorf("magic is %x", f.Magic)
	}
	if err := pngMatches(&f.Header, chunks[0], o); err != nil {
		return fmt.Errorf("header: %v", err)
	}
	if len(f.Chunks) != len(chunks)-1 {
		return fmt.Errorf("%d chunks, expected %d", len(f.Chunks), len(chunks)-1)
	}
	for i := range f.Chunks {
		if err := pngMatches(&f.Chunks[i], chunks[i+1], o); err != nil {
			return fmt.Errorf("chunk %d: %v", i, err)
		}
	}
	return nil
}

// pngCheck reads and writes a stream.
func pngCheck(c *mc.Ctx, ord Order, chunks []pngChunk, cuts bool) {
	c.State(1)
	o := ord.O
	data, ends := pngStream(o, chunks)
	desc := func() string { return fmt.Sprintf("stream %x (%v), order %s", data, chunks, ord.Name) }
	c.Sample(desc)
	read := func(in []byte) (f *format.File, err error) {
		f = &format.File{}
		c.Step(1)
		c.Trace(1)
		safely(c, "Unpack", desc, func() { err = restruct.Unpack(in, o, f) })
		return
	}
	f, err := read(data)
	if err == nil {
		err = pngCompare(f, chunks, o)
	}
	if err != nil {
		c.Fail("Unpack: %v\n%s", err, desc())
	}
	write := func(what string, x interface{}) {
		var out []byte
		var n, b int
		var err, err2, err3 error
		safely(c, "Pack", desc, func() { out, err = restruct.Pack(o, x) })
		safely(c, "SizeOf", desc, func() { n, err2 = restruct.SizeOf(x) })
		safely(c, "BitSize", desc, func() { b, err3 = restruct.BitSize(x) })
		c.Step(3)
		c.Trace(3)
		if err != nil || !bytes.Equal(out, data) {
			c.Fail("%s packs to %x, %v\n%s", what, out, err, desc())
		}
		if err2 != nil || n != len(data) || err3 != nil || b != 8*len(data) {
			c.Fail("%s has sizes %d, %v and %d, %v\n%s", what, n, err2, b, err3, desc())
		}
	}
	write("a file by hand", pngBuild(o, chunks))
	write("a file by value", *pngBuild(o, chunks))
	write("the file read", f)
	if err := pngCompare(f, chunks, o); err != nil {
		c.Fail("Pack changes the file: %v\n%s", err, desc())
	}
	if !cuts {
		return
	}
	for n := 0; n < len(data); n++ {
		f, err := read(data[:n:n])
		if k, ok := ends[n]; ok {
			if err == nil {
				err = pngCompare(f, chunks[:k], o)
			}
			if err != nil {
				c.Fail("Unpack of the first %d bytes, which end with chunk %d: %v\n%s", n, k, err, desc())
			}
		} else if err == nil {
			c.Fail("Unpack of the first %d bytes succeeds\n%s", n, desc())
		}
	}
}

var pngHeader = pngChunk{"IHDR", []byte{0, 0, 1, 2, 0, 3, 4, 5, 8, 6, 0, 0, 1}, 0xdeadbeef}

func pngData(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + seed)
	}
	return b
}

// pngKinds are chunks of all kinds.
func pngKinds(lens int) (out []pngChunk) {
	l := []int{0, 1, 5, 13, 2, 300}[:lens]
	for i, t := range []string{"IDAT", "PLTE", "tEXt", "idat"} {
		for j, n := range l {
			out = append(out, pngChunk{t, pngData(n, i+j), uint32(n)<<24 | uint32(i)})
			if t == "idat" {
				break
			}
		}
	}
	out = append(out, pngChunk{"IEND", nil, 0xae426082}, pngChunk{"IHDR", pngData(13, 9), 7})
	// Data that looks like chunks.
	d, _ := pngStream(binary.BigEndian, []pngChunk{{"IEND", nil, 1}})
	return append(out, pngChunk{"IDAT", d, 0x49454e44})
}

// pngSequences is the space of all sequences of chunks.
func pngSequences(name string, n, lens int, cuts bool) mc.Space {
	kinds := pngKinds(lens)
	what := ""
	if cuts {
		what = ", cut at every byte"
	}
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("all sequences of up to %d of %d chunks behind a header, 2 byte orders%s", n, len(kinds), what),
		Run: func(c *mc.Ctx) {
			chunks := []pngChunk{pngHeader}
			k := c.Choose(n + 1)
			o := orders[c.Choose(2)]
			for i := 0; i < k; i++ {
				chunks = append(chunks, kinds[c.Choose(len(kinds))])
			}
			c.Mine()
			pngCheck(c, o, chunks, cuts)
		},
	}
}

// pngHeaders is the space of headers with all values of each member, and of
// other chunks in their place.
func pngHeaders(name string) mc.Space {
	kinds := pngKinds(4)
	return mc.Space{
		Name:   name,
		Bounds: fmt.Sprintf("headers with every value of each byte, and %d other chunks in place of the header, 2 byte orders, cut at every byte", len(kinds)),
		Run: func(c *mc.Ctx) {
			o := orders[c.Choose(2)]
			k := c.Choose(13 + len(kinds))
			c.Mine()
			if k >= 13 {
				pngCheck(c, o, []pngChunk{kinds[k-13], kinds[0]}, true)
				return
			}
			for x := 0; x < 256; x++ {
				h := pngHeader
				h.data = append([]byte{}, h.data...)
				h.data[k] = byte(x)
				h.crc = uint32(x) * 0x01010101
				pngCheck(c, o, []pngChunk{h, kinds[x%len(kinds)]}, x == 0)
			}
		},
	}
}

// pngTypes is the space of chunk types near the known ones.
func pngTypes(name string) mc.Space {
	known := []string{"IHDR", "IDAT", "IEND"}
	return mc.Space{
		Name:   name,
		Bounds: "the known chunk types with each byte set to every value but zero, and all mixes of their bytes; 2 byte orders",
		Run: func(c *mc.Ctx) {
			o := orders[c.Choose(2)]
			if c.Bool() {
				var t [4]byte
				for i := range t {
					t[i] = known[c.Choose(3)][i]
				}
				c.Mine()
				n := 13
				if string(t[:]) == "IEND" {
					n = 0
				}
				pngCheck(c, o, []pngChunk{pngHeader, {string(t[:]), pngData(n, 1), 5}, {"IEND", nil, 6}}, true)
				return
			}
			k := known[c.Choose(3)]
			i := c.Choose(4)
			c.Mine()
			for x := 1; x < 256; x++ {
				t := []byte(k)
				t[i] = byte(x)
				n := 13
				if string(t) == "IEND" {
					n = 0
				}
				pngCheck(c, o, []pngChunk{pngHeader, {string(t), pngData(n, x), uint32(x)}}, false)
			}
		},
	}
}

// pngLengths is the space of lengths of data, and of lengths the stream does
// not hold.
func pngLengths(name string) mc.Space {
	types := []string{"IDAT", "tEXt"}
	return mc.Space{
		Name:   name,
		Bounds: "data of all lengths up to 300 and around powers of two up to 65536; announced lengths longer than the stream",
		Run: func(c *mc.Ctx) {
			o := orders[c.Choose(2)]
			t := types[c.Choose(2)]
			k := c.Choose(301 + 24 + 40)
			c.Mine()
			switch {
			case k <= 300:
				pngCheck(c, o, []pngChunk{pngHeader, {t, pngData(k, 3), 1}, {t, pngData(1, 2), 2}}, k < 64)
			case k < 325:
				n := 1<<uint(9+(k-301)/3) + (k-301)%3 - 1
				pngCheck(c, o, []pngChunk{pngHeader, {t, pngData(n, 3), 1}}, false)
			default:
				k -= 325
				data, _ := pngStream(o.O, []pngChunk{pngHeader, {t, pngData(9, 3), 1}})
				l := uint32(14) << uint(k%29)
				if k >= 29 {
					l = []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0xfffffff0, 14, 15, 1 << 20, 1<<24 + 1, 0x10000000, 0xfffffffe, 100}[k-29]
				}
				o.O.PutUint32(data[33:], l)
				desc := func() string { return fmt.Sprintf("stream %x, order %s", data, o.Name) }
				var err error
				safely(c, "Unpack", desc, func() { err = restruct.Unpack(data, o.O, &format.File{}) })
				c.State(1)
				c.Step(1)
				c.Trace(1)
				if err == nil {
					c.Fail("Unpack succeeds on a chunk longer than the stream\n%s", desc())
				}
			}
		},
	}
}

// pngImages is the space of small images as the standard library writes them.
func pngImages(name string) mc.Space {
	return mc.Space{
		Name:   name,
		Bounds: "images of 6 colour models, widths 1 to 9, heights 1 to 9, 4 compression levels, written by image/png",
		Run: func(c *mc.Ctx) {
			m := c.Choose(6)
			w, h := 1+c.Choose(9), 1+c.Choose(9)
			c.Mine()
			level := []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed, png.BestCompression}[c.Choose(4)]
			r := image.Rect(0, 0, w, h)
			var im interface {
				image.Image
				Set(x, y int, c color.Color)
			}
			switch m {
			case 0:
				im = image.NewGray(r)
			case 1:
				im = image.NewGray16(r)
			case 2:
				im = image.NewNRGBA(r)
			case 3:
				im = image.NewNRGBA64(r)
			case 4:
				im = image.NewPaletted(r, color.Palette{color.Black, color.White, color.NRGBA{255, 0, 0, 128}, color.NRGBA{0, 0, 255, 255}})
			case 5:
				im = image.NewRGBA(r)
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					im.Set(x, y, color.NRGBA{uint8(x * 30), uint8(y * 30), uint8(x * y), 255})
				}
			}
			var b bytes.Buffer
			if err := (&png.Encoder{CompressionLevel: level}).Encode(&b, im); err != nil {
				panic(err)
			}
			var chunks []pngChunk
			for d := b.Bytes()[8:]; len(d) > 0; {
				n := binary.BigEndian.Uint32(d)
				k := pngChunk{string(d[4:8]), d[8 : 8+n], binary.BigEndian.Uint32(d[8+n:])}
				if crc32.ChecksumIEEE(d[4:8+n]) != k.crc {
					panic("bad image")
				}
				chunks = append(chunks, k)
				d = d[12+n:]
			}
			pngCheck(c, orders[1], chunks, w == h)
		},
	}
}
