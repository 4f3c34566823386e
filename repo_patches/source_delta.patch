From b3d1a1cd3120e45ac6aa6dc5063a00b292e996c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 01/61] fix: carry into the next byte when a skip ends on a
 byte boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From 982dd8dac35d4f610e62c6e12603f93f9fe5e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 02/61] fix: count skip and if of bit fields in sizes

---
 structstack.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index 6e056a5..edb6d88 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -208,11 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From d28c6e408b1eca8f29e77b868b7bde9e5cf80fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 03/61] fix: size of nil pointers and of pointers with a skip

---
 structstack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index edb6d88..7cfa9c9 100644
--- a/structstack.go
+++ b/structstack.go
@@ -190,7 +190,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			// Nothing is written for nil pointers.
+			if val.IsNil() {
+				return size
+			}
+			return size + s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
-- 
2.43.0


From b264780db688e957c2cb6e73f1efeffb2b4a691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 04/61] fix: do not recurse endlessly on struct types that
 point to themselves

---
 field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field.go b/field.go
index ad64761..a8711c6 100644
--- a/field.go
+++ b/field.go
@@ -340,7 +340,7 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-- 
2.43.0


From 614d11759eff74d6cea4652e6713f7b108de33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 05/61] fix: size arrays element by element unless the elements
 are plain scalars

---
 field.go       | 22 ++++++++++++++++++++++
 structstack.go | 13 ++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/field.go b/field.go
index a8711c6..46930ff 100644
--- a/field.go
+++ b/field.go
@@ -354,6 +354,28 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+// isTypeScalar determines if a given type is a scalar, which always has the
+// same size regardless of its value and of where it is used.
+func isTypeScalar(typ reflect.Type) bool {
+	switch typ.Kind() {
+	case reflect.Array, reflect.Struct:
+		return false
+	default:
+		return isTypeTrivial(typ)
+	}
+}
+
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
+// hasCustomSize determines if values of a given type define their own size.
+func hasCustomSize(typ reflect.Type) bool {
+	ptr := reflect.PtrTo(typ)
+	return ptr.Implements(sizerType) || ptr.Implements(bitSizerType)
+}
+
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
diff --git a/structstack.go b/structstack.go
index 7cfa9c9..7415e44 100644
--- a/structstack.go
+++ b/structstack.go
@@ -142,6 +142,8 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
+		// The contents of the field are inaccessible, and don't matter.
+		val = reflect.New(val.Type()).Elem()
 	}
 
 	if !s.evalIf(f) {
@@ -196,14 +198,19 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 			}
 			return size + s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
-			// Optimization: if the element type is trivial, we can derive the
+			// Optimization: if the element is a plain scalar, we can derive the
 			// length from a single element.
 			elem := f.Elem()
-			if elem.Trivial {
+			if isTypeScalar(elem.BinaryType) && !hasCustomSize(elem.NativeType) {
 				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
 			} else {
 				for i := 0; i < alen; i++ {
-					size += s.fieldbits(elem, val.Index(i))
+					if i < val.Len() {
+						size += s.fieldbits(elem, val.Index(i))
+					} else {
+						// Missing elements of an array are written as zeros.
+						size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+					}
 				}
 			}
 		}
-- 
2.43.0


From 8579def00067c99d124a93a6f035626337552b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 06/61] fix: zero every case of a switch when unpacking,
 whatever its position

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 18720de..0b7fb8b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -217,8 +217,10 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
-		v.Set(reflect.Zero(v.Type()))
+		v := v.Field(sfields[i].Index)
+		if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
 	}
 
 	for i := 0; i < l; i++ {
-- 
2.43.0


From 32186af5e41d36ef88497ef675d4d459e7aac968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 07/61] fix: return errors instead of panicking when the panic
 value is no error

---
 packing.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..6c4bed5 100644
--- a/packing.go
+++ b/packing.go
@@ -22,9 +22,18 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
+// recoveredError converts a recovered panic value into an error.
+func recoveredError(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
@@ -87,10 +96,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = recoveredError(r)
 		}
 	}()
 
@@ -108,7 +114,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
@@ -123,7 +129,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
@@ -145,7 +151,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
-- 
2.43.0


From 65974c083612c2e0028d9df0efca08cc5d998b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 08/61] fix: return an error for expressions that cannot be
 parsed or evaluated

---
 expr/eval.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 182f164..06ee071 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -6,25 +6,30 @@ import (
 
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
-	defer func() {
-		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
-		}
-	}()
+	defer recovererror(&err)
 
 	v = evalnode(resolver, program.root).RawValue()
 	return
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer recovererror(&err)
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
+// recovererror turns a panic into an error. It must be deferred.
+func recovererror(err *error) {
+	if r := recover(); r != nil {
+		if rerr, ok := r.(error); ok {
+			*err = rerr
+		} else {
+			*err = fmt.Errorf("%v", r)
+		}
+	}
+}
+
 func evalnode(resolver Resolver, node node) Value {
 	switch n := node.(type) {
 	case identnode:
-- 
2.43.0


From aa625f53aa265786515846a5b515fcfb39ea5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 09/61] fix: pack values passed by value instead of writing
 zeros for them

---
 packing.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packing.go b/packing.go
index 6c4bed5..7babb28 100644
--- a/packing.go
+++ b/packing.go
@@ -26,6 +26,17 @@ import (
 	"reflect"
 )
 
+// addressable returns val, or an addressable copy of it if it is not
+// addressable.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanAddr() {
+		return val
+	}
+	nv := reflect.New(val.Type()).Elem()
+	nv.Set(val)
+	return nv
+}
+
 // recoveredError converts a recovered panic value into an error.
 func recoveredError(r interface{}) error {
 	if err, ok := r.(error); ok {
@@ -120,7 +131,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -135,7 +146,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -158,6 +169,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 5641041a7b80009a2f347b1c95424435255feb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 10/61] fix: report an error when unpacking into a value that
 cannot be set

---
 packing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packing.go b/packing.go
index 7babb28..fd08acc 100644
--- a/packing.go
+++ b/packing.go
@@ -114,6 +114,9 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	f, val := fieldFromIntf(v)
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
+	if _, ok := d.unpacker(val); !ok && !val.CanSet() {
+		return fmt.Errorf("cannot unpack into unaddressable value of type %s", val.Type())
+	}
 	d.read(f, val)
 
 	return
-- 
2.43.0


From 5cf94cb1fb4a52b9ac4a5939f382d822c1bd6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 11/61] fix: link length counters to the right fields when
 others are not encoded

---
 field.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/field.go b/field.go
index 46930ff..d46398b 100644
--- a/field.go
+++ b/field.go
@@ -218,7 +218,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 				panic(ErrInvalidSizeOf)
 			}
 			sindex = j
-			result[sindex].TIndex = i
+			for k := range result {
+				if result[k].Index == sindex {
+					result[k].TIndex = i
+				}
+			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = i
@@ -229,11 +233,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 8294a5a2f2ace1dec3f5e0d28b89c3a04c1f206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 12/61] fix: read strings and byte slices after a skip, off a
 byte boundary and with other element types

---
 decoder.go | 70 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0b7fb8b..bbfea41 100644
--- a/decoder.go
+++ b/decoder.go
@@ -3,6 +3,7 @@ package restruct
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -145,11 +146,41 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
-	x := d.buf[0:count]
-	d.buf = d.buf[count:]
+	if count < 0 || count > len(d.buf) {
+		panic(io.ErrUnexpectedEOF)
+	}
+
+	if d.bitCounter == 0 {
+		// Fast path: we are byte-aligned.
+		x := d.buf[0:count]
+		d.buf = d.buf[count:]
+		return x
+	}
+
+	// Slow path: work bit-by-bit.
+	x := make([]byte, count)
+	for i := 0; i < count*8; i++ {
+		putBit(x[i/8:i/8+1], 8, i%8, d.readBit())
+	}
 	return x
 }
 
+// readString reads a string consisting of count elements.
+func (d *decoder) readString(f field, count int) string {
+	ef := f.Elem()
+	switch ef.BinaryType.Kind() {
+	case reflect.Int8, reflect.Uint8:
+		return string(d.readBytes(count))
+	}
+	str := []byte{}
+	for i := 0; i < count; i++ {
+		v := reflect.New(ef.NativeType).Elem()
+		d.read(ef, v)
+		str = append(str, byte(v.Uint()))
+	}
+	return string(str)
+}
+
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
 	if d.bitCounter >= 8 {
@@ -179,6 +210,22 @@ func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	return nil, false
 }
 
+// plainBytes determines if elements of this kind can be read as raw bytes.
+func (d *decoder) plainBytes(ef field) bool {
+	if ef.NativeType.Kind() != reflect.Uint8 {
+		return false
+	}
+	if _, ok := d.unpacker(reflect.New(ef.NativeType).Elem()); ok {
+		return false
+	}
+	switch ef.BinaryType.Kind() {
+	case reflect.Int8, reflect.Uint8:
+		return true
+	default:
+		return false
+	}
+}
+
 func (d *decoder) setUint(f field, v reflect.Value, x uint64) {
 	switch v.Kind() {
 	case reflect.Bool:
@@ -338,7 +385,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := d.readString(f, l)
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -375,19 +422,18 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
-			default:
-				ef := f.Elem()
-				for i := 0; i < alen; i++ {
-					d.read(ef, v.Index(i))
-				}
+			ef := f.Elem()
+			if v.Kind() == reflect.Slice && d.plainBytes(ef) {
+				v.SetBytes(d.readBytes(alen))
+				return
+			}
+			for i := 0; i < alen; i++ {
+				d.read(ef, v.Index(i))
 			}
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
-			v.SetString(string(d.readBytes(alen)))
+			v.SetString(d.readString(f, alen))
 		case reflect.Array:
 			if f.WhileExpr != nil {
 				i := 0
-- 
2.43.0


From 0d4b4e6c9b3e229e4b45bf135c2e8f4bb6804436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 13/61] fix: unpack arrays whose binary type is a slice or a
 longer array

---
 decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index bbfea41..0290676 100644
--- a/decoder.go
+++ b/decoder.go
@@ -394,7 +394,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 		case reflect.Slice, reflect.Array:
 			ef := f.Elem()
 			for i := 0; i < l; i++ {
-				d.read(ef, v.Index(i))
+				if i < v.Len() {
+					d.read(ef, v.Index(i))
+				} else {
+					d.read(ef, reflect.New(ef.NativeType).Elem())
+				}
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
@@ -443,6 +447,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 					i++
 				}
 			} else {
+				alen = v.Len()
 				fixed()
 			}
 		case reflect.Slice:
-- 
2.43.0


From 206dd6fe22599ee449b0b31dade2ebcae4d52702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 14/61] fix: replace the contents of while slices instead of
 appending to them

---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index 0290676..48ea926 100644
--- a/decoder.go
+++ b/decoder.go
@@ -455,6 +455,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
 					ef := f.Elem()
+					v.Set(reflect.Zero(v.Type()))
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
 						d.read(ef, nv)
-- 
2.43.0


From b29571d10d228ccdab29ba78e7d734864d6c6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 15/61] fix: keep root and parent references of elements of
 while slices right

---
 decoder.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/decoder.go b/decoder.go
index 48ea926..bdd2666 100644
--- a/decoder.go
+++ b/decoder.go
@@ -210,6 +210,50 @@ func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	return nil, false
 }
 
+// relink restores the root and parent references inside of elements that have
+// moved in memory since they were read.
+func (d *decoder) relink(f field, v reflect.Value) {
+	if f.Flags&(RootFlag|ParentFlag) != 0 {
+		d.read(f, v)
+		return
+	}
+
+	if isTypeTrivial(v.Type()) || f.InExpr != nil {
+		return
+	}
+
+	if _, ok := d.unpacker(v); ok {
+		return
+	}
+
+	switch v.Kind() {
+	case reflect.Ptr:
+		if !v.IsNil() {
+			d.relink(f.Elem(), v.Elem())
+		}
+
+	case reflect.Slice, reflect.Array:
+		switch f.BinaryType.Kind() {
+		case reflect.Slice, reflect.Array:
+			ef := f.Elem()
+			for i := 0; i < v.Len(); i++ {
+				d.relink(ef, v.Index(i))
+			}
+		}
+
+	case reflect.Struct:
+		if f.SwitchExpr == nil {
+			d.push(v)
+			defer d.pop(v)
+		}
+		for _, sf := range cachedFieldsFromStruct(v.Type()) {
+			if sv := v.Field(sf.Index); sv.CanSet() {
+				d.relink(sf, sv)
+			}
+		}
+	}
+}
+
 // plainBytes determines if elements of this kind can be read as raw bytes.
 func (d *decoder) plainBytes(ef field) bool {
 	if ef.NativeType.Kind() != reflect.Uint8 {
@@ -462,6 +506,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 						v.Set(reflect.Append(v, nv))
 					}
 				}
+				d.relink(f, v)
 			} else {
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
-- 
2.43.0


From 681d88b8c5fca27031d8959cc3f7bb022f0681bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 16/61] fix: do not allocate for elements the input cannot hold

---
 decoder.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index bdd2666..3b4bee6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -210,6 +210,17 @@ func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	return nil, false
 }
 
+// plausibleLen returns how many elements of the given type may be allocated at
+// once, given the amount of input left. Longer slices have to grow as they are
+// read.
+func (d *decoder) plausibleLen(typ reflect.Type) int {
+	size := int(typ.Size())
+	if size == 0 {
+		size = 1
+	}
+	return 1 + (4096+8*len(d.buf))/size
+}
+
 // relink restores the root and parent references inside of elements that have
 // moved in memory since they were read.
 func (d *decoder) relink(f field, v reflect.Value) {
@@ -476,6 +487,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 				return
 			}
 			for i := 0; i < alen; i++ {
+				if i == v.Len() && v.Kind() == reflect.Slice {
+					v.Set(reflect.Append(v, reflect.Zero(ef.NativeType)))
+				}
 				d.read(ef, v.Index(i))
 			}
 		}
@@ -508,8 +522,16 @@ func (d *decoder) read(f field, v reflect.Value) {
 				}
 				d.relink(f, v)
 			} else {
-				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
+				// Don't trust the length until the input has backed it up.
+				l := alen
+				if max := d.plausibleLen(f.NativeType.Elem()); l > max {
+					l = max
+				}
+				v.Set(reflect.MakeSlice(f.NativeType, l, l))
 				fixed()
+				if l != alen {
+					d.relink(f, v)
+				}
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
-- 
2.43.0


From f4ef0e5b6af62cc7199f4d9447243a99e3c20e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 17/61] fix: sign-extend 16 and 32 bit bit fields by their sign
 bit

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 3b4bee6..dcdeabe 100644
--- a/decoder.go
+++ b/decoder.go
@@ -85,14 +85,14 @@ func (d *decoder) extend8(val uint8, signed bool) uint8 {
 }
 
 func (d *decoder) extend16(val uint16, signed bool) uint16 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
 }
 
 func (d *decoder) extend32(val uint32, signed bool) uint32 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
-- 
2.43.0


From b80e18b7b36cd14b3041eb85f63fe3d1008708f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 18/61] fix: encode and decode int and uint, which have always
 been sized as 32 bits

---
 decoder.go | 4 ++--
 encoder.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index dcdeabe..8c47b73 100644
--- a/decoder.go
+++ b/decoder.go
@@ -541,7 +541,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -550,7 +550,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index c47e4aa..842352d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -341,7 +341,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -350,7 +350,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
-- 
2.43.0


From ef3cbe250977acd9ee932a8aa246a7dbe2c30b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 19/61] fix: crop bit fields correctly for every little endian
 ByteOrder implementation

---
 decoder.go | 2 +-
 encoder.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8c47b73..1b8d257 100644
--- a/decoder.go
+++ b/decoder.go
@@ -55,7 +55,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
diff --git a/encoder.go b/encoder.go
index 842352d..86d4af9 100644
--- a/encoder.go
+++ b/encoder.go
@@ -32,6 +32,11 @@ func getBit(buf []byte, bitSize int, bit int) byte {
 	return (buf[len(buf)-bit/8-1] >> (uint(bit) % 8)) & 1
 }
 
+// isLittleEndian determines if an arbitrary byte order is little endian.
+func isLittleEndian(order binary.ByteOrder) bool {
+	return order != nil && order.Uint16([]byte{1, 0}) == 1
+}
+
 func (e *encoder) writeBit(value byte) {
 	e.buf[0] |= (value & 1) << uint(7-e.bitCounter)
 	e.bitCounter++
@@ -55,7 +60,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
-- 
2.43.0


From c998290519f723945b12dc0fc3c474c66ddf8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 20/61] fix: do not lose bits of little endian bit fields wider
 than a byte

---
 decoder.go | 9 +++++++++
 encoder.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/decoder.go b/decoder.go
index 1b8d257..feb5093 100644
--- a/decoder.go
+++ b/decoder.go
@@ -71,6 +71,15 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if d.bitSize != 0 && isLittleEndian(d.order) {
+			// Whole bytes come first, then what is left of the last byte.
+			for ; decodedBits > 8; decodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					putBit(outBuf[:1], 8, i, d.readBit())
+				}
+				outBuf = outBuf[1:]
+			}
+		}
 		for i := 0; i < decodedBits; i++ {
 			putBit(outBuf, decodedBits, i, d.readBit())
 		}
diff --git a/encoder.go b/encoder.go
index 86d4af9..7f07b62 100644
--- a/encoder.go
+++ b/encoder.go
@@ -76,6 +76,15 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if e.bitSize != 0 && isLittleEndian(e.order) {
+			// Whole bytes come first, then what is left of the last byte.
+			for ; encodedBits > 8; encodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					e.writeBit(getBit(inBuf[:1], 8, i))
+				}
+				inBuf = inBuf[1:]
+			}
+		}
 		for i := 0; i < encodedBits; i++ {
 			e.writeBit(getBit(inBuf, encodedBits, i))
 		}
-- 
2.43.0


From 44fe63ad732964ba8fe2b3d83819f0ebae7c4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 21/61] fix: do not call custom packing methods on nil pointers

---
 decoder.go | 4 ++++
 encoder.go | 4 ++++
 field.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/decoder.go b/decoder.go
index feb5093..7794ae5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -204,6 +204,10 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
diff --git a/encoder.go b/encoder.go
index 7f07b62..91f8566 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,6 +137,10 @@ func (e *encoder) skip(f field, v reflect.Value) {
 }
 
 func (e *encoder) packer(v reflect.Value) (Packer, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Packer); ok {
 		return s, true
 	}
diff --git a/field.go b/field.go
index d46398b..b1437a9 100644
--- a/field.go
+++ b/field.go
@@ -412,6 +412,10 @@ func (f *field) bitSizer(v reflect.Value) (BitSizer, bool) {
 }
 
 func (f *field) bitSizeUsingInterface(val reflect.Value) (int, bool) {
+	if val.Kind() == reflect.Ptr && val.IsNil() {
+		return 0, false
+	}
+
 	if s, ok := f.bitSizer(val); ok {
 		return s.BitSize(), true
 	}
-- 
2.43.0


From 9d02abc128049ef3f2b87c44c17a27b685bf7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 22/61] fix: match integer, string and bool switch cases by
 value

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 38 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7794ae5..2e30a03 100644
--- a/decoder.go
+++ b/decoder.go
@@ -354,7 +354,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if casematches(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 91f8566..a8349fb 100644
--- a/encoder.go
+++ b/encoder.go
@@ -220,7 +220,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if casematches(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index 7415e44..97923a4 100644
--- a/structstack.go
+++ b/structstack.go
@@ -71,6 +71,42 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// casematches determines if the value of a case is equal to the value of a
+// switch. Their types may differ, since literals have types of their own.
+func casematches(c, on interface{}) bool {
+	if c == on {
+		return true
+	}
+
+	cv, ov := reflect.ValueOf(c), reflect.ValueOf(on)
+	switch cv.Kind() {
+	case reflect.Bool:
+		return ov.Kind() == reflect.Bool && cv.Bool() == ov.Bool()
+	case reflect.String:
+		return ov.Kind() == reflect.String && cv.String() == ov.String()
+	}
+
+	cneg, cint, ok := integer(cv)
+	if !ok {
+		return false
+	}
+	oneg, oint, ok := integer(ov)
+	return ok && cneg == oneg && cint == oint
+}
+
+// integer returns the sign and the bits of an integer value of any type.
+func integer(v reflect.Value) (neg bool, bits uint64, ok bool) {
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int() < 0, uint64(v.Int()), true
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
+		reflect.Uint64, reflect.Uintptr:
+		return false, v.Uint(), true
+	default:
+		return false, 0, false
+	}
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -97,7 +133,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if casematches(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From d9233426d2cb2d8cda30b0b7f24ff5b44aab610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 23/61] fix: report lengths that do not fit their counter
 instead of truncating them

---
 encoder.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/encoder.go b/encoder.go
index a8349fb..e451a94 100644
--- a/encoder.go
+++ b/encoder.go
@@ -194,6 +194,19 @@ func (e *encoder) uintFromField(f field, v reflect.Value) uint64 {
 	}
 }
 
+// countFits determines if a counter can hold a count, both in its native type
+// and in binary, if signBits of its bits are used up by the sign.
+func (e *encoder) countFits(f field, v reflect.Value, count uint64, signBits int) bool {
+	bits := f.BinaryType.Bits()
+	if e.bitSize != 0 {
+		bits = e.bitSize
+	}
+	if v.Type().Bits() < bits {
+		bits = v.Type().Bits()
+	}
+	return bits >= 64 || count>>uint(bits-signBits) == 0
+}
+
 func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 	var def *switchcase
 
@@ -291,8 +304,14 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			if !e.countFits(f, v, uint64(sv.Len()), 1) {
+				panic(fmt.Errorf("%s: length %d does not fit", f.Name, sv.Len()))
+			}
 			v.SetInt(int64(sv.Len()))
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			if !e.countFits(f, v, uint64(sv.Len()), 0) {
+				panic(fmt.Errorf("%s: length %d does not fit", f.Name, sv.Len()))
+			}
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-- 
2.43.0


From 2fd45304aff58174a211b72ea8ab5dcc6f91d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 24/61] fix: honour if, skip and byte order options on switches
 and custom packers

---
 decoder.go     | 37 +++++++++++++++++++------------------
 encoder.go     | 37 +++++++++++++++++++------------------
 structstack.go | 12 ++++++------
 3 files changed, 44 insertions(+), 42 deletions(-)

diff --git a/decoder.go b/decoder.go
index 2e30a03..904c2c8 100644
--- a/decoder.go
+++ b/decoder.go
@@ -380,23 +380,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := d.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -405,7 +389,6 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	sfields := d.sfields
 	order := d.order
 
 	if f.Order != nil {
@@ -417,6 +400,24 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	struc := d.ancestor(0)
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
+	sfields := d.sfields
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index e451a94..f9cd334 100644
--- a/encoder.go
+++ b/encoder.go
@@ -259,23 +259,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := e.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -284,7 +268,6 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	sfields := e.sfields
 	order := e.order
 
 	if f.Order != nil {
@@ -296,6 +279,24 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	struc := e.ancestor(0)
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
+	sfields := e.sfields
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 97923a4..8612b93 100644
--- a/structstack.go
+++ b/structstack.go
@@ -163,13 +163,17 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if !s.evalIf(f) {
+		return 0
+	}
+
 	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr)) + skipBits
 	}
 
 	if f.Name != "_" {
 		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
+			return s + skipBits
 		}
 	} else {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
@@ -182,10 +186,6 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		val = reflect.New(val.Type()).Elem()
 	}
 
-	if !s.evalIf(f) {
-		return 0
-	}
-
 	if b := s.evalBits(f); b != 0 {
 		return b + skipBits
 	}
-- 
2.43.0


From b8a552832afecb44e7144c851a78475965d0de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 25/61] fix: apply boolean flags to the elements of arrays,
 slices and pointers

---
 field.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/field.go b/field.go
index b1437a9..3689b30 100644
--- a/field.go
+++ b/field.go
@@ -115,6 +115,7 @@ func (f *field) Elem() field {
 		SIndex:     -1,
 		Skip:       0,
 		Trivial:    isTypeTrivial(t.Elem()),
+		Flags:      f.Flags & (VariantBoolFlag | InvertedBoolFlag),
 	}
 }
 
-- 
2.43.0


From 027e8d7c39c8f7a779bd80abb42b29e80f972393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 26/61] fix: accept values of named bool types as conditions

---
 structstack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structstack.go b/structstack.go
index 8612b93..716d03b 100644
--- a/structstack.go
+++ b/structstack.go
@@ -58,15 +58,15 @@ func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
 	}
-	if b, ok := s.evalExpr(f.IfExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.IfExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for if expr")
 }
 
 func (s *structstack) evalWhile(f field) bool {
-	if b, ok := s.evalExpr(f.WhileExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.WhileExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for while expr")
 }
-- 
2.43.0


From 60c2da9ee884cb8bd3d45a84212f17c102d4b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 27/61] fix: use the result of out expressions in sizes,
 structs and pointers too

---
 encoder.go     | 6 +++---
 structstack.go | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index f9cd334..3421f40 100644
--- a/encoder.go
+++ b/encoder.go
@@ -321,17 +321,17 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		ov = addressable(reflect.ValueOf(e.evalExpr(f.OutExpr)))
 	}
 
 	switch f.BinaryType.Kind() {
 	case reflect.Ptr:
 		// Skip if pointer is nil.
-		if v.IsNil() {
+		if ov.IsNil() {
 			return
 		}
 
-		e.write(f.Elem(), v.Elem())
+		e.write(f.Elem(), ov.Elem())
 
 	case reflect.Array, reflect.Slice, reflect.String:
 		switch f.NativeType.Kind() {
diff --git a/structstack.go b/structstack.go
index 716d03b..c4e1a12 100644
--- a/structstack.go
+++ b/structstack.go
@@ -190,6 +190,10 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return b + skipBits
 	}
 
+	if f.OutExpr != nil {
+		val = addressable(reflect.ValueOf(s.evalExpr(f.OutExpr)))
+	}
+
 	alen := 1
 	switch f.BinaryType.Kind() {
 	case reflect.Int8, reflect.Uint8, reflect.Bool:
-- 
2.43.0


From 42fd92ac6260650e07093b174334a4eee217d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 28/61] fix: assign results of in expressions to fields of
 named types

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 904c2c8..7b1d8b1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -587,6 +587,10 @@ func (d *decoder) read(f field, v reflect.Value) {
 	}
 
 	if f.InExpr != nil {
-		v.Set(reflect.ValueOf(d.evalExpr(f.InExpr)))
+		iv := reflect.ValueOf(d.evalExpr(f.InExpr))
+		if iv.Kind() == v.Kind() && iv.Type().ConvertibleTo(v.Type()) {
+			iv = iv.Convert(v.Type())
+		}
+		v.Set(iv)
 	}
 }
-- 
2.43.0


From 86825f5fe6da7067b3f6cc5824f8c1196e141bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 29/61] fix: report values nested too deep instead of
 overflowing the stack

---
 decoder.go     |  3 +++
 encoder.go     |  3 +++
 structstack.go | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/decoder.go b/decoder.go
index 7b1d8b1..f7bd5b8 100644
--- a/decoder.go
+++ b/decoder.go
@@ -366,6 +366,9 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (d *decoder) read(f field, v reflect.Value) {
+	d.enter()
+	defer d.leave()
+
 	if f.Flags&RootFlag == RootFlag {
 		d.setancestor(f, v, d.root())
 		return
diff --git a/encoder.go b/encoder.go
index 3421f40..1b398d9 100644
--- a/encoder.go
+++ b/encoder.go
@@ -245,6 +245,9 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (e *encoder) write(f field, v reflect.Value) {
+	e.enter()
+	defer e.leave()
+
 	if f.Flags&RootFlag == RootFlag {
 		e.setancestor(f, v, e.root())
 		return
diff --git a/structstack.go b/structstack.go
index c4e1a12..b3dfa6a 100644
--- a/structstack.go
+++ b/structstack.go
@@ -1,6 +1,7 @@
 package restruct
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 
@@ -12,12 +13,28 @@ type switchcase struct {
 	v reflect.Value
 }
 
+// maxDepth limits how deep values may be nested, so that hostile input and
+// cyclic values lead to an error, and not to a stack overflow.
+const maxDepth = 200000
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
+	depth     int
 	allowexpr bool
 }
 
+func (s *structstack) enter() {
+	s.depth++
+	if s.depth > maxDepth {
+		panic(errors.New("value is nested too deep"))
+	}
+}
+
+func (s *structstack) leave() {
+	s.depth--
+}
+
 func (s *structstack) Resolve(ident string) expr.Value {
 	switch ident {
 	case "_eof":
@@ -147,6 +164,9 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 
 // fieldbits determines the encoded size of a field in bits.
 func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
+	s.enter()
+	defer s.leave()
+
 	skipBits := f.Skip * 8
 
 	if f.Flags&RootFlag == RootFlag {
-- 
2.43.0


From c25c6b3fd006e4b265c540ddc5e7a7fadc424065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 30/61] fix: restore references inside of nested moving slices
 once, not once per level

---
 decoder.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index f7bd5b8..e041782 100644
--- a/decoder.go
+++ b/decoder.go
@@ -24,6 +24,7 @@ type decoder struct {
 	sfields    []field
 	bitCounter uint8
 	bitSize    int
+	moving     int // Number of slices being read whose elements may move.
 }
 
 func putBit(buf []byte, bitSize int, bit int, val byte) {
@@ -234,6 +235,16 @@ func (d *decoder) plausibleLen(typ reflect.Type) int {
 	return 1 + (4096+8*len(d.buf))/size
 }
 
+// moved is called when all elements of a slice that moves them in memory have
+// been read. It restores the references inside of them, once nothing that
+// they are a part of is going to move anymore.
+func (d *decoder) moved(f field, v reflect.Value) {
+	d.moving--
+	if d.moving == 0 {
+		d.relink(f, v)
+	}
+}
+
 // relink restores the root and parent references inside of elements that have
 // moved in memory since they were read.
 func (d *decoder) relink(f field, v reflect.Value) {
@@ -531,13 +542,14 @@ func (d *decoder) read(f field, v reflect.Value) {
 				case reflect.Slice:
 					ef := f.Elem()
 					v.Set(reflect.Zero(v.Type()))
+					d.moving++
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
 						d.read(ef, nv)
 						v.Set(reflect.Append(v, nv))
 					}
 				}
-				d.relink(f, v)
+				d.moved(f, v)
 			} else {
 				// Don't trust the length until the input has backed it up.
 				l := alen
@@ -545,9 +557,12 @@ func (d *decoder) read(f field, v reflect.Value) {
 					l = max
 				}
 				v.Set(reflect.MakeSlice(f.NativeType, l, l))
-				fixed()
-				if l != alen {
-					d.relink(f, v)
+				if l == alen {
+					fixed()
+				} else {
+					d.moving++
+					fixed()
+					d.moved(f, v)
 				}
 			}
 		default:
-- 
2.43.0


From 9568451ad5683ff12e2f713d230e48aece65bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 31/61] fix: convert float literals to the type of the other
 operand

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..7acf7fa 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float64(from.Value().Float())), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From 2c739c32975f1a8022c72cc82cc497c6b0515519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 32/61] fix: parse the &^ operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From 0517a40fc5237b0d60d70ca7c5361bf13d872246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 33/61] fix: parse a minus sign directly before a number as an
 operator after an operand

---
 expr/parse.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..b6ef597 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Program represents a parsed expression.
@@ -52,6 +53,27 @@ func (p *parser) accept(k tokenkind) bool {
 	return false
 }
 
+// splitsign removes the minus sign from the next token, if it is a negative
+// number. It is used where the sign turns out to be an operator.
+func (p *parser) splitsign() bool {
+	t := p.readtoken()
+	switch t.kind {
+	case inttoken, floattoken:
+		if !strings.HasPrefix(t.sval, "-") {
+			return false
+		}
+	default:
+		return false
+	}
+	t.pos++
+	t.sval = t.sval[1:]
+	t.uval = uint64(-t.ival)
+	t.ival = -t.ival
+	t.fval = -t.fval
+	t.sign = false
+	return true
+}
+
 func (p *parser) expect(k tokenkind) {
 	if p.readtoken().kind != k {
 		panic(fmt.Errorf("expected %s token, got %s", k, p.t.kind))
@@ -177,7 +199,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryadd, 6)
 			continue
 		}
-		if p.accept(subtoken) {
+		if p.accept(subtoken) || n != nil && p.splitsign() {
 			binary(binarysub, 6)
 			continue
 		}
-- 
2.43.0


From 827845d9f609df49e016dd71b03451e258282471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 34/61] fix: reject unbalanced brackets and missing operands,
 accept calls without arguments

---
 expr/ast.go   |  5 ++++-
 expr/eval.go  |  6 ++++--
 expr/parse.go | 29 ++++++++++++++++++++++-------
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..c2eed89 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,7 +185,10 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
-	a, b := n.a.source(), n.b.source()
+	a, b := n.a.source(), ""
+	if n.b != nil {
+		b = n.b.source()
+	}
 	switch n.op {
 	case binarylogicalor:
 		return a + " || " + b
diff --git a/expr/eval.go b/expr/eval.go
index 06ee071..09641bf 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -103,8 +103,10 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		panic(fmt.Errorf("expected ident node, got %T", node.b))
 	case binarycall:
 		in := []Value{}
-		for _, n := range flattengroup(node.b) {
-			in = append(in, evalnode(resolver, n))
+		if node.b != nil {
+			for _, n := range flattengroup(node.b) {
+				in = append(in, evalnode(resolver, n))
+			}
 		}
 		return a.Call(in)
 	case binarygroup:
diff --git a/expr/parse.go b/expr/parse.go
index b6ef597..b173a99 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -88,22 +88,25 @@ func (p *parser) parseexpr(depth int) node {
 	var n node
 
 	unary := func(op unaryop, depth int) {
-		n = unaryexpr{op: op, n: p.parseexpr(depth)}
+		n = unaryexpr{op: op, n: p.parseoperand(depth)}
 	}
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
 			panic("unexpected binary op")
 		}
-		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
+		n = binaryexpr{op: op, a: n, b: p.parseoperand(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic("unexpected ternary op")
+		}
 		t := ternaryexpr{}
 		t.a = n
-		t.b = p.parseexpr(depth)
+		t.b = p.parseoperand(depth)
 		p.expect(colontoken)
-		t.c = p.parseexpr(depth)
+		t.c = p.parseoperand(depth)
 		n = t
 	}
 
@@ -123,7 +126,8 @@ func (p *parser) parseexpr(depth int) node {
 	case p.accept(nilkeyword):
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
-		n = p.parseexpr(1)
+		n = p.parseoperand(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -136,11 +140,13 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
-			binary(binarycall, 1)
+			n = binaryexpr{op: binarycall, a: n, b: p.parseexpr(1)}
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -263,7 +269,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
@@ -272,6 +278,15 @@ func (p *parser) parseexpr(depth int) node {
 	return n
 }
 
+// parseoperand parses an expression that must not be empty.
+func (p *parser) parseoperand(depth int) node {
+	n := p.parseexpr(depth)
+	if n == nil {
+		panic(fmt.Errorf("expected operand, got %s", p.readtoken().kind))
+	}
+	return n
+}
+
 func (p *parser) parse() node {
 	return p.parseexpr(0)
 }
-- 
2.43.0


From 998adad4d8e1c54262aaa881d025d1fbc323f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 35/61] fix: report expressions nested too deep instead of
 overflowing the stack

---
 expr/parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index b173a99..41b3b26 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -27,6 +28,19 @@ type parser struct {
 
 	a bool
 	t token
+
+	nest int
+}
+
+// maxnest limits how deep expressions may be nested, so that no expression can
+// overflow the stack.
+const maxnest = 100000
+
+func (p *parser) nested() {
+	p.nest++
+	if p.nest > maxnest {
+		panic(errors.New("expression is nested too deep"))
+	}
 }
 
 func newparser(s *scanner) *parser {
@@ -87,6 +101,10 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	// Every call and every operator nests the resulting tree deeper.
+	defer func(nest int) { p.nest = nest }(p.nest)
+	p.nested()
+
 	unary := func(op unaryop, depth int) {
 		n = unaryexpr{op: op, n: p.parseoperand(depth)}
 	}
@@ -132,6 +150,9 @@ func (p *parser) parseexpr(depth int) node {
 	}
 
 	for {
+		if n != nil {
+			p.nested()
+		}
 		if depth >= 8 {
 			break
 		}
-- 
2.43.0


From f95ed1a606386e7bfdd2ffd7e27ccc70319475bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 36/61] fix: report unterminated strings instead of reading
 them forever

---
 expr/lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..34809ee 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -378,7 +378,11 @@ func (s *scanner) scanstring(quote byte) token {
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
 		default:
-			str = append(str, runebytes(s.readrune())...)
+			r := s.readrune()
+			if r == eof {
+				return s.errsymf("unterminated string")
+			}
+			str = append(str, runebytes(r)...)
 		}
 	}
 }
-- 
2.43.0


From b68d2540eccc528799d6da828e47c47724996ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 37/61] fix: value of escaped bytes in rune literals, invalid
 code points, empty rune literals

---
 expr/lex.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index 34809ee..5670326 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -3,6 +3,7 @@ package expr
 //go:generate stringer -type=tokenkind
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -353,6 +354,9 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
+		if !utf8.ValidRune(rune(code)) {
+			panic(fmt.Errorf("invalid code point %s", hex))
+		}
 		return runebytes(rune(code))
 	case s.accept('U'):
 		hex := string([]rune{
@@ -363,6 +367,9 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
+		if code > unicode.MaxRune || !utf8.ValidRune(rune(code)) {
+			panic(fmt.Errorf("invalid code point %s", hex))
+		}
 		return runebytes(rune(code))
 	default:
 		panic(fmt.Errorf("unexpected escape code %c", s.readrune()))
@@ -391,8 +398,14 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
-		return token{kind: runetoken, ival: int64(r[0])}
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r, _ := utf8.DecodeRune(b)
+		return token{kind: runetoken, ival: int64(r)}
+	case s.peekmatch(func(r rune) bool { return r == '\'' }):
+		panic(errors.New("empty rune literal"))
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From 2e733a9b24732e8d44ccb99677dc28760fa5f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 38/61] fix: scan signed exponents of float literals

---
 expr/lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 5670326..c76173c 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -39,6 +40,10 @@ func isnumber(c rune) bool {
 	return isdigit(c) || ishex(c) || c == '.' || lower(c) == 'x'
 }
 
+func issign(c rune) bool {
+	return c == '+' || c == '-'
+}
+
 func isident(c rune) bool {
 	return isletter(c) || isdigit(c)
 }
@@ -281,6 +286,12 @@ func (s *scanner) scannumber(t token) token {
 	for {
 		if r, ok := s.acceptfn(isnumber); ok {
 			t.sval += string(r)
+			// The exponent of a float may have a sign.
+			if lower(r) == 'e' && !strings.ContainsAny(t.sval, "xX") {
+				if r, ok := s.acceptfn(issign); ok {
+					t.sval += string(r)
+				}
+			}
 			continue
 		}
 		break
-- 
2.43.0


From c8dc5ef4e8847306dbc933e47c7d53921385cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 39/61] fix: do not evaluate the right side of && and || when
 the left side decides

---
 expr/eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index 09641bf..4e0d315 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"fmt"
+	"reflect"
 )
 
 // EvalProgram returns the result of executing the program with the given resolver.
@@ -111,6 +112,11 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return a.Call(in)
 	case binarygroup:
 		return evalnode(resolver, node.b)
+	case binarylogicalor, binarylogicaland:
+		// The right side is not evaluated if the left side decides.
+		if lv, ok := a.RawValue().(bool); ok && lv == (node.op == binarylogicalor) {
+			return val{reflect.ValueOf(lv), NewPrimitiveType(Bool)}
+		}
 	}
 
 	b := evalnode(resolver, node.b)
-- 
2.43.0


From ef257eac2170384b224d4d2c9b76ead4ef7dca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 40/61] fix: publish types only when they are complete, and
 describe recursive maps and functions

---
 expr/type.go | 58 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..3556e0f 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
@@ -478,27 +478,27 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
-	typemutex.Lock()
-	defer typemutex.Unlock()
-
-	typemap[reflect] = expr
-	return expr
-}
-
-func loadtype(reflect reflect.Type) (Type, bool) {
+// fromreflecttype converts a runtime type into an expr type.
+func fromreflecttype(t reflect.Type) Type {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	if expr, ok := typemap[reflect]; ok {
-		return expr, true
+	// Only publish types once they are complete.
+	pending := map[reflect.Type]Type{}
+	et := buildtype(t, pending)
+	for t, et := range pending {
+		typemap[t] = et
 	}
-	return nil, false
+	return et
 }
 
-// fromreflecttype converts a runtime type into an expr type.
-func fromreflecttype(t reflect.Type) Type {
-	if et, ok := loadtype(t); ok {
+// buildtype converts a runtime type into an expr type. Types that may refer to
+// themselves are recorded in pending before their elements are converted.
+func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
+	if et, ok := typemap[t]; ok {
+		return et
+	}
+	if et, ok := pending[t]; ok {
 		return et
 	}
 
@@ -509,30 +509,36 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), buildtype(t.Elem(), pending))
 	case reflect.Func:
+		et := &FuncType{}
+		pending[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, buildtype(t.In(i), pending))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, buildtype(t.Out(i), pending))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		et := &MapType{}
+		pending[t] = et
+		*et = MapType{key: buildtype(t.Key(), pending), val: buildtype(t.Elem(), pending)}
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewPtrType(buildtype(t.Elem(), pending))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewSliceType(buildtype(t.Elem(), pending))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +546,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: buildtype(field.Type, pending),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From 7990196f127a6b3cede73fef2b472a6a7d7d66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 41/61] fix: index maps with missing keys and with keys of
 named types

---
 expr/value.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index 7acf7fa..9bee84e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -855,7 +855,12 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		key := promote(rhs, t.Key()).Value().Convert(v.v.Type().Key())
+		elem := v.v.MapIndex(key)
+		if !elem.IsValid() {
+			elem = reflect.Zero(v.v.Type().Elem())
+		}
+		return val{elem, t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From 996828c795e6fc8828bbc88909e21627873b80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 42/61] fix: do not recurse endlessly on the names of types
 that contain themselves

---
 expr/type.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 3556e0f..deed7f6 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -237,7 +237,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -267,7 +267,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -292,7 +292,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -310,6 +310,30 @@ func (t MapType) Value() Type {
 	return t.val
 }
 
+// typestring returns the string representation of a type, without following
+// types that contain themselves.
+func typestring(t Type, outer []Type) string {
+	for _, o := range outer {
+		if o == t {
+			return "..."
+		}
+	}
+	outer = append(outer, t)
+
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, outer))
+	case *SliceType:
+		return "[]" + typestring(t.elem, outer)
+	case *MapType:
+		return "map[" + typestring(t.key, outer) + "]" + typestring(t.val, outer)
+	case *PtrType:
+		return "*" + typestring(t.elem, outer)
+	default:
+		return t.String()
+	}
+}
+
 // Field represents a struct field.
 type Field struct {
 	Name string
@@ -369,7 +393,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
-- 
2.43.0


From db969bd5b312f0dfdf1de80a530a1f4a0f6e0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 43/61] fix: evaluate operators on operands of named basic
 types

---
 expr/eval.go  |  4 ++--
 expr/value.go | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 4e0d315..e6815c9 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -114,7 +114,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return evalnode(resolver, node.b)
 	case binarylogicalor, binarylogicaland:
 		// The right side is not evaluated if the left side decides.
-		if lv, ok := a.RawValue().(bool); ok && lv == (node.op == binarylogicalor) {
+		if lv, ok := basic(a).RawValue().(bool); ok && lv == (node.op == binarylogicalor) {
 			return val{reflect.ValueOf(lv), NewPrimitiveType(Bool)}
 		}
 	}
@@ -167,7 +167,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := basic(evalnode(resolver, node.a)).Value().Interface()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index 9bee84e..2715a33 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -147,7 +147,17 @@ func promote(from Value, to Type) Value {
 	}
 }
 
+// basic returns a value of a named basic type as a value of that basic type.
+func basic(v Value) Value {
+	rtype, ok := primRType[v.Type().Kind()]
+	if ok && v.Value().IsValid() && v.Value().Type() != rtype {
+		return val{v.Value().Convert(rtype), v.Type()}
+	}
+	return v
+}
+
 func coerce1(v Value) Value {
+	v = basic(v)
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
 		case uint64:
@@ -160,6 +170,7 @@ func coerce1(v Value) Value {
 }
 
 func coerce(lhs Value, rhs Value) (Value, Value) {
+	lhs, rhs = basic(lhs), basic(rhs)
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
@@ -183,7 +194,7 @@ func (v val) RawValue() interface{} {
 }
 
 func (v val) Negate() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -216,7 +227,7 @@ func (v val) Negate() Value {
 }
 
 func (v val) Not() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case bool:
 		return val{reflect.ValueOf(!n), v.t}
 	default:
@@ -225,7 +236,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
@@ -285,12 +296,12 @@ func (v val) Dot(ident string) Value {
 }
 
 func (v val) LogicalOr(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: rhs})
 	}
@@ -299,12 +310,12 @@ func (v val) LogicalOr(rhs Value) Value {
 }
 
 func (v val) LogicalAnd(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: rhs})
 	}
@@ -690,7 +701,7 @@ func (v val) Lsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -739,7 +750,7 @@ func (v val) Rsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -847,7 +858,7 @@ func (v val) AndNot(rhs Value) Value {
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
 		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
+		return val{reflect.ValueOf(basic(v).RawValue().(string)[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-- 
2.43.0


From 80785551a45b4d0635e661e4eaaa7227e4548bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 44/61] fix: compare values of any pointer, slice, map and
 function type with nil, pass nil and named types to functions

---
 expr/type.go  | 40 ----------------------------------------
 expr/value.go | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 42 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index deed7f6..d6ce9d0 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -459,46 +459,6 @@ func TypeEqual(a, b Type) bool {
 	return reflect.DeepEqual(a, b)
 }
 
-// toreflecttype converts an expr type into a runtime type.
-func toreflecttype(t Type) reflect.Type {
-	switch t := t.(type) {
-	case *PrimitiveType:
-		return primRType[t.Kind()]
-	case *ArrayType:
-		return reflect.ArrayOf(t.Len(), toreflecttype(t.Elem()))
-	case *SliceType:
-		return reflect.SliceOf(toreflecttype(t.Elem()))
-	case *StructType:
-		fields := make([]reflect.StructField, 0, t.NumFields())
-		for i := 0; i < t.NumFields(); i++ {
-			field := t.Field(i)
-			fields = append(fields, reflect.StructField{
-				Name: field.Name,
-				Type: toreflecttype(field.Type),
-			})
-		}
-		return reflect.StructOf(fields)
-	case *MapType:
-		return reflect.MapOf(toreflecttype(t.Key()), toreflecttype(t.Value()))
-	case *PtrType:
-		return reflect.PtrTo(toreflecttype(t.Elem()))
-	case *FuncType:
-		nin := t.NumIn()
-		in := make([]reflect.Type, 0, nin)
-		for i := 0; i < nin; i++ {
-			in = append(in, toreflecttype(t.In(i)))
-		}
-		nout := t.NumOut()
-		out := make([]reflect.Type, 0, nout)
-		for i := 0; i < nout; i++ {
-			out = append(out, toreflecttype(t.Out(i)))
-		}
-		return reflect.FuncOf(in, out, t.IsVariadic())
-	default:
-		panic(ErrNotRepresentable)
-	}
-}
-
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
diff --git a/expr/value.go b/expr/value.go
index 2715a33..7755d86 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -141,12 +141,28 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedNil:
-		return val{reflect.Zero(toreflecttype(to)), to}
+		panic(ErrUntypedNil)
 	default:
 		panic(ConversionError{From: ftype, To: to})
 	}
 }
 
+// comparenil compares a value with the literal nil. It returns false for ok if
+// neither of the operands is the literal nil.
+func comparenil(lhs Value, rhs Value) (isnil bool, ok bool) {
+	if lhs.Type().Kind() == UntypedNil {
+		lhs, rhs = rhs, lhs
+	}
+	if rhs.Type().Kind() != UntypedNil {
+		return false, false
+	}
+	switch lhs.Type().Kind() {
+	case Ptr, Func, Slice, Map:
+		return lhs.Value().IsNil(), true
+	}
+	panic(ErrUntypedNil)
+}
+
 // basic returns a value of a named basic type as a value of that basic type.
 func basic(v Value) Value {
 	rtype, ok := primRType[v.Type().Kind()]
@@ -324,11 +340,17 @@ func (v val) LogicalAnd(rhs Value) Value {
 }
 
 func (v val) Equal(rhs Value) Value {
+	if isnil, ok := comparenil(v, rhs); ok {
+		return val{reflect.ValueOf(isnil), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
+	if isnil, ok := comparenil(v, rhs); ok {
+		return val{reflect.ValueOf(!isnil), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
 }
@@ -887,7 +909,16 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		intype := v.v.Type().In(i)
+		if n.Type().Kind() == UntypedNil && assignable(n.Type(), ft.In(i)) {
+			inconv = append(inconv, reflect.Zero(intype))
+			continue
+		}
+		inval := promote(n, ft.In(i)).Value()
+		if inval.Type() != intype && inval.Type().ConvertibleTo(intype) {
+			inval = inval.Convert(intype)
+		}
+		inconv = append(inconv, inval)
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From 1a80e52a7eb5d17e36083babc287fc07e3749b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 45/61] fix: accept indices of any integer type

---
 expr/value.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 7755d86..a397a22 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -877,16 +877,37 @@ func (v val) AndNot(rhs Value) Value {
 	}
 }
 
+// indexvalue returns the value of an index into a string, array or slice, which
+// can be of any integer type.
+func indexvalue(v Value) int {
+	switch v.Type().Kind() {
+	case Int8, Int16, Int32, Int64:
+		n := v.Value().Int()
+		if int64(int(n)) != n {
+			panic(fmt.Errorf("index out of range: %d", n))
+		}
+		return int(n)
+	case Uint, Uint8, Uint16, Uint32, Uint64, Uintptr:
+		n := v.Value().Uint()
+		if int(n) < 0 || uint64(int(n)) != n {
+			panic(fmt.Errorf("index out of range: %d", n))
+		}
+		return int(n)
+	default:
+		return basic(promote(v, NewPrimitiveType(Int))).RawValue().(int)
+	}
+}
+
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
-		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
+		index := indexvalue(rhs)
 		return val{reflect.ValueOf(basic(v).RawValue().(string)[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(indexvalue(rhs)), t.Elem()}
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(indexvalue(rhs)), t.Elem()}
 	case *MapType:
 		key := promote(rhs, t.Key()).Value().Convert(v.v.Type().Key())
 		elem := v.v.MapIndex(key)
-- 
2.43.0


From 7c02acc03a24c858d6f622f0f2b010467138299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 46/61] fix: compare strings with <, <=, > and >=

---
 expr/value.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index a397a22..466cc98 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -384,6 +384,8 @@ func (v val) Lesser(rhs Value) Value {
 		return val{reflect.ValueOf(lv < r.RawValue().(float32)), NewPrimitiveType(Bool)}
 	case float64:
 		return val{reflect.ValueOf(lv < r.RawValue().(float64)), NewPrimitiveType(Bool)}
+	case string:
+		return val{reflect.ValueOf(lv < r.RawValue().(string)), NewPrimitiveType(Bool)}
 	default:
 		panic(InvalidOpError{Op: "<", V: l})
 	}
@@ -418,6 +420,8 @@ func (v val) LesserEqual(rhs Value) Value {
 		return val{reflect.ValueOf(lv <= r.RawValue().(float32)), NewPrimitiveType(Bool)}
 	case float64:
 		return val{reflect.ValueOf(lv <= r.RawValue().(float64)), NewPrimitiveType(Bool)}
+	case string:
+		return val{reflect.ValueOf(lv <= r.RawValue().(string)), NewPrimitiveType(Bool)}
 	default:
 		panic(InvalidOpError{Op: "<=", V: l})
 	}
@@ -452,6 +456,8 @@ func (v val) Greater(rhs Value) Value {
 		return val{reflect.ValueOf(lv > r.RawValue().(float32)), NewPrimitiveType(Bool)}
 	case float64:
 		return val{reflect.ValueOf(lv > r.RawValue().(float64)), NewPrimitiveType(Bool)}
+	case string:
+		return val{reflect.ValueOf(lv > r.RawValue().(string)), NewPrimitiveType(Bool)}
 	default:
 		panic(InvalidOpError{Op: ">", V: l})
 	}
@@ -486,6 +492,8 @@ func (v val) GreaterEqual(rhs Value) Value {
 		return val{reflect.ValueOf(lv >= r.RawValue().(float32)), NewPrimitiveType(Bool)}
 	case float64:
 		return val{reflect.ValueOf(lv >= r.RawValue().(float64)), NewPrimitiveType(Bool)}
+	case string:
+		return val{reflect.ValueOf(lv >= r.RawValue().(string)), NewPrimitiveType(Bool)}
 	default:
 		panic(InvalidOpError{Op: ">=", V: l})
 	}
-- 
2.43.0


From aa6be538990caea9bdaf8a081aaeecf2d9776c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 47/61] fix: arithmetic of untyped constants gives untyped
 constants

---
 expr/eval.go  |  6 +++++-
 expr/type.go  |  2 +-
 expr/value.go | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index e6815c9..a54b3ad 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -120,7 +120,11 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 	}
 
 	b := evalnode(resolver, node.b)
-	switch node.op {
+	return untyped(a, b, evaloperator(node.op, a, b))
+}
+
+func evaloperator(op binaryop, a, b Value) Value {
+	switch op {
 	case binarylogicalor:
 		return a.LogicalOr(b)
 	case binarylogicaland:
diff --git a/expr/type.go b/expr/type.go
index d6ce9d0..4aebdf9 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -562,7 +562,7 @@ func assignable(from Type, to Type) bool {
 		switch to.Kind() {
 		case Int, Int8, Int16, Int32, Int64, Uint, Uint8, Uint16, Uint32, Uint64, Uintptr:
 			return true
-		case Float32, Float64:
+		case Float32, Float64, UntypedFloat:
 			return true
 		}
 
diff --git a/expr/value.go b/expr/value.go
index 466cc98..ed7a497 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -101,6 +101,10 @@ func promote(from Value, to Type) Value {
 	case UntypedInt:
 		ival, uval, fval := int64(0), uint64(0), float64(0)
 		switch n := from.RawValue().(type) {
+		case int:
+			ival = int64(n)
+			uval = uint64(n)
+			fval = float64(n)
 		case int64:
 			ival = int64(n)
 			uval = uint64(n)
@@ -135,7 +139,7 @@ func promote(from Value, to Type) Value {
 			return val{reflect.ValueOf(uintptr(uval)), to}
 		case Float32:
 			return val{reflect.ValueOf(float32(fval)), to}
-		case Float64:
+		case Float64, UntypedFloat:
 			return val{reflect.ValueOf(float64(fval)), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
@@ -180,6 +184,37 @@ func coerce1(v Value) Value {
 			return val{reflect.ValueOf(int(n)), NewPrimitiveType(Int)}
 		case int64:
 			return val{reflect.ValueOf(int(n)), NewPrimitiveType(Int)}
+		case int:
+			return val{reflect.ValueOf(n), NewPrimitiveType(Int)}
+		}
+	}
+	return v
+}
+
+// untyped returns the result of an operation on two operands as an untyped
+// constant if both of the operands are untyped numeric constants.
+func untyped(a, b, result Value) Value {
+	for _, v := range []Value{a, b} {
+		switch v.Type().Kind() {
+		case UntypedInt, UntypedFloat:
+		default:
+			return result
+		}
+	}
+	switch result.Type().Kind() {
+	case Int:
+		return val{result.Value(), NewLiteralType(UntypedInt)}
+	case Float64:
+		return val{result.Value(), NewLiteralType(UntypedFloat)}
+	}
+	return result
+}
+
+// shiftcount returns an untyped shift count as an unsigned integer.
+func shiftcount(v Value) Value {
+	if v.Type().Kind() == UntypedInt {
+		if n, ok := coerce1(v).RawValue().(int); ok && n >= 0 {
+			return val{reflect.ValueOf(uint(n)), NewPrimitiveType(Uint)}
 		}
 	}
 	return v
@@ -230,6 +265,9 @@ func (v val) Negate() Value {
 	case uint32:
 		return val{reflect.ValueOf(-n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(-int64(n))
+		}
 		return val{reflect.ValueOf(-n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(-n), v.t}
@@ -272,6 +310,9 @@ func (v val) BitNot() Value {
 	case uint32:
 		return val{reflect.ValueOf(^n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(^int64(n))
+		}
 		return val{reflect.ValueOf(^n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(^n), v.t}
@@ -731,7 +772,7 @@ func (v val) Lsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := basic(rhs).RawValue().(type) {
+	switch rv := basic(shiftcount(rhs)).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -780,7 +821,7 @@ func (v val) Rsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := basic(rhs).RawValue().(type) {
+	switch rv := basic(shiftcount(rhs)).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
-- 
2.43.0


From 8dfdb94725e1a98f85fad5b43b911d45620cc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 48/61] fix: report negative lengths of strings with wide
 elements

---
 decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder.go b/decoder.go
index e041782..eb6f960 100644
--- a/decoder.go
+++ b/decoder.go
@@ -182,6 +182,9 @@ func (d *decoder) readString(f field, count int) string {
 	case reflect.Int8, reflect.Uint8:
 		return string(d.readBytes(count))
 	}
+	if count < 0 {
+		panic(io.ErrUnexpectedEOF)
+	}
 	str := []byte{}
 	for i := 0; i < count; i++ {
 		v := reflect.New(ef.NativeType).Elem()
-- 
2.43.0


From 43c4a05c66ef6a327006a0e3181e2ddfd6100ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 49/61] fix: do not lose digits of large numbers directly after
 a minus sign

---
 expr/lex.go   | 7 ++++++-
 expr/parse.go | 9 ++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index c76173c..fa2fafa 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -296,6 +296,11 @@ func (s *scanner) scannumber(t token) token {
 		}
 		break
 	}
+	return numbertoken(t)
+}
+
+// numbertoken sets the kind and value of a number from its text.
+func numbertoken(t token) token {
 	var err error
 	if t.uval, err = strconv.ParseUint(t.sval, 0, 64); err == nil {
 		t.ival = int64(t.uval)
@@ -312,7 +317,7 @@ func (s *scanner) scannumber(t token) token {
 		t.uval = uint64(t.fval)
 		t.kind = floattoken
 	} else {
-		return token{kind: errtoken, eval: err}
+		return token{kind: errtoken, pos: t.pos, sval: t.sval, eval: err}
 	}
 	return t
 }
diff --git a/expr/parse.go b/expr/parse.go
index 41b3b26..ac19792 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -72,19 +72,14 @@ func (p *parser) accept(k tokenkind) bool {
 func (p *parser) splitsign() bool {
 	t := p.readtoken()
 	switch t.kind {
-	case inttoken, floattoken:
+	case inttoken, floattoken, errtoken:
 		if !strings.HasPrefix(t.sval, "-") {
 			return false
 		}
 	default:
 		return false
 	}
-	t.pos++
-	t.sval = t.sval[1:]
-	t.uval = uint64(-t.ival)
-	t.ival = -t.ival
-	t.fval = -t.fval
-	t.sign = false
+	*t = numbertoken(token{pos: t.pos + 1, sval: t.sval[1:]})
 	return true
 }
 
-- 
2.43.0


From 2269a7ffc5518375135e5becf82df708d802427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 50/61] fix: reject member access to anything but a name

---
 expr/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index ac19792..15ce96b 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -152,7 +152,8 @@ func (p *parser) parseexpr(depth int) node {
 			break
 		}
 		if n != nil && p.accept(periodtoken) {
-			binary(binarymember, 8)
+			p.expect(identtoken)
+			n = binaryexpr{op: binarymember, a: n, b: newidentnode(p.t)}
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
-- 
2.43.0


From a3a072d7d1d24fd30f3db2292bd01fcdb7e24835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 51/61] fix: let a type option replace the bit width of an
 earlier one

---
 tag.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tag.go b/tag.go
index 92ee33b..f60bbfb 100644
--- a/tag.go
+++ b/tag.go
@@ -246,6 +246,7 @@ func (opts *tagOptions) parse(tag string) error {
 			if err != nil {
 				return fmt.Errorf("struct type: %v", err)
 			}
+			opts.BitSize = 0
 			if len(parts) < 2 {
 				break
 			}
-- 
2.43.0


From 1309d748ae3d39e449a46bbb0aefdf874b306dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 52/61] fix: reject tags that go on behind a zero byte

---
 tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.go b/tag.go
index f60bbfb..da99808 100644
--- a/tag.go
+++ b/tag.go
@@ -262,7 +262,7 @@ func (opts *tagOptions) parse(tag string) error {
 				return fmt.Errorf("bit size %d out of range (%d to %d)", opts.BitSize, 1, opts.Type.Bits()-1)
 			}
 		}
-		if accept("\x00") {
+		if tag == "\x00" {
 			return nil
 		}
 		if !accept(",") {
-- 
2.43.0


From bbab387947e1f95c39b47e1d77b7cc3bef5de766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 53/61] fix: reject sizeof and sizefrom options without a name

---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index da99808..2f8fe1d 100644
--- a/tag.go
+++ b/tag.go
@@ -96,6 +96,9 @@ func (opts *tagOptions) parse(tag string) error {
 				return "", fmt.Errorf("invalid identifier character %c", r)
 			}
 		}
+		if i == 0 {
+			return "", errors.New("expected identifier")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
-- 
2.43.0


From dd5bfe377fe4ef9fe82af85a269814f540ce145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 54/61] fix: reject size and bits expressions that do not give
 integers

---
 structstack.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/structstack.go b/structstack.go
index b3dfa6a..debf4e2 100644
--- a/structstack.go
+++ b/structstack.go
@@ -58,7 +58,7 @@ func (s *structstack) evalBits(f field) int {
 		bits = int(f.BitSize)
 	}
 	if f.BitsExpr != nil {
-		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		bits = s.evalInt(f, f.BitsExpr)
 	}
 	return bits
 }
@@ -66,11 +66,20 @@ func (s *structstack) evalBits(f field) int {
 func (s *structstack) evalSize(f field) int {
 	size := 0
 	if f.SizeExpr != nil {
-		size = reflect.ValueOf(s.evalExpr(f.SizeExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		size = s.evalInt(f, f.SizeExpr)
 	}
 	return size
 }
 
+// evalInt evaluates an expression that has to give an integer.
+func (s *structstack) evalInt(f field, program *expr.Program) int {
+	v := reflect.ValueOf(s.evalExpr(program))
+	if _, _, ok := integer(v); !ok {
+		panic(fmt.Errorf("%s: expected integer value for expr", f.Name))
+	}
+	return v.Convert(reflect.TypeOf(int(0))).Interface().(int)
+}
+
 func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
-- 
2.43.0


From 3e29091d169b140b73cada73c18ed453924fd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 55/61] fix: reject length links from and to fields named _

---
 field.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/field.go b/field.go
index 3689b30..ae8b9e2 100644
--- a/field.go
+++ b/field.go
@@ -211,6 +211,12 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			ftyp = opts.Type
 		}
 
+		// Fields named _ have no value to link.
+		if opts.SizeOf == "_" || opts.SizeFrom == "_" ||
+			(opts.SizeOf != "" && val.Name == "_") {
+			panic(fmt.Errorf("%s: fields named _ cannot be linked", val.Name))
+		}
+
 		// SizeOf
 		sindex := -1
 		tindex := -1
-- 
2.43.0


From 2ae4b71cb8de906232d6af9f55c36eedf34a2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 56/61] fix: accept all digits of Go identifiers in sizeof and
 sizefrom

---
 tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.go b/tag.go
index 2f8fe1d..1583c0e 100644
--- a/tag.go
+++ b/tag.go
@@ -32,7 +32,7 @@ func isdigit(c rune) bool {
 }
 
 func isident(c rune) bool {
-	return isletter(c) || isdigit(c)
+	return isletter(c) || isdigit(c) || c >= utf8.RuneSelf && unicode.IsDigit(c)
 }
 
 func isint(c rune) bool {
-- 
2.43.0


From e2486319b2002a2ed0b5e0bfb0b74346fd92f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 57/61] fix: use structs in expressions despite fields without
 a representation

---
 expr/type.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/expr/type.go b/expr/type.go
index 4aebdf9..476dd5a 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -528,6 +528,10 @@ func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
 		fields := make([]Field, 0, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			// Other fields can be used nevertheless.
+			if !representable(field.Type, map[reflect.Type]bool{}) {
+				continue
+			}
 			fields = append(fields, Field{
 				Name: field.Name,
 				Type: buildtype(field.Type, pending),
@@ -539,6 +543,37 @@ func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
 	}
 }
 
+// representable determines if a runtime type can be converted into an expr
+// type. Types in seen are being looked at already.
+func representable(t reflect.Type, seen map[reflect.Type]bool) bool {
+	if seen[t] {
+		return true
+	}
+	seen[t] = true
+
+	switch t.Kind() {
+	case reflect.Complex64, reflect.Complex128, reflect.Chan,
+		reflect.Interface, reflect.UnsafePointer:
+		return false
+	case reflect.Array, reflect.Ptr, reflect.Slice:
+		return representable(t.Elem(), seen)
+	case reflect.Map:
+		return representable(t.Key(), seen) && representable(t.Elem(), seen)
+	case reflect.Func:
+		for i := 0; i < t.NumIn(); i++ {
+			if !representable(t.In(i), seen) {
+				return false
+			}
+		}
+		for i := 0; i < t.NumOut(); i++ {
+			if !representable(t.Out(i), seen) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func assignable(from Type, to Type) bool {
 	if TypeEqual(from, to) {
 		return true
-- 
2.43.0


From 035c8376e03bf28d18e6497ff0224ff90b5b918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 58/61] fix: padding whose encoded type has a fixed size is as
 long as that type

A field named _ of a native type without a fixed size, such as a slice
or a string, that is encoded as an array was not encoded at all, so what
followed it ended up in the place of the padding.
---
 structstack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index debf4e2..f62f777 100644
--- a/structstack.go
+++ b/structstack.go
@@ -208,7 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
-		if !isTypeTrivial(val.Type()) {
+		if !isTypeTrivial(f.BinaryType) && !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
 		// The contents of the field are inaccessible, and don't matter.
-- 
2.43.0


From 0c5b63f7e87623c0a4459a925f0b1b7976eeb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 59/61] fix: reject bits expressions that give negative numbers

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index f62f777..f0580ce 100644
--- a/structstack.go
+++ b/structstack.go
@@ -59,6 +59,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = s.evalInt(f, f.BitsExpr)
+		if bits < 0 {
+			panic(fmt.Errorf("%s: negative bit size %d", f.Name, bits))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From bacb486d5527ada906a9949aaca80e91274272ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 60/61] fix: set every sizeof counter of a field

---
 field.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/field.go b/field.go
index ae8b9e2..ac5fc79 100644
--- a/field.go
+++ b/field.go
@@ -171,7 +171,7 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 	count := typ.NumField()
 
-	sizeOfMap := map[string]int{}
+	sizeOfMap := map[string][]int{}
 
 	for i := 0; i < count; i++ {
 		val := typ.Field(i)
@@ -224,15 +224,16 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			for k := range result {
-				if result[k].Index == sindex {
-					result[k].TIndex = i
+			for _, sindex = range j {
+				for k := range result {
+					if result[k].Index == sindex {
+						result[k].TIndex = i
+					}
 				}
 			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = append(sizeOfMap[opts.SizeOf], i)
 		}
 
 		// SizeFrom
-- 
2.43.0


From f513bfc5f2096716e971ec880dae2db30bb8e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 61/61] fix: restore only references that were read

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index eb6f960..eff7de4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -252,7 +252,11 @@ func (d *decoder) moved(f field, v reflect.Value) {
 // moved in memory since they were read.
 func (d *decoder) relink(f field, v reflect.Value) {
 	if f.Flags&(RootFlag|ParentFlag) != 0 {
-		d.read(f, v)
+		// References that were not read, those in other cases of a switch for
+		// example, are not set now either.
+		if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() {
+			d.read(f, v)
+		}
 		return
 	}
 
-- 
2.43.0

