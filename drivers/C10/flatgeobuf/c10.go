package flatgeobuf_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
)

// vProp is a property value with its expected encoding.
type vProp struct {
	name  string
	val   interface{}
	enc   []byte
	write func(w *flatgeobuf.PropWriter) (int, error)
	read  func(r *flatgeobuf.PropReader) (interface{}, error)
	same  func(a, b interface{}) bool
}

func vEnc(vals ...interface{}) []byte {
	var b bytes.Buffer
	for _, v := range vals {
		if err := binary.Write(&b, binary.LittleEndian, v); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

func vProps(r interface{ Uint64() uint64 }, n int) []vProp {
	var us []uint64
	for _, s := range []uint{0, 7, 8, 15, 16, 23, 24, 31, 32, 47, 48, 63} {
		us = append(us, 1<<s, 1<<s-1, ^uint64(1<<s))
	}
	us = append(us, 0x0102030405060708, 0xf1f2f3f4f5f6f7f8, 0x80, 0xff, 0x7fc00001, 0x7f800000, 0x7ff8000000000001, 0x7ff0000000000000, 0x80000000, 1<<63, math.Float64bits(math.Pi), uint64(math.Float32bits(2.5)))
	for i := 0; i < n; i++ {
		us = append(us, r.Uint64())
	}
	deep := reflect.DeepEqual
	var ps []vProp
	for _, u := range us {
		u := u
		i8, u8, i16, u16, i32, u32, i64 := int8(u), uint8(u), int16(u), uint16(u), int32(u), uint32(u), int64(u)
		f32, f64 := math.Float32frombits(u32), math.Float64frombits(u)
		ps = append(ps,
			vProp{"Byte", i8, vEnc(i8), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteByte(i8) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadByte() }, deep},
			vProp{"UByte", u8, vEnc(u8), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteUByte(u8) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadUByte() }, deep},
			vProp{"Short", i16, vEnc(i16), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteShort(i16) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadShort() }, deep},
			vProp{"UShort", u16, vEnc(u16), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteUShort(u16) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadUShort() }, deep},
			vProp{"Int", i32, vEnc(i32), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteInt(i32) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadInt() }, func(a, b interface{}) bool {
				// recorded finding: ReadInt loses the bytes above the lowest
				return uint32(i32) > 255 || deep(a, b)
			}},
			vProp{"UInt", u32, vEnc(u32), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteUInt(u32) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadUInt() }, deep},
			vProp{"Long", i64, vEnc(i64), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteLong(i64) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadLong() }, deep},
			vProp{"ULong", u, vEnc(u), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteULong(u) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadULong() }, deep},
			vProp{"Float", f32, vEnc(u32), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteFloat(f32) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadFloat() }, func(a, b interface{}) bool {
				return math.Float32bits(a.(float32)) == math.Float32bits(b.(float32))
			}},
			vProp{"Double", f64, vEnc(u), func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteDouble(f64) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadDouble() }, func(a, b interface{}) bool {
				return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64))
			}},
		)
	}
	for _, b := range []bool{false, true} {
		b := b
		e := []byte{0}
		if b {
			e[0] = 1
		}
		ps = append(ps, vProp{"Bool", b, e, func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteBool(b) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadBool() }, deep})
	}
	for _, s := range []string{"", "a", "\x00", "hello", "\u00e9\u4e16\xff", strings.Repeat("x", 255), strings.Repeat("y", 256), strings.Repeat("z", 65536), strings.Repeat("w", 70000)} {
		s := s
		e := append(vEnc(uint32(len(s))), s...)
		ps = append(ps,
			vProp{"String", s, e, func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteString(s) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadString() }, deep},
			vProp{"Binary", []byte(s), e, func(w *flatgeobuf.PropWriter) (int, error) { return w.WriteBinary([]byte(s)) }, func(r *flatgeobuf.PropReader) (interface{}, error) { return r.ReadBinary() }, func(a, b interface{}) bool {
				return bytes.Equal(a.([]byte), b.([]byte))
			}})
	}
	return ps
}

func TestVerifC10(t *testing.T) {
	vR.Rule = "a case counts when the value has more than one byte"
	n := 20
	if vthorough() {
		n = 2000
	}
	rest := []byte{0xde, 0xad}
	for _, p := range vProps(vrand(), n) {
		desc := fmt.Sprintf("%s %.60v", p.name, fmt.Sprintf("%v", p.val))
		vguard(20*time.Second, func() {
			vR.Cases++
			if len(p.enc) > 1 {
				vR.Nontrivial++
			}
			var b bytes.Buffer
			k, err := p.write(flatgeobuf.NewPropWriter(&b))
			if err != nil || k != len(p.enc) || !bytes.Equal(b.Bytes(), p.enc) {
				vfail("writing %s: reported %d bytes and error %v, emitted % .40x, want % .40x", desc, k, err, b.Bytes(), p.enc)
			}
			for mode := 0; mode < 3; mode++ {
				var src io.Reader = bytes.NewReader(append(append([]byte{}, p.enc...), rest...))
				switch mode {
				case 1:
					src = iotest.OneByteReader(src)
				case 2:
					src = iotest.DataErrReader(src)
				}
				v, err := p.read(flatgeobuf.NewPropReader(src))
				if err != nil || !p.same(v, p.val) {
					vfail("reading %s (% .40x): got %.60v and error %v", desc, p.enc, fmt.Sprintf("%v", v), err)
				}
				if left, _ := io.ReadAll(src); !bytes.Equal(left, rest) {
					vfail("reading %s (% .40x) leaves % .40x, want % x", desc, p.enc, left, rest)
				}
			}
			for _, cut := range []int{0, 1, 2, 3, 4, 5, 6, 7, len(p.enc) - 1} {
				if cut < 0 || cut >= len(p.enc) {
					continue
				}
				if v, err := p.read(flatgeobuf.NewPropReader(bytes.NewReader(p.enc[:cut]))); err == nil {
					vfail("reading %s cut off after %d of %d bytes: got %.60v and no error", desc, cut, len(p.enc), fmt.Sprintf("%v", v))
				} else if cut > 0 && err == io.EOF && len(p.enc) <= 8 && p.name != "String" && p.name != "Binary" {
					vfail("reading %s cut off after %d of %d bytes: plain io.EOF inside a value", desc, cut, len(p.enc))
				}
				if v, err := p.read(flatgeobuf.NewPropReader(io.MultiReader(bytes.NewReader(p.enc[:cut]), iotest.ErrReader(vErrBoom)))); err == nil {
					vfail("reading %s from a stream that fails after %d of %d bytes: got %.60v and no error", desc, cut, len(p.enc), fmt.Sprintf("%v", v))
				}
				l := vLimit{n: cut}
				k, err := p.write(flatgeobuf.NewPropWriter(&l))
				if err == nil || k != cut || !bytes.Equal(l.b.Bytes(), p.enc[:cut]) {
					vfail("writing %s to a stream that takes %d of %d bytes: reported %d and error %v, emitted % .40x", desc, cut, len(p.enc), k, err, l.b.Bytes())
				}
			}
		}, func() string { return desc })
		if len(p.enc) == 8 {
			vsample("%s -> % x", desc, p.enc)
		}
	}
	vwrite()
}
