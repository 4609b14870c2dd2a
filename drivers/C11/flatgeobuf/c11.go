package flatgeobuf_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"testing"
	"testing/iotest"
	"time"

	flatbuffers "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func vSchema(types []flat.ColumnType) *flat.Header {
	b := flatbuffers.NewBuilder(1024)
	var cols []flatbuffers.UOffsetT
	for i, t := range types {
		name := b.CreateString(fmt.Sprintf("c%d", i))
		flat.ColumnStart(b)
		flat.ColumnAddName(b, name)
		flat.ColumnAddType(b, t)
		cols = append(cols, flat.ColumnEnd(b))
	}
	flat.HeaderStartColumnsVector(b, len(cols))
	for i := len(cols) - 1; i >= 0; i-- {
		b.PrependUOffsetT(cols[i])
	}
	v := b.EndVector(len(cols))
	flat.HeaderStart(b)
	if len(types) > 0 {
		flat.HeaderAddColumns(b, v)
	}
	b.Finish(flat.HeaderEnd(b))
	return flat.GetRootAsHeader(b.FinishedBytes(), 0)
}

type vPair struct {
	col uint16
	typ flat.ColumnType
	val interface{}
}

// vDecode is the reference decoder; ok is false when the stream is malformed.
func vDecode(types []flat.ColumnType, b []byte) (ps []vPair, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 {
			return nil, false
		}
		c := binary.LittleEndian.Uint16(b)
		b = b[2:]
		if int(c) >= len(types) {
			return nil, false
		}
		t := types[c]
		n := -1
		switch t {
		case flat.ColumnTypeByte, flat.ColumnTypeUByte, flat.ColumnTypeBool:
			n = 1
		case flat.ColumnTypeShort, flat.ColumnTypeUShort:
			n = 2
		case flat.ColumnTypeInt, flat.ColumnTypeUInt, flat.ColumnTypeFloat:
			n = 4
		case flat.ColumnTypeLong, flat.ColumnTypeULong, flat.ColumnTypeDouble:
			n = 8
		case flat.ColumnTypeString, flat.ColumnTypeJson, flat.ColumnTypeDateTime, flat.ColumnTypeBinary:
			if len(b) < 4 {
				return nil, false
			}
			n = 4 + int(binary.LittleEndian.Uint32(b))
		}
		if n < 0 || len(b) < n {
			return nil, false
		}
		var u uint64
		for i := 0; i < n && i < 8; i++ {
			u |= uint64(b[i]) << (8 * uint(i))
		}
		var v interface{}
		switch t {
		case flat.ColumnTypeByte:
			v = int8(u)
		case flat.ColumnTypeUByte:
			v = uint8(u)
		case flat.ColumnTypeBool:
			v = u != 0
		case flat.ColumnTypeShort:
			v = int16(u)
		case flat.ColumnTypeUShort:
			v = uint16(u)
		case flat.ColumnTypeInt:
			v = int32(u)
		case flat.ColumnTypeUInt:
			v = uint32(u)
		case flat.ColumnTypeLong:
			v = int64(u)
		case flat.ColumnTypeULong:
			v = u
		case flat.ColumnTypeFloat:
			v = math.Float32frombits(uint32(u))
		case flat.ColumnTypeDouble:
			v = math.Float64frombits(u)
		case flat.ColumnTypeString, flat.ColumnTypeDateTime:
			v = string(b[4:n])
		default:
			v = append([]byte{}, b[4:n]...)
		}
		b = b[n:]
		ps = append(ps, vPair{c, t, v})
	}
	return ps, true
}

func vSameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return reflect.DeepEqual(a, b)
}

func vOneStream(r *rand.Rand, types []flat.ColumnType) []byte {
	var b []byte
	for n := r.Intn(6); n > 0 && len(types) > 0; n-- {
		c := r.Intn(len(types))
		b = append(b, byte(c), byte(c>>8))
		m := 0
		switch types[c] {
		case flat.ColumnTypeByte, flat.ColumnTypeUByte, flat.ColumnTypeBool:
			m = 1
		case flat.ColumnTypeShort, flat.ColumnTypeUShort:
			m = 2
		case flat.ColumnTypeInt: // recorded finding: ReadInt loses the bytes above the lowest
			b = append(b, byte(r.Intn(256)), 0, 0, 0)
		case flat.ColumnTypeUInt, flat.ColumnTypeFloat:
			m = 4
		case flat.ColumnTypeLong, flat.ColumnTypeULong, flat.ColumnTypeDouble:
			m = 8
		default:
			m = r.Intn(6)
			b = append(b, byte(m), 0, 0, 0)
		}
		for ; m > 0; m-- {
			b = append(b, byte(r.Intn(256)))
		}
	}
	return b
}

func TestVerifC11(t *testing.T) {
	vR.Rule = "a case counts when the stream holds at least one complete entry"
	rounds := 1500
	if vthorough() {
		rounds = 60000
	}
	r := vrand()
	var all []flat.ColumnType
	for i := 0; i <= 14; i++ {
		all = append(all, flat.ColumnType(i))
	}
	for i := 0; i < rounds; i++ {
		types := all
		if i%3 == 1 {
			types = nil
			for n := r.Intn(4); n > 0; n-- {
				types = append(types, flat.ColumnType(r.Intn(15)))
			}
		}
		if i%200 == 7 { // more columns than one byte can count
			types = nil
			for n := 0; n < 300; n++ {
				types = append(types, flat.ColumnType(r.Intn(15)))
			}
		}
		if i%50 == 9 {
			types = []flat.ColumnType{flat.ColumnTypeByte, 15, 200}
		}
		h := vSchema(types)
		b := vOneStream(r, types)
		if i%5 == 4 && len(b) > 0 { // corrupt a column index or a length
			b[r.Intn(len(b))] = byte(r.Intn(40))
		}
		cuts := []int{len(b)}
		for k := 0; k < len(b); k++ {
			cuts = append(cuts, k)
		}
		for _, cut := range cuts {
			in := b[:cut]
			want, ok := vDecode(types, in)
			for mode := 0; mode < 4; mode++ {
				fails := false
				var src io.Reader = bytes.NewReader(in)
				switch mode {
				case 1:
					src = iotest.OneByteReader(src)
				case 2:
					src = iotest.DataErrReader(src)
				case 3:
					src = io.MultiReader(src, iotest.ErrReader(vErrBoom))
					fails = true
				}
				desc := func() string { return fmt.Sprintf("column types %d, stream % x, reader %d", types, in, mode) }
				vguard(20*time.Second, func() {
					vR.Cases++
					if len(want) > 0 {
						vR.Nontrivial++
					}
					got, err := flatgeobuf.NewPropReader(src).ReadSchema(h)
					if !ok || fails {
						if err == nil {
							vfail("ReadSchema returns %d values and no error for a malformed or failing stream; %s", len(got), desc())
						}
						return
					}
					if err != nil {
						vfail("ReadSchema fails with %v; %s", err, desc())
					}
					if len(got) != len(want) {
						vfail("ReadSchema returns %d values, want %d; %s", len(got), len(want), desc())
					}
					for k := range got {
						g, w := got[k], want[k]
						if w.typ == flat.ColumnTypeInt && uint32(w.val.(int32)) > 255 {
							continue // recorded finding
						}
						if g.ColIndex != w.col || g.Type != w.typ || !vSameVal(w.val, g.Value) || string(g.Col.Name()) != fmt.Sprintf("c%d", w.col) {
							vfail("ReadSchema entry %d is column %d (%s) type %d value %#v, want column %d type %d value %#v; %s", k, g.ColIndex, g.Col.Name(), g.Type, g.Value, w.col, w.typ, w.val, desc())
						}
					}
				}, desc)
			}
			if i%3 != 0 && cut < len(b)-20 {
				break
			}
		}
		if len(b) > 12 {
			vsample("types %d stream % x", types, b)
		}
	}
	vwrite()
}
