// written by tools/mkflat.py
package flat_test

import (
	"math"
	"math/rand"

	flatbuffers "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

var _ = math.Float64bits

var vColumn = vTable{
	name:     "Column",
	start:    flat.ColumnStart,
	end:      flat.ColumnEnd,
	finish:   flat.FinishColumnBuffer,
	finishSP: flat.FinishSizePrefixedColumnBuffer,
	root:     func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetRootAsColumn(b, o) },
	rootSP:   func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsColumn(b, o) },
	table:    func(x interface{}) flatbuffers.Table { return x.(*flat.Column).Table() },
	fields: []vField{
		{name: "Name", slot: 0,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.ColumnAddName(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Name() },
		},
		{name: "Type", slot: 1,
			dflt: flat.ColumnType(0),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := flat.ColumnType(r.Intn(256))
				return func() { flat.ColumnAddType(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Type() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := flat.ColumnType(r.Intn(256))
				return x.(*flat.Column).MutateType(v), v
			},
		},
		{name: "Title", slot: 2,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.ColumnAddTitle(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Title() },
		},
		{name: "Description", slot: 3,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.ColumnAddDescription(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Description() },
		},
		{name: "Width", slot: 4,
			dflt: int32(-1),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := int32(vU32(r))
				return func() { flat.ColumnAddWidth(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Width() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := int32(vU32(r))
				return x.(*flat.Column).MutateWidth(v), v
			},
		},
		{name: "Precision", slot: 5,
			dflt: int32(-1),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := int32(vU32(r))
				return func() { flat.ColumnAddPrecision(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Precision() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := int32(vU32(r))
				return x.(*flat.Column).MutatePrecision(v), v
			},
		},
		{name: "Scale", slot: 6,
			dflt: int32(-1),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := int32(vU32(r))
				return func() { flat.ColumnAddScale(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Scale() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := int32(vU32(r))
				return x.(*flat.Column).MutateScale(v), v
			},
		},
		{name: "Nullable", slot: 7,
			dflt: bool(true),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.ColumnAddNullable(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Nullable() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Column).MutateNullable(v), v
			},
		},
		{name: "Unique", slot: 8,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.ColumnAddUnique(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Unique() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Column).MutateUnique(v), v
			},
		},
		{name: "PrimaryKey", slot: 9,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.ColumnAddPrimaryKey(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).PrimaryKey() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Column).MutatePrimaryKey(v), v
			},
		},
		{name: "Metadata", slot: 10,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.ColumnAddMetadata(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Column).Metadata() },
		},
	},
}

var vCrs = vTable{
	name:     "Crs",
	start:    flat.CrsStart,
	end:      flat.CrsEnd,
	finish:   flat.FinishCrsBuffer,
	finishSP: flat.FinishSizePrefixedCrsBuffer,
	root:     func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetRootAsCrs(b, o) },
	rootSP:   func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsCrs(b, o) },
	table:    func(x interface{}) flatbuffers.Table { return x.(*flat.Crs).Table() },
	fields: []vField{
		{name: "Org", slot: 0,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.CrsAddOrg(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).Org() },
		},
		{name: "Code", slot: 1,
			dflt: int32(0),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := int32(vU32(r))
				return func() { flat.CrsAddCode(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).Code() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := int32(vU32(r))
				return x.(*flat.Crs).MutateCode(v), v
			},
		},
		{name: "Name", slot: 2,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.CrsAddName(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).Name() },
		},
		{name: "Description", slot: 3,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.CrsAddDescription(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).Description() },
		},
		{name: "Wkt", slot: 4,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.CrsAddWkt(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).Wkt() },
		},
		{name: "CodeString", slot: 5,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.CrsAddCodeString(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Crs).CodeString() },
		},
	},
}

var vHeader = vTable{
	name:     "Header",
	start:    flat.HeaderStart,
	end:      flat.HeaderEnd,
	finish:   flat.FinishHeaderBuffer,
	finishSP: flat.FinishSizePrefixedHeaderBuffer,
	root:     func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetRootAsHeader(b, o) },
	rootSP:   func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsHeader(b, o) },
	table:    func(x interface{}) flatbuffers.Table { return x.(*flat.Header).Table() },
	fields: []vField{
		{name: "Name", slot: 0,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.HeaderAddName(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).Name() },
		},
		{name: "Envelope", slot: 1,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]float64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vF64(r)
					w = append(w, math.Float64bits(v[i]))
				}
				flat.HeaderStartEnvelopeVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependFloat64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.HeaderAddEnvelope(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Header).EnvelopeLength(); i++ {
					w = append(w, math.Float64bits(x.(*flat.Header).Envelope(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Header).EnvelopeLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vF64(r)
					all = x.(*flat.Header).MutateEnvelope(i, v) && all
					w = append([]uint64{math.Float64bits(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "GeometryType", slot: 2,
			dflt: flat.GeometryType(0),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := flat.GeometryType(r.Intn(256))
				return func() { flat.HeaderAddGeometryType(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).GeometryType() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := flat.GeometryType(r.Intn(256))
				return x.(*flat.Header).MutateGeometryType(v), v
			},
		},
		{name: "HasZ", slot: 3,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.HeaderAddHasZ(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).HasZ() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Header).MutateHasZ(v), v
			},
		},
		{name: "HasM", slot: 4,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.HeaderAddHasM(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).HasM() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Header).MutateHasM(v), v
			},
		},
		{name: "HasT", slot: 5,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.HeaderAddHasT(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).HasT() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Header).MutateHasT(v), v
			},
		},
		{name: "HasTm", slot: 6,
			dflt: bool(false),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := r.Intn(2) == 1
				return func() { flat.HeaderAddHasTm(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).HasTm() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := r.Intn(2) == 1
				return x.(*flat.Header).MutateHasTm(v), v
			},
		},
		{name: "Columns", slot: 7,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				var os []flatbuffers.UOffsetT
				var w []uint64
				for n := r.Intn(4); n > 0; n-- {
					v := byte(r.Intn(256))
					flat.ColumnStart(b)
					flat.ColumnAddWidth(b, int32(v))
					os = append(os, flat.ColumnEnd(b))
					w = append(w, uint64(v))
				}
				flat.HeaderStartColumnsVector(b, len(os))
				for i := len(os) - 1; i >= 0; i-- {
					b.PrependUOffsetT(os[i])
				}
				o := b.EndVector(len(os))
				return func() { flat.HeaderAddColumns(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Header).ColumnsLength(); i++ {
					var e flat.Column
					if !x.(*flat.Header).Columns(&e, i) {
						return "Columns reports false"
					}
					w = append(w, uint64(e.Width()))
				}
				return w
			},
		},
		{name: "FeaturesCount", slot: 8,
			dflt: uint64(0),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := vU64(r)
				return func() { flat.HeaderAddFeaturesCount(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).FeaturesCount() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := vU64(r)
				return x.(*flat.Header).MutateFeaturesCount(v), v
			},
		},
		{name: "IndexNodeSize", slot: 9,
			dflt: uint16(16),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := uint16(vU32(r))
				return func() { flat.HeaderAddIndexNodeSize(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).IndexNodeSize() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := uint16(vU32(r))
				return x.(*flat.Header).MutateIndexNodeSize(v), v
			},
		},
		{name: "Crs", slot: 10,
			dflt: nil,
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := byte(r.Intn(256))
				flat.CrsStart(b)
				flat.CrsAddCode(b, int32(v))
				o := flat.CrsEnd(b)
				return func() { flat.HeaderAddCrs(b, o) }, v
			},
			get: func(x interface{}) interface{} {
				e := x.(*flat.Header).Crs(nil)
				var o flat.Crs
				if f := x.(*flat.Header).Crs(&o); (f == nil) != (e == nil) || (f != nil && (f != &o || f.Code() != e.Code())) {
					return "Crs with and without an object differ"
				}
				if e == nil {
					return nil
				}
				return byte(e.Code())
			},
		},
		{name: "Title", slot: 11,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.HeaderAddTitle(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).Title() },
		},
		{name: "Description", slot: 12,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.HeaderAddDescription(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).Description() },
		},
		{name: "Metadata", slot: 13,
			dflt: []byte(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				s := vStr(r)
				o := b.CreateString(s)
				return func() { flat.HeaderAddMetadata(b, o) }, []byte(s)
			},
			get: func(x interface{}) interface{} { return x.(*flat.Header).Metadata() },
		},
	},
}

var vGeometry = vTable{
	name:     "Geometry",
	start:    flat.GeometryStart,
	end:      flat.GeometryEnd,
	finish:   flat.FinishGeometryBuffer,
	finishSP: flat.FinishSizePrefixedGeometryBuffer,
	root:     func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetRootAsGeometry(b, o) },
	rootSP:   func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsGeometry(b, o) },
	table:    func(x interface{}) flatbuffers.Table { return x.(*flat.Geometry).Table() },
	fields: []vField{
		{name: "Ends", slot: 0,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]uint32, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vU32(r)
					w = append(w, uint64(v[i]))
				}
				flat.GeometryStartEndsVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependUint32(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddEnds(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).EndsLength(); i++ {
					w = append(w, uint64(x.(*flat.Geometry).Ends(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).EndsLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vU32(r)
					all = x.(*flat.Geometry).MutateEnds(i, v) && all
					w = append([]uint64{uint64(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "Xy", slot: 1,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]float64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vF64(r)
					w = append(w, math.Float64bits(v[i]))
				}
				flat.GeometryStartXyVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependFloat64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddXy(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).XyLength(); i++ {
					w = append(w, math.Float64bits(x.(*flat.Geometry).Xy(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).XyLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vF64(r)
					all = x.(*flat.Geometry).MutateXy(i, v) && all
					w = append([]uint64{math.Float64bits(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "Z", slot: 2,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]float64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vF64(r)
					w = append(w, math.Float64bits(v[i]))
				}
				flat.GeometryStartZVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependFloat64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddZ(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).ZLength(); i++ {
					w = append(w, math.Float64bits(x.(*flat.Geometry).Z(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).ZLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vF64(r)
					all = x.(*flat.Geometry).MutateZ(i, v) && all
					w = append([]uint64{math.Float64bits(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "M", slot: 3,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]float64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vF64(r)
					w = append(w, math.Float64bits(v[i]))
				}
				flat.GeometryStartMVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependFloat64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddM(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).MLength(); i++ {
					w = append(w, math.Float64bits(x.(*flat.Geometry).M(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).MLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vF64(r)
					all = x.(*flat.Geometry).MutateM(i, v) && all
					w = append([]uint64{math.Float64bits(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "T", slot: 4,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]float64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vF64(r)
					w = append(w, math.Float64bits(v[i]))
				}
				flat.GeometryStartTVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependFloat64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddT(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).TLength(); i++ {
					w = append(w, math.Float64bits(x.(*flat.Geometry).T(i)))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).TLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vF64(r)
					all = x.(*flat.Geometry).MutateT(i, v) && all
					w = append([]uint64{math.Float64bits(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "Tm", slot: 5,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]uint64, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = vU64(r)
					w = append(w, v[i])
				}
				flat.GeometryStartTmVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependUint64(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.GeometryAddTm(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).TmLength(); i++ {
					w = append(w, x.(*flat.Geometry).Tm(i))
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Geometry).TmLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := vU64(r)
					all = x.(*flat.Geometry).MutateTm(i, v) && all
					w = append([]uint64{v}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "Type", slot: 6,
			dflt: flat.GeometryType(0),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := flat.GeometryType(r.Intn(256))
				return func() { flat.GeometryAddType(b, v) }, v
			},
			get: func(x interface{}) interface{} { return x.(*flat.Geometry).Type() },
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				v := flat.GeometryType(r.Intn(256))
				return x.(*flat.Geometry).MutateType(v), v
			},
		},
		{name: "Parts", slot: 7,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				var os []flatbuffers.UOffsetT
				var w []uint64
				for n := r.Intn(4); n > 0; n-- {
					v := byte(r.Intn(256))
					flat.GeometryStart(b)
					flat.GeometryAddType(b, flat.GeometryType(v))
					os = append(os, flat.GeometryEnd(b))
					w = append(w, uint64(v))
				}
				flat.GeometryStartPartsVector(b, len(os))
				for i := len(os) - 1; i >= 0; i-- {
					b.PrependUOffsetT(os[i])
				}
				o := b.EndVector(len(os))
				return func() { flat.GeometryAddParts(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Geometry).PartsLength(); i++ {
					var e flat.Geometry
					if !x.(*flat.Geometry).Parts(&e, i) {
						return "Parts reports false"
					}
					w = append(w, uint64(e.Type()))
				}
				return w
			},
		},
	},
}

var vFeature = vTable{
	name:     "Feature",
	start:    flat.FeatureStart,
	end:      flat.FeatureEnd,
	finish:   flat.FinishFeatureBuffer,
	finishSP: flat.FinishSizePrefixedFeatureBuffer,
	root:     func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetRootAsFeature(b, o) },
	rootSP:   func(b []byte, o flatbuffers.UOffsetT) interface{} { return flat.GetSizePrefixedRootAsFeature(b, o) },
	table:    func(x interface{}) flatbuffers.Table { return x.(*flat.Feature).Table() },
	fields: []vField{
		{name: "Geometry", slot: 0,
			dflt: nil,
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := byte(r.Intn(256))
				flat.GeometryStart(b)
				flat.GeometryAddType(b, flat.GeometryType(v))
				o := flat.GeometryEnd(b)
				return func() { flat.FeatureAddGeometry(b, o) }, v
			},
			get: func(x interface{}) interface{} {
				e := x.(*flat.Feature).Geometry(nil)
				var o flat.Geometry
				if f := x.(*flat.Feature).Geometry(&o); (f == nil) != (e == nil) || (f != nil && (f != &o || f.Type() != e.Type())) {
					return "Geometry with and without an object differ"
				}
				if e == nil {
					return nil
				}
				return byte(e.Type())
			},
		},
		{name: "Properties", slot: 1,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				v := make([]byte, r.Intn(4))
				var w []uint64
				for i := range v {
					v[i] = byte(r.Intn(256))
					w = append(w, uint64(v[i]))
				}
				flat.FeatureStartPropertiesVector(b, len(v))
				for i := len(v) - 1; i >= 0; i-- {
					b.PrependByte(v[i])
				}
				o := b.EndVector(len(v))
				return func() { flat.FeatureAddProperties(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Feature).PropertiesLength(); i++ {
					w = append(w, uint64(x.(*flat.Feature).Properties(i)))
				}
				if p := x.(*flat.Feature).PropertiesBytes(); len(p) != len(w) || (len(p) > 0 && vBytesDiffer(p, w)) {
					return "PropertiesBytes differs from the elements"
				}
				return w
			},
			mutate: func(x interface{}, r *rand.Rand) (bool, interface{}) {
				n := x.(*flat.Feature).PropertiesLength()
				var w []uint64
				all := n > 0
				for i := n - 1; i >= 0; i-- {
					v := byte(r.Intn(256))
					all = x.(*flat.Feature).MutateProperties(i, v) && all
					w = append([]uint64{uint64(v)}, w...)
				}
				if n == 0 {
					return true, w
				}
				return all, w
			},
		},
		{name: "Columns", slot: 2,
			dflt: []uint64(nil),
			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{}) {
				var os []flatbuffers.UOffsetT
				var w []uint64
				for n := r.Intn(4); n > 0; n-- {
					v := byte(r.Intn(256))
					flat.ColumnStart(b)
					flat.ColumnAddWidth(b, int32(v))
					os = append(os, flat.ColumnEnd(b))
					w = append(w, uint64(v))
				}
				flat.FeatureStartColumnsVector(b, len(os))
				for i := len(os) - 1; i >= 0; i-- {
					b.PrependUOffsetT(os[i])
				}
				o := b.EndVector(len(os))
				return func() { flat.FeatureAddColumns(b, o) }, w
			},
			get: func(x interface{}) interface{} {
				var w []uint64
				for i := 0; i < x.(*flat.Feature).ColumnsLength(); i++ {
					var e flat.Column
					if !x.(*flat.Feature).Columns(&e, i) {
						return "Columns reports false"
					}
					w = append(w, uint64(e.Width()))
				}
				return w
			},
		},
	},
}

var vTables = []*vTable{&vColumn, &vCrs, &vHeader, &vGeometry, &vFeature}

var vGeometryTypeNames = []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}

var vColumnTypeNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}
