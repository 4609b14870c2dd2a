#!/usr/bin/env python3
"""Writes contracts/40_flat.spec: contracts of the flatc-generated accessors and
builders of /repo/flatgeobuf/flat, from the FlatGeobuf 3 schema below
(header.fbs, feature.fbs). The slot of a field is its position in its table."""
import os
SCHEMA = {
 "Column": [("Name","string"),("Type","enum:ColumnType",0),("Title","string"),("Description","string"),("Width","int32",-1),("Precision","int32",-1),("Scale","int32",-1),("Nullable","bool",True),("Unique","bool",False),("PrimaryKey","bool",False),("Metadata","string")],
 "Crs": [("Org","string"),("Code","int32",0),("Name","string"),("Description","string"),("Wkt","string"),("CodeString","string")],
 "Header": [("Name","string"),("Envelope","[float64]"),("GeometryType","enum:GeometryType",0),("HasZ","bool",False),("HasM","bool",False),("HasT","bool",False),("HasTm","bool",False),("Columns","[Column]"),("FeaturesCount","uint64",0),("IndexNodeSize","uint16",16),("Crs","Crs"),("Title","string"),("Description","string"),("Metadata","string")],
 "Geometry": [("Ends","[uint32]"),("Xy","[float64]"),("Z","[float64]"),("M","[float64]"),("T","[float64]"),("Tm","[uint64]"),("Type","enum:GeometryType",0),("Parts","[Geometry]")],
 "Feature": [("Geometry","Geometry"),("Properties","[ubyte]"),("Columns","[Column]")],
}
ENUMS = {
 "GeometryType": "Unknown Point LineString Polygon MultiPoint MultiLineString MultiPolygon GeometryCollection CircularString CompoundCurve CurvePolygon MultiCurve MultiSurface Curve Surface PolyhedralSurface TIN Triangle".split(),
 "ColumnType": "Byte UByte Bool Short UShort Int UInt Long ULong Float Double String Json DateTime Binary".split(),
}
SIZE = {"uint32":4,"float64":8,"uint64":8,"ubyte":1}
GET = {"int32":"sle32(B(h), %s)","uint16":"le16(B(h), %s)","uint32":"le32(B(h), %s)","uint64":"le64(B(h), %s)","ubyte":"B(h)[%s]","enum":"B(h)[%s]","bool":"B(h)[%s] == 1","float64":"f64frombits(le64(B(h), %s))"}
SLOT = {"int32":"Int32","uint16":"Uint16","uint32":"Uint32","uint64":"Uint64","bool":"Bool","enum":"Byte","ref":"UOffsetT"}
o=["// written by tools/mkflat.py: the flatc-generated code of /repo/flatgeobuf/flat against the FlatGeobuf 3 schema","package flatbuffers",""]
w=o.append
w("""// The dependency github.com/google/flatbuffers/go: the five functions through
// which a table is read are verified against these definitions, and so are the
// scalar getters; a builder is an abstract state (assumed).
fun toff(ints, int, int) int
fun tvec(ints, int, int) int
fun tveclen(ints, int, int) int
fun tind(ints, int) int
fun tbvlen(ints, int) int
fun tbvat(ints, int, int) int
// reading slot n of the table at p stays within the first L bytes
fun offok(ints, int, int, int) bool
axiom offokdef offok @flatbuffers: forall a: ints, p, n, L {offok(a, p, n, L)} :: offok(a, p, n, L) <==> p + 4 <= L && vtab(a, p) + 2 <= L && (n < le16(a, vtab(a, p)) ==> wrapu32(vtab(a, p) + n) + 2 <= L)
def vtab(a, p) = wrapu32(wraps32(wraps32(p) - sle32(a, p)))
axiom toffdef toff @flatbuffers: forall a: ints, p, n {toff(a, p, n)} :: toff(a, p, n) == (if n < le16(a, vtab(a, p)) then le16(a, wrapu32(vtab(a, p) + n)) else 0)
axiom tvecdef tvec @flatbuffers: forall a: ints, p, o {tvec(a, p, o)} :: tvec(a, p, o) == wrapu32(wrapu32(wrapu32(o + p) + le32(a, wrapu32(o + p))) + 4)
axiom tveclendef tveclen @flatbuffers: forall a: ints, p, o {tveclen(a, p, o)} :: tveclen(a, p, o) == le32(a, wrapu32(wrapu32(o + p) + le32(a, wrapu32(o + p))))
axiom tinddef tind @flatbuffers: forall a: ints, o {tind(a, o)} :: tind(a, o) == wrapu32(o + le32(a, o))
axiom tbvlendef tbvlen @flatbuffers: forall a: ints, o {tbvlen(a, o)} :: tbvlen(a, o) == le32(a, tind(a, o))
axiom tbvatdef tbvat @flatbuffers: forall a: ints, o, k {tbvat(a, o, k)} :: tbvat(a, o, k) == a[wrapu32(tind(a, o) + 4) + k]
def TB(t) = bytes(t.Bytes)

func Table.Offset(t, n) o
  prop C21
  panicsmay !offok(TB(t), t.Pos, n, len(t.Bytes))
  ensures value: o == toff(TB(t), t.Pos, n)
  ensures range: 0 <= o && o <= 65535
  ensures some: len(t.Bytes) > 0
func Table.Vector(t, off) x
  prop C21
  maypanic
  ensures value: x == tvec(TB(t), t.Pos, off)
func Table.VectorLen(t, off) n
  prop C21
  maypanic
  ensures value: n == tveclen(TB(t), t.Pos, off)
  ensures range: 0 <= n && n <= 4294967295
func Table.Indirect(t, off) x
  prop C21
  maypanic
  ensures value: x == tind(TB(t), off)
func Table.ByteVector(t, off) b
  prop C21
  maypanic
  ensures value: len(b) == tbvlen(TB(t), off) && forall k {b[k]} :: 0 <= k < len(b) ==> b[k] == tbvat(TB(t), off, k)
  ensures some: b != nil || len(t.Bytes) == 0
""")
for g,e in [("GetByte","TB(t)[off]"),("GetUint8","TB(t)[off]"),("GetUint16","le16(TB(t), off)"),("GetUint32","le32(TB(t), off)"),("GetUOffsetT","le32(TB(t), off)"),("GetUint64","le64(TB(t), off)"),("GetInt32","sle32(TB(t), off)"),("GetFloat64","f64frombits(le64(TB(t), off))")]:
    w(f"func Table.{g}(t, off) v\n  prop C21\n  panicsmay off + {1 if 'int8' in g or 'Byte' in g else int(''.join(c for c in g if c.isdigit()) or 32)//8} > len(t.Bytes)\n  ensures v == {e}")
w("func Table.GetBool(t, off) v\n  prop C21\n  panicsmay off + 1 > len(t.Bytes)\n  ensures v <==> TB(t)[off] == 1\n")
for m,s in [("Byte","v"),("Int32","v"),("Uint16","v"),("Uint32","v"),("Uint64","v"),("Float64","f64bits(v)")]:
    w(f"fun mut{m}(ints, int, int) bool\nassume func flatbuffers.Table.Mutate{m}(t, off, v) ok\n  maypanic\n  modifies t.Bytes[*]\n  ensures ok <==> mut{m}(old(TB(t)), off, {s})")
for m,s in [("Byte","v"),("Int32","v"),("Uint16","v"),("Uint64","v")]:
    w(f"fun mutslot{m}(ints, int, int, int) bool\nassume func flatbuffers.Table.Mutate{m}Slot(t, slot, v) ok\n  maypanic\n  modifies t.Bytes[*]\n  ensures ok <==> mutslot{m}(old(TB(t)), t.Pos, slot, {s})")
w("fun mutslotBool(ints, int, int, bool) bool\nassume func flatbuffers.Table.MutateBoolSlot(t, slot, v) ok\n  maypanic\n  modifies t.Bytes[*]\n  ensures ok <==> mutslotBool(old(TB(t)), t.Pos, slot, v)")
w("")
for s in ["Byte","Uint16","Int32","Uint64","UOffsetT"]:
    w(f"fun slot{s}(int, int, int, int) int\nassume func flatbuffers.Builder.Prepend{s}Slot(b, o, x, d)\n  maypanic\n  modifies pos(b)\n  ensures pos(b) == slot{s}(old(pos(b)), o, x, d)")
w("fun slotBool(int, int, bool, bool) int\nassume func flatbuffers.Builder.PrependBoolSlot(b, o, x, d)\n  maypanic\n  modifies pos(b)\n  ensures pos(b) == slotBool(old(pos(b)), o, x, d)")
w("""fun startobj(int, int) int
assume func flatbuffers.Builder.StartObject(b, n)
  maypanic
  modifies pos(b)
  ensures pos(b) == startobj(old(pos(b)), n)
fun endobj(int) int
fun endobjat(int) int
assume func flatbuffers.Builder.EndObject(b) r
  maypanic
  modifies pos(b)
  ensures pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
fun startvec(int, int, int, int) int
fun startvecat(int, int, int, int) int
assume func flatbuffers.Builder.StartVector(b, size, n, align) r
  maypanic
  modifies pos(b)
  ensures pos(b) == startvec(old(pos(b)), size, n, align) && r == startvecat(old(pos(b)), size, n, align)
fun finished(int, int) int
assume func flatbuffers.Builder.Finish(b, r)
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
fun finishedsp(int, int) int
assume func flatbuffers.Builder.FinishSizePrefixed(b, r)
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)

package flat

def B(h) = bytes(h._tab.Bytes)
def P(h) = h._tab.Pos
def fo(h, s) = toff(B(h), P(h), s)
def slotok(h, s, sz) = offok(B(h), P(h), s, len(h._tab.Bytes)) && (fo(h, s) != 0 ==> at(h, s) + sz <= len(h._tab.Bytes))
def at(h, s) = wrapu32(fo(h, s) + P(h))
def sameb(a, b) = len(a) == len(b) && forall k {a[k]} :: 0 <= k < len(a) ==> a[k] == b[k]
// element j, small enough that a vector could have it
def okidx(j) = 0 <= j && j <= 268435455
""")
def goval(v): return "true" if v is True else "false" if v is False else str(v) if not isinstance(v,int) or v>=0 else f"0-{-v}"
for T,fields in SCHEMA.items():
    w(f"// ---- {T}")
    w(f"func {T}.Init(h, buf, i)\n  prop C21\n  inlinecalls\n  modifies *h\n  ensures pos: P(h) == i\n  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)")
    w(f"func {T}.Table(h) t\n  prop C21\n  inlinecalls\n  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)")
    for pre,extra in [("GetRootAs",0),("GetSizePrefixedRootAs",4)]:
        q="wrapu32(offset + 4)" if extra else "offset"
        w(f"func {pre}{T}(buf, offset) x\n  prop C21\n  panicsmay {q} + 4 > len(buf)\n  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), {q}) + offset) + {extra})\n  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)")
    w(f"func Finish{T}Buffer(b, r)\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures pos(b) == finished(old(pos(b)), r)")
    w(f"func FinishSizePrefixed{T}Buffer(b, r)\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures pos(b) == finishedsp(old(pos(b)), r)")
    w(f"func {T}Start(b)\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures slots: pos(b) == startobj(old(pos(b)), {len(fields)})")
    w(f"func {T}End(b) r\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))")
    for i,f in enumerate(fields):
        n,t=f[0],f[1]
        s=4+2*i
        kind=t.split(":")[0]
        add="ref"
        if t=="string":
            w(f"func {T}.{n}(h) v\n  prop C21\n  maypanic\n  ensures absent: fo(h, {s}) == 0 ==> v == nil\n  ensures present: fo(h, {s}) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, {s})) && forall k {{v[k]}} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, {s}), k)")
        elif kind in ("int32","uint16","uint64","bool","enum"):
            d=f[2]; add=kind
            eq="<==>" if kind=="bool" else "=="
            g=GET[kind]%f"at(h, {s})"
            w(f"func {T}.{n}(h) v\n  prop C21\n  panicsmay !slotok(h, {s}, { {'int32':4,'uint16':2,'uint64':8,'bool':1,'enum':1}[kind]})\n  ensures absent: fo(h, {s}) == 0 ==> (v {eq} {goval(d)})\n  ensures present: fo(h, {s}) != 0 ==> (v {eq} {g})")
            m={"int32":"Int32","uint16":"Uint16","uint64":"Uint64","bool":"Bool","enum":"Byte"}[kind]
            w(f"func {T}.Mutate{n}(h, v) ok\n  prop C21\n  maypanic\n  modifies h._tab.Bytes[*]\n  ensures slot: ok <==> mutslot{m}(old(B(h)), P(h), {s}, v)")
        elif t[0]=="[":
            el=t[1:-1]
            w(f"func {T}.{n}Length(h) v\n  prop C21\n  maypanic\n  ensures range: 0 <= v && v <= 4294967295\n  ensures absent: fo(h, {s}) == 0 ==> v == 0\n  ensures present: fo(h, {s}) != 0 ==> v == tveclen(B(h), P(h), fo(h, {s}))")
            if el in SIZE:
                sz=SIZE[el]
                p=f"wrapu32(tvec(B(h), P(h), fo(h, {s})) + {sz} * j)"
                z="flit(0)" if el=="float64" else "0"
                w(f"func {T}.{n}(h, j) v\n  prop C21\n  maypanic\n  ensures absent: fo(h, {s}) == 0 ==> v == {z}\n  ensures present: fo(h, {s}) != 0 && okidx(j) ==> v == {GET[el]%p}")
                m={"float64":"Float64","uint32":"Uint32","uint64":"Uint64","ubyte":"Byte"}[el]
                vv="f64bits(v)" if el=="float64" else "v"
                w(f"func {T}.Mutate{n}(h, j, v) ok\n  prop C21\n  maypanic\n  modifies h._tab.Bytes[*]\n  ensures absent: old(fo(h, {s})) == 0 ==> !ok\n  ensures present: old(fo(h, {s})) != 0 && okidx(j) ==> (ok <==> mut{m}(old(B(h)), old({p}), {vv}))")
                if el=="ubyte":
                    w(f"func {T}.{n}Bytes(h) v\n  prop C21\n  maypanic\n  ensures absent: fo(h, {s}) == 0 ==> v == nil\n  ensures present: fo(h, {s}) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, {s})) && forall k {{v[k]}} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, {s}), k)")
            else:
                sz=4
                p=f"tind(B(h), wrapu32(tvec(B(h), P(h), fo(h, {s})) + 4 * j))"
                w(f"func {T}.{n}(h, obj, j) ok\n  prop C21\n  maypanic\n  modifies *obj\n  ensures exists: ok <==> old(fo(h, {s})) != 0\n  ensures pos: ok && okidx(j) ==> P(obj) == old({p})\n  ensures bytes: ok ==> bytes(obj._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(obj._tab.Bytes) == old(len(h._tab.Bytes))\n  ensures untouched: !ok ==> P(obj) == old(P(obj))")
            w(f"func {T}Start{n}Vector(b, n) r\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures layout: pos(b) == startvec(old(pos(b)), {sz}, n, {sz}) && r == startvecat(old(pos(b)), {sz}, n, {sz})")
        else:
            p=f"tind(B(h), at(h, {s}))"
            w(f"func {T}.{n}(h, obj) x\n  prop C21\n  maypanic\n  config obj = maybenil\n  modifies *obj\n  ensures exists: x != nil <==> old(fo(h, {s})) != 0\n  ensures pos: x != nil ==> P(x) == old({p})\n  ensures bytes: x != nil ==> bytes(x._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(x._tab.Bytes) == old(len(h._tab.Bytes))\n  ensures same: x != nil && obj != nil ==> x == obj")
        d = f[2] if len(f)>2 else 0
        if add=="ref":
            w(f"func {T}Add{n}(b, v)\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), {i}, v, 0)")
        else:
            w(f"func {T}Add{n}(b, v)\n  prop C21\n  maypanic\n  modifies pos(b)\n  ensures slot: pos(b) == slot{SLOT[add]}(old(pos(b)), {i}, v, {goval(d)})")
    w("")
w("// ---- enumerations")
for E,names in ENUMS.items():
    for i,n in enumerate(names):
        w(f"lemma enum{E}{n}(): {E}{n} == {i}\n  prop C21")
open(os.path.join(os.path.dirname(__file__),"..","contracts","40_flat.spec"),"w").write("\n".join(o)+"\n")

# ---- the bounded driver: builder to accessor round trips of every field
g=["// written by tools/mkflat.py","package flat_test","",'import (','	"math"','	"math/rand"','',' 	flatbuffers "github.com/google/flatbuffers/go"','','	"github.com/gogama/flatgeobuf/flatgeobuf/flat"',')','','var _ = math.Float64bits','']
a=g.append
GT={"int32":"int32","uint16":"uint16","uint64":"uint64","bool":"bool"}
VT={"uint32":("uint32","vU32(r)","uint64(%s)","PrependUint32"),"float64":("float64","vF64(r)","math.Float64bits(%s)","PrependFloat64"),"uint64":("uint64","vU64(r)","%s","PrependUint64"),"ubyte":("byte","byte(r.Intn(256))","uint64(%s)","PrependByte")}
for T,fields in SCHEMA.items():
    a(f"var v{T} = vTable{{")
    a(f'	name: "{T}",\n	start: flat.{T}Start,\n	end: flat.{T}End,\n	finish: flat.Finish{T}Buffer,\n	finishSP: flat.FinishSizePrefixed{T}Buffer,')
    a(f"	root: func(b []byte, o flatbuffers.UOffsetT) interface{{}} {{ return flat.GetRootAs{T}(b, o) }},")
    a(f"	rootSP: func(b []byte, o flatbuffers.UOffsetT) interface{{}} {{ return flat.GetSizePrefixedRootAs{T}(b, o) }},")
    a(f"	table: func(x interface{{}}) flatbuffers.Table {{ return x.(*flat.{T}).Table() }},")
    a("	fields: []vField{")
    for i,f in enumerate(fields):
        n,t=f[0],f[1]; kind=t.split(":")[0]
        a(f'		{{name: "{n}", slot: {i},')
        h=f"x.(*flat.{T})"
        if t=="string":
            a(f"			dflt: []byte(nil),")
            a(f"			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{{}}) {{ s := vStr(r); o := b.CreateString(s); return func() {{ flat.{T}Add{n}(b, o) }}, []byte(s) }},")
            a(f"			get: func(x interface{{}}) interface{{}} {{ return {h}.{n}() }},")
        elif kind in GT or kind=="enum":
            gt=GT.get(kind) or "flat."+t.split(":")[1]
            rv={"int32":"int32(vU32(r))","uint16":"uint16(vU32(r))","uint64":"vU64(r)","bool":"r.Intn(2) == 1","enum":gt+"(r.Intn(256))"}[kind]
            d="true" if f[2] is True else "false" if f[2] is False else str(f[2])
            a(f"			dflt: {gt}({d}),")
            a(f"			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{{}}) {{ v := {rv}; return func() {{ flat.{T}Add{n}(b, v) }}, v }},")
            a(f"			get: func(x interface{{}}) interface{{}} {{ return {h}.{n}() }},")
            a(f"			mutate: func(x interface{{}}, r *rand.Rand) (bool, interface{{}}) {{ v := {rv}; return {h}.Mutate{n}(v), v }},")
        elif t[0]=="[":
            el=t[1:-1]
            a(f"			dflt: []uint64(nil),")
            if el in VT:
                gt,rv,cv,pp=VT[el]
                a(f"			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{{}}) {{\n				v := make([]{gt}, r.Intn(4))\n				var w []uint64\n				for i := range v {{\n					v[i] = {rv}\n					w = append(w, {cv%'v[i]'})\n				}}\n				flat.{T}Start{n}Vector(b, len(v))\n				for i := len(v) - 1; i >= 0; i-- {{\n					b.{pp}(v[i])\n				}}\n				o := b.EndVector(len(v))\n				return func() {{ flat.{T}Add{n}(b, o) }}, w\n			}},")
                chk = f"				if p := {h}.{n}Bytes(); len(p) != len(w) || (len(p) > 0 && vBytesDiffer(p, w)) {{\n					return \"{n}Bytes differs from the elements\"\n				}}\n" if el=="ubyte" else ""
                a(f"			get: func(x interface{{}}) interface{{}} {{\n				var w []uint64\n				for i := 0; i < {h}.{n}Length(); i++ {{\n					w = append(w, {cv%(h+'.'+n+'(i)')})\n				}}\n{chk}				return w\n			}},")
                a(f"			mutate: func(x interface{{}}, r *rand.Rand) (bool, interface{{}}) {{\n				n := {h}.{n}Length()\n				var w []uint64\n				all := n > 0\n				for i := n - 1; i >= 0; i-- {{\n					v := {rv}\n					all = {h}.Mutate{n}(i, v) && all\n					w = append([]uint64{{{cv%'v'}}}, w...)\n				}}\n				if n == 0 {{\n					return true, w\n				}}\n				return all, w\n			}},")
            else:
                key={"Column":"Width","Geometry":"Type"}[el]
                kt={"Column":"int32","Geometry":"flat.GeometryType"}[el]
                a(f"			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{{}}) {{\n				var os []flatbuffers.UOffsetT\n				var w []uint64\n				for n := r.Intn(4); n > 0; n-- {{\n					v := byte(r.Intn(256))\n					flat.{el}Start(b)\n					flat.{el}Add{key}(b, {kt}(v))\n					os = append(os, flat.{el}End(b))\n					w = append(w, uint64(v))\n				}}\n				flat.{T}Start{n}Vector(b, len(os))\n				for i := len(os) - 1; i >= 0; i-- {{\n					b.PrependUOffsetT(os[i])\n				}}\n				o := b.EndVector(len(os))\n				return func() {{ flat.{T}Add{n}(b, o) }}, w\n			}},")
                a(f"			get: func(x interface{{}}) interface{{}} {{\n				var w []uint64\n				for i := 0; i < {h}.{n}Length(); i++ {{\n					var e flat.{el}\n					if !{h}.{n}(&e, i) {{\n						return \"{n} reports false\"\n					}}\n					w = append(w, uint64(e.{key}()))\n				}}\n				return w\n			}},")
        else:
            key={"Crs":"Code","Geometry":"Type"}[t]
            kt={"Crs":"int32","Geometry":"flat.GeometryType"}[t]
            a(f"			dflt: nil,")
            a(f"			prep: func(b *flatbuffers.Builder, r *rand.Rand) (func(), interface{{}}) {{\n				v := byte(r.Intn(256))\n				flat.{t}Start(b)\n				flat.{t}Add{key}(b, {kt}(v))\n				o := flat.{t}End(b)\n				return func() {{ flat.{T}Add{n}(b, o) }}, v\n			}},")
            a(f"			get: func(x interface{{}}) interface{{}} {{\n				e := {h}.{n}(nil)\n				var o flat.{t}\n				if f := {h}.{n}(&o); (f == nil) != (e == nil) || (f != nil && (f != &o || f.{key}() != e.{key}())) {{\n					return \"{n} with and without an object differ\"\n				}}\n				if e == nil {{\n					return nil\n				}}\n				return byte(e.{key}())\n			}},")
        a("		},")
    a("	},\n}\n")
a("var vTables = []*vTable{" + ", ".join("&v"+T for T in SCHEMA) + "}\n")
for E,names in ENUMS.items():
    a(f"var v{E}Names = []string{{" + ", ".join(f'"{n}"' for n in names) + "}\n")
import subprocess
d=os.path.join(os.path.dirname(__file__),"..","drivers","C21","flatgeobuf__flat","gen_verif_test.go")
open(d,"w").write("\n".join(g)+"\n")
subprocess.run(["gofmt","-w",d],check=True)
