// written by tools/mkflat.py: the flatc-generated code of /repo/flatgeobuf/flat against the FlatGeobuf 3 schema
package flatbuffers

// The dependency github.com/google/flatbuffers/go: the five functions through
// which a table is read are verified against these definitions, and so are the
// scalar getters; a builder is an abstract state (assumed).
fun toff(ints, int, int) int
fun tvec(ints, int, int) int
fun tveclen(ints, int, int) int
fun tind(ints, int) int
fun tbvlen(ints, int) int
fun tbvat(ints, int, int) int
// reading slot n of the table at p stays within the first L bytes
fun offok(ints, int, int, int) bool
axiom offokdef offok @flatbuffers: forall a: ints, p, n, L {offok(a, p, n, L)} :: offok(a, p, n, L) <==> p + 4 <= L && vtab(a, p) + 2 <= L && (n < le16(a, vtab(a, p)) ==> wrapu32(vtab(a, p) + n) + 2 <= L)
def vtab(a, p) = wrapu32(wraps32(wraps32(p) - sle32(a, p)))
axiom toffdef toff @flatbuffers: forall a: ints, p, n {toff(a, p, n)} :: toff(a, p, n) == (if n < le16(a, vtab(a, p)) then le16(a, wrapu32(vtab(a, p) + n)) else 0)
axiom tvecdef tvec @flatbuffers: forall a: ints, p, o {tvec(a, p, o)} :: tvec(a, p, o) == wrapu32(wrapu32(wrapu32(o + p) + le32(a, wrapu32(o + p))) + 4)
axiom tveclendef tveclen @flatbuffers: forall a: ints, p, o {tveclen(a, p, o)} :: tveclen(a, p, o) == le32(a, wrapu32(wrapu32(o + p) + le32(a, wrapu32(o + p))))
axiom tinddef tind @flatbuffers: forall a: ints, o {tind(a, o)} :: tind(a, o) == wrapu32(o + le32(a, o))
axiom tbvlendef tbvlen @flatbuffers: forall a: ints, o {tbvlen(a, o)} :: tbvlen(a, o) == le32(a, tind(a, o))
axiom tbvatdef tbvat @flatbuffers: forall a: ints, o, k {tbvat(a, o, k)} :: tbvat(a, o, k) == a[wrapu32(tind(a, o) + 4) + k]
def TB(t) = bytes(t.Bytes)

func Table.Offset(t, n) o
  prop C21
  panicsmay !offok(TB(t), t.Pos, n, len(t.Bytes))
  ensures value: o == toff(TB(t), t.Pos, n)
  ensures range: 0 <= o && o <= 65535
  ensures some: len(t.Bytes) > 0
func Table.Vector(t, off) x
  prop C21
  maypanic
  ensures value: x == tvec(TB(t), t.Pos, off)
func Table.VectorLen(t, off) n
  prop C21
  maypanic
  ensures value: n == tveclen(TB(t), t.Pos, off)
  ensures range: 0 <= n && n <= 4294967295
func Table.Indirect(t, off) x
  prop C21
  maypanic
  ensures value: x == tind(TB(t), off)
func Table.ByteVector(t, off) b
  prop C21
  maypanic
  ensures value: len(b) == tbvlen(TB(t), off) && forall k {b[k]} :: 0 <= k < len(b) ==> b[k] == tbvat(TB(t), off, k)
  ensures some: b != nil || len(t.Bytes) == 0

func Table.GetByte(t, off) v
  prop C21
  panicsmay off + 1 > len(t.Bytes)
  ensures v == TB(t)[off]
func Table.GetUint8(t, off) v
  prop C21
  panicsmay off + 1 > len(t.Bytes)
  ensures v == TB(t)[off]
func Table.GetUint16(t, off) v
  prop C21
  panicsmay off + 2 > len(t.Bytes)
  ensures v == le16(TB(t), off)
func Table.GetUint32(t, off) v
  prop C21
  panicsmay off + 4 > len(t.Bytes)
  ensures v == le32(TB(t), off)
func Table.GetUOffsetT(t, off) v
  prop C21
  panicsmay off + 4 > len(t.Bytes)
  ensures v == le32(TB(t), off)
func Table.GetUint64(t, off) v
  prop C21
  panicsmay off + 8 > len(t.Bytes)
  ensures v == le64(TB(t), off)
func Table.GetInt32(t, off) v
  prop C21
  panicsmay off + 4 > len(t.Bytes)
  ensures v == sle32(TB(t), off)
func Table.GetFloat64(t, off) v
  prop C21
  panicsmay off + 8 > len(t.Bytes)
  ensures v == f64frombits(le64(TB(t), off))
func Table.GetBool(t, off) v
  prop C21
  panicsmay off + 1 > len(t.Bytes)
  ensures v <==> TB(t)[off] == 1

fun mutByte(ints, int, int) bool
assume func flatbuffers.Table.MutateByte(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutByte(old(TB(t)), off, v)
fun mutInt32(ints, int, int) bool
assume func flatbuffers.Table.MutateInt32(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutInt32(old(TB(t)), off, v)
fun mutUint16(ints, int, int) bool
assume func flatbuffers.Table.MutateUint16(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutUint16(old(TB(t)), off, v)
fun mutUint32(ints, int, int) bool
assume func flatbuffers.Table.MutateUint32(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutUint32(old(TB(t)), off, v)
fun mutUint64(ints, int, int) bool
assume func flatbuffers.Table.MutateUint64(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutUint64(old(TB(t)), off, v)
fun mutFloat64(ints, int, int) bool
assume func flatbuffers.Table.MutateFloat64(t, off, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutFloat64(old(TB(t)), off, f64bits(v))
fun mutslotByte(ints, int, int, int) bool
assume func flatbuffers.Table.MutateByteSlot(t, slot, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutslotByte(old(TB(t)), t.Pos, slot, v)
fun mutslotInt32(ints, int, int, int) bool
assume func flatbuffers.Table.MutateInt32Slot(t, slot, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutslotInt32(old(TB(t)), t.Pos, slot, v)
fun mutslotUint16(ints, int, int, int) bool
assume func flatbuffers.Table.MutateUint16Slot(t, slot, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutslotUint16(old(TB(t)), t.Pos, slot, v)
fun mutslotUint64(ints, int, int, int) bool
assume func flatbuffers.Table.MutateUint64Slot(t, slot, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutslotUint64(old(TB(t)), t.Pos, slot, v)
fun mutslotBool(ints, int, int, bool) bool
assume func flatbuffers.Table.MutateBoolSlot(t, slot, v) ok
  maypanic
  modifies t.Bytes[*]
  ensures ok <==> mutslotBool(old(TB(t)), t.Pos, slot, v)

fun slotByte(int, int, int, int) int
assume func flatbuffers.Builder.PrependByteSlot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotByte(old(pos(b)), o, x, d)
fun slotUint16(int, int, int, int) int
assume func flatbuffers.Builder.PrependUint16Slot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotUint16(old(pos(b)), o, x, d)
fun slotInt32(int, int, int, int) int
assume func flatbuffers.Builder.PrependInt32Slot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotInt32(old(pos(b)), o, x, d)
fun slotUint64(int, int, int, int) int
assume func flatbuffers.Builder.PrependUint64Slot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotUint64(old(pos(b)), o, x, d)
fun slotUOffsetT(int, int, int, int) int
assume func flatbuffers.Builder.PrependUOffsetTSlot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotUOffsetT(old(pos(b)), o, x, d)
fun slotBool(int, int, bool, bool) int
assume func flatbuffers.Builder.PrependBoolSlot(b, o, x, d)
  maypanic
  modifies pos(b)
  ensures pos(b) == slotBool(old(pos(b)), o, x, d)
fun startobj(int, int) int
assume func flatbuffers.Builder.StartObject(b, n)
  maypanic
  modifies pos(b)
  ensures pos(b) == startobj(old(pos(b)), n)
fun endobj(int) int
fun endobjat(int) int
assume func flatbuffers.Builder.EndObject(b) r
  maypanic
  modifies pos(b)
  ensures pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
fun startvec(int, int, int, int) int
fun startvecat(int, int, int, int) int
assume func flatbuffers.Builder.StartVector(b, size, n, align) r
  maypanic
  modifies pos(b)
  ensures pos(b) == startvec(old(pos(b)), size, n, align) && r == startvecat(old(pos(b)), size, n, align)
fun finished(int, int) int
assume func flatbuffers.Builder.Finish(b, r)
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
fun finishedsp(int, int) int
assume func flatbuffers.Builder.FinishSizePrefixed(b, r)
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)

package flat

def B(h) = bytes(h._tab.Bytes)
def P(h) = h._tab.Pos
def fo(h, s) = toff(B(h), P(h), s)
def slotok(h, s, sz) = offok(B(h), P(h), s, len(h._tab.Bytes)) && (fo(h, s) != 0 ==> at(h, s) + sz <= len(h._tab.Bytes))
def at(h, s) = wrapu32(fo(h, s) + P(h))
def sameb(a, b) = len(a) == len(b) && forall k {a[k]} :: 0 <= k < len(a) ==> a[k] == b[k]
// element j, small enough that a vector could have it
def okidx(j) = 0 <= j && j <= 268435455

// ---- Column
func Column.Init(h, buf, i)
  prop C21
  inlinecalls
  modifies *h
  ensures pos: P(h) == i
  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)
func Column.Table(h) t
  prop C21
  inlinecalls
  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)
func GetRootAsColumn(buf, offset) x
  prop C21
  panicsmay offset + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), offset) + offset) + 0)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func GetSizePrefixedRootAsColumn(buf, offset) x
  prop C21
  panicsmay wrapu32(offset + 4) + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), wrapu32(offset + 4)) + offset) + 4)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func FinishColumnBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
func FinishSizePrefixedColumnBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)
func ColumnStart(b)
  prop C21
  maypanic
  modifies pos(b)
  ensures slots: pos(b) == startobj(old(pos(b)), 11)
func ColumnEnd(b) r
  prop C21
  maypanic
  modifies pos(b)
  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
func Column.Name(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 4) == 0 ==> v == nil
  ensures present: fo(h, 4) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 4)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 4), k)
func ColumnAddName(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 0, v, 0)
func Column.Type(h) v
  prop C21
  panicsmay !slotok(h, 6, 1)
  ensures absent: fo(h, 6) == 0 ==> (v == 0)
  ensures present: fo(h, 6) != 0 ==> (v == B(h)[at(h, 6)])
func Column.MutateType(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotByte(old(B(h)), P(h), 6, v)
func ColumnAddType(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotByte(old(pos(b)), 1, v, 0)
func Column.Title(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 8) == 0 ==> v == nil
  ensures present: fo(h, 8) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 8)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 8), k)
func ColumnAddTitle(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 2, v, 0)
func Column.Description(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 10) == 0 ==> v == nil
  ensures present: fo(h, 10) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 10)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 10), k)
func ColumnAddDescription(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 3, v, 0)
func Column.Width(h) v
  prop C21
  panicsmay !slotok(h, 12, 4)
  ensures absent: fo(h, 12) == 0 ==> (v == 0-1)
  ensures present: fo(h, 12) != 0 ==> (v == sle32(B(h), at(h, 12)))
func Column.MutateWidth(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotInt32(old(B(h)), P(h), 12, v)
func ColumnAddWidth(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotInt32(old(pos(b)), 4, v, 0-1)
func Column.Precision(h) v
  prop C21
  panicsmay !slotok(h, 14, 4)
  ensures absent: fo(h, 14) == 0 ==> (v == 0-1)
  ensures present: fo(h, 14) != 0 ==> (v == sle32(B(h), at(h, 14)))
func Column.MutatePrecision(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotInt32(old(B(h)), P(h), 14, v)
func ColumnAddPrecision(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotInt32(old(pos(b)), 5, v, 0-1)
func Column.Scale(h) v
  prop C21
  panicsmay !slotok(h, 16, 4)
  ensures absent: fo(h, 16) == 0 ==> (v == 0-1)
  ensures present: fo(h, 16) != 0 ==> (v == sle32(B(h), at(h, 16)))
func Column.MutateScale(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotInt32(old(B(h)), P(h), 16, v)
func ColumnAddScale(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotInt32(old(pos(b)), 6, v, 0-1)
func Column.Nullable(h) v
  prop C21
  panicsmay !slotok(h, 18, 1)
  ensures absent: fo(h, 18) == 0 ==> (v <==> true)
  ensures present: fo(h, 18) != 0 ==> (v <==> B(h)[at(h, 18)] == 1)
func Column.MutateNullable(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 18, v)
func ColumnAddNullable(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 7, v, true)
func Column.Unique(h) v
  prop C21
  panicsmay !slotok(h, 20, 1)
  ensures absent: fo(h, 20) == 0 ==> (v <==> false)
  ensures present: fo(h, 20) != 0 ==> (v <==> B(h)[at(h, 20)] == 1)
func Column.MutateUnique(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 20, v)
func ColumnAddUnique(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 8, v, false)
func Column.PrimaryKey(h) v
  prop C21
  panicsmay !slotok(h, 22, 1)
  ensures absent: fo(h, 22) == 0 ==> (v <==> false)
  ensures present: fo(h, 22) != 0 ==> (v <==> B(h)[at(h, 22)] == 1)
func Column.MutatePrimaryKey(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 22, v)
func ColumnAddPrimaryKey(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 9, v, false)
func Column.Metadata(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 24) == 0 ==> v == nil
  ensures present: fo(h, 24) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 24)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 24), k)
func ColumnAddMetadata(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 10, v, 0)

// ---- Crs
func Crs.Init(h, buf, i)
  prop C21
  inlinecalls
  modifies *h
  ensures pos: P(h) == i
  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)
func Crs.Table(h) t
  prop C21
  inlinecalls
  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)
func GetRootAsCrs(buf, offset) x
  prop C21
  panicsmay offset + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), offset) + offset) + 0)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func GetSizePrefixedRootAsCrs(buf, offset) x
  prop C21
  panicsmay wrapu32(offset + 4) + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), wrapu32(offset + 4)) + offset) + 4)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func FinishCrsBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
func FinishSizePrefixedCrsBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)
func CrsStart(b)
  prop C21
  maypanic
  modifies pos(b)
  ensures slots: pos(b) == startobj(old(pos(b)), 6)
func CrsEnd(b) r
  prop C21
  maypanic
  modifies pos(b)
  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
func Crs.Org(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 4) == 0 ==> v == nil
  ensures present: fo(h, 4) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 4)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 4), k)
func CrsAddOrg(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 0, v, 0)
func Crs.Code(h) v
  prop C21
  panicsmay !slotok(h, 6, 4)
  ensures absent: fo(h, 6) == 0 ==> (v == 0)
  ensures present: fo(h, 6) != 0 ==> (v == sle32(B(h), at(h, 6)))
func Crs.MutateCode(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotInt32(old(B(h)), P(h), 6, v)
func CrsAddCode(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotInt32(old(pos(b)), 1, v, 0)
func Crs.Name(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 8) == 0 ==> v == nil
  ensures present: fo(h, 8) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 8)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 8), k)
func CrsAddName(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 2, v, 0)
func Crs.Description(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 10) == 0 ==> v == nil
  ensures present: fo(h, 10) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 10)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 10), k)
func CrsAddDescription(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 3, v, 0)
func Crs.Wkt(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 12) == 0 ==> v == nil
  ensures present: fo(h, 12) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 12)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 12), k)
func CrsAddWkt(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 4, v, 0)
func Crs.CodeString(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 14) == 0 ==> v == nil
  ensures present: fo(h, 14) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 14)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 14), k)
func CrsAddCodeString(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 5, v, 0)

// ---- Header
func Header.Init(h, buf, i)
  prop C21
  inlinecalls
  modifies *h
  ensures pos: P(h) == i
  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)
func Header.Table(h) t
  prop C21
  inlinecalls
  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)
func GetRootAsHeader(buf, offset) x
  prop C21
  panicsmay offset + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), offset) + offset) + 0)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func GetSizePrefixedRootAsHeader(buf, offset) x
  prop C21
  panicsmay wrapu32(offset + 4) + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), wrapu32(offset + 4)) + offset) + 4)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func FinishHeaderBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
func FinishSizePrefixedHeaderBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)
func HeaderStart(b)
  prop C21
  maypanic
  modifies pos(b)
  ensures slots: pos(b) == startobj(old(pos(b)), 14)
func HeaderEnd(b) r
  prop C21
  maypanic
  modifies pos(b)
  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
func Header.Name(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 4) == 0 ==> v == nil
  ensures present: fo(h, 4) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 4)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 4), k)
func HeaderAddName(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 0, v, 0)
func Header.EnvelopeLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 6) == 0 ==> v == 0
  ensures present: fo(h, 6) != 0 ==> v == tveclen(B(h), P(h), fo(h, 6))
func Header.Envelope(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 6) == 0 ==> v == flit(0)
  ensures present: fo(h, 6) != 0 && okidx(j) ==> v == f64frombits(le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 6)) + 8 * j)))
func Header.MutateEnvelope(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 6)) == 0 ==> !ok
  ensures present: old(fo(h, 6)) != 0 && okidx(j) ==> (ok <==> mutFloat64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 6)) + 8 * j)), f64bits(v)))
func HeaderStartEnvelopeVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func HeaderAddEnvelope(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 1, v, 0)
func Header.GeometryType(h) v
  prop C21
  panicsmay !slotok(h, 8, 1)
  ensures absent: fo(h, 8) == 0 ==> (v == 0)
  ensures present: fo(h, 8) != 0 ==> (v == B(h)[at(h, 8)])
func Header.MutateGeometryType(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotByte(old(B(h)), P(h), 8, v)
func HeaderAddGeometryType(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotByte(old(pos(b)), 2, v, 0)
func Header.HasZ(h) v
  prop C21
  panicsmay !slotok(h, 10, 1)
  ensures absent: fo(h, 10) == 0 ==> (v <==> false)
  ensures present: fo(h, 10) != 0 ==> (v <==> B(h)[at(h, 10)] == 1)
func Header.MutateHasZ(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 10, v)
func HeaderAddHasZ(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 3, v, false)
func Header.HasM(h) v
  prop C21
  panicsmay !slotok(h, 12, 1)
  ensures absent: fo(h, 12) == 0 ==> (v <==> false)
  ensures present: fo(h, 12) != 0 ==> (v <==> B(h)[at(h, 12)] == 1)
func Header.MutateHasM(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 12, v)
func HeaderAddHasM(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 4, v, false)
func Header.HasT(h) v
  prop C21
  panicsmay !slotok(h, 14, 1)
  ensures absent: fo(h, 14) == 0 ==> (v <==> false)
  ensures present: fo(h, 14) != 0 ==> (v <==> B(h)[at(h, 14)] == 1)
func Header.MutateHasT(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 14, v)
func HeaderAddHasT(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 5, v, false)
func Header.HasTm(h) v
  prop C21
  panicsmay !slotok(h, 16, 1)
  ensures absent: fo(h, 16) == 0 ==> (v <==> false)
  ensures present: fo(h, 16) != 0 ==> (v <==> B(h)[at(h, 16)] == 1)
func Header.MutateHasTm(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotBool(old(B(h)), P(h), 16, v)
func HeaderAddHasTm(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotBool(old(pos(b)), 6, v, false)
func Header.ColumnsLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 18) == 0 ==> v == 0
  ensures present: fo(h, 18) != 0 ==> v == tveclen(B(h), P(h), fo(h, 18))
func Header.Columns(h, obj, j) ok
  prop C21
  maypanic
  modifies *obj
  ensures exists: ok <==> old(fo(h, 18)) != 0
  ensures pos: ok && okidx(j) ==> P(obj) == old(tind(B(h), wrapu32(tvec(B(h), P(h), fo(h, 18)) + 4 * j)))
  ensures bytes: ok ==> bytes(obj._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(obj._tab.Bytes) == old(len(h._tab.Bytes))
  ensures untouched: !ok ==> P(obj) == old(P(obj))
func HeaderStartColumnsVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 4, n, 4) && r == startvecat(old(pos(b)), 4, n, 4)
func HeaderAddColumns(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 7, v, 0)
func Header.FeaturesCount(h) v
  prop C21
  panicsmay !slotok(h, 20, 8)
  ensures absent: fo(h, 20) == 0 ==> (v == 0)
  ensures present: fo(h, 20) != 0 ==> (v == le64(B(h), at(h, 20)))
func Header.MutateFeaturesCount(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotUint64(old(B(h)), P(h), 20, v)
func HeaderAddFeaturesCount(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUint64(old(pos(b)), 8, v, 0)
func Header.IndexNodeSize(h) v
  prop C21
  panicsmay !slotok(h, 22, 2)
  ensures absent: fo(h, 22) == 0 ==> (v == 16)
  ensures present: fo(h, 22) != 0 ==> (v == le16(B(h), at(h, 22)))
func Header.MutateIndexNodeSize(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotUint16(old(B(h)), P(h), 22, v)
func HeaderAddIndexNodeSize(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUint16(old(pos(b)), 9, v, 16)
func Header.Crs(h, obj) x
  prop C21
  maypanic
  config obj = maybenil
  modifies *obj
  ensures exists: x != nil <==> old(fo(h, 24)) != 0
  ensures pos: x != nil ==> P(x) == old(tind(B(h), at(h, 24)))
  ensures bytes: x != nil ==> bytes(x._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(x._tab.Bytes) == old(len(h._tab.Bytes))
  ensures same: x != nil && obj != nil ==> x == obj
func HeaderAddCrs(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 10, v, 0)
func Header.Title(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 26) == 0 ==> v == nil
  ensures present: fo(h, 26) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 26)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 26), k)
func HeaderAddTitle(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 11, v, 0)
func Header.Description(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 28) == 0 ==> v == nil
  ensures present: fo(h, 28) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 28)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 28), k)
func HeaderAddDescription(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 12, v, 0)
func Header.Metadata(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 30) == 0 ==> v == nil
  ensures present: fo(h, 30) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 30)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 30), k)
func HeaderAddMetadata(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 13, v, 0)

// ---- Geometry
func Geometry.Init(h, buf, i)
  prop C21
  inlinecalls
  modifies *h
  ensures pos: P(h) == i
  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)
func Geometry.Table(h) t
  prop C21
  inlinecalls
  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)
func GetRootAsGeometry(buf, offset) x
  prop C21
  panicsmay offset + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), offset) + offset) + 0)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func GetSizePrefixedRootAsGeometry(buf, offset) x
  prop C21
  panicsmay wrapu32(offset + 4) + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), wrapu32(offset + 4)) + offset) + 4)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func FinishGeometryBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
func FinishSizePrefixedGeometryBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)
func GeometryStart(b)
  prop C21
  maypanic
  modifies pos(b)
  ensures slots: pos(b) == startobj(old(pos(b)), 8)
func GeometryEnd(b) r
  prop C21
  maypanic
  modifies pos(b)
  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
func Geometry.EndsLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 4) == 0 ==> v == 0
  ensures present: fo(h, 4) != 0 ==> v == tveclen(B(h), P(h), fo(h, 4))
func Geometry.Ends(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 4) == 0 ==> v == 0
  ensures present: fo(h, 4) != 0 && okidx(j) ==> v == le32(B(h), wrapu32(tvec(B(h), P(h), fo(h, 4)) + 4 * j))
func Geometry.MutateEnds(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 4)) == 0 ==> !ok
  ensures present: old(fo(h, 4)) != 0 && okidx(j) ==> (ok <==> mutUint32(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 4)) + 4 * j)), v))
func GeometryStartEndsVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 4, n, 4) && r == startvecat(old(pos(b)), 4, n, 4)
func GeometryAddEnds(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 0, v, 0)
func Geometry.XyLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 6) == 0 ==> v == 0
  ensures present: fo(h, 6) != 0 ==> v == tveclen(B(h), P(h), fo(h, 6))
func Geometry.Xy(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 6) == 0 ==> v == flit(0)
  ensures present: fo(h, 6) != 0 && okidx(j) ==> v == f64frombits(le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 6)) + 8 * j)))
func Geometry.MutateXy(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 6)) == 0 ==> !ok
  ensures present: old(fo(h, 6)) != 0 && okidx(j) ==> (ok <==> mutFloat64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 6)) + 8 * j)), f64bits(v)))
func GeometryStartXyVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func GeometryAddXy(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 1, v, 0)
func Geometry.ZLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 8) == 0 ==> v == 0
  ensures present: fo(h, 8) != 0 ==> v == tveclen(B(h), P(h), fo(h, 8))
func Geometry.Z(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 8) == 0 ==> v == flit(0)
  ensures present: fo(h, 8) != 0 && okidx(j) ==> v == f64frombits(le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 8)) + 8 * j)))
func Geometry.MutateZ(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 8)) == 0 ==> !ok
  ensures present: old(fo(h, 8)) != 0 && okidx(j) ==> (ok <==> mutFloat64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 8)) + 8 * j)), f64bits(v)))
func GeometryStartZVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func GeometryAddZ(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 2, v, 0)
func Geometry.MLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 10) == 0 ==> v == 0
  ensures present: fo(h, 10) != 0 ==> v == tveclen(B(h), P(h), fo(h, 10))
func Geometry.M(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 10) == 0 ==> v == flit(0)
  ensures present: fo(h, 10) != 0 && okidx(j) ==> v == f64frombits(le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 10)) + 8 * j)))
func Geometry.MutateM(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 10)) == 0 ==> !ok
  ensures present: old(fo(h, 10)) != 0 && okidx(j) ==> (ok <==> mutFloat64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 10)) + 8 * j)), f64bits(v)))
func GeometryStartMVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func GeometryAddM(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 3, v, 0)
func Geometry.TLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 12) == 0 ==> v == 0
  ensures present: fo(h, 12) != 0 ==> v == tveclen(B(h), P(h), fo(h, 12))
func Geometry.T(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 12) == 0 ==> v == flit(0)
  ensures present: fo(h, 12) != 0 && okidx(j) ==> v == f64frombits(le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 12)) + 8 * j)))
func Geometry.MutateT(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 12)) == 0 ==> !ok
  ensures present: old(fo(h, 12)) != 0 && okidx(j) ==> (ok <==> mutFloat64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 12)) + 8 * j)), f64bits(v)))
func GeometryStartTVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func GeometryAddT(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 4, v, 0)
func Geometry.TmLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 14) == 0 ==> v == 0
  ensures present: fo(h, 14) != 0 ==> v == tveclen(B(h), P(h), fo(h, 14))
func Geometry.Tm(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 14) == 0 ==> v == 0
  ensures present: fo(h, 14) != 0 && okidx(j) ==> v == le64(B(h), wrapu32(tvec(B(h), P(h), fo(h, 14)) + 8 * j))
func Geometry.MutateTm(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 14)) == 0 ==> !ok
  ensures present: old(fo(h, 14)) != 0 && okidx(j) ==> (ok <==> mutUint64(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 14)) + 8 * j)), v))
func GeometryStartTmVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 8, n, 8) && r == startvecat(old(pos(b)), 8, n, 8)
func GeometryAddTm(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 5, v, 0)
func Geometry.Type(h) v
  prop C21
  panicsmay !slotok(h, 16, 1)
  ensures absent: fo(h, 16) == 0 ==> (v == 0)
  ensures present: fo(h, 16) != 0 ==> (v == B(h)[at(h, 16)])
func Geometry.MutateType(h, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures slot: ok <==> mutslotByte(old(B(h)), P(h), 16, v)
func GeometryAddType(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotByte(old(pos(b)), 6, v, 0)
func Geometry.PartsLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 18) == 0 ==> v == 0
  ensures present: fo(h, 18) != 0 ==> v == tveclen(B(h), P(h), fo(h, 18))
func Geometry.Parts(h, obj, j) ok
  prop C21
  maypanic
  modifies *obj
  ensures exists: ok <==> old(fo(h, 18)) != 0
  ensures pos: ok && okidx(j) ==> P(obj) == old(tind(B(h), wrapu32(tvec(B(h), P(h), fo(h, 18)) + 4 * j)))
  ensures bytes: ok ==> bytes(obj._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(obj._tab.Bytes) == old(len(h._tab.Bytes))
  ensures untouched: !ok ==> P(obj) == old(P(obj))
func GeometryStartPartsVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 4, n, 4) && r == startvecat(old(pos(b)), 4, n, 4)
func GeometryAddParts(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 7, v, 0)

// ---- Feature
func Feature.Init(h, buf, i)
  prop C21
  inlinecalls
  modifies *h
  ensures pos: P(h) == i
  ensures bytes: sameobj(h._tab.Bytes, buf) && off(h._tab.Bytes) == off(buf) && len(h._tab.Bytes) == len(buf)
func Feature.Table(h) t
  prop C21
  inlinecalls
  ensures same: t.Pos == P(h) && sameobj(t.Bytes, h._tab.Bytes) && len(t.Bytes) == len(h._tab.Bytes) && off(t.Bytes) == off(h._tab.Bytes)
func GetRootAsFeature(buf, offset) x
  prop C21
  panicsmay offset + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), offset) + offset) + 0)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func GetSizePrefixedRootAsFeature(buf, offset) x
  prop C21
  panicsmay wrapu32(offset + 4) + 4 > len(buf)
  ensures pos: x != nil && P(x) == wrapu32(wrapu32(le32(bytes(buf), wrapu32(offset + 4)) + offset) + 4)
  ensures bytes: bytes(x._tab.Bytes) == bytes(buf) && len(x._tab.Bytes) == len(buf)
func FinishFeatureBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finished(old(pos(b)), r)
func FinishSizePrefixedFeatureBuffer(b, r)
  prop C21
  maypanic
  modifies pos(b)
  ensures pos(b) == finishedsp(old(pos(b)), r)
func FeatureStart(b)
  prop C21
  maypanic
  modifies pos(b)
  ensures slots: pos(b) == startobj(old(pos(b)), 3)
func FeatureEnd(b) r
  prop C21
  maypanic
  modifies pos(b)
  ensures end: pos(b) == endobj(old(pos(b))) && r == endobjat(old(pos(b)))
func Feature.Geometry(h, obj) x
  prop C21
  maypanic
  config obj = maybenil
  modifies *obj
  ensures exists: x != nil <==> old(fo(h, 4)) != 0
  ensures pos: x != nil ==> P(x) == old(tind(B(h), at(h, 4)))
  ensures bytes: x != nil ==> bytes(x._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(x._tab.Bytes) == old(len(h._tab.Bytes))
  ensures same: x != nil && obj != nil ==> x == obj
func FeatureAddGeometry(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 0, v, 0)
func Feature.PropertiesLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 6) == 0 ==> v == 0
  ensures present: fo(h, 6) != 0 ==> v == tveclen(B(h), P(h), fo(h, 6))
func Feature.Properties(h, j) v
  prop C21
  maypanic
  ensures absent: fo(h, 6) == 0 ==> v == 0
  ensures present: fo(h, 6) != 0 && okidx(j) ==> v == B(h)[wrapu32(tvec(B(h), P(h), fo(h, 6)) + 1 * j)]
func Feature.MutateProperties(h, j, v) ok
  prop C21
  maypanic
  modifies h._tab.Bytes[*]
  ensures absent: old(fo(h, 6)) == 0 ==> !ok
  ensures present: old(fo(h, 6)) != 0 && okidx(j) ==> (ok <==> mutByte(old(B(h)), old(wrapu32(tvec(B(h), P(h), fo(h, 6)) + 1 * j)), v))
func Feature.PropertiesBytes(h) v
  prop C21
  maypanic
  ensures absent: fo(h, 6) == 0 ==> v == nil
  ensures present: fo(h, 6) != 0 ==> v != nil && len(v) == tbvlen(B(h), at(h, 6)) && forall k {v[k]} :: 0 <= k < len(v) ==> v[k] == tbvat(B(h), at(h, 6), k)
func FeatureStartPropertiesVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 1, n, 1) && r == startvecat(old(pos(b)), 1, n, 1)
func FeatureAddProperties(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 1, v, 0)
func Feature.ColumnsLength(h) v
  prop C21
  maypanic
  ensures range: 0 <= v && v <= 4294967295
  ensures absent: fo(h, 8) == 0 ==> v == 0
  ensures present: fo(h, 8) != 0 ==> v == tveclen(B(h), P(h), fo(h, 8))
func Feature.Columns(h, obj, j) ok
  prop C21
  maypanic
  modifies *obj
  ensures exists: ok <==> old(fo(h, 8)) != 0
  ensures pos: ok && okidx(j) ==> P(obj) == old(tind(B(h), wrapu32(tvec(B(h), P(h), fo(h, 8)) + 4 * j)))
  ensures bytes: ok ==> bytes(obj._tab.Bytes) == old(bytes(h._tab.Bytes)) && len(obj._tab.Bytes) == old(len(h._tab.Bytes))
  ensures untouched: !ok ==> P(obj) == old(P(obj))
func FeatureStartColumnsVector(b, n) r
  prop C21
  maypanic
  modifies pos(b)
  ensures layout: pos(b) == startvec(old(pos(b)), 4, n, 4) && r == startvecat(old(pos(b)), 4, n, 4)
func FeatureAddColumns(b, v)
  prop C21
  maypanic
  modifies pos(b)
  ensures slot: pos(b) == slotUOffsetT(old(pos(b)), 2, v, 0)

// ---- enumerations
lemma enumGeometryTypeUnknown(): GeometryTypeUnknown == 0
  prop C21
lemma enumGeometryTypePoint(): GeometryTypePoint == 1
  prop C21
lemma enumGeometryTypeLineString(): GeometryTypeLineString == 2
  prop C21
lemma enumGeometryTypePolygon(): GeometryTypePolygon == 3
  prop C21
lemma enumGeometryTypeMultiPoint(): GeometryTypeMultiPoint == 4
  prop C21
lemma enumGeometryTypeMultiLineString(): GeometryTypeMultiLineString == 5
  prop C21
lemma enumGeometryTypeMultiPolygon(): GeometryTypeMultiPolygon == 6
  prop C21
lemma enumGeometryTypeGeometryCollection(): GeometryTypeGeometryCollection == 7
  prop C21
lemma enumGeometryTypeCircularString(): GeometryTypeCircularString == 8
  prop C21
lemma enumGeometryTypeCompoundCurve(): GeometryTypeCompoundCurve == 9
  prop C21
lemma enumGeometryTypeCurvePolygon(): GeometryTypeCurvePolygon == 10
  prop C21
lemma enumGeometryTypeMultiCurve(): GeometryTypeMultiCurve == 11
  prop C21
lemma enumGeometryTypeMultiSurface(): GeometryTypeMultiSurface == 12
  prop C21
lemma enumGeometryTypeCurve(): GeometryTypeCurve == 13
  prop C21
lemma enumGeometryTypeSurface(): GeometryTypeSurface == 14
  prop C21
lemma enumGeometryTypePolyhedralSurface(): GeometryTypePolyhedralSurface == 15
  prop C21
lemma enumGeometryTypeTIN(): GeometryTypeTIN == 16
  prop C21
lemma enumGeometryTypeTriangle(): GeometryTypeTriangle == 17
  prop C21
lemma enumColumnTypeByte(): ColumnTypeByte == 0
  prop C21
lemma enumColumnTypeUByte(): ColumnTypeUByte == 1
  prop C21
lemma enumColumnTypeBool(): ColumnTypeBool == 2
  prop C21
lemma enumColumnTypeShort(): ColumnTypeShort == 3
  prop C21
lemma enumColumnTypeUShort(): ColumnTypeUShort == 4
  prop C21
lemma enumColumnTypeInt(): ColumnTypeInt == 5
  prop C21
lemma enumColumnTypeUInt(): ColumnTypeUInt == 6
  prop C21
lemma enumColumnTypeLong(): ColumnTypeLong == 7
  prop C21
lemma enumColumnTypeULong(): ColumnTypeULong == 8
  prop C21
lemma enumColumnTypeFloat(): ColumnTypeFloat == 9
  prop C21
lemma enumColumnTypeDouble(): ColumnTypeDouble == 10
  prop C21
lemma enumColumnTypeString(): ColumnTypeString == 11
  prop C21
lemma enumColumnTypeJson(): ColumnTypeJson == 12
  prop C21
lemma enumColumnTypeDateTime(): ColumnTypeDateTime == 13
  prop C21
lemma enumColumnTypeBinary(): ColumnTypeBinary == 14
  prop C21
