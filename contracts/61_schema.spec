// Schema-driven decoding: PropReader.ReadSchema of /repo/flatgeobuf/prop_reader.go
package flatgeobuf

fun schemalen(any) int
fun schematype(any, int) int
// flat.Column.Type, contracts/40_flat.spec
def coltype(c) = if toff(bytes(c._tab.Bytes), c._tab.Pos, 6) == 0 then 0 else bytes(c._tab.Bytes)[wrapu32(toff(bytes(c._tab.Bytes), c._tab.Pos, 6) + c._tab.Pos)]
fun hascol(any, int) bool

// a schema is fixed while it is being used
assume func flatgeobuf.Schema.ColumnsLength(s) n
  ensures n == schemalen(any(s)) && 0 <= n

assume func flatgeobuf.Schema.Columns(s, obj, j) ok
  modifies *obj
  ensures ok <==> hascol(any(s), j)
  ensures 0 <= j && j < schemalen(any(s)) ==> coltype(obj) == schematype(any(s), j)

// bytes of a value of type t whose encoding starts at o; -1: no such type
def vsize(a, o, t) = if t == 0 || t == 1 || t == 2 then 1 else (if t == 3 || t == 4 then 2 else (if t == 5 || t == 6 || t == 9 then 4 else (if t == 7 || t == 8 || t == 10 then 8 else (if 11 <= t && t <= 14 then 4 + le32(a, o) else 0-1))))

// v is the value of type t encoded at o
def vdec(a, o, t, v) = (t == 0 ==> v == box("int8", sle8(a, o))) && (t == 1 ==> v == box("uint8", le8(a, o))) && (t == 2 ==> v == box("bool", a[o] != 0)) && (t == 3 ==> v == box("int16", sle16(a, o))) && (t == 4 ==> v == box("uint16", le16(a, o))) && (t == 6 ==> v == box("uint32", le32(a, o))) && (t == 7 ==> v == box("int64", sle64(a, o))) && (t == 8 ==> v == box("uint64", le64(a, o))) && (t == 9 ==> v == box("float32", f32frombits(le32(a, o)))) && (t == 10 ==> v == box("float64", f64frombits(le64(a, o))))
// t == 5: see the known finding of PropReader.ReadInt
def vdecint(a, o, t, v) = t == 5 ==> boxtype(v, "int32") && (a[o+1] == 0 && a[o+2] == 0 && a[o+3] == 0 ==> v == box("int32", a[o]))
def vdecstr(a, o, t, v) = ((t == 11 || t == 13) ==> boxtype(v, "string")) && ((t == 12 || t == 14) ==> boxtype(v, "[]byte")) && (11 <= t && t <= 14 ==> boxlen(v) == le32(a, o) && (forall k {boxbytes(v)[k]} :: 0 <= k < le32(a, o) ==> boxbytes(v)[k] == a[o + 4 + k]))

def entryhead(r, s, P, v, j) = P[j] + 2 <= endpos(r) && v[j].ColIndex == le16(content(r), P[j]) && v[j].ColIndex < schemalen(any(s)) && v[j].Type == schematype(any(s), v[j].ColIndex)
def entrynext(r, P, v, j) = vsize(content(r), P[j] + 2, v[j].Type) > 0 && P[j+1] == P[j] + 2 + vsize(content(r), P[j] + 2, v[j].Type) && P[j+1] <= endpos(r)

// a complete entry of a column of the schema starts at o
def vsizeat(r, s, o) = vsize(content(r), o + 2, schematype(any(s), le16(content(r), o)))
def goodentry(r, s, o) = o + 2 <= endpos(r) && le16(content(r), o) < schemalen(any(s)) && hascol(any(s), le16(content(r), o)) && vsizeat(r, s, o) > 0 && o + 2 + vsizeat(r, s, o) <= endpos(r)

func PropReader.ReadSchema(p, schema) vals, err
  prop C11
  config p.r = nonnil
  config schema = nonnil
  maypanic calls
  modifies pos(p.r)
  returnghost Q ints = P
  ghost P ints = store(zeros, 0, pos(p.r))
  ensures none: err != nil ==> vals == nil
  returnghost m int = m
  ghost m int = 0
  ensures chain: m >= 0 && Q[0] == old(pos(p.r)) && (forall j {Q[j]} :: 0 <= j < m ==> goodentry(p.r, schema, Q[j]) && Q[j+1] == Q[j] + 2 + vsizeat(p.r, schema, Q[j]))
  ensures count: err == nil ==> m == len(vals)
  ensures onlybad: err != nil && healthy(p.r) ==> Q[m] < endpos(p.r) && !goodentry(p.r, schema, Q[m])
  ensures start: err == nil ==> Q[0] == old(pos(p.r))
  ensures end: err == nil ==> Q[len(vals)] >= endpos(p.r)
  ensures heads: err == nil ==> forall j {vals[j].ColIndex} {vals[j].Type} {Q[j]} :: 0 <= j < len(vals) ==> entryhead(p.r, schema, Q, vals, j)
  ensures entries: err == nil ==> forall j {vals[j].ColIndex} {Q[j]} :: 0 <= j < len(vals) ==> entrynext(p.r, Q, vals, j)
  ensures values: err == nil ==> forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdec(content(p.r), Q[j] + 2, vals[j].Type, vals[j].Value)
  ensures ints: err == nil ==> forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdecint(content(p.r), Q[j] + 2, vals[j].Type, vals[j].Value)
  ensures strings: err == nil ==> forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdecstr(content(p.r), Q[j] + 2, vals[j].Type, vals[j].Value)
  loop 0
    ghost m = m + 1
    ghost P = store(P, len(vals), pos(p.r))
    decreases endpos(p.r) - pos(p.r)
    invariant at: P[0] == old(pos(p.r)) && P[len(vals)] == pos(p.r)
    invariant chain: m == len(vals) && (forall j {P[j]} :: 0 <= j < m ==> goodentry(p.r, schema, P[j]) && P[j+1] == P[j] + 2 + vsizeat(p.r, schema, P[j]))
    invariant heads: forall j {vals[j].ColIndex} {vals[j].Type} {P[j]} :: 0 <= j < len(vals) ==> entryhead(p.r, schema, P, vals, j)
    invariant entries: forall j {vals[j].ColIndex} {P[j]} :: 0 <= j < len(vals) ==> entrynext(p.r, P, vals, j)
    invariant values: forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdec(content(p.r), P[j] + 2, vals[j].Type, vals[j].Value)
    invariant ints: forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdecint(content(p.r), P[j] + 2, vals[j].Type, vals[j].Value)
    invariant strings: forall j {vals[j].Value} :: 0 <= j < len(vals) ==> vdecstr(content(p.r), P[j] + 2, vals[j].Type, vals[j].Value)
