// Property values: /repo/flatgeobuf/prop_writer.go, prop_reader.go
package flatgeobuf

def by0(u) = u % 256
def by1(u) = (u / 256) % 256
def by2(u) = (u / 65536) % 256
def by3(u) = (u / 16777216) % 256
def by4(u) = (u / 4294967296) % 256
def by5(u) = (u / 1099511627776) % 256
def by6(u) = (u / 281474976710656) % 256
def by7(u) = (u / 72057594037927936) % 256

// the first n of the 1, 2, 4 or 8 little-endian bytes of u are at o
def put1(a, o, u, n) = (0 < n ==> a[o] == u)
def put2(a, o, u, n) = (0 < n ==> a[o] == by0(u)) && (1 < n ==> a[o+1] == by1(u))
def put4(a, o, u, n) = put2(a, o, u, n) && (2 < n ==> a[o+2] == by2(u)) && (3 < n ==> a[o+3] == by3(u))
def put8(a, o, u, n) = put4(a, o, u, n) && (4 < n ==> a[o+4] == by4(u)) && (5 < n ==> a[o+5] == by5(u)) && (6 < n ==> a[o+6] == by6(u)) && (7 < n ==> a[o+7] == by7(u))

def keptw(w) = forall k {out(w)[k]} :: 0 <= k < old(outlen(w)) ==> out(w)[k] == old(out(w)[k])

func NewPropWriter(w) result
  prop C10
  config w = maybenil
  panics when w == nil
  ensures writer: result != nil && result.w == w

func NewPropReader(r) result
  prop C10
  config r = maybenil
  panics when r == nil
  ensures reader: result != nil && result.r == r

func PropWriter.WriteByte(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 1 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 1
  ensures encoding: put1(out(p.w), old(outlen(p.w)), wrapu8(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteUByte(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 1 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 1
  ensures encoding: put1(out(p.w), old(outlen(p.w)), v, n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteBool(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 1 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 1
  ensures encoding: v ==> put1(out(p.w), old(outlen(p.w)), 1, n)
  ensures encodingfalse: !v ==> put1(out(p.w), old(outlen(p.w)), 0, n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteShort(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 2 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 2
  ensures encoding: put2(out(p.w), old(outlen(p.w)), wrapu16(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteUShort(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 2 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 2
  ensures encoding: put2(out(p.w), old(outlen(p.w)), v, n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteInt(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 4 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 4
  ensures encoding: put4(out(p.w), old(outlen(p.w)), wrapu32(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteUInt(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 4 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 4
  ensures encoding: put4(out(p.w), old(outlen(p.w)), v, n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteLong(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 8 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 8
  ensures encoding: put8(out(p.w), old(outlen(p.w)), wrapu64(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteULong(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 8 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 8
  ensures encoding: put8(out(p.w), old(outlen(p.w)), v, n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteFloat(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 4 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 4
  ensures encoding: put4(out(p.w), old(outlen(p.w)), f32bits(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteDouble(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures healthyok: healthy(p.w) ==> err == nil
  ensures count: 0 <= n && n <= 8 && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 8
  ensures encoding: put8(out(p.w), old(outlen(p.w)), f64bits(v), n)
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteString(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures toolong: len(v) > 4294967295 ==> err != nil && n == 0
  ensures healthyok: healthy(p.w) && len(v) <= 4294967295 ==> err == nil
  ensures count: 0 <= n && n <= 4 + len(v) && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 4 + len(v)
  ensures length: put4(out(p.w), old(outlen(p.w)), len(v), n)
  ensures data: forall k {out(p.w)[k]} :: old(outlen(p.w)) + 4 <= k && k < old(outlen(p.w)) + n ==> out(p.w)[k] == v[k - old(outlen(p.w)) - 4]
  ensures nothingelse: keptw(p.w)

func PropWriter.WriteBinary(p, v) n, err
  prop C10
  config p.w = nonnil
  modifies sink(p.w)
  ensures toolong: len(v) > 4294967295 ==> err != nil && n == 0
  ensures healthyok: healthy(p.w) && len(v) <= 4294967295 ==> err == nil
  ensures count: 0 <= n && n <= 4 + len(v) && outlen(p.w) == old(outlen(p.w)) + n
  ensures all: err == nil ==> n == 4 + len(v)
  ensures length: put4(out(p.w), old(outlen(p.w)), len(v), n)
  ensures data: forall k {out(p.w)[k]} :: old(outlen(p.w)) + 4 <= k && k < old(outlen(p.w)) + n ==> out(p.w)[k] == v[k - old(outlen(p.w)) - 4]
  ensures nothingelse: keptw(p.w)

func PropReader.ReadByte(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == sle8(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 1 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 1 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 1 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadUByte(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == le8(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 1 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 1 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 1 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadBool(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> (v <==> content(p.r)[old(pos(p.r))] != 0)
  ensures novalue: err != nil ==> !v
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 1 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 1 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 1 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadShort(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == sle16(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 2 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 2 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 2 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadUShort(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == le16(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 2 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 2 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 2 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadInt(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures smallvalue: err == nil ==> (content(p.r)[old(pos(p.r))+1] == 0 && content(p.r)[old(pos(p.r))+2] == 0 && content(p.r)[old(pos(p.r))+3] == 0 ==> v == content(p.r)[old(pos(p.r))])
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 4 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 4 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 4 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadUInt(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == le32(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 4 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 4 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 4 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadLong(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == sle64(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 8 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 8 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 8 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadULong(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == le64(content(p.r), old(pos(p.r)))
  ensures novalue: err != nil ==> v == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 8 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 8 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 8 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadFloat(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == f32frombits(le32(content(p.r), old(pos(p.r))))
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 4 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 4 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 4 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

func PropReader.ReadDouble(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures value: err == nil ==> v == f64frombits(le64(content(p.r), old(pos(p.r))))
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 8 <= endpos(p.r) ==> err == nil
  ensures healthyend: healthy(p.r) && old(pos(p.r)) >= endpos(p.r) ==> err == io.EOF
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 8 && pos(p.r) <= endpos(p.r)
  ensures short: old(pos(p.r)) + 8 > endpos(p.r) ==> err != nil
  ensures eof: err == io.EOF ==> old(pos(p.r)) >= endpos(p.r)

// known finding: the bytes above the lowest are lost (the result is pinned by an example of the repository)
func PropReader.ReadInt@full(p) v, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures fullvalue: err == nil ==> v == sle32(content(p.r), old(pos(p.r)))

func PropReader.ReadBinary(p) b, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures length: err == nil ==> len(b) == le32(content(p.r), old(pos(p.r)))
  ensures value: err == nil ==> forall k {b[k]} :: 0 <= k < len(b) ==> b[k] == content(p.r)[old(pos(p.r)) + 4 + k]
  ensures novalue: err != nil ==> b == nil
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 4 + le32(content(p.r), old(pos(p.r))) <= endpos(p.r) ==> err == nil
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 4 + len(b) && (pos(p.r) <= endpos(p.r))
  ensures short: old(pos(p.r)) + 4 + le32(content(p.r), old(pos(p.r))) > endpos(p.r) ==> err != nil

func PropReader.ReadString(p) b, err
  prop C10
  config p.r = nonnil
  modifies pos(p.r)
  ensures length: err == nil ==> len(b) == le32(content(p.r), old(pos(p.r)))
  ensures value: err == nil ==> forall k {b[k]} :: 0 <= k < len(b) ==> b[k] == content(p.r)[old(pos(p.r)) + 4 + k]
  ensures novalue: err != nil ==> len(b) == 0
  ensures healthyok: healthy(p.r) && old(pos(p.r)) + 4 + le32(content(p.r), old(pos(p.r))) <= endpos(p.r) ==> err == nil
  ensures consumed: err == nil ==> pos(p.r) == old(pos(p.r)) + 4 + len(b) && (pos(p.r) <= endpos(p.r))
  ensures short: old(pos(p.r)) + 4 + le32(content(p.r), old(pos(p.r))) > endpos(p.r) ==> err != nil

// what was written is what is read
lemma rt8(a ints, o int, v int): -128 <= v && v <= 127 && put1(a, o, wrapu8(v), 1) ==> sle8(a, o) == v
  prop C10
lemma rtu8(a ints, o int, v int): 0 <= v && v <= 255 && put1(a, o, v, 1) ==> le8(a, o) == v
  prop C10
lemma rt16(a ints, o int, v int): -32768 <= v && v <= 32767 && put2(a, o, wrapu16(v), 2) ==> sle16(a, o) == v
  prop C10
lemma rtu16(a ints, o int, v int): 0 <= v && v <= 65535 && put2(a, o, v, 2) ==> le16(a, o) == v
  prop C10
lemma rt32(a ints, o int, v int): -2147483648 <= v && v <= 2147483647 && put4(a, o, wrapu32(v), 4) ==> sle32(a, o) == v
  prop C10
lemma rtu32(a ints, o int, v int): 0 <= v && v <= 4294967295 && put4(a, o, v, 4) ==> le32(a, o) == v
  prop C10
// base-256 digits
lemma dig1(u int): u % 65536 == u % 256 + 256 * ((u / 256) % 256)
  prop C10
lemma dig2(u int): u % 16777216 == u % 65536 + 65536 * ((u / 65536) % 256)
  prop C10
lemma dig3(u int): u % 4294967296 == u % 16777216 + 16777216 * ((u / 16777216) % 256)
  prop C10
lemma dig4(u int): u % 1099511627776 == u % 4294967296 + 4294967296 * ((u / 4294967296) % 256)
  prop C10
lemma dig5(u int): u % 281474976710656 == u % 1099511627776 + 1099511627776 * ((u / 1099511627776) % 256)
  prop C10
lemma dig6(u int): u % 72057594037927936 == u % 281474976710656 + 281474976710656 * ((u / 281474976710656) % 256)
  prop C10
lemma dig7(u int): u % 18446744073709551616 == u % 72057594037927936 + 72057594037927936 * ((u / 72057594037927936) % 256)
  prop C10
lemma rtu64(a ints, o int, v int): 0 <= v && v <= 18446744073709551615 && put8(a, o, v, 8) ==> le64(a, o) == v
  prop C10
  uses dig1(v)
  uses dig2(v)
  uses dig3(v)
  uses dig4(v)
  uses dig5(v)
  uses dig6(v)
  uses dig7(v)
lemma rt64(a ints, o int, v int): -9223372036854775808 <= v && v <= 9223372036854775807 && put8(a, o, wrapu64(v), 8) ==> sle64(a, o) == v
  prop C10
  uses rtu64(a, o, wrapu64(v))
lemma rtf32(a ints, o int, v f32): put4(a, o, f32bits(v), 4) ==> f32frombits(le32(a, o)) == v
  prop C10
  uses rtu32(a, o, f32bits(v))
lemma rtf64(a ints, o int, v f64): put8(a, o, f64bits(v), 8) ==> f64frombits(le64(a, o)) == v
  prop C10
  uses rtu64(a, o, f64bits(v))
