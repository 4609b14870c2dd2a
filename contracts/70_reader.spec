// File reading: /repo/flatgeobuf/file_reader.go, spec.go, stateful.go
package flatgeobuf

// the position of a stream directly after the file header: a logical constant,
// chosen as the position at the end of the one successful Header call
fun hdrend(any) int
def H(r) = hdrend(any(r.r))
def isize(n, ns) = if ns == 0 then 0 else 40*total(n, ns)
// start of the data section
def D(r) = H(r) + isize(r.numFeatures, r.nodeSize)
def seekable(r) = has(r.r, "Seek")

def sig(a, p) = a[p] == 102 && a[p+1] == 103 && a[p+2] == 98 && a[p+4] == 102 && a[p+5] == 103 && a[p+6] == 98

func Magic(r) v, err
  prop C12
  config r = nonnil
  modifies pos(r)
  ensures signature: err == nil ==> old(pos(r)) + 8 <= endpos(r) && sig(content(r), old(pos(r))) && v.Major == content(r)[old(pos(r)) + 3] && v.Patch == content(r)[old(pos(r)) + 7] && pos(r) == old(pos(r)) + 8
  ensures reject: !(old(pos(r)) + 8 <= endpos(r) && sig(content(r), old(pos(r)))) ==> err != nil
  ensures range: old(pos(r)) <= pos(r) && pos(r) <= old(pos(r)) + 8
  ensures healthyok: healthy(r) && old(pos(r)) + 8 <= endpos(r) && sig(content(r), old(pos(r))) ==> err == nil
  ensures none: err != nil ==> v.Major == 0 && v.Patch == 0

func NewFileReader(r) x
  prop C13
  panics when r == nil
  ensures fresh: x != nil && x.err == nil && inv0(x) && any(x.r) == any(r)

def inv0(r) = r.state == 0 && r.numFeatures == 0 && r.nodeSize == 0 && r.indexOffset == 0 && r.dataOffset == 0 && r.cachedIndex == nil && r.featureIndex == 0 && r.featureOffset == 0
def stateok(r) = r.state == 0 || r.state == 34 || r.state == 50 || r.state == 66 || r.state == 82
// an error that a reader may be left with
def realerr(e) = e != nil && e != io.EOF && e != errEndOfData && e != errUnexpectedState && e != ErrNoIndex
def cacheok(t, a, h, n, ns) = t.numRefs == n && t.nodeSize == ns && ns >= 2 && len(t.nodes) == total(n, ns) && levelsok(t.levels, n, ns) && okparams(n, ns) && childrenok(t.nodes, n, ns, topLevel(n, ns)+1) && nodesat(a, h, t.nodes, 0, total(n, ns)) && isfunc(t.push, "stackPush") && isfunc(t.pop, "stackPop") && t.fetch == nil
def invh(r) = H(r) >= 12 && r.numFeatures >= 0 && r.nodeSize != 1 && (r.numFeatures == 0 ==> r.nodeSize == 0) && (r.nodeSize == 0 ==> r.indexOffset == 0) && (r.indexOffset != 0 ==> seekable(r) && r.indexOffset == H(r)) && (r.dataOffset != 0 ==> seekable(r) && r.dataOffset == D(r)) && (r.cachedIndex != nil ==> cacheok(r.cachedIndex, content(r.r), H(r), r.numFeatures, r.nodeSize))
def inv22(r) = r.featureIndex == 0 && r.featureOffset == 0 && (pos(r.r) == H(r) || r.indexOffset > 0) && (r.cachedIndex != nil ==> r.indexOffset > 0 && r.dataOffset > 0)
def inv32(r) = D(r) > 0 && r.featureIndex == 0 && r.featureOffset == 0 && pos(r.r) == D(r)
def inv42(r) = D(r) > 0 && 0 <= r.featureIndex && r.featureOffset <= maxint() && 8*r.featureIndex <= r.featureOffset && r.featureOffset == pos(r.r) - D(r) && (r.numFeatures > 0 ==> r.featureIndex < r.numFeatures)
def invf(r) = r.numFeatures >= 0 && r.featureIndex >= 0 && (r.numFeatures > 0 ==> r.featureIndex <= r.numFeatures)
def inv(r) = invf(r) && (r.err != nil ==> realerr(r.err)) && (r.err == nil ==> stateok(r)) && (r.err == nil && r.state == 0 ==> inv0(r)) && (r.err == nil && r.state != 0 ==> invh(r)) && (r.err == nil && r.state == 34 ==> inv22(r)) && (r.err == nil && r.state == 50 ==> inv32(r)) && (r.err == nil && r.state == 66 ==> inv42(r)) && (r.err == nil && r.state > 34 && r.indexOffset > 0 ==> r.dataOffset > 0)

func FileReader.Rewind(r) err
  prop C13 C16
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.featureIndex, r.featureOffset
  ensures inv: inv(r)
  ensures failed: r.err != nil ==> err == r.err
  ensures unchanged: err != nil ==> r.state == old(r.state) && r.featureIndex == old(r.featureIndex) && r.featureOffset == old(r.featureOffset)
  ensures refused: r.err == nil ==> (err != nil <==> old(r.state) == 0 || (old(r.state) != 34 && r.indexOffset == 0))
  ensures rewound: err == nil ==> r.state == 34

func FileReader.Close(r) err
  prop C13
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.err, closed(r.r)
  ensures inv: inv(r)
  ensures closed: r.err == ErrClosed
  ensures again: old(r.err) == ErrClosed ==> err == ErrClosed && (closed(r.r) <==> old(closed(r.r)))
  ensures first: old(r.err) != ErrClosed && has(r.r, "Close") ==> closed(r.r)

// a feature of len bytes starts at p
def flenok(a, p) = 4 <= le32(a, p) && le32(a, p) <= 4294967291
def fnext(a, p) = p + 4 + le32(a, p)
// the n bytes b with the root table at pos are the feature stored at byte p of a
fun isfeat(bytes, int, int, bytes, int) bool
axiom isfeatdef isfeat: forall b: bytes, a: bytes, n, pos, p {isfeat(b,n,pos,a,p)} :: isfeat(b,n,pos,a,p) <==> n == 4 + le32(a, p) && pos == wrapu32(4 + le32(a, p+4)) && (forall k {b[k]} :: 0 <= k < 4 + le32(a, p) ==> b[k] == a[p + k])
def featat(f, a, p) = isfeat(bytes(f._tab.Bytes), len(f._tab.Bytes), f._tab.Pos, a, p)

func FileReader.readFeature(r, f) err
  prop C14 C15
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires r.err == nil && 0 <= r.featureIndex && r.featureIndex < maxint() && r.featureOffset >= 0 && pos(r.r) >= r.featureOffset
  modifies *f, r.featureIndex, r.featureOffset, r.err, pos(r.r)
  ensures ok: err == nil ==> flenok(content(r.r), old(pos(r.r))) && pos(r.r) == fnext(content(r.r), old(pos(r.r))) && pos(r.r) <= endpos(r.r) && r.err == nil && r.featureIndex == old(r.featureIndex) + 1 && r.featureOffset == old(r.featureOffset) + pos(r.r) - old(pos(r.r)) && r.featureOffset <= maxint()
  ensures feature: err == nil ==> featat(f, content(r.r), old(pos(r.r))) && pos(r.r) == old(pos(r.r)) + len(f._tab.Bytes)
  ensures end: err == errEndOfData ==> r.err == nil && old(pos(r.r)) >= endpos(r.r) && pos(r.r) == old(pos(r.r)) && r.featureIndex == old(r.featureIndex) && r.featureOffset == old(r.featureOffset)
  ensures failed: err != nil && err != errEndOfData ==> r.err == err && realerr(err) && r.featureIndex == old(r.featureIndex) && r.featureOffset == old(r.featureOffset)
  ensures healthyok: healthy(r.r) && old(pos(r.r)) + 8 <= endpos(r.r) && flenok(content(r.r), old(pos(r.r))) && fnext(content(r.r), old(pos(r.r))) <= endpos(r.r) ==> err == nil
  ensures healthyend: healthy(r.r) && old(pos(r.r)) >= endpos(r.r) ==> err == errEndOfData

func discard(r, buf, n) err
  prop C14 C15
  config r = nonnil
  requires n <= 0 || len(buf) > 0
  modifies buf[*], pos(r)
  loop 0
    noterm
    invariant at: n <= old(n) && pos(r) == old(pos(r)) + old(n) - n && (old(n) >= 0 ==> n >= 0) && (old(n) < 0 ==> n == old(n)) && (n < old(n) ==> pos(r) <= endpos(r))
  ensures ok: err == nil ==> pos(r) == old(pos(r)) + (if n > 0 then n else 0) && (n > 0 ==> pos(r) <= endpos(r))
  ensures failed: err != nil ==> realerr(err)
  ensures healthyok: healthy(r) && old(pos(r)) + n <= endpos(r) ==> err == nil

def nonchain(r) = r.numFeatures == old(r.numFeatures) && r.nodeSize == old(r.nodeSize)

func FileReader.skipIndex(r) err
  prop C14 C16
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r) && r.err == nil && r.state == 34
  modifies r.state, r.err, r.indexOffset, r.dataOffset, pos(r.r)
  ensures inv: inv(r)
  ensures ok: err == nil ==> r.state == 50 && r.err == nil
  ensures failed: err != nil ==> r.err == err
  ensures healthyok: healthy(r.r) && (seekable(r) || D(r) <= endpos(r.r)) && D(r) <= maxint() ==> err == nil

func FileReader.Index(r) x, err
  prop C13 C14 C16
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.err, r.indexOffset, r.dataOffset, r.cachedIndex, pos(r.r)
  ensures inv: inv(r)
  ensures failed: old(r.err) != nil ==> err == old(r.err) && pos(r.r) == old(pos(r.r))
  ensures order: old(r.err) == nil && old(r.state) != 34 ==> err != nil && r.err == nil && r.state == old(r.state) && r.indexOffset == old(r.indexOffset) && r.dataOffset == old(r.dataOffset) && r.cachedIndex == old(r.cachedIndex) && pos(r.r) == old(pos(r.r))
  ensures sticky: old(r.err) == nil && old(r.state) == 34 && err != nil ==> r.err == err
  ensures ok: err == nil ==> r.err == nil && r.state == 50 && (x == nil <==> r.nodeSize == 0)
  ensures index: err == nil && r.nodeSize != 0 ==> cacheok(x, content(r.r), H(r), r.numFeatures, r.nodeSize)
  ensures none: err != nil ==> x == nil
  ensures healthyok: healthy(r.r) && old(r.err) == nil && old(r.state) == 34 && D(r) <= endpos(r.r) && D(r) <= maxint() && (r.nodeSize != 0 ==> childrenat(content(r.r), H(r), r.numFeatures, r.nodeSize)) ==> err == nil

// what the file header says: flat.Header.FeaturesCount and IndexNodeSize, contracts/40_flat.spec
def hB(h) = bytes(h._tab.Bytes)
def hslot(h, s) = toff(hB(h), h._tab.Pos, s)
def hat(h, s) = wrapu32(hslot(h, s) + h._tab.Pos)
def hcount(h) = if hslot(h, 20) == 0 then 0 else le64(hB(h), hat(h, 20))
def hnode(h) = if hslot(h, 22) == 0 then 16 else le16(hB(h), hat(h, 22))
// signature, version and header length are right, and the header is complete
def headok(a, p, e) = p + 12 <= e && sig(a, p) && a[p+3] == 3 && 4 <= le32(a, p+8) && le32(a, p+8) <= 33554432 && p + 12 + le32(a, p+8) <= e
def headtable(h, a, p) = len(h._tab.Bytes) == 4 + le32(a, p+8) && h._tab.Pos == wrapu32(4 + le32(a, p+12)) && forall k {hB(h)[k]} :: 0 <= k < 4 + le32(a, p+8) ==> hB(h)[k] == a[p + 8 + k]

func FileReader.Header(r) hdr, err
  prop C12 C13
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.err, r.numFeatures, r.nodeSize, pos(r.r)
  ensures failed: old(r.err) != nil ==> err == old(r.err) && r.err == old(r.err) && pos(r.r) == old(pos(r.r))
  ensures order: old(r.err) == nil && old(r.state) != 0 ==> err != nil && hdr == nil && r.err == nil && r.state == old(r.state) && r.numFeatures == old(r.numFeatures) && r.nodeSize == old(r.nodeSize) && pos(r.r) == old(pos(r.r))
  ensures sticky: old(r.err) == nil && old(r.state) == 0 && err != nil ==> r.err == err
  ensures head: old(r.err) == nil && err == nil ==> old(r.state) == 0 && hdr != nil && headok(content(r.r), old(pos(r.r)), endpos(r.r)) && headtable(hdr, content(r.r), old(pos(r.r)))
  ensures position: old(r.err) == nil && err == nil ==> pos(r.r) == old(pos(r.r)) + 12 + le32(content(r.r), old(pos(r.r)) + 8)
  ensures values: old(r.err) == nil && err == nil ==> hcount(hdr) <= maxint() && hnode(hdr) != 1 && r.numFeatures == hcount(hdr) && r.nodeSize == (if hcount(hdr) == 0 then 0 else hnode(hdr)) && r.state == 34 && r.err == nil
  ensures returned: old(r.err) == nil && err != nil && hdr != nil ==> headtable(hdr, content(r.r), old(pos(r.r))) && (hcount(hdr) > maxint() || hnode(hdr) == 1)
  ensures healthyok: healthy(r.r) && old(r.err) == nil && old(r.state) == 0 && headok(content(r.r), old(pos(r.r)), endpos(r.r)) ==> pos(r.r) == old(pos(r.r)) + 12 + le32(content(r.r), old(pos(r.r)) + 8)
  ensures inv: (old(r.err) == nil && err == nil ==> H(r) == pos(r.r)) ==> inv(r)

// where reading the data goes on
def here(r) = if r.state == 66 then pos(r.r) else D(r)
def left(r) = if r.state == 66 then r.numFeatures - r.featureIndex else r.numFeatures
// start of feature k when the first one starts at p
fun fst(ints, int, int) int
axiom fst0 fst: forall a: ints, p {fst(a, p, 0)} :: fst(a, p, 0) == p
axiom fstn fst: forall a: ints, p, k {fst(a, p, k+1)} :: k >= 0 ==> fst(a, p, k+1) == fnext(a, fst(a, p, k))
lemma fststep(a ints, p int, k int): k >= 0 ==> fst(a, p, k+1) == fnext(a, fst(a, p, k))
lemma fstadd(a ints, p int, m int, k int): m >= 0 && k >= 0 ==> fst(a, fst(a, p, m), k) == fst(a, p, m + k)
  by induction k from 0
  uses fststep(a, p, m+k-1)
  uses fststep(a, fst(a, p, m), k-1)
  prop C14
  trigger fst(a, fst(a, p, m), k)
  auto
// n complete features from p on, before e
fun nfeat(ints, int, int, int) bool
axiom nfeat0 nfeat: forall a: ints, p, e {nfeat(a, p, 0, e)} :: nfeat(a, p, 0, e)
axiom nfeatn nfeat: forall a: ints, p, k, e {nfeat(a, p, k+1, e)} :: k >= 0 ==> (nfeat(a, p, k+1, e) <==> nfeat(a, p, k, e) && flenok(a, fst(a, p, k)) && fnext(a, fst(a, p, k)) <= e)
lemma nfeatstep(a ints, p int, k int, e int): k >= 0 ==> (nfeat(a, p, k+1, e) <==> nfeat(a, p, k, e) && flenok(a, fst(a, p, k)) && fnext(a, fst(a, p, k)) <= e)
lemma nfeatadd(a ints, p int, m int, e int, k int): m >= 0 && k >= 0 && nfeat(a, p, m, e) && nfeat(a, fst(a, p, m), k, e) ==> nfeat(a, p, m+k, e)
  by induction k from 0
  uses nfeatstep(a, p, m+k-1, e)
  uses nfeatstep(a, fst(a, p, m), k-1, e)
  uses fstadd(a, p, m, k-1)
  prop C14
  trigger nfeat(a, p, m, e), nfeat(a, fst(a, p, m), k, e)
  auto
// so each of them is complete
lemma nfeatall(a ints, p int, n int, e int, j int): 0 <= j && j < n && nfeat(a, p, n, e) ==> flenok(a, fst(a, p, j)) && fnext(a, fst(a, p, j)) <= e
  by induction n from 0
  uses nfeatstep(a, p, n-1, e)
  prop C14
def FS(r, j) = fst(content(r.r), old(here(r)), j)
def chain(r, n) = nfeat(content(r.r), old(here(r)), n, endpos(r.r))
def feats(r, p, n) = forall j {bytes(p[j]._tab.Bytes)} {len(p[j]._tab.Bytes)} {p[j]._tab.Pos} :: 0 <= j < n ==> featat(p[j], content(r.r), FS(r, j))

func FileReader.Data(r, p) n, err
  prop C13 C14 C16
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.err, r.indexOffset, r.dataOffset, r.featureIndex, r.featureOffset, p[*], pos(r.r)
  loop 0
    apply fststep(content(r.r), old(here(r)), i)
    apply nfeatstep(content(r.r), old(here(r)), i, endpos(r.r))
    invariant dpos: D(r) > 0
    invariant range: 0 <= i && i <= n && n <= len(p) && r.err == nil && r.state == 66 && invh(r) && (r.indexOffset > 0 ==> r.dataOffset > 0)
    invariant count: (r.numFeatures > 0 ==> n <= old(left(r)) && rem == old(left(r)) && (n == len(p) || n == rem)) && (r.numFeatures == 0 ==> n == len(p))
    invariant at: r.featureIndex == old(r.featureIndex) + i && 0 <= old(r.featureIndex) && r.featureOffset <= maxint() && 8*r.featureIndex <= r.featureOffset && r.featureOffset == pos(r.r) - D(r) && (old(r.state) != 66 ==> old(r.featureIndex) == 0)
    invariant start: pos(r.r) == FS(r, i)
    invariant chain: chain(r, i)
    invariant feats: feats(r, p, i)
    decreases n - i
  ensures inv: inv(r)
  ensures failed: old(r.err) != nil ==> n == 0 && err == old(r.err) && r.err == old(r.err) && pos(r.r) == old(pos(r.r))
  ensures order: old(r.err) == nil && old(r.state) == 0 ==> n == 0 && err != nil && err != io.EOF && r.err == nil && r.state == 0 && pos(r.r) == old(pos(r.r))
  ensures after: old(r.err) == nil && old(r.state) == 82 ==> n == 0 && err == io.EOF && r.err == nil && r.state == 82 && pos(r.r) == old(pos(r.r))
  ensures range: 0 <= n && n <= len(p)
  ensures chain: chain(r, n)
  ensures feats: feats(r, p, n)
  ensures full: err == nil ==> n == len(p) && r.state == 66 && r.err == nil && pos(r.r) == FS(r, n)
  ensures counted: r.err == nil && old(r.state) != 0 && old(r.state) != 82 ==> r.featureIndex == old(r.featureIndex) + n
  ensures end: err == io.EOF && old(r.state) != 82 ==> r.err == nil && r.state == 82 && pos(r.r) == FS(r, n) && (if r.numFeatures > 0 then n == old(left(r)) else pos(r.r) >= endpos(r.r))
  ensures sticky: old(r.err) == nil && err != nil && err != io.EOF && old(r.state) != 0 ==> r.err == err

func FileReader.DataRem(r) q, err
  prop C13 C14
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.err, r.indexOffset, r.dataOffset, r.featureIndex, r.featureOffset, pos(r.r)
  ensures inv: inv(r)
  ensures failed: old(r.err) != nil ==> len(q) == 0 && err == old(r.err) && r.err == old(r.err) && pos(r.r) == old(pos(r.r))
  ensures order: old(r.err) == nil && old(r.state) == 0 ==> len(q) == 0 && err != nil && r.err == nil && r.state == 0 && pos(r.r) == old(pos(r.r))
  ensures after: old(r.err) == nil && old(r.state) == 82 ==> len(q) == 0 && err == nil && r.err == nil && r.state == 82 && pos(r.r) == old(pos(r.r))
  ensures end: err == nil ==> r.err == nil && r.state == 82
  ensures chain: chain(r, len(q))
  ensures feats: feats(r, q, len(q))
  ensures all: err == nil && old(r.state) != 82 ==> pos(r.r) == FS(r, len(q)) && (if r.numFeatures > 0 then len(q) == old(left(r)) else pos(r.r) >= endpos(r.r))
  ensures sticky: old(r.err) == nil && err != nil && old(r.state) != 0 ==> r.err == err
  loop 0
    noterm
    invariant inv: inv(r) && r.err == nil && r.state == 66 && old(r.err) == nil && old(r.state) != 0 && old(r.state) != 82 && len(p) == 1024
    invariant at: pos(r.r) == FS(r, len(q)) && r.featureIndex == old(r.featureIndex) + len(q)
    invariant chain: chain(r, len(q))
    invariant feats: feats(r, q, len(q))
