// Serialization: /repo/packedrtree/packedrtree.go, Marshal, Unmarshal, readLittleEndianNodes
package packedrtree

// node p of the list is at byte a of arr, in the FlatGeobuf layout
def nodeat(arr, a, nd, p) = f64le(arr, a) == nd[p].XMin && f64le(arr, a+8) == nd[p].YMin && f64le(arr, a+16) == nd[p].XMax && f64le(arr, a+24) == nd[p].YMax && i64le(arr, a+32) == nd[p].Offset
def nodesat(arr, a, nd, i, j) = forall p {nd[p].XMin} {nd[p].YMin} {nd[p].XMax} {nd[p].YMax} {nd[p].Offset} :: i <= p < j ==> nodeat(arr, a + 40*(p-i), nd, p)
def kept(w) = forall k {out(w)[k]} :: 0 <= k < old(outlen(w)) ==> out(w)[k] == old(out(w)[k])

func PackedRTree.Marshal(t, w) n, err
  prop C05 C09
  arch both
  config w = maybenil
  requires len(t.nodes) >= 1 && 40*len(t.nodes) <= maxint()
  panics when w == nil
  modifies sink(w)
  ensures count: 0 <= n && n <= 40*len(t.nodes) && outlen(w) == old(outlen(w)) + n
  ensures all: err == nil ==> n == 40*len(t.nodes)
  ensures healthyok: w != nil && healthy(w) ==> err == nil
  ensures layout: err == nil ==> nodesat(out(w), old(outlen(w)), t.nodes, 0, len(t.nodes))
  ensures nothingelse: kept(w)

func readLittleEndianNodes(r, i, j, nodes) err
  prop C04 C05 C09
  arch both
  config r = nonnil
  requires 0 <= i && i < j && j <= len(nodes) && 40*len(nodes) <= maxint()
  modifies nodes[*], pos(r)
  ensures decoded: err == nil ==> nodesat(content(r), old(pos(r)), nodes, i, j)
  ensures consumed: err == nil ==> pos(r) == old(pos(r)) + 40*(j-i) && pos(r) <= endpos(r)
  ensures short: old(pos(r)) + 40*(j-i) > endpos(r) ==> err != nil
  ensures healthyok: healthy(r) && old(pos(r)) + 40*(j-i) <= endpos(r) ==> err == nil
  ensures others: forall p {nodes[p].XMin} {nodes[p].YMin} {nodes[p].XMax} {nodes[p].YMax} {nodes[p].Offset} :: (p < i || p >= j) ==> nodes[p] == old(nodes[p])

def childok(nd, ls, l, p) = ls[l-1].start <= nd[p].Offset && nd[p].Offset < ls[l-1].end
func packedRTree.validateChild(t, level, pos) err
  prop C04 C22 C05
  requires 1 <= level && level < len(t.levels) && 0 <= pos && pos < len(t.nodes)
  ensures exact: err == nil <==> childok(t.nodes, t.levels, level, pos)

// every internal node has its first child on the next level
def childrenok(nd, n, ns, m) = forall l, p {nd[p].Offset, first(n,ns,l)} :: 1 <= l < m && first(n,ns,l) <= p < fin(n,ns,l) ==> first(n,ns,l-1) <= nd[p].Offset && nd[p].Offset < fin(n,ns,l-1)

def childrenat(a, o, n, ns) = forall l, p {i64le(a, o + 40*p + 32), first(n,ns,l)} :: 1 <= l <= topLevel(n,ns) && first(n,ns,l) <= p < fin(n,ns,l) ==> first(n,ns,l-1) <= i64le(a, o + 40*p + 32) && i64le(a, o + 40*p + 32) < fin(n,ns,l-1)

func Unmarshal(r, numRefs, nodeSize) t, err
  prop C05 C22 C09
  arch both
  panics when r == nil || numRefs < 1 || nodeSize < 2
  modifies pos(r)
  ghost N int = numRefs
  ghost S int = nodeSize
  apply infin(N, S, level)
  apply infin(N, S, level-1)
  loop 0
    invariant range: 1 <= level && level <= topLevel(N,S) + 1
    invariant size: len(prt.nodes) == total(N,S)
    invariant decoded: nodesat(content(r), old(pos(r)), prt.nodes, 0, len(prt.nodes))
    invariant done: childrenok(prt.nodes, N, S, level)
    decreases topLevel(N,S) + 1 - level
  loop 1
    invariant range: 1 <= level && level <= topLevel(N,S) && first(N,S,level) <= pos && pos <= fin(N,S,level)
    invariant done: childrenok(prt.nodes, N, S, level)
    invariant row: forall p {prt.nodes[p].Offset} :: first(N,S,level) <= p < pos ==> first(N,S,level-1) <= prt.nodes[p].Offset && prt.nodes[p].Offset < fin(N,S,level-1)
    decreases fin(N,S,level) - pos
  ensures none: err != nil ==> t == nil
  ensures overflow: 40*total(numRefs, nodeSize) > maxint() ==> err != nil
  ensures counts: err == nil ==> t != nil && t.numRefs == numRefs && t.nodeSize == nodeSize && len(t.nodes) == total(numRefs,nodeSize) && levelsok(t.levels, numRefs, nodeSize) && okparams(numRefs, nodeSize)
  ensures decoded: err == nil ==> nodesat(content(r), old(pos(r)), t.nodes, 0, total(numRefs,nodeSize))
  ensures consumed: err == nil ==> pos(r) == old(pos(r)) + 40*total(numRefs,nodeSize) && pos(r) <= endpos(r)
  ensures children: err == nil ==> childrenok(t.nodes, numRefs, nodeSize, topLevel(numRefs,nodeSize)+1)
  ensures callbacks: err == nil ==> isfunc(t.push, "stackPush") && isfunc(t.pop, "stackPop") && t.fetch == nil

  ensures healthyok: healthy(r) && 40*total(numRefs,nodeSize) <= maxint() && old(pos(r)) + 40*total(numRefs,nodeSize) <= endpos(r) && childrenat(content(r), old(pos(r)), numRefs, nodeSize) ==> err == nil

// big-endian hosts: /repo/packedrtree/native_bigendian.go
func fixLittleEndianOctets@be(b)
  prop C09
  arch be
  requires len(b) % 8 == 0
  modifies b[*]
  loop 0
    invariant range: 0 <= i && i <= len(b) && i % 8 == 0
    invariant done: forall k {b[k]} :: 0 <= k < i ==> b[k] == old(b[k - k%8 + 7 - k%8])
    invariant rest: forall k {b[k]} :: i <= k < len(b) ==> b[k] == old(b[k])
    decreases len(b) - i
  ensures reversed: forall k {b[k]} :: 0 <= k < len(b) ==> b[k] == old(b[k - k%8 + 7 - k%8])

func writeLittleEndianOctets@be(w, p) n, err
  prop C09
  arch be
  config w = nonnil
  panics when len(p) % 8 != 0
  modifies sink(w)
  loop 0
    invariant range: 0 <= n && n <= len(p) && n % 8 == 0
    invariant buf: len(buf) % 8 == 0 && 0 < len(buf) && err == nil
    invariant sent: outlen(w) == old(outlen(w)) + n
    invariant done: forall k {out(w)[k]} :: old(outlen(w)) <= k < old(outlen(w)) + n ==> out(w)[k] == p[(k - old(outlen(w))) - (k - old(outlen(w)))%8 + 7 - (k - old(outlen(w)))%8]
    invariant keep: kept(w)
    decreases len(p) - n
  loop 1
    invariant range: 0 <= i && i <= len(buf) && i % 8 == 0
    invariant done: forall k {buf[k]} :: 0 <= k < i ==> buf[k] == p[n + k - k%8 + 7 - k%8]
    decreases len(buf) - i
  ensures count: 0 <= n && n <= len(p) && outlen(w) == old(outlen(w)) + n
  ensures healthyok: healthy(w) ==> err == nil
  ensures all: err == nil ==> n == len(p)
  ensures reversed: forall k {out(w)[k]} :: old(outlen(w)) <= k < old(outlen(w)) + n ==> out(w)[k] == p[(k - old(outlen(w))) - (k - old(outlen(w)))%8 + 7 - (k - old(outlen(w)))%8]
  ensures nothingelse: kept(w)
