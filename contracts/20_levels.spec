// Level arithmetic: /repo/packedrtree/packedrtree.go, Size .. levelify
package packedrtree

// cnt(n,ns,k): number of nodes at level k (leaves are level 0)
fun cnt(int, int, int) int
axiom cnt0 cnt: forall n, ns {cnt(n,ns,0)} :: cnt(n,ns,0) == n
axiom cntS cnt: forall n, ns, k {cnt(n,ns,k+1)} :: k >= 0 ==> cnt(n,ns,k+1) == cdiv(cnt(n,ns,k), ns)
// isum(n,ns,k): number of internal nodes on levels 1..k
fun isum(int, int, int) int
axiom isum0 isum: forall n, ns {isum(n,ns,0)} :: isum(n,ns,0) == 0
axiom isumS isum: forall n, ns, k {isum(n,ns,k+1)} :: k >= 0 ==> isum(n,ns,k+1) == isum(n,ns,k) + cnt(n,ns,k+1)
// topLevel(n,ns): the first level above the leaves that has a single node
fun topLevel(int, int) int
axiom topdef topLevel: forall n, ns, k {cnt(n,ns,k+1), topLevel(n,ns)} :: n >= 1 && ns >= 2 && k >= 0 && cnt(n,ns,k+1) == 1 && (k == 0 || cnt(n,ns,k) != 1) ==> topLevel(n,ns) == k+1
// total(n,ns): number of nodes of the tree
def total(n, ns) = n + isum(n, ns, topLevel(n, ns))
def maxint() = 9223372036854775807
// half(k): 2^(63-k) for 0 <= k <= 63
fun half(int) int
axiom half0 half: half(0) == 9223372036854775808 && half(63) == 1
axiom halfS half: forall k {half(k+1)} :: 0 <= k < 63 ==> half(k) == 2*half(k+1)
axiom halfP half: forall k {half(k)} :: (0 <= k < 63 ==> half(k) >= 2) && (0 <= k <= 63 ==> half(k) >= 1 && half(k) <= 9223372036854775808)

lemma halve(c, ns): c >= 1 && ns >= 2 ==> 2*cdiv(c,ns) <= c+1 && cdiv(c,ns) >= 1
  uses divfact(c+ns-1, ns)
  prop C01 C02

// one step up: introduces the next level's terms (the axioms above only fire on them)
lemma levelstep(n, ns, k): n >= 1 && ns >= 2 && k >= 0 && cnt(n,ns,k) >= 1 ==> cnt(n,ns,k+1) == cdiv(cnt(n,ns,k),ns) && isum(n,ns,k+1) == isum(n,ns,k) + cnt(n,ns,k+1) && 2*cnt(n,ns,k+1) <= cnt(n,ns,k)+1 && cnt(n,ns,k+1) >= 1 && (cnt(n,ns,k+1) == 1 && (k == 0 || cnt(n,ns,k) != 1) ==> topLevel(n,ns) == k+1)
  uses halve(cnt(n,ns,k), ns)
  prop C01 C02
lemma halfstep(k): 0 <= k < 63 ==> half(k) == 2*half(k+1) && half(k) >= 2
  prop C01

func totalNodes(numRefs, numInternal) n, err
  prop C01 C02
  requires numRefs >= 0 && numInternal >= 0
  ensures ok: err == nil <==> numRefs + numInternal <= maxint()
  ensures sum: err == nil ==> n == numRefs + numInternal
  ensures none: err != nil ==> n == 0
  ensures own: err != nil ==> erank(err) >= 1000

func size(numRefs, nodeSize) n, err
  prop C01
  requires 1 <= numRefs && numRefs <= maxint() && 2 <= nodeSize && nodeSize <= 65535
  ghost k int = 0
  apply levelstep(numRefs, nodeSize, k)
  apply halfstep(k)
  loop 0
    invariant k >= 0
    invariant count: nodesThisLevel == cnt(numRefs, nodeSize, k)
    invariant sum: numInternal == isum(numRefs, nodeSize, k)
    invariant more: k == 0 || nodesThisLevel != 1
    invariant pos: nodesThisLevel >= 1 && numInternal >= 0 && (k >= 1 ==> numInternal >= 1)
    invariant bound: k <= 63 && nodesThisLevel <= half(k) && numInternal <= 9223372036854775808 - half(k)
    ghost k = k + 1
    decreases nodesThisLevel
  ensures exact: err == nil ==> n == 40 * total(numRefs, nodeSize)
  ensures overflow: err != nil <==> 40 * total(numRefs, nodeSize) > maxint()
  ensures zero: err != nil ==> n == 0
  ensures own: err != nil ==> erank(err) >= 1000
  ensures top: topLevel(numRefs, nodeSize) >= 1
  ensures internal: isum(numRefs, nodeSize, topLevel(numRefs, nodeSize)) >= 1
  ensures one: cnt(numRefs, nodeSize, topLevel(numRefs, nodeSize)) == 1

func Size(numRefs, nodeSize) n, err
  prop C01
  panics when numRefs < 1 || nodeSize < 2
  ensures exact: err == nil ==> n == 40 * total(numRefs, nodeSize)
  ensures overflow: err != nil <==> 40 * total(numRefs, nodeSize) > maxint()
  ensures zero: err != nil ==> n == 0
  ensures own: err != nil ==> erank(err) >= 1000
  ensures positive: err == nil ==> n >= 80
  ensures params: err == nil ==> okparams(numRefs, nodeSize)
