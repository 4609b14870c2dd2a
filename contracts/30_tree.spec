// Tree layout: /repo/packedrtree/packedrtree.go, levelify .. New
package packedrtree

lemma cntpos(n, ns, k): n >= 1 && ns >= 2 && k >= 0 ==> cnt(n,ns,k) >= 1
  by induction k from 0
  uses halve(cnt(n,ns,k-1), ns)
  trigger cnt(n,ns,k)
  auto
lemma isummono(n, ns, l, d): n >= 1 && ns >= 2 && l >= 0 && d >= 0 ==> isum(n,ns,l+d) >= isum(n,ns,l) + d
  by induction d from 0
  uses levelstep(n,ns,l+d-1)
lemma isumpos(n, ns, l): n >= 1 && ns >= 2 && l >= 0 ==> isum(n,ns,l) >= l
  uses isummono(n,ns,0,l)
  trigger isum(n,ns,l)
  auto
lemma base0(n, ns): isum(n,ns,0) == 0 && cnt(n,ns,0) == n
lemma isumtop(n, ns, l): n >= 1 && ns >= 2 && 0 <= l <= topLevel(n,ns) ==> isum(n,ns,l) + topLevel(n,ns) - l <= isum(n,ns,topLevel(n,ns))
  uses isummono(n,ns,l,topLevel(n,ns)-l)
  trigger isum(n,ns,l), topLevel(n,ns)
  auto

// first and one-past-last node of level l
def first(n, ns, l) = isum(n,ns,topLevel(n,ns)) - isum(n,ns,l)
def fin(n, ns, l) = isum(n,ns,topLevel(n,ns)) - isum(n,ns,l) + cnt(n,ns,l)
def okparams(n, ns) = 1 <= n && 2 <= ns <= 65535 && 40*total(n,ns) <= maxint() && topLevel(n,ns) >= 1 && isum(n,ns,topLevel(n,ns)) >= 1 && cnt(n,ns,topLevel(n,ns)) == 1
def levelsok(ls, n, ns) = len(ls) == topLevel(n,ns) + 1 && (forall l {ls[l].start} {ls[l].end} {isum(n,ns,l)} :: 0 <= l <= topLevel(n,ns) ==> ls[l].start == first(n,ns,l) && ls[l].end == fin(n,ns,l))

func levelify(numRefs, nodeSize) result
  prop C02
  requires okparams(numRefs, nodeSize)
  ghost k int = 0
  apply levelstep(numRefs, nodeSize, k)
  apply halfstep(k)
  apply base0(numRefs, nodeSize)
  apply levelstep(numRefs, nodeSize, i-1)
  apply levelstep(numRefs, nodeSize, i-2)
  loop 0
    invariant k >= 0
    invariant count: nodesThisLevel == cnt(numRefs, nodeSize, k)
    invariant sum: numInternal == isum(numRefs, nodeSize, k)
    invariant more: k == 0 || nodesThisLevel != 1
    invariant pos: nodesThisLevel >= 1 && numInternal >= 0 && (k >= 1 ==> numInternal >= 1)
    invariant bound: k <= 63 && nodesThisLevel <= half(k) && numInternal <= 9223372036854775808 - half(k)
    invariant len: len(nodesPerLevel) == k+1
    invariant counts: forall j {nodesPerLevel[j]} :: 0 <= j <= k ==> nodesPerLevel[j] == cnt(numRefs, nodeSize, j)
    ghost k = k + 1
    decreases nodesThisLevel
  loop 1
    invariant len: len(levelIndices) == len(nodesPerLevel)
    invariant remaining: nodesRemaining == (if i == 0 then numNodes else first(numRefs, nodeSize, i-1))
    invariant starts: forall j {levelIndices[j]} :: 0 <= j < i ==> levelIndices[j] == first(numRefs, nodeSize, j)
  loop 2
    invariant len: len(levels) == len(nodesPerLevel)
    invariant levels: forall j {levels[j].start} {levels[j].end} :: 0 <= j < i ==> levels[j].start == first(numRefs, nodeSize, j) && levels[j].end == fin(numRefs, nodeSize, j)
  ensures levels: levelsok(result, numRefs, nodeSize)

lemma mulmono(a, b, c): a <= b && 0 <= c ==> a*c <= b*c
lemma isumle(n, ns, a, b): n >= 1 && ns >= 2 && 0 <= a <= b ==> isum(n,ns,a) + b - a <= isum(n,ns,b)
  uses isummono(n,ns,a,b-a)
  trigger isum(n,ns,a), isum(n,ns,b)
  auto

// kid(n,ns,l,p): first child of node p of level l
fun kid(int, int, int, int) int
axiom kiddef kid: forall n, ns, l, p {kid(n,ns,l,p)} :: kid(n,ns,l,p) == first(n,ns,l-1) + (p - first(n,ns,l))*ns
lemma kidrange(n, ns, l, p): okparams(n,ns) && 1 <= l <= topLevel(n,ns) && p >= first(n,ns,l) ==> (p < fin(n,ns,l) <==> kid(n,ns,l,p) < fin(n,ns,l-1)) && kid(n,ns,l,p) >= first(n,ns,l-1) && first(n,ns,l-1) == fin(n,ns,l)
  uses levelstep(n,ns,l-1)
  uses divfact(cnt(n,ns,l-1)+ns-1, ns)
  uses mulmono(p-first(n,ns,l), cnt(n,ns,l)-1, ns)
  uses mulmono(cnt(n,ns,l), p-first(n,ns,l), ns)
  uses mulmono(0, p-first(n,ns,l), ns)
  trigger kid(n,ns,l,p)
  auto
lemma kidnext(n, ns, l, p): kid(n,ns,l,p+1) == kid(n,ns,l,p) + ns
lemma kidfirst(n, ns, l): kid(n,ns,l,first(n,ns,l)) == first(n,ns,l-1)

def nodecov(nd, p, c) = fle(nd[p].XMin, nd[c].XMin) && fle(nd[p].YMin, nd[c].YMin) && fle(nd[c].XMax, nd[p].XMax) && fle(nd[c].YMax, nd[p].YMax)
def nodenan(nd, p) = !nan(nd[p].XMin) && !nan(nd[p].YMin) && !nan(nd[p].XMax) && !nan(nd[p].YMax)
def inblock(n, ns, l, p, c) = kid(n,ns,l,p) <= c && c < kid(n,ns,l,p) + ns && c < fin(n,ns,l-1)
def wfoff(nd, n, ns, m) = forall l, p {kid(n,ns,l,p)} :: 1 <= l <= m && first(n,ns,l) <= p < fin(n,ns,l) ==> nd[p].Offset == kid(n,ns,l,p)
def wfcov(nd, n, ns, m) = forall l, p, c {kid(n,ns,l,p), nd[c].XMin} :: 1 <= l <= m && first(n,ns,l) <= p < fin(n,ns,l) && inblock(n,ns,l,p,c) ==> nodecov(nd,p,c)
def wfnan(nd, n, ns, m) = forall p {nd[p].XMin} :: first(n,ns,m) <= p < total(n,ns) ==> nodenan(nd, p)
def wfleaf(nd, refs, ns) = forall p {nd[p].XMin} {nd[p].Offset} :: first(len(refs),ns,0) <= p < total(len(refs),ns) ==> nd[p].Ref == refs[p - first(len(refs),ns,0)]
// every bound of an internal node is the bound of one of its children
def levle(X, n, ns, l, e) = forall p, c {kid(n,ns,l,p), X[c]} :: first(n,ns,l) <= p < e && inblock(n,ns,l,p,c) ==> fle(X[p], X[c])
def levge(X, n, ns, l, e) = forall p, c {kid(n,ns,l,p), X[c]} :: first(n,ns,l) <= p < e && inblock(n,ns,l,p,c) ==> fle(X[c], X[p])
def curle(X, p, a, b) = forall c {X[c]} :: a <= c < b ==> fle(X[p], X[c])
def curge(X, p, a, b) = forall c {X[c]} :: a <= c < b ==> fle(X[c], X[p])
def attc(X, n, ns, l, p) = exists c {X[c]} :: inblock(n,ns,l,p,c) && rank(X[p]) == rank(X[c])
def wfattc(X, n, ns, m) = forall l, p {kid(n,ns,l,p)} :: 1 <= l <= m && first(n,ns,l) <= p < fin(n,ns,l) ==> attc(X, n, ns, l, p)
def levattc(X, n, ns, l, e) = forall p {kid(n,ns,l,p)} :: first(n,ns,l) <= p < e ==> attc(X, n, ns, l, p)
def curattc(X, p, a, b) = exists c {X[c]} :: a <= c < b && rank(X[p]) == rank(X[c])

func New(refs, nodeSize) t, err
  prop C02
  panics when len(refs) < 1 || nodeSize < 2
  omit kiddef
  ghost N int = len(refs)
  ghost S int = nodeSize
  ghost nn bool = forall q {refs[q].XMin} :: 0 <= q < len(refs) ==> nonnan(refs[q])
  apply base0(N, S)
  apply kidfirst(N, S, i+1)
  apply levelstep(N, S, i)
  apply levelstep(N, S, i-1)
  apply kidnext(N, S, i+1, parentIndex)
  apply kidnext(N, S, i+1, parentIndex-1)
  loop 0
    invariant range: i == first(N,S,0) + j && 0 <= j <= N
    invariant leaves: forall p {prt.nodes[p].XMin} {prt.nodes[p].Offset} :: first(N,S,0) <= p < i ==> prt.nodes[p].Ref == refs[p - first(N,S,0)]
  loop 1
    invariant range: 0 <= i <= topLevel(N,S)
    invariant leaves: wfleaf(prt.nodes, refs, S)
    invariant offsets: wfoff(prt.nodes, N, S, i)
    invariant nonnan: nn ==> wfnan(prt.nodes, N, S, i)
    invariant covers: nn ==> wfcov(prt.nodes, N, S, i-1)
    invariant covXMin: nn && i >= 1 ==> levle(col(prt.nodes,"XMin"), N, S, i, fin(N,S,i))
    invariant covYMin: nn && i >= 1 ==> levle(col(prt.nodes,"YMin"), N, S, i, fin(N,S,i))
    invariant covXMax: nn && i >= 1 ==> levge(col(prt.nodes,"XMax"), N, S, i, fin(N,S,i))
    invariant covYMax: nn && i >= 1 ==> levge(col(prt.nodes,"YMax"), N, S, i, fin(N,S,i))
    invariant attainsXMin: nn ==> wfattc(col(prt.nodes,"XMin"), N, S, i-1)
    invariant levelXMin: nn && i >= 1 ==> levattc(col(prt.nodes,"XMin"), N, S, i, fin(N,S,i))
    invariant attainsYMin: nn ==> wfattc(col(prt.nodes,"YMin"), N, S, i-1)
    invariant levelYMin: nn && i >= 1 ==> levattc(col(prt.nodes,"YMin"), N, S, i, fin(N,S,i))
    invariant attainsXMax: nn ==> wfattc(col(prt.nodes,"XMax"), N, S, i-1)
    invariant levelXMax: nn && i >= 1 ==> levattc(col(prt.nodes,"XMax"), N, S, i, fin(N,S,i))
    invariant attainsYMax: nn ==> wfattc(col(prt.nodes,"YMax"), N, S, i-1)
    invariant levelYMax: nn && i >= 1 ==> levattc(col(prt.nodes,"YMax"), N, S, i, fin(N,S,i))
    decreases topLevel(N,S) - i
  loop 2
    invariant range: 0 <= i < topLevel(N,S) && first(N,S,i+1) <= parentIndex <= fin(N,S,i+1)
    invariant at: nodeIndex == kid(N,S,i+1,parentIndex) && nodeIndex <= fin(N,S,i)
    invariant leaves: wfleaf(prt.nodes, refs, S)
    invariant offsets: wfoff(prt.nodes, N, S, i)
    invariant offsets2: forall p {kid(N,S,i+1,p)} :: first(N,S,i+1) <= p < parentIndex ==> prt.nodes[p].Offset == kid(N,S,i+1,p)
    invariant nonnan: nn ==> wfnan(prt.nodes, N, S, i)
    invariant nonnan2: nn ==> (forall p {prt.nodes[p].XMin} :: first(N,S,i+1) <= p < parentIndex ==> nodenan(prt.nodes, p))
    invariant covers: nn ==> wfcov(prt.nodes, N, S, i)
    invariant attainsXMin: nn ==> wfattc(col(prt.nodes,"XMin"), N, S, i)
    invariant attainsYMin: nn ==> wfattc(col(prt.nodes,"YMin"), N, S, i)
    invariant attainsXMax: nn ==> wfattc(col(prt.nodes,"XMax"), N, S, i)
    invariant attainsYMax: nn ==> wfattc(col(prt.nodes,"YMax"), N, S, i)
    invariant covXMin: nn ==> levle(col(prt.nodes,"XMin"), N, S, i+1, parentIndex)
    invariant covYMin: nn ==> levle(col(prt.nodes,"YMin"), N, S, i+1, parentIndex)
    invariant covXMax: nn ==> levge(col(prt.nodes,"XMax"), N, S, i+1, parentIndex)
    invariant covYMax: nn ==> levge(col(prt.nodes,"YMax"), N, S, i+1, parentIndex)
    invariant levelXMin: nn ==> levattc(col(prt.nodes,"XMin"), N, S, i+1, parentIndex)
    invariant levelYMin: nn ==> levattc(col(prt.nodes,"YMin"), N, S, i+1, parentIndex)
    invariant levelXMax: nn ==> levattc(col(prt.nodes,"XMax"), N, S, i+1, parentIndex)
    invariant levelYMax: nn ==> levattc(col(prt.nodes,"YMax"), N, S, i+1, parentIndex)
    decreases fin(N,S,i) - nodeIndex
  loop 3
    invariant range: 0 <= i < topLevel(N,S) && first(N,S,i+1) <= parentIndex < fin(N,S,i+1)
    invariant at: nodeIndex == kid(N,S,i+1,parentIndex) + j && 0 <= j < S && nodeIndex < fin(N,S,i)
    invariant leaves: wfleaf(prt.nodes, refs, S)
    invariant offsets: wfoff(prt.nodes, N, S, i)
    invariant offsets2: forall p {kid(N,S,i+1,p)} :: first(N,S,i+1) <= p <= parentIndex ==> prt.nodes[p].Offset == kid(N,S,i+1,p)
    invariant nonnan: nn ==> wfnan(prt.nodes, N, S, i)
    invariant nonnan2: nn ==> (forall p {prt.nodes[p].XMin} :: first(N,S,i+1) <= p <= parentIndex ==> nodenan(prt.nodes, p))
    invariant covers: nn ==> wfcov(prt.nodes, N, S, i)
    invariant attainsXMin: nn ==> wfattc(col(prt.nodes,"XMin"), N, S, i)
    invariant attainsYMin: nn ==> wfattc(col(prt.nodes,"YMin"), N, S, i)
    invariant attainsXMax: nn ==> wfattc(col(prt.nodes,"XMax"), N, S, i)
    invariant attainsYMax: nn ==> wfattc(col(prt.nodes,"YMax"), N, S, i)
    invariant covXMin: nn ==> levle(col(prt.nodes,"XMin"), N, S, i+1, parentIndex)
    invariant covYMin: nn ==> levle(col(prt.nodes,"YMin"), N, S, i+1, parentIndex)
    invariant covXMax: nn ==> levge(col(prt.nodes,"XMax"), N, S, i+1, parentIndex)
    invariant covYMax: nn ==> levge(col(prt.nodes,"YMax"), N, S, i+1, parentIndex)
    invariant currentXMin: nn ==> curle(col(prt.nodes,"XMin"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant currentYMin: nn ==> curle(col(prt.nodes,"YMin"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant currentXMax: nn ==> curge(col(prt.nodes,"XMax"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant currentYMax: nn ==> curge(col(prt.nodes,"YMax"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant levelXMin: nn ==> levattc(col(prt.nodes,"XMin"), N, S, i+1, parentIndex)
    invariant levelYMin: nn ==> levattc(col(prt.nodes,"YMin"), N, S, i+1, parentIndex)
    invariant levelXMax: nn ==> levattc(col(prt.nodes,"XMax"), N, S, i+1, parentIndex)
    invariant levelYMax: nn ==> levattc(col(prt.nodes,"YMax"), N, S, i+1, parentIndex)
    invariant empty: j == 0 ==> isEmptyBox(prt.nodes[parentIndex])
    invariant curXMin: nn && j >= 1 ==> curattc(col(prt.nodes,"XMin"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant curYMin: nn && j >= 1 ==> curattc(col(prt.nodes,"YMin"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant curXMax: nn && j >= 1 ==> curattc(col(prt.nodes,"XMax"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    invariant curYMax: nn && j >= 1 ==> curattc(col(prt.nodes,"YMax"), parentIndex, kid(N,S,i+1,parentIndex), nodeIndex)
    decreases fin(N,S,i) - nodeIndex
  ensures size: err == nil <==> 40*total(N,S) <= maxint()
  ensures none: err != nil ==> t == nil
  ensures counts: err == nil ==> t != nil && t.numRefs == N && t.nodeSize == S && len(t.nodes) == total(N,S) && levelsok(t.levels, N, S) && okparams(N, S)
  ensures leaves: err == nil ==> wfleaf(t.nodes, refs, S)
  ensures offsets: err == nil ==> wfoff(t.nodes, N, S, topLevel(N,S))
  ensures nonnan: err == nil && nn ==> wfnan(t.nodes, N, S, topLevel(N,S))
  ensures covers: err == nil && nn ==> wfcov(t.nodes, N, S, topLevel(N,S))
  ensures attainsXMin: err == nil && nn ==> wfattc(col(t.nodes,"XMin"), N, S, topLevel(N,S))
  ensures attainsYMin: err == nil && nn ==> wfattc(col(t.nodes,"YMin"), N, S, topLevel(N,S))
  ensures attainsXMax: err == nil && nn ==> wfattc(col(t.nodes,"XMax"), N, S, topLevel(N,S))
  ensures attainsYMax: err == nil && nn ==> wfattc(col(t.nodes,"YMax"), N, S, topLevel(N,S))
  ensures callbacks: err == nil ==> isfunc(t.push, "stackPush") && isfunc(t.pop, "stackPop") && t.fetch == nil
