// Searching: /repo/packedrtree/packedrtree.go, ticketBag .. search, Search, Seek
package packedrtree

// qw(s,l): most tickets that one ticket of level l can lead to, itself included
fun qw(int, int) int
axiom qw0 qw: forall s {qw(s,0)} :: qw(s,0) == 1
axiom qwS qw: forall s, l {qw(s,l+1)} :: l >= 0 ==> qw(s,l+1) == 1 + s*qw(s,l)
// sum of qw over the levels L[0..n)
fun qsum(ints, int, int) int
axiom qsum0 qsum: forall L: ints, s {qsum(L,s,0)} :: qsum(L,s,0) == 0
axiom qsumS qsum: forall L: ints, s, n {qsum(L,s,n+1)} :: n >= 0 ==> qsum(L,s,n+1) == qsum(L,s,n) + qw(s,L[n])
lemma qsumstep(L ints, s int, n int): n >= 0 ==> qsum(L,s,n+1) == qsum(L,s,n) + qw(s,L[n])
lemma qsumeq(L ints, M ints, s int, n int): n >= 0 && (forall k {L[k]} {M[k]} :: 0 <= k < n ==> L[k] == M[k]) ==> qsum(L,s,n) == qsum(M,s,n)
  by induction n from 0
  uses qsumstep(L,s,n-1)
  uses qsumstep(M,s,n-1)
  prop C03 C04 C22
lemma qwstep(s int, l int): l >= 0 ==> qw(s,l+1) == 1 + s*qw(s,l)
lemma qwpos(s int, l int): s >= 1 && l >= 0 ==> qw(s,l) >= 1
  by induction l from 0
  uses qwstep(s,l-1)
  uses mulmono(0,qw(s,l-1),s)
  prop C03 C04 C22
lemma qsumpos(L ints, s int, n int): n >= 0 && s >= 1 && (forall k {L[k]} :: 0 <= k < n ==> L[k] >= 0) ==> qsum(L,s,n) >= 0
  by induction n from 0
  uses qsumstep(L,s,n-1)
  uses qwpos(s,L[n-1])
  prop C03 C04 C22

// a level's nodes directly follow those of the level above, leaves are last
lemma finstep(n, ns, l): okparams(n,ns) && 1 <= l && l <= topLevel(n,ns) ==> fin(n,ns,l) == first(n,ns,l-1) && first(n,ns,l-1) <= first(n,ns,0)
  uses levelstep(n,ns,l-1)
  uses isumle(n,ns,0,l-1)
  prop C03 C04 C22

lemma leveldisj(n, ns, l, m): okparams(n,ns) && 0 <= l && l < m && m <= topLevel(n,ns) ==> fin(n,ns,m) <= first(n,ns,l)
  uses finstep(n,ns,m)
  uses isumle(n,ns,l,m-1)
  trigger isum(n,ns,l), isum(n,ns,m)
  auto PackedRTree.Search Seek
  prop C03 C04 C22

func stackPush(tq, t)
  prop C03 C22
  modifies *tq, (*tq)[*]
  ensures longer: len(*tq) == old(len(*tq)) + 1
  ensures last: (*tq)[len(*tq)-1] == t
  ensures others: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} :: 0 <= k < old(len(*tq)) ==> (*tq)[k] == old((*tq)[k])

func stackPop(tq) t
  prop C03 C22
  requires len(*tq) >= 1
  modifies *tq, (*tq)[*]
  ensures shorter: len(*tq) == old(len(*tq)) - 1
  ensures last: t == old((*tq)[len(*tq)-1])
  ensures others: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} :: 0 <= k < len(*tq) ==> (*tq)[k] == old((*tq)[k])

def tickok(q, n, ns) = forall k {q[k].level} :: 0 <= k < len(q) ==> 0 <= q[k].level && q[k].level <= topLevel(n,ns) && first(n,ns,q[k].level) <= q[k].nodeIndex && q[k].nodeIndex < fin(n,ns,q[k].level) && 0 <= q[k].nodeIndex && q[k].nodeIndex < total(n,ns)
def touch(nd, b, p) = !flt(b.XMax, nd[p].XMin) && !flt(b.YMax, nd[p].YMin) && !flt(nd[p].XMax, b.XMin) && !flt(nd[p].YMax, b.YMin)
def resok(r, nd, b, n, ns) = forall k {r[k].RefIndex} {r[k].Offset} :: 0 <= k < len(r) ==> 0 <= r[k].RefIndex && r[k].RefIndex < n && touch(nd, b, first(n,ns,0) + r[k].RefIndex) && r[k].Offset == nd[first(n,ns,0) + r[k].RefIndex].Offset
def treeok(t) = t.nodeSize >= 2 && okparams(t.numRefs, t.nodeSize) && len(t.nodes) == total(t.numRefs, t.nodeSize) && levelsok(t.levels, t.numRefs, t.nodeSize) && childrenok(t.nodes, t.numRefs, t.nodeSize, topLevel(t.numRefs, t.nodeSize)+1) && isfunc(t.push, "stackPush") && isfunc(t.pop, "stackPop") && t.fetch == nil

// blocks of children and their parents
lemma parkid(n, ns, l, p): okparams(n,ns) && 1 <= l && l <= topLevel(n,ns) && first(n,ns,l) <= p && p < fin(n,ns,l) ==> prnt(n,ns,l-1,kid(n,ns,l,p)) == p
  uses divfact((p-first(n,ns,l))*ns, ns)
  prop C03 C04
lemma kidsep(n, ns, l, p, q): okparams(n,ns) && p < q ==> kid(n,ns,l,p) + ns <= kid(n,ns,l,q)
  uses mulmono(p-first(n,ns,l)+1, q-first(n,ns,l), ns)
  prop C03 C04
// the nodes of one block have the same parent
lemma sameblock(n, ns, l, p, c): okparams(n,ns) && 1 <= l && l <= topLevel(n,ns) && first(n,ns,l) <= p && p < fin(n,ns,l) && inblock(n,ns,l,p,c) ==> prnt(n,ns,l-1,c) == p
  uses parrange(n,ns,l-1,c)
  uses kidsep(n,ns,l,p,prnt(n,ns,l-1,c))
  uses kidsep(n,ns,l,prnt(n,ns,l-1,c),p)
  uses finstep(n,ns,l)
  uses kidrange(n,ns,l,p)
  prop C03 C04

lemma sameblk(n, ns, l, m, p, c): okparams(n,ns) && m == l+1 && 1 <= m && m <= topLevel(n,ns) && first(n,ns,m) <= p && p < fin(n,ns,m) && inblock(n,ns,m,p,c) ==> prnt(n,ns,l,c) == p
  uses sameblock(n,ns,m,p,c)
  trigger prnt(n,ns,l,c), kid(n,ns,m,p)
  auto PackedRTree.Search Seek
  prop C03 C04

def touchc(x0, y0, x1, y1, b0, b1, b2, b3, p) = !flt(b2, x0[p]) && !flt(b3, y0[p]) && !flt(x1[p], b0) && !flt(y1[p], b1)
// every node whose ancestors all touch the query is visited
lemma visited(V ints, x0 f64s, y0 f64s, x1 f64s, y1 f64s, b0 f64, b1 f64, b2 f64, b3 f64, n int, ns int, d int): okparams(n,ns) && cwfcov(x0,y0,x1,y1,n,ns) && 0 <= d && d <= topLevel(n,ns) && V[0] != 0 && (forall l, c {prnt(n,ns,l,c)} {V[c], isum(n,ns,l)} :: 0 <= l && l < topLevel(n,ns) && first(n,ns,l) <= c && c < fin(n,ns,l) && V[prnt(n,ns,l,c)] != 0 && touchc(x0,y0,x1,y1,b0,b1,b2,b3,prnt(n,ns,l,c)) ==> V[c] != 0) ==> (forall c {V[c]} {x0[c]} :: first(n,ns,topLevel(n,ns)-d) <= c && c < fin(n,ns,topLevel(n,ns)-d) && touchc(x0,y0,x1,y1,b0,b1,b2,b3,c) ==> V[c] != 0)
  by induction d from 0
  uses base1(n,ns)
  prop C03 C04

// V marks the nodes whose boxes were compared with the query.
// c is a child of node p of level l
def child(n, ns, l, p, c) = 1 <= l && l <= topLevel(n,ns) && first(n,ns,l) <= p && p < fin(n,ns,l) && kid(n,ns,l,p) <= c && c < kid(n,ns,l,p) + ns && c < fin(n,ns,l-1)
// a visited node's parent was visited
def up(V, n, ns) = forall l, p, c {kid(n,ns,l,p), V[c]} :: child(n,ns,l,p,c) && V[c] != 0 ==> V[p] != 0
// tickets are first children of visited nodes, and none of their nodes was visited
def pendup(q, V, n, ns) = forall k {q[k].level} :: 0 <= k < len(q) && q[k].level < topLevel(n,ns) ==> V[prnt(n,ns,q[k].level,q[k].nodeIndex)] != 0
def pendkid(q, n, ns) = forall k {q[k].level} :: 0 <= k < len(q) && q[k].level < topLevel(n,ns) ==> kid(n,ns,q[k].level+1,prnt(n,ns,q[k].level,q[k].nodeIndex)) == q[k].nodeIndex
def pendnew(q, V, n, ns) = forall k, c {q[k].level, V[c]} :: 0 <= k < len(q) && q[k].nodeIndex <= c && c < q[k].nodeIndex + ns && c < fin(n,ns,q[k].level) ==> V[c] == 0
def pendone(q) = forall i, j {q[i].nodeIndex, q[j].nodeIndex} :: 0 <= i && i < j && j < len(q) ==> q[i].nodeIndex != q[j].nodeIndex
// a ticket for node a is in the bag, at position P[a]
def inq(q, P, a) = 0 <= P[a] && P[a] < len(q) && q[P[a]].nodeIndex == a
def inres(r, R, i) = 0 <= R[i] && R[i] < len(r) && r[R[i]].RefIndex == i
def resvis(r, V, n, ns) = forall k {r[k].RefIndex} :: 0 <= k < len(r) ==> V[first(n,ns,0) + r[k].RefIndex] != 0
def resone(r) = forall i, j {r[i].RefIndex, r[j].RefIndex} :: 0 <= i && i < j && j < len(r) ==> r[i].RefIndex != r[j].RefIndex
def found(r, R, V, nd, b, n, ns) = forall c {V[c]} :: first(n,ns,0) <= c && c < total(n,ns) && V[c] != 0 && touch(nd, b, c) ==> inres(r, R, c - first(n,ns,0))
// the children of a visited node that touches the query were visited or wait for it
def down(q, P, V, nd, b, n, ns) = forall l, p, c {kid(n,ns,l,p), V[c]} :: child(n,ns,l,p,c) && V[p] != 0 && touch(nd, b, p) ==> V[c] != 0 || inq(q, P, kid(n,ns,l,p))
def down1(q, P, V, nd, b, n, ns, pos, end) = forall l, p, c {kid(n,ns,l,p), V[c]} :: child(n,ns,l,p,c) && V[p] != 0 && touch(nd, b, p) ==> V[c] != 0 || inq(q, P, kid(n,ns,l,p)) || (pos <= c && c < end)

def inlev(n, ns, l, p) = 1 <= l && l <= topLevel(n,ns) && first(n,ns,l) <= p && p < fin(n,ns,l)
// the blocks of different nodes are disjoint
lemma blocksep(n, ns, l, p, m, q): okparams(n,ns) && inlev(n,ns,l,p) && inlev(n,ns,m,q) ==> (l == m && p == q) || kid(n,ns,l,p) + ns <= kid(n,ns,m,q) || kid(n,ns,m,q) + ns <= kid(n,ns,l,p) || fin(n,ns,l-1) <= kid(n,ns,m,q) || fin(n,ns,m-1) <= kid(n,ns,l,p)
  uses kidsep(n,ns,l,p,q)
  uses kidsep(n,ns,l,q,p)
  uses leveldisj(n,ns,l-1,m-1)
  uses leveldisj(n,ns,m-1,l-1)
  uses kidrange(n,ns,l,p)
  uses kidrange(n,ns,m,q)
  trigger kid(n,ns,l,p), kid(n,ns,m,q)
  auto PackedRTree.Search Seek
  prop C03 C04

func PackedRTree.Search(x, b) r
  prop C03 C22
  omit cntS isumS topdef kiddef pardef qwS qsumS
  requires treeok(x)
  ghost N int = x.numRefs
  ghost S int = x.nodeSize
  ghost T int = topLevel(x.numRefs, x.nodeSize)
  ghost wf bool = wfoff(x.nodes, x.numRefs, x.nodeSize, topLevel(x.numRefs, x.nodeSize))
  ghost V ints = zeros
  ghost P ints = zeros
  ghost R ints = zeros
  ghost QL ints = store(zeros, 0, topLevel(x.numRefs, x.nodeSize))
  ghost PL ints = zeros
  ghost c int = 0
  ghost base int = 0
  apply base1(N, S)
  apply infin(N, S, 0)
  apply finstep(N, S, t.level)
  apply infin(N, S, t.level)
  apply infin(N, S, t.level-1)
  apply qsumstep(QL, S, len(q)-1)
  apply qsumpos(QL, S, len(q))
  apply qsumeq(PL, QL, S, len(q)-1)
  apply qsumeq(PL, QL, S, len(q))
  apply qwstep(S, t.level-1)
  apply qwpos(S, t.level-1)
  apply qwpos(S, t.level)
  apply mulmono(c, S, qw(S, t.level-1))
  apply parkid(N, S, t.level, pos-1)
  loop search 0
    invariant some: len(q) >= 1 && c == 0 && base == qsum(QL, S, len(q)-1)
    invariant tick: tickok(q, N, S)
    invariant sound: resok(r, x.nodes, b, N, S)
    invariant levels: forall k {QL[k]} {q[k].level} :: 0 <= k < len(q) ==> QL[k] == q[k].level
    invariant up: wf ==> up(V, N, S)
    invariant pendup: wf ==> pendup(q, V, N, S)
    invariant pendkid: wf ==> pendkid(q, N, S)
    invariant pendnew: wf ==> pendnew(q, V, N, S)
    invariant pendone: wf ==> pendone(q)
    invariant resvis: wf ==> resvis(r, V, N, S)
    invariant resone: wf ==> resone(r)
    invariant root: V[0] == 0 ==> len(q) == 1 && q[0].nodeIndex == 0
    invariant down: wf ==> down(q, P, V, x.nodes, b, N, S)
    invariant found: wf ==> found(r, R, V, x.nodes, b, N, S)
    ghost c = 0
    ghost base = qsum(QL, S, len(q)-1)
    decreases qsum(QL, S, len(q))
  loop search 1
    invariant pos: t.nodeIndex <= pos && pos <= end && end <= fin(N, S, t.level) && end <= t.nodeIndex + S
    invariant lev: 0 <= t.level && t.level <= T && (isLeafLevel <==> t.level == 0) && first(N, S, t.level) <= t.nodeIndex && t.nodeIndex < fin(N, S, t.level)
    invariant tick: tickok(q, N, S)
    invariant sound: resok(r, x.nodes, b, N, S)
    invariant levels: forall k {QL[k]} {q[k].level} :: 0 <= k < len(q) ==> QL[k] == q[k].level
    invariant count: 0 <= c && c <= pos - t.nodeIndex && (t.level == 0 ==> c == 0)
    invariant budget: qsum(QL, S, len(q)) == base + (if t.level == 0 then 0 else c*qw(S, t.level-1))
    invariant ends: end == t.nodeIndex + S || end == fin(N, S, t.level)
    invariant block: wf && t.level < T ==> V[prnt(N,S,t.level,t.nodeIndex)] != 0 && kid(N,S,t.level+1,prnt(N,S,t.level,t.nodeIndex)) == t.nodeIndex
    invariant todo: wf ==> (forall a {V[a]} :: pos <= a && a < end ==> V[a] == 0)
    invariant seen: forall a {V[a]} :: t.nodeIndex <= a && a < pos ==> V[a] != 0
    invariant up: wf ==> up(V, N, S)
    invariant pendup: wf ==> pendup(q, V, N, S)
    invariant pendkid: wf ==> pendkid(q, N, S)
    invariant pendnew: wf ==> pendnew(q, V, N, S)
    invariant pendone: wf ==> pendone(q)
    invariant pendother: wf ==> (forall k {q[k].nodeIndex} :: 0 <= k < len(q) ==> q[k].nodeIndex != t.nodeIndex)
    invariant apart: wf ==> (forall k {q[k].level} :: 0 <= k < len(q) ==> q[k].nodeIndex + S <= t.nodeIndex || end <= q[k].nodeIndex || fin(N,S,q[k].level) <= t.nodeIndex)
    invariant freshkid: wf && t.level >= 1 ==> (forall k, a {q[k].nodeIndex, kid(N,S,t.level,a)} :: 0 <= k < len(q) && pos <= a && a < end ==> q[k].nodeIndex != kid(N,S,t.level,a))
    invariant freshblock: wf && t.level >= 1 ==> (forall a, c {kid(N,S,t.level,a), V[c]} :: pos <= a && a < end && kid(N,S,t.level,a) <= c && c < kid(N,S,t.level,a) + S && c < fin(N,S,t.level-1) ==> V[c] == 0)
    invariant resvis: wf ==> resvis(r, V, N, S)
    invariant resone: wf ==> resone(r)
    invariant root: V[0] == 0 ==> len(q) == 0 && t.nodeIndex == 0 && pos == 0
    invariant down: wf ==> down1(q, P, V, x.nodes, b, N, S, pos, end)
    invariant found: wf ==> found(r, R, V, x.nodes, b, N, S)
    ghost PL = QL
    ghost QL = col(q, "level")
    ghost P = if len(q) > iter(len(q)) then store(P, q[len(q)-1].nodeIndex, len(q)-1) else P
    ghost R = if len(r) > iter(len(r)) then store(R, r[len(r)-1].RefIndex, len(r)-1) else R
    ghost c = c + len(q) - iter(len(q))
    ghost V = store(V, pos-1, 1)
  apply visited(V, col(x.nodes,"XMin"), col(x.nodes,"YMin"), col(x.nodes,"XMax"), col(x.nodes,"YMax"), b.XMin, b.YMin, b.XMax, b.YMax, N, S, T)
  ensures sound: resok(r, x.nodes, b, x.numRefs, x.nodeSize)
  ensures unique: wfoff(x.nodes, x.numRefs, x.nodeSize, topLevel(x.numRefs, x.nodeSize)) ==> resone(r)
  ensures complete: wfoff(x.nodes, x.numRefs, x.nodeSize, topLevel(x.numRefs, x.nodeSize)) && cwfcov(col(x.nodes,"XMin"), col(x.nodes,"YMin"), col(x.nodes,"XMax"), col(x.nodes,"YMax"), x.numRefs, x.nodeSize) ==> (forall p {x.nodes[p].Offset} {x.nodes[p].XMin} :: first(x.numRefs,x.nodeSize,0) <= p && p < total(x.numRefs,x.nodeSize) && touch(x.nodes, b, p) ==> (exists k {r[k].RefIndex} :: 0 <= k < len(r) && r[k].RefIndex == p - first(x.numRefs,x.nodeSize,0)))
