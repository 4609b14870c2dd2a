// Streaming search: /repo/packedrtree/packedrtree.go, heapPush, heapPop, Seek.
// The code of container/heap is executed with ticketBag's own methods.
package packedrtree

fun ident(int) ints
axiom identdef ident: forall n, k {ident(n)[k]} :: ident(n)[k] == k
// parent in a binary heap
fun hpar(int) int
axiom hpardef hpar: forall k {hpar(k)} :: k >= 1 ==> hpar(k) == udiv(k-1, 2)
lemma hparfact(k): k >= 1 ==> hpar(k) == udiv(k-1, 2) && 0 <= hpar(k) && hpar(k) < k && (k == 2*hpar(k)+1 || k == 2*hpar(k)+2)
  uses divfact(k-1, 2)
  prop C04
lemma hparuniq(k, p): k >= 1 && 0 <= p && (k == 2*p+1 || k == 2*p+2) ==> hpar(k) == p
  uses divfact(k-1, 2)
  prop C04
lemma hparle(k): k >= 1 ==> 0 <= hpar(k) && hpar(k) < k && (k == 2*hpar(k)+1 || k == 2*hpar(k)+2)
  uses hparfact(k)
  trigger hpar(k)
  auto heapPush heapPop rootmin
  prop C04
def heapord(X, n) = forall k {hpar(k)} :: 1 <= k && k < n ==> X[hpar(k)] <= X[k]
lemma rootmin(X ints, n int, m int): 0 <= m && m < n && heapord(X, n) ==> (forall k {X[k]} :: 0 <= k && k <= m ==> X[0] <= X[k])
  by induction m from 0
  uses hparfact(m)
  prop C04
// replacing one ticket
lemma qsumupd(L ints, i int, v int, s int, n int): n >= 0 && i >= 0 ==> qsum(store(L,i,v),s,n) == qsum(L,s,n) + (if i < n then qw(s,v) - qw(s,L[i]) else 0)
  by induction n from 0
  uses qsumstep(L,s,n-1)
  uses qsumstep(store(L,i,v),s,n-1)
  trigger qsum(store(L,i,v),s,n)
  auto heapPush heapPop
  prop C04

lemma qsumeqa(L ints, M ints, s int, n int): n >= 0 && (forall k {L[k]} {M[k]} :: 0 <= k < n ==> L[k] == M[k]) ==> qsum(L,s,n) == qsum(M,s,n)
  uses qsumeq(L,M,s,n)
  trigger qsum(L,s,n), qsum(M,s,n)
  auto heapPush heapPop
  prop C04
lemma qsumpop(L ints, M ints, s int, n int, m int): n >= 0 && m == n+1 && (forall k {L[k]} {M[k]} :: 0 <= k < n ==> L[k] == M[k]) ==> qsum(M,s,m) == qsum(L,s,n) + qw(s,M[n])
  uses qsumeq(L,M,s,n)
  uses qsumstep(M,s,n)
  trigger qsum(L,s,n), qsum(M,s,m)
  auto heapPush heapPop
  prop C04
def permok(M, W, n) = (forall k {M[k]} :: 0 <= k && k < n ==> 0 <= M[k] && M[k] < n && W[M[k]] == k) && (forall k {W[k]} :: 0 <= k && k < n ==> 0 <= W[k] && W[k] < n && M[W[k]] == k)

// M: old position of the ticket now at k; W: new position of the ticket then at k
func heapPush(tq, t)
  prop C04 C22
  requires order: heapord(col(*tq,"nodeIndex"), len(*tq))
  modifies *tq, (*tq)[*]
  ghost N int = len(*tq)
  ghost M ints = ident(0)
  ghost W ints = ident(0)
  returnghost M ints = M
  returnghost W ints = W
  apply hparfact(j)
  loop up 0
    invariant range: 0 <= j && j < len(*tq) && len(*tq) == N + 1
    invariant perm: permok(M, W, N+1)
    invariant content: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} {M[k]} :: 0 <= k && k <= N ==> (if M[k] == N then (*tq)[k] == t else (*tq)[k].nodeIndex == old(col(*tq,"nodeIndex"))[M[k]] && (*tq)[k].level == old(col(*tq,"level"))[M[k]])
    invariant order: forall k {hpar(k)} :: 1 <= k && k <= N && k != j ==> (*tq)[hpar(k)].nodeIndex <= (*tq)[k].nodeIndex
    invariant skip: forall k {hpar(k)} :: 1 <= k && k <= N && hpar(k) == j && j >= 1 ==> (*tq)[hpar(j)].nodeIndex <= (*tq)[k].nodeIndex
    invariant weight: forall s {qsum(col(*tq,"level"),s,N+1)} :: qsum(col(*tq,"level"),s,N+1) == qsum(old(col(*tq,"level")),s,N) + qw(s,t.level)
    ghost W = store(store(W, M[j], iter(j)), M[iter(j)], j)
    ghost M = store(store(M, j, M[iter(j)]), iter(j), M[j])
    decreases j
  ensures len: len(*tq) == old(len(*tq)) + 1
  ensures perm: permok(M, W, len(*tq))
  ensures content: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} {M[k]} :: 0 <= k && k < len(*tq) ==> (if M[k] == old(len(*tq)) then (*tq)[k] == t else (*tq)[k].nodeIndex == old(col(*tq,"nodeIndex"))[M[k]] && (*tq)[k].level == old(col(*tq,"level"))[M[k]])
  ensures kept: forall k {old(col(*tq,"nodeIndex"))[k]} {old(col(*tq,"level"))[k]} :: 0 <= k && k < old(len(*tq)) ==> 0 <= W[k] && W[k] < len(*tq) && (*tq)[W[k]].nodeIndex == old(col(*tq,"nodeIndex"))[k] && (*tq)[W[k]].level == old(col(*tq,"level"))[k]
  ensures pushed: 0 <= W[old(len(*tq))] && W[old(len(*tq))] < len(*tq) && (*tq)[W[old(len(*tq))]] == t
  ensures order: heapord(col(*tq,"nodeIndex"), len(*tq))
  ensures weight: forall s {qsum(col(*tq,"level"),s,len(*tq))} :: qsum(col(*tq,"level"),s,len(*tq)) == old(qsum(col(*tq,"level"),s,len(*tq))) + qw(s,t.level)

func heapPop(tq) t
  prop C04 C22
  requires order: heapord(col(*tq,"nodeIndex"), len(*tq))
  requires some: len(*tq) >= 1
  modifies *tq, (*tq)[*]
  ghost N int = len(*tq) - 1
  ghost X ints = col(*tq,"nodeIndex")
  ghost M ints = store(store(ident(0), 0, len(*tq)-1), len(*tq)-1, 0)
  ghost W ints = store(store(ident(0), 0, len(*tq)-1), len(*tq)-1, 0)
  returnghost M ints = M
  returnghost W ints = W
  apply rootmin(X, N+1, N)
  apply hparuniq(2*i+1, i)
  apply hparuniq(2*i+2, i)
  apply hparfact(i)
  loop down 0
    invariant range: 0 <= i && (i < len(*tq) - 1 || i == 0) && len(*tq) == N + 1 && n == N
    invariant perm: permok(M, W, N+1)
    invariant last: M[N] == 0
    invariant content: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} {M[k]} :: 0 <= k && k <= N ==> (*tq)[k].nodeIndex == X[M[k]] && (*tq)[k].level == old(col(*tq,"level"))[M[k]]
    invariant order: forall k {hpar(k)} :: 1 <= k && k < N && hpar(k) != i ==> (*tq)[hpar(k)].nodeIndex <= (*tq)[k].nodeIndex
    invariant skip: forall k {hpar(k)} :: 1 <= k && k < N && hpar(k) == i && i >= 1 ==> (*tq)[hpar(i)].nodeIndex <= (*tq)[k].nodeIndex
    invariant weight: forall s {qsum(col(*tq,"level"),s,N+1)} {qsum(old(col(*tq,"level")),s,N+1)} :: qsum(col(*tq,"level"),s,N+1) == qsum(old(col(*tq,"level")),s,N+1)
    ghost W = store(store(W, M[i], iter(i)), M[iter(i)], i)
    ghost M = store(store(M, i, M[iter(i)]), iter(i), M[i])
    decreases N - i
  ensures len: len(*tq) == old(len(*tq)) - 1
  ensures perm: permok(M, W, len(*tq)+1)
  ensures popped: M[len(*tq)] == 0 && t.nodeIndex == old(col(*tq,"nodeIndex"))[0] && t.level == old(col(*tq,"level"))[0]
  ensures content: forall k {(*tq)[k].nodeIndex} {(*tq)[k].level} {M[k]} :: 0 <= k && k < len(*tq) ==> (*tq)[k].nodeIndex == old(col(*tq,"nodeIndex"))[M[k]] && (*tq)[k].level == old(col(*tq,"level"))[M[k]]
  ensures kept: forall k {old(col(*tq,"nodeIndex"))[k]} {old(col(*tq,"level"))[k]} :: 1 <= k && k <= len(*tq) ==> 0 <= W[k] && W[k] < len(*tq) && (*tq)[W[k]].nodeIndex == old(col(*tq,"nodeIndex"))[k] && (*tq)[W[k]].level == old(col(*tq,"level"))[k]
  ensures order: heapord(col(*tq,"nodeIndex"), len(*tq))
  ensures min: forall k {(*tq)[k].nodeIndex} :: 0 <= k && k < len(*tq) ==> t.nodeIndex <= (*tq)[k].nodeIndex
  ensures weight: forall s {qsum(col(*tq,"level"),s,len(*tq))} :: qsum(col(*tq,"level"),s,len(*tq)) + qw(s,t.level) == old(qsum(col(*tq,"level"),s,len(*tq)))

// the columns of the nodes stored from byte o of a stream
fun fcol(bytes, int) f64s
axiom fcoldef fcol: forall a: bytes, o, p {fcol(a,o)[p]} :: fcol(a,o)[p] == f64le(a, o + 40*p)
fun icol(bytes, int) ints
axiom icoldef icol: forall a: bytes, o, p {icol(a,o)[p]} :: icol(a,o)[p] == i64le(a, o + 40*p)

def cwfoff(F, n, ns) = forall l, p {kid(n,ns,l,p)} :: 1 <= l && l <= topLevel(n,ns) && first(n,ns,l) <= p && p < fin(n,ns,l) ==> F[p] == kid(n,ns,l,p)
def touchx(X0, Y0, X1, Y1, b, p) = !flt(b.XMax, X0[p]) && !flt(b.YMax, Y0[p]) && !flt(X1[p], b.XMin) && !flt(Y1[p], b.YMin)
def cresok(r, X0, Y0, X1, Y1, F, b, n, ns) = forall k {r[k].RefIndex} {r[k].Offset} :: 0 <= k < len(r) ==> 0 <= r[k].RefIndex && r[k].RefIndex < n && touchx(X0,Y0,X1,Y1,b,first(n,ns,0)+r[k].RefIndex) && r[k].Offset == F[first(n,ns,0)+r[k].RefIndex]
def ascend(r) = forall i, j {r[i].RefIndex, r[j].RefIndex} :: 0 <= i && i < j && j < len(r) ==> r[i].RefIndex < r[j].RefIndex
def below(r, d) = forall k {r[k].RefIndex} :: 0 <= k < len(r) ==> r[k].RefIndex < d
def inbag(q, a) = exists k {q[k].nodeIndex} :: 0 <= k && k < len(q) && q[k].nodeIndex == a
def pendpar(q, n, ns, d) = forall k {q[k].level} :: 0 <= k < len(q) && q[k].level < topLevel(n,ns) ==> prnt(n,ns,q[k].level,q[k].nodeIndex) < d && kid(n,ns,q[k].level+1,prnt(n,ns,q[k].level,q[k].nodeIndex)) == q[k].nodeIndex
def pendall(q) = forall i, j {q[i].nodeIndex, q[j].nodeIndex} :: 0 <= i && i < len(q) && 0 <= j && j < len(q) && i != j ==> q[i].nodeIndex != q[j].nodeIndex
def ahead(q, d) = forall k {q[k].nodeIndex} :: 0 <= k < len(q) ==> d <= q[k].nodeIndex
def cfound(r, R, V, X0, Y0, X1, Y1, b, n, ns) = forall c {V[c]} :: first(n,ns,0) <= c && c < total(n,ns) && V[c] != 0 && touchx(X0,Y0,X1,Y1,b,c) ==> inres(r, R, c - first(n,ns,0))
def cdown(q, V, X0, Y0, X1, Y1, b, n, ns) = forall l, p, c {kid(n,ns,l,p), V[c]} :: child(n,ns,l,p,c) && V[p] != 0 && touchx(X0,Y0,X1,Y1,b,p) ==> V[c] != 0 || inbag(q, kid(n,ns,l,p))
def cdown1(q, V, X0, Y0, X1, Y1, b, n, ns, pos, end) = forall l, p, c {kid(n,ns,l,p), V[c]} :: child(n,ns,l,p,c) && V[p] != 0 && touchx(X0,Y0,X1,Y1,b,p) ==> V[c] != 0 || inbag(q, kid(n,ns,l,p)) || (pos <= c && c < end)
// the nodes of a fetched block
def fetched(nd, X0, Y0, X1, Y1, F, i, j) = forall p {nd[p].XMin} {nd[p].YMin} {nd[p].XMax} {nd[p].YMax} {nd[p].Offset} :: i <= p && p < j ==> nd[p].XMin == X0[p] && nd[p].YMin == Y0[p] && nd[p].XMax == X1[p] && nd[p].YMax == Y1[p] && nd[p].Offset == F[p]

// the columns of an index stored from byte o
def SX0(rs, o) = fcol(content(rs), o)
def SY0(rs, o) = fcol(content(rs), o+8)
def SX1(rs, o) = fcol(content(rs), o+16)
def SY1(rs, o) = fcol(content(rs), o+24)
def SF(rs, o) = icol(content(rs), o+32)

func Seek(rs, numRefs, nodeSize, b) r, err
  prop C04 C22
  panicsmay rs == nil || numRefs < 1 || nodeSize < 2
  modifies pos(rs)
  omit cntS isumS topdef kiddef pardef qwS qsumS
  ghost N int = numRefs
  ghost S int = nodeSize
  ghost T int = topLevel(numRefs, nodeSize)
  ghost X0 f64s = fcol(content(rs), pos(rs))
  ghost Y0 f64s = fcol(content(rs), pos(rs)+8)
  ghost X1 f64s = fcol(content(rs), pos(rs)+16)
  ghost Y1 f64s = fcol(content(rs), pos(rs)+24)
  ghost F ints = icol(content(rs), pos(rs)+32)
  ghost B int = pos(rs)
  ghost wf bool = cwfoff(icol(content(rs), pos(rs)+32), numRefs, nodeSize)
  ghost V ints = zeros
  ghost R ints = zeros
  ghost c int = 0
  ghost base int = 0
  ghost D int = 0
  apply base1(N, S)
  apply infin(N, S, 0)
  apply finstep(N, S, t.level)
  apply infin(N, S, t.level)
  apply infin(N, S, t.level-1)
  apply qsumstep(col(q,"level"), S, 0)
  apply qsumpos(col(q,"level"), S, len(q))
  apply qwstep(S, t.level-1)
  apply qwpos(S, t.level-1)
  apply qwpos(S, t.level)
  apply mulmono(c, S, qw(S, t.level-1))
  apply parkid(N, S, t.level, pos-1)
  loop search 0
    invariant some: len(q) >= 1 && c == 0 && base + qw(S, q[0].level) == qsum(col(q,"level"), S, len(q))
    invariant stream: offset == pos(rs) && startOffset == B
    invariant tick: tickok(q, N, S)
    invariant order: heapord(col(q,"nodeIndex"), len(q))
    invariant sound: cresok(r, X0, Y0, X1, Y1, F, b, N, S)
    invariant pendpar: wf ==> pendpar(q, N, S, D)
    invariant pendone: wf ==> pendall(q)
    invariant ahead: wf ==> ahead(q, D) && 0 <= D
    invariant below: wf ==> below(r, D - first(N,S,0))
    invariant ascend: wf ==> ascend(r)
    invariant root: V[0] == 0 ==> len(q) == 1 && q[0].nodeIndex == 0
    invariant down: wf ==> cdown(q, V, X0, Y0, X1, Y1, b, N, S)
    invariant found: wf ==> cfound(r, R, V, X0, Y0, X1, Y1, b, N, S)
    ghost c = 0
    ghost base = qsum(col(q,"level"), S, len(q)) - qw(S, q[0].level)
    ghost D = end
    decreases qsum(col(q,"level"), S, len(q))
  loop search 1
    invariant pos: t.nodeIndex <= pos && pos <= end && end <= fin(N, S, t.level) && end <= t.nodeIndex + S
    invariant stream: offset == pos(rs) && startOffset == B
    invariant fetched: fetched(prt.nodes, X0, Y0, X1, Y1, F, t.nodeIndex, end)
    invariant lev: 0 <= t.level && t.level <= T && (isLeafLevel <==> t.level == 0) && first(N, S, t.level) <= t.nodeIndex && t.nodeIndex < fin(N, S, t.level)
    invariant tick: tickok(q, N, S)
    invariant order: heapord(col(q,"nodeIndex"), len(q))
    invariant sound: cresok(r, X0, Y0, X1, Y1, F, b, N, S)
    invariant count: 0 <= c && c <= pos - t.nodeIndex && (t.level == 0 ==> c == 0)
    invariant budget: qsum(col(q,"level"), S, len(q)) == base + (if t.level == 0 then 0 else c*qw(S, t.level-1))
    invariant ends: end == t.nodeIndex + S || end == fin(N, S, t.level)
    invariant seen: forall a {V[a]} :: t.nodeIndex <= a && a < pos ==> V[a] != 0
    invariant pendpar: wf ==> pendpar(q, N, S, pos)
    invariant pendone: wf ==> pendall(q)
    invariant ahead: wf ==> ahead(q, end)
    invariant below: wf ==> below(r, pos - first(N,S,0))
    invariant ascend: wf ==> ascend(r)
    invariant root: V[0] == 0 ==> len(q) == 0 && t.nodeIndex == 0 && pos == 0
    invariant down: wf ==> cdown1(q, V, X0, Y0, X1, Y1, b, N, S, pos, end)
    invariant found: wf ==> cfound(r, R, V, X0, Y0, X1, Y1, b, N, S)
    ghost R = if len(r) > iter(len(r)) then store(R, r[len(r)-1].RefIndex, len(r)-1) else R
    ghost c = c + len(q) - iter(len(q))
    ghost V = store(V, pos-1, 1)
  apply visited(V, X0, Y0, X1, Y1, b.XMin, b.YMin, b.XMax, b.YMax, N, S, T)
  ensures valid: rs != nil && (err == nil ==> 1 <= numRefs && 2 <= nodeSize)
  ensures params: err == nil ==> okparams(numRefs, nodeSize)
  ensures none: err != nil ==> len(r) == 0
  ensures sound: err == nil ==> cresok(r, SX0(rs,old(pos(rs))), SY0(rs,old(pos(rs))), SX1(rs,old(pos(rs))), SY1(rs,old(pos(rs))), SF(rs,old(pos(rs))), b, numRefs, nodeSize)
  ensures ascending: err == nil && cwfoff(SF(rs,old(pos(rs))), numRefs, nodeSize) ==> ascend(r)
  ensures complete: err == nil && cwfoff(SF(rs,old(pos(rs))), numRefs, nodeSize) && cwfcov(SX0(rs,old(pos(rs))), SY0(rs,old(pos(rs))), SX1(rs,old(pos(rs))), SY1(rs,old(pos(rs))), numRefs, nodeSize) ==> (forall p {SF(rs,old(pos(rs)))[p]} {SX0(rs,old(pos(rs)))[p]} :: first(numRefs,nodeSize,0) <= p && p < total(numRefs,nodeSize) && touchx(SX0(rs,old(pos(rs))), SY0(rs,old(pos(rs))), SX1(rs,old(pos(rs))), SY1(rs,old(pos(rs))),b,p) ==> (exists k {r[k].RefIndex} :: 0 <= k < len(r) && r[k].RefIndex == p - first(numRefs,nodeSize,0)))
  ensures atdata: err == nil ==> pos(rs) == old(pos(rs)) + 40*total(numRefs,nodeSize) && 40*total(numRefs,nodeSize) <= maxint()
  ensures overflow: 40*total(numRefs, nodeSize) > maxint() ==> err != nil
  ensures healthyok: healthy(rs) && old(pos(rs)) + 40*total(numRefs,nodeSize) <= maxint() && old(pos(rs)) + 40*total(numRefs,nodeSize) <= endpos(rs) && childrenat(content(rs), old(pos(rs)), numRefs, nodeSize) ==> err == nil
