// Parents, the root's box, and the accessors of the tree
package packedrtree

// prnt(n,ns,l,p): parent of node p of level l
fun prnt(int, int, int, int) int
axiom pardef prnt: forall n, ns, l, p {prnt(n,ns,l,p)} :: prnt(n,ns,l,p) == first(n,ns,l+1) + udiv(p - first(n,ns,l), ns)
lemma parrange(n, ns, l, p): okparams(n,ns) && 0 <= l < topLevel(n,ns) && first(n,ns,l) <= p < fin(n,ns,l) ==> first(n,ns,l+1) <= prnt(n,ns,l,p) < fin(n,ns,l+1) && inblock(n,ns,l+1,prnt(n,ns,l,p),p)
  uses levelstep(n,ns,l)
  uses divfact(p-first(n,ns,l), ns)
  uses kidrange(n,ns,l+1,prnt(n,ns,l,p))
  trigger prnt(n,ns,l,p)
  auto

lemma infin(n, ns, l): okparams(n,ns) && 0 <= l <= topLevel(n,ns) ==> fin(n,ns,l) <= total(n,ns) && first(n,ns,l) >= 0
  uses levelstep(n,ns,l-1)

def ccov(x0, y0, x1, y1, p, c) = fle(x0[p], x0[c]) && fle(y0[p], y0[c]) && fle(x1[c], x1[p]) && fle(y1[c], y1[p])
def cwfcov(x0, y0, x1, y1, n, ns) = forall l, p, c {kid(n,ns,l,p), x0[c]} :: 1 <= l <= topLevel(n,ns) && first(n,ns,l) <= p < fin(n,ns,l) && inblock(n,ns,l,p,c) ==> ccov(x0,y0,x1,y1,p,c)
def cnonnan(x0, y0, x1, y1, n, ns) = forall p {x0[p]} :: 0 <= p < total(n,ns) ==> !nan(x0[p]) && !nan(y0[p]) && !nan(x1[p]) && !nan(y1[p])
lemma base1(n, ns): okparams(n,ns) ==> first(n,ns,topLevel(n,ns)) == 0 && fin(n,ns,topLevel(n,ns)) == 1
// the root covers every node
lemma rootcov(n, ns, x0: f64s, y0: f64s, x1: f64s, y1: f64s, d, p): okparams(n,ns) && cwfcov(x0,y0,x1,y1,n,ns) && cnonnan(x0,y0,x1,y1,n,ns) && 0 <= d <= topLevel(n,ns) && first(n,ns,topLevel(n,ns)-d) <= p < fin(n,ns,topLevel(n,ns)-d) ==> ccov(x0,y0,x1,y1,0,p)
  by induction d from 0
  uses base1(n,ns)
  uses parrange(n,ns,topLevel(n,ns)-d,p)
  uses rootcov(n,ns,x0,y0,x1,y1,d-1,prnt(n,ns,topLevel(n,ns)-d,p))
  uses infin(n,ns,topLevel(n,ns)-d)
  uses infin(n,ns,topLevel(n,ns)-d+1)
  uses isumtop(n,ns,topLevel(n,ns)-d+1)
  prop C02

def catt(x0, n, ns) = forall l, p {kid(n,ns,l,p)} :: 1 <= l <= topLevel(n,ns) && first(n,ns,l) <= p < fin(n,ns,l) ==> (exists c {x0[c]} :: inblock(n,ns,l,p,c) && rank(x0[p]) == rank(x0[c]))
// a bound of the root is the bound of some node on every level, leaves included
lemma rootatt(n, ns, x0: f64s, d): okparams(n,ns) && catt(x0,n,ns) && 0 <= d <= topLevel(n,ns) ==> (exists p {x0[p]} :: first(n,ns,topLevel(n,ns)-d) <= p < fin(n,ns,topLevel(n,ns)-d) && rank(x0[p]) == rank(x0[0]))
  by induction d from 0
  uses base1(n,ns)
  uses isumtop(n,ns,topLevel(n,ns)-d+1)
  uses infin(n,ns,topLevel(n,ns)-d+1)
  prop C02

func PackedRTree.Bounds(t) b
  prop C02
  requires len(t.nodes) >= 1
  ensures root: b == t.nodes[0].Box
func PackedRTree.NumRefs(t) n
  prop C02
  ensures n == t.numRefs
func PackedRTree.NodeSize(t) n
  prop C02
  requires 0 <= t.nodeSize <= 65535
  ensures n == t.nodeSize
