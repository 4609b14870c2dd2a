// HilbertSort: /repo/packedrtree/hilbert.go
package packedrtree

// position of the center of a box, scaled to 0..65535 on both axes
def midOf(a, b) = fdiv(fadd(a, b), flit(2))
def scaled(m, e, w) = if feq(w, flit(0)) then 0 else f2u32(ffloor(fmul(flit(65535), fdiv(fsub(m, e), w))))
def hpos(x0, y0, x1, y1, ex, ey, ew, eh) = fnval("packedrtree.hilbertOfXY", scaled(midOf(x0,x1), ex, ew), scaled(midOf(y0,y1), ey, eh))
def hposb(b, ex, ey, ew, eh) = hpos(b.XMin, b.YMin, b.XMax, b.YMax, ex, ey, ew, eh)

func hilbertOfCenter(b, ex, ey, ew, eh) h
  prop C07
  ensures position: h == hposb(*b, ex, ey, ew, eh)
  ensures range: 0 <= h <= 4294967295

func hilbertSortable.Len(hs) n
  prop C07
  ensures n == len(hs.refs)

def hless(hs, i, j) = hposb(hs.refs[i], hs.x, hs.y, hs.w, hs.h) > hposb(hs.refs[j], hs.x, hs.y, hs.w, hs.h)

func hilbertSortable.Less(hs, i, j) r
  prop C07
  requires 0 <= i < len(hs.refs) && 0 <= j < len(hs.refs)
  ensures descending: r <==> hless(hs, i, j)

func hilbertSortable.Swap(hs, i, j)
  prop C07
  requires 0 <= i < len(hs.refs) && 0 <= j < len(hs.refs)
  modifies hs.refs[*]
  ensures swapped: hs.refs[i] == old(hs.refs[j]) && hs.refs[j] == old(hs.refs[i])
  ensures others: forall k {hs.refs[k].XMin} {hs.refs[k].Offset} :: 0 <= k < len(hs.refs) && k != i && k != j ==> hs.refs[k] == old(hs.refs[k])

// the comparison is a strict weak order, whatever the coordinates (NaN too)
lemma hweak(a, b, c): !(a > a) && (a > b ==> !(b > a)) && (a > b && b > c ==> a > c) && (!(a > b) && !(b > a) && !(b > c) && !(c > b) ==> !(a > c) && !(c > a))
  prop C07

def permuted(n, perm, inv) = (forall k {perm[k]} :: 0 <= k < n ==> 0 <= perm[k] < n && inv[perm[k]] == k) && (forall k {inv[k]} :: 0 <= k < n ==> 0 <= inv[k] < n && perm[inv[k]] == k)

// package sort: sorting with a strict weak order by Len, Less and Swap
assume func sort.Sort@hilbertSortable(data)
  returnghost perm ints = 0
  returnghost inv ints = 0
  modifies dyn(data).refs[*]
  ensures permuted(len(dyn(data).refs), perm, inv)
  ensures forall k {dyn(data).refs[k].XMin} {dyn(data).refs[k].Offset} {perm[k]} :: 0 <= k < len(dyn(data).refs) ==> dyn(data).refs[k] == old(dyn(data).refs[perm[k]])
  ensures forall i, j {dyn(data).refs[i].XMin, dyn(data).refs[j].XMin} :: 0 <= i < j < len(dyn(data).refs) ==> !hless(dyn(data), j, i)

func HilbertSort(refs, bounds)
  prop C07
  returnghost p ints = last(perm)
  returnghost v ints = last(inv)
  modifies refs[*]
  ensures permutation: permuted(len(refs), p, v)
  ensures contents: forall k {refs[k].XMin} {refs[k].Offset} :: 0 <= k < len(refs) ==> refs[k] == old(refs[p[k]])
  ensures descending: forall i, j {refs[i].XMin, refs[j].XMin} :: 0 <= i < j < len(refs) ==> hposb(refs[i], bounds.XMin, bounds.YMin, fsub(bounds.XMax, bounds.XMin), fsub(bounds.YMax, bounds.YMin)) >= hposb(refs[j], bounds.XMin, bounds.YMin, fsub(bounds.XMax, bounds.XMin), fsub(bounds.YMax, bounds.YMin))
