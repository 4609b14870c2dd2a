// Sorting of results: /repo/packedrtree/packedrtree.go, Results
package packedrtree

func Results.Len(rs) n
  prop C15
  ensures n == len(rs)

func Results.Less(rs, i, j) r
  prop C15
  requires 0 <= i && i < len(rs) && 0 <= j && j < len(rs)
  ensures byoffset: r <==> rs[i].Offset < rs[j].Offset

func Results.Swap(rs, i, j)
  prop C15
  requires 0 <= i && i < len(rs) && 0 <= j && j < len(rs)
  modifies rs[*]
  ensures swapped: rs[i] == old(rs[j]) && rs[j] == old(rs[i])
  ensures others: forall k {rs[k].RefIndex} {rs[k].Offset} :: 0 <= k && k < len(rs) && k != i && k != j ==> rs[k] == old(rs[k])

// package sort: sorting with a strict weak order by Len, Less and Swap
assume func sort.Sort@Results(data)
  returnghost perm ints = 0
  returnghost inv ints = 0
  modifies dyn(data)[*]
  ensures permuted(len(dyn(data)), perm, inv)
  ensures forall k {dyn(data)[k].RefIndex} {dyn(data)[k].Offset} {perm[k]} :: 0 <= k && k < len(dyn(data)) ==> dyn(data)[k] == old(dyn(data)[perm[k]])
  ensures forall k {old(dyn(data)[k].RefIndex)} :: 0 <= k && k < len(dyn(data)) ==> 0 <= inv[k] && inv[k] < len(dyn(data)) && dyn(data)[inv[k]] == old(dyn(data)[k])
  ensures forall i, j {dyn(data)[i].Offset, dyn(data)[j].Offset} :: 0 <= i && i < j && j < len(dyn(data)) ==> dyn(data)[i].Offset <= dyn(data)[j].Offset

// a column of decoded nodes is the column of the bytes they were decoded from
lemma colf(x f64s, a bytes, o int, n int): (forall p {x[p]} :: 0 <= p && p < n ==> x[p] == f64le(a, o + 40*p)) ==> (forall p {fcol(a,o)[p]} {x[p]} :: 0 <= p && p < n ==> fcol(a,o)[p] == x[p])
  prop C15
lemma coli(x ints, a bytes, o int, n int): (forall p {x[p]} :: 0 <= p && p < n ==> x[p] == i64le(a, o + 40*p)) ==> (forall p {icol(a,o)[p]} {x[p]} :: 0 <= p && p < n ==> icol(a,o)[p] == x[p])
  prop C15
