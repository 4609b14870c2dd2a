// Index search on a file: /repo/flatgeobuf/file_reader.go, IndexSearch
package flatgeobuf

// the same columns, read from the stream and decoded
lemma offtrans(x ints, F ints, n int, ns int): okparams(n,ns) && (forall p {F[p]} {x[p]} :: 0 <= p && p < total(n,ns) ==> F[p] == x[p]) && cwfoff(F,n,ns) ==> cwfoff(x,n,ns)
  prop C15
lemma infina(n, ns, l): okparams(n,ns) && 0 <= l && l <= topLevel(n,ns) ==> 0 <= first(n,ns,l) && fin(n,ns,l) <= total(n,ns)
  uses infin(n,ns,l)
  trigger isum(n,ns,l)
  auto covtrans
  prop C15
lemma covtrans(x0 f64s, y0 f64s, x1 f64s, y1 f64s, X0 f64s, Y0 f64s, X1 f64s, Y1 f64s, n int, ns int): okparams(n,ns) && (forall p {X0[p]} {x0[p]} :: 0 <= p && p < total(n,ns) ==> X0[p] == x0[p]) && (forall p {Y0[p]} {y0[p]} :: 0 <= p && p < total(n,ns) ==> Y0[p] == y0[p]) && (forall p {X1[p]} {x1[p]} :: 0 <= p && p < total(n,ns) ==> X1[p] == x1[p]) && (forall p {Y1[p]} {y1[p]} :: 0 <= p && p < total(n,ns) ==> Y1[p] == y1[p]) && cwfcov(X0,Y0,X1,Y1,n,ns) ==> cwfcov(x0,y0,x1,y1,n,ns)
  prop C15

func FileReader.IndexSearch(r, b) fs, err
  prop C13 C15
  omit isfeatdef cntS isumS topdef kiddef pardef fcoldef icoldef
  config r.r = nonnil
  config r.cachedIndex = maybenil
  requires inv(r)
  modifies r.state, r.err, r.indexOffset, r.dataOffset, r.cachedIndex, r.featureIndex, r.featureOffset, pos(r.r)
  ghost N int = r.numFeatures
  ghost S int = r.nodeSize
  ghost A int = first(r.numFeatures, r.nodeSize, 0)
  ghost X0 f64s = fcol(content(r.r), H(r))
  ghost Y0 f64s = fcol(content(r.r), H(r)+8)
  ghost X1 f64s = fcol(content(r.r), H(r)+16)
  ghost Y1 f64s = fcol(content(r.r), H(r)+24)
  ghost F ints = icol(content(r.r), H(r)+32)
  ghost wf bool = cwfoff(icol(content(r.r), H(r)+32), r.numFeatures, r.nodeSize) && cwfcov(fcol(content(r.r), H(r)), fcol(content(r.r), H(r)+8), fcol(content(r.r), H(r)+16), fcol(content(r.r), H(r)+24), r.numFeatures, r.nodeSize)
  ghost G ints = zeros
  returnghost G ints = G
  apply loops: colf(col(r.cachedIndex.nodes,"XMin"), content(r.r), H(r), total(N,S))
  apply loops: colf(col(r.cachedIndex.nodes,"YMin"), content(r.r), H(r)+8, total(N,S))
  apply loops: colf(col(r.cachedIndex.nodes,"XMax"), content(r.r), H(r)+16, total(N,S))
  apply loops: colf(col(r.cachedIndex.nodes,"YMax"), content(r.r), H(r)+24, total(N,S))
  apply loops: coli(col(r.cachedIndex.nodes,"Offset"), content(r.r), H(r)+32, total(N,S))
  apply loops: offtrans(col(r.cachedIndex.nodes,"Offset"), F, N, S)
  apply loops: covtrans(col(r.cachedIndex.nodes,"XMin"), col(r.cachedIndex.nodes,"YMin"), col(r.cachedIndex.nodes,"XMax"), col(r.cachedIndex.nodes,"YMax"), X0, Y0, X1, Y1, N, S)
  loop 0
    invariant complete: wf ==> (forall p {F[p]} {X0[p]} :: A <= p && p < total(N,S) && touchx(X0,Y0,X1,Y1,b,p) ==> (exists k {sr[k].RefIndex} :: 0 <= k && k < len(sr) && sr[k].RefIndex == p - A))
    invariant range: 0 <= i && i <= len(sr) && len(fs) == len(sr)
    invariant state: r.err == nil && r.state == 66 && invh(r) && D(r) > 0 && (r.indexOffset > 0 ==> r.dataOffset > 0)
    invariant index: 0 <= r.featureIndex && r.featureIndex <= r.numFeatures
    invariant at: 0 <= r.featureOffset && r.featureOffset <= maxint() && r.featureOffset == pos(r.r) - D(r)
    invariant rel: forall k {sr[k].RefIndex} {sr[k].Offset} :: 0 <= k && k < len(sr) ==> 0 <= sr[k].RefIndex && sr[k].RefIndex < N && touchx(X0,Y0,X1,Y1,b,A+sr[k].RefIndex) && sr[k].Offset == F[A+sr[k].RefIndex]
    invariant marks: i >= 1 ==> (forall k {G[k]} {sr[k].RefIndex} :: 0 <= k && k < len(sr) ==> G[k] == sr[k].RefIndex)
    invariant completeg: wf && i >= 1 ==> (forall p {F[p]} {X0[p]} :: A <= p && p < total(N,S) && touchx(X0,Y0,X1,Y1,b,p) ==> (exists k {G[k]} :: 0 <= k && k < len(sr) && G[k] == p - A))
    invariant before: forall k {sr[k].Offset} :: 0 <= k && k < i ==> sr[k].Offset < r.featureOffset
    invariant ascending: forall j, k {sr[j].Offset, sr[k].Offset} :: 0 <= j && j < k && k < i ==> sr[j].Offset < sr[k].Offset
    invariant feats: forall j {bytes(fs[j]._tab.Bytes)} {len(fs[j]._tab.Bytes)} {fs[j]._tab.Pos} :: 0 <= j && j < i ==> featat(fs[j], content(r.r), D(r) + sr[j].Offset)
    ghost G = col(sr, "RefIndex")
    invariant inside: forall j {len(fs[j]._tab.Bytes)} :: 0 <= j && j < i ==> D(r) + sr[j].Offset + len(fs[j]._tab.Bytes) <= endpos(r.r)
    decreases len(sr) - i
  ensures inv: inv(r)
  ensures failed: old(r.err) != nil ==> err == old(r.err) && pos(r.r) == old(pos(r.r))
  ensures order: old(r.err) == nil && old(r.state) != 34 ==> err != nil && r.err == nil && r.state == old(r.state) && r.indexOffset == old(r.indexOffset) && r.dataOffset == old(r.dataOffset) && r.cachedIndex == old(r.cachedIndex) && r.featureIndex == old(r.featureIndex) && r.featureOffset == old(r.featureOffset) && pos(r.r) == old(pos(r.r))
  ensures noindex: old(r.err) == nil && old(r.state) == 34 && r.nodeSize == 0 ==> err == ErrNoIndex && r.err == nil && r.state == 50
  ensures sticky: old(r.err) == nil && old(r.state) == 34 && r.nodeSize != 0 && err != nil ==> r.err == err
  ensures none: err != nil ==> len(fs) == 0
  ensures ok: err == nil ==> r.err == nil && r.state == 82
  ensures sound: err == nil ==> (forall k {G[k]} {bytes(fs[k]._tab.Bytes)} :: 0 <= k && k < len(fs) ==> 0 <= G[k] && G[k] < N && touchx(X0,Y0,X1,Y1,b,A+G[k]))
  ensures features: err == nil ==> (forall k {G[k]} {bytes(fs[k]._tab.Bytes)} :: 0 <= k && k < len(fs) ==> featat(fs[k], content(r.r), D(r) + F[A+G[k]]))
  ensures ascending: err == nil ==> (forall j, k {G[j], G[k]} :: 0 <= j && j < k && k < len(fs) ==> F[A+G[j]] < F[A+G[k]])
  ensures complete: err == nil && wf ==> (forall p {F[p]} {X0[p]} :: A <= p && p < total(N,S) && touchx(X0,Y0,X1,Y1,b,p) ==> (exists k {G[k]} :: 0 <= k && k < len(fs) && G[k] == p - A))
  ensures inside: err == nil ==> (forall k {G[k]} {len(fs[k]._tab.Bytes)} :: 0 <= k && k < len(fs) ==> D(r) + F[A+G[k]] + len(fs[k]._tab.Bytes) <= endpos(r.r))
