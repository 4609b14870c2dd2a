// The Hilbert curve of order 16: /repo/packedrtree/hilbert.go, hilbertOfXY
package packedrtree

// The canonical recursive definition. At every level the current quadrant is
// given by one bit of x and of y, after undoing the reflections of the levels
// above: bit 0 of the state says whether the axes are exchanged, bit 1 whether
// both are reversed. Quadrants are numbered 0 (0,0), 1 (0,1), 2 (1,1), 3 (1,0);
// in quadrants 0 and 3 the axes are exchanged, in 3 also reversed.
def hpick(st, u, v) = (if bits(st,0,0) == 1 then v else u) ^ bits(st,1,1)
def hnext(st, xb, yb) = hnext2(st, hpick(st,xb,yb), hpick(st,yb,xb))
def hnext2(st, X, Y) = concat(bits(st,1,1) ^ (X & (~Y)), bits(st,0,0) ^ (~Y))
def hdigit(st, xb, yb) = concat(hpick(st,xb,yb), hpick(st,xb,yb) ^ hpick(st,yb,xb))
// the inverse
def inext(st, X, D) = hnext2(st, X, X ^ D)
def ix(st, X, D) = hpick(st, X, X ^ D)
def iy(st, X, D) = hpick(st, X ^ D, X)
def h0(x, y) = bv(0,2)
def h1(x, y) = hnext(h0(x,y), bits(x,15,15), bits(y,15,15))
def h2(x, y) = hnext(h1(x,y), bits(x,14,14), bits(y,14,14))
def h3(x, y) = hnext(h2(x,y), bits(x,13,13), bits(y,13,13))
def h4(x, y) = hnext(h3(x,y), bits(x,12,12), bits(y,12,12))
def h5(x, y) = hnext(h4(x,y), bits(x,11,11), bits(y,11,11))
def h6(x, y) = hnext(h5(x,y), bits(x,10,10), bits(y,10,10))
def h7(x, y) = hnext(h6(x,y), bits(x,9,9), bits(y,9,9))
def h8(x, y) = hnext(h7(x,y), bits(x,8,8), bits(y,8,8))
def h9(x, y) = hnext(h8(x,y), bits(x,7,7), bits(y,7,7))
def h10(x, y) = hnext(h9(x,y), bits(x,6,6), bits(y,6,6))
def h11(x, y) = hnext(h10(x,y), bits(x,5,5), bits(y,5,5))
def h12(x, y) = hnext(h11(x,y), bits(x,4,4), bits(y,4,4))
def h13(x, y) = hnext(h12(x,y), bits(x,3,3), bits(y,3,3))
def h14(x, y) = hnext(h13(x,y), bits(x,2,2), bits(y,2,2))
def h15(x, y) = hnext(h14(x,y), bits(x,1,1), bits(y,1,1))
def h16(x, y) = hnext(h15(x,y), bits(x,0,0), bits(y,0,0))
def hil(x, y) = concat(hdigit(h0(x,y), bits(x,15,15), bits(y,15,15)), hdigit(h1(x,y), bits(x,14,14), bits(y,14,14)), hdigit(h2(x,y), bits(x,13,13), bits(y,13,13)), hdigit(h3(x,y), bits(x,12,12), bits(y,12,12)), hdigit(h4(x,y), bits(x,11,11), bits(y,11,11)), hdigit(h5(x,y), bits(x,10,10), bits(y,10,10)), hdigit(h6(x,y), bits(x,9,9), bits(y,9,9)), hdigit(h7(x,y), bits(x,8,8), bits(y,8,8)), hdigit(h8(x,y), bits(x,7,7), bits(y,7,7)), hdigit(h9(x,y), bits(x,6,6), bits(y,6,6)), hdigit(h10(x,y), bits(x,5,5), bits(y,5,5)), hdigit(h11(x,y), bits(x,4,4), bits(y,4,4)), hdigit(h12(x,y), bits(x,3,3), bits(y,3,3)), hdigit(h13(x,y), bits(x,2,2), bits(y,2,2)), hdigit(h14(x,y), bits(x,1,1), bits(y,1,1)), hdigit(h15(x,y), bits(x,0,0), bits(y,0,0)))
def hSw(x, y) = concat(bv(0,16), bits(h1(x,y),0,0), bits(h2(x,y),0,0), bits(h3(x,y),0,0), bits(h4(x,y),0,0), bits(h5(x,y),0,0), bits(h6(x,y),0,0), bits(h7(x,y),0,0), bits(h8(x,y),0,0), bits(h9(x,y),0,0), bits(h10(x,y),0,0), bits(h11(x,y),0,0), bits(h12(x,y),0,0), bits(h13(x,y),0,0), bits(h14(x,y),0,0), bits(h15(x,y),0,0), bits(h16(x,y),0,0))
def hQw(x, y) = concat(bv(0,16), bits(h1(x,y),1,1), bits(h2(x,y),1,1), bits(h3(x,y),1,1), bits(h4(x,y),1,1), bits(h5(x,y),1,1), bits(h6(x,y),1,1), bits(h7(x,y),1,1), bits(h8(x,y),1,1), bits(h9(x,y),1,1), bits(h10(x,y),1,1), bits(h11(x,y),1,1), bits(h12(x,y),1,1), bits(h13(x,y),1,1), bits(h14(x,y),1,1), bits(h15(x,y),1,1), bits(h16(x,y),1,1))
def i0(d) = bv(0,2)
def i1(d) = inext(i0(d), bits(d,31,31), bits(d,30,30))
def i2(d) = inext(i1(d), bits(d,29,29), bits(d,28,28))
def i3(d) = inext(i2(d), bits(d,27,27), bits(d,26,26))
def i4(d) = inext(i3(d), bits(d,25,25), bits(d,24,24))
def i5(d) = inext(i4(d), bits(d,23,23), bits(d,22,22))
def i6(d) = inext(i5(d), bits(d,21,21), bits(d,20,20))
def i7(d) = inext(i6(d), bits(d,19,19), bits(d,18,18))
def i8(d) = inext(i7(d), bits(d,17,17), bits(d,16,16))
def i9(d) = inext(i8(d), bits(d,15,15), bits(d,14,14))
def i10(d) = inext(i9(d), bits(d,13,13), bits(d,12,12))
def i11(d) = inext(i10(d), bits(d,11,11), bits(d,10,10))
def i12(d) = inext(i11(d), bits(d,9,9), bits(d,8,8))
def i13(d) = inext(i12(d), bits(d,7,7), bits(d,6,6))
def i14(d) = inext(i13(d), bits(d,5,5), bits(d,4,4))
def i15(d) = inext(i14(d), bits(d,3,3), bits(d,2,2))
def i16(d) = inext(i15(d), bits(d,1,1), bits(d,0,0))
def hinvx(d) = concat(bv(0,16), ix(i0(d), bits(d,31,31), bits(d,30,30)), ix(i1(d), bits(d,29,29), bits(d,28,28)), ix(i2(d), bits(d,27,27), bits(d,26,26)), ix(i3(d), bits(d,25,25), bits(d,24,24)), ix(i4(d), bits(d,23,23), bits(d,22,22)), ix(i5(d), bits(d,21,21), bits(d,20,20)), ix(i6(d), bits(d,19,19), bits(d,18,18)), ix(i7(d), bits(d,17,17), bits(d,16,16)), ix(i8(d), bits(d,15,15), bits(d,14,14)), ix(i9(d), bits(d,13,13), bits(d,12,12)), ix(i10(d), bits(d,11,11), bits(d,10,10)), ix(i11(d), bits(d,9,9), bits(d,8,8)), ix(i12(d), bits(d,7,7), bits(d,6,6)), ix(i13(d), bits(d,5,5), bits(d,4,4)), ix(i14(d), bits(d,3,3), bits(d,2,2)), ix(i15(d), bits(d,1,1), bits(d,0,0)))
def hinvy(d) = concat(bv(0,16), iy(i0(d), bits(d,31,31), bits(d,30,30)), iy(i1(d), bits(d,29,29), bits(d,28,28)), iy(i2(d), bits(d,27,27), bits(d,26,26)), iy(i3(d), bits(d,25,25), bits(d,24,24)), iy(i4(d), bits(d,23,23), bits(d,22,22)), iy(i5(d), bits(d,21,21), bits(d,20,20)), iy(i6(d), bits(d,19,19), bits(d,18,18)), iy(i7(d), bits(d,17,17), bits(d,16,16)), iy(i8(d), bits(d,15,15), bits(d,14,14)), iy(i9(d), bits(d,13,13), bits(d,12,12)), iy(i10(d), bits(d,11,11), bits(d,10,10)), iy(i11(d), bits(d,9,9), bits(d,8,8)), iy(i12(d), bits(d,7,7), bits(d,6,6)), iy(i13(d), bits(d,5,5), bits(d,4,4)), iy(i14(d), bits(d,3,3), bits(d,2,2)), iy(i15(d), bits(d,1,1), bits(d,0,0)))

// words of states after each level: S = exchange, Q = reverse; P = S ^ Q
def hX(S, Q, x, y) = (((S >> 1) & y) | ((~(S >> 1)) & x)) ^ (Q >> 1)
def hrec2(S, Q, X, Y) = eqbits(Q, ((Q >> 1) ^ (X & (~Y))) & 65535) && eqbits(S, ((S >> 1) ^ (~Y)) & 65535)
def hrec(S, Q, x, y) = ule(x,65535) && ule(y,65535) && hrec2(S, Q, hX(S,Q,x,y), hX(S,Q,y,x))
def hact(A, B, C, D, P, Q, k) = P == ((C ^ (A & (P >> k))) ^ (B & (Q >> k))) && Q == ((D ^ (B & (P >> k))) ^ ((A ^ B) & (Q >> k)))

// the words the code computes
def ha(x, y) = x ^ y
def hb(x, y) = 65535 ^ (x ^ y)
def hc(x, y) = 65535 ^ (x | y)
def hd(x, y) = x & (y ^ 65535)
def A2(x, y) = ha(x,y) | (hb(x,y) >> 1)
def B2(x, y) = (ha(x,y) >> 1) ^ ha(x,y)
def C2(x, y) = ((hc(x,y) >> 1) ^ (hb(x,y) & (hd(x,y) >> 1))) ^ hc(x,y)
def D2(x, y) = ((ha(x,y) & (hc(x,y) >> 1)) ^ (hd(x,y) >> 1)) ^ hd(x,y)
def nA(A, B, k) = (A & (A >> k)) ^ (B & (B >> k))
def nB(A, B, k) = (A & (B >> k)) ^ (B & ((A ^ B) >> k))
def nC(A, B, C, D, k) = C ^ ((A & (C >> k)) ^ (B & (D >> k)))
def nD(A, B, C, D, k) = D ^ ((B & (C >> k)) ^ ((A ^ B) & (D >> k)))
def A4(x, y) = nA(A2(x,y), B2(x,y), 2)
def B4(x, y) = nB(A2(x,y), B2(x,y), 2)
def C4(x, y) = nC(A2(x,y), B2(x,y), C2(x,y), D2(x,y), 2)
def D4(x, y) = nD(A2(x,y), B2(x,y), C2(x,y), D2(x,y), 2)
def A8(x, y) = nA(A4(x,y), B4(x,y), 4)
def B8(x, y) = nB(A4(x,y), B4(x,y), 4)
def C8(x, y) = nC(A4(x,y), B4(x,y), C4(x,y), D4(x,y), 4)
def D8(x, y) = nD(A4(x,y), B4(x,y), C4(x,y), D4(x,y), 4)
def C16(x, y) = nC(A8(x,y), B8(x,y), C8(x,y), D8(x,y), 8)
def D16(x, y) = nD(A8(x,y), B8(x,y), C8(x,y), D8(x,y), 8)
def spread1(i) = (i | (i << 8)) & 16711935
def spread2(i) = (i | (i << 4)) & 252645135
def spread3(i) = (i | (i << 2)) & 858993459
def spread4(i) = (i | (i << 1)) & 1431655765
def spread(i) = spread4(spread3(spread2(spread1(i))))
def hout2(x, y, a, b) = (spread(b | (65535 ^ ((x ^ y) | a))) << 1) | spread(x ^ y)
def hout(x, y, C, D) = hout2(x, y, C ^ (C >> 1), D ^ (D >> 1))
def hcode(x, y) = hout(x, y, C16(x,y), D16(x,y))

lemma hilst2(x: bv32, y: bv32, S: bv32, Q: bv32): hrec(S,Q,x,y) ==> hact(A2(x,y), B2(x,y), C2(x,y), D2(x,y), S ^ Q, Q, 2)
  mode bv
lemma hilst4(A: bv32, B: bv32, C: bv32, D: bv32, P: bv32, Q: bv32): ule(P,65535) && ule(Q,65535) && hact(A,B,C,D,P,Q,2) ==> hact(nA(A,B,2), nB(A,B,2), nC(A,B,C,D,2), nD(A,B,C,D,2), P, Q, 4)
  mode bv
lemma hilst8(A: bv32, B: bv32, C: bv32, D: bv32, P: bv32, Q: bv32): ule(P,65535) && ule(Q,65535) && hact(A,B,C,D,P,Q,4) ==> hact(nA(A,B,4), nB(A,B,4), nC(A,B,C,D,4), nD(A,B,C,D,4), P, Q, 8)
  mode bv
lemma hilst16(A: bv32, B: bv32, C: bv32, D: bv32, P: bv32, Q: bv32): ule(P,65535) && ule(Q,65535) && hact(A,B,C,D,P,Q,8) ==> nC(A,B,C,D,8) == P && nD(A,B,C,D,8) == Q
  mode bv
lemma hilwords(x: bv32, y: bv32): ule(x,65535) && ule(y,65535) ==> hrec(hSw(x,y), hQw(x,y), x, y) && ule(hSw(x,y),65535) && ule(hQw(x,y),65535)
  mode bv
lemma hilout(x: bv32, y: bv32): ule(x,65535) && ule(y,65535) ==> hout(x, y, hSw(x,y) ^ hQw(x,y), hQw(x,y)) == hil(x,y)
  mode bv
lemma hilcut(x: bv32, y: bv32, S: bv32, Q: bv32): hrec(S,Q,x,y) && ule(S,65535) && ule(Q,65535) ==> hcode(x,y) == hout(x,y,S ^ Q,Q)
  mode bv
  uses hilst2(x,y,S,Q)
  uses hilst4(A2(x,y),B2(x,y),C2(x,y),D2(x,y),S ^ Q,Q)
  uses hilst8(A4(x,y),B4(x,y),C4(x,y),D4(x,y),S ^ Q,Q)
  uses hilst16(A8(x,y),B8(x,y),C8(x,y),D8(x,y),S ^ Q,Q)
lemma hilmain(x: bv32, y: bv32): ule(x,65535) && ule(y,65535) ==> hcode(x,y) == hil(x,y)
  mode bv
  uses hilwords(x,y)
  uses hilout(x,y)
  uses hilcut(x,y,hSw(x,y),hQw(x,y))

// what the canonical definition is: a bijection from the grid, with unit steps
lemma hilinv(x: bv32, y: bv32): ule(x,65535) && ule(y,65535) ==> hinvx(hil(x,y)) == x && hinvy(hil(x,y)) == y
  mode bv
  prop C08
lemma hilstep(a: bv2, b: bv2, X: bv1, D: bv1): a == b ==> hnext(a, ix(b,X,D), iy(b,X,D)) == inext(b,X,D) && hdigit(a, ix(b,X,D), iy(b,X,D)) == concat(X, D)
  mode bv
lemma hilonto(d: bv32): ule(hinvx(d),65535) && ule(hinvy(d),65535) && eqbits(hil(hinvx(d), hinvy(d)), d)
  mode bv
  uses hilstep(h0(hinvx(d),hinvy(d)), i0(d), bits(d,31,31), bits(d,30,30))
  uses hilstep(h1(hinvx(d),hinvy(d)), i1(d), bits(d,29,29), bits(d,28,28))
  uses hilstep(h2(hinvx(d),hinvy(d)), i2(d), bits(d,27,27), bits(d,26,26))
  uses hilstep(h3(hinvx(d),hinvy(d)), i3(d), bits(d,25,25), bits(d,24,24))
  uses hilstep(h4(hinvx(d),hinvy(d)), i4(d), bits(d,23,23), bits(d,22,22))
  uses hilstep(h5(hinvx(d),hinvy(d)), i5(d), bits(d,21,21), bits(d,20,20))
  uses hilstep(h6(hinvx(d),hinvy(d)), i6(d), bits(d,19,19), bits(d,18,18))
  uses hilstep(h7(hinvx(d),hinvy(d)), i7(d), bits(d,17,17), bits(d,16,16))
  uses hilstep(h8(hinvx(d),hinvy(d)), i8(d), bits(d,15,15), bits(d,14,14))
  uses hilstep(h9(hinvx(d),hinvy(d)), i9(d), bits(d,13,13), bits(d,12,12))
  uses hilstep(h10(hinvx(d),hinvy(d)), i10(d), bits(d,11,11), bits(d,10,10))
  uses hilstep(h11(hinvx(d),hinvy(d)), i11(d), bits(d,9,9), bits(d,8,8))
  uses hilstep(h12(hinvx(d),hinvy(d)), i12(d), bits(d,7,7), bits(d,6,6))
  uses hilstep(h13(hinvx(d),hinvy(d)), i13(d), bits(d,5,5), bits(d,4,4))
  uses hilstep(h14(hinvx(d),hinvy(d)), i14(d), bits(d,3,3), bits(d,2,2))
  uses hilstep(h15(hinvx(d),hinvy(d)), i15(d), bits(d,1,1), bits(d,0,0))
  prop C08
lemma hilends(x: bv32, y: bv32): hil(bv(0,32),bv(0,32)) == 0 && hil(bv(65535,32),bv(0,32)) == 4294967295
  mode bv
  prop C08
// d and e = d+1 are one step apart; one lemma for each number k of trailing ones of d
def onestep(d, e) = (hinvx(e) == hinvx(d) && (hinvy(e) == hinvy(d) + 1 || hinvy(e) == hinvy(d) - 1)) || (hinvy(e) == hinvy(d) && (hinvx(e) == hinvx(d) + 1 || hinvx(e) == hinvx(d) - 1))
lemma hilstep0(d: bv32, e: bv32): bits(d,0,0) == bv(0,1) && bits(e,0,0) == bv(1,1) && bits(e,31,1) == bits(d,31,1) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry0(d: bv32): bits(d,0,0) == bv(0,1) ==> bits(d+1,0,0) == bv(1,1) && bits(d+1,31,1) == bits(d,31,1)
  mode bv
  prop C08
lemma hilstep1(d: bv32, e: bv32): bits(d,1,1) == bv(0,1) && bits(d,0,0) == bv(1,1) && bits(e,1,1) == bv(1,1) && bits(e,31,2) == bits(d,31,2) && bits(e,0,0) == bv(0,1) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry1(d: bv32): bits(d,1,1) == bv(0,1) && bits(d,0,0) == bv(1,1) ==> bits(d+1,1,1) == bv(1,1) && bits(d+1,31,2) == bits(d,31,2) && bits(d+1,0,0) == bv(0,1)
  mode bv
  prop C08
lemma hilstep2(d: bv32, e: bv32): bits(d,2,2) == bv(0,1) && bits(d,1,0) == bv(3,2) && bits(e,2,2) == bv(1,1) && bits(e,31,3) == bits(d,31,3) && bits(e,1,0) == bv(0,2) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry2(d: bv32): bits(d,2,2) == bv(0,1) && bits(d,1,0) == bv(3,2) ==> bits(d+1,2,2) == bv(1,1) && bits(d+1,31,3) == bits(d,31,3) && bits(d+1,1,0) == bv(0,2)
  mode bv
  prop C08
lemma hilstep3(d: bv32, e: bv32): bits(d,3,3) == bv(0,1) && bits(d,2,0) == bv(7,3) && bits(e,3,3) == bv(1,1) && bits(e,31,4) == bits(d,31,4) && bits(e,2,0) == bv(0,3) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry3(d: bv32): bits(d,3,3) == bv(0,1) && bits(d,2,0) == bv(7,3) ==> bits(d+1,3,3) == bv(1,1) && bits(d+1,31,4) == bits(d,31,4) && bits(d+1,2,0) == bv(0,3)
  mode bv
  prop C08
lemma hilstep4(d: bv32, e: bv32): bits(d,4,4) == bv(0,1) && bits(d,3,0) == bv(15,4) && bits(e,4,4) == bv(1,1) && bits(e,31,5) == bits(d,31,5) && bits(e,3,0) == bv(0,4) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry4(d: bv32): bits(d,4,4) == bv(0,1) && bits(d,3,0) == bv(15,4) ==> bits(d+1,4,4) == bv(1,1) && bits(d+1,31,5) == bits(d,31,5) && bits(d+1,3,0) == bv(0,4)
  mode bv
  prop C08
lemma hilstep5(d: bv32, e: bv32): bits(d,5,5) == bv(0,1) && bits(d,4,0) == bv(31,5) && bits(e,5,5) == bv(1,1) && bits(e,31,6) == bits(d,31,6) && bits(e,4,0) == bv(0,5) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry5(d: bv32): bits(d,5,5) == bv(0,1) && bits(d,4,0) == bv(31,5) ==> bits(d+1,5,5) == bv(1,1) && bits(d+1,31,6) == bits(d,31,6) && bits(d+1,4,0) == bv(0,5)
  mode bv
  prop C08
lemma hilstep6(d: bv32, e: bv32): bits(d,6,6) == bv(0,1) && bits(d,5,0) == bv(63,6) && bits(e,6,6) == bv(1,1) && bits(e,31,7) == bits(d,31,7) && bits(e,5,0) == bv(0,6) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry6(d: bv32): bits(d,6,6) == bv(0,1) && bits(d,5,0) == bv(63,6) ==> bits(d+1,6,6) == bv(1,1) && bits(d+1,31,7) == bits(d,31,7) && bits(d+1,5,0) == bv(0,6)
  mode bv
  prop C08
lemma hilstep7(d: bv32, e: bv32): bits(d,7,7) == bv(0,1) && bits(d,6,0) == bv(127,7) && bits(e,7,7) == bv(1,1) && bits(e,31,8) == bits(d,31,8) && bits(e,6,0) == bv(0,7) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry7(d: bv32): bits(d,7,7) == bv(0,1) && bits(d,6,0) == bv(127,7) ==> bits(d+1,7,7) == bv(1,1) && bits(d+1,31,8) == bits(d,31,8) && bits(d+1,6,0) == bv(0,7)
  mode bv
  prop C08
lemma hilstep8(d: bv32, e: bv32): bits(d,8,8) == bv(0,1) && bits(d,7,0) == bv(255,8) && bits(e,8,8) == bv(1,1) && bits(e,31,9) == bits(d,31,9) && bits(e,7,0) == bv(0,8) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry8(d: bv32): bits(d,8,8) == bv(0,1) && bits(d,7,0) == bv(255,8) ==> bits(d+1,8,8) == bv(1,1) && bits(d+1,31,9) == bits(d,31,9) && bits(d+1,7,0) == bv(0,8)
  mode bv
  prop C08
lemma hilstep9(d: bv32, e: bv32): bits(d,9,9) == bv(0,1) && bits(d,8,0) == bv(511,9) && bits(e,9,9) == bv(1,1) && bits(e,31,10) == bits(d,31,10) && bits(e,8,0) == bv(0,9) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry9(d: bv32): bits(d,9,9) == bv(0,1) && bits(d,8,0) == bv(511,9) ==> bits(d+1,9,9) == bv(1,1) && bits(d+1,31,10) == bits(d,31,10) && bits(d+1,8,0) == bv(0,9)
  mode bv
  prop C08
lemma hilstep10(d: bv32, e: bv32): bits(d,10,10) == bv(0,1) && bits(d,9,0) == bv(1023,10) && bits(e,10,10) == bv(1,1) && bits(e,31,11) == bits(d,31,11) && bits(e,9,0) == bv(0,10) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry10(d: bv32): bits(d,10,10) == bv(0,1) && bits(d,9,0) == bv(1023,10) ==> bits(d+1,10,10) == bv(1,1) && bits(d+1,31,11) == bits(d,31,11) && bits(d+1,9,0) == bv(0,10)
  mode bv
  prop C08
lemma hilstep11(d: bv32, e: bv32): bits(d,11,11) == bv(0,1) && bits(d,10,0) == bv(2047,11) && bits(e,11,11) == bv(1,1) && bits(e,31,12) == bits(d,31,12) && bits(e,10,0) == bv(0,11) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry11(d: bv32): bits(d,11,11) == bv(0,1) && bits(d,10,0) == bv(2047,11) ==> bits(d+1,11,11) == bv(1,1) && bits(d+1,31,12) == bits(d,31,12) && bits(d+1,10,0) == bv(0,11)
  mode bv
  prop C08
lemma hilstep12(d: bv32, e: bv32): bits(d,12,12) == bv(0,1) && bits(d,11,0) == bv(4095,12) && bits(e,12,12) == bv(1,1) && bits(e,31,13) == bits(d,31,13) && bits(e,11,0) == bv(0,12) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry12(d: bv32): bits(d,12,12) == bv(0,1) && bits(d,11,0) == bv(4095,12) ==> bits(d+1,12,12) == bv(1,1) && bits(d+1,31,13) == bits(d,31,13) && bits(d+1,11,0) == bv(0,12)
  mode bv
  prop C08
lemma hilstep13(d: bv32, e: bv32): bits(d,13,13) == bv(0,1) && bits(d,12,0) == bv(8191,13) && bits(e,13,13) == bv(1,1) && bits(e,31,14) == bits(d,31,14) && bits(e,12,0) == bv(0,13) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry13(d: bv32): bits(d,13,13) == bv(0,1) && bits(d,12,0) == bv(8191,13) ==> bits(d+1,13,13) == bv(1,1) && bits(d+1,31,14) == bits(d,31,14) && bits(d+1,12,0) == bv(0,13)
  mode bv
  prop C08
lemma hilstep14(d: bv32, e: bv32): bits(d,14,14) == bv(0,1) && bits(d,13,0) == bv(16383,14) && bits(e,14,14) == bv(1,1) && bits(e,31,15) == bits(d,31,15) && bits(e,13,0) == bv(0,14) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry14(d: bv32): bits(d,14,14) == bv(0,1) && bits(d,13,0) == bv(16383,14) ==> bits(d+1,14,14) == bv(1,1) && bits(d+1,31,15) == bits(d,31,15) && bits(d+1,13,0) == bv(0,14)
  mode bv
  prop C08
lemma hilstep15(d: bv32, e: bv32): bits(d,15,15) == bv(0,1) && bits(d,14,0) == bv(32767,15) && bits(e,15,15) == bv(1,1) && bits(e,31,16) == bits(d,31,16) && bits(e,14,0) == bv(0,15) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry15(d: bv32): bits(d,15,15) == bv(0,1) && bits(d,14,0) == bv(32767,15) ==> bits(d+1,15,15) == bv(1,1) && bits(d+1,31,16) == bits(d,31,16) && bits(d+1,14,0) == bv(0,15)
  mode bv
  prop C08
lemma hilstep16(d: bv32, e: bv32): bits(d,16,16) == bv(0,1) && bits(d,15,0) == bv(65535,16) && bits(e,16,16) == bv(1,1) && bits(e,31,17) == bits(d,31,17) && bits(e,15,0) == bv(0,16) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry16(d: bv32): bits(d,16,16) == bv(0,1) && bits(d,15,0) == bv(65535,16) ==> bits(d+1,16,16) == bv(1,1) && bits(d+1,31,17) == bits(d,31,17) && bits(d+1,15,0) == bv(0,16)
  mode bv
  prop C08
lemma hilstep17(d: bv32, e: bv32): bits(d,17,17) == bv(0,1) && bits(d,16,0) == bv(131071,17) && bits(e,17,17) == bv(1,1) && bits(e,31,18) == bits(d,31,18) && bits(e,16,0) == bv(0,17) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry17(d: bv32): bits(d,17,17) == bv(0,1) && bits(d,16,0) == bv(131071,17) ==> bits(d+1,17,17) == bv(1,1) && bits(d+1,31,18) == bits(d,31,18) && bits(d+1,16,0) == bv(0,17)
  mode bv
  prop C08
lemma hilstep18(d: bv32, e: bv32): bits(d,18,18) == bv(0,1) && bits(d,17,0) == bv(262143,18) && bits(e,18,18) == bv(1,1) && bits(e,31,19) == bits(d,31,19) && bits(e,17,0) == bv(0,18) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry18(d: bv32): bits(d,18,18) == bv(0,1) && bits(d,17,0) == bv(262143,18) ==> bits(d+1,18,18) == bv(1,1) && bits(d+1,31,19) == bits(d,31,19) && bits(d+1,17,0) == bv(0,18)
  mode bv
  prop C08
lemma hilstep19(d: bv32, e: bv32): bits(d,19,19) == bv(0,1) && bits(d,18,0) == bv(524287,19) && bits(e,19,19) == bv(1,1) && bits(e,31,20) == bits(d,31,20) && bits(e,18,0) == bv(0,19) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry19(d: bv32): bits(d,19,19) == bv(0,1) && bits(d,18,0) == bv(524287,19) ==> bits(d+1,19,19) == bv(1,1) && bits(d+1,31,20) == bits(d,31,20) && bits(d+1,18,0) == bv(0,19)
  mode bv
  prop C08
lemma hilstep20(d: bv32, e: bv32): bits(d,20,20) == bv(0,1) && bits(d,19,0) == bv(1048575,20) && bits(e,20,20) == bv(1,1) && bits(e,31,21) == bits(d,31,21) && bits(e,19,0) == bv(0,20) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry20(d: bv32): bits(d,20,20) == bv(0,1) && bits(d,19,0) == bv(1048575,20) ==> bits(d+1,20,20) == bv(1,1) && bits(d+1,31,21) == bits(d,31,21) && bits(d+1,19,0) == bv(0,20)
  mode bv
  prop C08
lemma hilstep21(d: bv32, e: bv32): bits(d,21,21) == bv(0,1) && bits(d,20,0) == bv(2097151,21) && bits(e,21,21) == bv(1,1) && bits(e,31,22) == bits(d,31,22) && bits(e,20,0) == bv(0,21) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry21(d: bv32): bits(d,21,21) == bv(0,1) && bits(d,20,0) == bv(2097151,21) ==> bits(d+1,21,21) == bv(1,1) && bits(d+1,31,22) == bits(d,31,22) && bits(d+1,20,0) == bv(0,21)
  mode bv
  prop C08
lemma hilstep22(d: bv32, e: bv32): bits(d,22,22) == bv(0,1) && bits(d,21,0) == bv(4194303,22) && bits(e,22,22) == bv(1,1) && bits(e,31,23) == bits(d,31,23) && bits(e,21,0) == bv(0,22) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry22(d: bv32): bits(d,22,22) == bv(0,1) && bits(d,21,0) == bv(4194303,22) ==> bits(d+1,22,22) == bv(1,1) && bits(d+1,31,23) == bits(d,31,23) && bits(d+1,21,0) == bv(0,22)
  mode bv
  prop C08
lemma hilstep23(d: bv32, e: bv32): bits(d,23,23) == bv(0,1) && bits(d,22,0) == bv(8388607,23) && bits(e,23,23) == bv(1,1) && bits(e,31,24) == bits(d,31,24) && bits(e,22,0) == bv(0,23) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry23(d: bv32): bits(d,23,23) == bv(0,1) && bits(d,22,0) == bv(8388607,23) ==> bits(d+1,23,23) == bv(1,1) && bits(d+1,31,24) == bits(d,31,24) && bits(d+1,22,0) == bv(0,23)
  mode bv
  prop C08
lemma hilstep24(d: bv32, e: bv32): bits(d,24,24) == bv(0,1) && bits(d,23,0) == bv(16777215,24) && bits(e,24,24) == bv(1,1) && bits(e,31,25) == bits(d,31,25) && bits(e,23,0) == bv(0,24) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry24(d: bv32): bits(d,24,24) == bv(0,1) && bits(d,23,0) == bv(16777215,24) ==> bits(d+1,24,24) == bv(1,1) && bits(d+1,31,25) == bits(d,31,25) && bits(d+1,23,0) == bv(0,24)
  mode bv
  prop C08
lemma hilstep25(d: bv32, e: bv32): bits(d,25,25) == bv(0,1) && bits(d,24,0) == bv(33554431,25) && bits(e,25,25) == bv(1,1) && bits(e,31,26) == bits(d,31,26) && bits(e,24,0) == bv(0,25) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry25(d: bv32): bits(d,25,25) == bv(0,1) && bits(d,24,0) == bv(33554431,25) ==> bits(d+1,25,25) == bv(1,1) && bits(d+1,31,26) == bits(d,31,26) && bits(d+1,24,0) == bv(0,25)
  mode bv
  prop C08
lemma hilstep26(d: bv32, e: bv32): bits(d,26,26) == bv(0,1) && bits(d,25,0) == bv(67108863,26) && bits(e,26,26) == bv(1,1) && bits(e,31,27) == bits(d,31,27) && bits(e,25,0) == bv(0,26) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry26(d: bv32): bits(d,26,26) == bv(0,1) && bits(d,25,0) == bv(67108863,26) ==> bits(d+1,26,26) == bv(1,1) && bits(d+1,31,27) == bits(d,31,27) && bits(d+1,25,0) == bv(0,26)
  mode bv
  prop C08
lemma hilstep27(d: bv32, e: bv32): bits(d,27,27) == bv(0,1) && bits(d,26,0) == bv(134217727,27) && bits(e,27,27) == bv(1,1) && bits(e,31,28) == bits(d,31,28) && bits(e,26,0) == bv(0,27) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry27(d: bv32): bits(d,27,27) == bv(0,1) && bits(d,26,0) == bv(134217727,27) ==> bits(d+1,27,27) == bv(1,1) && bits(d+1,31,28) == bits(d,31,28) && bits(d+1,26,0) == bv(0,27)
  mode bv
  prop C08
lemma hilstep28(d: bv32, e: bv32): bits(d,28,28) == bv(0,1) && bits(d,27,0) == bv(268435455,28) && bits(e,28,28) == bv(1,1) && bits(e,31,29) == bits(d,31,29) && bits(e,27,0) == bv(0,28) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry28(d: bv32): bits(d,28,28) == bv(0,1) && bits(d,27,0) == bv(268435455,28) ==> bits(d+1,28,28) == bv(1,1) && bits(d+1,31,29) == bits(d,31,29) && bits(d+1,27,0) == bv(0,28)
  mode bv
  prop C08
lemma hilstep29(d: bv32, e: bv32): bits(d,29,29) == bv(0,1) && bits(d,28,0) == bv(536870911,29) && bits(e,29,29) == bv(1,1) && bits(e,31,30) == bits(d,31,30) && bits(e,28,0) == bv(0,29) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry29(d: bv32): bits(d,29,29) == bv(0,1) && bits(d,28,0) == bv(536870911,29) ==> bits(d+1,29,29) == bv(1,1) && bits(d+1,31,30) == bits(d,31,30) && bits(d+1,28,0) == bv(0,29)
  mode bv
  prop C08
lemma hilstep30(d: bv32, e: bv32): bits(d,30,30) == bv(0,1) && bits(d,29,0) == bv(1073741823,30) && bits(e,30,30) == bv(1,1) && bits(e,31,31) == bits(d,31,31) && bits(e,29,0) == bv(0,30) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry30(d: bv32): bits(d,30,30) == bv(0,1) && bits(d,29,0) == bv(1073741823,30) ==> bits(d+1,30,30) == bv(1,1) && bits(d+1,31,31) == bits(d,31,31) && bits(d+1,29,0) == bv(0,30)
  mode bv
  prop C08
lemma hilstep31(d: bv32, e: bv32): bits(d,31,31) == bv(0,1) && bits(d,30,0) == bv(2147483647,31) && bits(e,31,31) == bv(1,1) && bits(e,30,0) == bv(0,31) ==> onestep(d, e)
  mode bv
  prop C08
lemma hilcarry31(d: bv32): bits(d,31,31) == bv(0,1) && bits(d,30,0) == bv(2147483647,31) ==> bits(d+1,31,31) == bv(1,1) && bits(d+1,30,0) == bv(0,31)
  mode bv
  prop C08
lemma hilsteps(d: bv32): d != 4294967295 ==> onestep(d, d+1)
  mode bv
  uses hilcarry0(d)
  uses hilstep0(d, d+1)
  uses hilcarry1(d)
  uses hilstep1(d, d+1)
  uses hilcarry2(d)
  uses hilstep2(d, d+1)
  uses hilcarry3(d)
  uses hilstep3(d, d+1)
  uses hilcarry4(d)
  uses hilstep4(d, d+1)
  uses hilcarry5(d)
  uses hilstep5(d, d+1)
  uses hilcarry6(d)
  uses hilstep6(d, d+1)
  uses hilcarry7(d)
  uses hilstep7(d, d+1)
  uses hilcarry8(d)
  uses hilstep8(d, d+1)
  uses hilcarry9(d)
  uses hilstep9(d, d+1)
  uses hilcarry10(d)
  uses hilstep10(d, d+1)
  uses hilcarry11(d)
  uses hilstep11(d, d+1)
  uses hilcarry12(d)
  uses hilstep12(d, d+1)
  uses hilcarry13(d)
  uses hilstep13(d, d+1)
  uses hilcarry14(d)
  uses hilstep14(d, d+1)
  uses hilcarry15(d)
  uses hilstep15(d, d+1)
  uses hilcarry16(d)
  uses hilstep16(d, d+1)
  uses hilcarry17(d)
  uses hilstep17(d, d+1)
  uses hilcarry18(d)
  uses hilstep18(d, d+1)
  uses hilcarry19(d)
  uses hilstep19(d, d+1)
  uses hilcarry20(d)
  uses hilstep20(d, d+1)
  uses hilcarry21(d)
  uses hilstep21(d, d+1)
  uses hilcarry22(d)
  uses hilstep22(d, d+1)
  uses hilcarry23(d)
  uses hilstep23(d, d+1)
  uses hilcarry24(d)
  uses hilstep24(d, d+1)
  uses hilcarry25(d)
  uses hilstep25(d, d+1)
  uses hilcarry26(d)
  uses hilstep26(d, d+1)
  uses hilcarry27(d)
  uses hilstep27(d, d+1)
  uses hilcarry28(d)
  uses hilstep28(d, d+1)
  uses hilcarry29(d)
  uses hilstep29(d, d+1)
  uses hilcarry30(d)
  uses hilstep30(d, d+1)
  uses hilcarry31(d)
  uses hilstep31(d, d+1)
  prop C08

func hilbertOfXY(x, y) index
  prop C08
  mode bv
  apply hilmain(x, y)
  ensures curve: ule(x,65535) && ule(y,65535) ==> index == hil(x, y)
