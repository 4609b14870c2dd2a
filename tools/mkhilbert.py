#!/usr/bin/env python3
"""Writes the unrolled part of contracts/50_hilbert.spec (16 levels of the Hilbert curve)."""
out=[]
w=out.append
bx=lambda k:f"bits(x,{16-k},{16-k}), bits(y,{16-k},{16-k})"
w("def h0(x, y) = bv(0,2)")
for k in range(1,17):
    w(f"def h{k}(x, y) = hnext(h{k-1}(x,y), {bx(k)})")
w("def hil(x, y) = concat("+", ".join(f"hdigit(h{k-1}(x,y), {bx(k)})" for k in range(1,17))+")")
w("def hSw(x, y) = concat(bv(0,16), "+", ".join(f"bits(h{k}(x,y),0,0)" for k in range(1,17))+")")
w("def hQw(x, y) = concat(bv(0,16), "+", ".join(f"bits(h{k}(x,y),1,1)" for k in range(1,17))+")")
w("def i0(d) = bv(0,2)")
bd=lambda k:f"bits(d,{33-2*k},{33-2*k}), bits(d,{32-2*k},{32-2*k})"
for k in range(1,17):
    w(f"def i{k}(d) = inext(i{k-1}(d), {bd(k)})")
w("def hinvx(d) = concat(bv(0,16), "+", ".join(f"ix(i{k-1}(d), {bd(k)})" for k in range(1,17))+")")
w("def hinvy(d) = concat(bv(0,16), "+", ".join(f"iy(i{k-1}(d), {bd(k)})" for k in range(1,17))+")")
w("lemma hilonto(d: bv32): ule(hinvx(d),65535) && ule(hinvy(d),65535) && eqbits(hil(hinvx(d), hinvy(d)), d)")
w("  mode bv")
for k in range(1,17): w(f"  uses hilstep(h{k-1}(hinvx(d),hinvy(d)), i{k-1}(d), {bd(k)})")
w("  prop C08") # HILONTO
print("\n".join(out))
