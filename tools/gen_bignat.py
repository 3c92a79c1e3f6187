#!/usr/bin/env python3
"""Generates spec/BigNat.tla: 256-bit arithmetic with the column sums written out."""
import os
N, W = 20, 13
P = 2 ** 256 - 2 ** 32 - 977
ORD = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def limbs(v, n=N):
    r = [(v >> W * i) & (2 ** W - 1) for i in range(n)]
    assert v >> W * n == 0
    return r


def tup(xs):
    return "<<" + ", ".join(str(x) for x in xs) + ">>"


def wrap(s, ind="  ", width=100):
    out, line = [], ind
    for t in s.split(" "):
        if len(line) + len(t) > width:
            out.append(line)
            line = ind
        line += t + " "
    return "\n".join(out + [line.rstrip()])


def product(na, nb, a="a", b="b"):
    cols = []
    for k in range(na + nb - 1):
        cols.append("+".join("%s[%d]*%s[%d]" % (a, i + 1, b, k - i + 1)
                             for i in range(na) if 0 <= k - i < nb))
    return cols


def square():
    cols = []
    for k in range(2 * N - 1):
        t = []
        for i in range(N):
            j = k - i
            if i < j < N:
                t.append("d[%d]*a[%d]" % (i + 1, j + 1))
            elif i == j:
                t.append("a[%d]*a[%d]" % (i + 1, i + 1))
        cols.append("+".join(t))
    return cols


def carry(name, n):
    s = "%s(c) ==\n  LET v1 == c[1]\n" % name
    for i in range(2, n + 1):
        s += "      v%d == c[%d] + (v%d \\div LB)\n" % (i, i, i - 1)
    return s + wrap("IN <<" + ", ".join("v%d %% LB" % i for i in range(1, n + 1)) +
                    ", v%d \\div LB>>" % n) + "\n"


def consthi(name, cl, nhi):
    """columns of (first 20 limbs) + (limbs 21..20+nhi) * constant"""
    n = max(N, nhi + len(cl) - 1)
    cols = []
    for k in range(n):
        t = ["x[%d]" % (k + 1)] if k < N else []
        for i, c in enumerate(cl):
            j = k - i
            if c and 0 <= j < nhi:
                t.append("%d*x[%d]" % (c, N + j + 1))
        cols.append("+".join(t) or "0")
    return "%s(x) ==\n" % name + wrap("<<" + ", ".join(cols) + ">>") + "\n"


o = []
o.append(r"""------------------------------- MODULE BigNat --------------------------------
(***************************************************************************)
(* Generated by tools/gen_bignat.py.  Numbers below 2^260 as 20 limbs of 13 *)
(* bits, least significant first; arithmetic modulo the secp256k1 field     *)
(* prime p and group order n.  Residues are kept below 2^260 and made       *)
(* canonical only for comparison.  No column exceeds 20 * 8191^2 + carries  *)
(* < 2^31.  MC_BigNat checks the algebra on random and extreme operands.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LB == 8192
""")
o.append("PrimeP == " + tup(limbs(P)) + "\n")
o.append("OrderN == " + tup(limbs(ORD)) + "\n")
o.append("Zero == " + tup(limbs(0)) + "\nOne == " + tup(limbs(1)) + "\n")
o.append("HalfN == " + tup(limbs(ORD // 2)) + "   \\* (n-1)/2\n")
# bytes <-> limbs
f = []
for k in range(N):
    q, s = divmod(W * k, 8)
    t = []
    for i in range(3):
        if q + i < 32:
            t.append(("" if i == 0 else "%d*" % 256 ** i) + "b[%d]" % (32 - q - i))
    f.append("((%s) \\div %d) %% LB" % ("+".join(t), 2 ** s))
o.append("\\* the number in 32 big-endian bytes\nFromBytes32(b) ==\n" + wrap("<<" + ", ".join(f) + ">>") + "\n")
f = []
for j in reversed(range(32)):
    q, s = divmod(8 * j, W)
    t = "a[%d]" % (q + 1) + ("+LB*a[%d]" % (q + 2) if q + 1 < N else "")
    f.append("((%s) \\div %d) %% 256" % (t, 2 ** s))
o.append("\\* 32 big-endian bytes of a number below 2^256\nToBytes32(a) ==\n" + wrap("<<" + ", ".join(f) + ">>") + "\n")
o.append("MulCols(a, b) ==\n" + wrap("<<" + ", ".join(product(N, N)) + ">>") + "\n")
o.append("SqrCols(a) ==\n  LET d == <<" + ", ".join("2*a[%d]" % i for i in range(1, N + 1)) + ">> IN\n" +
         wrap("<<" + ", ".join(square()) + ">>") + "\n")
for nm, n in (("Carry20", 20), ("Carry21", 21), ("Carry22", 22), ("Carry30", 30), ("Carry39", 39)):
    o.append(carry(nm, n))
cp = limbs(2 ** 260 % P, 3)
cn = limbs(2 ** 260 % ORD, 11)
o.append("\\* 2^260 mod p = 0x1000003D10: fold the limbs above the twentieth\n")
o.append(consthi("FoldP20", cp, 20))
o.append(consthi("FoldP3", cp, 3))
o.append(consthi("FoldP1", cp, 1))
o.append(r"""
Carry20x(c) == SubSeq(Carry20(c), 1, 20)
\* 20 columns whose value is below 2^273 -> below 2^260
NormP(c) == Carry20x(FoldP1(Carry20(FoldP1(Carry20(c)))))
RedP(x40) == Carry20x(FoldP1(Carry20(FoldP3(Carry22(FoldP20(x40))))))
MulP(a, b) == RedP(Carry39(MulCols(a, b)))
SqrP(a) == RedP(Carry39(SqrCols(a)))
""")
o.append("\\* 2^260 mod n\n")
o.append(consthi("FoldN20", cn, 20))
o.append(consthi("FoldN11", cn, 11))
o.append(consthi("FoldN2", cn, 2))
o.append(consthi("FoldN1", cn, 1))
m17p, m17n = limbs(17 * P, 21), limbs(17 * ORD, 21)
k = lambda m: [m[i] for i in range(19)] + [m[19] + 8192 * m[20]]
o.append(r"""
NormN(c) == Carry20x(FoldN1(Carry20(FoldN1(Carry20(c)))))
RedN(x40) == Carry20x(FoldN1(Carry20(FoldN2(Carry21(FoldN11(Carry30(FoldN20(x40))))))))
MulN(a, b) == RedN(Carry39(MulCols(a, b)))
SqrN(a) == RedN(Carry39(SqrCols(a)))

""")
o.append("AddCols(a, b) == <<" + ", ".join("a[%d]+b[%d]" % (i, i) for i in range(1, N + 1)) + ">>\n")
o.append("ScaleCols(k, a) == <<" + ", ".join("k*a[%d]" % i for i in range(1, N + 1)) + ">>\n")
o.append("\\* a - b + 17p, a - b + 17n: 17p and 17n exceed 2^260\n")
o.append("SubColsP(a, b) == <<" + ", ".join("a[%d]-b[%d]+%d" % (i + 1, i + 1, k(m17p)[i]) for i in range(N)) + ">>\n")
o.append("SubColsN(a, b) == <<" + ", ".join("a[%d]-b[%d]+%d" % (i + 1, i + 1, k(m17n)[i]) for i in range(N)) + ">>\n")
o.append(r"""AddP(a, b) == NormP(AddCols(a, b))
SubP(a, b) == NormP(SubColsP(a, b))
ScaleP(k, a) == NormP(ScaleCols(k, a))      \* small k
AddN(a, b) == NormN(AddCols(a, b))
SubN(a, b) == NormN(SubColsN(a, b))

Less(a, b) ==                                \* as numbers, normalised limbs
  FoldLeft(LAMBDA acc, i: IF a[i] = b[i] THEN acc ELSE a[i] < b[i], FALSE,
           <<""" + ",".join(str(i) for i in range(1, N + 1)) + r""">>)
RawSub(a, b) == Carry20x(<<""" + ", ".join("a[%d]-b[%d]" % (i, i) for i in range(1, N + 1)) + r""">>)   \* a >= b
""")
t256p, t256n = limbs(2 ** 256 - P), limbs(2 ** 256 - ORD)
o.append("TopP == " + tup(t256p) + "   \\* 2^256 - p\nTopN == " + tup(t256n) + "\n")
o.append(r"""
\* the bits from 2^256 up are limb 20 div 512
Low256(a) == [a EXCEPT ![20] = @ % 512]
FoldTop(a, t) == LET h == a[20] \div 512 IN
  IF h = 0 THEN a ELSE Carry20x(AddCols(Low256(a), ScaleCols(h, t)))
Canon(a, m, t) == LET x == FoldTop(FoldTop(a, t), t) IN IF Less(x, m) THEN x ELSE RawSub(x, m)
CanonP(a) == Canon(a, PrimeP, TopP)
CanonN(a) == Canon(a, OrderN, TopN)
EqP(a, b) == CanonP(a) = CanonP(b)
EqN(a, b) == CanonN(a) = CanonN(b)
IsZeroP(a) == CanonP(a) = Zero

\* a^e for an exponent given as 4-bit digits, most significant first
PowTable(a, M(_,_)) ==
  FoldLeft(LAMBDA t, i: Append(t, M(t[Len(t)], a)), <<One, a>>, <<1,2,3,4,5,6,7,8,9,10,11,12,13,14>>)
Pow(a, digits, M(_,_), S(_)) ==
  LET T == PowTable(a, M)
  IN FoldLeft(LAMBDA r, d: LET q == S(S(S(S(r)))) IN IF d = 0 THEN q ELSE M(q, T[d+1]),
              T[digits[1]+1], Tail(digits))
""")


def digits(v):
    return tup([int(c, 16) for c in "%x" % v])


o.append("InvExpP == " + digits(P - 2) + "\nInvExpN == " + digits(ORD - 2) + "\nSqrtExpP == " + digits((P + 1) // 4) + "\n")
o.append(r"""InvP(a) == Pow(a, InvExpP, MulP, SqrP)
InvN(a) == Pow(a, InvExpN, MulN, SqrN)
SqrtP(a) == Pow(a, SqrtExpP, MulP, SqrP)     \* a square root of a, if there is one
=============================================================================
""")
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "BigNat.tla")
open(path, "w").write("\n".join(x.rstrip("\n") for x in o) + "\n")
