-------------------------------- MODULE MC_Secp -------------------------------
(***************************************************************************)
(* The definition of the table of multiples of G, and laws of the group on  *)
(* sampled and extreme scalars.                                             *)
(***************************************************************************)
EXTENDS Secp
VARIABLE i
Init == i = 0 /\ TLCSet(1, <<>>)
Next == i < 40 /\ i' = i + 1
N1 == RawSub(OrderN, One)
\* scalars: pseudo-random, with the extremes first
Sc(k) == CASE k = 0 -> One [] k = 1 -> N1 [] k = 2 -> HalfN
           [] OTHER -> CanonN(Num(SHA256(<<k>>)))
Neg(p) == <<p[1], RawSub(PrimeP, p[2])>>
Table == i = 0 => TableOK
\* kG is on the curve, encodings are inverse, (n-k)G is its negation
Laws == LET k == Sc(i)  p == MulG(k)
        IN /\ OnCurve(p) /\ ParsePub(Ser33(p)) = p /\ ParsePub(Ser65(p)) = p
           /\ IsPoint(JMulG(RawSub(OrderN, k)), Neg(p))
           /\ IsInf(JAdd(JMulG(k), Neg(p)))
           /\ i % 8 = 0 => IsPoint(JMul(k, G), p)
           /\ JAdd(JMulG(k), p) # JInf /\ Affine(JAdd(JMulG(k), p)) = MulG(CanonN(AddN(k, k)))
Inverses == LET k == Sc(i) IN EqN(MulN(k, InvN(k)), One) /\ EqP(MulP(k, InvP(k)), One)
=============================================================================
