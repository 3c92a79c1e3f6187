--------------------------------- MODULE Secp ---------------------------------
(***************************************************************************)
(* The curve secp256k1 (y^2 = x^3 + 7 over p, generator G of order n),      *)
(* SEC 1 point encodings, ECDSA and RFC 6979.                               *)
(*                                                                         *)
(* Affine points are <<x, y>> with canonical coordinates, <<>> the point at *)
(* infinity; Jacobian points <<X, Y, Z>>, Z = 0 at infinity.                *)
(***************************************************************************)
EXTENDS Hash, BigNat, Json, IOUtils, TLC

G == << <<6040, 6080, 5829, 1282, 5535, 5228, 5944, 7013, 7164, 6164, 705, 7438, 2396, 4145, 4438, 6005, 6620, 5111, 3993, 243>>,
        <<5304, 6278, 1022, 4001, 6596, 2572, 6677, 2324, 6068, 2024, 554, 7202, 8128, 4733, 5494, 6284, 1699, 5049, 3766, 144>> >>
Infinity == <<>>

(******************************* group law *********************************)
JInf == <<One, One, Zero>>
J(p) == IF p = Infinity THEN JInf ELSE <<p[1], p[2], One>>
IsInf(j) == IsZeroP(j[3])
JDouble(j) ==
  IF IsInf(j) THEN JInf
  ELSE LET A == SqrP(j[1])  B == SqrP(j[2])  C == SqrP(B)
           S == ScaleP(4, MulP(j[1], B))
           M == ScaleP(3, A)
           X3 == SubP(SqrP(M), ScaleP(2, S))
           Y3 == SubP(MulP(M, SubP(S, X3)), ScaleP(8, C))
       IN <<X3, Y3, ScaleP(2, MulP(j[2], j[3]))>>
\* j plus an affine point that is not infinity
JAdd(j, p) ==
  IF IsInf(j) THEN J(p)
  ELSE LET ZZ == SqrP(j[3])
           H == SubP(MulP(p[1], ZZ), j[1])
           R == SubP(MulP(p[2], MulP(j[3], ZZ)), j[2])
       IN IF IsZeroP(H) THEN (IF IsZeroP(R) THEN JDouble(j) ELSE JInf)
          ELSE LET H2 == SqrP(H)  H3 == MulP(H, H2)  V == MulP(j[1], H2)
                   X3 == SubP(SubP(SqrP(R), H3), ScaleP(2, V))
               IN <<X3, SubP(MulP(R, SubP(V, X3)), MulP(j[2], H3)), MulP(j[3], H)>>
Affine(j) ==
  IF IsInf(j) THEN Infinity
  ELSE LET zi == InvP(j[3])  zz == SqrP(zi)
       IN <<CanonP(MulP(j[1], zz)), CanonP(MulP(j[2], MulP(zz, zi)))>>
\* j is the affine point p (no inversion)
IsPoint(j, p) == ~IsInf(j) /\ EqP(j[1], MulP(p[1], SqrP(j[3])))
                 /\ EqP(j[2], MulP(p[2], MulP(SqrP(j[3]), j[3])))
OnCurve(p) == EqP(SqrP(p[2]), AddP(MulP(SqrP(p[1]), p[1]), <<7>> \o Tail(Zero)))
\* affine r = p + q for distinct points that are not each other's negation
IsSum(p, q, r) ==
  LET dx == SubP(q[1], p[1])  dy == SubP(q[2], p[2])
  IN ~IsZeroP(dx)
     /\ EqP(SqrP(dy), MulP(SqrP(dx), AddP(AddP(p[1], q[1]), r[1])))
     /\ EqP(MulP(dy, SubP(p[1], r[1])), MulP(AddP(r[2], p[2]), dx))
IsTwice(p, r) ==
  LET d == ScaleP(2, p[2])  m == ScaleP(3, SqrP(p[1]))
  IN EqP(SqrP(m), MulP(SqrP(d), AddP(ScaleP(2, p[1]), r[1])))
     /\ EqP(MulP(m, SubP(p[1], r[1])), MulP(AddP(r[2], p[2]), d))

(* Multiples of G: GT[w][d] = d * 256^(w-1) * G.  The table is data from    *)
(* outside; TableOK, which MC_Secp evaluates, is its definition.            *)
GT == IF "GTABLE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GTABLE) ELSE <<>>
TableOK ==
  /\ Len(GT) = 32 /\ GT[1][1] = G /\ OnCurve(G)
  /\ \A w \in 1..32 :
       /\ Len(GT[w]) = 255
       /\ w > 1 => IsTwice(GT[w-1][128], GT[w][1])
       /\ IsTwice(GT[w][1], GT[w][2])
       /\ \A d \in 3..255 : IsSum(GT[w][d-1], GT[w][1], GT[w][d])
JMulG(k) ==                              \* canonical k
  LET b == ToBytes32(k)
      S[i \in 0..32] == IF i = 0 THEN JInf
        ELSE IF b[33-i] = 0 THEN S[i-1] ELSE JAdd(S[i-1], GT[i][b[33-i]])
  IN S[32]
MulG(k) == Affine(JMulG(k))
JMul(k, p) ==
  FoldLeft(LAMBDA j, bit: IF bit = 1 THEN JAdd(JDouble(j), p) ELSE JDouble(j), JInf,
           FlattenSeq([i \in 1..32 |-> LET c == ToBytes32(k)[i] IN [n \in 1..8 |-> (c \div P2[9-n]) % 2]]))
AddPoints(p, q) == IF q = Infinity THEN p ELSE Affine(JAdd(J(p), q))

(******************************** keys *************************************)
Num(b32) == FromBytes32(b32)
ValidKey(b32) == LET k == Num(b32) IN k # Zero /\ Less(k, OrderN)
ModN(b32) == CanonN(Num(b32))
\* public key of a valid private key, remembered per run in register 1
PubPoint(b32) ==
  LET memo == TLCGet(1) IN
  IF b32 \in DOMAIN memo THEN memo[b32]
  ELSE LET p == MulG(Num(b32)) IN IF TLCSet(1, memo @@ (b32 :> p)) THEN p ELSE p
IsOdd(a) == a[1] % 2 = 1
Ser33(p) == <<IF IsOdd(p[2]) THEN 3 ELSE 2>> \o ToBytes32(p[1])
Ser65(p) == <<4>> \o ToBytes32(p[1]) \o ToBytes32(p[2])
Lift(x, odd) ==
  LET c == AddP(MulP(SqrP(x), x), <<7>> \o Tail(Zero))
      y == CanonP(SqrtP(c))
  IN IF ~EqP(SqrP(y), c) THEN Infinity
     ELSE <<x, IF IsOdd(y) = odd THEN y ELSE RawSub(PrimeP, y)>>
\* the point an encoding stands for, Infinity if none
ParsePub(b) ==
  IF Len(b) = 33 /\ b[1] \in {2, 3}
  THEN LET x == Num(Drop(b, 1)) IN IF Less(x, PrimeP) THEN Lift(x, b[1] = 3) ELSE Infinity
  ELSE IF Len(b) = 65 /\ b[1] \in {4, 6, 7}
  THEN LET x == Num(Slice(b, 1, 32))  y == Num(Drop(b, 33))
       IN IF Less(x, PrimeP) /\ Less(y, PrimeP) /\ OnCurve(<<x, y>>)
             /\ (b[1] # 4 => IsOdd(y) = (b[1] = 7))
          THEN <<x, y>> ELSE Infinity
  ELSE Infinity

(******************************** ECDSA ************************************)
\* the equation, given the discrete logarithm d of the key or (d = Zero) its point
XIsR(j, r) ==                            \* the x coordinate of j is r modulo n
  ~IsInf(j) /\ LET zz == SqrP(j[3])  x(v) == EqP(j[1], MulP(v, zz))
               IN x(r) \/ (LET r2 == Carry20x(AddCols(r, OrderN)) IN Less(r2, PrimeP) /\ x(r2))
JSum(j, p) == IF p = Infinity THEN j ELSE JAdd(j, p)
Ecdsa(p, d, h32, r, s) ==
  /\ r # Zero /\ Less(r, OrderN) /\ s # Zero /\ Less(s, OrderN)
  /\ LET w == InvN(s)  u1 == CanonN(MulN(ModN(h32), w))  u2 == CanonN(MulN(r, w))
     IN IF d # Zero THEN XIsR(JMulG(CanonN(AddN(u1, MulN(u2, d)))), r)
        ELSE XIsR(JSum(JMulG(u1), Affine(JMul(u2, p))), r)
\* hint: 32 bytes of a claimed logarithm, checked here, or <<>>
Verifies(p, hint, h32, r, s) ==
  IF hint # <<>> /\ ValidKey(hint) /\ PubPoint(hint) = p
  THEN Ecdsa(p, Num(hint), h32, r, s)
  ELSE Ecdsa(p, Zero, h32, r, s)

(* RFC 6979 with SHA-256: the nonce for key x, hash h (modulo n, 3.2 d) and  *)
(* additional data e.                                                       *)
Nonce6979(x, h, e) ==
  LET data == x \o ToBytes32(ModN(h)) \o e
      ka == HMAC256(Zeros(32), Rep(1, 32) \o <<0>> \o data)
      va == HMAC256(ka, Rep(1, 32))
      kb == HMAC256(ka, va \o <<1>> \o data)
      vb == HMAC256(kb, va)
      RECURSIVE Gen(_, _)
      Gen(k, v) == LET t == HMAC256(k, v)
                   IN IF ValidKey(t) THEN t
                      ELSE LET k2 == HMAC256(k, t \o <<0>>) IN Gen(k2, HMAC256(k2, t))
  IN Gen(kb, vb)
(* Signing: nonces without and with a counter as additional data are tried  *)
(* in turn until R is below 2^255; S is the smaller of s and n - s.         *)
LowR(r) == r[20] < 256
LE32(n) == <<n % 256, (n \div 256) % 256, 0, 0>>
Extra(c) == IF c = 0 THEN <<>> ELSE LE32(c) \o Zeros(28)
\* s (at most n/2) completes r for nonce k, up to sign
SFits(x, h, k, r, s) ==
  LET sk == CanonN(MulN(s, k))  t == CanonN(AddN(ModN(h), MulN(r, x)))
  IN s # Zero /\ ~Less(HalfN, s) /\ (sk = t \/ sk = RawSub(OrderN, t))
IsSignature(x, h, sig) ==                \* sig: 64 bytes r, s
  LET r == Num(Take(sig, 32))  s == Num(Drop(sig, 32))
      RECURSIVE Grind(_)
      Grind(c) ==
        LET k == Num(Nonce6979(x, h, Extra(c)))  j == JMulG(k)
        IN IF XIsR(j, r) THEN LowR(r) /\ SFits(Num(x), h, k, r, s)
           ELSE ~LowR(CanonN(Affine(j)[1])) /\ Grind(c+1)
  IN Less(r, OrderN) /\ Less(s, OrderN) /\ Grind(0)
\* a signature made by the library, in normal form; v: whether it verifies (1), and with
\* the other S (2), for another hash (4), another key (8), another R (16)
OwnSignature(v, sig) ==
  LET r == Num(Take(sig, 32))  s == Num(Drop(sig, 32))
  IN /\ v = 3
     /\ r # Zero /\ Less(r, OrderN) /\ LowR(r)
     /\ s # Zero /\ ~Less(HalfN, s)
=============================================================================
