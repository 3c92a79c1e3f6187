--------------------------------- MODULE MC_Toy --------------------------------
(***************************************************************************)
(* The definitions of Secp and Key on a small curve of the same shape,      *)
(* y^2 = x^3 + 7 over a field of P elements with N - 1 points besides       *)
(* infinity, N prime.  Only the arithmetic of BigNat, the two hashes and    *)
(* the generator are replaced (MC_Toy.cfg); points, encodings, ECDSA,       *)
(* signing and BIP32 are evaluated as written, for every key, hash, pair of *)
(* numbers and tweak, and compared with the textbook.  What is unreachable  *)
(* on the real curve is ordinary here: x coordinates from N to P - 1, tweaks*)
(* beyond the order, sums at infinity, nonces with a high R.                *)
(* P, N, GX: environment.  PART: group, parse, verify, sign, bip32.         *)
(***************************************************************************)
EXTENDS Key
E(name) == atoi(IOEnv[name])
P == E("P")
N == E("N")
PART == IOEnv.PART
STEP == E("STEP")                        \* every STEP-th key, 1 for all

V(k) == <<k>> \o Tail(Zero)
(************************** replaced arithmetic *****************************)
ModInv(a, m) == CHOOSE b \in 1..(m-1) : (a * b) % m = 1
InvTabP == [a \in 0..(P-1) |-> IF a = 0 THEN 0 ELSE ModInv(a, P)]
InvTabN == [a \in 0..(N-1) |-> IF a = 0 THEN 0 ELSE ModInv(a, N)]
TPrime == V(P)
TOrder == V(N)
THalf == V((N - 1) \div 2)
TMulP(a, b) == V((a[1] * b[1]) % P)
TSqrP(a) == V((a[1] * a[1]) % P)
TAddP(a, b) == V((a[1] + b[1]) % P)
TSubP(a, b) == V((a[1] + P - (b[1] % P)) % P)
TScaleP(k, a) == V((k * a[1]) % P)
TInvP(a) == V(InvTabP[a[1] % P])
TMulN(a, b) == V((a[1] * b[1]) % N)
TAddN(a, b) == V((a[1] + b[1]) % N)
TInvN(a) == V(InvTabN[a[1] % N])
TCanonP(a) == V(a[1] % P)
TCanonN(a) == V(a[1] % N)
TSqrtP(a) ==                             \* a to the power (P+1)/4
  LET Pw[i \in Nat] == IF i = 0 THEN 1 ELSE (Pw[i-1] * a[1]) % P IN V(Pw[(P + 1) \div 4])
TLowR(r) == r[1] < (N + 1) \div 2
GX == E("GX")
GYs == {y \in 0..(P-1) : (y * y) % P = (GX * GX * GX + 7) % P}
TG == <<V(GX), V(CHOOSE y \in GYs : TRUE)>>
(******************************* textbook ***********************************)
Inf == <<0>>
Points == {<<x, y>> \in (0..(P-1)) \X (0..(P-1)) : (y * y) % P = (x * x * x + 7) % P}
TAdd(p, q) ==
  IF p = Inf THEN q ELSE IF q = Inf THEN p
  ELSE IF p[1] = q[1] /\ p[2] # q[2] THEN Inf
  ELSE LET m == IF p = q THEN (3 * p[1] * p[1] * InvTabP[(2 * p[2]) % P]) % P
                ELSE ((q[2] + P - p[2]) * InvTabP[(q[1] + P - p[1]) % P]) % P
           x == (m * m + 2 * P - p[1] - q[1]) % P
       IN <<x, (m * (p[1] + P - x) + P - p[2]) % P>>
G0 == <<TG[1][1], TG[2][1]>>
Mult == LET M[k \in 0..N] == IF k = 0 THEN Inf ELSE TAdd(M[k-1], G0) IN [k \in 0..(N-1) |-> M[k]]
Log == [q \in Points \cup {Inf} |-> CHOOSE k \in 0..(N-1) : Mult[k] = q]
L(p) == IF p = Inf THEN Infinity ELSE <<V(p[1]), V(p[2])>>
U(p) == IF p = Infinity THEN Inf ELSE <<p[1][1], p[2][1]>>
TJMulG(k) == J(L(Mult[k[1] % N]))
TJMul(k, p) == J(L(Mult[(k[1] * Log[U(p)]) % N]))
TPub(b) == L(Mult[b[32] % N])
B(k) == Zeros(31) \o <<k>>
\* stand-ins for the hashes: deterministic, reaching every nonce and tweak
TNonce(x, h, e) == B(1 + ((3 * x[32] + 5 * (h[32] % N) + 7 * (IF e = <<>> THEN 0 ELSE e[1])) % (N - 1)))
TBip32(c, child, header, data) ==
  Zeros(31) \o <<c[32]>> \o Zeros(31) \o <<(3 * c[32] + child[4] + header + 2 * data[32]) % 100>>

(******************************** states ************************************)
VARIABLES part, d, h
Hs == 0..(N + 2)
Init ==
  /\ part = PART
  /\ CASE part = "group" -> d \in 0..(N-1) /\ h \in 0..(N-1)
       [] part = "parse" -> d \in 0..(P+3) /\ h \in 0..9
       [] part = "verify" -> d \in {k \in 1..(N-1) : k % STEP = 0} /\ h \in Hs
       [] part = "sign" -> d \in {k \in 1..(N-1) : k % STEP = 0} /\ h \in Hs
       [] part = "bip32" -> d \in 1..(N-1) /\ h \in 0..(N+2)
Next == FALSE /\ UNCHANGED <<part, d, h>>

Order == Cardinality(Points) = N - 1 /\ Mult[N-1] = <<G0[1], P - G0[2]>> /\ TAdd(Mult[N-1], G0) = Inf
(* Group law: sums and multiples, in any Jacobian representation.           *)
Scaled(p, z) == <<V((p[1] * z * z) % P), V((p[2] * ((z * z * z) % P)) % P), V(z)>>
Group == part = "group" =>
  LET p == Mult[d]  q == Mult[h]  r == Mult[(d + h) % N] IN
  /\ Order
  /\ (q # Inf /\ p # Inf) =>
        \A z \in {1, 2, 5, P-1} :
          /\ Affine(JAdd(Scaled(p, z), L(q))) = L(r)
          /\ (r # Inf => IsPoint(JAdd(Scaled(p, z), L(q)), L(r)))
          /\ \A k \in 1..(N-1) : IsPoint(Scaled(p, z), L(Mult[k])) = (k = d)
  /\ (q # Inf) => Affine(JAdd(JInf, L(q))) = L(q) /\ AddPoints(L(q), L(p)) = L(r)
  /\ Affine(JDouble(J(L(p)))) = L(Mult[(2 * d) % N])
  /\ p # Inf => Affine(JMul(V(h), L(p))) = L(Mult[(d * h) % N])
  /\ (p # Inf /\ q # Inf /\ p[1] # q[1]) => \A t \in 1..(N-1) : IsSum(L(p), L(q), L(Mult[t])) = (t = (d + h) % N)
  /\ (p # Inf /\ q # Inf) => IsTwice(L(p), L(q)) = (h = (2 * d) % N)
(* Encodings: d stands for x, h for the header.                             *)
Parse == part = "parse" =>
  LET c == ParsePub(<<h>> \o B(d)) IN
  /\ (c # Infinity) = (h \in {2, 3} /\ \E q \in Points : q[1] = d)
  /\ c # Infinity => U(c) \in Points /\ Ser33(c) = <<h>> \o B(d) /\ c[2][1] % 2 = h - 2
  /\ \A y \in 0..(P+3) :
       LET u == ParsePub(<<h>> \o B(d) \o B(y)) IN
       (u # Infinity) = (<<d, y>> \in Points /\ (h = 4 \/ (h = 6 /\ y % 2 = 0) \/ (h = 7 /\ y % 2 = 1)))
       /\ (u # Infinity => u = <<V(d), V(y)>> /\ Ser65(u) = <<4>> \o B(d) \o B(y))
  /\ \A n \in {1, 32, 34, 64, 66} : ParsePub(<<h>> \o Rep(n - 1, d)) = Infinity
(* Verification: exactly the pairs some nonce produces, and their mirror.   *)
Made(r, s) == \E k \in 1..(N-1) : r = Mult[k][1] % N /\ r # 0 /\ s # 0
                                  /\ s = ((h + r * d) * InvTabN[k]) % N
Verify == part = "verify" =>
  /\ \A r \in 0..(N+3), s \in 0..(N+1) :
       LET v == Verifies(L(Mult[d]), <<>>, B(h), V(r), V(s)) IN
       /\ v = Made(r, s)
       /\ Verifies(L(Mult[d]), B(d), B(h), V(r), V(s)) = v
       /\ Verifies(L(Mult[d]), B((d % (N-1)) + 1), B(h), V(r), V(s)) = v    \* a wrong hint
       /\ v => Verifies(L(Mult[d]), <<>>, B(h), V(r), V(N - s))
(* Signing: one signature, valid, low in both halves, that of the first     *)
(* nonce with a low R; none only where its s would be zero.                 *)
K0 == LET K[c \in Nat] == LET k == Num(TNonce(B(d), B(h), Extra(c)))[1]
                          IN IF TLowR(V(Mult[k][1] % N)) THEN k ELSE K[c+1] IN K[0]
Sign == part = "sign" =>
  LET r0 == Mult[K0][1] % N
      s0 == ((h + r0 * d) * InvTabN[K0]) % N
      s1 == IF 2 * s0 > N THEN N - s0 ELSE s0
  IN \A r \in 0..(N+3), s \in 0..(N+1) :
       (r = r0 \/ s = s1 \/ (r + s + h) % 7 = 0) =>
       LET is == IsSignature(B(d), B(h), B(r) \o B(s)) IN
       /\ is = (r = r0 /\ s = s1 /\ s1 # 0)
       /\ is => Made(r, s) /\ 2 * s < N /\ TLowR(V(r))
(* Derivation: d the key, h the tweak, for normal and hardened children.    *)
Child(n) == <<0, 0, 0, n>>
X(k, depth) == <<depth, 1, 2, 3, 4, 0, 0, 0, 9>> \o B(h) \o B(k)
Pt(k) == Ser33(L(Mult[k]))
Bip32 == part = "bip32" =>
  LET k == DeriveKey(B(d), B(h), Child(5))  q == DerivePub(Pt(d), B(h), Child(5))
      hk == DeriveKey(B(d), B(h), <<128, 0, 0, 5>>) IN
  /\ (k = <<>>) = (h >= N \/ (d + h) % N = 0)
  /\ (q = <<>>) = (k = <<>>)
  /\ (hk = <<>>) = (k = <<>>)
  /\ k # <<>> => k[1] = B((d + h) % N) /\ q = <<Ser33(PubPoint(k[1])), k[2]>> /\ hk[1] = k[1]
  /\ DerivePub(Pt(d), B(h), <<128, 0, 0, 5>>) = <<>>
  /\ \A b \in {0, 1, 4, 6} : DerivePub(<<b>> \o Tail(Pt(d)), B(h), Child(5)) = <<>>
  /\ \A depth \in {0, 1, 7, 254, 255} : \A f \in {<<9, 8, 7, 6>>} :
       LET x == X(d, depth)
           a == DeriveX(x, Child(5), f)  b == DeriveXPub(Neuter(x), Child(5), f) IN
       /\ (a = <<>>) = (depth = 255 \/ k = <<>>)
       /\ (b = <<>>) = (a = <<>>)
       /\ a # <<>> =>
            /\ b = Neuter(a) /\ a[1] = depth + 1 /\ Slice(a, 1, 4) = f /\ Slice(a, 5, 4) = Child(5)
            /\ Len(a) = 73 /\ Len(b) = 74
            /\ \A i \in {0, 3} :                                        \* one step further
                 LET a2 == DeriveX(a, Child(i), f)  b2 == DeriveXPub(b, Child(i), f) IN
                 IF a2 = <<>> THEN b2 = <<>> ELSE b2 = Neuter(a2) /\ a2[1] = depth + 2
  /\ Unser74(Ser74(X(d, 3))) = X(d, 3)
=============================================================================
