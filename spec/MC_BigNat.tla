------------------------------ MODULE MC_BigNat -------------------------------
(***************************************************************************)
(* The modular arithmetic of BigNat against the schoolbook one on bytes: a   *)
(* product is built by doubling and adding, one bit of the multiplier per     *)
(* step, with additions of 33-byte numbers and a conditional subtraction.     *)
(* At the end the limb arithmetic has to give the same number; sums,          *)
(* differences, squares, inverses, orders and encodings are compared as well. *)
(***************************************************************************)
EXTENDS BigNat, Hash, IOUtils
RANDOM == atoi(IOEnv.MAXLEN)
\* ---- numbers as 33 big-endian bytes
Add33(x, y) ==
  FoldLeft(LAMBDA s, i: LET t == x[34 - i] + y[34 - i] + s[1] IN <<t \div 256, <<t % 256>> \o s[2]>>,
           <<0, <<>>>>, [i \in 1..33 |-> i])[2]
Sub33(x, y) ==
  FoldLeft(LAMBDA s, i: LET t == x[34 - i] - y[34 - i] - s[1] IN
                        <<IF t < 0 THEN 1 ELSE 0, <<t % 256>> \o s[2]>>,
           <<0, <<>>>>, [i \in 1..33 |-> i])[2]
Geq33(x, y) == FoldLeft(LAMBDA s, i: IF s # 0 THEN s ELSE x[i] - y[i], 0, [i \in 1..33 |-> i]) >= 0
AddMod(x, y, m) == LET s == Add33(x, y) IN IF Geq33(s, m) THEN Sub33(s, m) ELSE s
B(x) == <<0>> \o x
FFs(n) == [i \in 1..n |-> 255]
P33 == <<0>> \o FFs(27) \o <<254, 255, 255, 252, 47>>
N33 == <<0>> \o FFs(15) \o <<254, 186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65>>
Z32 == Zeros(32)
Small(k) == Zeros(31) \o <<k>>
PM(m, k) == Tail(Sub33(m, B(Small(k))))          \* m - k
Half(m) == Tail(FoldLeft(LAMBDA s, i: LET t == s[1] * 256 + m[i] IN <<t % 2, Append(s[2], t \div 2)>>,
                         <<0, <<>>>>, [i \in 1..33 |-> i])[2])
\* the operands: both ends, the middle, single bits, one limb of zeros or ones, and digests
Reduce(x, m) == Tail(AddMod(B(x), Zeros(33), m))
Ops(m) == <<Z32, Small(1), Small(2), PM(m, 1), PM(m, 2), Half(m), <<128>> \o Zeros(31),
            Zeros(15) \o <<1>> \o Zeros(16), Reduce(FFs(16) \o Zeros(16), m), Zeros(16) \o FFs(16),
            <<127>> \o FFs(15) \o Zeros(16)>> \o [q \in 1..RANDOM |-> Reduce(SHA256(<<q>>), m)]
Mod(f) == IF f = "p" THEN P33 ELSE N33
Mul(f, a, b) == IF f = "p" THEN CanonP(MulP(a, b)) ELSE CanonN(MulN(a, b))
Sqr(f, a) == IF f = "p" THEN CanonP(SqrP(a)) ELSE CanonN(SqrN(a))
Add(f, a, b) == IF f = "p" THEN CanonP(AddP(a, b)) ELSE CanonN(AddN(a, b))
Sub(f, a, b) == IF f = "p" THEN CanonP(SubP(a, b)) ELSE CanonN(SubN(a, b))
Inv(f, a) == IF f = "p" THEN CanonP(InvP(a)) ELSE CanonN(InvN(a))
Num33(x) == FromBytes32(Tail(x))

VARIABLES f, i, j, k, acc                    \* field, operands, bits done, product so far
vars == <<f, i, j, k, acc>>
X == Ops(Mod(f))[i]
Y == Ops(Mod(f))[j]
Bit(x, n) == (x[n \div 8 + 1] \div 2 ^ (7 - (n % 8))) % 2       \* n = 0: the highest
Init == /\ f \in {"p", "n"} /\ i \in 1..11 + RANDOM /\ j \in 1..11 + RANDOM
        /\ j >= i \/ (i + j) % 3 = 0
        /\ k = 0 /\ acc = Zeros(33)
Step == /\ k < 256
        /\ k' = k + 1 /\ UNCHANGED <<f, i, j>>
        /\ LET d == AddMod(acc, acc, Mod(f))
           IN acc' = IF Bit(Y, k) = 1 THEN AddMod(d, B(X), Mod(f)) ELSE d
Next == Step
Constants == ToBytes32(PrimeP) = Tail(P33) /\ ToBytes32(OrderN) = Tail(N33)
             /\ ToBytes32(HalfN) = Half(N33)
Law ==
  /\ k = 0 => LET a == FromBytes32(X)  b == FromBytes32(Y)  s == Add(f, a, b)
              IN /\ Constants
                 /\ ToBytes32(a) = X
                 /\ ToBytes32(s) = Tail(AddMod(B(X), B(Y), Mod(f)))
                 /\ Sub(f, s, b) = a
                 /\ Less(a, b) = ~Geq33(B(X), B(Y))
                 /\ ToBytes32(Sub(f, a, b)) = IF Geq33(B(X), B(Y)) THEN Tail(Sub33(B(X), B(Y)))
                                              ELSE Tail(Add33(Sub33(B(X), B(Y)), Mod(f)))
                 /\ i = j => Sqr(f, a) = Mul(f, a, a)
                 /\ (i = j /\ X # Z32) => Mul(f, a, Inv(f, a)) = One
                 /\ (i = j /\ f = "p") => LET q == SqrP(a)  r == SqrtP(q) IN EqP(SqrP(r), q)
                 /\ LET z == ScaleCols(8, a) IN f = "p" => EqP(NormP(z), ScaleP(8, a))
  /\ k = 256 => ToBytes32(Mul(f, FromBytes32(X), FromBytes32(Y))) = Tail(acc)
===============================================================================
