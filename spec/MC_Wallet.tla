------------------------------- MODULE MC_Wallet -------------------------------
(***************************************************************************)
(* Every program of up to MAXLEN instructions over an alphabet of           *)
(* instructions, run by Wallet on the small curve of MC_Toy.  Beside each   *)
(* register stands what a user thinks it is: the path it was derived along  *)
(* and whether it is private, public or a signature.  Programs of full      *)
(* length are printed; the real library runs them on its own curve.         *)
(* ALPHA: the letters of the alphabet; SEEDS: how many seeds.               *)
(***************************************************************************)
EXTENDS MC_Toy, Wallet

MAXLEN == E("MAXLEN")
ALPHA == IOEnv.ALPHA
\* letters, as instructions without their registers
Letter(op) == CASE op = "soft" -> <<1, 0, 0, 0, 0, 0, 0, 0>>
                [] op = "soft2" -> <<1, 0, 0, 0, 0, 0, 0, 3>>
                [] op = "hard" -> <<1, 0, 0, 0, 128, 0, 0, 1>>
                [] op = "pub" -> <<2, 0, 0, 0, 0, 0, 0, 0>>
                [] op = "bytes" -> <<3, 0, 0, 0, 0, 0, 0, 0>>
                [] op = "text" -> <<4, 0, 1, 0, 0, 0, 0, 0>>
                [] op = "wif" -> <<5, 0, 0, 1, 0, 0, 0, 0>>
                [] op = "wifu" -> <<5, 0, 2, 0, 0, 0, 0, 0>>
                [] op = "der" -> <<6, 0, 0, 1, 0, 0, 0, 0>>
                [] op = "deru" -> <<6, 0, 0, 0, 0, 0, 0, 0>>
                [] op = "sign" -> <<7, 0, 0, 0, 0, 0, 0, 6>>
                [] op = "sign2" -> <<7, 0, 0, 0, 0, 0, 0, 9>>
                [] op = "verify" -> <<8, 0, 0, 0, 0, 0, 0, 6>>
                [] op = "pay1" -> <<9, 0, 0, 1, 0, 0, 0, 0>>
                [] op = "pay2" -> <<9, 0, 1, 2, 0, 0, 0, 0>>
                [] op = "pay3" -> <<9, 0, 2, 3, 0, 0, 0, 0>>
                [] op = "id" -> <<10, 0, 0, 1, 0, 0, 0, 0>>
                [] op = "idu" -> <<10, 0, 0, 0, 0, 0, 0, 0>>
Alphabets ==
  [ derive |-> {"soft", "soft2", "hard", "pub"},
    commute |-> {"soft", "hard", "pub"},
    serial |-> {"soft", "hard", "pub", "bytes", "text"},
    ident |-> {"soft", "hard", "pub", "id", "idu"},
    wif |-> {"soft", "hard", "wif", "wifu"},
    der |-> {"soft", "hard", "der", "deru"},
    sign |-> {"soft", "pub", "sign", "sign2", "verify"},
    pay |-> {"soft", "pub", "pay1", "pay2", "pay3"},
    all |-> {"soft", "hard", "pub", "bytes", "text", "wif", "deru", "sign", "verify", "pay1", "pay2", "pay3", "id"} ]
Letters == {Letter(a) : a \in Alphabets[ALPHA]}

(************************** replaced definitions ****************************)
WMaster(seed) == Zeros(9) \o B((7 * seed[1]) % 64) \o B(1 + (seed[1] % (N - 1)))
\* stand-ins for the two hashes: cheap, and different for different short input
WHash(n, b) == LET x == FoldLeft(LAMBDA a, v: (31 * a + v + 1) % 65521, 7, b)
               IN [j \in 1..n |-> (x * (2 * j + 1) + x \div (j + 3)) % 256]
WHash160(b) == WHash(20, b)
WHash256(b) == WHash(32, b)
\* MC_WalletBad: a fingerprint of the wrong encoding, which Meaning must notice
WFpr(r) == Take(Hash160(Ser65(KeyPoint(r))), 4)
WMsgHash(arg) == B(arg[4] % (N + 3))

(************************** what a user thinks ******************************)
\* the private extended key of a path, derived privately all the way
RECURSIVE Along(_, _)
Along(seed, path) ==
  IF path = <<>> THEN WMaster(seed)
  ELSE LET x == Along(seed, Take(path, Len(path) - 1))
       IN IF x = <<>> THEN <<>>
          ELSE DeriveX(x, path[Len(path)], Take(Hash160(Ser33(PubPoint(KeyOf(x)))), 4))
\* t as in Wallet; path; m the message of a signature
Thought(th, i) ==
  LET a == th[i[2]]  Bad == [t |-> 0, path |-> <<>>, m |-> <<>>]
  IN CASE Op(i) = 1 -> IF a.t \in {1, 2} /\ ~(a.t = 2 /\ i[5] >= 128)
                       THEN [a EXCEPT !.path = Append(a.path, Arg(i))] ELSE Bad
       [] Op(i) = 2 -> IF a.t = 1 THEN [a EXCEPT !.t = 2] ELSE Bad
       [] Op(i) \in {3, 4} -> IF a.t \in {1, 2} THEN a ELSE Bad
       [] Op(i) \in {5, 6} -> IF a.t = 1 THEN a ELSE Bad
       [] Op(i) = 7 -> IF a.t = 1 THEN [a EXCEPT !.t = 3, !.m = Arg(i)] ELSE Bad
       [] Op(i) \in {8, 9, 10} -> Bad

(******************************** states ************************************)
VARIABLES seed, prog, regs, thought, said
wvars == <<part, d, h, seed, prog, regs, thought, said>>
WInit ==
  /\ part = "wallet" /\ d = 0 /\ h = 0
  /\ seed \in {<<s>> : s \in 1..E("SEEDS")}
  /\ prog = <<>>
  /\ regs = <<[t |-> 1, v |-> WMaster(seed)]>>
  /\ thought = <<[t |-> 1, path |-> <<>>, m |-> <<>>]>>
  /\ said = <<>>
\* the signature the textbook gives: first nonce with a low R, smaller S
ToySign(key, hh) ==
  LET K[c \in Nat] == LET k == Num(TNonce(key, hh, Extra(c)))[1]
                      IN IF TLowR(V(Mult[k][1] % N)) THEN k ELSE K[c+1]
      k0 == K[0]
      r == Mult[k0][1] % N
      s == ((hh[32] + r * key[32]) * InvTabN[k0]) % N
  IN B(r) \o B(IF 2 * s > N THEN N - s ELSE s)
Made8(i) == [k \in 1..8 |-> i[k]]
WNext ==
  /\ Len(prog) < MAXLEN
  /\ \E x \in Letters, src \in 1..Len(regs), snd \in 1..Len(regs) :
       LET i == Made8([x EXCEPT ![2] = src, ![3] = IF x[1] = 8 THEN snd ELSE x[3]])
           r == regs[src]
       IN /\ r.t # 0
          /\ x[1] # 8 => snd = 1
          /\ x[1] = 8 => regs[snd].t = 3 /\ r.t \in {1, 2}
          /\ x[1] \in {5, 6, 7, 2} => r.t = 1
          /\ r.t = 3 => x[1] = 8
          /\ LET o == IF Signs(regs, i) THEN SigDer(ToySign(KeyOf(r.v), WMsgHash(Arg(i))))
                      ELSE LET y == Result(regs, i) IN y[1] \o y[2].v
             IN /\ prog' = Append(prog, i)
                /\ regs' = Append(regs, Left(regs, i, o))
                /\ thought' = Append(thought, Thought(thought, i))
                /\ said' = Append(said, o)
  /\ UNCHANGED <<part, d, h, seed>>
\* a hardened step from a public key: refused, and a broken precondition of debug builds
Refused(p, th) == \E k \in 1..Len(p) : p[k][1] = 1 /\ p[k][5] >= 128 /\ th[p[k][2]].t = 2
Emit ==
  Len(prog) = MAXLEN /\ seed = <<1>> =>
    PrintT(<<"CASE", ToJson([prog |-> prog, refused |-> Refused(prog, thought),
                             types |-> [k \in 1..Len(regs) |-> regs[k].t]])>>)

(****************************** invariants **********************************)
\* every register is what its path says, however it came about; where it is
\* empty, so is the path's key (or the step was hardened and public)
Meaning ==
  \A k \in 1..Len(regs) :
    LET r == regs[k]  a == thought[k]  x == Along(seed, a.path) IN
    /\ a.t = 0 => r = None
    /\ a.t = 1 => r = Reg(1, x)
    /\ a.t = 2 => r = (IF x = <<>> THEN None ELSE Reg(2, Neuter(x)))
    /\ (a.t = 3 /\ r.t = 3) => Len(r.v) = 64
    /\ (r.t = 1 /\ k > 1) => r.v[1] = Len(a.path)
\* what was reported: signatures of a path's key verify under that path's public
\* key, in whatever register; addresses lead back to the key's hash; the library
\* relation of Wallet accepts the reports and no others
Sense ==
  \A k \in 1..Len(prog) :
    LET i == prog[k]  src == SubSeq(regs, 1, k)  a == thought[i[2]] IN
    /\ Reports(src, i, said[k])
    /\ ~Reports(src, i, Append(said[k], 0))
    /\ said[k] # <<>> => ~Reports(src, i, [said[k] EXCEPT ![Len(said[k])] = (@ + 1) % 256])
    /\ (Op(i) = 8 /\ thought[i[3]].path = a.path /\ thought[i[3]].m = Arg(i)) => said[k] = <<1>>
    /\ Op(i) = 8 => (said[k] = <<1>>) =
          (LET sig == src[i[3]].v  q == Log[U(KeyPoint(src[i[2]]))]  hh == WMsgHash(Arg(i))[32]
           IN \E n \in 1..(N-1) : /\ sig[32] = Mult[n][1] % N
                                  /\ sig[64] \in {((hh + sig[32] * q) * InvTabN[n]) % N})
    /\ Op(i) = 9 => LET p == Payment(src[i[2]], i[4], Net(i[3] % 3, <<>>))
                    IN p[2] = {<<i[4], IF i[4] = 2 THEN Hash160(<<0, 20>> \o Hash160(KeyPub(src[i[2]])))
                                       ELSE Hash160(KeyPub(src[i[2]]))>>}
=============================================================================
