-------------------------------- MODULE Wallet --------------------------------
(***************************************************************************)
(* The key operations composed.  A wallet is a row of registers; the first  *)
(* holds the master key of a seed, and every instruction of a program fills *)
(* the next one with something made from earlier ones:                      *)
(*   <<operation, source, second, flag, four argument bytes>>               *)
(* and reports what it made on the way (texts, encodings), then the new     *)
(* register.  Register types: 1 private, 2 public extended key, 3 signature;*)
(* 0 for what failed or is not a value.                                     *)
(***************************************************************************)
EXTENDS Address

None == [t |-> 0, v |-> <<>>]
Reg(t, v) == IF v = <<>> THEN None ELSE [t |-> t, v |-> v]
IsKey(r) == r.t \in {1, 2}
KeyPoint(r) == IF r.t = 1 THEN PubPoint(KeyOf(r.v)) ELSE ParsePub(KeyOf(r.v))
KeyPub(r) == IF r.t = 1 THEN Ser33(PubPoint(KeyOf(r.v))) ELSE KeyOf(r.v)
Fpr(r) == Take(Hash160(KeyPub(r)), 4)
MsgHash(arg) == Hash256(arg)
\* the secret of a public key, if some register has it
Secret(regs, p) ==
  LET S == {i \in 1..Len(regs) : regs[i].t = 1 /\ PubPoint(KeyOf(regs[i].v)) = p}
  IN IF S = {} THEN <<>> ELSE KeyOf(regs[CHOOSE i \in S : TRUE].v)

Op(i) == i[1]
Arg(i) == Drop(i, 4)
Payment(r, flag, net) ==                 \* <<text, kind, payload>>
  LET id == Hash160(KeyPub(r))
      pay == IF flag = 2 THEN Hash160(<<0, 20>> \o id) ELSE id
      text == AddressText(flag, pay, 200, net)
      A == Addressees(text, net)
  IN <<text, {<<a[1], a[2]>> : a \in A}>>

\* <<what is reported before the register, the register>>, of every operation but 7
Result(regs, i) ==
  LET r == regs[i[2]]
      X(v) == <<<<>>, Reg(r.t, v)>>
      Nil == <<<<>>, None>>
      net == Net(i[3] % 3, <<>>)
      Key(k) == Take(r.v, 41) \o k
  IN CASE Op(i) = 1 -> IF r.t = 1 THEN X(DeriveX(r.v, Arg(i), Fpr(r)))
                       ELSE IF r.t = 2 THEN X(DeriveXPub(r.v, Arg(i), Fpr(r))) ELSE Nil
       [] Op(i) = 2 -> IF r.t = 1 THEN <<<<>>, Reg(2, Neuter(r.v))>> ELSE Nil
       [] Op(i) = 3 -> IF r.t = 1 THEN <<Ser74(r.v), Reg(1, Unser74(Ser74(r.v)))>>
                       ELSE IF r.t = 2 THEN <<r.v, r>> ELSE Nil
       [] Op(i) = 4 -> IF ~IsKey(r) THEN Nil
                       ELSE LET pre == IF r.t = 1 THEN net.extsec ELSE net.extpub
                                text == ToBase58Check(pre, IF r.t = 1 THEN Ser74(r.v) ELSE r.v)
                                b == ExtParse(text, pre)
                            IN <<text, Reg(r.t, IF r.t = 1 THEN Unser74(b) ELSE b)>>
       [] Op(i) = 5 -> IF r.t # 1 THEN Nil
                       ELSE LET text == WifText(KeyOf(r.v), i[4] # 0, net)  d == WifParse(text, net)
                            IN <<text \o <<IF d.comp = (i[4] # 0) THEN 1 ELSE 0>>, Reg(1, Key(d.key))>>
       [] Op(i) = 6 -> IF r.t # 1 THEN Nil
                       ELSE LET b == KeyDer(KeyOf(r.v), i[4] # 0) IN <<b, Reg(1, Key(KeyDerParse(b)))>>
       [] Op(i) = 8 -> IF ~IsKey(r) \/ i[3] \notin 1..Len(regs) THEN Nil
                       ELSE IF regs[i[3]].t # 3 THEN Nil
                       ELSE LET sig == regs[i[3]].v  p == KeyPoint(r)
                            IN <<<<IF Verifies(p, Secret(regs, p), MsgHash(Arg(i)), Num(Take(sig, 32)), Num(Drop(sig, 32)))
                                   THEN 1 ELSE 0>>, None>>
       [] Op(i) = 9 -> IF ~IsKey(r) THEN Nil
                       ELSE LET p == Payment(r, i[4], net)
                                a == CHOOSE x \in p[2] : TRUE
                            IN <<p[1] \o <<a[1]>> \o a[2], None>>
       [] Op(i) = 10 -> IF ~IsKey(r) THEN Nil
                        ELSE <<KeyId(KeyPoint(r), i[4] # 0), None>>
Signs(regs, i) == Op(i) = 7 /\ regs[i[2]].t = 1
\* the report o of instruction i, and the register it leaves (a signature is
\* recognised, not computed)
Reports(regs, i, o) ==
  IF Signs(regs, i)
  THEN LET d == SigParse(o)
       IN d.ok /\ SigDer(d.sig) = o /\ IsSignature(KeyOf(regs[i[2]].v), MsgHash(Arg(i)), d.sig)
  ELSE IF Op(i) = 7 THEN o = <<>>
  ELSE LET x == Result(regs, i) IN o = x[1] \o x[2].v
Left(regs, i, o) ==
  IF Signs(regs, i) THEN [t |-> 3, v |-> SigParse(o).sig]
  ELSE IF Op(i) = 7 THEN None
  ELSE Result(regs, i)[2]

Instr(prog, k) == Slice(prog, 8 * (k - 1), 8)
Steps(prog) == Len(prog) \div 8
RECURSIVE Runs(_, _, _, _)
Runs(regs, prog, k, o) ==                \* instructions from the k-th on, o[k+1] their reports
  \/ k > Steps(prog)
  \/ /\ Reports(regs, Instr(prog, k), o[k+1])
     /\ Runs(Append(regs, Left(regs, Instr(prog, k), o[k+1])), prog, k + 1, o)
WalletAllowed(seed, prog, o) ==
  /\ Len(o) = Steps(prog) + 1
  /\ o[1] = MasterKey(seed)
  /\ Runs(<<[t |-> 1, v |-> o[1]]>>, prog, 1, o)
=============================================================================
