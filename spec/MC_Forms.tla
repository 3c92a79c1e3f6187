-------------------------------- MODULE MC_Forms -------------------------------
(***************************************************************************)
(* Everything that lies near a well-formed container.  A form is put        *)
(* together slot by slot; in every slot there is a regular choice and a     *)
(* number of irregular ones, and at most MAXLEN slots of a form are         *)
(* irregular.  For each form the outcome that the grammar predicts is       *)
(* compared with the decoder of the specification, and the form is emitted  *)
(* as a call that the library has to answer likewise.                       *)
(*   sig   DER signatures           key   DER private keys                  *)
(*   wif   WIF strings              ext   extended-key strings              *)
(*   a58   Base58Check addresses    abech witness addresses                 *)
(***************************************************************************)
EXTENDS Address

Kind == IOEnv.KIND
MaxDev == atoi(IOEnv.MAXLEN)
VARIABLES sel, dev

Pat(n, k) == [i \in 1..n |-> (37 * i * i + 11 * i + k) % 256]
N32 == ToBytes32(OrderN)
(* slots: regular choices first                                             *)
S(reg, irr) == [reg |-> reg, irr |-> irr]
Size(s) == Len(s.reg) + Len(s.irr)
Value(s, i) == IF i <= Len(s.reg) THEN s.reg[i] ELSE s.irr[i - Len(s.reg)]

Contents ==
  S(<<Pat(20, 9)>>,
    <<<<>>, <<0>>, <<1>>, <<128>>, <<0, 128>>, <<0>> \o Rep(254, 32), <<0, 0>> \o Rep(33, 32), Pat(32, 200),
      <<0>> \o N32, N32, <<0>> \o ToBytes32(RawSub(OrderN, One)), Pat(33, 7), Zeros(30) \o <<5>>, Zeros(140) \o <<9, 8>>>>)
Forms == S(<<0>>, <<1, 2, 3, 4, 5, 6>>)
Deltas == S(<<0>>, <<1, -1, 3>>)
SigSlots == <<
  S(<<48>>, <<49, 0>>), S(<<0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>),
  S(<<2>>, <<3, 0>>), Forms, Deltas, Contents,
  S(<<2>>, <<3, 48>>), Forms, Deltas, Contents,
  S(<<<<>>>>, <<<<0>>, <<2, 1, 7>>>>), S(<<0>>, <<1, 2, 9>>) >>
KeySlots == <<
  S(<<48>>, <<49, 0>>), S(<<0>>, <<1, 2, 3, 4, 5, 6, 7>>), S(<<0>>, <<-1, 1, -5, 5, 256>>),
  S(<<<<2, 1, 1>>>>, <<<<2, 1, 0>>, <<2, 1, 2>>, <<2, 2, 1>>, <<3, 1, 1>>>>), S(<<4>>, <<3, 48>>), S(<<0>>, <<1, -1, 96, 224>>),
  S(<<Pat(32, 3)>>, <<Pat(31, 3), Pat(1, 3), <<>>, Pat(33, 3), Zeros(2) \o Pat(31, 3), Zeros(32), N32,
                      ToBytes32(RawSub(OrderN, One)), Rep(255, 32), Zeros(31) \o <<1>>>>),
  S(<<<<160, 2, 5, 0>>>>, <<<<>>, Pat(85, 1), Pat(200, 1), Pat(300, 1)>>), S(<<0>>, <<1, 2, 4, 5, 36>>) >>
Custom == <<<<76>>, <<7, 8>>, <<1, 2, 3>>, <<9, 9, 9, 9, 9>>, <<10>>, <<110, 49, 113>>>>
Nets == S(<<0, 1, 2, 3>>, <<>>)
\* changes of the text: 0 none; white space is allowed at the ends alone
Edits == S(<<0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
Checks == S(<<0>>, <<1, 2, 3, 4>>)
Lead == S(<<0>>, <<1, 2, 3, 4, 5>>)
WifSlots == << Nets, Lead, S(<<Pat(32, 1)>>, <<Zeros(32), Rep(255, 32), Pat(31, 1), Pat(33, 1), Pat(30, 1) \o <<1, 1>>, Pat(34, 1), <<>>>>),
               S(<<<<>>, <<1>>>>, <<<<0>>, <<2>>, <<129>>, <<1, 1>>, <<1, 0>>>>), Checks, Edits >>
ExtSlots == << Nets, S(<<0, 1>>, <<>>), Lead, S(<<Pat(41, 8)>>, <<Zeros(41), Rep(255, 41), Pat(40, 8), Pat(42, 8), <<>>>>),
               S(<<<<0>>, <<2>>, <<3>>>>, <<<<1>>, <<128>>, <<>>, <<0, 0>>>>), S(<<Pat(32, 1)>>, <<Zeros(32), Pat(31, 1), Pat(33, 1)>>), Checks, Edits >>
A58Slots == << Nets, S(<<0, 1>>, <<>>), Lead, S(<<Pat(20, 1), Zeros(20)>>, <<<<>>, Pat(19, 1), Pat(21, 1), Pat(32, 1), Pat(80, 1)>>), Checks, Edits >>
ABechSlots == << Nets, S(<<0>>, <<1, 2, 3>>), S(<<0, 1, 16>>, <<2, 17, 31>>),
                 S(<<20, 32, 2, 40>>, <<0, 1, 3, 19, 21, 31, 33, 39, 41>>), S(<<0>>, <<1, 2, 3>>),
                 S(<<0>>, <<1, 2, 3>>), S(<<0, 1>>, <<2>>), Edits >>
Slots == CASE Kind = "sig" -> SigSlots [] Kind = "key" -> KeySlots [] Kind = "wif" -> WifSlots
           [] Kind = "ext" -> ExtSlots [] Kind = "a58" -> A58Slots [] Kind = "abech" -> ABechSlots

Init == sel = <<>> /\ dev = 0 /\ TLCSet(1, <<>>)
Next == /\ Len(sel) < Len(Slots)
        /\ \E i \in 1..Size(Slots[Len(sel) + 1]) :
             /\ sel' = Append(sel, i)
             /\ dev' = dev + (IF i > Len(Slots[Len(sel) + 1].reg) THEN 1 ELSE 0)
             /\ dev' <= MaxDev
Done == Len(sel) = Len(Slots)
V(i) == Value(Slots[i], sel[i])
Regular(i) == sel[i] <= Len(Slots[i].reg)

(**************************** DER signatures ********************************)
Form(n, f) ==
  CASE f = 0 -> IF n < 128 THEN <<n>> ELSE <<129, n>>
    [] f = 1 -> <<129, n>>
    [] f = 2 -> <<130, 0, n>>
    [] f = 3 -> <<133, 0, 0, 0, 0, n>>
    [] f = 4 -> <<138>> \o Zeros(9) \o <<n>>
    [] f = 5 -> <<132, 1, 0, 0, n>>
    [] f = 6 -> <<128>>
Max0(n) == IF n < 0 THEN 0 ELSE n
DerInt(i) == <<V(i)>> \o Form(Max0(Len(V(i+3)) + V(i+2)), V(i+1)) \o V(i+3)
SigBody == DerInt(3) \o DerInt(7)
SeqHead(f, n) ==
  CASE f = 0 -> <<n % 128>> [] f = 1 -> <<0>> [] f = 2 -> <<127>> [] f = 3 -> <<128>> [] f = 4 -> <<129, n % 256>>
    [] f = 5 -> <<130, n \div 256, n % 256>> [] f = 6 -> <<131, 0, 0, 0>> [] f = 7 -> <<255>> [] f = 8 -> <<138>> \o Zeros(10)
Cut(s, n) == IF n >= Len(s) THEN <<>> ELSE Take(s, Len(s) - n)
SigText == Cut(<<V(1)>> \o SeqHead(V(2), Len(SigBody)) \o SigBody \o V(11), V(12))
Big(b) == LET v == StripZeros(b) IN Len(v) > 32 \/ (Len(v) <= 32 /\ ~Less(Num(Zeros(32 - Len(v)) \o v), OrderN))
Pad32(b) == LET v == StripZeros(b) IN Zeros(32 - Len(v)) \o v
SigLaw ==
  LET d == SigParse(SigText)
      r == V(6)  s == V(10)
      plain == V(2) # 7 /\ V(4) # 6 /\ V(8) # 6 /\ V(5) = 0 /\ V(9) = 0      \* the bytes are where they should be
      fine == Regular(1) /\ Regular(3) /\ Regular(7) /\ V(4) # 5 /\ V(8) # 5
  IN /\ plain /\ V(12) = 0 =>
          d.ok = fine /\ (fine => d.sig = IF Big(r) \/ Big(s) THEN Zeros(64) ELSE Pad32(r) \o Pad32(s))
     /\ plain /\ V(12) > Len(V(11)) /\ Len(s) >= V(12) => ~d.ok
     \* what was understood can be written canonically and is understood again
     /\ d.ok => SigParse(SigDer(d.sig)) = d
     \* bytes behind the second integer make no difference
     /\ d.ok => SigParse(SigText \o <<2, 1, 1>>) = d
     \* a regular form is canonical
     /\ dev = 0 => SigDer(d.sig) = SigText
(************************** DER private keys ********************************)
KeyBody == V(4) \o <<V(5), (Len(V(7)) + V(6) + 256) % 256>> \o V(7) \o V(8)
KeyHead(f, n) ==
  CASE f = 0 -> IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
    [] f = 1 -> <<130, n \div 256, n % 256>> [] f = 2 -> <<128>> [] f = 3 -> <<131, 0, n \div 256, n % 256>>
    [] f = 4 -> <<n % 128>> [] f = 5 -> <<129>> [] f = 6 -> <<255>> [] f = 7 -> <<132, 0, 0, n \div 256, n % 256>>
KeyText == Cut(<<V(1)>> \o KeyHead(V(2), Max0(Len(KeyBody) + V(3))) \o KeyBody, V(9))
KeyLaw ==
  LET k == KeyDerParse(KeyText)  v == V(7) IN
  /\ V(6) = 0 /\ V(9) = 0 =>
       k = (IF Regular(1) /\ V(2) \in {0, 1} /\ Regular(4) /\ Regular(5) /\ Len(v) <= 32
               /\ V(3) <= 0 /\ ValidKey(Zeros(32 - Len(v)) \o v)
            THEN Zeros(32 - Len(v)) \o v ELSE <<>>)
  \* what the length covers has to be there
  /\ V(2) \in {0, 1} /\ V(3) + V(9) > 0 => k = <<>>
  /\ k # <<>> => ValidKey(k) /\ KeyDerParse(KeyText \o <<1, 2>>) = k
                 /\ ((dev = 0 /\ GT # <<>>) => KeyDerParse(KeyDer(k, FALSE)) = k /\ KeyDerParse(KeyDer(k, TRUE)) = k
                                /\ Len(KeyDer(k, FALSE)) = 279 /\ Len(KeyDer(k, TRUE)) = 214)
(**************************** Base58Check texts *****************************)
TheNet == Net(V(1), IF V(1) = 3 THEN Custom ELSE <<>>)
Flip(s, i) == [s EXCEPT ![i] = (@ + 128) % 256]
Pre(own, other, f) ==
  CASE f = 0 -> own [] f = 1 -> other [] f = 2 -> Flip(own, 1) [] f = 3 -> Flip(own, Len(own))
    [] f = 4 -> <<>> [] f = 5 -> own \o own
Checked(data, f) ==
  LET c == Checksum4(data) IN
  data \o (CASE f = 0 -> c [] f = 1 -> Flip(c, 1) [] f = 2 -> Flip(c, 4) [] f = 3 -> Take(c, 3) [] f = 4 -> c \o <<0>>)
Mid(t) == Len(t) \div 2 + 1
Edit(t, f) ==
  IF t = <<>> THEN t
  ELSE CASE f = 0 -> t [] f = 1 -> <<32>> \o t [] f = 2 -> t \o <<10>> [] f = 3 -> Take(t, Mid(t)) \o <<32>> \o Drop(t, Mid(t))
         [] f = 4 -> Cut(t, 1) [] f = 5 -> Drop(t, 1) [] f = 6 -> t \o <<49>> [] f = 7 -> <<49>> \o t
         [] f = 8 -> [t EXCEPT ![Mid(t)] = 79] [] f = 9 -> [t EXCEPT ![Mid(t)] = IF @ = 50 THEN 51 ELSE 50]
\* the checksum fits by chance with probability 2^-32: taken as never
Sound(check, edit) == check = 0 /\ edit \in {0, 1, 2}
WifData == Pre(TheNet.secret, TheNet.pubkey, V(2)) \o V(3) \o V(4)
WifText_ == Edit(ToBase58(Checked(WifData, V(5))), V(6))
Pair(a, b) == Len(a) = Len(b)
WifLaw ==
  LET d == WifParse(WifText_, TheNet)  b == V(3) \o V(4) IN
  /\ (~Sound(V(5), V(6)) => ~d.ok)
  /\ (Sound(V(5), V(6)) /\ V(2) = 0) =>
       d.ok = (Len(b) = 32 \/ (Len(b) = 33 /\ b[33] = 1))
       /\ (d.ok => d.key = Take(b, 32) /\ d.comp = (Len(b) = 33))
  /\ V(2) \in {1, 2, 3} => ~d.ok
  /\ d.ok => WifParse(WifText(d.key, d.comp, TheNet), TheNet) = d
             /\ (V(6) = 0 => WifText(d.key, d.comp, TheNet) = WifText_)
ExtOwn == IF V(2) = 0 THEN TheNet.extsec ELSE TheNet.extpub
ExtData == Pre(ExtOwn, IF V(2) = 0 THEN TheNet.extpub ELSE TheNet.extsec, V(3)) \o V(4) \o V(5) \o V(6)
ExtText == Edit(ToBase58(Checked(ExtData, V(7))), V(8))
ExtLaw ==
  LET d == ExtParse(ExtText, ExtOwn)  b == V(4) \o V(5) \o V(6) IN
  /\ (~Sound(V(7), V(8)) => d = <<>>)
  /\ (Sound(V(7), V(8)) /\ V(3) = 0) => d = (IF Len(b) = 74 THEN b ELSE <<>>)
  /\ V(3) \in {1, 2, 3} => d = <<>>
  /\ d # <<>> => ExtParse(ToBase58Check(ExtOwn, d), ExtOwn) = d
                 /\ (V(8) = 0 => ToBase58Check(ExtOwn, d) = ExtText)
(******************************* addresses **********************************)
A58Own == IF V(2) = 0 THEN TheNet.pubkey ELSE TheNet.script
A58Text == Edit(ToBase58(Checked(Pre(A58Own, IF V(2) = 0 THEN TheNet.script ELSE TheNet.pubkey, V(3)) \o V(4), V(5))), V(6))
A58Law ==
  LET A == Addressees(A58Text, TheNet) IN
  /\ Cardinality(A) <= 1
  /\ ~Sound(V(5), V(6)) => A = {}
  /\ Sound(V(5), V(6)) /\ V(3) \in {0, 1} =>
       A = {<<IF V(2) = V(3) THEN 1 ELSE 2, V(4)>>}
  /\ \A a \in A : V(6) = 0 => AddressText(a[1], a[2], 400, TheNet) = A58Text
ProgBits == Pat(V(4), 77)
Groups ==
  LET g == ToBase32Raw(ProgBits)
      p == Len(g) * 5 - 8 * V(4)                              \* padding bits
  IN CASE V(5) = 0 -> g [] V(5) = 1 -> IF p = 0 THEN g ELSE [g EXCEPT ![Len(g)] = @ + 1]
       [] V(5) = 2 -> g \o <<0>> [] V(5) = 3 -> Cut(g, 1)
HrpOf == CASE V(2) = 0 -> TheNet.hrp [] V(2) = 1 -> Append(TheNet.hrp, 120)
           [] V(2) = 2 -> IF TheNet.hrp = <<98, 99>> THEN <<116, 98>> ELSE <<98, 99>> [] V(2) = 3 -> <<120>> \o Tail(TheNet.hrp)
Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
BechBase ==
  LET t == Bech32Encode(HrpOf, <<V(3)>> \o Groups)
      n == Len(t)
      s == CASE V(6) = 0 -> t [] V(6) = 1 -> [t EXCEPT ![n] = IF @ = 113 THEN 112 ELSE 113]
             [] V(6) = 2 -> [t EXCEPT ![n] = t[n-1], ![n-1] = t[n]] [] V(6) = 3 -> Cut(t, 6)
  IN CASE V(7) = 0 -> s [] V(7) = 1 -> Upper(s) [] V(7) = 2 -> Upper(Take(s, n \div 2)) \o Drop(s, n \div 2)
ABechText == Edit(BechBase, V(8))
ABechLaw ==
  LET A == Addressees(ABechText, TheNet)  v == V(3)  n == V(4) IN
  /\ Cardinality(A) <= 1
  /\ V(8) \in {1, 2, 3, 8, 9} => A = {}                       \* no white space, nothing foreign
  /\ V(2) # 0 => A = {}
  /\ V(8) = 0 /\ V(2) = 0 /\ V(5) = 0 /\ V(6) = 0 /\ V(7) # 2 =>
       A = (IF v = 0 THEN (IF n = 20 THEN {<<3, ProgBits>>} ELSE IF n = 32 THEN {<<4, ProgBits>>} ELSE {})
            ELSE IF v <= 16 /\ n \in 2..40 THEN {<<5, <<v>> \o ProgBits>>} ELSE {})
  /\ V(8) = 0 /\ V(5) = 1 /\ Groups # ToBase32Raw(ProgBits) => A = {}
  /\ \A a \in A : LET t == AddressText(a[1], a[2], 400, TheNet)
                  IN Addressees(t, TheNet) = {a} /\ (V(8) = 0 /\ V(7) = 0 => t = ABechText)
  /\ \A a \in A : Addressees(Upper(AddressText(a[1], a[2], 400, TheNet)), TheNet) = {a}

Law == Done =>
  CASE Kind = "sig" -> SigLaw [] Kind = "key" -> KeyLaw [] Kind = "wif" -> WifLaw
    [] Kind = "ext" -> ExtLaw [] Kind = "a58" -> A58Law [] Kind = "abech" -> ABechLaw
(****************************** calls **************************************)
C(op, t, n) == [op |-> op, a |-> <<t>> \o (IF Kind \in {"sig", "key"} THEN <<>> ELSE IF V(1) = 3 THEN Custom ELSE <<>>),
                n |-> n \o (IF Kind \in {"sig", "key"} THEN <<>> ELSE <<V(1)>>)]
Calls ==
  CASE Kind = "sig" -> <<C("sig_dec", SigText, <<>>)>>
    [] Kind = "key" -> <<C("key_dec", KeyText, <<>>)>>
    [] Kind = "wif" -> <<C("wif_dec", WifText_, <<>>)>>
    [] Kind = "ext" -> <<C(IF V(2) = 0 THEN "xk_unstr" ELSE "xp_unstr", ExtText, <<>>)>>
    [] Kind = "a58" -> <<C("addr_dec", A58Text, <<Len(A58Text) + 64>>)>>
    [] Kind = "abech" -> <<C("addr_dec", ABechText, <<Len(ABechText) + 64>>)>>
Emit == Done => PrintT(<<"CASE", ToJson([kind |-> Kind, calls |-> Calls])>>)
=============================================================================
