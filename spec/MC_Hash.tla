------------------------------- MODULE MC_Hash --------------------------------
(***************************************************************************)
(* The hash machines of Hash.tla as transition systems.                     *)
(*   stream: a message fed in pieces, with a chaining value and an unfinished *)
(*           block as state; the digest never depends on the pieces           *)
(*   mid:    2^k zero bytes fed by doubling; reaches the table of HashMid      *)
(*   hmac:   keys grown byte by byte through the block size                     *)
(* Every message and key reached is emitted as a call for the library.          *)
(***************************************************************************)
EXTENDS HashMid, IOUtils, Json
KIND == IOEnv.KIND
MAX == atoi(IOEnv.MAXLEN)
W == 0..3                                   \* SHA-1, RIPEMD-160, SHA-256, SHA-512
Name == <<"sha1", "rmd160", "sha256", "sha512">>
Blk(w) == IF w = 3 THEN 128 ELSE 64
IV(w) == CASE w \in {0, 1} -> IV160 [] w = 2 -> IV256 [] w = 3 -> IV512
Absorb(w, h, s) == CASE w = 0 -> Absorb1(h, s) [] w = 1 -> AbsorbRMD(h, s)
                     [] w = 2 -> Absorb256(h, s) [] w = 3 -> Absorb512(h, s)
Final(w, h, s, len) == CASE w = 0 -> Final1(h, s, len) [] w = 1 -> FinalRMD(h, s, len)
                         [] w = 2 -> Final256(h, s, len) [] w = 3 -> Final512(h, s, len)
H(w, s) == CASE w = 0 -> SHA1(s) [] w = 1 -> RIPEMD160(s) [] w = 2 -> SHA256(s) [] w = 3 -> SHA512(s)
Mid(w, k) == CASE w = 0 -> Mid1[k - 6] [] w = 1 -> MidRMD[k - 6] [] w = 2 -> Mid256[k - 6] [] w = 3 -> Mid512[k - 6]
Byte(i) == (i * 37 + 11 + (i \div 7)) % 256
Msg(from, n) == [i \in 1..n |-> Byte(from + i)]

VARIABLES w, h, buf, fed
vars == <<w, h, buf, fed>>
Pieces == {1, 7, 55, 64, 72}
Init == CASE KIND = "stream" -> w \in W /\ h = IV(w) /\ buf = <<>> /\ fed = 0
          [] KIND = "mid" -> w \in W /\ h = Absorb(w, IV(w), Zeros(128)) /\ buf = <<>> /\ fed = 7
          [] KIND = "hmac" -> w \in {2, 3} /\ h = <<>> /\ buf = <<>> /\ fed = 0
Feed(n) ==
  LET s == buf \o Msg(fed, n)
      m == Len(s) - (Len(s) % Blk(w))
  IN /\ fed + n <= MAX
     /\ h' = Absorb(w, h, Take(s, m)) /\ buf' = Drop(s, m) /\ fed' = fed + n /\ w' = w
Double == fed < MAX /\ h' = Absorb(w, h, Zeros(2 ^ fed)) /\ fed' = fed + 1 /\ UNCHANGED <<w, buf>>
Grow(b) == Len(buf) < MAX /\ buf' = Append(buf, b) /\ UNCHANGED <<w, h, fed>>
Next == CASE KIND = "stream" -> \E n \in Pieces : Feed(n)
          [] KIND = "mid" -> Double
          [] KIND = "hmac" -> Grow(IF Len(buf) % 5 = 4 THEN 0 ELSE Byte(Len(buf)))
Lf == IF w = 3 THEN 16 ELSE 8
Padding ==
  LET p == PadTail(buf, [i \in 1..Lf |-> 255], Blk(w))
  IN /\ Len(p) \in {Blk(w), 2 * Blk(w)}
     /\ (Len(p) = Blk(w)) = (Len(buf) + 1 + Lf <= Blk(w))
     /\ Take(p, Len(buf)) = buf /\ p[Len(buf) + 1] = 128
     /\ \A i \in Len(buf) + 2 .. Len(p) - Lf : p[i] = 0
     /\ \A i \in Len(p) - Lf + 1 .. Len(p) : p[i] = 255
Mac(k, m) == IF w = 2 THEN HMAC256(k, m) ELSE HMAC512(k, m)
\* the inner and outer hash as machines that start from the key's block
Mac2(k, m) ==
  LET kk == (IF Len(k) > Blk(w) THEN H(w, k) ELSE k)
      pad(x) == Absorb(w, IV(w), XorB(kk \o Zeros(Blk(w) - Len(kk)), x))
      B == Blk(w)
      inner == Final(w, pad(54), m, LenPair(B + Len(m)))
  IN Final(w, pad(92), inner, LenPair(B + Len(inner)))
MacMsg == Msg(3, Len(buf) % 70)
Law == CASE KIND = "stream" -> /\ Len(buf) < Blk(w)
                               /\ Padding
                               /\ Final(w, h, buf, LenPair(fed)) = H(w, Msg(0, fed))
         [] KIND = "mid" -> h = Mid(w, fed)
         [] KIND = "hmac" -> /\ Mac(buf, MacMsg) = Mac2(buf, MacMsg)
                             /\ Len(buf) < Blk(w) => Mac(Append(buf, 0), MacMsg) = Mac(buf, MacMsg)
                             /\ Len(buf) > Blk(w) => Mac(H(w, buf), MacMsg) = Mac(buf, MacMsg)
Case == CASE KIND = "stream" -> [op |-> Name[w + 1], a |-> <<Msg(0, fed)>>, n |-> <<>>]
          [] KIND = "hmac" -> [op |-> IF w = 2 THEN "hmac256" ELSE "hmac512", a |-> <<buf, MacMsg>>, n |-> <<>>]
Emit == KIND = "mid" \/ PrintT(<<"CASE", ToJson([kind |-> KIND, calls |-> <<Case>>])>>)
===============================================================================
