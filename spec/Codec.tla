-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Hex, Base64, Base32, Base58, Base58Check, Bech32 and the integer codes, *)
(* written from RFC 4648, BIP173 and the header documentation as functions *)
(* on byte strings.  A decoder's result is <<count, bytes>>.               *)
(***************************************************************************)
EXTENDS Hash

(****************************** bit regrouping *****************************)
\* the bits of all elements of s, w of each, high ones first
ToBits(s, w) == [k \in 1..(w * Len(s)) |-> (s[((k-1) \div w) + 1] \div P2[w - ((k-1) % w)]) % 2]
\* F(1) \o ... \o F(n), in pieces to keep recursion shallow
Flat(n, F(_)) ==
  FlattenSeq([j \in 1..((n + 255) \div 256) |->
    FlattenSeq([i \in 1..(IF 256*j <= n THEN 256 ELSE n - 256*(j-1)) |-> F(256*(j-1) + i)])])
\* the complete w-bit groups of a bit string
FromBits(b, w) == LET I == [i \in 1..w |-> i]
  IN [k \in 1..(Len(b) \div w) |-> FoldLeft(LAMBDA acc, i: 2*acc + b[(k-1)*w + i], 0, I)]
\* zero-fill to a multiple of w
PadBits(b, w) == b \o Zeros((w - (Len(b) % w)) % w)
Regroup(s, w, v) == FromBits(ToBits(s, w), v)          \* drops incomplete groups
RegroupPad(s, w, v) == FromBits(PadBits(ToBits(s, w), v), v)

FirstIndex(s, Bad(_)) ==                 \* least i with Bad(s[i]), or Len(s)+1
  LET I == {i \in 1..Len(s) : Bad(s[i])}
  IN IF I = {} THEN Len(s)+1 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* Decode table of an alphabet: 256 entries, NoDigit for the rest
NoDigit == 999
TableOf(alpha) == [c \in 0..255 |->
  LET I == {i \in 1..Len(alpha) : alpha[i] = c} IN
  IF I = {} THEN NoDigit ELSE (CHOOSE i \in I : TRUE) - 1]
Digits(T, s) == [i \in 1..Len(s) |-> T[s[i]]]

UpperAZ == [i \in 1..26 |-> 64+i]
LowerAZ == [i \in 1..26 |-> 96+i]
Dec09   == [i \in 1..10 |-> 47+i]

(********************************** hex ************************************)
HexLower == Dec09 \o SubSeq(LowerAZ,1,6)
HexUpper == Dec09 \o SubSeq(UpperAZ,1,6)
HexVal == [c \in 0..255 |-> IF TableOf(HexLower)[c] # NoDigit THEN TableOf(HexLower)[c]
                            ELSE TableOf(HexUpper)[c]]
ToHex(s, up) == LET A == IF up # 0 THEN HexUpper ELSE HexLower
  IN [k \in 1..(2 * Len(s)) |->
        LET c == s[(k+1) \div 2] IN A[(IF k % 2 = 1 THEN c \div 16 ELSE c % 16) + 1]]
FromHex(s) ==
  LET pairs == [k \in 1..(Len(s) \div 2) |-> <<HexVal[s[2*k-1]], HexVal[s[2*k]]>>]
      n == FirstIndex(pairs, LAMBDA p: p[1] = NoDigit \/ p[2] = NoDigit) - 1
  IN <<n, [k \in 1..n |-> 16*pairs[k][1] + pairs[k][2]]>>

\* hex dump: the separator written before byte i (0-based)
DumpSep(i) == IF i = 0 THEN <<>> ELSE
  Rep(32, (IF i % 4 = 0 THEN 1 ELSE 0) + (IF i % 8 = 0 THEN 1 ELSE 0)
          + (IF i % 16 = 0 THEN 1 ELSE 0)) \o (IF i % 32 = 0 THEN <<10>> ELSE <<>>)
HexDump(s, up) ==
  Flat(Len(s), LAMBDA i: DumpSep(i-1) \o ToHex(<<s[i]>>, up)) \o <<10>>

(********************************* base64 **********************************)
B64Std == UpperAZ \o LowerAZ \o Dec09 \o <<43, 47>>
B64Url == UpperAZ \o LowerAZ \o Dec09 \o <<45, 95>>
T64Std == TableOf(B64Std)
T64Url == TableOf(B64Url)
EQ == 61
ToBase64(s, url) ==
  LET A == IF url THEN B64Url ELSE B64Std
      d == RegroupPad(s, 8, 6)
      t == [i \in 1..Len(d) |-> A[d[i]+1]]
  IN IF url THEN t ELSE t \o Rep(EQ, (4 - (Len(t) % 4)) % 4)
\* the digits of the groups of g before the first group with a non-digit
GoodGroups(d, g) ==
  LET i == FirstIndex(d, LAMBDA x: x = NoDigit)
  IN IF i > Len(d) THEN d ELSE SubSeq(d, 1, ((i-1) \div g) * g)
StripEq(s) ==
  IF Len(s) > 0 /\ s[Len(s)] = EQ
  THEN IF Len(s) > 1 /\ s[Len(s)-1] = EQ THEN Take(s, Len(s)-2) ELSE Take(s, Len(s)-1)
  ELSE s
Counted(s) == <<Len(s), s>>
FromBase64(s, url) ==
  IF url THEN Counted(Regroup(GoodGroups(Digits(T64Url, s), 4), 6, 8))
  ELSE Counted(Regroup(GoodGroups(Digits(T64Std, StripEq(s)), 4), 6, 8))

(********************************* base32 **********************************)
B32 == LowerAZ \o SubSeq(Dec09, 3, 8)
T32 == LET t == TableOf(B32) IN [c \in 0..255 |-> IF c \in 65..90 THEN t[c+32] ELSE t[c]]
ToBase32Raw(s) == RegroupPad(s, 8, 5)
ToBase32(s) ==
  LET d == ToBase32Raw(s)
  IN [i \in 1..Len(d) |-> B32[d[i]+1]] \o Rep(EQ, (8 - (Len(d) % 8)) % 8)
UntilEq(s) == Take(s, FirstIndex(s, LAMBDA c: c = EQ) - 1)
\* bytes in n characters; a last group of 1, 3 or 6 characters stands for none
B32Bytes(n) == 5 * (n \div 8) + <<0,0,1,0,2,3,0,4>>[(n % 8) + 1]
Ungroup32(digits) ==
  LET d == GoodGroups(digits, 8) IN Counted(Take(Regroup(d, 5, 8), B32Bytes(Len(d))))
FromBase32(s) == Ungroup32(Digits(T32, UntilEq(s)))
FromBase32Raw(s) == Ungroup32([i \in 1..Len(s) |-> IF s[i] < 32 THEN s[i] ELSE NoDigit])

(********************************* base58 **********************************)
(* Numbers are little-endian limb sequences; MulAdd(x,m,a,b) = x*m + a in   *)
(* base b.  No intermediate value exceeds 2^31.                             *)
MulAdd(x, m, a, b) ==
  LET st == FoldLeft(LAMBDA p, d: LET v == d*m + p[1] IN <<v \div b, Append(p[2], v % b)>>,
                     <<a, <<>>>>, x)
      RECURSIVE Carry(_,_)
      Carry(c, r) == IF c = 0 THEN r ELSE Carry(c \div b, Append(r, c % b))
  IN Carry(st[1], st[2])
LeadCount(s, z) == FirstIndex(s, LAMBDA c: c # z) - 1
\* strip leading zero digits of a big-endian digit string
StripZeros(s) == Drop(s, LeadCount(s, 0))
B58 == <<49,50,51,52,53,54,55,56,57>> \o
       <<65,66,67,68,69,70,71,72>> \o <<74,75,76,77,78>> \o <<80,81,82,83,84,85,86,87,88,89,90>> \o
       <<97,98,99,100,101,102,103,104,105,106,107>> \o
       <<109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
T58 == TableOf(B58)
C58 == 195112                                            \* 58^3
ToBase58(s) ==
  LET z == LeadCount(s, 0)
      limbs == FoldLeft(LAMBDA x, c: MulAdd(x, 256, c, C58), <<>>, Drop(s, z))
      d == StripZeros(FlattenSeq([i \in 1..Len(limbs) |->
             LET v == limbs[Len(limbs)-i+1]
             IN <<v \div 3364, (v \div 58) % 58, v % 58>>]))
  IN Rep(49, z) \o [i \in 1..Len(d) |-> B58[d[i]+1]]
IsSpace(c) == c = 32 \/ c \in 9..13
TrimSpace(s) ==
  LET a == FirstIndex(s, LAMBDA c: ~IsSpace(c))
      t == SubSeq(s, a, Len(s))
      b == FirstIndex(Reverse(t), LAMBDA c: ~IsSpace(c))
  IN Take(t, Len(t) - b + 1)
Base58Text(s) == \A i \in 1..Len(s) : T58[s[i]] # NoDigit
FromBase58(str) ==
  LET s == TrimSpace(str) IN
  IF ~Base58Text(s) THEN <<0, <<>>>>
  ELSE LET z == LeadCount(s, 49)
           limbs == FoldLeft(LAMBDA x, c: MulAdd(x, 58, T58[c], M16), <<>>, Drop(s, z))
           b == StripZeros(FlattenSeq([i \in 1..Len(limbs) |->
                  LET v == limbs[Len(limbs)-i+1] IN <<v \div 256, v % 256>>]))
       IN Counted(Zeros(z) \o b)

(******************************* base58check *******************************)
Checksum4(s) == Take(Hash256(s), 4)
ToBase58Check(prefix, payload) ==
  LET d == prefix \o payload IN ToBase58(d \o Checksum4(d))
\* <<count, prefix and payload>>, count 0 if refused
FromBase58Check(str) ==
  LET r == FromBase58(str) IN
  IF r[1] < 4 THEN <<0, <<>>>>
  ELSE LET d == Take(r[2], r[1]-4)
       IN IF Drop(r[2], r[1]-4) = Checksum4(d) THEN Counted(d) ELSE <<0, <<>>>>

(********************************* bech32 **********************************)
B32C == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,
          115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
TB32C == LET t == TableOf(B32C) IN [c \in 0..255 |-> IF c \in 65..90 THEN t[c+32] ELSE t[c]]
GEN == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
PolyStep(c, v) ==
  LET top == c \div 33554432
      x0 == ((c % 33554432) * 32) ^^ v
      X(x, i) == IF (top \div P2[i]) % 2 = 1 THEN x ^^ GEN[i] ELSE x
  IN X(X(X(X(X(x0,1),2),3),4),5)
PolyMod(vs) == FoldLeft(PolyStep, 1, vs)
HrpExpand(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]
Bech32Sum(h, d) ==
  LET p == PolyMod(HrpExpand(h) \o d \o Zeros(6)) ^^ 1
      P32 == <<33554432, 1048576, 32768, 1024, 32, 1>>
  IN [i \in 1..6 |-> (p \div P32[i]) % 32]
Bech32Encode(h, d) ==
  LET t == d \o Bech32Sum(h, d) IN h \o <<49>> \o [i \in 1..Len(t) |-> B32C[t[i]+1]]
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
LastIndex(s, c) == LET I == {i \in 1..Len(s) : s[i] = c}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* [ok, hrp, data]
Bech32Bad == [ok |-> FALSE, hrp |-> <<>>, data |-> <<>>]
Bech32Decode(s, cap) ==
  LET n == Len(s)
      pos == LastIndex(s, 49)
      chars == \A i \in 1..n : s[i] \in 33..126
      mixed == (\E i \in 1..n : s[i] \in 65..90) /\ (\E i \in 1..n : s[i] \in 97..122)
  IN IF n > 90 \/ ~chars \/ mixed \/ pos < 2 \/ n - pos < 6 \/ pos - 1 > cap THEN Bech32Bad
     ELSE LET hrp == [i \in 1..(pos-1) |-> LowerC(s[i])]
              d == Digits(TB32C, Drop(s, pos))
          IN IF \E i \in 1..Len(d) : d[i] = NoDigit THEN Bech32Bad
             ELSE IF PolyMod(HrpExpand(hrp) \o d) # 1 THEN Bech32Bad
             ELSE [ok |-> TRUE, hrp |-> hrp, data |-> Take(d, Len(d)-6)]

(**************************** varint and zigzag ****************************)
(* 64-bit values are 8 big-endian bytes; arithmetic is on ten base-128     *)
(* digits, most significant first.                                         *)
V128(b8) == FromBits(Zeros(6) \o ToBits(b8, 8), 7)
\* normalise a digit string with digits up to 255: <<carry out, digits>>
CarryUp(d) ==
  FoldRight(LAMBDA x, acc: LET v == x + acc[1] IN <<v \div 128, <<v % 128>> \o acc[2]>>,
            d, <<0, <<>>>>)
\* number of bytes of the code at the start of s (0: none within the first ten)
VarintSpan(s) ==
  LET n == IF Len(s) > 10 THEN 10 ELSE Len(s)
      i == FirstIndex(Take(s, n), LAMBDA c: c < 128)
  IN IF i > n THEN 0 ELSE i
\* [n, v]: bytes consumed (0 = refused) and the value
VarintDecode(s) ==
  LET k == VarintSpan(s) IN
  IF k = 0 THEN [n |-> 0, v |-> Zeros(8)]
  ELSE LET d == [i \in 1..k |-> IF i < k THEN (s[i] % 128) + 1 ELSE s[i]]
           \* the continuation's +1 has the weight of its own digit
           c == CarryUp(Zeros(10-k) \o d)
       IN IF c[1] # 0 \/ c[2][1] > 1 THEN [n |-> 0, v |-> Zeros(8)]
          ELSE [n |-> k, v |-> FromBits(Drop(ToBits(c[2], 7), 6), 8)]
\* c is the code of value v
IsVarint(c, v) == Len(c) \in 1..10 /\ LET r == VarintDecode(c) IN r.n = Len(c) /\ r.v = v

NegBits(b) ==                            \* two's complement negation of a bit string
  FoldRight(LAMBDA x, acc: LET v == (1-x) + acc[1] IN <<v \div 2, <<v % 2>> \o acc[2]>>,
            b, <<1, <<>>>>)[2]
\* the signed value (two's complement bytes) meant by an unsigned code value
ZigzagValue(u) ==
  LET b == ToBits(u, 8)  m == <<0>> \o Take(b, 63)
  IN IF b[64] = 0 THEN FromBits(m, 8)
     ELSE IF m = Zeros(64) THEN <<128,0,0,0,0,0,0,0>>
     ELSE FromBits(NegBits(m), 8)
ZigzagDecode(s) ==
  LET r == VarintDecode(s)
  IN IF r.n = 0 THEN r ELSE [n |-> r.n, v |-> ZigzagValue(r.v)]
IsZigzag(c, v) == Len(c) \in 1..10 /\ LET r == ZigzagDecode(c) IN r.n = Len(c) /\ r.v = v
=============================================================================
