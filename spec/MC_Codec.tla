------------------------------- MODULE MC_Codec -------------------------------
(***************************************************************************)
(* Every word up to a length over a small alphabet, for each of the codes.  *)
(* A word is input of an encoder or of a decoder; the laws that the         *)
(* definitions in Codec must have (encoders injective, decoders their       *)
(* inverses, nothing else accepted) are checked on every word, and every    *)
(* word is emitted as calls that the library has to answer likewise.        *)
(***************************************************************************)
EXTENDS Helpers, Json, IOUtils, TLC

Kind == IOEnv.KIND
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLE w

\* the alphabets: digits of both ends, padding, foreign characters, white space
Alphabet ==
  CASE Kind = "hexd" -> {0, 9, 10, 15, 16, 165, 255}
    [] Kind = "hext" -> {48, 57, 65, 70, 71, 97, 102, 0}
    [] Kind = "b64d" -> {0, 1, 63, 64, 251, 255}
    [] Kind = "b64t" -> {65, 47, 43, 45, 61, 0}
    [] Kind = "b64ut" -> {65, 95, 45, 43, 61}
    [] Kind = "b32d" -> {0, 1, 85, 170, 255}
    [] Kind = "b32t" -> {97, 55, 61, 49}
    [] Kind = "b32rt" -> {0, 31, 32}
    [] Kind = "b58d" -> {0, 1, 57, 58, 255}
    [] Kind = "b58t" -> {49, 50, 122, 48, 32, 0}
    [] Kind = "b58c" -> {0, 1, 128, 255}
    [] Kind = "b32e" -> {0, 1, 15, 31}
    [] Kind = "int" -> {0, 1, 127, 128, 129, 254, 255}

Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c)

(****************************** laws ***************************************)
Prefix(s, t) == Len(s) <= Len(t) /\ Take(t, Len(s)) = s
In(s, A) == \A i \in 1..Len(s) : \E j \in 1..Len(A) : A[j] = s[i]
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
Even(s) == Take(s, 2 * (Len(s) \div 2))

HexData == /\ FromHex(ToHex(w, 0)) = Counted(w) /\ FromHex(ToHex(w, 1)) = Counted(w)
           /\ ToHex(w, 0) = Lower(ToHex(w, 1)) /\ Len(ToHex(w, 0)) = 2 * Len(w)
           /\ FromHex(Append(ToHex(w, 0), 48)) = Counted(w)
HexText == LET d == FromHex(w)
           IN /\ d[1] = Len(d[2]) /\ Prefix(ToHex(d[2], 0), Lower(w))
              \* the prefix is the longest: the next pair is not one
              /\ 2 * d[1] + 2 <= Len(w) => FromHex(Slice(w, 2 * d[1], 2))[1] = 0
              \* it depends on the whole pairs alone
              /\ FromHex(Even(w)) = d

B64Data == LET t == ToBase64(w, FALSE)  u == ToBase64(w, TRUE)
           IN /\ FromBase64(t, FALSE) = Counted(w) /\ FromBase64(u, TRUE) = Counted(w)
              /\ FromBase64(StripEq(t), FALSE) = Counted(w)
              /\ Len(t) % 4 = 0 /\ Len(t) = 4 * ((Len(w) + 2) \div 3)
              /\ Len(u) = (4 * Len(w) + 2) \div 3 /\ ~In(<<61>>, u) /\ In(u, B64Url)
              /\ \A i \in 1..Len(u) : t[i] = (IF u[i] = 45 THEN 43 ELSE IF u[i] = 95 THEN 47 ELSE u[i])
B64Text(url) ==
  LET d == FromBase64(w, url)
      s == IF url THEN w ELSE StripEq(w)
      A == IF url THEN B64Url ELSE B64Std
  IN /\ d[1] = Len(d[2])
     \* everything comes from whole good groups
     /\ In(s, A) => d[1] = (3 * Len(s)) \div 4
     /\ LET n == (d[1] \div 3) * 4 IN Take(ToBase64(d[2], url), n) = Take(s, n)
     \* the first group is independent of what follows
     /\ Len(s) >= 4 /\ In(Take(s, 4), A) => Take(d[2], 3) = FromBase64(Take(s, 4), url)[2]

B32Data == LET t == ToBase32(w)  r == ToBase32Raw(w)
           IN /\ FromBase32(t) = Counted(w) /\ FromBase32(UntilEq(t)) = Counted(w)
              /\ FromBase32Raw(r) = Counted(w)
              /\ Len(t) = 8 * ((Len(w) + 4) \div 5) /\ Len(r) = (8 * Len(w) + 4) \div 5
              /\ UntilEq(t) = [i \in 1..Len(r) |-> B32[r[i] + 1]]
              /\ FromBase32([i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]) = Counted(w)
B32Text == LET d == FromBase32(w)  s == UntilEq(w)
           IN /\ d[1] = Len(d[2]) /\ FromBase32(s) = d
              /\ d[1] < B32Bytes(Len(s)) => ~In(s, B32)
              /\ LET n == (d[1] \div 5) * 8 IN Take(ToBase32(d[2]), n) = Take(s, n)
B32Raw == LET d == FromBase32Raw(w)
          IN /\ d[1] = Len(d[2])
             /\ (\A i \in 1..Len(w) : w[i] < 32) => d[1] = B32Bytes(Len(w))
             /\ LET n == (d[1] \div 5) * 8 IN Take(ToBase32Raw(d[2]), n) = Take(w, n)

B58Data == LET t == ToBase58(w)
           IN /\ FromBase58(t) = Counted(w) /\ In(t, B58)
              /\ LeadCount(t, 49) = LeadCount(w, 0)
              /\ FromBase58(<<32, 9>> \o t \o <<10>>) = Counted(w)
B58Text_ == LET d == FromBase58(w)  s == TrimSpace(w)
            IN IF In(s, B58) THEN ToBase58(d[2]) = s /\ d[1] = Len(d[2])
               ELSE d = <<0, <<>>>>

B58C == LET t == ToBase58Check(<<>>, w)
            d == w \o Checksum4(w)
        IN /\ FromBase58Check(t) = (IF w = <<>> THEN <<0, <<>>>> ELSE Counted(w))
           /\ \A k \in 0..Len(w) : ToBase58Check(Take(w, k), Drop(w, k)) = t
           \* no other checksum, nor any other data with this one
           /\ \A i \in 1..Len(d) : FromBase58Check(ToBase58([d EXCEPT ![i] = (@ + 1) % 256]))[1] = 0
           /\ FromBase58Check(ToBase58(Take(d, Len(d) - 1)))[1] = 0

Hrps == {<<97>>, <<98, 99>>, <<49, 122>>, <<33, 126, 49>>}
NearBy(c) == {113, 108, 49, 98, 81, IF c \in 97..122 THEN c - 32 ELSE c + 1}
B32E == \A h \in Hrps :
  LET t == Bech32Encode(h, w)  ok == [ok |-> TRUE, hrp |-> h, data |-> w]
      up == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
  IN /\ Bech32Decode(t, Len(h)) = ok /\ Bech32Decode(up, Len(h)) = ok
     /\ ~Bech32Decode(t, Len(h) - 1).ok
     /\ Len(t) = Len(h) + 7 + Len(w)
     \* one changed, missing or swapped character is noticed
     /\ \A i \in 1..Len(t) : \A c \in NearBy(t[i]) :
          c # t[i] => LET s == [t EXCEPT ![i] = c]  d == Bech32Decode(s, 90)
                      IN d.ok => d = ok /\ Lower(s) = t
     /\ \A i \in 1..(Len(t)-1) : t[i] # t[i+1] =>
          ~Bech32Decode([t EXCEPT ![i] = t[i+1], ![i+1] = t[i]], 90).ok

(* the integer code: an encoder, as the inverse of the decoder *)
B64Value(c) == VarintDecode(c).v
SubOne(d) ==                     \* d - 1 in base 128 digits, d not zero
  FoldRight(LAMBDA x, acc: LET v == x - acc[1] IN <<IF v < 0 THEN 1 ELSE 0, <<(v + 128) % 128>> \o acc[2]>>,
            d, <<1, <<>>>>)[2]
RECURSIVE Code(_)
Code(d) ==                       \* d: base 128 digits, most significant first
  LET hi == Take(d, Len(d) - 1)  lo == d[Len(d)]
  IN IF hi = Zeros(Len(hi)) THEN <<lo>>
     ELSE LET c == Code(SubOne(hi)) IN [i \in 1..Len(c) |-> IF c[i] < 128 THEN c[i] + 128 ELSE c[i]] \o <<lo>>
VarintEncode(v8) == Code(V128(v8))
Wide8(s) == Zeros(8 - Len(s)) \o s
Ones8(s) == Rep(255, 8 - Len(s)) \o s
GeBytes(a, b) == GeSize(a, b)
Codes == { w, Rep(128, 9) \o w, Rep(255, 8) \o w, Rep(254, 9) \o w,
           <<128>> \o Rep(254, 7) \o w, <<129>> \o Rep(254, 7) \o w, <<130>> \o Rep(253, 8) \o w }
Values == IF Len(w) > 8 THEN {} ELSE { Wide8(w), Ones8(w), w \o Zeros(8 - Len(w)), w \o Rep(255, 8 - Len(w)) }
IntCodes ==
  /\ \A c \in Codes :
       LET d == VarintDecode(c)
       IN d.n # 0 => /\ VarintEncode(d.v) = Take(c, d.n)
                     /\ ZigzagDecode(c).n = d.n
                     /\ \A k \in 0..(d.n - 1) : VarintDecode(Take(c, k)).n = 0
  /\ \A v \in Values :
       LET c == VarintEncode(v)
       IN /\ IsVarint(c, v)
          /\ VarintDecode(c \o <<200>>) = VarintDecode(c)
          /\ \A u \in Values : GeBytes(v, u) => Len(c) >= Len(VarintEncode(u))
          /\ IsZigzag(c, ZigzagValue(v))

Law == CASE Kind = "hexd" -> HexData [] Kind = "hext" -> HexText
         [] Kind = "b64d" -> B64Data [] Kind = "b64t" -> B64Text(FALSE) [] Kind = "b64ut" -> B64Text(TRUE)
         [] Kind = "b32d" -> B32Data [] Kind = "b32t" -> B32Text [] Kind = "b32rt" -> B32Raw
         [] Kind = "b58d" -> B58Data [] Kind = "b58t" -> B58Text_ [] Kind = "b58c" -> B58C
         [] Kind = "b32e" -> B32E [] Kind = "int" -> IntCodes

(****************************** calls **************************************)
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Calls ==
  CASE Kind = "hexd" -> {C("to_hex", <<w>>, <<0>>), C("to_hex", <<w>>, <<1>>)}
    [] Kind = "hext" -> {C("from_hex", <<w>>, <<>>)}
    [] Kind = "b64d" -> {C("to_b64", <<w>>, <<>>), C("to_b64u", <<w>>, <<>>),
                         C("from_b64", <<ToBase64(w, FALSE)>>, <<>>), C("from_b64u", <<ToBase64(w, TRUE)>>, <<>>)}
    [] Kind = "b64t" -> {C("from_b64", <<w>>, <<>>)}
    [] Kind = "b64ut" -> {C("from_b64u", <<w>>, <<>>)}
    [] Kind = "b32d" -> {C("to_b32", <<w>>, <<>>), C("to_b32raw", <<w>>, <<>>),
                         C("from_b32", <<ToBase32(w)>>, <<>>), C("from_b32raw", <<ToBase32Raw(w)>>, <<>>)}
    [] Kind = "b32t" -> {C("from_b32", <<w>>, <<>>)}
    [] Kind = "b32rt" -> {C("from_b32raw", <<w>>, <<>>)}
    [] Kind = "b58d" -> {C("to_b58", <<w>>, <<>>), C("from_b58", <<ToBase58(w)>>, <<>>)}
    [] Kind = "b58t" -> {C("from_b58", <<w>>, <<>>)}
    [] Kind = "b58c" ->
         LET d == w \o Checksum4(w)
         IN {C("to_b58c", <<Drop(w, k), Take(w, k)>>, <<>>) : k \in 0..Len(w)}
            \cup {C("from_b58c", <<ToBase58(d)>>, <<>>), C("from_b58c", <<ToBase58(Take(d, Len(d)-1))>>, <<>>)}
            \cup {C("from_b58c", <<ToBase58([d EXCEPT ![i] = (@ + 1) % 256])>>, <<>>) : i \in 1..Len(d)}
    [] Kind = "b32e" ->
         UNION {LET t == Bech32Encode(h, w)
                    i == 1 + (FoldLeft(LAMBDA a, c: (3 * a + c) % 97, Len(h), w) % Len(t))
                IN {C("b32e", <<h, w>>, <<>>), C("b32d", <<t>>, <<Len(h)>>), C("b32d", <<t>>, <<Len(h) - 1>>)}
                   \cup {C("b32d", <<[t EXCEPT ![i] = c]>>, <<90>>) : c \in NearBy(t[i])}
                : h \in Hrps}
    [] Kind = "int" -> {C("varint_enc", <<v>>, <<>>) : v \in Values} \cup {C("varint_dec", <<c>>, <<>>) : c \in Codes}
                       \cup {C("zigzag_enc", <<v>>, <<>>) : v \in Values} \cup {C("zigzag_dec", <<c>>, <<>>) : c \in Codes}
Emit == PrintT(<<"CASE", ToJson([kind |-> Kind, calls |-> SetToSeq(Calls)])>>)
=============================================================================
