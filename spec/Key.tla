---------------------------------- MODULE Key ----------------------------------
(***************************************************************************)
(* Private keys, public keys and signatures in their external forms, BIP32  *)
(* extended keys, and network parameters.                                   *)
(***************************************************************************)
EXTENDS Codec, Secp

(************************** network parameters ******************************)
(* net 0 main, 1 test, 2 regression, 3 the six byte strings in c.           *)
Net(net, c) ==
  LET N(pk, sc, sec, xp, xs, hrp) ==
        [pubkey |-> pk, script |-> sc, secret |-> sec, extpub |-> xp, extsec |-> xs, hrp |-> hrp]
  IN CASE net = 0 -> N(<<0>>, <<5>>, <<128>>, <<4,136,178,30>>, <<4,136,173,228>>, <<98,99>>)
       [] net = 1 -> N(<<111>>, <<196>>, <<239>>, <<4,53,135,207>>, <<4,53,131,148>>, <<116,98>>)
       [] net = 2 -> N(<<111>>, <<196>>, <<239>>, <<4,53,135,207>>, <<4,53,131,148>>, <<98,99,114,116>>)
       [] net = 3 -> N(c[1], c[2], c[3], c[4], c[5], c[6])

(********************************** WIF ************************************)
WifText(key, comp, net) ==
  ToBase58Check(net.secret, IF comp THEN key \o <<1>> ELSE key)
\* [ok, key, comp]
WifParse(text, net) ==
  LET d == FromBase58Check(text)[2]
      p == Len(net.secret)
      body == Drop(d, p)
      pre == Len(d) >= p /\ Take(d, p) = net.secret
      comp == Len(body) = 33 /\ body[33] = 1
  IN IF pre /\ (comp \/ Len(body) = 32)
     THEN [ok |-> TRUE, key |-> Take(body, 32), comp |-> comp]
     ELSE [ok |-> FALSE, key |-> <<>>, comp |-> FALSE]

(**************************** DER private keys ******************************)
Tlv(tag, body) ==
  (IF Len(body) < 128 THEN <<tag, Len(body)>>
   ELSE IF Len(body) < 256 THEN <<tag, 129, Len(body)>>
   ELSE <<tag, 130, Len(body) \div 256, Len(body) % 256>>) \o body
\* integers of the curve parameters: unsigned, with a zero byte before 128..255
DerUInt(b) == LET c == StripZeros(b) IN Tlv(2, IF c = <<>> THEN <<0>> ELSE IF c[1] >= 128 THEN <<0>> \o c ELSE c)
PrimeField == <<6, 7, 42, 134, 72, 206, 61, 1, 1>>        \* OID 1.2.840.10045.1.1
SerPub(p, comp) == IF comp THEN Ser33(p) ELSE Ser65(p)
CurveParams(comp) ==
  Tlv(48, DerUInt(<<1>>)
       \o Tlv(48, PrimeField \o DerUInt(ToBytes32(PrimeP)))
       \o Tlv(48, Tlv(4, <<0>>) \o Tlv(4, <<7>>))
       \o Tlv(4, SerPub(G, comp))
       \o DerUInt(ToBytes32(OrderN))
       \o DerUInt(<<1>>))
\* SEC 1 C.4: ECPrivateKey with explicit parameters and the public key
KeyDer(key, comp) ==
  Tlv(48, DerUInt(<<1>>) \o Tlv(4, key) \o Tlv(160, CurveParams(comp))
          \o Tlv(161, Tlv(3, <<0>> \o SerPub(PubPoint(key), comp))))
\* the key in a container, <<>> if it is refused
KeyDerParse(b) ==
  LET n == Len(b)
      lb == IF n >= 2 THEN b[2] - 128 ELSE 0               \* length bytes
      len == IF lb = 1 THEN b[3] ELSE 256*b[3] + b[4]
      h == 2 + lb                                           \* header size
      os == b[h+5]
      key == Zeros(32 - os) \o Slice(b, h+5, os)
  IN IF n >= 2 /\ b[1] = 48 /\ lb \in {1, 2} /\ n >= h /\ n - h >= len
        /\ n >= h + 5 /\ Slice(b, h, 3) = <<2, 1, 1>> /\ b[h+4] = 4
        /\ os <= 32 /\ n - h - 5 >= os /\ ValidKey(key)
     THEN key ELSE <<>>

(****************************** signatures **********************************)
SigDer(sig) == Tlv(48, DerUInt(Take(sig, 32)) \o DerUInt(Drop(sig, 32)))
(* The lenient decoder.  Each step yields a position, 0 for a refusal;      *)
(* positions count the bytes already read plus one.                         *)
NoSig == [ok |-> FALSE, sig |-> <<>>]
\* [pos, len]: the content of the integer whose tag is at position p
LaxInt(b, p) ==
  LET n == Len(b)
      No == [pos |-> 0, len |-> 0]
      c == b[p+1] - 128                                     \* length bytes
      q == p + 2
      z == LET I == {i \in 0..c : i = c \/ b[q+i] # 0} IN CHOOSE i \in I : \A k \in I : i <= k
      len == FoldLeft(LAMBDA acc, d: 256*acc + d, 0, Slice(b, q+z-1, c-z))
      R(pos, l) == IF l > n + 1 - pos THEN No ELSE [pos |-> pos, len |-> l]
  IN IF p + 1 > n \/ b[p] # 2 THEN No
     ELSE IF b[p+1] < 128 THEN R(q, b[p+1])
     ELSE IF c > n + 1 - q THEN No
     ELSE IF c - z >= 4 THEN No
     ELSE R(q + c, len)
SigParse(b) ==
  LET n == Len(b)
      p1 == IF n < 2 \/ b[1] # 48 THEN 0
            ELSE IF b[2] < 128 THEN 3
            ELSE IF b[2] - 128 > n - 2 THEN 0 ELSE b[2] - 128 + 3
      r == LaxInt(b, p1)
      s == LaxInt(b, r.pos + r.len)
      Val(i) == StripZeros(Slice(b, i.pos - 1, i.len))
      Fits(v) == Len(v) <= 32 /\ Less(Num(Zeros(32 - Len(v)) \o v), OrderN)
      Pad(v) == Zeros(32 - Len(v)) \o v
  IN IF p1 = 0 \/ p1 > n THEN NoSig
     ELSE IF r.pos = 0 THEN NoSig
     ELSE IF r.pos + r.len > n THEN NoSig
     ELSE IF s.pos = 0 THEN NoSig
     ELSE [ok |-> TRUE, sig |-> IF Fits(Val(r)) /\ Fits(Val(s)) THEN Pad(Val(r)) \o Pad(Val(s))
                                ELSE Zeros(64)]

(********************************* BIP32 ************************************)
\* child of key k (32 bytes) and chain code c: <<key, chain>>, <<>> if invalid
Hardened(child) == child[1] >= 128
DeriveKey(k, c, child) ==
  LET I == IF Hardened(child) THEN Bip32Hash(c, child, 0, k)
           ELSE LET e == Ser33(PubPoint(k)) IN Bip32Hash(c, child, e[1], Drop(e, 1))
      il == Num(Take(I, 32))
      sum == CanonN(AddN(il, Num(k)))
  IN IF ~Less(il, OrderN) \/ sum = Zero THEN <<>> ELSE <<ToBytes32(sum), Drop(I, 32)>>
DerivePub(e33, c, child) ==
  LET p == ParsePub(e33)
      I == Bip32Hash(c, child, e33[1], Drop(e33, 1))
      il == Num(Take(I, 32))
      q == Affine(JAdd(JMulG(il), p))
  IN IF Hardened(child) \/ e33[1] \notin {2, 3} \/ p = Infinity \/ ~Less(il, OrderN) THEN <<>>
     ELSE IF q = Infinity THEN <<>> ELSE <<Ser33(q), Drop(I, 32)>>

(* Extended keys: depth, fingerprint(4), child number(4), chain code(32),   *)
(* key (32 private, 33 public).                                             *)
ChainOf(x) == Slice(x, 9, 32)
KeyOf(x) == Drop(x, 41)
BitcoinSeed == <<66, 105, 116, 99, 111, 105, 110, 32, 115, 101, 101, 100>>
MasterKey(seed) == LET I == HMAC512(BitcoinSeed, seed)
                   IN Zeros(9) \o Drop(I, 32) \o Take(I, 32)
ChildOf(x, kc, child, fpr) ==
  IF x[1] = 255 \/ kc = <<>> THEN <<>>
  ELSE <<x[1] + 1>> \o fpr \o child \o kc[2] \o kc[1]
DeriveX(x, child, fpr) ==
  IF x[1] = 255 THEN <<>> ELSE ChildOf(x, DeriveKey(KeyOf(x), ChainOf(x), child), child, fpr)
DeriveXPub(x, child, fpr) ==
  IF x[1] = 255 THEN <<>> ELSE ChildOf(x, DerivePub(KeyOf(x), ChainOf(x), child), child, fpr)
Neuter(x) == Take(x, 41) \o Ser33(PubPoint(KeyOf(x)))
\* the public key of a child by way of its private key and of the parent's public key:
\* the same.  The parent's public key and the private child are computed here.
Commutes(r, o, x, child, fpr) ==
  LET y == DeriveX(x, child, fpr)
  IN IF y = <<>> THEN r = 0 /\ o = <<Neuter(x)>>
     ELSE /\ r = 3
          /\ Len(o) = 4 /\ o[1] = Neuter(x) /\ o[2] = y
          /\ Len(o[3]) = 74 /\ Take(o[3], 41) = Take(y, 41) /\ o[3][42] \in {2, 3}
          /\ o[4] = o[3]
Ser74(x) == Take(x, 41) \o <<0>> \o KeyOf(x)
Unser74(b) == Take(b, 41) \o Drop(b, 42)
ExtParse(text, prefix) ==                \* the 74 bytes, <<>> if refused
  LET d == FromBase58Check(text)[2]  p == Len(prefix)
  IN IF Len(d) = p + 74 /\ Take(d, p) = prefix THEN Drop(d, p) ELSE <<>>

(****************************** identifiers *********************************)
KeyId(p, comp) == Hash160(SerPub(p, comp))
=============================================================================
