------------------------------- MODULE Fingera --------------------------------
(***************************************************************************)
(* The library as a state machine over observable calls.                   *)
(*                                                                         *)
(* A call is an event  e : [op, a, n, oc, r, o, ...]  where a are the byte  *)
(* string arguments and n the numeric arguments in order, oc how the call   *)
(* ended, r the returned number and o the byte strings it delivered.        *)
(* Allowed(st, e) says whether the library may behave like this in state    *)
(* st; After(st, e) is the state after it.                                  *)
(***************************************************************************)
EXTENDS Helpers, HashMid, Sys, Wallet

Ret(e, x) == e.r = x
Outs(e, x) == e.o = x
\* a stated size; negative numbers are codes of sizes from 2^31 on
Stated(n) == IF n < 0 THEN 2147483647 ELSE n
\* a decoder result <<count, bytes>>
Counts(e, x) == e.r = x[1] /\ e.o = <<x[2]>>

\* success with outputs x, or failure where x = <<>>
Maybe(e, x) == IF x = <<>> THEN e.r = 0 ELSE Ret(e, 1) /\ Outs(e, x)
One1(x) == IF x = <<>> THEN <<>> ELSE <<x>>

CodecOps == {"to_hex","from_hex","hex_dump","to_b64","to_b64u","from_b64","from_b64u",
  "to_b32","to_b32raw","from_b32","from_b32raw","to_b58","from_b58","to_b58c","from_b58c",
  "b32e","b32d","varint_enc","varint_dec","zigzag_enc","zigzag_dec"}

CodecAllowed(e) ==
  CASE e.op = "to_hex"    -> Outs(e, <<ToHex(e.a[1], e.n[1])>>)
    [] e.op = "from_hex"  -> Counts(e, FromHex(e.a[1]))
    [] e.op = "hex_dump"  -> Outs(e, <<HexDump(e.a[1], e.n[1])>>)
    [] e.op = "to_b64"    -> Outs(e, <<ToBase64(e.a[1], FALSE)>>)
    [] e.op = "to_b64u"   -> Outs(e, <<ToBase64(e.a[1], TRUE)>>)
    [] e.op = "from_b64"  -> Counts(e, FromBase64(e.a[1], FALSE))
    [] e.op = "from_b64u" -> Counts(e, FromBase64(e.a[1], TRUE))
    [] e.op = "to_b32"    -> Outs(e, <<ToBase32(e.a[1])>>)
    [] e.op = "to_b32raw" -> Counts(e, Counted(ToBase32Raw(e.a[1])))
    [] e.op = "from_b32"  -> Counts(e, FromBase32(e.a[1]))
    [] e.op = "from_b32raw" -> Counts(e, FromBase32Raw(e.a[1]))
    [] e.op = "to_b58"    -> Counts(e, Counted(ToBase58(e.a[1])))
    [] e.op = "from_b58"  -> Counts(e, FromBase58(e.a[1]))
    [] e.op = "to_b58c"   -> Counts(e, Counted(ToBase58Check(e.a[2], e.a[1])))
    [] e.op = "from_b58c" -> Counts(e, FromBase58Check(e.a[1]))
    [] e.op = "b32e"      -> Outs(e, <<Bech32Encode(e.a[1], e.a[2])>>)
    [] e.op = "b32d"      -> LET d == Bech32Decode(e.a[1], Stated(e.n[1])) IN
                             IF d.ok THEN Ret(e, Len(d.data)) /\ Outs(e, <<d.hrp, d.data>>)
                             ELSE e.r < 0
    [] e.op = "varint_enc" -> e.r = Len(e.o[1]) /\ IsVarint(e.o[1], e.a[1])
    [] e.op = "varint_dec" -> LET d == VarintDecode(e.a[1]) IN
                              Ret(e, d.n) /\ (d.n # 0 => Outs(e, <<d.v>>))
    [] e.op = "zigzag_enc" -> e.r = Len(e.o[1]) /\ IsZigzag(e.o[1], e.a[1])
    [] e.op = "zigzag_dec" -> LET d == ZigzagDecode(e.a[1]) IN
                              Ret(e, d.n) /\ (d.n # 0 => Outs(e, <<d.v>>))

HashOps == {"sha1","rmd160","sha256","sha512","hash160","hash256","hmac256","hmac512","d64","d64n","bip32h"}
HashAllowed(e) ==
  CASE e.op = "sha1"    -> Outs(e, <<SHA1(e.a[1])>>)
    [] e.op = "rmd160"  -> Outs(e, <<RIPEMD160(e.a[1])>>)
    [] e.op = "sha256"  -> Outs(e, <<SHA256(e.a[1])>>)
    [] e.op = "sha512"  -> Outs(e, <<SHA512(e.a[1])>>)
    [] e.op = "hash160" -> Outs(e, <<Hash160(e.a[1])>>)
    [] e.op = "hash256" -> Outs(e, <<Hash256(e.a[1])>>)
    [] e.op = "hmac256" -> Outs(e, <<HMAC256(e.a[1], e.a[2])>>)
    [] e.op = "hmac512" -> Outs(e, <<HMAC512(e.a[1], e.a[2])>>)
    [] e.op = "d64"     -> Outs(e, <<Hash256D64(e.a[1])>>)
    [] e.op = "d64n"    -> Ret(e, 0) /\ Outs(e, <<Hash256D64(e.a[1]),     \* neighbours differ
                                                  FlattenSeq([i \in 1..Len(e.n) |-> <<e.n[i] \div 16777216, (e.n[i] \div 65536) % 256, (e.n[i] \div 256) % 256, e.n[i] % 256>>])>>)
    [] e.op = "bip32h"  -> Outs(e, <<Bip32Hash(e.a[1], e.a[2], e.n[1], e.a[3])>>)

HelperOps == {"len","len_b64","len_b32","endian","cleanse","cleanse2","release","huge","vast","vast_enc","vast_dump","vast_rand","vast_cleanse","vast_endian"}
U64Of(n) == Drop(NatSize(n), 2)
\* the k with 2^k in these eight bytes
HugeLog(b8) == CHOOSE k \in MidLog : b8 = [i \in 1..8 |-> IF k \div 8 = 8 - i THEN 2 ^ (k % 8) ELSE 0]
\* digests of 2^k zero bytes and a tail; keyed ones with the key that makes
\* the inner key block zero
Huge(w, k, tail) ==
  CASE w \in 0..3 -> HugeDigest(w, k, tail)
    [] w = 4 -> RIPEMD160(HugeDigest(2, k, tail))
    [] w = 5 -> SHA256(HugeDigest(2, k, tail))
    [] w = 6 -> SHA256(Rep(106, 64) \o HugeDigest(2, k, tail))
    [] w = 7 -> SHA512(Rep(106, 128) \o HugeDigest(3, k, tail))
    [] w = 8 -> HMAC256(HugeDigest(2, k, tail), <<104, 117, 103, 101>>)     \* as a key
    [] w = 9 -> HMAC512(HugeDigest(3, k, tail), <<104, 117, 103, 101>>)
\* A text s of which only the beginning is written out: billions of zero bytes
\* follow.  Zero is in no text alphabet, so decoding ends in the first group
\* that holds one.
VastAllowed(e, w, s) ==
  LET size == AddSize(Wide(e.a[1]), Len(e.a[2])) IN
  CASE w = 0 -> Counts(e, FromHex(s))
    [] w = 1 -> Counts(e, FromBase64(s, FALSE))
    [] w = 2 -> Counts(e, FromBase64(s, TRUE))
    [] w = 3 -> Counts(e, FromBase32(s))
    [] w = 4 -> Counts(e, FromBase32Raw(s))
    [] w = 5 -> e.r = 0                                    \* far too long
    [] w = 6 -> LET d == VarintDecode(s) IN Ret(e, d.n) /\ (d.n # 0 => Outs(e, <<d.v>>))
    [] w = 7 -> LET d == ZigzagDecode(s) IN Ret(e, d.n) /\ (d.n # 0 => Outs(e, <<d.v>>))
    [] w = 8 -> Wide(e.o[1]) = DivSize(MulSize(size, 3), 4)
    [] w = 9 -> Wide(e.o[1]) = IF \E i \in 1..Len(s) : s[i] = EQ THEN NatSize(B32Bytes(Len(UntilEq(s))))
                               ELSE LET qr == DivMod(size, 8) IN AddSize(MulSize(qr[1], 5), B32Bytes(qr[2]))
    [] w = 10 -> Maybe(e, One1(KeyDerParse(s)))
    [] w = 11 -> LET d == SigParse(s) IN Maybe(e, One1(d.sig))
    [] w \in 12..15 -> e.r = 0                             \* no size of a key, a hash, a program
\* characters of a dump of x > 0 bytes
DumpSize(x) ==
  LET S(k) == DivSize(PlusSize(x, Rep(255, 10)), k)         \* (x-1) \div k
  IN AddSize(PlusSize(PlusSize(MulSize(x, 2), S(4)), PlusSize(S(8), PlusSize(S(16), S(32)))), 1)
VastText(w, s) ==
  CASE w = 0 -> ToHex(s, 0)
    [] w = 1 -> ToBase64(s, FALSE)
    [] w = 2 -> ToBase64(s, TRUE)
    [] w = 3 -> ToBase32(s)
    [] w = 4 -> ToBase32Raw(s)
HelperAllowed(e) ==
  CASE e.op = "len" -> LenAllowed(e.n[1], e.a[1], IF Len(e.a) > 1 THEN e.a[2] ELSE Zeros(8), e.o[1])
    [] e.op = "len_b64" -> Outs(e, <<U64Of((Len(StripEq(e.a[1])) * 3) \div 4)>>)
    [] e.op = "len_b32" -> Outs(e, <<U64Of(B32Bytes(Len(UntilEq(e.a[1]))))>>)
    [] e.op = "endian" -> IF Writes(e.n[1]) THEN e.o[2] = EndianWrite(e.n[1], e.a[1], e.n[2], e.a[2])
                          ELSE Outs(e, <<EndianRead(e.n[1], e.a[1], e.n[2]), e.a[1]>>)
    \* the same bytes, so far from the given address
    [] e.op = "vast_endian" -> Outs(e, <<EndianRead(e.n[1], e.a[1], 0)>>)
    [] e.op = "cleanse" ->                 \* nothing outside the region changes
         /\ Len(e.o[1]) = Len(e.a[1])
         /\ Take(e.o[1], e.n[1]) = Take(e.a[1], e.n[1])
         /\ Drop(e.o[1], e.n[1] + e.n[2]) = Drop(e.a[1], e.n[1] + e.n[2])
    \* the same region with other content: what is left is the same
    [] e.op = "cleanse2" ->
         /\ Slice(e.o[1], e.n[1], e.n[2]) = Slice(e.o[2], e.n[1], e.n[2])
         /\ \A i \in 1..2 : /\ Len(e.o[i]) = Len(e.a[i])
                            /\ Take(e.o[i], e.n[1]) = Take(e.a[i], e.n[1])
                            /\ Drop(e.o[i], e.n[1] + e.n[2]) = Drop(e.a[i], e.n[1] + e.n[2])
    \* two conversions of equal shape: the heap blocks they released, with the
    \* content at release, are the same
    [] e.op = "release" -> e.f[1] = e.f[2]
    [] e.op = "huge" -> Outs(e, <<Huge(e.n[1], HugeLog(e.a[1]), e.a[2])>>)
    [] e.op = "vast" -> VastAllowed(e, e.n[1], e.a[2] \o Zeros(16))
    [] e.op = "vast_enc" ->
         \* the same text from the last 64 characters on as with fewer whole groups of zeros
         /\ e.o[1] = LET t == VastText(e.n[1], Zeros(60 + DivMod(Wide(e.a[1]), 15)[2]) \o e.a[2])
                     IN Drop(t, Len(t) - 64)
         /\ e.n[1] = 4 => Wide(e.o[2]) = DivSize(AddSize(MulSize(AddSize(Wide(e.a[1]), Len(e.a[2])), 8), 4), 5)
    \* lines of zeros, each like the one before but for the last line break
    [] e.op = "vast_dump" ->
         LET k == DivMod(Wide(e.a[1]), 32)[2]  t == HexDump(Zeros(64 + k), e.n[1])
         IN /\ Wide(e.o[1]) = DumpSize(Wide(e.a[1]))
            /\ Wide(e.o[2]) = NatSize(1)
            /\ e.o[3] = Drop(t, Len(t) - 128)
    [] e.op = "vast_rand" -> GeSize(Wide(e.o[1]), Wide(e.a[1]))
    [] e.op = "vast_cleanse" -> e.o[1] = e.o[2]

(***************************** addresses ************************************)
AddrOps == {"addr","addr_dec"}
\* the custom network's six byte strings come last
EventNet(e, n) == Net(n, IF n = 3 THEN SubSeq(e.a, Len(e.a)-5, Len(e.a)) ELSE <<>>)
AddrAllowed(e) ==
  CASE e.op = "addr" -> Counts(e, Counted(AddressText(e.n[1]+1, e.a[1], Stated(e.n[2]), EventNet(e, e.n[3]))))
    [] e.op = "addr_dec" ->
         LET A == Addressees(e.a[1], EventNet(e, e.n[2]))
         IN IF A = {} THEN e.r = 0 ELSE \E x \in A : Ret(e, x[1]) /\ Outs(e, <<x[2]>>)

(******************************** keys *************************************)
(* Operations on the curve need an initialised key subsystem; the others    *)
(* only convert.                                                            *)
CurveOps == {"key_new","key_enc","key_dec","key_pub","pub_dec","pub_enc","sign","verify","sig_enc",
  "sig_dec","key_derive","pub_derive","keyid","pub_keyid","key_fpr","xk_derive","xp_derive","xk_pub","wallet","commute","signed"}
KeyOps == CurveOps \cup {"wif_enc","wif_dec","pub_fpr","xk_init","xk_enc","xp_enc","xk_dec","xp_dec",
  "xk_str","xp_str","xk_unstr","xp_unstr"}
Hint(e) == IF "h" \in DOMAIN e THEN e.h ELSE <<>>
TweakFails(e) == "tw" \in DOMAIN e
KeyAllowed(e) ==
  CASE e.op = "key_new" -> NewKey(e.env, e.o[1])
    [] e.op = "wif_enc" -> Counts(e, Counted(WifText(e.a[1], e.n[1] # 0, EventNet(e, e.n[2]))))
    [] e.op = "wif_dec" -> LET d == WifParse(e.a[1], EventNet(e, e.n[1]))
                           IN Maybe(e, IF d.ok THEN <<d.key, <<IF d.comp THEN 1 ELSE 0>>>> ELSE <<>>)
    [] e.op = "key_enc" -> Maybe(e, IF e.n[1] = 279 THEN <<KeyDer(e.a[1], FALSE)>>
                                    ELSE IF e.n[1] = 214 THEN <<KeyDer(e.a[1], TRUE)>> ELSE <<>>)
    [] e.op = "key_dec" -> Maybe(e, One1(KeyDerParse(e.a[1])))
    [] e.op = "key_pub" -> LET p == PubPoint(e.a[1]) IN Ret(e, 2) /\ Outs(e, <<Ser33(p), Ser65(p)>>)
    [] e.op = "pub_dec" -> LET p == ParsePub(e.a[1])
                           IN Maybe(e, IF p = Infinity THEN <<>> ELSE <<Ser33(p), Ser65(p)>>)
    [] e.op = "pub_enc" -> LET p == ParsePub(e.a[1])
                           IN Maybe(e, IF e.n[1] = 33 THEN <<Ser33(p)>>
                                       ELSE IF e.n[1] = 65 THEN <<Ser65(p)>> ELSE <<>>)
    [] e.op = "sign" -> IsSignature(e.a[1], e.a[2], e.o[1])
    [] e.op = "verify" -> LET r == Num(Take(e.a[3], 32))  s == Num(Drop(e.a[3], 32))
                          IN (e.r # 0) = Verifies(ParsePub(e.a[1]), Hint(e), e.a[2], r, s)
    [] e.op = "sig_enc" -> Counts(e, Counted(SigDer(e.a[1])))
    [] e.op = "sig_dec" -> LET d == SigParse(e.a[1]) IN Maybe(e, One1(d.sig))
    [] e.op = "key_derive" -> Maybe(e, IF TweakFails(e) THEN <<>> ELSE DeriveKey(e.a[1], e.a[2], e.a[3]))
    [] e.op = "pub_derive" -> Maybe(e, IF TweakFails(e) THEN <<>> ELSE DerivePub(e.a[1], e.a[2], e.a[3]))
    [] e.op = "keyid" -> Outs(e, <<KeyId(PubPoint(e.a[1]), e.n[1] # 0)>>)
    [] e.op = "pub_keyid" -> Outs(e, <<KeyId(ParsePub(e.a[1]), e.n[1] # 0)>>)
    [] e.op = "key_fpr" -> Outs(e, <<Take(KeyId(PubPoint(e.a[1]), e.n[1] # 0), 4)>>)
    [] e.op = "pub_fpr" -> Outs(e, <<Take(Hash160(e.a[1]), 4)>>)
    [] e.op = "xk_init" -> Outs(e, <<MasterKey(e.a[1])>>)
    [] e.op = "wallet" -> WalletAllowed(e.a[1], e.a[2], e.o)
    [] e.op = "xk_derive" -> Maybe(e, IF TweakFails(e) THEN <<>> ELSE One1(DeriveX(e.a[1], e.a[2], e.a[3])))
    [] e.op = "xp_derive" -> Maybe(e, IF TweakFails(e) THEN <<>> ELSE One1(DeriveXPub(e.a[1], e.a[2], e.a[3])))
    [] e.op = "xk_pub" -> Outs(e, <<Neuter(e.a[1])>>)
    [] e.op = "signed" -> Len(e.o) = 1 /\ OwnSignature(e.r, e.o[1])
    [] e.op = "commute" -> Commutes(e.r, e.o, e.a[1], e.a[2], e.a[3])
    [] e.op = "xk_enc" -> Outs(e, <<Ser74(e.a[1])>>)
    [] e.op = "xp_enc" -> Outs(e, <<e.a[1]>>)
    [] e.op = "xk_dec" -> Outs(e, <<Unser74(e.a[1])>>)
    [] e.op = "xp_dec" -> Outs(e, <<e.a[1]>>)
    [] e.op = "xk_str" -> Counts(e, Counted(ToBase58Check(EventNet(e, e.n[1]).extsec, Ser74(e.a[1]))))
    [] e.op = "xp_str" -> Counts(e, Counted(ToBase58Check(EventNet(e, e.n[1]).extpub, e.a[1])))
    [] e.op = "xk_unstr" -> LET b == ExtParse(e.a[1], EventNet(e, e.n[1]).extsec)
                            IN Maybe(e, IF b = <<>> THEN <<>> ELSE IF b[42] # 0 THEN <<>> ELSE <<Unser74(b)>>)
    [] e.op = "xp_unstr" -> Maybe(e, One1(ExtParse(e.a[1], EventNet(e, e.n[1]).extpub)))

(************************* state, environment ******************************)
(* ctx: the key subsystem is initialised.  base: heap bytes and descriptors  *)
(* in use when they were first observed with the subsystem released (empty:  *)
(* not observed yet).                                                        *)
InitState == [ctx |-> FALSE, base |-> <<>>]
SysOps == {"os_rand","key_init","key_uninit","cycles","heap"}
SysAllowed(st, e) ==
  CASE e.op = "os_rand" -> Random(e.env, e.o[1], e.n[1])
    [] e.op = "key_init" -> ~st.ctx /\ Seeded(e.env)
    [] e.op = "key_uninit" -> st.ctx
    [] e.op = "cycles" -> ~st.ctx /\ e.r >= 32     \* any number of init and release: each of them seeded
    [] e.op = "heap" -> st.ctx \/ st.base = <<>> \/ (e.r <= st.base[1] /\ e.n[1] <= st.base[2])

(* Effects beside the result, judged where the recorder reports them.       *)
Effects(e) ==
  /\ ("m" \in DOMAIN e) => e.m = 0             \* inputs unmodified
  /\ ("d" \in DOMAIN e) => e.d = 0             \* file descriptors balanced
  /\ ("l" \in DOMAIN e) => e.l = 0             \* heap blocks balanced

Returns(st, e) ==
  /\ e.oc = "ok"
  /\ Effects(e)
  /\ CASE e.op \in CodecOps -> CodecAllowed(e)
       [] e.op \in HashOps  -> HashAllowed(e)
       [] e.op \in HelperOps -> HelperAllowed(e)
       [] e.op \in AddrOps -> AddrAllowed(e)
       [] e.op \in KeyOps -> (e.op \in CurveOps => st.ctx) /\ KeyAllowed(e)
       [] e.op \in SysOps -> SysAllowed(st, e)
       [] OTHER -> FALSE
\* the operations that may end the process, and when
Ends(st, e) ==
  \/ /\ e.op \in {"os_rand", "key_new", "key_init"}
     /\ Terminated(e) /\ SourceFailed(e.env)
     /\ e.op = "key_new" => st.ctx
  \/ /\ e.op = "fatal" /\ Terminated(e)
     \* with standard error closed or full the process ends all the same
     /\ e.n[2] \in {0, 3} => FatalOutput(e.a[1], e.a[2], e.a[3], e.n[1], e.a[4], e.a[5], e.a[6], e.S)
Allowed(st, e) ==
  IF e.op = "start" THEN TRUE
  ELSE IF e.oc = "ok" THEN Returns(st, e) ELSE Ends(st, e)
\* a call made by a forked child leaves this process as it was
After(st, e) ==
  IF e.op = "start" THEN InitState
  ELSE IF "fk" \in DOMAIN e THEN st
  ELSE IF e.op = "key_init" THEN [st EXCEPT !.ctx = TRUE]
  ELSE IF e.op = "heap" THEN (IF st.ctx \/ st.base # <<>> THEN st ELSE [st EXCEPT !.base = <<e.r, e.n[1]>>])
  ELSE IF e.op = "key_uninit" THEN [st EXCEPT !.ctx = FALSE]
  ELSE st
=============================================================================
