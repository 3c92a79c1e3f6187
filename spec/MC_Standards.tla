----------------------------- MODULE MC_Standards -----------------------------
(***************************************************************************)
(* The specification against the published test vectors of the standards it *)
(* is written from (RFC 4648, BIP173, FIPS 180-4, RIPEMD-160, RFC 4231,     *)
(* RFC 6979, SEC 2, BIP32): every vector is an event it allows, and the     *)
(* same event with a changed result is one it refuses.                      *)
(***************************************************************************)
EXTENDS Fingera
OpsOf(p) ==
  CASE p = "C01" -> {"to_hex", "from_hex"}
    [] p = "C02" -> {"to_b64", "from_b64", "to_b64u", "from_b64u"}
    [] p = "C03" -> {"to_b32", "from_b32"}
    [] p = "C04" -> {"to_b58", "from_b58"}
    [] p = "C06" -> {"b32d", "b32e"}
    [] p = "C07" -> {"addr"}
    [] p = "C08" -> {"addr_dec"}
    [] p = "C11" -> {"sha1", "rmd160"}
    [] p = "C12" -> {"sha256", "sha512"}
    [] p = "C13" -> {"hmac256", "hmac512"}
    [] p = "C17" -> {"wif_enc", "wif_dec"}
    [] p = "C19" -> {"key_pub", "pub_dec"}
    [] p = "C20" -> {"sign"}
    [] p = "C21" -> {"verify"}
    [] p = "C23" -> {"xk_derive"}
    [] p = "C24" -> {"xp_derive"}
    [] p = "C25" -> {"xk_init", "xk_pub"}
    [] p = "C26" -> {"xk_str", "xp_str", "xk_unstr", "xp_unstr"}
    [] p = "C27" -> {"keyid"}
V == SelectSeq(ndJsonDeserialize(IOEnv.VECTORS), LAMBDA v: v.e.op \in OpsOf(IOEnv.PROP))
VARIABLE i
Init == i = 1 /\ TLCSet(1, <<>>)
Next == i < Len(V) /\ i' = i + 1
st == [ctx |-> TRUE, base |-> <<>>]
Anchored == Allowed(st, V[i].e) = V[i].good
\* changed results: another byte at a few places, a missing byte, another number
Flip(s, k) == [s EXCEPT ![k] = (@ + 1) % 256]
Corruptions(e) ==
  UNION {LET s == e.o[j] IN
         IF s = <<>> THEN {} ELSE
         {[e EXCEPT !.o[j] = Flip(s, k)] : k \in {1, Len(s), (Len(s) + 1) \div 2}}
         \cup {[e EXCEPT !.o[j] = Take(s, Len(s) - 1)], [e EXCEPT !.o[j] = Append(s, 0)]}
         : j \in 1..Len(e.o)}
  \cup (IF e.op \in {"verify"} THEN {[e EXCEPT !.r = 1 - @]}
        ELSE IF e.r > 0 THEN {[e EXCEPT !.r = @ - 1], [e EXCEPT !.r = 0], [e EXCEPT !.r = @ + 1]} ELSE {})
Teeth == V[i].good => \A x \in Corruptions(V[i].e) : ~Allowed(st, x)
=============================================================================
