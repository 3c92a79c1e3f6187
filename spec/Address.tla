-------------------------------- MODULE Address -------------------------------
(***************************************************************************)
(* Addresses.  Kinds: 1 public-key hash, 2 script hash, 3 version-0 key     *)
(* hash, 4 version-0 script hash, 5 other witness program (version byte     *)
(* first).                                                                  *)
(***************************************************************************)
EXTENDS Key

WitnessText(hrp, version, program) ==
  Bech32Encode(hrp, <<version>> \o ToBase32Raw(program))
\* the documented capacity of a Base58Check address of n bytes
Base58Room(n) == ((n + 4) * 138) \div 100 + 2
\* the text, <<>> where the encoder must return 0
AddressText(kind, payload, cap, net) ==
  LET n == Len(payload)
      B(prefix) == IF cap < Base58Room(n + Len(prefix)) THEN <<>> ELSE ToBase58Check(prefix, payload)
      W(v, prog) == LET t == WitnessText(net.hrp, v, prog) IN IF cap < Len(t) THEN <<>> ELSE t
  IN CASE kind = 1 -> B(net.pubkey)
       [] kind = 2 -> B(net.script)
       [] kind = 3 -> IF n = 20 THEN W(0, payload) ELSE <<>>
       [] kind = 4 -> IF n = 32 THEN W(0, payload) ELSE <<>>
       [] kind = 5 -> IF n \in 3..41 /\ payload[1] \in 1..16 THEN W(payload[1], Drop(payload, 1)) ELSE <<>>

StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
\* the set of <<kind, payload>> the text is an address of; at most one for a
\* network whose prefixes differ
Addressees(text, net) ==
  LET d == FromBase58Check(text)
      b == Bech32Decode(text, 90)
      v == b.data[1]
      bits == ToBits(Drop(b.data, 1), 5)
      prog == FromBits(bits, 8)
      rest == Drop(bits, 8 * Len(prog))
      canonical == Len(rest) <= 4 /\ rest = Zeros(Len(rest))
  IN { <<1, Drop(d[2], Len(net.pubkey))>> : x \in {y \in {1} : d[1] > 0 /\ StartsWith(d[2], net.pubkey)} }
     \cup { <<2, Drop(d[2], Len(net.script))>> : x \in {y \in {1} : d[1] > 0 /\ StartsWith(d[2], net.script)} }
     \cup (IF ~b.ok \/ b.hrp # net.hrp \/ b.data = <<>> THEN {}
           ELSE IF ~canonical THEN {}
           ELSE IF v = 0 THEN (IF Len(prog) = 20 THEN {<<3, prog>>}
                               ELSE IF Len(prog) = 32 THEN {<<4, prog>>} ELSE {})
           ELSE IF v <= 16 /\ Len(prog) \in 2..40 THEN {<<5, <<v>> \o prog>>} ELSE {})
=============================================================================
