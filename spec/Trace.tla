-------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Trace validation: the recorded history T is a behaviour of the library   *)
(* iff TLC can follow Next to its end.                                      *)
(***************************************************************************)
EXTENDS Fingera

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = InitState /\ TLCSet(1, <<>>)
Next ==
  /\ l <= Len(T)
  /\ IF Allowed(st, T[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
  /\ st' = After(st, T[l])
  /\ l' = l + 1
  /\ IF l = Len(T) THEN PrintT(<<"ACCEPTED", l>>) ELSE TRUE
=============================================================================
