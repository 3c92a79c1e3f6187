-------------------------------- MODULE Teeth ---------------------------------
(***************************************************************************)
(* The strength of the specification: T interleaves recorded events with     *)
(* falsified copies of them (field bad: what was falsified).  Every copy    *)
(* that the specification allows is reported.                               *)
(***************************************************************************)
EXTENDS Fingera

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>

Bad(e) == "bad" \in DOMAIN e
Init == l = 1 /\ st = InitState /\ TLCSet(1, <<>>)
Next ==
  /\ l <= Len(T)
  /\ IF Allowed(st, T[l]) = ~Bad(T[l]) THEN TRUE
     ELSE PrintT(<<"WRONG", l>>)
  /\ st' = IF Bad(T[l]) THEN st ELSE After(st, T[l])
  /\ l' = l + 1
  /\ IF l = Len(T) THEN PrintT(<<"DONE", l>>) ELSE TRUE
=============================================================================
