------------------------------- MODULE Footprint ------------------------------
(***************************************************************************)
(* What a call may touch.  For every output buffer the record has the       *)
(* extent [lo, hi) that was written relative to its start, and its          *)
(* documented capacity cap; m counts modified inputs, d and l the           *)
(* descriptors and heap blocks that the call acquired and kept.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Inside(x) == x[1] = x[2] \/ (x[1] >= 0 /\ x[2] <= x[3])
Keeps == {"key_init", "key_uninit"}      \* acquire and release between calls
Allowed(e) ==
  \/ e.op = "start"
  \/ /\ e.oc = "ok"
     /\ e.m = 0
     /\ \A i \in 1..Len(e.x) : Inside(e.x[i])
     /\ e.d = 0
     /\ e.op \in Keeps \/ e.l = 0
Init == l = 1
Next ==
  /\ l <= Len(T)
  /\ IF Allowed(T[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
  /\ l' = l + 1
  /\ IF l = Len(T) THEN PrintT(<<"ACCEPTED", l>>) ELSE TRUE
=============================================================================
