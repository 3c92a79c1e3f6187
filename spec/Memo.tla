--------------------------------- MODULE Memo ---------------------------------
(***************************************************************************)
(* Operations are functions: whatever processes, histories and schedules    *)
(* the calls of this record come from, one call (c: its identity) has one   *)
(* result.  A "pair" is two calls that ran interleaved in two threads (one    *)
(* call only when the first ended before the second was to start), or the   *)
(* first and a later one of many repetitions of the same call.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
vars == <<l, memo>>
Result(x) == <<x.r, x.o>>
Agrees(m, x) == x.c \in DOMAIN m => m[x.c] = Result(x)
Learn(m, x) == IF x.c \in DOMAIN m THEN m ELSE m @@ (x.c :> Result(x))
Silent == {"start", "key_init", "key_uninit"}
Allowed(m, e) ==
  /\ e.oc = "ok"
  /\ CASE e.op \in Silent -> TRUE
       [] e.op = "pair" -> /\ Agrees(m, e.p[1])
                           /\ Len(e.p) = 2 => Agrees(Learn(m, e.p[1]), e.p[2])
       [] OTHER -> Agrees(m, e)
After(m, e) ==
  CASE e.op \in Silent -> m
    [] e.op = "pair" -> IF Len(e.p) = 2 THEN Learn(Learn(m, e.p[1]), e.p[2]) ELSE Learn(m, e.p[1])
    [] OTHER -> Learn(m, e)
Init == l = 1 /\ memo = <<>>
Next ==
  /\ l <= Len(T)
  /\ IF Allowed(memo, T[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
  /\ memo' = After(memo, T[l])
  /\ l' = l + 1
  /\ IF l = Len(T) THEN PrintT(<<"ACCEPTED", l>>) ELSE TRUE
=============================================================================
