------------------------------- MODULE MC_Sched -------------------------------
(***************************************************************************)
(* Two threads, each making one call.  A call is a fixed number of steps    *)
(* over working state; the call's result is what its working state holds at *)
(* the end.  With working state of its own per call (Shared = FALSE) every  *)
(* schedule gives every call the result it has alone; with state shared     *)
(* between calls there are schedules that do not, and one preemption is     *)
(* enough to expose it.  The schedules with one preemption are emitted and  *)
(* replayed against the library.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Shared
Steps == atoi(IOEnv.STEPS)
VARIABLES at, mem, out, sched
vars == <<at, mem, out, sched>>
Th == {1, 2}
Cell(t) == IF Shared THEN 1 ELSE t
\* a step folds the call's own data (here: t) and the step into the state
Fold(m, t, i) == (3 * m + 5 * t + i) % 1009
Alone(t) == LET f[i \in 0..Steps] == IF i = 0 THEN 0 ELSE Fold(f[i-1], t, i) IN f[Steps]
Init == at = [t \in Th |-> 0] /\ mem = [c \in Th |-> 0] /\ out = [t \in Th |-> 0] /\ sched = <<>>
Step(t) ==
  /\ at[t] < Steps
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ mem' = [mem EXCEPT ![Cell(t)] = Fold(IF at[t] = 0 THEN 0 ELSE @, t, at[t] + 1)]
  /\ out' = IF at[t] + 1 = Steps THEN [out EXCEPT ![t] = mem'[Cell(t)]] ELSE out
  /\ sched' = Append(sched, t)
Switches == Cardinality({i \in 1..(Len(sched)-1) : sched[i] # sched[i+1]})
Few == Switches <= 3
Done == \A t \in Th : at[t] = Steps
\* A runs, is stopped once, B runs entirely, A continues
OnePreemption == Done /\ Switches = 2 /\ sched[1] = 1
Emit == /\ OnePreemption /\ Len(sched) = 2 * Steps
        /\ PrintT(<<"CASE", ToJson([cut |-> CHOOSE i \in 1..Steps : sched[i] = 1 /\ sched[i+1] = 2])>>)
        /\ sched' = Append(sched, 0) /\ UNCHANGED <<at, mem, out>>
Next == (\E t \in Th : Step(t)) \/ Emit
Spec == Init /\ [][Next]_vars
Functional == Done => \A t \in Th : out[t] = Alone(t)
=============================================================================
