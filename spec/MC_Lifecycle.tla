----------------------------- MODULE MC_Lifecycle -----------------------------
(***************************************************************************)
(* The key subsystem's life: two contexts acquired by initialisation, which *)
(* also draws a blinding seed, and released together.  User calls happen    *)
(* between those steps.  Every history of MaxCalls calls that ends released *)
(* (or with an initialisation that the source let down) is emitted and      *)
(* replayed against the library.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
MaxCalls == atoi(IOEnv.MAXCALLS)
VARIABLES pc, vfy, sgn, seeded, calls, acquired
vars == <<pc, vfy, sgn, seeded, calls, acquired>>
Init == pc = "idle" /\ vfy = FALSE /\ sgn = FALSE /\ seeded = FALSE /\ calls = <<>> /\ acquired = 0
Ctx == vfy /\ sgn
Call(c) == calls' = Append(calls, c)
Room == Len(calls) < MaxCalls
\* initialisation, step by step
InitCall == pc = "idle" /\ ~Ctx /\ Room /\ Call("init") /\ pc' = "verify" /\ UNCHANGED <<vfy, sgn, seeded, acquired>>
AcqV == pc = "verify" /\ vfy' = TRUE /\ acquired' = acquired + 1 /\ pc' = "sign" /\ UNCHANGED <<sgn, seeded, calls>>
AcqS == pc = "sign" /\ sgn' = TRUE /\ acquired' = acquired + 1 /\ pc' = "draw" /\ UNCHANGED <<vfy, seeded, calls>>
Seed == pc = "draw" /\ seeded' = TRUE /\ pc' = "idle" /\ UNCHANGED <<vfy, sgn, calls, acquired>>
NoSeed == pc = "draw" /\ pc' = "dead" /\ UNCHANGED <<vfy, sgn, seeded, calls, acquired>>
\* release
UninitCall == pc = "idle" /\ Ctx /\ Room /\ Call("uninit") /\ pc' = "rel1" /\ UNCHANGED <<vfy, sgn, seeded, acquired>>
RelS == pc = "rel1" /\ sgn' = FALSE /\ seeded' = FALSE /\ acquired' = acquired - 1 /\ pc' = "rel2" /\ UNCHANGED <<vfy, calls>>
RelV == pc = "rel2" /\ vfy' = FALSE /\ acquired' = acquired - 1 /\ pc' = "idle" /\ UNCHANGED <<sgn, seeded, calls>>
\* operations: on the curve only with contexts, conversions always
Use(k) == pc = "idle" /\ (k # "conv" => Ctx) /\ Room /\ Call(k) /\ UNCHANGED <<pc, vfy, sgn, seeded, acquired>>
Emit ==
  /\ \/ pc = "dead"
     \/ pc = "idle" /\ ~Ctx /\ Len(calls) = MaxCalls
  /\ PrintT(<<"CASE", ToJson([calls |-> calls, dead |-> pc = "dead"])>>)
  /\ pc' = "end" /\ UNCHANGED <<vfy, sgn, seeded, calls, acquired>>
Next == InitCall \/ AcqV \/ AcqS \/ Seed \/ NoSeed \/ UninitCall \/ RelS \/ RelV
        \/ (\E k \in {"pub", "sign", "derive", "conv"} : Use(k)) \/ Emit
Spec == Init /\ [][Next]_vars
Together == pc = "idle" => (vfy <=> sgn) /\ (sgn <=> seeded)
Balanced == pc = "idle" /\ ~Ctx => acquired = 0
Alternate == \A i, j \in 1..Len(calls) :
               (i < j /\ calls[i] = "init" /\ calls[j] = "init") =>
               \E k \in (i+1)..(j-1) : calls[k] = "uninit"
=============================================================================
