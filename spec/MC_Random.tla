------------------------------- MODULE MC_Random ------------------------------
(***************************************************************************)
(* The request for random bytes as a machine over the system's source: the  *)
(* source is opened, asked for what is missing until nothing is, closed.    *)
(* Each system call may fail and each delivery may be short or empty.       *)
(* The machine meets what Sys demands of a returned and of a terminated     *)
(* request, and its complete behaviours are the scripts that the recorder   *)
(* replays against the library.                                             *)
(***************************************************************************)
EXTENDS Sys, TLC, Json, IOUtils

Sizes == 0..atoi(IOEnv.MAXSIZE)
VARIABLES pc, want, buf, log, fds
vars == <<pc, want, buf, log, fds>>

\* the source's stream: no byte twice in a row, none zero
Stream(i) == 1 + ((37 * i + 11) % 255)
Next_(k) == [i \in 1..k |-> Stream(Len(Delivered(log)) + i)]

Init == pc = "open" /\ want \in Sizes /\ buf = <<>> /\ log = <<>> /\ fds = 0
Put(r) == log' = Append(log, r)
Open ==
  /\ pc = "open"
  /\ \/ Put([k |-> "open", ok |-> TRUE, got |-> <<>>]) /\ fds' = 1
        /\ pc' = IF want = 0 THEN "close" ELSE "read"
     \/ Put([k |-> "open", ok |-> FALSE, got |-> <<>>]) /\ pc' = "fatal" /\ UNCHANGED fds
  /\ UNCHANGED <<want, buf>>
Read ==
  /\ pc = "read"
  /\ \/ \E k \in 1..(want - Len(buf)) :
          /\ Put([k |-> "read", ok |-> TRUE, got |-> Next_(k)])
          /\ buf' = buf \o Next_(k)
          /\ pc' = IF Len(buf') = want THEN "close" ELSE "read"
     \/ /\ \E x \in {[k |-> "read", ok |-> FALSE, got |-> <<>>], [k |-> "read", ok |-> TRUE, got |-> <<>>]} : Put(x)
        /\ pc' = "fatal" /\ UNCHANGED buf
  /\ UNCHANGED <<want, fds>>
Close ==
  /\ pc = "close"
  /\ Put([k |-> "close", ok |-> TRUE, got |-> <<>>]) /\ fds' = 0 /\ pc' = "returned"
  /\ UNCHANGED <<want, buf>>
Emit ==
  /\ pc \in {"returned", "fatal"}
  /\ PrintT(<<"CASE", ToJson([n |-> want, log |-> log, fails |-> pc = "fatal"])>>)
  /\ pc' = (IF pc = "fatal" THEN "exited" ELSE "end")
  /\ UNCHANGED <<want, buf, log, fds>>
Next == Open \/ Read \/ Close \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Delivers == pc \in {"returned", "end"} => Random(log, buf, want) /\ fds = 0
Reports == pc \in {"fatal", "exited"} => SourceFailed(log)
Prefix == StartsWith(Delivered(log), buf) /\ Len(buf) <= want
Finishes == <>(pc \in {"end", "exited"})
=============================================================================
