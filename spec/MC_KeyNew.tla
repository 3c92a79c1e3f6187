------------------------------- MODULE MC_KeyNew ------------------------------
(***************************************************************************)
(* Generating a key: draw 32 bytes until they form a valid key.  Draws are  *)
(* the interesting values around the bounds of the valid range; a delivery  *)
(* may be split, and the source may fail at any point.                      *)
(***************************************************************************)
EXTENDS Sys, TLC, Json, IOUtils

MaxBad == atoi(IOEnv.MAXBAD)
VARIABLES pc, draw, bad, log, key
vars == <<pc, draw, bad, log, key>>

Order == FlattenSeq(<<Rep(255, 15), <<254, 186,174,220,230, 175,72,160,59, 191,210,94,140, 208,54,65,65>>>>)
Add1(b) == Take(b, 31) \o <<b[32] + 1>>
Invalid == {Zeros(32), Order, Add1(Order), Rep(255, 32)}
Valid == {Zeros(31) \o <<1>>, Take(Order, 31) \o <<64>>, Rep(0, 15) \o <<1>> \o Rep(90, 16)}
Splits == {<<32>>, <<1, 31>>, <<16, 15, 1>>}
Chop(b, sp) == [i \in 1..Len(sp) |->
                  [k |-> "read", ok |-> TRUE,
                   got |-> Slice(b, FoldLeft(+, 0, Take(sp, i-1)), sp[i])]]
OpenOk == [k |-> "open", ok |-> TRUE, got |-> <<>>]
CloseOk == [k |-> "close", ok |-> TRUE, got |-> <<>>]
Fail == {<<[k |-> "open", ok |-> FALSE, got |-> <<>>]>>,
         <<OpenOk, [k |-> "read", ok |-> FALSE, got |-> <<>>]>>,
         <<OpenOk, [k |-> "read", ok |-> TRUE, got |-> <<>>]>>,
         <<OpenOk, [k |-> "read", ok |-> TRUE, got |-> Rep(7, 17)], [k |-> "read", ok |-> FALSE, got |-> <<>>]>>,
         <<OpenOk, [k |-> "read", ok |-> TRUE, got |-> Rep(7, 31)], [k |-> "read", ok |-> TRUE, got |-> <<>>]>>}

Init == pc = "draw" /\ draw = <<>> /\ bad = 0 /\ log = <<>> /\ key = <<>>
Draw ==
  /\ pc = "draw"
  /\ \/ \E b \in Valid \cup (IF bad < MaxBad THEN Invalid ELSE {}) :
        \E sp \in (IF b \in Valid \/ bad = 0 THEN Splits ELSE {<<32>>}) :
          /\ log' = log \o <<OpenOk>> \o Chop(b, sp) \o <<CloseOk>>
          /\ draw' = b /\ pc' = "check"
     \/ \E f \in Fail : log' = log \o f /\ pc' = "fatal" /\ UNCHANGED draw
  /\ UNCHANGED <<bad, key>>
Check ==
  /\ pc = "check"
  /\ IF ValidKey(draw) THEN key' = draw /\ pc' = "returned" /\ UNCHANGED bad
     ELSE bad' = bad + 1 /\ pc' = "draw" /\ UNCHANGED key
  /\ UNCHANGED <<draw, log>>
Emit ==
  /\ pc \in {"returned", "fatal"}
  /\ PrintT(<<"CASE", ToJson([log |-> log, fails |-> pc = "fatal"])>>)
  /\ pc' = (IF pc = "fatal" THEN "exited" ELSE "end") /\ UNCHANGED <<draw, bad, log, key>>
Next == Draw \/ Check \/ Emit
Spec == Init /\ [][Next]_vars

Returned == pc \in {"returned", "end"} => NewKey(log, key) /\ ValidKey(key)
Only == pc \in {"returned", "end"} => \A b \in Invalid \cup Valid : NewKey(log, b) => b = key
Failed == pc \in {"fatal", "exited"} => SourceFailed(log)
Classes == (\A b \in Invalid : ~ValidKey(b)) /\ (\A b \in Valid : ValidKey(b))
=============================================================================
