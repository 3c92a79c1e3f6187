---------------------------------- MODULE Sys ----------------------------------
(***************************************************************************)
(* The system's random source as the library sees it.  A log is a sequence  *)
(* of [k, ok, got]: k = "open", "read" or "close"; ok = the system call     *)
(* succeeded; got = the bytes a read delivered.                             *)
(***************************************************************************)
EXTENDS Address

Delivered(log) == FlattenSeq([i \in 1..Len(log) |-> IF log[i].k = "read" THEN log[i].got ELSE <<>>])
\* the source could not be opened, failed, or ended
Broken(x) == (x.k \in {"open", "read"} /\ ~x.ok) \/ (x.k = "read" /\ x.got = <<>>)
SourceFailed(log) == \E i \in 1..Len(log) : Broken(log[i])

\* a returned request for n bytes
Random(log, out, n) ==
  ~SourceFailed(log) /\ Len(out) = n /\ StartsWith(Delivered(log), out)
\* a terminated one
Terminated(e) == (e.oc = "exit" /\ e.r # 0) \/ (e.oc = "sig" /\ e.r = 6)

\* the 32-byte blocks of a stream, and those of each opening of the source
Chunks(s) == [i \in 1..(Len(s) \div 32) |-> Slice(s, 32*(i-1), 32)]
RECURSIVE Sessions(_)
Sessions(log) ==                         \* the log cut before every "open"
  IF log = <<>> THEN <<>>
  ELSE LET I == {i \in 2..Len(log) : log[i].k = "open"}
           c == IF I = {} THEN Len(log) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
       IN <<Take(log, c-1)>> \o Sessions(Drop(log, c-1))
Draws(log) == LET S == Sessions(log)
              IN FlattenSeq([i \in 1..Len(S) |-> Take(Chunks(Delivered(S[i])), 1)])
FirstValid(bs, key) ==
  \E i \in 1..Len(bs) : bs[i] = key /\ ValidKey(key) /\ \A j \in 1..(i-1) : ~ValidKey(bs[j])
NewKey(log, key) ==
  ~SourceFailed(log) /\ (FirstValid(Chunks(Delivered(log)), key) \/ FirstValid(Draws(log), key))
Seeded(log) == ~SourceFailed(log) /\ Len(Delivered(log)) >= 32
=============================================================================
