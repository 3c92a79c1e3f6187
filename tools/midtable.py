#!/usr/bin/env python3
"""spec/HashMid.tla from the output of tools/midstate for k = 7..33: midtable.py DIR (files mid_<k>.txt)"""
import re, sys, os
ks = range(7, 34)
t = {}
for k in ks:
    for line in open(os.path.join(sys.argv[1], "mid_%d.txt" % k)):
        m = re.match(r"Mid(\w+)_%d == (.*)" % k, line)
        t[m.group(1), k] = m.group(2)
out = ["""------------------------------ MODULE HashMid ------------------------------
(***************************************************************************)
(* Chaining values after 2^k zero bytes (tools/midstate.c, an implementation *)
(* independent of the library).  MC_Hash checks the entries for small k       *)
(* against Hash.tla; with the others the digest of a message of up to 2^33    *)
(* zero bytes and a tail is Final applied to the chaining value.              *)
(***************************************************************************)
EXTENDS Hash"""]
for name in ("1", "RMD", "256", "512"):
    out.append("Mid%s ==\n  <<%s>>" % (name, ",\n    ".join(t[name, k] for k in ks)))
out.append("""MidLog == 7..33
\\* 2^k + n in base 2^24
MidLen(k, n) == IF k >= 24 THEN <<2 ^ (k - 24), n>> ELSE <<0, 2 ^ k + n>>
HugeDigest(w, k, tail) ==
  LET len == MidLen(k, Len(tail))
  IN CASE w = 0 -> Final1(Mid1[k - 6], tail, len)
       [] w = 1 -> FinalRMD(MidRMD[k - 6], tail, len)
       [] w = 2 -> Final256(Mid256[k - 6], tail, len)
       [] w = 3 -> Final512(Mid512[k - 6], tail, len)
=============================================================================""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "HashMid.tla"), "w").write("\n".join(out) + "\n")
