#!/usr/bin/env python3
"""spec/ErrNames.tla: the C library's names of the system errors (C locale): errnames.py > spec/ErrNames.tla"""
import ctypes
c = ctypes.CDLL(None)
c.strerror.restype = ctypes.c_char_p
print("""------------------------------ MODULE ErrNames -----------------------------
(***************************************************************************)
(* Names of the system errors 1.. (glibc, C locale), tools/errnames.py.     *)
(***************************************************************************)
ErrNames == <<""")
print(",\n".join("  <<%s>>" % ",".join(map(str, c.strerror(n))) for n in range(1, 134)) + ">>")
print("=" * 77)
