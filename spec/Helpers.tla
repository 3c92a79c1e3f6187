------------------------------- MODULE Helpers --------------------------------
(***************************************************************************)
(* Length helpers, byte-order helpers, cleansing and fatal errors.          *)
(***************************************************************************)
EXTENDS Codec, ErrNames, Integers

(***************************** 64-bit sizes ********************************)
(* A size is 8 big-endian bytes; sums and products below carry two more     *)
(* digits, so they are exact for every size.                                *)
Wide(b8) == <<0, 0>> \o b8
MulSize(x, m) ==                         \* m < 2^22
  FoldRight(LAMBDA d, acc: LET v == d*m + acc[1] IN <<v \div 256, <<v % 256>> \o acc[2]>>,
            x, <<0, <<>>>>)[2]
AddSize(x, a) ==                         \* a < 2^30
  FoldRight(LAMBDA d, acc: LET v == d + acc[1] IN <<v \div 256, <<v % 256>> \o acc[2]>>,
            x, <<a, <<>>>>)[2]
DivMod(x, m) ==                          \* <<quotient, remainder>>
  FoldLeft(LAMBDA acc, d: LET v == acc[2]*256 + d IN <<Append(acc[1], v \div m), v % m>>,
           <<<<>>, 0>>, x)
DivSize(x, m) == DivMod(x, m)[1]
PlusSize(x, y) ==
  FoldLeft(LAMBDA acc, i: LET k == Len(x)+1-i v == x[k] + y[k] + acc[1]
                          IN <<v \div 256, <<v % 256>> \o acc[2]>>,
           <<0, <<>>>>, [i \in 1..Len(x) |-> i])[2]
GeSize(x, y) == LET D == {i \in 1..Len(x) : x[i] # y[i]}
  IN D = {} \/ LET i == CHOOSE i \in D : \A j \in D : i <= j IN x[i] > y[i]
SmallSize(x) == \A i \in 1..(Len(x)-2) : x[i] = 0    \* below 65536
SizeNat(x) == 256*x[Len(x)-1] + x[Len(x)]
NatSize(n) == AddSize(Zeros(10), n)

\* digits of the longest Base58 text of n bytes: exact for small sizes, for the
\* others a lower bound (log 256 / log 58 > 1.365658)
MaxBase58(x) ==
  IF SmallSize(x) /\ SizeNat(x) <= 150
  THEN LET n == SizeNat(x) d == Len(ToBase58(Rep(255, n))) IN NatSize(IF d > n THEN d ELSE n)
  ELSE DivSize(MulSize(x, 1365658), 1000000)

\* [exact, size]: what helper w must answer for sizes a and b
LenSpec(w, a8, b8) ==
  LET a == Wide(a8)  b == Wide(b8)
      E(x) == [exact |-> TRUE, size |-> x]
      L(x) == [exact |-> FALSE, size |-> x]
      Up(x, k) == DivSize(AddSize(x, k-1), k)
  IN CASE w = 0 -> E(MulSize(a, 2))
       [] w = 1 -> E(Up(a, 2))
       [] w = 2 -> E(MulSize(Up(a, 3), 4))
       [] w = 3 -> E(Up(MulSize(a, 4), 3))
       [] w = 4 -> E(DivSize(MulSize(a, 3), 4))
       [] w = 5 -> E(MulSize(Up(a, 5), 8))
       [] w = 6 -> LET qr == DivMod(a, 8)
                   IN E(AddSize(MulSize(qr[1], 5), B32Bytes(qr[2])))
       [] w = 7 -> L(MaxBase58(a))
       [] w = 8 -> L(a)                                  \* text of '1' only
       [] w = 9 -> L(MaxBase58(AddSize(PlusSize(a, b), 4)))
       [] w = 10 -> L(a)                                 \* see LenAllowed
       [] w = 11 -> E(AddSize(PlusSize(a, b), 7))
       [] w = 12 -> L(MaxBase58(NatSize(33 + 8 + 4)))
       [] w = 13 -> L(MaxBase58(NatSize(74 + 8 + 4)))
LenAllowed(w, a8, b8, o8) ==
  LET s == LenSpec(w, a8, b8)  o == Wide(o8)
  IN IF s.exact THEN o = s.size
     \* a decoded text of n characters leaves at most n-4 bytes after the checksum
     ELSE IF w = 10 THEN GeSize(AddSize(o, 4), s.size)
     ELSE GeSize(o, s.size)

(***************************** byte order **********************************)
Width(w) == IF w \in {0,2,4,5,6,8} THEN 4 ELSE 8
Little(w) == w \in {0,1,4,6,7}
Writes(w) == w \in {4,5}
Left8(s) == Zeros(8 - Len(s)) \o s
\* value read (8 big-endian bytes) and buffer after
EndianRead(w, buf, off) ==
  LET s == Slice(buf, off, Width(w)) IN Left8(IF Little(w) THEN Reverse(s) ELSE s)
EndianWrite(w, buf, off, v8) ==
  LET v == Drop(v8, 4)  s == IF Little(w) THEN Reverse(v) ELSE v
  IN Take(buf, off) \o s \o Drop(buf, off + 4)

(****************************** fatal errors *******************************)
Digit(d) == 48 + d
RECURSIVE DecText(_), DecSize(_)
DecText(n) == IF n < 10 THEN <<Digit(n)>> ELSE DecText(n \div 10) \o <<Digit(n % 10)>>
DecSize(x) == LET qr == DivMod(x, 10)
              IN (IF \A i \in 1..Len(x) : qr[1][i] = 0 THEN <<>> ELSE DecSize(qr[1])) \o <<Digit(qr[2])>>
\* eight bytes of a signed number
DecLong(b8) ==
  IF b8[1] < 128 THEN DecSize(Wide(b8))
  ELSE <<45>> \o DecSize(AddSize(Wide([i \in 1..8 |-> 255 - b8[i]]), 1))
HasText(s, t) == \E i \in 0..(Len(s)-Len(t)) : SubSeq(s, i+1, i+Len(t)) = t
\* the system's name of error b8
ErrText(b8) ==
  LET n == 256 * b8[7] + b8[8]
  IN IF SubSeq(b8, 1, 6) = Zeros(6) /\ n \in DOMAIN ErrNames THEN ErrNames[n]
     ELSE <<85,110,107,110,111,119,110,32,101,114,114,111,114,32>> \o DecLong(b8)
\* the text the format describes
FatalText(kind, text, num) ==
  CASE kind = 0 -> text
    [] kind = 1 -> text \o <<32>> \o DecLong(num)
    [] kind = 2 -> text
    [] kind = 3 -> <<37>> \o DecLong(num) \o <<58>> \o text
    [] kind = 4 -> text \o <<124>> \o DecLong(num) \o <<124, 81>> \o text \o <<124>> \o DecLong(num) \o <<124>> \o text \o <<124>> \o DecLong(num) \o <<58>>
LineCount(s) == Len(SelectSeq(s, LAMBDA c: c = 10))
FatalOutput(func, file, line, kind, text, num, err, out) ==
  LET t == FatalText(kind, text, num) IN
  /\ HasText(out, t)
  /\ HasText(out, func)
  /\ HasText(out, file \o <<58>> \o DecLong(line))
  /\ err # Zeros(8) => HasText(out, ErrText(err)) /\ HasText(out, DecLong(err))
  \* one message, and nothing about a system error when there is none
  /\ LineCount(out) = LineCount(t) + LineCount(func) + LineCount(file) + (IF err = Zeros(8) THEN 1 ELSE 2)
=============================================================================
