-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Machine words as sequences of 16-bit limbs, most significant first.     *)
(* A 32-bit word is <<hi,lo>>, a 64-bit word <<w1,w2,w3,w4>>.  TLC's       *)
(* integers are 32-bit signed, so no intermediate value below exceeds      *)
(* 2^31 - 1.  Byte strings are sequences over 0..255.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
Pow2(n) == P2[n+1]                     \* 0 <= n <= 16

M16 == 65536

(***************************** 32-bit words ********************************)
Xor32(a,b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a,b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a,b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)   == <<65535 - a[1], 65535 - a[2]>>
Norm32(h,l) == <<(h + (l \div M16)) % M16, l % M16>>
Add32(a,b) == Norm32(a[1]+b[1], a[2]+b[2])
Add32x3(a,b,c) == Norm32(a[1]+b[1]+c[1], a[2]+b[2]+c[2])
Add32x4(a,b,c,d) == Norm32(a[1]+b[1]+c[1]+d[1], a[2]+b[2]+c[2]+d[2])
Add32x5(a,b,c,d,e) ==
  Norm32(a[1]+b[1]+c[1]+d[1]+e[1], a[2]+b[2]+c[2]+d[2]+e[2])
\* rotate right by n, 0 < n < 16
RotRs(a,n) == <<(a[1] \div P2[n+1]) + (a[2] % P2[n+1]) * P2[17-n],
                (a[2] \div P2[n+1]) + (a[1] % P2[n+1]) * P2[17-n]>>
Swap32(a)  == <<a[2], a[1]>>
RotR32(a,n) == IF n = 0 THEN a
               ELSE IF n < 16 THEN RotRs(a,n)
               ELSE IF n = 16 THEN Swap32(a) ELSE RotRs(Swap32(a), n-16)
RotL32(a,n) == RotR32(a, 32-n)
ShR32(a,n) == <<a[1] \div P2[n+1],                 \* 0 <= n < 16
                (a[2] \div P2[n+1]) + (a[1] % P2[n+1]) * P2[17-n]>>
W32BE(s,i) == <<256*s[i] + s[i+1], 256*s[i+2] + s[i+3]>>
W32LE(s,i) == <<256*s[i+3] + s[i+2], 256*s[i+1] + s[i]>>
Hi8(x) == x \div 256
Lo8(x) == x % 256
BytesBE32(a) == <<Hi8(a[1]), Lo8(a[1]), Hi8(a[2]), Lo8(a[2])>>
BytesLE32(a) == <<Lo8(a[2]), Hi8(a[2]), Lo8(a[1]), Hi8(a[1])>>

(***************************** 64-bit words ********************************)
Xor64(a,b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a,b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Or64(a,b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
Not64(a)   == <<65535-a[1], 65535-a[2], 65535-a[3], 65535-a[4]>>
Norm64(w,x,y,z) ==
  LET c3 == z \div M16
      y1 == y + c3
      x1 == x + y1 \div M16
      w1 == w + x1 \div M16
  IN <<w1 % M16, x1 % M16, y1 % M16, z % M16>>
Add64(a,b) == Norm64(a[1]+b[1],a[2]+b[2],a[3]+b[3],a[4]+b[4])
Add64x4(a,b,c,d) == Norm64(a[1]+b[1]+c[1]+d[1], a[2]+b[2]+c[2]+d[2],
                           a[3]+b[3]+c[3]+d[3], a[4]+b[4]+c[4]+d[4])
Add64x5(a,b,c,d,e) ==
  Norm64(a[1]+b[1]+c[1]+d[1]+e[1], a[2]+b[2]+c[2]+d[2]+e[2],
         a[3]+b[3]+c[3]+d[3]+e[3], a[4]+b[4]+c[4]+d[4]+e[4])
RotR64s(a,n) ==
  LET p == P2[n+1] q == P2[17-n]
  IN <<(a[1] \div p) + (a[4] % p)*q, (a[2] \div p) + (a[1] % p)*q,
       (a[3] \div p) + (a[2] % p)*q, (a[4] \div p) + (a[3] % p)*q>>
RotL64q(a,k) == CASE k = 0 -> a [] k = 1 -> <<a[2],a[3],a[4],a[1]>>
                  [] k = 2 -> <<a[3],a[4],a[1],a[2]>> [] k = 3 -> <<a[4],a[1],a[2],a[3]>>
RotR64(a,n) ==                          \* rotate right by 16*k, then by n%16
  LET k == n \div 16  m == n % 16  r == RotL64q(a,(4-k)%4)
  IN IF m = 0 THEN r ELSE RotR64s(r,m)
ShR64(a,n) ==                           \* 0 <= n < 16
  LET p == P2[n+1] q == P2[17-n]
  IN <<a[1] \div p, (a[2] \div p) + (a[1] % p)*q,
       (a[3] \div p) + (a[2] % p)*q, (a[4] \div p) + (a[3] % p)*q>>
W64BE(s,i) == <<256*s[i]+s[i+1], 256*s[i+2]+s[i+3], 256*s[i+4]+s[i+5], 256*s[i+6]+s[i+7]>>
BytesBE64(a) == <<Hi8(a[1]),Lo8(a[1]),Hi8(a[2]),Lo8(a[2]),
                  Hi8(a[3]),Lo8(a[3]),Hi8(a[4]),Lo8(a[4])>>
BytesLE64(a) == <<Lo8(a[4]),Hi8(a[4]),Lo8(a[3]),Hi8(a[3]),
                  Lo8(a[2]),Hi8(a[2]),Lo8(a[1]),Hi8(a[1])>>

(***************************** byte strings ********************************)
Zeros(n) == [i \in 1..n |-> 0]
Rep(b,n) == [i \in 1..n |-> b]
XorB(s,b) == [i \in 1..Len(s) |-> s[i] ^^ b]
Take(s,n) == SubSeq(s,1,n)
Drop(s,n) == SubSeq(s,n+1,Len(s))
Slice(s,i,n) == SubSeq(s,i+1,i+n)       \* n bytes at 0-based offset i
=============================================================================
