-------------------------------- MODULE Hash ---------------------------------
(***************************************************************************)
(* SHA-1, SHA-256, SHA-512 (FIPS 180-4), RIPEMD-160, HMAC (RFC 2104) and   *)
(* the Bitcoin compositions, written from the standards.                   *)
(* Each digest is a Merkle-Damgard machine: state = (chaining value,       *)
(* blocks consumed); one Compress step per block of the padded message.    *)
(***************************************************************************)
EXTENDS Words, HashConst

(* A message length is a pair <<q, r>> = q * 2^24 + r bytes (r < 2^24), so  *)
(* that lengths beyond 2^31 bits can be expressed.                         *)
LenPair(n) == <<n \div 16777216, n % 16777216>>
\* 64-bit count of bits, big-endian: q*2^27 + r*8
BitLen64(p) ==
  LET r8  == p[2] * 8                       \* < 2^27
      low == r8 % M16
      mid == (r8 \div M16) + (p[1] % 4096) * 2048  \* 2^27 = 2^16 * 2^11
      hi  == (mid \div M16) + (p[1] \div 4096) * 128   \* 4096*2^27 = 2^39 = 2^32*2^7
  IN <<0, hi, mid % M16, low>>

\* bytes after the last full block: tail ++ 80 ++ 00.. ++ length
PadTail(tail, lenfield, blk) ==
  LET n == Len(tail)
      room == blk - Len(lenfield)
      z == IF n + 1 <= room THEN room - n - 1 ELSE blk + room - n - 1
  IN tail \o <<128>> \o Zeros(z) \o lenfield

Blocks(s, blk) == [k \in 1..(Len(s) \div blk) |-> SubSeq(s, (k-1)*blk+1, k*blk)]

(******************************** SHA-256 *********************************)
S256_0(x) == Xor32(RotRs(x,2), Xor32(RotRs(x,13), RotR32(x,22)))
S256_1(x) == Xor32(RotRs(x,6), Xor32(RotRs(x,11), RotR32(x,25)))
s256_0(x) == Xor32(RotRs(x,7), Xor32(RotR32(x,18), ShR32(x,3)))
s256_1(x) == Xor32(RotR32(x,17), Xor32(RotR32(x,19), ShR32(x,10)))
Ch32(x,y,z)  == Xor32(And32(x,y), And32(Not32(x),z))
Maj32(x,y,z) == Xor32(And32(x,y), Xor32(And32(x,z), And32(y,z)))

Sched256(b) ==
  LET w0 == [i \in 1..16 |-> W32BE(b, 4*i-3)]
      Ext(w, t) == Append(w, Add32x4(s256_1(w[t-2]), w[t-7], s256_0(w[t-15]), w[t-16]))
  IN FoldLeft(Ext, w0, [i \in 1..48 |-> i+16])

Round256(v, kw) ==
  LET t1 == Add32x5(v[8], S256_1(v[5]), Ch32(v[5],v[6],v[7]), kw[1], kw[2])
      t2 == Add32(S256_0(v[1]), Maj32(v[1],v[2],v[3]))
  IN <<Add32(t1,t2), v[1], v[2], v[3], Add32(v[4],t1), v[5], v[6], v[7]>>

Compress256(h, b) ==
  LET w == Sched256(b)
      v == FoldLeft(Round256, h, [t \in 1..64 |-> <<K256[t], w[t]>>])
  IN [i \in 1..8 |-> Add32(h[i], v[i])]

Absorb256(h, s) == FoldLeft(Compress256, h, Blocks(s, 64))
Out256(h) == FlattenSeq([i \in 1..8 |-> BytesBE32(h[i])])
\* digest when the chaining value is h, `len` bytes were absorbed before `tail`
Final256(h, s, len) ==
  LET n == Len(s) % 64
      body == Take(s, Len(s) - n)
      tail == Drop(s, Len(s) - n)
  IN Out256(Absorb256(Absorb256(h, body), PadTail(tail, BytesBE64(BitLen64(len)), 64)))
SHA256(s) == Final256(IV256, s, LenPair(Len(s)))

(******************************** SHA-512 *********************************)
S512_0(x) == Xor64(RotR64(x,28), Xor64(RotR64(x,34), RotR64(x,39)))
S512_1(x) == Xor64(RotR64(x,14), Xor64(RotR64(x,18), RotR64(x,41)))
s512_0(x) == Xor64(RotR64(x,1), Xor64(RotR64(x,8), ShR64(x,7)))
s512_1(x) == Xor64(RotR64(x,19), Xor64(RotR64(x,61), ShR64(x,6)))
Ch64(x,y,z)  == Xor64(And64(x,y), And64(Not64(x),z))
Maj64(x,y,z) == Xor64(And64(x,y), Xor64(And64(x,z), And64(y,z)))

Sched512(b) ==
  LET w0 == [i \in 1..16 |-> W64BE(b, 8*i-7)]
      Ext(w, t) == Append(w, Add64x4(s512_1(w[t-2]), w[t-7], s512_0(w[t-15]), w[t-16]))
  IN FoldLeft(Ext, w0, [i \in 1..64 |-> i+16])

Round512(v, kw) ==
  LET t1 == Add64x5(v[8], S512_1(v[5]), Ch64(v[5],v[6],v[7]), kw[1], kw[2])
      t2 == Add64(S512_0(v[1]), Maj64(v[1],v[2],v[3]))
  IN <<Add64(t1,t2), v[1], v[2], v[3], Add64(v[4],t1), v[5], v[6], v[7]>>

Compress512(h, b) ==
  LET w == Sched512(b)
      v == FoldLeft(Round512, h, [t \in 1..80 |-> <<K512[t], w[t]>>])
  IN [i \in 1..8 |-> Add64(h[i], v[i])]

Absorb512(h, s) == FoldLeft(Compress512, h, Blocks(s, 128))
Out512(h) == FlattenSeq([i \in 1..8 |-> BytesBE64(h[i])])
Final512(h, s, len) ==
  LET n == Len(s) % 128
      body == Take(s, Len(s) - n)
      tail == Drop(s, Len(s) - n)
  IN Out512(Absorb512(Absorb512(h, body),
            PadTail(tail, Zeros(8) \o BytesBE64(BitLen64(len)), 128)))
SHA512(s) == Final512(IV512, s, LenPair(Len(s)))

(********************************* SHA-1 **********************************)
IV160 == <<<<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>, <<50130,57840>>>>
K1 == <<<<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>>>>
Par32(x,y,z) == Xor32(x, Xor32(y,z))
Sched1(b) ==
  LET w0 == [i \in 1..16 |-> W32BE(b, 4*i-3)]
      Ext(w, t) == Append(w, RotL32(Xor32(Xor32(w[t-3],w[t-8]), Xor32(w[t-14],w[t-16])), 1))
  IN FoldLeft(Ext, w0, [i \in 1..64 |-> i+16])
Round1(v, tw) ==
  LET q == ((tw[1]-1) \div 20) + 1
      f == CASE q = 1 -> Ch32(v[2],v[3],v[4])
             [] q = 3 -> Maj32(v[2],v[3],v[4])
             [] OTHER -> Par32(v[2],v[3],v[4])
  IN <<Add32x5(RotL32(v[1],5), f, v[5], K1[q], tw[2]), v[1], RotL32(v[2],30), v[3], v[4]>>
Compress1(h, b) ==
  LET w == Sched1(b)
      v == FoldLeft(Round1, h, [t \in 1..80 |-> <<t, w[t]>>])
  IN [i \in 1..5 |-> Add32(h[i], v[i])]
Absorb1(h, s) == FoldLeft(Compress1, h, Blocks(s, 64))
Final1(h, s, len) ==
  LET n == Len(s) % 64
      body == Take(s, Len(s) - n)
      tail == Drop(s, Len(s) - n)
      z == Absorb1(Absorb1(h, body), PadTail(tail, BytesBE64(BitLen64(len)), 64))
  IN FlattenSeq([i \in 1..5 |-> BytesBE32(z[i])])
SHA1(s) == Final1(IV160, s, LenPair(Len(s)))

(******************************* RIPEMD-160 *******************************)
RMD_R == << 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
  4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 >>
RMD_RR == << 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
  12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 >>
RMD_S == << 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
  9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 >>
RMD_SS == << 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
  8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 >>
RMD_K  == <<<<0,0>>, <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<43347,64846>>>>
RMD_KK == <<<<20642,35814>>, <<23629,53540>>, <<28016,16115>>, <<31341,30441>>, <<0,0>>>>
RMD_F(j,x,y,z) ==                        \* j in 1..5
  CASE j = 1 -> Xor32(x, Xor32(y,z))
    [] j = 2 -> Or32(And32(x,y), And32(Not32(x),z))
    [] j = 3 -> Xor32(Or32(x, Not32(y)), z)
    [] j = 4 -> Or32(And32(x,z), And32(y, Not32(z)))
    [] j = 5 -> Xor32(x, Or32(y, Not32(z)))
RMD_Step(v, j, k, x, s) ==
  LET t == Add32(RotL32(Add32x4(v[1], RMD_F(j,v[2],v[3],v[4]), x, k), s), v[5])
  IN <<v[5], t, v[2], RotL32(v[3],10), v[4]>>
CompressRMD(h, b) ==
  LET x == [i \in 1..16 |-> W32LE(b, 4*i-3)]
      L(v,t) == LET q == ((t-1) \div 16) + 1
                IN RMD_Step(v, q, RMD_K[q], x[RMD_R[t]+1], RMD_S[t])
      R(v,t) == LET q == ((t-1) \div 16) + 1
                IN RMD_Step(v, 6-q, RMD_KK[q], x[RMD_RR[t]+1], RMD_SS[t])
      T80 == [t \in 1..80 |-> t]
      a == FoldLeft(L, h, T80)
      c == FoldLeft(R, h, T80)
  IN << Add32x3(h[2],a[3],c[4]), Add32x3(h[3],a[4],c[5]), Add32x3(h[4],a[5],c[1]),
        Add32x3(h[5],a[1],c[2]), Add32x3(h[1],a[2],c[3]) >>
AbsorbRMD(h, s) == FoldLeft(CompressRMD, h, Blocks(s, 64))
FinalRMD(h, s, len) ==
  LET n == Len(s) % 64
      body == Take(s, Len(s) - n)
      tail == Drop(s, Len(s) - n)
      z == AbsorbRMD(AbsorbRMD(h, body), PadTail(tail, BytesLE64(BitLen64(len)), 64))
  IN FlattenSeq([i \in 1..5 |-> BytesLE32(z[i])])
RIPEMD160(s) == FinalRMD(IV160, s, LenPair(Len(s)))

(********************************** HMAC **********************************)
HmacKey(H(_), key, blk) ==
  LET k == IF Len(key) > blk THEN H(key) ELSE key IN k \o Zeros(blk - Len(k))
HMAC(H(_), blk, key, msg) ==
  LET k == HmacKey(H, key, blk)
  IN H(XorB(k,92) \o H(XorB(k,54) \o msg))
HMAC256(key, msg) == HMAC(SHA256, 64, key, msg)
HMAC512(key, msg) == HMAC(SHA512, 128, key, msg)

(************************* Bitcoin compositions ***************************)
Hash160(s) == RIPEMD160(SHA256(s))
Hash256(s) == SHA256(SHA256(s))
\* one Merkle level: n 64-byte pairs -> n 32-byte parents
Hash256D64(s) == FlattenSeq([k \in 1..(Len(s) \div 64) |-> Hash256(SubSeq(s, 64*k-63, 64*k))])
\* BIP32 CKD hash: HMAC-SHA512(chain code, header || data32 || ser32(child))
Bip32Hash(chain, childBE, header, data32) ==
  HMAC512(chain, <<header>> \o data32 \o childBE)
=============================================================================
