------------------------------- MODULE BigNat --------------------------------
(***************************************************************************)
(* Generated by tools/gen_bignat.py.  Numbers below 2^260 as 20 limbs of 13 *)
(* bits, least significant first; arithmetic modulo the secp256k1 field     *)
(* prime p and group order n.  Residues are kept below 2^260 and made       *)
(* canonical only for comparison.  No column exceeds 20 * 8191^2 + carries  *)
(* < 2^31.  MC_BigNat checks the algebra on random and extreme operands.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LB == 8192
PrimeP == <<7215, 8191, 8127, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 511>>
OrderN == <<321, 434, 820, 1213, 7165, 4125, 7458, 7381, 3804, 5589, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 511>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
One == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
HalfN == <<160, 217, 4506, 4702, 7678, 2062, 7825, 3690, 5998, 6890, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 8191, 255>>   \* (n-1)/2
\* the number in 32 big-endian bytes
FromBytes32(b) ==
  <<((b[32]+256*b[31]+65536*b[30]) \div 1) % LB, ((b[31]+256*b[30]+65536*b[29]) \div 32) % LB, 
  ((b[29]+256*b[28]+65536*b[27]) \div 4) % LB, ((b[28]+256*b[27]+65536*b[26]) \div 128) % LB, 
  ((b[26]+256*b[25]+65536*b[24]) \div 16) % LB, ((b[24]+256*b[23]+65536*b[22]) \div 2) % LB, 
  ((b[23]+256*b[22]+65536*b[21]) \div 64) % LB, ((b[21]+256*b[20]+65536*b[19]) \div 8) % LB, 
  ((b[19]+256*b[18]+65536*b[17]) \div 1) % LB, ((b[18]+256*b[17]+65536*b[16]) \div 32) % LB, 
  ((b[16]+256*b[15]+65536*b[14]) \div 4) % LB, ((b[15]+256*b[14]+65536*b[13]) \div 128) % LB, 
  ((b[13]+256*b[12]+65536*b[11]) \div 16) % LB, ((b[11]+256*b[10]+65536*b[9]) \div 2) % LB, 
  ((b[10]+256*b[9]+65536*b[8]) \div 64) % LB, ((b[8]+256*b[7]+65536*b[6]) \div 8) % LB, 
  ((b[6]+256*b[5]+65536*b[4]) \div 1) % LB, ((b[5]+256*b[4]+65536*b[3]) \div 32) % LB, 
  ((b[3]+256*b[2]+65536*b[1]) \div 4) % LB, ((b[2]+256*b[1]) \div 128) % LB>>
\* 32 big-endian bytes of a number below 2^256
ToBytes32(a) ==
  <<((a[20]) \div 2) % 256, ((a[19]+LB*a[20]) \div 64) % 256, ((a[18]+LB*a[19]) \div 2048) % 256, 
  ((a[18]+LB*a[19]) \div 8) % 256, ((a[17]+LB*a[18]) \div 256) % 256, ((a[17]+LB*a[18]) \div 1) % 
  256, ((a[16]+LB*a[17]) \div 32) % 256, ((a[15]+LB*a[16]) \div 1024) % 256, ((a[15]+LB*a[16]) \div 
  4) % 256, ((a[14]+LB*a[15]) \div 128) % 256, ((a[13]+LB*a[14]) \div 4096) % 256, ((a[13]+LB*a[14]) 
  \div 16) % 256, ((a[12]+LB*a[13]) \div 512) % 256, ((a[12]+LB*a[13]) \div 2) % 256, 
  ((a[11]+LB*a[12]) \div 64) % 256, ((a[10]+LB*a[11]) \div 2048) % 256, ((a[10]+LB*a[11]) \div 8) % 
  256, ((a[9]+LB*a[10]) \div 256) % 256, ((a[9]+LB*a[10]) \div 1) % 256, ((a[8]+LB*a[9]) \div 32) % 
  256, ((a[7]+LB*a[8]) \div 1024) % 256, ((a[7]+LB*a[8]) \div 4) % 256, ((a[6]+LB*a[7]) \div 128) % 
  256, ((a[5]+LB*a[6]) \div 4096) % 256, ((a[5]+LB*a[6]) \div 16) % 256, ((a[4]+LB*a[5]) \div 512) % 
  256, ((a[4]+LB*a[5]) \div 2) % 256, ((a[3]+LB*a[4]) \div 64) % 256, ((a[2]+LB*a[3]) \div 2048) % 
  256, ((a[2]+LB*a[3]) \div 8) % 256, ((a[1]+LB*a[2]) \div 256) % 256, ((a[1]+LB*a[2]) \div 1) % 
  256>>
MulCols(a, b) ==
  <<a[1]*b[1], a[1]*b[2]+a[2]*b[1], a[1]*b[3]+a[2]*b[2]+a[3]*b[1], 
  a[1]*b[4]+a[2]*b[3]+a[3]*b[2]+a[4]*b[1], a[1]*b[5]+a[2]*b[4]+a[3]*b[3]+a[4]*b[2]+a[5]*b[1], 
  a[1]*b[6]+a[2]*b[5]+a[3]*b[4]+a[4]*b[3]+a[5]*b[2]+a[6]*b[1], 
  a[1]*b[7]+a[2]*b[6]+a[3]*b[5]+a[4]*b[4]+a[5]*b[3]+a[6]*b[2]+a[7]*b[1], 
  a[1]*b[8]+a[2]*b[7]+a[3]*b[6]+a[4]*b[5]+a[5]*b[4]+a[6]*b[3]+a[7]*b[2]+a[8]*b[1], 
  a[1]*b[9]+a[2]*b[8]+a[3]*b[7]+a[4]*b[6]+a[5]*b[5]+a[6]*b[4]+a[7]*b[3]+a[8]*b[2]+a[9]*b[1], 
  a[1]*b[10]+a[2]*b[9]+a[3]*b[8]+a[4]*b[7]+a[5]*b[6]+a[6]*b[5]+a[7]*b[4]+a[8]*b[3]+a[9]*b[2]+a[10]*b[1], 
  a[1]*b[11]+a[2]*b[10]+a[3]*b[9]+a[4]*b[8]+a[5]*b[7]+a[6]*b[6]+a[7]*b[5]+a[8]*b[4]+a[9]*b[3]+a[10]*b[2]+a[11]*b[1], 
  a[1]*b[12]+a[2]*b[11]+a[3]*b[10]+a[4]*b[9]+a[5]*b[8]+a[6]*b[7]+a[7]*b[6]+a[8]*b[5]+a[9]*b[4]+a[10]*b[3]+a[11]*b[2]+a[12]*b[1], 
  a[1]*b[13]+a[2]*b[12]+a[3]*b[11]+a[4]*b[10]+a[5]*b[9]+a[6]*b[8]+a[7]*b[7]+a[8]*b[6]+a[9]*b[5]+a[10]*b[4]+a[11]*b[3]+a[12]*b[2]+a[13]*b[1], 
  a[1]*b[14]+a[2]*b[13]+a[3]*b[12]+a[4]*b[11]+a[5]*b[10]+a[6]*b[9]+a[7]*b[8]+a[8]*b[7]+a[9]*b[6]+a[10]*b[5]+a[11]*b[4]+a[12]*b[3]+a[13]*b[2]+a[14]*b[1], 
  a[1]*b[15]+a[2]*b[14]+a[3]*b[13]+a[4]*b[12]+a[5]*b[11]+a[6]*b[10]+a[7]*b[9]+a[8]*b[8]+a[9]*b[7]+a[10]*b[6]+a[11]*b[5]+a[12]*b[4]+a[13]*b[3]+a[14]*b[2]+a[15]*b[1], 
  a[1]*b[16]+a[2]*b[15]+a[3]*b[14]+a[4]*b[13]+a[5]*b[12]+a[6]*b[11]+a[7]*b[10]+a[8]*b[9]+a[9]*b[8]+a[10]*b[7]+a[11]*b[6]+a[12]*b[5]+a[13]*b[4]+a[14]*b[3]+a[15]*b[2]+a[16]*b[1], 
  a[1]*b[17]+a[2]*b[16]+a[3]*b[15]+a[4]*b[14]+a[5]*b[13]+a[6]*b[12]+a[7]*b[11]+a[8]*b[10]+a[9]*b[9]+a[10]*b[8]+a[11]*b[7]+a[12]*b[6]+a[13]*b[5]+a[14]*b[4]+a[15]*b[3]+a[16]*b[2]+a[17]*b[1], 
  a[1]*b[18]+a[2]*b[17]+a[3]*b[16]+a[4]*b[15]+a[5]*b[14]+a[6]*b[13]+a[7]*b[12]+a[8]*b[11]+a[9]*b[10]+a[10]*b[9]+a[11]*b[8]+a[12]*b[7]+a[13]*b[6]+a[14]*b[5]+a[15]*b[4]+a[16]*b[3]+a[17]*b[2]+a[18]*b[1], 
  a[1]*b[19]+a[2]*b[18]+a[3]*b[17]+a[4]*b[16]+a[5]*b[15]+a[6]*b[14]+a[7]*b[13]+a[8]*b[12]+a[9]*b[11]+a[10]*b[10]+a[11]*b[9]+a[12]*b[8]+a[13]*b[7]+a[14]*b[6]+a[15]*b[5]+a[16]*b[4]+a[17]*b[3]+a[18]*b[2]+a[19]*b[1], 
  a[1]*b[20]+a[2]*b[19]+a[3]*b[18]+a[4]*b[17]+a[5]*b[16]+a[6]*b[15]+a[7]*b[14]+a[8]*b[13]+a[9]*b[12]+a[10]*b[11]+a[11]*b[10]+a[12]*b[9]+a[13]*b[8]+a[14]*b[7]+a[15]*b[6]+a[16]*b[5]+a[17]*b[4]+a[18]*b[3]+a[19]*b[2]+a[20]*b[1], 
  a[2]*b[20]+a[3]*b[19]+a[4]*b[18]+a[5]*b[17]+a[6]*b[16]+a[7]*b[15]+a[8]*b[14]+a[9]*b[13]+a[10]*b[12]+a[11]*b[11]+a[12]*b[10]+a[13]*b[9]+a[14]*b[8]+a[15]*b[7]+a[16]*b[6]+a[17]*b[5]+a[18]*b[4]+a[19]*b[3]+a[20]*b[2], 
  a[3]*b[20]+a[4]*b[19]+a[5]*b[18]+a[6]*b[17]+a[7]*b[16]+a[8]*b[15]+a[9]*b[14]+a[10]*b[13]+a[11]*b[12]+a[12]*b[11]+a[13]*b[10]+a[14]*b[9]+a[15]*b[8]+a[16]*b[7]+a[17]*b[6]+a[18]*b[5]+a[19]*b[4]+a[20]*b[3], 
  a[4]*b[20]+a[5]*b[19]+a[6]*b[18]+a[7]*b[17]+a[8]*b[16]+a[9]*b[15]+a[10]*b[14]+a[11]*b[13]+a[12]*b[12]+a[13]*b[11]+a[14]*b[10]+a[15]*b[9]+a[16]*b[8]+a[17]*b[7]+a[18]*b[6]+a[19]*b[5]+a[20]*b[4], 
  a[5]*b[20]+a[6]*b[19]+a[7]*b[18]+a[8]*b[17]+a[9]*b[16]+a[10]*b[15]+a[11]*b[14]+a[12]*b[13]+a[13]*b[12]+a[14]*b[11]+a[15]*b[10]+a[16]*b[9]+a[17]*b[8]+a[18]*b[7]+a[19]*b[6]+a[20]*b[5], 
  a[6]*b[20]+a[7]*b[19]+a[8]*b[18]+a[9]*b[17]+a[10]*b[16]+a[11]*b[15]+a[12]*b[14]+a[13]*b[13]+a[14]*b[12]+a[15]*b[11]+a[16]*b[10]+a[17]*b[9]+a[18]*b[8]+a[19]*b[7]+a[20]*b[6], 
  a[7]*b[20]+a[8]*b[19]+a[9]*b[18]+a[10]*b[17]+a[11]*b[16]+a[12]*b[15]+a[13]*b[14]+a[14]*b[13]+a[15]*b[12]+a[16]*b[11]+a[17]*b[10]+a[18]*b[9]+a[19]*b[8]+a[20]*b[7], 
  a[8]*b[20]+a[9]*b[19]+a[10]*b[18]+a[11]*b[17]+a[12]*b[16]+a[13]*b[15]+a[14]*b[14]+a[15]*b[13]+a[16]*b[12]+a[17]*b[11]+a[18]*b[10]+a[19]*b[9]+a[20]*b[8], 
  a[9]*b[20]+a[10]*b[19]+a[11]*b[18]+a[12]*b[17]+a[13]*b[16]+a[14]*b[15]+a[15]*b[14]+a[16]*b[13]+a[17]*b[12]+a[18]*b[11]+a[19]*b[10]+a[20]*b[9], 
  a[10]*b[20]+a[11]*b[19]+a[12]*b[18]+a[13]*b[17]+a[14]*b[16]+a[15]*b[15]+a[16]*b[14]+a[17]*b[13]+a[18]*b[12]+a[19]*b[11]+a[20]*b[10], 
  a[11]*b[20]+a[12]*b[19]+a[13]*b[18]+a[14]*b[17]+a[15]*b[16]+a[16]*b[15]+a[17]*b[14]+a[18]*b[13]+a[19]*b[12]+a[20]*b[11], 
  a[12]*b[20]+a[13]*b[19]+a[14]*b[18]+a[15]*b[17]+a[16]*b[16]+a[17]*b[15]+a[18]*b[14]+a[19]*b[13]+a[20]*b[12], 
  a[13]*b[20]+a[14]*b[19]+a[15]*b[18]+a[16]*b[17]+a[17]*b[16]+a[18]*b[15]+a[19]*b[14]+a[20]*b[13], 
  a[14]*b[20]+a[15]*b[19]+a[16]*b[18]+a[17]*b[17]+a[18]*b[16]+a[19]*b[15]+a[20]*b[14], 
  a[15]*b[20]+a[16]*b[19]+a[17]*b[18]+a[18]*b[17]+a[19]*b[16]+a[20]*b[15], 
  a[16]*b[20]+a[17]*b[19]+a[18]*b[18]+a[19]*b[17]+a[20]*b[16], 
  a[17]*b[20]+a[18]*b[19]+a[19]*b[18]+a[20]*b[17], a[18]*b[20]+a[19]*b[19]+a[20]*b[18], 
  a[19]*b[20]+a[20]*b[19], a[20]*b[20]>>
SqrCols(a) ==
  LET d == <<2*a[1], 2*a[2], 2*a[3], 2*a[4], 2*a[5], 2*a[6], 2*a[7], 2*a[8], 2*a[9], 2*a[10], 2*a[11], 2*a[12], 2*a[13], 2*a[14], 2*a[15], 2*a[16], 2*a[17], 2*a[18], 2*a[19], 2*a[20]>> IN
  <<a[1]*a[1], d[1]*a[2], d[1]*a[3]+a[2]*a[2], d[1]*a[4]+d[2]*a[3], d[1]*a[5]+d[2]*a[4]+a[3]*a[3], 
  d[1]*a[6]+d[2]*a[5]+d[3]*a[4], d[1]*a[7]+d[2]*a[6]+d[3]*a[5]+a[4]*a[4], 
  d[1]*a[8]+d[2]*a[7]+d[3]*a[6]+d[4]*a[5], d[1]*a[9]+d[2]*a[8]+d[3]*a[7]+d[4]*a[6]+a[5]*a[5], 
  d[1]*a[10]+d[2]*a[9]+d[3]*a[8]+d[4]*a[7]+d[5]*a[6], 
  d[1]*a[11]+d[2]*a[10]+d[3]*a[9]+d[4]*a[8]+d[5]*a[7]+a[6]*a[6], 
  d[1]*a[12]+d[2]*a[11]+d[3]*a[10]+d[4]*a[9]+d[5]*a[8]+d[6]*a[7], 
  d[1]*a[13]+d[2]*a[12]+d[3]*a[11]+d[4]*a[10]+d[5]*a[9]+d[6]*a[8]+a[7]*a[7], 
  d[1]*a[14]+d[2]*a[13]+d[3]*a[12]+d[4]*a[11]+d[5]*a[10]+d[6]*a[9]+d[7]*a[8], 
  d[1]*a[15]+d[2]*a[14]+d[3]*a[13]+d[4]*a[12]+d[5]*a[11]+d[6]*a[10]+d[7]*a[9]+a[8]*a[8], 
  d[1]*a[16]+d[2]*a[15]+d[3]*a[14]+d[4]*a[13]+d[5]*a[12]+d[6]*a[11]+d[7]*a[10]+d[8]*a[9], 
  d[1]*a[17]+d[2]*a[16]+d[3]*a[15]+d[4]*a[14]+d[5]*a[13]+d[6]*a[12]+d[7]*a[11]+d[8]*a[10]+a[9]*a[9], 
  d[1]*a[18]+d[2]*a[17]+d[3]*a[16]+d[4]*a[15]+d[5]*a[14]+d[6]*a[13]+d[7]*a[12]+d[8]*a[11]+d[9]*a[10], 
  d[1]*a[19]+d[2]*a[18]+d[3]*a[17]+d[4]*a[16]+d[5]*a[15]+d[6]*a[14]+d[7]*a[13]+d[8]*a[12]+d[9]*a[11]+a[10]*a[10], 
  d[1]*a[20]+d[2]*a[19]+d[3]*a[18]+d[4]*a[17]+d[5]*a[16]+d[6]*a[15]+d[7]*a[14]+d[8]*a[13]+d[9]*a[12]+d[10]*a[11], 
  d[2]*a[20]+d[3]*a[19]+d[4]*a[18]+d[5]*a[17]+d[6]*a[16]+d[7]*a[15]+d[8]*a[14]+d[9]*a[13]+d[10]*a[12]+a[11]*a[11], 
  d[3]*a[20]+d[4]*a[19]+d[5]*a[18]+d[6]*a[17]+d[7]*a[16]+d[8]*a[15]+d[9]*a[14]+d[10]*a[13]+d[11]*a[12], 
  d[4]*a[20]+d[5]*a[19]+d[6]*a[18]+d[7]*a[17]+d[8]*a[16]+d[9]*a[15]+d[10]*a[14]+d[11]*a[13]+a[12]*a[12], 
  d[5]*a[20]+d[6]*a[19]+d[7]*a[18]+d[8]*a[17]+d[9]*a[16]+d[10]*a[15]+d[11]*a[14]+d[12]*a[13], 
  d[6]*a[20]+d[7]*a[19]+d[8]*a[18]+d[9]*a[17]+d[10]*a[16]+d[11]*a[15]+d[12]*a[14]+a[13]*a[13], 
  d[7]*a[20]+d[8]*a[19]+d[9]*a[18]+d[10]*a[17]+d[11]*a[16]+d[12]*a[15]+d[13]*a[14], 
  d[8]*a[20]+d[9]*a[19]+d[10]*a[18]+d[11]*a[17]+d[12]*a[16]+d[13]*a[15]+a[14]*a[14], 
  d[9]*a[20]+d[10]*a[19]+d[11]*a[18]+d[12]*a[17]+d[13]*a[16]+d[14]*a[15], 
  d[10]*a[20]+d[11]*a[19]+d[12]*a[18]+d[13]*a[17]+d[14]*a[16]+a[15]*a[15], 
  d[11]*a[20]+d[12]*a[19]+d[13]*a[18]+d[14]*a[17]+d[15]*a[16], 
  d[12]*a[20]+d[13]*a[19]+d[14]*a[18]+d[15]*a[17]+a[16]*a[16], 
  d[13]*a[20]+d[14]*a[19]+d[15]*a[18]+d[16]*a[17], d[14]*a[20]+d[15]*a[19]+d[16]*a[18]+a[17]*a[17], 
  d[15]*a[20]+d[16]*a[19]+d[17]*a[18], d[16]*a[20]+d[17]*a[19]+a[18]*a[18], d[17]*a[20]+d[18]*a[19], 
  d[18]*a[20]+a[19]*a[19], d[19]*a[20], a[20]*a[20]>>
Carry20(c) ==
  LET v1 == c[1]
      v2 == c[2] + (v1 \div LB)
      v3 == c[3] + (v2 \div LB)
      v4 == c[4] + (v3 \div LB)
      v5 == c[5] + (v4 \div LB)
      v6 == c[6] + (v5 \div LB)
      v7 == c[7] + (v6 \div LB)
      v8 == c[8] + (v7 \div LB)
      v9 == c[9] + (v8 \div LB)
      v10 == c[10] + (v9 \div LB)
      v11 == c[11] + (v10 \div LB)
      v12 == c[12] + (v11 \div LB)
      v13 == c[13] + (v12 \div LB)
      v14 == c[14] + (v13 \div LB)
      v15 == c[15] + (v14 \div LB)
      v16 == c[16] + (v15 \div LB)
      v17 == c[17] + (v16 \div LB)
      v18 == c[18] + (v17 \div LB)
      v19 == c[19] + (v18 \div LB)
      v20 == c[20] + (v19 \div LB)
  IN <<v1 % LB, v2 % LB, v3 % LB, v4 % LB, v5 % LB, v6 % LB, v7 % LB, v8 % LB, v9 % LB, v10 % LB, 
  v11 % LB, v12 % LB, v13 % LB, v14 % LB, v15 % LB, v16 % LB, v17 % LB, v18 % LB, v19 % LB, v20 % 
  LB, v20 \div LB>>
Carry21(c) ==
  LET v1 == c[1]
      v2 == c[2] + (v1 \div LB)
      v3 == c[3] + (v2 \div LB)
      v4 == c[4] + (v3 \div LB)
      v5 == c[5] + (v4 \div LB)
      v6 == c[6] + (v5 \div LB)
      v7 == c[7] + (v6 \div LB)
      v8 == c[8] + (v7 \div LB)
      v9 == c[9] + (v8 \div LB)
      v10 == c[10] + (v9 \div LB)
      v11 == c[11] + (v10 \div LB)
      v12 == c[12] + (v11 \div LB)
      v13 == c[13] + (v12 \div LB)
      v14 == c[14] + (v13 \div LB)
      v15 == c[15] + (v14 \div LB)
      v16 == c[16] + (v15 \div LB)
      v17 == c[17] + (v16 \div LB)
      v18 == c[18] + (v17 \div LB)
      v19 == c[19] + (v18 \div LB)
      v20 == c[20] + (v19 \div LB)
      v21 == c[21] + (v20 \div LB)
  IN <<v1 % LB, v2 % LB, v3 % LB, v4 % LB, v5 % LB, v6 % LB, v7 % LB, v8 % LB, v9 % LB, v10 % LB, 
  v11 % LB, v12 % LB, v13 % LB, v14 % LB, v15 % LB, v16 % LB, v17 % LB, v18 % LB, v19 % LB, v20 % 
  LB, v21 % LB, v21 \div LB>>
Carry22(c) ==
  LET v1 == c[1]
      v2 == c[2] + (v1 \div LB)
      v3 == c[3] + (v2 \div LB)
      v4 == c[4] + (v3 \div LB)
      v5 == c[5] + (v4 \div LB)
      v6 == c[6] + (v5 \div LB)
      v7 == c[7] + (v6 \div LB)
      v8 == c[8] + (v7 \div LB)
      v9 == c[9] + (v8 \div LB)
      v10 == c[10] + (v9 \div LB)
      v11 == c[11] + (v10 \div LB)
      v12 == c[12] + (v11 \div LB)
      v13 == c[13] + (v12 \div LB)
      v14 == c[14] + (v13 \div LB)
      v15 == c[15] + (v14 \div LB)
      v16 == c[16] + (v15 \div LB)
      v17 == c[17] + (v16 \div LB)
      v18 == c[18] + (v17 \div LB)
      v19 == c[19] + (v18 \div LB)
      v20 == c[20] + (v19 \div LB)
      v21 == c[21] + (v20 \div LB)
      v22 == c[22] + (v21 \div LB)
  IN <<v1 % LB, v2 % LB, v3 % LB, v4 % LB, v5 % LB, v6 % LB, v7 % LB, v8 % LB, v9 % LB, v10 % LB, 
  v11 % LB, v12 % LB, v13 % LB, v14 % LB, v15 % LB, v16 % LB, v17 % LB, v18 % LB, v19 % LB, v20 % 
  LB, v21 % LB, v22 % LB, v22 \div LB>>
Carry30(c) ==
  LET v1 == c[1]
      v2 == c[2] + (v1 \div LB)
      v3 == c[3] + (v2 \div LB)
      v4 == c[4] + (v3 \div LB)
      v5 == c[5] + (v4 \div LB)
      v6 == c[6] + (v5 \div LB)
      v7 == c[7] + (v6 \div LB)
      v8 == c[8] + (v7 \div LB)
      v9 == c[9] + (v8 \div LB)
      v10 == c[10] + (v9 \div LB)
      v11 == c[11] + (v10 \div LB)
      v12 == c[12] + (v11 \div LB)
      v13 == c[13] + (v12 \div LB)
      v14 == c[14] + (v13 \div LB)
      v15 == c[15] + (v14 \div LB)
      v16 == c[16] + (v15 \div LB)
      v17 == c[17] + (v16 \div LB)
      v18 == c[18] + (v17 \div LB)
      v19 == c[19] + (v18 \div LB)
      v20 == c[20] + (v19 \div LB)
      v21 == c[21] + (v20 \div LB)
      v22 == c[22] + (v21 \div LB)
      v23 == c[23] + (v22 \div LB)
      v24 == c[24] + (v23 \div LB)
      v25 == c[25] + (v24 \div LB)
      v26 == c[26] + (v25 \div LB)
      v27 == c[27] + (v26 \div LB)
      v28 == c[28] + (v27 \div LB)
      v29 == c[29] + (v28 \div LB)
      v30 == c[30] + (v29 \div LB)
  IN <<v1 % LB, v2 % LB, v3 % LB, v4 % LB, v5 % LB, v6 % LB, v7 % LB, v8 % LB, v9 % LB, v10 % LB, 
  v11 % LB, v12 % LB, v13 % LB, v14 % LB, v15 % LB, v16 % LB, v17 % LB, v18 % LB, v19 % LB, v20 % 
  LB, v21 % LB, v22 % LB, v23 % LB, v24 % LB, v25 % LB, v26 % LB, v27 % LB, v28 % LB, v29 % LB, v30 
  % LB, v30 \div LB>>
Carry39(c) ==
  LET v1 == c[1]
      v2 == c[2] + (v1 \div LB)
      v3 == c[3] + (v2 \div LB)
      v4 == c[4] + (v3 \div LB)
      v5 == c[5] + (v4 \div LB)
      v6 == c[6] + (v5 \div LB)
      v7 == c[7] + (v6 \div LB)
      v8 == c[8] + (v7 \div LB)
      v9 == c[9] + (v8 \div LB)
      v10 == c[10] + (v9 \div LB)
      v11 == c[11] + (v10 \div LB)
      v12 == c[12] + (v11 \div LB)
      v13 == c[13] + (v12 \div LB)
      v14 == c[14] + (v13 \div LB)
      v15 == c[15] + (v14 \div LB)
      v16 == c[16] + (v15 \div LB)
      v17 == c[17] + (v16 \div LB)
      v18 == c[18] + (v17 \div LB)
      v19 == c[19] + (v18 \div LB)
      v20 == c[20] + (v19 \div LB)
      v21 == c[21] + (v20 \div LB)
      v22 == c[22] + (v21 \div LB)
      v23 == c[23] + (v22 \div LB)
      v24 == c[24] + (v23 \div LB)
      v25 == c[25] + (v24 \div LB)
      v26 == c[26] + (v25 \div LB)
      v27 == c[27] + (v26 \div LB)
      v28 == c[28] + (v27 \div LB)
      v29 == c[29] + (v28 \div LB)
      v30 == c[30] + (v29 \div LB)
      v31 == c[31] + (v30 \div LB)
      v32 == c[32] + (v31 \div LB)
      v33 == c[33] + (v32 \div LB)
      v34 == c[34] + (v33 \div LB)
      v35 == c[35] + (v34 \div LB)
      v36 == c[36] + (v35 \div LB)
      v37 == c[37] + (v36 \div LB)
      v38 == c[38] + (v37 \div LB)
      v39 == c[39] + (v38 \div LB)
  IN <<v1 % LB, v2 % LB, v3 % LB, v4 % LB, v5 % LB, v6 % LB, v7 % LB, v8 % LB, v9 % LB, v10 % LB, 
  v11 % LB, v12 % LB, v13 % LB, v14 % LB, v15 % LB, v16 % LB, v17 % LB, v18 % LB, v19 % LB, v20 % 
  LB, v21 % LB, v22 % LB, v23 % LB, v24 % LB, v25 % LB, v26 % LB, v27 % LB, v28 % LB, v29 % LB, v30 
  % LB, v31 % LB, v32 % LB, v33 % LB, v34 % LB, v35 % LB, v36 % LB, v37 % LB, v38 % LB, v39 % LB, 
  v39 \div LB>>
\* 2^260 mod p = 0x1000003D10: fold the limbs above the twentieth
FoldP20(x) ==
  <<x[1]+7440*x[21], x[2]+7440*x[22]+1*x[21], x[3]+7440*x[23]+1*x[22]+1024*x[21], 
  x[4]+7440*x[24]+1*x[23]+1024*x[22], x[5]+7440*x[25]+1*x[24]+1024*x[23], 
  x[6]+7440*x[26]+1*x[25]+1024*x[24], x[7]+7440*x[27]+1*x[26]+1024*x[25], 
  x[8]+7440*x[28]+1*x[27]+1024*x[26], x[9]+7440*x[29]+1*x[28]+1024*x[27], 
  x[10]+7440*x[30]+1*x[29]+1024*x[28], x[11]+7440*x[31]+1*x[30]+1024*x[29], 
  x[12]+7440*x[32]+1*x[31]+1024*x[30], x[13]+7440*x[33]+1*x[32]+1024*x[31], 
  x[14]+7440*x[34]+1*x[33]+1024*x[32], x[15]+7440*x[35]+1*x[34]+1024*x[33], 
  x[16]+7440*x[36]+1*x[35]+1024*x[34], x[17]+7440*x[37]+1*x[36]+1024*x[35], 
  x[18]+7440*x[38]+1*x[37]+1024*x[36], x[19]+7440*x[39]+1*x[38]+1024*x[37], 
  x[20]+7440*x[40]+1*x[39]+1024*x[38], 1*x[40]+1024*x[39], 1024*x[40]>>
FoldP3(x) ==
  <<x[1]+7440*x[21], x[2]+7440*x[22]+1*x[21], x[3]+7440*x[23]+1*x[22]+1024*x[21], 
  x[4]+1*x[23]+1024*x[22], x[5]+1024*x[23], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], 
  x[14], x[15], x[16], x[17], x[18], x[19], x[20]>>
FoldP1(x) ==
  <<x[1]+7440*x[21], x[2]+1*x[21], x[3]+1024*x[21], x[4], x[5], x[6], x[7], x[8], x[9], x[10], 
  x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20]>>

Carry20x(c) == SubSeq(Carry20(c), 1, 20)
\* 20 columns whose value is below 2^273 -> below 2^260
NormP(c) == Carry20x(FoldP1(Carry20(FoldP1(Carry20(c)))))
RedP(x40) == Carry20x(FoldP1(Carry20(FoldP3(Carry22(FoldP20(x40))))))
MulP(a, b) == RedP(Carry39(MulCols(a, b)))
SqrP(a) == RedP(Carry39(SqrCols(a)))
\* 2^260 mod n
FoldN20(x) ==
  <<x[1]+3056*x[21], x[2]+3056*x[22]+1247*x[21], x[3]+3056*x[23]+1247*x[22]+3263*x[21], 
  x[4]+3056*x[24]+1247*x[23]+3263*x[22]+5166*x[21], 
  x[5]+3056*x[25]+1247*x[24]+3263*x[23]+5166*x[22]+45*x[21], 
  x[6]+3056*x[26]+1247*x[25]+3263*x[24]+5166*x[23]+45*x[22]+7714*x[21], 
  x[7]+3056*x[27]+1247*x[26]+3263*x[25]+5166*x[24]+45*x[23]+7714*x[22]+3543*x[21], 
  x[8]+3056*x[28]+1247*x[27]+3263*x[26]+5166*x[25]+45*x[24]+7714*x[23]+3543*x[22]+4769*x[21], 
  x[9]+3056*x[29]+1247*x[28]+3263*x[27]+5166*x[26]+45*x[25]+7714*x[24]+3543*x[23]+4769*x[22]+4657*x[21], 
  x[10]+3056*x[30]+1247*x[29]+3263*x[28]+5166*x[27]+45*x[26]+7714*x[25]+3543*x[24]+4769*x[23]+4657*x[22]+680*x[21], 
  x[11]+3056*x[31]+1247*x[30]+3263*x[29]+5166*x[28]+45*x[27]+7714*x[26]+3543*x[25]+4769*x[24]+4657*x[23]+680*x[22]+5*x[21], 
  x[12]+3056*x[32]+1247*x[31]+3263*x[30]+5166*x[29]+45*x[28]+7714*x[27]+3543*x[26]+4769*x[25]+4657*x[24]+680*x[23]+5*x[22], 
  x[13]+3056*x[33]+1247*x[32]+3263*x[31]+5166*x[30]+45*x[29]+7714*x[28]+3543*x[27]+4769*x[26]+4657*x[25]+680*x[24]+5*x[23], 
  x[14]+3056*x[34]+1247*x[33]+3263*x[32]+5166*x[31]+45*x[30]+7714*x[29]+3543*x[28]+4769*x[27]+4657*x[26]+680*x[25]+5*x[24], 
  x[15]+3056*x[35]+1247*x[34]+3263*x[33]+5166*x[32]+45*x[31]+7714*x[30]+3543*x[29]+4769*x[28]+4657*x[27]+680*x[26]+5*x[25], 
  x[16]+3056*x[36]+1247*x[35]+3263*x[34]+5166*x[33]+45*x[32]+7714*x[31]+3543*x[30]+4769*x[29]+4657*x[28]+680*x[27]+5*x[26], 
  x[17]+3056*x[37]+1247*x[36]+3263*x[35]+5166*x[34]+45*x[33]+7714*x[32]+3543*x[31]+4769*x[30]+4657*x[29]+680*x[28]+5*x[27], 
  x[18]+3056*x[38]+1247*x[37]+3263*x[36]+5166*x[35]+45*x[34]+7714*x[33]+3543*x[32]+4769*x[31]+4657*x[30]+680*x[29]+5*x[28], 
  x[19]+3056*x[39]+1247*x[38]+3263*x[37]+5166*x[36]+45*x[35]+7714*x[34]+3543*x[33]+4769*x[32]+4657*x[31]+680*x[30]+5*x[29], 
  x[20]+3056*x[40]+1247*x[39]+3263*x[38]+5166*x[37]+45*x[36]+7714*x[35]+3543*x[34]+4769*x[33]+4657*x[32]+680*x[31]+5*x[30], 
  1247*x[40]+3263*x[39]+5166*x[38]+45*x[37]+7714*x[36]+3543*x[35]+4769*x[34]+4657*x[33]+680*x[32]+5*x[31], 
  3263*x[40]+5166*x[39]+45*x[38]+7714*x[37]+3543*x[36]+4769*x[35]+4657*x[34]+680*x[33]+5*x[32], 
  5166*x[40]+45*x[39]+7714*x[38]+3543*x[37]+4769*x[36]+4657*x[35]+680*x[34]+5*x[33], 
  45*x[40]+7714*x[39]+3543*x[38]+4769*x[37]+4657*x[36]+680*x[35]+5*x[34], 
  7714*x[40]+3543*x[39]+4769*x[38]+4657*x[37]+680*x[36]+5*x[35], 
  3543*x[40]+4769*x[39]+4657*x[38]+680*x[37]+5*x[36], 4769*x[40]+4657*x[39]+680*x[38]+5*x[37], 
  4657*x[40]+680*x[39]+5*x[38], 680*x[40]+5*x[39], 5*x[40]>>
FoldN11(x) ==
  <<x[1]+3056*x[21], x[2]+3056*x[22]+1247*x[21], x[3]+3056*x[23]+1247*x[22]+3263*x[21], 
  x[4]+3056*x[24]+1247*x[23]+3263*x[22]+5166*x[21], 
  x[5]+3056*x[25]+1247*x[24]+3263*x[23]+5166*x[22]+45*x[21], 
  x[6]+3056*x[26]+1247*x[25]+3263*x[24]+5166*x[23]+45*x[22]+7714*x[21], 
  x[7]+3056*x[27]+1247*x[26]+3263*x[25]+5166*x[24]+45*x[23]+7714*x[22]+3543*x[21], 
  x[8]+3056*x[28]+1247*x[27]+3263*x[26]+5166*x[25]+45*x[24]+7714*x[23]+3543*x[22]+4769*x[21], 
  x[9]+3056*x[29]+1247*x[28]+3263*x[27]+5166*x[26]+45*x[25]+7714*x[24]+3543*x[23]+4769*x[22]+4657*x[21], 
  x[10]+3056*x[30]+1247*x[29]+3263*x[28]+5166*x[27]+45*x[26]+7714*x[25]+3543*x[24]+4769*x[23]+4657*x[22]+680*x[21], 
  x[11]+3056*x[31]+1247*x[30]+3263*x[29]+5166*x[28]+45*x[27]+7714*x[26]+3543*x[25]+4769*x[24]+4657*x[23]+680*x[22]+5*x[21], 
  x[12]+1247*x[31]+3263*x[30]+5166*x[29]+45*x[28]+7714*x[27]+3543*x[26]+4769*x[25]+4657*x[24]+680*x[23]+5*x[22], 
  x[13]+3263*x[31]+5166*x[30]+45*x[29]+7714*x[28]+3543*x[27]+4769*x[26]+4657*x[25]+680*x[24]+5*x[23], 
  x[14]+5166*x[31]+45*x[30]+7714*x[29]+3543*x[28]+4769*x[27]+4657*x[26]+680*x[25]+5*x[24], 
  x[15]+45*x[31]+7714*x[30]+3543*x[29]+4769*x[28]+4657*x[27]+680*x[26]+5*x[25], 
  x[16]+7714*x[31]+3543*x[30]+4769*x[29]+4657*x[28]+680*x[27]+5*x[26], 
  x[17]+3543*x[31]+4769*x[30]+4657*x[29]+680*x[28]+5*x[27], 
  x[18]+4769*x[31]+4657*x[30]+680*x[29]+5*x[28], x[19]+4657*x[31]+680*x[30]+5*x[29], 
  x[20]+680*x[31]+5*x[30], 5*x[31]>>
FoldN2(x) ==
  <<x[1]+3056*x[21], x[2]+3056*x[22]+1247*x[21], x[3]+1247*x[22]+3263*x[21], 
  x[4]+3263*x[22]+5166*x[21], x[5]+5166*x[22]+45*x[21], x[6]+45*x[22]+7714*x[21], 
  x[7]+7714*x[22]+3543*x[21], x[8]+3543*x[22]+4769*x[21], x[9]+4769*x[22]+4657*x[21], 
  x[10]+4657*x[22]+680*x[21], x[11]+680*x[22]+5*x[21], x[12]+5*x[22], x[13], x[14], x[15], x[16], 
  x[17], x[18], x[19], x[20]>>
FoldN1(x) ==
  <<x[1]+3056*x[21], x[2]+1247*x[21], x[3]+3263*x[21], x[4]+5166*x[21], x[5]+45*x[21], 
  x[6]+7714*x[21], x[7]+3543*x[21], x[8]+4769*x[21], x[9]+4657*x[21], x[10]+680*x[21], 
  x[11]+5*x[21], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20]>>

NormN(c) == Carry20x(FoldN1(Carry20(FoldN1(Carry20(c)))))
RedN(x40) == Carry20x(FoldN1(Carry20(FoldN2(Carry21(FoldN11(Carry30(FoldN20(x40))))))))
MulN(a, b) == RedN(Carry39(MulCols(a, b)))
SqrN(a) == RedN(Carry39(SqrCols(a)))
AddCols(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5], a[6]+b[6], a[7]+b[7], a[8]+b[8], a[9]+b[9], a[10]+b[10], a[11]+b[11], a[12]+b[12], a[13]+b[13], a[14]+b[14], a[15]+b[15], a[16]+b[16], a[17]+b[17], a[18]+b[18], a[19]+b[19], a[20]+b[20]>>
ScaleCols(k, a) == <<k*a[1], k*a[2], k*a[3], k*a[4], k*a[5], k*a[6], k*a[7], k*a[8], k*a[9], k*a[10], k*a[11], k*a[12], k*a[13], k*a[14], k*a[15], k*a[16], k*a[17], k*a[18], k*a[19], k*a[20]>>
\* a - b + 17p, a - b + 17n: 17p and 17n exceed 2^260
SubColsP(a, b) == <<a[1]-b[1]+7967, a[2]-b[2]+8189, a[3]-b[3]+7103, a[4]-b[4]+8191, a[5]-b[5]+8191, a[6]-b[6]+8191, a[7]-b[7]+8191, a[8]-b[8]+8191, a[9]-b[9]+8191, a[10]-b[10]+8191, a[11]-b[11]+8191, a[12]-b[12]+8191, a[13]-b[13]+8191, a[14]-b[14]+8191, a[15]-b[15]+8191, a[16]-b[16]+8191, a[17]-b[17]+8191, a[18]-b[18]+8191, a[19]-b[19]+8191, a[20]-b[20]+8703>>
SubColsN(a, b) == <<a[1]-b[1]+5457, a[2]-b[2]+7378, a[3]-b[3]+5748, a[4]-b[4]+4238, a[5]-b[5]+7119, a[6]-b[6]+4603, a[7]-b[7]+3914, a[8]-b[8]+2612, a[9]-b[9]+7339, a[10]-b[10]+4908, a[11]-b[11]+8186, a[12]-b[12]+8191, a[13]-b[13]+8191, a[14]-b[14]+8191, a[15]-b[15]+8191, a[16]-b[16]+8191, a[17]-b[17]+8191, a[18]-b[18]+8191, a[19]-b[19]+8191, a[20]-b[20]+8703>>
AddP(a, b) == NormP(AddCols(a, b))
SubP(a, b) == NormP(SubColsP(a, b))
ScaleP(k, a) == NormP(ScaleCols(k, a))      \* small k
AddN(a, b) == NormN(AddCols(a, b))
SubN(a, b) == NormN(SubColsN(a, b))

Less(a, b) ==                                \* as numbers, normalised limbs
  FoldLeft(LAMBDA acc, i: IF a[i] = b[i] THEN acc ELSE a[i] < b[i], FALSE,
           <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20>>)
RawSub(a, b) == Carry20x(<<a[1]-b[1], a[2]-b[2], a[3]-b[3], a[4]-b[4], a[5]-b[5], a[6]-b[6], a[7]-b[7], a[8]-b[8], a[9]-b[9], a[10]-b[10], a[11]-b[11], a[12]-b[12], a[13]-b[13], a[14]-b[14], a[15]-b[15], a[16]-b[16], a[17]-b[17], a[18]-b[18], a[19]-b[19], a[20]-b[20]>>)   \* a >= b
TopP == <<977, 0, 64, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>   \* 2^256 - p
TopN == <<7871, 7757, 7371, 6978, 1026, 4066, 733, 810, 4387, 2602, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

\* the bits from 2^256 up are limb 20 div 512
Low256(a) == [a EXCEPT ![20] = @ % 512]
FoldTop(a, t) == LET h == a[20] \div 512 IN
  IF h = 0 THEN a ELSE Carry20x(AddCols(Low256(a), ScaleCols(h, t)))
Canon(a, m, t) == LET x == FoldTop(FoldTop(a, t), t) IN IF Less(x, m) THEN x ELSE RawSub(x, m)
CanonP(a) == Canon(a, PrimeP, TopP)
CanonN(a) == Canon(a, OrderN, TopN)
EqP(a, b) == CanonP(a) = CanonP(b)
EqN(a, b) == CanonN(a) = CanonN(b)
IsZeroP(a) == CanonP(a) = Zero

\* a^e for an exponent given as 4-bit digits, most significant first
PowTable(a, M(_,_)) ==
  FoldLeft(LAMBDA t, i: Append(t, M(t[Len(t)], a)), <<One, a>>, <<1,2,3,4,5,6,7,8,9,10,11,12,13,14>>)
Pow(a, digits, M(_,_), S(_)) ==
  LET T == PowTable(a, M)
  IN FoldLeft(LAMBDA r, d: LET q == S(S(S(S(r)))) IN IF d = 0 THEN q ELSE M(q, T[d+1]),
              T[digits[1]+1], Tail(digits))
InvExpP == <<15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 14, 15, 15, 15, 15, 15, 12, 2, 13>>
InvExpN == <<15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 14, 11, 10, 10, 14, 13, 12, 14, 6, 10, 15, 4, 8, 10, 0, 3, 11, 11, 15, 13, 2, 5, 14, 8, 12, 13, 0, 3, 6, 4, 1, 3, 15>>
SqrtExpP == <<3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 11, 15, 15, 15, 15, 15, 0, 12>>
InvP(a) == Pow(a, InvExpP, MulP, SqrP)
InvN(a) == Pow(a, InvExpN, MulN, SqrN)
SqrtP(a) == Pow(a, SqrtExpP, MulP, SqrP)     \* a square root of a, if there is one
=============================================================================
