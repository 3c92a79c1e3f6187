/* Chaining values after absorbing a number of zero bytes, for the four hash
 * machines: written from FIPS 180-4 / the RIPEMD-160 paper with the constants
 * of spec/HashConst.tla recomputed from the primes.  Output: TLA+ sequences.
 * Usage: midstate <log2 of the number of zero bytes> */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned __int128 u128;
static uint64_t primes[80];
static uint64_t K5[80], H5[8];
static uint32_t K2[64], H2[8];
/* floor(frac(p^(1/r)) * 2^64) by integer bisection */
static uint64_t froot(uint64_t p, int r) {
  /* find largest x (fixed point 2^64) with x^r <= p: integer part by search */
  uint64_t ip = 0;
  while ((r == 2 ? (ip + 1) * (ip + 1) : (ip + 1) * (ip + 1) * (ip + 1)) <= p) ip++;
  /* bits one by one with long arithmetic on 32-bit limbs */
  uint64_t f = 0;
  for (int b = 63; b >= 0; b--) {
    uint64_t t = f | (1ull << b);
    /* x = ip*2^64 + t ; compare x^r with p << (64 r) */
    uint32_t x[3] = {(uint32_t)t, (uint32_t)(t >> 32), (uint32_t)ip};
    uint32_t y[9] = {1};
    for (int k = 0; k < r; k++) {
      uint32_t z[9] = {0};
      for (int i = 0; i < 9; i++) {
        uint64_t c = 0;
        for (int j = 0; j < 3 && i + j < 9; j++) {
          c += (uint64_t)y[i] * x[j] + z[i + j];
          z[i + j] = (uint32_t)c;
          c >>= 32;
        }
        for (int j = i + 3; c && j < 9; j++) { c += z[j]; z[j] = (uint32_t)c; c >>= 32; }
      }
      memcpy(y, z, sizeof y);
    }
    uint32_t q[9] = {0};
    q[2 * r] = (uint32_t)p;
    int gt = 0;
    for (int i = 8; i >= 0; i--) if (y[i] != q[i]) { gt = y[i] > q[i]; break; }
    if (!gt) f = t;
  }
  return f;
}
#define R(x, n) ((x >> n) | (x << (32 - n)))
#define R6(x, n) ((x >> n) | (x << (64 - n)))
int main(int c, char **v) {
  int lg = atoi(v[1]);
  (void)c;
  for (uint64_t n = 2, k = 0; k < 80; n++) {
    int ok = 1;
    for (uint64_t d = 2; d * d <= n; d++) if (n % d == 0) ok = 0;
    if (ok) primes[k++] = n;
  }
  for (int i = 0; i < 80; i++) K5[i] = froot(primes[i], 3);
  for (int i = 0; i < 8; i++) H5[i] = froot(primes[i], 2);
  for (int i = 0; i < 64; i++) K2[i] = (uint32_t)(K5[i] >> 32);
  for (int i = 0; i < 8; i++) H2[i] = (uint32_t)(H5[i] >> 32);
  uint64_t nb = 1ull << (lg - 6);
  /* the message schedule of a zero block is zero */
  uint32_t h[8];
  memcpy(h, H2, sizeof h);
  for (uint64_t b = 0; b < nb; b++) {
    uint32_t s[8];
    memcpy(s, h, sizeof s);
    for (int t = 0; t < 64; t++) {
      uint32_t t1 = s[7] + (R(s[4], 6) ^ R(s[4], 11) ^ R(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K2[t];
      uint32_t t2 = (R(s[0], 2) ^ R(s[0], 13) ^ R(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      memmove(s + 1, s, 28);
      s[4] += t1;
      s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  printf("Mid256_%d == <<", lg);
  for (int i = 0; i < 8; i++) printf("%s<<%u,%u>>", i ? "," : "", h[i] >> 16, h[i] & 65535);
  printf(">>\n");
  uint64_t g[8];
  memcpy(g, H5, sizeof g);
  for (uint64_t b = 0; b < nb / 2; b++) {
    uint64_t s[8];
    memcpy(s, g, sizeof s);
    for (int t = 0; t < 80; t++) {
      uint64_t t1 = s[7] + (R6(s[4], 14) ^ R6(s[4], 18) ^ R6(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K5[t];
      uint64_t t2 = (R6(s[0], 28) ^ R6(s[0], 34) ^ R6(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      memmove(s + 1, s, 56);
      s[4] += t1;
      s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) g[i] += s[i];
  }
  printf("Mid512_%d == <<", lg);
  for (int i = 0; i < 8; i++)
    printf("%s<<%u,%u,%u,%u>>", i ? "," : "", (unsigned)(g[i] >> 48), (unsigned)(g[i] >> 32) & 65535,
           (unsigned)(g[i] >> 16) & 65535, (unsigned)g[i] & 65535);
  printf(">>\n");
  static const uint32_t I[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  static const uint32_t C[4] = {0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6};
  uint32_t a[5];
  memcpy(a, I, sizeof a);
  for (uint64_t b = 0; b < nb; b++) {
    uint32_t s[5];
    memcpy(s, a, sizeof s);
    for (int t = 0; t < 80; t++) {
      int q = t / 20;
      uint32_t f = q == 0 ? (s[1] & s[2]) | (~s[1] & s[3]) : q == 2 ? (s[1] & s[2]) | (s[1] & s[3]) | (s[2] & s[3]) : s[1] ^ s[2] ^ s[3];
      uint32_t x = R(s[0], 27) + f + s[4] + C[q];
      s[4] = s[3]; s[3] = s[2]; s[2] = R(s[1], 2); s[1] = s[0]; s[0] = x;
    }
    for (int i = 0; i < 5; i++) a[i] += s[i];
  }
  printf("Mid1_%d == <<", lg);
  for (int i = 0; i < 5; i++) printf("%s<<%u,%u>>", i ? "," : "", a[i] >> 16, a[i] & 65535);
  printf(">>\n");
  static const uint8_t L[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
    11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static const uint8_t Q[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
    9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static const uint32_t KL[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
  static const uint32_t KR[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
#define F(j, x, y, z) (j == 0 ? x ^ y ^ z : j == 1 ? (x & y) | (~x & z) : j == 2 ? (x | ~y) ^ z : j == 3 ? (x & z) | (y & ~z) : x ^ (y | ~z))
  uint32_t m[5];
  memcpy(m, I, sizeof m);
  for (uint64_t b = 0; b < nb; b++) {
    uint32_t s[5], r[5];
    memcpy(s, m, sizeof s);
    memcpy(r, m, sizeof r);
    for (int t = 0; t < 80; t++) {
      int j = t / 16, k = 4 - j;
      uint32_t x = s[0] + F(j, s[1], s[2], s[3]) + KL[j];
      x = R(x, (32 - L[t])) + s[4];
      s[0] = s[4]; s[4] = s[3]; s[3] = R(s[2], 22); s[2] = s[1]; s[1] = x;
      x = r[0] + F(k, r[1], r[2], r[3]) + KR[j];
      x = R(x, (32 - Q[t])) + r[4];
      r[0] = r[4]; r[4] = r[3]; r[3] = R(r[2], 22); r[2] = r[1]; r[1] = x;
    }
    uint32_t x = m[1] + s[2] + r[3];
    m[1] = m[2] + s[3] + r[4];
    m[2] = m[3] + s[4] + r[0];
    m[3] = m[4] + s[0] + r[1];
    m[4] = m[0] + s[1] + r[2];
    m[0] = x;
  }
  printf("MidRMD_%d == <<", lg);
  for (int i = 0; i < 5; i++) printf("%s<<%u,%u>>", i ? "," : "", m[i] >> 16, m[i] & 65535);
  printf(">>\n");
  return 0;
}
