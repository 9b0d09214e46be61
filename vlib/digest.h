/* specification of message digests, and the cases of harness/sha3.c and harness/digest.c */
#include "vh.h"
#include "utils/sha3.h"
#include "utils/sha1.h"
#include "utils/md5.h"
#ifndef MSG
#define MSG 160
#endif
#ifndef DEEP
#define DEEP 0
#endif
#ifndef REALPERM
#define REALPERM 0
#endif
#ifndef VH_CBMC
#undef REALPERM
#define REALPERM 1
#endif
typedef uint64_t u64; typedef uint32_t u32; typedef unsigned char u8;
#define R64(x, n) ((n) ? ((x) << (n)) | ((x) >> (64-(n))) : (x))
#define R32(x, n) (((x) << (n)) | ((x) >> (32-(n))))
static u8 msg[MSG];
/* stand-ins */
void vh_perm3(u64 s[25]) { u64 t[25]; int i; for (i=0; i<25; i++) t[i] = s[i]; for (i=0; i<25; i++) s[i] = R64(t[(i*7+3) % 25], i) ^ (0x9e3779b97f4a7c15ull*(i+1)); }
void vh_perm1(u32 s[5], const u8 b[64]) { int i; for (i=0; i<5; i++) s[i] = R32(s[i], 3) ^ (u32)(i+1); for (i=0; i<64; i++) s[i%5] ^= R32((u32)b[i], (i*5) % 31 + 1); }
static void std5(u32 s[4], const u8 *b) { int i; for (i=0; i<4; i++) s[i] = R32(s[i], 3) ^ (u32)(i+1); for (i=0; i<64; i++) s[i%4] ^= R32((u32)b[i], (i*5) % 31 + 1); }
const void *vh_perm5(MD5_CTX *c, const void *data, unsigned long size)
{
  const u8 *p = data; u32 s[4]; s[0] = c->a; s[1] = c->b; s[2] = c->c; s[3] = c->d;
  do { std5(s, p); p += 64; } while (size -= 64);
  c->a = s[0]; c->b = s[1]; c->c = s[2]; c->d = s[3];
  return p;
}
/* specification: FIPS 202, FIPS 180-4 and RFC 1321 */
static void keccak(u64 a[25])
{
  int r, x, y, t, j, m; u8 lfsr = 1; u64 b[25], c[5], d[5], v, w; static const int pw[7] = {0, 1, 3, 7, 15, 31, 63};
  for (r=0; r<24; r++) {
    for (x=0; x<5; x++) c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20];
    for (x=0; x<5; x++) d[x] = c[(x+4) % 5] ^ R64(c[(x+1) % 5], 1);
    for (x=0; x<25; x++) a[x] ^= d[x % 5];
    x = 1; y = 0; v = a[1];
    for (t=0; t<24; t++) { m = (t+1)*(t+2)/2 % 64; j = y; y = (2*x + 3*y) % 5; x = j; w = a[x+5*y]; a[x+5*y] = R64(v, m); v = w; }
    for (x=0; x<25; x++) b[x] = a[x];
    for (y=0; y<25; y+=5) for (x=0; x<5; x++) a[y+x] = b[y+x] ^ (~b[y + (x+1) % 5] & b[y + (x+2) % 5]);
    for (j=0; j<7; j++) { if (lfsr & 1) a[0] ^= (u64)1 << pw[j]; lfsr = (u8)((lfsr << 1) ^ ((lfsr >> 7) * 0x71)); }
  }
}
static void comp1(u32 s[5], const u8 *p)
{
  u32 w[80], a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f, k, t; int i;
  for (i=0; i<16; i++) w[i] = (u32)p[4*i] << 24 | (u32)p[4*i+1] << 16 | (u32)p[4*i+2] << 8 | p[4*i+3];
  for (; i<80; i++) { t = w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16]; w[i] = R32(t, 1); }
  for (i=0; i<80; i++) {
    if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
    else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; } else { f = b ^ c ^ d; k = 0xca62c1d6; }
    t = R32(a, 5) + f + e + k + w[i]; e = d; d = c; c = R32(b, 30); b = a; a = t;
  }
  s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
}
static void comp5(u32 s[4], const u8 *p)
{
  static const u32 K[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  static const int S[16] = {7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21};
  u32 w[16], a = s[0], b = s[1], c = s[2], d = s[3], f, t; int i, g;
  for (i=0; i<16; i++) w[i] = (u32)p[4*i+3] << 24 | (u32)p[4*i+2] << 16 | (u32)p[4*i+1] << 8 | p[4*i];
  for (i=0; i<64; i++) {
    if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5*i+1) % 16; }
    else if (i < 48) { f = b ^ c ^ d; g = (3*i+5) % 16; } else { f = c ^ (b | ~d); g = 7*i % 16; }
    t = a + f + K[i] + w[g]; a = d; d = c; c = b; b += R32(t, S[4*(i/16) + i%4]);
  }
  s[0] += a; s[1] += b; s[2] += c; s[3] += d;
}
static void ref3(int bits, int n, u8 *out)
{
  u64 s[25]; u8 b[200]; int rate = 200 - bits/4, i, k, nb = n/rate + 1;
  for (i=0; i<25; i++) s[i] = 0;
  for (k=0; k<nb; k++) {
    for (i=0; i<rate; i++) b[i] = k*rate+i < n ? msg[k*rate+i] : 0;
    if (k == nb-1) { b[n - k*rate] ^= 0x06; b[rate-1] ^= 0x80; }
    for (i=0; i<rate; i++) s[i/8] ^= (u64)b[i] << 8*(i % 8);
    if (REALPERM) keccak(s); else vh_perm3(s);
  }
  for (i=0; i<bits/8; i++) out[i] = (u8)(s[i/8] >> 8*(i % 8));
}
/* Merkle-Damgaard padding */
static int pad(int n, int k, u8 *b, int big)
{
  int i, nb = (n+8)/64 + 1;
  for (i=0; i<64; i++) b[i] = 64*k+i < n ? msg[64*k+i] : 64*k+i == n ? 0x80 : 0;
  if (k == nb-1) for (i=0; i<8; i++) b[56 + (big ? 7-i : i)] = (u8)((u64)n*8 >> 8*i);
  return k < nb;
}
static void ref1(int n, u8 *out)
{
  u32 s[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; u8 b[64]; int i, k;
  for (k=0; pad(n, k, b, 1); k++) { if (REALPERM) comp1(s, b); else vh_perm1(s, b); }
  for (i=0; i<20; i++) out[i] = (u8)(s[i/4] >> 8*(3 - i%4));
}
static void ref5(int n, u8 *out)
{
  u32 s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; u8 b[64]; int i, k;
  for (k=0; pad(n, k, b, 0); k++) { if (REALPERM) comp5(s, b); else std5(s, b); }
  for (i=0; i<16; i++) out[i] = (u8)(s[i/4] >> 8*(i%4));
}
/* pieces: base bytes, then x, then y */
static const int X[] = {0, 1, 7, 8, 16};
#define NX (alg == 3 ? 4 : 5)
static void any(int n) { int i; for (i=0; i<n; i++) msg[i] = nd_u8(); }
static void run(int alg, int bits, int base, int x, int y)
{
  static u8 d[72], r[72]; sha3_context c3; SHA1_CTX c1; MD5_CTX c5; const u8 *p; int n = base+x+y, i, len = alg == 3 ? bits/8 : alg == 1 ? 20 : 16;
  any(n);
  if (alg == 3) { CHECK(sha3_Init(&c3, bits) == SHA3_RETURN_OK, "init"); sha3_Update(&c3, msg, base); sha3_Update(&c3, msg+base, x); sha3_Update(&c3, msg+base+x, y); p = sha3_Finalize(&c3); for (i=0; i<len; i++) d[i] = p[i]; ref3(bits, n, r); }
  else if (alg == 1) { SHA1Init(&c1); SHA1Update(&c1, msg, base); SHA1Update(&c1, msg+base, x); SHA1Update(&c1, msg+base+x, y); SHA1Final(d, &c1); ref1(n, r); }
  else { MD5Init(&c5); MD5Update(&c5, msg, base); MD5Update(&c5, msg+base, x); MD5Update(&c5, msg+base+x, y); MD5Final(d, &c5); ref5(n, r); }
  for (i=0; i<len; i++) CHECK(d[i] == r[i], "the digest is that of the whole message");
}
static void cases(int alg, int bits, const int *base, int nb)
{
  int b = nd_range(0, nb-1), x = nd_range(0, DEEP ? 17 : NX-1), y = nd_range(0, DEEP ? 17 : NX-1), i, j, k;
  for (i=0; i<nb; i++) for (j=0; j<(DEEP ? 18 : NX); j++) for (k=0; k<(DEEP ? 18 : NX); k++)
    if (i == b && j == x && k == y) { run(alg, bits, base[i], DEEP ? j : X[j], DEEP ? k : X[k]); REACH("digest"); return; }
}
/* pieces that fill more than one block or end at a block boundary */
static void longs(int alg, int bits, const int (*l)[3], int n)
{ int q = nd_range(0, n-1), i; for (i=0; i<n; i++) if (i == q) { run(alg, bits, l[i][0], l[i][1], l[i][2]); REACH("digest"); return; } }
/* the function applied to each block */
static void one(int alg) { int i; static u8 d[72], r[72]; sha3_context c3; SHA1_CTX c1; MD5_CTX c5; const u8 *p;
  for (i=0; i<3; i++) msg[i] = (u8)(i+65);
  msg[1] = nd_u8();
  if (alg == 3) { sha3_Init(&c3, 256); sha3_Update(&c3, msg, 3); p = sha3_Finalize(&c3); for (i=0; i<32; i++) d[i] = p[i]; ref3(256, 3, r); }
  else if (alg == 1) { SHA1Init(&c1); SHA1Update(&c1, msg, 3); SHA1Final(d, &c1); ref1(3, r); }
  else { MD5Init(&c5); MD5Update(&c5, msg, 3); MD5Final(d, &c5); ref5(3, r); }
  for (i=0; i<32; i++) CHECK(d[i] == r[i], "digest as specified"); REACH("digest"); }
