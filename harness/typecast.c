/* Type casts of single values. */
//@property T03
//@sources src/dlite-type-cast.c src/dlite-type.c
//@stubs err misc ent
//@entry h_num#1 unwind=66 objbits=14 fs=64 checks=shift LO=0 HI=43
//@entry h_num#2 unwind=66 objbits=14 fs=64 checks=shift LO=44 HI=87
//@entry h_num#3 unwind=66 objbits=14 fs=64 checks=shift LO=88 HI=120
//@entry h_blob unwind=10 objbits=10 fs=64
//@entry h_str unwind=8 objbits=10 SL=3 /thorough SL=4 unwind=10
//@entry h_print unwind=24 objbits=10 fs=64
//@bound numbers: every pair of boolean, integer (8 to 64 bits, signed or not) and floating point type (32 or 64 bits), every value whose conversion is defined by C; blobs of 1 to 4 bytes; texts of 1 to SL characters cast to integers and booleans; booleans cast to strings
#include "vh.h"
#include "dlite.h"
#include "dlite-type.h"
#define TYPES(X) X(0,bool,dliteBool) X(1,uint8_t,dliteUInt) X(2,uint16_t,dliteUInt) X(3,uint32_t,dliteUInt) X(4,uint64_t,dliteUInt) \
  X(5,int8_t,dliteInt) X(6,int16_t,dliteInt) X(7,int32_t,dliteInt) X(8,int64_t,dliteInt) X(9,float,dliteFloat) X(10,double,dliteFloat)
#define TYPES2(X,a,b,c) X(a,b,c,0,bool,dliteBool) X(a,b,c,1,uint8_t,dliteUInt) X(a,b,c,2,uint16_t,dliteUInt) X(a,b,c,3,uint32_t,dliteUInt) X(a,b,c,4,uint64_t,dliteUInt) \
  X(a,b,c,5,int8_t,dliteInt) X(a,b,c,6,int16_t,dliteInt) X(a,b,c,7,int32_t,dliteInt) X(a,b,c,8,int64_t,dliteInt) X(a,b,c,9,float,dliteFloat) X(a,b,c,10,double,dliteFloat)
#define ISF(k) ((k) >= 9)
#define ISU(k) ((k) >= 1 && (k) <= 4)
#define ISI(k) ((k) >= 1 && (k) <= 8)
static const int bits[] = {1,8,16,32,64,8,16,32,64,32,64};
/* does integer v (given with its sign as 128 bit integer) fit into integer type k? */
static int fits(__int128 v, int k)
{
  if (ISU(k)) return v >= 0 && v < ((__int128)1 << bits[k]);
  return v >= -((__int128)1 << (bits[k]-1)) && v < ((__int128)1 << (bits[k]-1));
}
static int ffits(double v, int k)
{
  double lim = 1.0;
  int i;
  for (i=0; i < bits[k] - !ISU(k); i++) lim *= 2.0;
  return ISU(k) ? (v > -1.0 && v < lim) : (v > -lim && v < lim);
}
#ifndef LO
#define LO 0
#define HI 120
#endif
#define GUARD 0x5a
#define BODY(a,S,st,b,D,dt)                                             \
  if (a*11 + b >= LO && a*11 + b <= HI && k == a*11 + b) {                                               \
    struct { unsigned char g0[8]; D v; unsigned char g1[8]; } d;        \
    S v, v0;                                                            \
    uint64_t raw = nd_u64();                                            \
    if (a == 0) { raw &= 1; }                                           \
    memcpy(&v, &raw, sizeof v); v0 = v;                                 \
    if (ISF(a)) ASSUME(v == v);                                         \
    if (ISF(a) && ISI(b)) ASSUME(ffits((double)v, b));                  \
    memset(&d, GUARD, sizeof d);                                        \
    int r = dlite_type_copy_cast(&d.v, dt, sizeof(D), &v, st, sizeof(S)); \
    CHECK(v == v0, "source is not changed");                            \
    CHECK(d.g0[7] == GUARD && ((unsigned char *)(&d.v + 1))[0] == GUARD, "nothing next to the destination is changed"); \
    if (b != 0 && ISU(b) && !ISU(a) && a != 0 && v < 0) {               \
      CHECK(r != 0, "a negative number does not become unsigned");      \
    } else {                                                            \
      CHECK(r == 0, "numbers can be cast to each other");               \
      if (b == 0) CHECK(d.v == (v != 0), "a number is true if it is not zero"); \
      else if (ISF(a) || ISF(b)) CHECK(d.v == (D)v, "value is converted as in C"); \
      else if (fits((__int128)v, b)) CHECK((__int128)d.v == (__int128)v, "a value that fits is preserved"); \
    }                                                                   \
    goto done;                                                             \
  }
#define ROW(a,S,st) TYPES2(BODY,a,S,st)
void h_num(void)
{
  int k = nd_range(LO, HI);
  ROW(0,bool,dliteBool) ROW(1,uint8_t,dliteUInt) ROW(2,uint16_t,dliteUInt) ROW(3,uint32_t,dliteUInt) ROW(4,uint64_t,dliteUInt)
  ROW(5,int8_t,dliteInt) ROW(6,int16_t,dliteInt) ROW(7,int32_t,dliteInt) ROW(8,int64_t,dliteInt) ROW(9,float,dliteFloat) ROW(10,double,dliteFloat)
 done:
  REACH("done");
}
void h_blob(void)
{
  int n = nd_range(1, 4), m = nd_range(1, 4), i, j, k;
  unsigned char s[4], d[6];
  nd_bytes(s, 4);
  for (i=1; i<=4; i++) for (j=1; j<=4; j++) {
    if (n != i || m != j) continue;
    memset(d, GUARD, 6);
    CHECK(dlite_type_copy_cast(d + 1, dliteBlob, j, s, dliteBlob, i) == 0, "blobs can be cast");
    CHECK(d[0] == GUARD && d[j+1] == GUARD, "nothing next to the destination is changed");
    for (k=0; k<j; k++) CHECK(d[k+1] == (k < i ? s[k] : 0), "bytes are copied and the rest is zero");
    /* a string of length i-1 */
    char str[5], *p = str;
    for (k=0; k<i; k++) { str[k] = (char)s[k]; if (k < i-1) ASSUME(str[k]); }
    str[i-1] = 0;
    memset(d, GUARD, 6);
    CHECK(dlite_type_copy_cast(d + 1, dliteBlob, j, &p, dliteStringPtr, 8) == 0, "a string can be cast to blob");
    CHECK(d[0] == GUARD && d[j+1] == GUARD, "nothing next to the destination is changed");
    for (k=0; k<j; k++) CHECK(d[k+1] == (k < i ? (unsigned char)str[k] : 0), "characters are copied and the rest is zero");
    bool b = 0;
    int any = 0;
    for (k=0; k<i; k++) any |= s[k];
    memcpy(str, s, 4);
    CHECK(dlite_type_copy_cast(&b, dliteBool, 1, s, dliteBlob, i) == 0, "a blob can be cast to bool");
    CHECK(b == (any != 0), "a blob is true if any byte is set");
    for (k=0; k<4; k++) CHECK(s[k] == (unsigned char)str[k], "source is not changed");
    REACH("done");
    return;
  }
}
#ifndef SL
#define SL 3
#endif
void h_str(void)
{
  char s[SL+1], *p = s;
  int n = nd_str(s, SL), i = 0, neg = 0, ok, nd = 0, base = 10;
  long long v = 0;
  int32_t di = -77;
  uint32_t du = 77;
  bool b = nd_range(0, 1);
  ASSUME(n > 0);
  while (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')) i++;
  if (s[i] == '-') { neg = 1; i++; } else if (s[i] == '+') i++;
  if (s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X')) { base = 16; i += 2; }
  else if (s[i] == '0') base = 8;
  for (; s[i]; i++, nd++) {
    int c = s[i], g = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99;
    if (g >= base) break;
    v = v*base + g;
  }
  ok = (s[i] == 0 && nd > 0);
  int r = dlite_type_copy_cast(&di, dliteInt, 4, &p, dliteStringPtr, 8);
  CHECK((r == 0) == ok, "exactly integers can be cast to integer");
  if (ok) { REACH("int"); CHECK(di == (neg ? -v : v), "integer value"); }
  r = dlite_type_copy_cast(&du, dliteUInt, 4, s, dliteFixString, SL+1);
  CHECK((r == 0) == (ok && (!neg || v == 0)), "exactly non-negative integers can be cast to unsigned");
  if (r == 0) { REACH("uint"); CHECK(du == v, "unsigned value"); }
  CHECK(dlite_type_copy_cast(&b, dliteBool, 1, &p, dliteStringPtr, 8) == 0 && b, "non-empty string is true");
  p = NULL;
  CHECK(dlite_type_copy_cast(&b, dliteBool, 1, &p, dliteStringPtr, 8) == 0 && !b, "absent string is false");
  CHECK(dlite_type_copy_cast(&di, dliteInt, 4, &p, dliteStringPtr, 8) != 0, "absent string is no integer");
  CHECK(dlite_type_copy_cast(&du, dliteUInt, 4, &p, dliteStringPtr, 8) != 0, "absent string is no unsigned integer");
}
void h_print(void)
{
  bool b = nd_range(0, 1);
  char f[8], *s = NULL;
  int v;
  for (v=0; v<2; v++) {
    if (b != v) continue;
    b = v;
    memset(f, GUARD, 8);
    CHECK(dlite_type_copy_cast(f + 1, dliteFixString, 6, &b, dliteBool, 1) == 0 && !strcmp(f + 1, v ? "true" : "false"), "bool to fixed string");
    CHECK(f[0] == GUARD && f[7] == GUARD, "nothing next to the destination is changed");
    CHECK(dlite_type_copy_cast(&s, dliteStringPtr, 8, &b, dliteBool, 1) == 0 && !strcmp(s, v ? "true" : "false"), "bool to string");
    free(s);
    REACH("done");
    return;
  }
}
