/* Hex encoding/decoding. */
//@property S03
//@sources src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_roundtrip unwind=10 N=3 /thorough unwind=20 N=8
//@entry h_decode unwind=12 N=6 /thorough unwind=20 N=10
//@bound at most N bytes of data or hex digits
#include "vh.h"
#include "strutils.h"
#ifndef N
#define N 4
#endif
void h_roundtrip(void)
{
  unsigned char d[N], r[N+1];
  char hb[2*N+3], *hex;
  int n = nd_range(0, N), hs = nd_range(0, 2*N+2), m, k, i, w;
  nd_bytes(d, N);
  hex = hb + (2*N + 2 - hs); hb[2*N+2] = 'G';
  m = strhex_encode(hex, hs, d, n);
  CHECK(m == 2*n, "returned length");
  CHECK(hb[2*N+2] == 'G', "inside the buffer");
  if (hs > 0) CHECK((w = strnlen(hex, hs)) < hs, "terminated");
  if (hs > m) {
    REACH("complete");
    CHECK((int)strlen(hex) == m, "full length");
    for (i=0; i<m; i++) CHECK((hex[i] >= '0' && hex[i] <= '9') || (hex[i] >= 'a' && hex[i] <= 'f'), "hex digits");
    r[n] = 77;
    k = strhex_decode(r, n, hex, nd_range(0, 1) ? -1 : m);
    CHECK(k == n, "decoded length");
    for (i=0; i<n; i++) CHECK(r[i] == d[i], "decoded data");
    CHECK(r[n] == 77, "nothing behind the data");
  } else REACH("truncated");
}
static int hv(char c)
{ return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
void h_decode(void)
{
  char sb[N+1], *s = nd_endstr(sb, N);
  unsigned char db[N+1], *d;
  int n = strlen(s), size = nd_range(0, N), k, i, ok;
  d = db + (N - size); db[N] = 77;
  k = strhex_decode(d, size, s, -1);
  ok = n % 2 == 0;
  for (i=0; i<n && i < 2*size; i++) if (hv(s[i]) < 0) ok = 0;
  CHECK(db[N] == 77, "inside the buffer");
  CHECK(k == (ok ? n/2 : -1), "returned length, -1 for anything else than pairs of hex digits");
  if (ok) { if (n > 3) REACH("ok"); for (i=0; i<n/2 && i<size; i++) CHECK(d[i] == 16*hv(s[2*i]) + hv(s[2*i+1]), "data"); }
  else REACH("rejected");
}
