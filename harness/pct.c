/* Percent encoding (urlsplit.c) and splitting of URLs. */
//@property S09
//@sources src/utils/urlsplit.c src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_pct unwind=10 N=2 cost=2 unwindset=pct_encode.0:3,pct_xencode.0:3,strlen.0:10 /thorough unwind=18 N=3 unwindset=x.0:1
//@entry h_decode unwind=12 N=4 cost=2 /thorough unwind=18 N=6
//@bound texts of up to N bytes, every buffer size
#include "vh.h"
#include "strutils.h"
#include "urlsplit.h"
#ifndef N
#define N 4
#endif
void h_pct(void)
{
  char s[N+1], e[3*N+1], d[N+4], b[3*N+2];
  int n = nd_str(s, N), m, k, i, size = nd_range(0, 3*N+1);
  m = pct_encode(e, sizeof(e), s);
  CHECK(m >= n && m <= 3*n && e[m] == 0, "encoded length");
  for (i=0; i<m; i++) CHECK(e[i] == '%' || (unsigned)strcategory(e[i]) <= strcatSubDelims, "only allowed characters");
  k = pct_decode(d, sizeof(d), e);
  REACH("encoded");
  CHECK(k == n && !strcmp(d, s), "decoding gives the text back");
  for (i=0; i<3*N+2; i++) b[i] = 'G';
  CHECK(pct_encode(b, size, s) == m, "length does not depend on the buffer size");
  for (i=0; i<3*N+2; i++) if (i >= size) CHECK(b[i] == 'G', "inside the buffer");
  if (size > 0) { int w = strnlen(b, size); CHECK(w < size, "terminated"); if (m < size) CHECK(w == m, "complete"); }
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int okc(char c, const char *extra)
{ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c && strchr("-._~!$&'()*+,;=", c)) || (c && strchr(extra, c)); }
static int in(const char *p, int n, const char *url, int len)
{ return !p ? n == 0 : (p >= url && p + n <= url + len && n >= 0); }
/* components are consecutive pieces of the url */
void h_decode(void)
{
  char s[N+1], d[N+4];
  int n = nd_str(s, N), k, i, j = 0, bad = 0, z = -1;
  unsigned char ref[N+1];
  for (i=0; i<n; i++) {
    int h1 = i+1 < n ? hexv(s[i+1]) : -1, h2 = i+2 < n ? hexv(s[i+2]) : -1;
    if (s[i] != '%') ref[j++] = s[i];
    else if (h1 < 0 || h2 < 0) { bad = 1; break; }
    else { ref[j++] = h1*16 + h2; i += 2; }
  }
  ref[j] = 0;
  k = pct_decode(d, sizeof(d), s);
  if (bad) { REACH("malformed"); CHECK(k < 0, "malformed escapes are rejected"); return; }
  CHECK(k == j, "decoded length");
  for (i=0; i<=j; i++) CHECK((unsigned char)d[i] == ref[i], "decoded bytes");
  if (j + 2 == n) REACH("one escape");
}
