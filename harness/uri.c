/* URI percent encoding (uri_encode.c). */
//@property S08
//@sources src/utils/uri_encode.c
//@entry h_uri unwind=16 N=4 /thorough unwind=30 N=8
//@entry h_decode unwind=12 N=7 /thorough unwind=16 N=12
//@bound N arbitrary bytes (NUL included)
#include "vh.h"
#include "uri_encode.h"
#ifndef N
#define N 4
#endif
static int unreserved(unsigned char c)
{ return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }
void h_uri(void)
{
  char s[N], e[3*N+1], d[3*N+1];
  int n = nd_range(0, N), i, j, m, k;
  nd_bytes(s, N);
  m = uri_encode(s, n, NULL);
  CHECK((int)uri_encode(s, n, e) == m, "length does not depend on the output buffer");
  REACH("encoded");
  CHECK(e[m] == 0, "terminated");
  for (i=0, j=0; i<n; i++) {
    if (unreserved(s[i])) { CHECK(e[j] == s[i], "unreserved characters are kept"); j++; }
    else { const char *x = "0123456789ABCDEF"; unsigned char c = s[i];
      CHECK(e[j] == '%' && e[j+1] == x[c >> 4] && e[j+2] == x[c & 15], "all others become %XX"); j += 3; }
  }
  CHECK(j == m, "encoded length");
  k = uri_decode(e, m, d);
  CHECK(k == n, "decoded length");
  for (i=0; i<n; i++) CHECK(d[i] == s[i], "decoding gives the input back");
  CHECK(d[n] == 0, "decoded text is terminated");
}
static int hv(char c)
{ return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
void h_decode(void)
{
  char s[N+1], d[N+1];
  int n = nd_range(0, N), i, j = 0, k;
  nd_bytes(s, N+1);
  k = uri_decode(s, n, NULL);
  CHECK((int)uri_decode(s, n, d) == k, "length does not depend on the output buffer");
  for (i=0; i<n; j++) {
    if (s[i] == '%' && i+2 < n && hv(s[i+1]) >= 0 && hv(s[i+2]) >= 0) { REACH("percent");
      CHECK(d[j] == (char)(16*hv(s[i+1]) + hv(s[i+2])), "decoded byte"); i += 3; }
    else { CHECK(d[j] == s[i], "any other byte is kept"); i++; }
  }
  CHECK(j == k && d[k] == 0, "decoded length, terminated");
}
