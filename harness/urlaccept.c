/* Well-formed URLs are accepted (urlsplit.c). */
//@property L02
//@sources src/utils/urlsplit.c src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_accept unwind=18 objbits=12 fs=100 cost=2 unwindset=jspn.0:3,strcatjspn.0:3,strcatspn.0:3
//@bound every well-formed URL with an authority, with each combination of absent components; if all are present or only the host and path, one of them has an arbitrary allowed character
#include "vh.h"
#include "strutils.h"
#include "urlsplit.h"
#ifndef N
#define N 4
#endif
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int okc(char c, const char *extra)
{ return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c && strchr("-._~!$&'()*+,;=", c)) || (c && strchr(extra, c)); }
static char u[64]; static int un;
static void put(const char *t) { while (*t) u[un++] = *t++; }
static void sym(int n, const char *extra) { int i; for (i=0; i<n; i++) { char c = nd_char(); ASSUME(okc(c, extra)); u[un++] = c; } }
static int vary, at;
static void sym1(const char *extra) { if (at++ == vary) sym(1, extra); else put(extra[0] && extra[1] ? "@" : "x"); }
static void accept1(int m)
{
  UrlComponents c;
  int h, ui = m & 1, po = m & 2, qu = m & 4, fr = m & 8, hl, r, p, q = 0, f = 0;
  un = 0; at = 0;
  put("a://");
  if (ui) { sym1(":"); put("@"); }
  h = un; sym1(""); hl = 1;
  if (po) { put(":"); put("8"); }
  p = un; put("/"); sym1(":@");
  if (qu) { put("?"); q = un; sym1("/:@?"); }
  if (fr) { put("#"); f = un; sym1("/:@?"); }
  u[un] = 0;
  ASSUME(u[p+1] != '/');
  r = urlsplit(u, &c);
  CHECK(r == un, "a well-formed url is accepted");
  CHECK(c.scheme == u && c.scheme_len == 1 && c.authority == u + 4 && c.authority_len == p - 4, "scheme and authority");
  CHECK(ui ? c.userinfo == u + 4 && c.userinfo_len == 1 : c.userinfo_len == 0, "user info");
  CHECK(c.host == u + h && c.host_len == hl, "host");
  CHECK(po ? c.port == u + h + 2 && c.port_len == 1 : c.port_len == 0, "port");
  CHECK(c.path == u + p && c.path_len == 2, "path");
  CHECK(qu ? c.query == u + q && c.query_len == 1 : c.query_len == 0, "query");
  CHECK(fr ? c.fragment == u + f && c.fragment_len == 1 : c.fragment_len == 0, "fragment");
}
void h_accept(void)
{
  int k = nd_range(0, 15), v = nd_range(0, 5), i;
  for (i=0; i<16; i++) for (vary=0; vary<6; vary++) {
    if (i != k || vary != v) continue;
    if (vary < 5 && i != 15 && !(i == 0 && vary < 2)) continue;
    accept1(i);
    if (i == 0 && vary == 5) REACH("well-formed");
    return;
  }
}
