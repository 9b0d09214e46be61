/* URL splitting (urlsplit.c) against the grammar of RFC 3986. */
//@property L02
//@sources src/utils/urlsplit.c src/utils/compat.c
//@stubs err
//@entry h_cat unwind=8
//@entry h_split#any FIXHEAP=8 safety=0 unwind=8 N=4 PRE=0 unwindset=jspn.0:6 /thorough unwind=11 N=7 unwindset=jspn.0:9 timeout=5400
//@entry h_split#auth FIXHEAP=8 safety=0 unwind=10 N=3 PRE=1 unwindset=jspn.0:4 /thorough unwind=13 N=6 unwindset=jspn.0:8 timeout=5400
//@entry h_len FIXHEAP=8 safety=0 unwind=9 novac=1 N=2 PRE=2 unwindset=jspn.0:4 /thorough unwind=13 N=6 unwindset=jspn.0:8 timeout=5400
//@entry h_join FIXHEAP=8 safety=0 unwind=9 N=2 PRE=2 CUT=0 unwindset=jspn.0:4 novac=1 /thorough unwind=13 N=4 CUT=1 unwindset=jspn.0:6 timeout=5400
//@entry h_join#cut FIXHEAP=8 safety=0 unwind=8 N=2 PRE=1 CUT=1 unwindset=jspn.0:4 /thorough unwind=12 N=4 unwindset=jspn.0:6 timeout=5400
//@bound texts of at most N arbitrary characters, alone and behind "a://" or "a://b"; IP literals in brackets and an empty user info are left out
#include "vh.h"
/* The real character classes are compared with the short definitions below
   for all characters (h_cat); urlsplit.c is then run with the latter. */
#define strcategory real_strcategory
#define strcatspn real_strcatspn
#define strcatjspn real_strcatjspn
#include "strutils.c"
#undef strcategory
#undef strcatspn
#undef strcatjspn
#include "urlsplit.h"
#ifndef N
#define N 5
#define PRE 0
#endif
#ifndef CUT
#define CUT 0
#endif
#define PRES (PRE == 0 ? "" : PRE == 1 ? "a://" : "a://b")
#define PL (PRE == 0 ? 0 : PRE == 1 ? 4 : 5)
static int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int xdig(int c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
/* length of the pchar (unreserved, sub-delims or percent-encoded) or the characters in more[] at s, 0 if none */
static int pch(const char *s, const char *more)
{
  int c = *s, i;
  if (alpha(c) || digit(c)) return 1;
  for (i=0; more[i]; i++) if (c == more[i]) return 1;
  switch (c) {
  case '-': case '.': case '_': case '~':
  case '!': case '$': case '&': case '\'': case '(': case ')': case '*': case '+': case ',': case ';': case '=': return 1;
  case '%': return (xdig(s[1]) && xdig(s[2])) ? 3 : 0;
  }
  return 0;
}
static int run(const char *s, const char *more) { int n = 0, k; while ((k = pch(s+n, more))) n += k; return n; }
/* positions of the parts of a valid URL; returns whether s is one */
typedef struct { int sl, au, al, us, ul, ho, hl, po, pl, pa, pn, qu, ql, fr, fl; } Parts;
static int ref(const char *s, Parts *p)
{
  int n = 0, i;
  p->au = p->us = p->ho = p->po = p->qu = p->fr = -1;
  if (!alpha(s[0])) return 0;
  while (alpha(s[n]) || digit(s[n]) || s[n] == '+' || s[n] == '.' || s[n] == '-') n++;
  p->sl = n;
  if (s[n++] != ':') return 0;
  if (s[n] == '/' && s[n+1] == '/') {
    int end, at = -1;
    n += 2; p->au = n;
    for (end = n; s[end] && s[end] != '/' && s[end] != '?' && s[end] != '#'; end++)
      if (at < 0 && s[end] == '@') at = end;
    p->al = end - n;
    if (at >= 0) { p->us = n; p->ul = at - n; if (n + run(s+n, ":") != at) return 0; n = at + 1; }
    p->ho = n; p->hl = run(s+n, ""); n += p->hl;
    if (s[n] == ':') { p->po = ++n; for (i=n; digit(s[i]); i++) ; p->pl = i - n; n = i; }
    if (n != end) return 0;
  }
  p->pa = n; p->pn = run(s+n, "/:@"); n += p->pn;
  if (s[n] == '?') { p->qu = ++n; p->ql = run(s+n, "/?:@"); n += p->ql; }
  if (s[n] == '#') { p->fr = ++n; p->fl = run(s+n, "/?:@"); n += p->fl; }
  return s[n] == 0;
}
StrCategory strcategory(int c)
{
  unsigned char u = c;
  return (c >= 'A' & c <= 'Z') ? strcatUpper : (c >= 'a' & c <= 'z') ? strcatLower : (c >= '0' & c <= '9') ? strcatDigit :
    (c == '-' | c == '.' | c == '_' | c == '~') ? strcatUnreserved :
    (c == '!' | c == '$' | (u >= '&' & u <= ',') | c == ';' | c == '=') ? strcatSubDelims :
    (c == ':' | c == '/' | c == '?' | c == '#' | c == '[' | c == ']' | c == '@') ? strcatGenDelims :
    c == '%' ? strcatPercent :
    (c == '"' | c == '\\' | c == '<' | c == '>' | c == '^' | (c >= '{' & c <= '}')) ? strcatCExtra :
    (c == ' ' | (c >= 9 & c <= 13)) ? strcatSpace : c ? strcatOther : strcatNul;
}
int strcatspn(const char *s, StrCategory cat) { int n = 0; while (s[n] != 0 & strcategory(s[n]) == cat) n++; return n; }
int strcatjspn(const char *s, StrCategory cat) { int n = 0; while (s[n] != 0 & strcategory(s[n]) <= cat) n++; return n; }
void h_cat(void)
{
  char s[7]; int n = nd_str(s, 6), c = nd_range(-128, 127), cat = nd_range(0, strcatNul);
  CHECK(real_strcategory(c) == strcategory(c), "category of a character");
  CHECK(real_strcatspn(s, cat) == strcatspn(s, cat), "initial segment in a category");
  CHECK(real_strcatjspn(s, cat) == strcatjspn(s, cat), "initial segment in categories");
  REACH("compared");
}
static int mk(char *u, int extra)
{
  int n, i; char *p = u + PL;
  memcpy(u, PRES, PL);
  n = nd_str(p, N);
  for (i=0; i<PL+N; i++) ASSUME(u[i] != '[');
  for (i=0; i+2<PL+N; i++) ASSUME(!(u[i] == '/' && u[i+1] == '/' && u[i+2] == '@'));
  (void)extra;
  return PL + n;
}
void h_split(void)
{
  char u[PL+N+1]; Parts p; UrlComponents c; int r, m, n;
  n = mk(u, 0);
  r = ref(u, &p);
  m = urlsplit(u, &c);
  CHECK((m == n && n > 0) == r, "accepted iff the text is a URL");
  if (!r) { CHECK(m >= 0 && m < n || n == 0, "length of the initial segment"); if (m) { char v[PL+N+1]; Parts q; memset(v, 0, sizeof v); memcpy(v, u, m < n ? m : 0); CHECK(ref(v, &q), "the initial segment is a URL"); } }
  if (!r) return;
  CHECK(c.scheme == u && c.scheme_len == p.sl, "scheme");
  CHECK(p.au < 0 ? !c.authority && !c.authority_len : c.authority == u+p.au && c.authority_len == p.al, "authority");
  CHECK(p.us < 0 ? !c.userinfo && !c.userinfo_len : c.userinfo == u+p.us && c.userinfo_len == p.ul, "user info");
  CHECK(p.ho < 0 ? !c.host && !c.host_len : c.host == u+p.ho && c.host_len == p.hl, "host");
  CHECK(p.po < 0 ? !c.port && !c.port_len : c.port == u+p.po && c.port_len == p.pl, "port");
  CHECK(c.path == u+p.pa && c.path_len == p.pn, "path");
  CHECK(p.qu < 0 ? !c.query && !c.query_len : p.ql == 0 || (c.query == u+p.qu && c.query_len == p.ql), "query");
  CHECK(p.fr < 0 ? !c.fragment && !c.fragment_len : p.fl == 0 || (c.fragment == u+p.fr && c.fragment_len == p.fl), "fragment");
  REACH("url");
}
/* only the first len characters count */
void h_len(void)
{
  char u[PL+N+1], v[PL+N+1]; UrlComponents a, b; int n, len, m;
  n = mk(u, 0); len = nd_range(1, PL+N); ASSUME(len <= n);
  memset(v, 0, sizeof v); memcpy(v, u, len);
  m = urlsplitn(u, len, &a);
  CHECK(m == urlsplit(v, &b), "what follows the first len characters does not matter");
  CHECK(isurln(u, len) == (m == len && !(u[0] >= 'A' && u[0] <= 'Z' && len > 1 && u[1] == ':')), "isurln(): a URL which is not a windows drive");
  if (m) { REACH("url");
    CHECK(a.host_len == b.host_len && a.port_len == b.port_len && a.path_len == b.path_len && a.query_len == b.query_len && a.fragment_len == b.fragment_len && a.authority_len == b.authority_len, "lengths of the components");
    CHECK(a.path - u == b.path - v && (!b.host || a.host - u == b.host - v), "positions of the components"); }
}
void h_join(void)
{
  char u[PL+N+1], o[PL+N+2]; Parts p; UrlComponents c; int n, i, m, size;
  n = mk(u, 0);
  if (!ref(u, &p)) return;
  for (i=0; i<PL+N; i++) ASSUME(u[i] != '%');
  if ((p.au >= 0 && !p.hl) || (p.us >= 0 && !p.ul) || (p.po >= 0 && !p.pl) || (p.qu >= 0 && !p.ql) || (p.fr >= 0 && !p.fl)) return;
  CHECK(urlsplit(u, &c) == n, "valid URL");
  size = CUT ? nd_range(0, PL+N+1) : PL+N+1;
  o[size] = 'Z';
  m = urljoin(o, size, &c);
  CHECK(m == n, "length of the joined components");
  CHECK(o[size] == 'Z', "nothing is written behind the buffer");
  if (size > n) { CHECK(strcmp(o, u) == 0, "joining the components gives the URL back"); REACH("joined"); }
  else if (size) { for (i=0; i<size-1; i++) CHECK(o[i] == u[i], "truncated"); CHECK(o[size-1] == 0, "terminated"); REACH("truncated"); }
}
