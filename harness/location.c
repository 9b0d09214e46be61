/* Storage locations: URLs, options and metadata URIs (dlite-misc.c). */
//@property O01
//@sources src/dlite-misc.c src/utils/uri_encode.c
//@stubs err
//@nobody tgen_buf_init tgen_buf_append tgen_buf_append_fmt tgen_buf_steal
//@assume joining: the growing text buffer of tgen.c is replaced by a fixed one
//@entry h_url unwind=10 N=5 /thorough unwind=14 N=9
//@entry h_win unwind=10 N=4 /thorough unwind=12 N=6
//@entry h_join unwind=14 M=2  /thorough unwind=18 M=3
//@entry h_opt unwind=12 N=5 FIXHEAP=10 safety=0 fs=64 /thorough unwind=14 N=8 FIXHEAP=12 timeout=5400
//@entry h_meta unwind=12 N=6 FIXHEAP=10 /thorough unwind=16 N=9 FIXHEAP=12
//@entry h_metajoin unwind=12 M=2 FIXHEAP=10 /thorough unwind=20 M=4 FIXHEAP=18
//@bound texts of N arbitrary characters; parts of M characters
#include "vh.h"
#include "dlite.h"
#include "dlite-misc.h"
#include <stdarg.h>
#include "utils/tgen.h"
#ifndef N
#define N 5
#endif
#ifndef M
#define M 2
#endif
/* position of the first of the characters in set, or the length */
static int find(const char *s, int from, const char *set)
{ int i, k; for (i=from; s[i]; i++) for (k=0; set[k]; k++) if (s[i] == set[k]) return i; return i; }
static int same(const char *p, const char *s, int from, int to)
{ int i; for (i=0; i<to-from; i++) if (p[i] != s[from+i]) return 0; return p[to-from] == 0; }
static int url(int win)
{
  char u[N+1], s[N+1]; int n = nd_str(u, N), f, q, end, c, loc, res = 0; char *d, *l, *o, *r;
  memcpy(s, u, N+1);
  CHECK((win ? dlite_split_url_winpath(u, &d, &l, &o, &r, 1) : dlite_split_url(u, &d, &l, &o, &r)) == 0, "always possible");
  f = find(s, 0, "#"); q = find(s, 0, "?"); if (q > f) q = f;
  end = q < f ? q : f;
  CHECK(f == n ? *r == 0 : same(r, s, f+1, n), "fragment: behind the first hash");
  if (f < n) res |= 1;
  if (q < f && q+1 < f) { CHECK(o && same(o, s, q+1, f), "options: between the first question mark and the fragment"); res |= 2; }
  else CHECK(!o, "no options");
  c = find(s, 0, ":/?#");
  if (win && end > 3 && ((s[0] >= 'a' && s[0] <= 'z') || (s[0] >= 'A' && s[0] <= 'Z')) && s[1] == ':' && (s[2] == '/' || s[2] == '\\')) {
    CHECK(!d && same(l, s, 0, end), "windows path"); res |= 8;
  } else if (s[c] == ':') {
    CHECK(d && same(d, s, 0, c), "driver: up to the first colon not behind a slash");
    loc = c+1; if (s[loc] == '/' && s[loc+1] == '/') loc += 2;
    if (loc < end) { CHECK(l && same(l, s, loc, end), "location"); res |= 4; } else CHECK(!l, "no location");
  } else {
    CHECK(!d, "no driver");
    if (end > 0) CHECK(l && same(l, s, 0, end), "all is location"); else CHECK(!l, "no location");
  }
  return res;
}
void h_url(void) { int r = url(0); if (r & 1) REACH("fragment"); if (r & 2) REACH("options"); if (r & 4) REACH("driver and location"); }
void h_win(void) { int r = url(1); if (r & 8) REACH("windows"); if (r & 4) REACH("driver and location"); }
/* growing text buffer */
static char tb[64]; static int tn;
void tgen_buf_init(TGenBuf *s) { (void)s; tn = 0; tb[0] = 0; }
int tgen_buf_append(TGenBuf *s, const char *src, int n)
{ int i; (void)s; for (i=0; (n < 0 || i < n) && src[i] && tn < 63; i++) tb[tn++] = src[i]; tb[tn] = 0; return i; }
int tgen_buf_append_fmt(TGenBuf *s, const char *fmt, ...)
{ va_list ap; int m; (void)s; va_start(ap, fmt); m = vsnprintf(tb+tn, 64-tn, fmt, ap); va_end(ap); tn += m; return m; }
char *tgen_buf_steal(TGenBuf *s) { (void)s; return tb; }
/* joining parts and splitting again */
static char *part(char *buf, const char *not)
{ int i, k, n = nd_str(buf, M); ASSUME(n > 0); for (i=0; i<n; i++) for (k=0; not[k]; k++) ASSUME(buf[i] != not[k]); return buf; }
void h_join(void)
{
  char d[M+1], l[M+1], o[M+1], f[M+1], *u, *dp, *lp, *op, *fp;
  int hd = nd_range(0, 1), ho = nd_range(0, 1), hf = nd_range(0, 1);
  part(d, ":/?#"); part(l, hd ? "?#" : "?#:"); part(o, "#"); part(f, "");
  ASSUME(l[0] != '?');
  u = dlite_join_url(hd ? d : NULL, l, ho ? o : NULL, hf ? f : NULL);
  ASSUME(u);
  CHECK(dlite_split_url(u, &dp, &lp, &op, &fp) == 0, "split");
  CHECK(hd ? dp && !strcmp(dp, d) : !dp, "driver");
  CHECK(lp && !strcmp(lp, l), "location");
  CHECK(ho ? op && !strcmp(op, o) : !op, "options");
  CHECK(fp && !strcmp(fp, hf ? f : ""), "fragment");
  REACH("joined");
}
/* options: key=value separated by ; or &, up to a hash */
void h_opt(void)
{
  char b[N+1], s[N+1]; int n = nd_str(b, N), strict = nd_range(0, 1), i, k, r, bad = 0, stop, v0, v1, at[2] = {-1, -1}, to[2], last = -1;
  DLiteOpt opts[] = {{'a', "a", "dflt", NULL}, {'b', "bc", "other", NULL}, {0, NULL, NULL, NULL}};
  memcpy(s, b, N+1);
  for (i=0; i<N; i++) ASSUME(s[i] != '%');   /* decoding is decided by S08 */
  r = dlite_option_parse(b, opts, strict ? dliteOptStrict : dliteOptDefault);
  for (i=0; i<n && s[i] != '#'; ) {
    k = find(s, i, "=;&#");
    if (s[k] != '=') { bad = 1; break; }
    v0 = k+1; v1 = find(s, v0, ";&#");
    last = (k == i+1 && s[i] == 'a') ? 0 : (k == i+2 && s[i] == 'b' && s[i+1] == 'c') ? 1 : -1;
    if (last < 0 && strict) { bad = 1; break; }
    if (last >= 0) { at[last] = v0; to[last] = v1; }
    i = v1; if (s[i] == ';' || s[i] == '&') i++;
    stop = i; (void)stop;
  }
  CHECK(!r == !bad, "error iff a key has no value or, if strict, is unknown");
  if (bad) return;
  for (k=0; k<2; k++)
    if (at[k] < 0) CHECK(!strcmp(opts[k].value, k ? "other" : "dflt"), "default value is kept");
    else { CHECK(opts[k].value == b+at[k] && same(opts[k].value, s, at[k], to[k]), "value of the last occurrence"); if (k == 0) REACH("value"); }
}
void h_meta(void)
{
  char u[N+1], *name = NULL, *version = NULL, *ns = NULL; int n = nd_str(u, N), i, a = -1, b = -1, r;
  for (i=0; i<n; i++) if (u[i] == '/') { a = b; b = i; }
  r = dlite_split_meta_uri(u, &name, &version, &ns);
  CHECK((r == 0) == (a > 0), "a URI of three parts");
  if (r) { CHECK(!name && !version && !ns, "left alone"); return; }
  CHECK(same(name, u, b+1, n), "name: behind the last slash");
  CHECK(same(version, u, a+1, b), "version: between the last two slashes");
  CHECK(same(ns, u, 0, a), "namespace: all in front");
  CHECK(dlite_split_meta_uri(u, NULL, NULL, NULL) == 0, "parts are optional");
  { char *j = dlite_join_meta_uri(name, version, ns); CHECK(j && !strcmp(j, u), "joined again"); REACH("split"); free(j); }
  free(name); free(version); free(ns);
}
void h_metajoin(void)
{
  char n[M+1], v[M+1], s[M+1], *u, *name, *version, *ns; int i, miss = nd_range(0, 3);
  nd_str(n, M); nd_str(v, M); nd_str(s, M);
  for (i=0; i<M; i++) ASSUME(n[i] != '/' && v[i] != '/');
  u = dlite_join_meta_uri(miss == 1 ? NULL : n, miss == 2 ? NULL : v, miss == 3 ? NULL : s);
  if (miss || (!n[0] && !v[0] && !s[0])) { CHECK(!u, "all three parts are needed"); return; }
  CHECK(u != NULL, "joined");
  if (!s[0]) { free(u); return; }
  CHECK(dlite_split_meta_uri(u, &name, &version, &ns) == 0, "split again");
  CHECK(!strcmp(name, n) && !strcmp(version, v) && !strcmp(ns, s), "same parts");
  REACH("joined");
  free(u); free(name); free(version); free(ns);
}
