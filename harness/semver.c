/* Semantic versions. */
//@property S04
//@sources src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_check unwind=9 N=7 cost=2 /thorough unwind=14 N=11
//@entry h_check#ids unwind=10 N=8 PREFIX=1 cost=2 /thorough unwind=14 N=12
//@entry h_core unwind=13 N=2 cost=3 /thorough N=3
//@entry h_pre unwind=11 N=3 cost=3 /thorough unwind=16 N=6
//@entry h_release known=semver-release-order unwind=10 N=2
//@bound version strings of at most N bytes (h_core: core versions; h_pre: pre-release part up to N bytes after a common core)
#include "vh.h"
#include "strutils.h"
#ifndef N
#define N 8
#endif
static int dig(char c) { return c >= '0' && c <= '9'; }
static int idc(char c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-'; }
/* reference recogniser over s[0..n); cuts are given by n only */
static int num(const char *s, int n, int i)
{ int k = i; while (k < n && dig(s[k])) k++;
  if (k == i || (k > i+1 && s[i] == '0')) return -1; return k; }
static int ids(const char *s, int n, int i, int pre)
{ for (;;) { int k = i, alld = 1;
    while (k < n && idc(s[k])) { if (!dig(s[k])) alld = 0; k++; }
    if (k == i) return -1;
    if (pre && alld && k > i+1 && s[i] == '0') return -1;
    if (k < n && s[k] == '.') { i = k+1; continue; }
    return k; } }
static int isver(const char *s, int n)
{ int i = num(s, n, 0);
  if (i < 0 || i >= n || s[i] != '.') return 0;
  i = num(s, n, i+1); if (i < 0 || i >= n || s[i] != '.') return 0;
  i = num(s, n, i+1); if (i < 0) return 0;
  if (i < n && s[i] == '-' && (i = ids(s, n, i+1, 1)) < 0) return 0;
  if (i < n && s[i] == '+' && (i = ids(s, n, i+1, 0)) < 0) return 0;
  return i == n; }
/* strchk/strnchk accept exactly the SemVer 2.0.0 grammar and never look past n */
void h_check(void)
{
  char b[N+1];
  int i, n = nd_range(0, N), len = 0, r, ref;
#ifdef PREFIX
  const char *pre = "1.0.0";
  for (i=0; i<5; i++) b[i] = pre[i];
#else
  i = 0;
#endif
  for (; i<N; i++) b[i] = nd_char();
  b[N] = 0;
  for (i=0; i<N; i++) if (len == i && i < n && b[i]) len++;
  r = strnchk_semver(b, n);
  ref = isver(b, len);
  CHECK(r == (ref ? len : -1), "strnchk_semver() accepts exactly valid versions");
  if (n == N) CHECK(strchk_semver(b) == (ref ? len : -1), "strchk_semver() accepts exactly valid versions");
  if (ref && n < N && b[n]) REACH("valid prefix");
  if (!ref) REACH("invalid");
}
static int sgn(int x) { return (x > 0) - (x < 0); }
/* core versions: numeric order of (major, minor, patch), build metadata ignored */
static void mkver(char *s, int v[3])
{
  int j = 0, i;
  for (i=0; i<3; i++) {
    int big = (N > 2 || i == 1) ? nd_range(0, 1) : 0, d1 = nd_range(0, 9), d2 = nd_range(1, 9);
    if (big) s[j++] = '0' + d2;
    s[j++] = '0' + d1;
    v[i] = big ? 10*d2 + d1 : d1;
    if (i < 2) s[j++] = '.';
  }
  if (nd_range(0, 1)) { s[j++] = '+'; s[j++] = nd_range('a', 'z'); }
  s[j] = 0;
}
void h_core(void)
{
  char a[11], b[11];
  int i, v[2][3], e = 0;
  mkver(a, v[0]);
  mkver(b, v[1]);
  for (i=2; i>=0; i--) if (v[0][i] != v[1][i]) e = sgn(v[0][i] - v[1][i]);
  if (e == 0) REACH("equal"); else REACH("different");
  CHECK(strcmp_semver(a, b) == e, "numeric order of major, minor, patch");
}
/* precedence of pre-release identifiers, build metadata is ignored */
static int idcmp(const char *a, const char *b)
{
  for (;;) {
    int na = 0, nb = 0, da = 1, db = 1, i, x = 0, y = 0;
    while (idc(a[na])) { if (!dig(a[na])) da = 0; na++; }
    while (idc(b[nb])) { if (!dig(b[nb])) db = 0; nb++; }
    if (da && db) {
      for (i=0; i<na; i++) x = 10*x + (a[i]-'0');
      for (i=0; i<nb; i++) y = 10*y + (b[i]-'0');
      if (x != y) return (x < y) ? -1 : 1;
    } else if (da != db) {
      return da ? -1 : 1;
    } else {
      for (i=0; i<na && i<nb; i++) if (a[i] != b[i]) return (a[i] < b[i]) ? -1 : 1;
      if (na != nb) return (na < nb) ? -1 : 1;
    }
    a += na; b += nb;
    if (*a == '.' && *b == '.') { a++; b++; continue; }
    if (*a == '.') return 1;
    if (*b == '.') return -1;
    return 0;
  }
}
void h_pre(void)
{
  char a[N+7], b[N+7], pa[N+1], pb[N+1];
  int na = nd_str(pa, N), nb = nd_str(pb, N), i, e;
  memcpy(a, "1.0.2-", 6); memcpy(b, "1.0.2-", 6);
  for (i=0; i<=N; i++) { a[6+i] = pa[i]; b[6+i] = pb[i]; }
  ASSUME(ids(pa, na, 0, 1) == na && ids(pb, nb, 0, 1) == nb);
  e = idcmp(pa, pb);
  if (e == 0) REACH("equal"); else REACH("different");
  CHECK(strcmp_semver(a, b) == e, "SemVer precedence of pre-releases");
}
/* a pre-release comes before the release itself */
void h_release(void)
{
  char a[N+7], pa[N+1];
  int na = nd_str(pa, N), i;
  memcpy(a, "1.0.2-", 6);
  for (i=0; i<=N; i++) a[6+i] = pa[i];
  ASSUME(ids(pa, na, 0, 1) == na);
  REACH("pre-release");
  CHECK(strcmp_semver(a, "1.0.2") < 0, "pre-release is lower than the release");
}
