/* Glob pattern matching. */
//@property S06
//@sources src/utils/globmatch.c
//@entry h_match#1 unwind=10 NP=3 NS=2 KEY=0 cost=2 objbits=11 unwindset=globmatch:3,globmatch.0:4,globmatch.1:4,globmatch.2:4,globmatch.3:8,h_match.5:56,h_match.0:56,h_match.1:56,h_match.2:56,h_match.3:56,h_match.4:56 /thorough NS=3
//@entry h_match#2 unwind=10 NP=3 NS=2 KEY=1 cost=2 objbits=11 unwindset=globmatch:3,globmatch.0:4,globmatch.1:4,globmatch.2:4,globmatch.3:8,h_match.5:56,h_match.0:56,h_match.1:56,h_match.2:56,h_match.3:56,h_match.4:56 /thorough NS=3
//@entry h_match#3 unwind=10 NP=3 NS=2 KEY=2 cost=2 objbits=11 unwindset=globmatch:3,globmatch.0:4,globmatch.1:4,globmatch.2:4,globmatch.3:8,h_match.5:56,h_match.0:56,h_match.1:56,h_match.2:56,h_match.3:56,h_match.4:56 /thorough NS=3
//@entry h_match#4 unwind=10 NP=3 NS=2 KEY=3 cost=2 objbits=11 unwindset=globmatch:3,globmatch.0:4,globmatch.1:4,globmatch.2:4,globmatch.3:8,h_match.5:56,h_match.0:56,h_match.1:56,h_match.2:56,h_match.3:56,h_match.4:56 /thorough NS=3
//@entry h_fixed unwind=34 NP=6 NS=2 cost=2 unwindset=globmatch:3
//@bound every pattern of NP tokens out of a, b, ?, *, \\a, \\* against every string of up to NS bytes; character groups: the listed patterns against every string of up to NS bytes
#include "vh.h"
#include "globmatch.h"
#ifndef NP
#define NP 4
#define NS 3
#endif
typedef unsigned char uc;
/* length of the character class that starts at p[0]=='[', 0 if it is not closed */
static int clslen(const char *p)
{ int k; if (!p[1]) return 0;
  for (k=2; k<2*NP && p[k]; k++) if (p[k] == ']') return k + 1;
  return 0; }
static int incls(const char *p, int n, char ch)
{ int i = 1, e = n - 1, neg = 0, in = 0;
  if (p[i] == '^') { neg = 1; i++; }
  while (i < e) {
    if (i + 2 < e && p[i+1] == '-') { if ((uc)p[i] <= (uc)ch && (uc)ch <= (uc)p[i+2]) in = 1; i += 3; }
    else { if (p[i] == ch) in = 1; i++; }
  }
  return in != neg; }
/* reference: m[i][j] = pattern from i matches string from j */
static int ref(const char *p, int np, const char *s, int ns)
{ int m[2*NP+2][NS+2], i, j;
  for (i=0; i<2*NP+2; i++) for (j=0; j<NS+2; j++) m[i][j] = 0;
  for (i=2*NP; i>=0; i--) if (i <= np)
    for (j=NS; j>=0; j--) if (j <= ns) {
      int r = 0;
      if (i == np) r = (j == ns);
      else if (p[i] == '*') r = m[i+1][j] || (j < ns && m[i][j+1]);
      else if (p[i] == '?') r = j < ns && m[i+1][j+1];
      else if (p[i] == '[') { int n = clslen(p+i); r = n && j < ns && incls(p+i, n, s[j]) && m[i+n][j+1]; }
      else if (p[i] == '\\') r = i+1 < np && j < ns && s[j] == p[i+1] && m[i+2][j+1];
      else r = j < ns && s[j] == p[i] && m[i+1][j+1];
      m[i][j] = r;
    }
  return m[0][0]; }
static void one(const char *p, int np)
{
  char s[NS+1];
  int ns = nd_str(s, NS), r;
  r = globmatch(p, s) == 0;
  CHECK(r == ref(p, np, s, ns), "matches exactly the documented patterns");
}
#ifndef KEY
#define KEY 0
#endif
static const char *const tok[] = {"a", "b", "?", "*", "\\a", "\\*"};
void h_match(void)
{
  char p[2*NP+1];
  int k[NP], i, j, t, sel = nd_range(0, 215);
  for (j=0; j<54; j++) {
    int v = KEY*54 + j, n = 0;
    if (sel != v) continue;
    for (i=0; i<3; i++) { for (t=0; tok[v%6][t]; t++) p[n++] = tok[v%6][t]; v /= 6; }
    p[n] = 0;
    one(p, n);
    if (j == 20) REACH("some pattern");
    return;
  }
}
static const char *const pats[] = {"[a-c]", "[^a-c]", "[abd]", "[^b]x", "[]a]", "[a-]", "[a-cx]", "x[a-b]", "[^a]*", "*[ab]", "[ab", "[a]?", "\\[a", "[x-z]*", "[", "\\", "", "[^]a]", "[\x7f-\x81]", "[z-a]", "[^\xfd-\xff]", "[a-bx-y]"};
void h_fixed(void)
{
  int i, n = sizeof(pats)/sizeof(*pats), sel = nd_range(0, 21);
  for (i=0; i<n; i++) if (sel == i) { one(pats[i], strlen(pats[i])); if (i == 0) REACH("group"); return; }
}
