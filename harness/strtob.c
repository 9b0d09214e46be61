/* Booleans in text; power-of-two rounding. */
//@property S10
//@sources src/utils/strtob.c src/utils/compat.c
//@entry h_strtob unwind=11 N=8
//@bound strings of up to N bytes, every case variant
#include "vh.h"
int strtob(const char *ptr, char **endptr);
int atob(const char *ptr);
#ifndef N
#define N 8
#endif
static int pre(const char *s, const char *w)
{ int i; for (i=0; w[i]; i++) { char c = s[i]; if (c >= 'A' && c <= 'Z') c += 32; if (c != w[i]) return 0; } return i; }
void h_strtob(void)
{
  char s[N+1], *end = (char *)1;
  int n = nd_str(s, N), i = 0, r = strtob(s, &end), k = 0, exp = -1;
  static const char *t[] = {"1", "true", ".true.", "yes", "on"}, *f[] = {"0", "false", ".false.", "no", "off"};
  if (n == 0) { CHECK(r == 0 && end == s, "empty string is false"); return; }
  while (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')) i++;
  for (int j=0; j<5; j++) {
    if (exp < 0 && (k = pre(s+i, t[j]))) { exp = 1; break; }
    if (exp < 0 && (k = pre(s+i, f[j]))) { exp = 0; break; }
  }
  CHECK(r == exp, "value of the word, -1 for anything else");
  CHECK(end >= s && end <= s + n, "end pointer inside the string");
  if (exp >= 0) { REACH("word"); CHECK(end == s + i + k, "end pointer behind the word"); }
  else REACH("no bool");
  CHECK(atob(s) == r, "atob() agrees");
}
