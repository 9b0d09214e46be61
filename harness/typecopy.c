/* Copying and clearing of single values. */
//@property T02
//@sources src/dlite-type.c
//@stubs err misc ent
//@entry h_plain unwind=18 objbits=10 fs=100
//@entry h_string unwind=10 objbits=10 fs=100 checks=leak
//@entry h_dim unwind=11 objbits=12 fs=200 checks=leak
//@entry h_rel unwind=7 objbits=12 fs=200 checks=leak unwindset=h_rel.1:65
//@entry h_prop unwind=7 objbits=12 fs=200 checks=leak unwindset=h_prop.1:33
//@bound plain values of 1 to 16 bytes with any content; strings and description strings of up to 3 characters (any character), every combination of absent, empty and present optional fields, properties with 0 to 3 dimensions; previous string value absent or of up to 2 characters
#include "vh.h"
#include "dlite.h"
#include "dlite-type.h"
static char *str(int n)   /* string of length n of any characters; NULL if n < 0 */
{
  char *s;
  int i;
  if (n < 0) return NULL;
  s = malloc(n + 1);
  for (i=0; i<n; i++) { s[i] = nd_char(); ASSUME(s[i]); }
  s[n] = 0;
  return s;
}
static void same(const char *d, const char *s, int n)
{
  int i;
  if (n < 0) { CHECK(s == NULL && d == NULL, "an absent string stays absent"); return; }
  CHECK(d && d != s, "a string gets memory of its own");
  if (!d) return;
  for (i=0; i<=n; i++) CHECK(d[i] == s[i], "string is copied");
}
void h_plain(void)
{
  unsigned char s[16], d[18];
  int n = nd_range(1, 16), m, i;
  DLiteType t = nd_range(dliteBlob, dliteFixString), k;
  nd_bytes(s, 16);
  for (k=dliteBlob; k<=dliteFixString; k++) for (m=1; m<=16; m++) {
    if (m != n || k != t) continue;
    memset(d, 0x5a, 18);
    CHECK(!dlite_type_is_allocated(k), "plain types have no allocated data");
    CHECK(dlite_type_copy(d + 1, s, k, m) == d + 1, "copy succeeds");
    CHECK(d[0] == 0x5a && d[m+1] == 0x5a, "nothing around the value is changed");
    for (i=0; i<m; i++) CHECK(d[1+i] == s[i], "value is copied");
    CHECK(dlite_type_clear(d + 1, k, m) == d + 1, "clear succeeds");
    CHECK(d[0] == 0x5a && d[m+1] == 0x5a, "clear changes the value only");
    for (i=0; i<m; i++) CHECK(d[1+i] == 0, "value is cleared");
    REACH("done");
    return;
  }
}
void h_string(void)
{
  int a = nd_range(-1, 3), b = nd_range(-1, 2), i, j;
  CHECK(dlite_type_is_allocated(dliteStringPtr), "strings are allocated");
  for (i=-1; i<=3; i++) for (j=-1; j<=2; j++) {
    if (i != a || j != b) continue;
    char *s = str(i), *d = str(j);
    CHECK(dlite_type_copy(&d, &s, dliteStringPtr, sizeof(char *)) == &d, "copy succeeds");
    same(d, s, i);
    dlite_type_clear(&s, dliteStringPtr, sizeof(char *));
    CHECK(s == NULL, "cleared string is absent");
    dlite_type_clear(&d, dliteStringPtr, sizeof(char *));
    CHECK(d == NULL, "cleared string is absent");
    REACH("done");
    return;
  }
}
static void dim(int m)
{
  DLiteDimension s, d;
  int a = m % 3 == 2 ? 2 : m % 3 - 1, b = m / 3 - 1;
  s.name = str(a); s.description = str(b);
  memset(&d, 0, sizeof d);
  CHECK(dlite_type_copy(&d, &s, dliteDimension, sizeof d) == &d, "copy succeeds");
  same(d.name, s.name, a); same(d.description, s.description, b);
  dlite_type_clear(&s, dliteDimension, sizeof s);
  dlite_type_clear(&d, dliteDimension, sizeof d);
  CHECK(!d.name && !d.description && !s.name && !s.description, "cleared");
}
static void rel(int m)
{
  DLiteRelation s, d;
  int l[5], i;
  for (i=0; i<5; i++) l[i] = (m & (1 << i)) ? m / 32 : -1;
  s.s = str(l[0]); s.p = str(l[1]); s.o = str(l[2]); s.d = str(l[3]); s.id = str(l[4]);
  memset(&d, 0, sizeof d);
  CHECK(dlite_type_copy(&d, &s, dliteRelation, sizeof d) == &d, "copy succeeds");
  same(d.s, s.s, l[0]); same(d.p, s.p, l[1]); same(d.o, s.o, l[2]); same(d.d, s.d, l[3]); same(d.id, s.id, l[4]);
  dlite_type_clear(&s, dliteRelation, sizeof s);
  dlite_type_clear(&d, dliteRelation, sizeof d);
  CHECK(!d.s && !d.p && !d.o && !d.d && !d.id, "cleared");
}
static void prop(int m)
{
  DLiteProperty s, d;
  int nd = m % 4, e = m / 16, a = (m & 8) ? e : -1, b = (m & 4) ? 2*e : -1, c = (m & 1) ? e : -1, i;
  memset(&s, 0, sizeof s);
  s.name = str(2); s.ref = str(a); s.unit = str(b); s.description = str(c);
  s.type = nd_range(0, dliteRelation); s.size = nd_size(); s.ndims = nd;
  if (nd) { s.shape = malloc(nd * sizeof(char *)); for (i=0; i<nd; i++) s.shape[i] = str(1 + i); }
  memset(&d, 0, sizeof d);
  CHECK(dlite_type_copy(&d, &s, dliteProperty, sizeof d) == &d, "copy succeeds");
  same(d.name, s.name, 2); same(d.ref, s.ref, a); same(d.unit, s.unit, b); same(d.description, s.description, c);
  CHECK(d.type == s.type && d.size == s.size && d.ndims == s.ndims, "type, size and number of dimensions");
  if (nd) CHECK(d.shape && d.shape != s.shape, "shape is copied"); else CHECK(d.shape == NULL, "scalar has no shape");
  for (i=0; i<nd; i++) same(d.shape[i], s.shape[i], 1 + i);
  dlite_type_clear(&s, dliteProperty, sizeof s);
  dlite_type_clear(&d, dliteProperty, sizeof d);
  CHECK(!d.name && !d.ref && !d.shape && !d.unit && !d.description && !d.ndims, "cleared");
}
#define CASES(n, fun) int k = nd_range(0, n-1), i; for (i=0; i<n; i++) if (i == k) { fun; REACH("done"); return; }
void h_dim(void) { CASES(9, dim(i)) }
void h_rel(void) { CASES(64, rel(i)) }
void h_prop(void) { CASES(32, prop(i)) }
