/* Names of types. */
//@property T01
//@sources src/dlite-type.c
//@stubs err misc ent
//@entry h_print unwind=36 fs=100 vsolver=minisat2 /thorough MAXSZ=99999
//@entry h_trunc unwind=36 fs=100
//@entry h_parse unwind=36 NCH=9 cost=2 /thorough NCH=11
//@entry h_names unwind=12
//@bound type names: every data type with every valid size (blob and string sizes up to MAXSZ), any buffer size; parsing: every text of up to N characters
#include "vh.h"
#include "dlite.h"
#include "dlite-type.h"
#ifndef MAXSZ
#define MAXSZ 99
#endif
#ifndef NCH
#define NCH 9
#endif
static const struct { const char *s; DLiteType t; size_t size; } tab[] = {
  {"bool", dliteBool, 1},
  {"int", dliteInt, 8}, {"integer", dliteInt, 8}, {"int8", dliteInt, 1}, {"int16", dliteInt, 2}, {"int32", dliteInt, 4}, {"int64", dliteInt, 8},
  {"uint", dliteUInt, 8}, {"uint8", dliteUInt, 1}, {"uint16", dliteUInt, 2}, {"uint32", dliteUInt, 4}, {"uint64", dliteUInt, 8},
  {"float", dliteFloat, 8}, {"single", dliteFloat, 4}, {"double", dliteFloat, 8}, {"float32", dliteFloat, 4}, {"float64", dliteFloat, 8},
  {"string", dliteStringPtr, 8}, {"str", dliteStringPtr, 8}, {"ref", dliteRef, 8},
  {"dimension", dliteDimension, sizeof(DLiteDimension)}, {"property", dliteProperty, sizeof(DLiteProperty)}, {"relation", dliteRelation, sizeof(DLiteRelation)},
  {"longdouble", dliteFloat, sizeof(long double)},
#ifdef HAVE_FLOAT80
  {"float80", dliteFloat, 10},
#endif
#ifdef HAVE_FLOAT96
  {"float96", dliteFloat, 12},
#endif
#ifdef HAVE_FLOAT128
  {"float128", dliteFloat, 16},
#endif
};
#define NTAB ((int)(sizeof(tab)/sizeof(*tab)))
static size_t any_size(DLiteType t)
{
  switch (t) {
  case dliteBlob: return nd_range(0, MAXSZ);
  case dliteFixString: return nd_range(1, MAXSZ);
  case dliteInt: case dliteUInt: return (size_t)1 << nd_range(0, 3);
  case dliteFloat: return (size_t)1 << nd_range(2, 3);
  case dliteBool: return 1;
  case dliteStringPtr: case dliteRef: return 8;
  case dliteDimension: return sizeof(DLiteDimension);
  case dliteProperty: return sizeof(DLiteProperty);
  default: return sizeof(DLiteRelation);
  }
}
static void body(DLiteType t, size_t size)
{
  DLiteType t2;
  size_t size2;
  char buf[16];
  CHECK(dlite_type_set_typename(t, size, buf, 16) == 0, "every type has a name");
  CHECK(dlite_type_set_dtype_and_size(buf, &t2, &size2) == 0, "own type name is accepted");
  CHECK(t2 == t && size2 == size, "type name gives back type and size");
}
void h_print(void)
{
  DLiteType t = nd_range(0, dliteRelation), k;
  size_t size = any_size(t), j;
  for (k=0; k<=dliteRelation; k++) {
    if (t != k) continue;
    if (k == dliteInt || k == dliteUInt || k == dliteFloat) {
      for (j=1; j<=8; j*=2) if (size == j) { body(k, j); REACH("number"); return; }
    } else if (k == dliteBlob) { body(k, size); REACH("blob"); }
    else if (k == dliteFixString) { body(k, size); REACH("fixstring"); }
    else { body(k, any_size(k)); REACH("other"); }
    return;
  }
}
void h_trunc(void)
{
  static const struct { DLiteType t; size_t s; } c[] = {{dliteBlob,123456}, {dliteBool,1}, {dliteInt,4}, {dliteUInt,8}, {dliteFloat,8}, {dliteFixString,100}, {dliteStringPtr,8}, {dliteRef,8}};
  char buf[12];
  int n = nd_range(1, 12), i, k = nd_range(0, 7), m;
  for (i=0; i<8; i++) {
    if (k != i) continue;
    for (m=1; m<=12; m++) {
      if (n != m) continue;
      CHECK(dlite_type_set_typename(c[i].t, c[i].s, buf + 12 - m, m) == 0, "every type has a name");
      CHECK(strlen(buf + 12 - m) < (size_t)m, "name is terminated within the buffer");
      REACH("done");
      return;
    }
  }
}
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int dg(char c) { return c >= '0' && c <= '9'; }
void h_parse(void)
{
  char s[NCH+1];
  DLiteType t = -1, rt = -1;
  size_t size = 0, rsize = 0, a = 0, l, k, v = 0;
  int i, ok = 0, r;
  nd_str(s, NCH);
  for (i=0; i<=NCH; i++) ASSUME(s[i] >= 0 && (s[i] != '/'));
  while (al(s[a])) a++;
  l = a;
  while (dg(s[l])) { v = v*10 + (s[l] - '0'); l++; }
  if (a > 0 && !al(s[l]) && s[l] != '_') {
    for (i=0; i<NTAB; i++)
      if (strlen(tab[i].s) == l) {
        int eq = 1;
        for (k=0; k<l; k++) if (tab[i].s[k] != s[k]) eq = 0;
        if (eq) { ok = 1; rt = tab[i].t; rsize = tab[i].size; }
      }
    if (!ok && l > a) {
      if (a == 4 && s[0]=='b' && s[1]=='l' && s[2]=='o' && s[3]=='b') { ok = 1; rt = dliteBlob; rsize = v; }
      if ((a == 3 || a == 6) && s[0]=='s' && s[1]=='t' && s[2]=='r' && (a == 3 || (s[3]=='i' && s[4]=='n' && s[5]=='g'))) { ok = 1; rt = dliteFixString; rsize = v + 1; }
    }
  }
  r = dlite_type_set_dtype_and_size(s, &t, &size);
  if (ok) { REACH("valid"); CHECK(r == 0 && t == rt && size == rsize, "documented type name gives its type and size"); }
  else { REACH("invalid"); CHECK(r != 0, "anything else is not a type name"); }
}
void h_names(void)
{
  int t = nd_int();
  const char *s = dlite_type_get_dtypename(t), *e = dlite_type_get_enum_name(t);
  CHECK((s != NULL) == (t >= 0 && t <= dliteRelation), "names for valid types only");
  CHECK((e != NULL) == (s != NULL), "enum names for valid types only");
  if (s) { REACH("name"); CHECK(dlite_type_get_dtype(s) == (DLiteType)t, "dtype name gives back the type"); }
}
