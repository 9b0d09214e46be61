/* inst.h -- an entity covering the kinds of properties, for harnesses of instances */
#include "vh.h"
#include <stddef.h>
#include "dlite.h"
#include "dlite-entity.h"
#include "dlite-type.h"
#define E_URI "http://x.y/1/E"
#define NP 6
enum { P_I, P_S, P_X, P_F, P_T, P_M };
static char *sh_n[] = {"N"}, *sh_nm[] = {"N", "M+1"};
static DLiteDimension e_dims[] = {{"N", "first"}, {"M", NULL}};
static DLiteProperty e_props[NP] = {
  {"i", dliteInt, 1, NULL, 0, NULL, NULL, NULL},
  {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, "a string"},
  {"x", dliteFixString, 3, NULL, 0, NULL, NULL, NULL},
  {"f", dliteFloat, 8, NULL, 1, sh_n, "m", NULL},
  {"t", dliteStringPtr, sizeof(char *), NULL, 1, sh_n, NULL, NULL},
  {"m", dliteInt, 2, NULL, 2, sh_nm, NULL, NULL},
};
static DLiteMeta *mkmeta(void) { return dlite_meta_create(E_URI, "desc", 2, e_dims, NP, e_props); }
static char *sym_str(int n)   /* string of length n of any characters */
{ char *s; int i; if (n < 0) return NULL; s = malloc(n + 1); for (i=0; i<n; i++) { s[i] = nd_char(); ASSUME(s[i]); } s[n] = 0; return s; }
static int same_str(const char *a, const char *b, int n)
{ int i; if (n < 0) return !a && !b; if (!a || !b) return 0; for (i=0; i<=n; i++) if (a[i] != b[i]) return 0; return 1; }
typedef struct { int n, m; int8_t i; char *s; int sl; char x[3]; uint64_t f[3]; char *t[3]; int tl[3]; int16_t mm[6]; } Vals;
/* fills v with symbolic values for an n x m instance */
static void sym_vals(Vals *v, int n, int m, int sl)
{
  int k;
  v->n = n; v->m = m; v->i = nd_i8(); v->sl = sl; v->s = sym_str(sl);
  v->x[0] = nd_char(); v->x[1] = nd_char(); v->x[2] = 0;
  for (k=0; k<n; k++) { v->f[k] = nd_u64(); v->tl[k] = (k + sl) % 3 - 1; v->t[k] = sym_str(v->tl[k]); }
  for (k=0; k<n*(m+1); k++) v->mm[k] = nd_i16();
}
static void free_vals(Vals *v) { int k; free(v->s); for (k=0; k<v->n; k++) free(v->t[k]); }
static int set_vals(DLiteInstance *inst, Vals *v)
{
  return dlite_instance_set_property(inst, "i", &v->i) || dlite_instance_set_property(inst, "s", &v->s) ||
    dlite_instance_set_property(inst, "x", v->x) || dlite_instance_set_property(inst, "f", v->f) ||
    dlite_instance_set_property(inst, "t", v->t) || dlite_instance_set_property(inst, "m", v->mm);
}
/* the instance holds the values, in memory of its own */
static void check_vals(DLiteInstance *inst, Vals *v)
{
  int k;
  uint64_t *f = dlite_instance_get_property(inst, "f");
  char **t = dlite_instance_get_property(inst, "t");
  int16_t *m = dlite_instance_get_property(inst, "m");
  char *x = dlite_instance_get_property(inst, "x"), *s = *(char **)dlite_instance_get_property(inst, "s");
  CHECK(*(int8_t *)dlite_instance_get_property(inst, "i") == v->i, "integer");
  CHECK(same_str(s, v->s, v->sl) && (!s || s != v->s), "string");
  CHECK(x[0] == v->x[0] && x[1] == v->x[1] && x[2] == v->x[2], "fixed-size string");
  for (k=0; k<v->n; k++) CHECK(f[k] == v->f[k], "array of floats");
  for (k=0; k<v->n; k++) CHECK(same_str(t[k], v->t[k], v->tl[k]) && (!t[k] || t[k] != v->t[k]), "array of strings");
  for (k=0; k<v->n*(v->m+1); k++) CHECK(m[k] == v->mm[k], "two-dimensional array");
}
