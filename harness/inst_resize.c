/* Instances: changing dimensions. */
//@property I03
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_resize unwind=60 objbits=12 fs=400 cost=2 NC=4 /thorough NC=8 timeout=800
//@entry h_single unwind=60 objbits=12 fs=400 NQ=2 /thorough NQ=4
//@entry h_shrink unwind=60 objbits=12 fs=400
//@bound an entity with scalar, string, one- and two-dimensional properties, dimensions of 0 to 2 changed to 0 to 3 or left alone (negative), any values
#include "inst.h"
#ifndef NQ
#define NQ 1
#endif
#ifndef NC
#define NC 1
#endif
static const struct { int n, m, n2, m2; } cs[] = {{2,0,1,-1}, {1,1,3,-1}, {2,1,0,0}, {1,0,-1,1}, {0,0,2,1}, {2,1,-1,-1}, {1,1,2,0}, {3,0,1,2}};
static void check_resized(DLiteInstance *inst, Vals *v, int n, int m)
{
  int k, keep = v->n < n ? v->n : n;
  uint64_t *f = dlite_instance_get_property(inst, "f");
  char **t = dlite_instance_get_property(inst, "t");
  int16_t *mm = dlite_instance_get_property(inst, "m");
  CHECK(DLITE_DIM(inst, 0) == (size_t)n && DLITE_DIM(inst, 1) == (size_t)m && dlite_instance_get_dimension_size(inst, "N") == n && dlite_instance_get_dimension_size(inst, "M") == m, "dimensions");
  CHECK(DLITE_PROP_DIM(inst, P_F, 0) == (size_t)n && DLITE_PROP_DIM(inst, P_T, 0) == (size_t)n && DLITE_PROP_DIM(inst, P_M, 0) == (size_t)n && DLITE_PROP_DIM(inst, P_M, 1) == (size_t)m + 1, "shapes");
  CHECK(*(int8_t *)dlite_instance_get_property(inst, "i") == v->i && same_str(*(char **)dlite_instance_get_property(inst, "s"), v->s, v->sl), "scalars are untouched");
  CHECK((f != NULL) == (n > 0) && (t != NULL) == (n > 0) && (mm != NULL) == (n > 0), "empty arrays have no memory");
  for (k=0; k<n; k++) CHECK(f[k] == (k < keep ? v->f[k] : 0), "old elements are kept, new ones are zero");
  for (k=0; k<n; k++) CHECK(k < keep ? same_str(t[k], v->t[k], v->tl[k]) : t[k] == NULL, "old strings are kept, new ones are absent");
  for (k=0; k<n*(m+1); k++) if (m == v->m) CHECK(mm[k] == (k < keep*(m+1) ? v->mm[k] : 0), "rows are kept");
  for (k=0; k<n; k++) f[k] = nd_u64();
  for (k=0; k<n*(m+1); k++) mm[k] = nd_i16();
}
static void body(DLiteMeta *e, int n, int m, int n2, int m2)
{
  size_t dims[2]; int nd[2]; Vals v;
  dims[0] = n; dims[1] = m; nd[0] = n2; nd[1] = m2;
  DLiteInstance *inst = dlite_instance_create(e, dims, NULL);
  sym_vals(&v, n, m, 1);
  set_vals(inst, &v);
  CHECK(dlite_instance_set_dimension_sizes(inst, nd) == 0, "resized");
  check_resized(inst, &v, n2 < 0 ? n : n2, m2 < 0 ? m : m2);
  CHECK(dlite_instance_decref(inst) == 0, "released");
  free_vals(&v);
}
void h_resize(void)
{
  int q = nd_range(0, NC-1), i;
  DLiteMeta *e = mkmeta();
  for (i=0; i<NC; i++) if (i == q) { body(e, cs[i].n, cs[i].m, cs[i].n2, cs[i].m2); REACH("done"); return; }
}
/* one dimension by name or by index, twice */
void h_single(void)
{
  int q = nd_range(4-NQ, 3), i;
  DLiteMeta *e = mkmeta();
  size_t dims[2] = {1, 1}; Vals v;
  DLiteInstance *inst = dlite_instance_create(e, dims, NULL);
  sym_vals(&v, 1, 1, 1);
  set_vals(inst, &v);
  CHECK(dlite_instance_set_dimension_size(inst, "nosuch", 2) != 0 && dlite_instance_set_dimension_size_by_index(inst, 2, 2) != 0, "no such dimension");
  CHECK(dlite_instance_set_dimension_size((DLiteInstance *)e, "nproperties", 2) != 0, "dimensions of metadata cannot be changed");
  for (i=4-NQ; i<4; i++) {
    if (i != q) continue;
    if (i % 2) CHECK(dlite_instance_set_dimension_size(inst, "N", 3) == 0, "by name"); else CHECK(dlite_instance_set_dimension_size_by_index(inst, 0, 3) == 0, "by index");
    if (i > 1) CHECK(dlite_instance_set_dimension_size(inst, "N", 2) == 0, "again");
    check_resized(inst, &v, i > 1 ? 2 : 3, 1);
    REACH("done");
    return;
  }
}
/* what is removed is released */
static DLiteProperty q_props[1] = {{"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL}};
static DLiteProperty r_props[1] = {{"v", dliteRef, sizeof(void *), "http://x.y/1/Q", 1, sh_n, NULL, NULL}};
void h_shrink(void)
{
  size_t d[1] = {3}; int q = nd_range(0, 3), k, nd[1];
  DLiteMeta *m = dlite_meta_create("http://x.y/1/Q", NULL, 0, NULL, 1, q_props), *r = dlite_meta_create("http://x.y/1/R", NULL, 1, e_dims, 1, r_props);
  DLiteInstance *a = dlite_instance_create(m, NULL, "a"), *i = dlite_instance_create(r, d, "i"), *v[3], **w;
  v[0] = v[1] = v[2] = a;
  CHECK(!dlite_instance_set_property(i, "v", v) && a->_refcount == 4, "references are set");
  for (k=0; k<=3; k++) {
    if (k != q) continue;
    nd[0] = k;
    CHECK(!dlite_instance_set_dimension_sizes(i, nd), "resized");
    CHECK(a->_refcount == 1 + k, "each reference that is gone is released");
    nd[0] = 3;
    CHECK(!dlite_instance_set_dimension_sizes(i, nd), "resized again");
    w = dlite_instance_get_property(i, "v");
    CHECK(w[0] == (k > 0 ? a : NULL) && w[1] == (k > 1 ? a : NULL) && w[2] == (k > 2 ? a : NULL) && a->_refcount == 1 + k, "new references are absent");
    REACH("done");
    return;
  }
}
