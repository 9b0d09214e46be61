/* Instances: setting, getting, copying of property values. */
//@property I02
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_set unwind=60 objbits=12 fs=400 cost=2 NQ=2 /thorough NQ=5
//@entry h_copy unwind=60 objbits=12 fs=400 cost=2 NQ=2 /thorough NQ=5
//@entry h_frozen unwind=60 objbits=12 fs=400
//@entry h_ref unwind=60 objbits=12 fs=400
//@bound an entity with scalar, string, fixed-size string, one- and two-dimensional properties, dimensions of 0 to 2, any numbers and any strings of up to 1 character (or absent); values set twice
#include "inst.h"
#ifndef NQ
#define NQ 1
#endif
static const int shape[5][3] = {{2,1,1}, {0,0,-1}, {1,1,1}, {2,1,-1}, {0,0,1}};
static void set1(DLiteMeta *e, int n, int m, int sl)
{
  size_t dims[2]; Vals v, w;
  int k;
  dims[0] = n; dims[1] = m;
  DLiteInstance *inst = dlite_instance_create(e, dims, NULL);
  CHECK(inst, "created");
  sym_vals(&v, n, m, sl);
  CHECK(set_vals(inst, &v) == 0, "values are set");
  check_vals(inst, &v);
  sym_vals(&w, n, m, -sl);
  CHECK(set_vals(inst, &w) == 0, "values are replaced");
  free_vals(&v);
  check_vals(inst, &w);
  k = nd_int();
  CHECK(dlite_instance_set_property(inst, "nosuch", &k) != 0 && dlite_instance_set_property_by_index(inst, NP, &k) != 0, "no such property");
  check_vals(inst, &w);
  CHECK(dlite_instance_decref(inst) == 0, "released");
  free_vals(&w);
}
#define SHAPES(fun) int q = nd_range(0, NQ-1), i; DLiteMeta *e = mkmeta(); \
  for (i=0; i<NQ; i++) if (i == q) { fun(e, shape[i][0], shape[i][1], shape[i][2]); REACH("done"); return; }
void h_set(void) { SHAPES(set1) }
static void copy1(DLiteMeta *e, int n, int m, int sl)
{
  size_t dims[2]; Vals v, w;
  int rc = e->_refcount;
  dims[0] = n; dims[1] = m;
  DLiteInstance *inst = dlite_instance_create(e, dims, "a"), *c;
  sym_vals(&v, n, m, sl);
  set_vals(inst, &v);
  c = dlite_instance_copy(inst, "b");
  CHECK(c && c != inst && c->meta == e && !strcmp(c->uri, "b") && strcmp(c->uuid, inst->uuid), "a copy is a new instance of the same metadata");
  CHECK(DLITE_DIM(c, 0) == (size_t)n && DLITE_DIM(c, 1) == (size_t)m, "dimensions are copied");
  check_vals(c, &v);
  sym_vals(&w, n, m, -sl);
  CHECK(set_vals(inst, &w) == 0, "original is changed");
  check_vals(c, &v);
  dlite_instance_decref(inst);
  check_vals(c, &v);
  CHECK(c->_refcount == 1 && dlite_instance_has("b", 0) == c, "copy stays");
  dlite_instance_decref(c);
  CHECK(e->_refcount == rc, "references to metadata are balanced");
  free_vals(&v); free_vals(&w);
}
void h_copy(void) { SHAPES(copy1) }
void h_frozen(void)
{
  size_t dims[2] = {1, 0}; int nd[2] = {2, 1};
  Vals v, w;
  DLiteMeta *e = mkmeta();
  DLiteInstance *inst = dlite_instance_create(e, dims, "a"), *c;
  sym_vals(&v, 1, 0, 1);
  set_vals(inst, &v);
  CHECK(!dlite_instance_is_frozen(inst), "instances can be changed at first");
  dlite_instance_freeze(inst);
  CHECK(dlite_instance_is_frozen(inst), "frozen");
  sym_vals(&w, 1, 0, 0);
  CHECK(dlite_instance_set_property(inst, "i", &w.i) && dlite_instance_set_property(inst, "s", &w.s) && dlite_instance_set_property(inst, "x", w.x) &&
        dlite_instance_set_property(inst, "f", w.f) && dlite_instance_set_property(inst, "t", w.t) && dlite_instance_set_property(inst, "m", w.mm), "no property of a frozen instance can be set");
  CHECK(dlite_instance_set_dimension_sizes(inst, nd) && dlite_instance_set_dimension_size(inst, "N", 0) && dlite_instance_set_dimension_size_by_index(inst, 1, 2), "no dimension of a frozen instance can be changed");
  CHECK(dlite_instance_set_parent(inst, inst), "a frozen instance gets no parent");
  CHECK(dlite_instance_is_frozen(inst), "still frozen");
  check_vals(inst, &v);
  CHECK(DLITE_DIM(inst, 0) == 1 && DLITE_DIM(inst, 1) == 0, "dimensions are unchanged");
  c = dlite_instance_copy(inst, NULL);
  CHECK(c && !dlite_instance_is_frozen(c), "a copy can be changed");
  CHECK(set_vals(c, &w) == 0, "a copy can be changed");
  check_vals(c, &w);
  check_vals(inst, &v);
  REACH("done");
}
/* properties that refer to other instances accept only instances of the right metadata */
void h_ref(void)
{
  static DLiteProperty p[2] = {{"r", dliteRef, sizeof(void *), E_URI, 0, NULL, NULL, NULL}, {"v", dliteRef, sizeof(void *), E_URI, 1, sh_n, NULL, NULL}};
  static DLiteProperty p2[1] = {{"k", dliteInt, 4, NULL, 0, NULL, NULL, NULL}};
  size_t dims[2] = {1, 0}, d2[2] = {2, 0};
  DLiteMeta *e = mkmeta(), *o = dlite_meta_create("http://x.y/1/O", NULL, 0, NULL, 1, p2), *r = dlite_meta_create("http://x.y/1/R", NULL, 1, e_dims, 2, p);
  CHECK(e && o && r, "metadata");
  DLiteInstance *a = dlite_instance_create(e, dims, NULL), *b = dlite_instance_create(o, NULL, NULL), *i = dlite_instance_create(r, d2, NULL), *q[2], *z;
  int k = nd_range(0, 2), l = nd_range(0, 2), x, y;
  for (x=0; x<3; x++) for (y=0; y<3; y++) {
    if (x != k || y != l) continue;
    q[0] = x == 0 ? a : x == 1 ? b : NULL; q[1] = y == 0 ? a : y == 1 ? b : NULL;
    z = q[0];
    CHECK((dlite_instance_set_property(i, "r", &z) == 0) == (x != 1), "a reference is accepted if it refers to the right kind of instance or to none");
    CHECK((dlite_instance_set_property(i, "v", q) == 0) == (x != 1 && y != 1), "every element of an array of references is checked");
    CHECK(*(DLiteInstance **)dlite_instance_get_property(i, "r") == (x == 0 ? a : NULL), "value");
    REACH("done");
    return;
  }
}
