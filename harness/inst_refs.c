/* Instances: the in-memory store and reference counts. */
//@property I05
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_refs unwind=60 objbits=12 fs=400 NOPS=2 safety=0 cost=2 /thorough NOPS=3 safety=1 timeout=800
//@entry h_ids unwind=60 objbits=12 fs=400
//@entry h_ids2 unwind=60 objbits=12 fs=400
//@entry h_free unwind=60 objbits=12 fs=400 checks=leak
//@entry h_refprop unwind=60 objbits=12 fs=400
//@entry h_fail unwind=60 objbits=12 fs=400
//@bound entities with a number, a string and references to instances; any order of creating, getting, referencing and releasing of two instances, bounded number of operations
#include "inst.h"
#ifndef NOPS
#define NOPS 2
#endif
static DLiteProperty q_props[2] = {
  {"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL},
  {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, NULL},
};
static DLiteMeta *mksmall(void) { return dlite_meta_create("http://x.y/1/Q", NULL, 0, NULL, 2, q_props); }
/* every order of references to two instances; the history is chosen by the solver, each choice is followed on its own */
static DLiteMeta *e;
static DLiteInstance *inst[2];
static void steps(int k, int rc, int n0, int n1)
{
  int op, c, n[2], w;
  DLiteInstance *p;
  CHECK(dlite_instance_has("a", 0) == (n0 ? inst[0] : NULL) && dlite_instance_has("b", 0) == (n1 ? inst[1] : NULL), "instances exist as long as they are referenced");
  if (n0) CHECK(inst[0]->_refcount == n0 && !strcmp(*(char **)dlite_instance_get_property(inst[0], "s"), "v"), "first instance");
  if (n1) CHECK(inst[1]->_refcount == n1 && !*(char **)dlite_instance_get_property(inst[1], "s"), "second instance");
  CHECK(e->_refcount == rc + (n0 > 0) + (n1 > 0), "references to metadata");
  if (!k) { REACH("end"); return; }
  c = nd_range(0, 5);
  for (op=0; op<6; op++) {
    if (op != c) continue;
    w = op & 1; n[0] = n0; n[1] = n1;
    if (op < 2) { if (n[w]) CHECK(dlite_instance_incref(inst[w]) == ++n[w], "incref returns the number of references"); }
    else if (op < 4) { if (n[w]) CHECK(dlite_instance_decref(inst[w]) == --n[w], "decref returns the number of references"); }
    else { p = dlite_instance_get(w ? "b" : "a"); if (n[w]) n[w]++; CHECK(p == (n[w] ? inst[w] : NULL), "get returns a new reference"); }
    steps(k-1, rc, n[0], n[1]);
    return;
  }
}
void h_refs(void)
{
  int rc;
  char *s = "v";
  e = mksmall(); rc = e->_refcount;
  inst[0] = dlite_instance_create(e, NULL, "a"); inst[1] = dlite_instance_create(e, NULL, "b");
  CHECK(inst[0] && inst[1] && inst[0] != inst[1], "instances are created with one reference");
  dlite_instance_set_property(inst[0], "s", &s);
  steps(NOPS, rc, 1, 1);
}
/* lookup by UUID or uri, creation with ids in use */
void h_ids(void)
{
  static const char *U = "01234567-89ab-cdef-0123-456789abcdef", *U2 = "01234567-89AB-CDEF-0123-456789abcdef";
  DLiteMeta *e = mkmeta();
  size_t d[2] = {1, 0}, d2[2];
  int rc = e->_refcount, x = nd_range(0, 3), k;
  DLiteInstance *a = dlite_instance_create(e, d, U), *b = dlite_instance_create(e, d, "b"), *c = dlite_instance_create(e, d, NULL), *p;
  CHECK(a && b && c && !strcmp(a->uuid, U) && !a->uri && !strcmp(b->uri, "b") && !c->uri, "ids");
  CHECK(dlite_instance_has(U, 0) == a && dlite_instance_has(U2, 0) == a && dlite_instance_has("b", 0) == b && dlite_instance_has(b->uuid, 0) == b && dlite_instance_has(c->uuid, 0) == c, "instances are found by UUID and by uri");
  CHECK(!dlite_instance_has("c", 0) && !dlite_instance_get("c") && a->_refcount == 1 && b->_refcount == 1 && c->_refcount == 1, "other ids are not found");
  CHECK(dlite_instance_has(E_URI, 0) == (DLiteInstance *)e && dlite_meta_get(E_URI) == e && e->_refcount == rc + 4, "metadata is found");
  dlite_meta_decref(e);
  for (k=0; k<4; k++) {
    if (k != x) continue;
    d2[0] = k & 1; d2[1] = k >> 1;
    p = dlite_instance_create(e, d2, "b");
    CHECK((p == b) == (k == 1) && (p == b || !p), "an existing instance is returned only if its dimensions are as asked for");
    CHECK(b->_refcount == 1 + (p != NULL) && e->_refcount == rc + 3, "and only then gets another reference");
    REACH("again");
    return;
  }
}
void h_ids2(void)
{
  DLiteMeta *e = mkmeta();
  size_t d[2] = {1, 0};
  int rc = e->_refcount;
  DLiteInstance *b = dlite_instance_create(e, d, "b"), *p;
  p = dlite_instance_create_from_id(E_URI, d, "n");
  CHECK(p && p->meta == e && e->_refcount == rc + 2, "created from the uri of the metadata");
  CHECK(!dlite_instance_create_from_id("http://x.y/1/none", d, "n2"), "unknown metadata");
  CHECK(!dlite_instance_get_casted("b", "http://x.y/1/none") && b->_refcount == 1, "no such mapping");
  CHECK(dlite_instance_get_casted("b", NULL) == b && b->_refcount == 2, "no mapping needed");
  REACH("done");
}
/* everything is released with the store */
void h_free(void)
{
  DLiteMeta *e = mksmall();
  DLiteInstance *a = dlite_instance_create(e, NULL, "a"), *b;
  char *s = sym_str(1);
  dlite_instance_set_property(a, "s", &s);
  b = dlite_instance_copy(a, NULL);
  dlite_instance_set_property(a, "s", &s);
  dlite_instance_decref(a);
  dlite_instance_decref(b);
  free(s);
  dlite_meta_decref(e);
  dlite_globals_remove_state("dlite-instance-store");
  CHECK(1, "done");
  REACH("done");
}
/* properties referring to instances hold references */
void h_refprop(void)
{
  static DLiteProperty p[2] = {{"r", dliteRef, sizeof(void *), "http://x.y/1/Q", 0, NULL, NULL, NULL}, {"v", dliteRef, sizeof(void *), "http://x.y/1/Q", 1, sh_n, NULL, NULL}};
  size_t d[1] = {2};
  DLiteMeta *q = mksmall(), *r = dlite_meta_create("http://x.y/1/R", NULL, 1, e_dims, 2, p);
  DLiteInstance *a = dlite_instance_create(q, NULL, "a"), *b = dlite_instance_create(q, NULL, "b"), *i = dlite_instance_create(r, d, "i"), *c, *n = NULL, *v[2];
  int k = nd_range(0, 1), x, nd[1] = {1};
  v[0] = a; v[1] = b;
  CHECK(!dlite_instance_set_property(i, "r", &a) && !dlite_instance_set_property(i, "v", v), "references are set");
  CHECK(a->_refcount == 3 && b->_refcount == 2, "each holds a reference");
  CHECK(!dlite_instance_set_property(i, "r", &a) && a->_refcount == 3, "setting it again changes nothing");
  CHECK(!dlite_instance_set_property(i, "r", &b) && a->_refcount == 2 && b->_refcount == 3, "replaced references are released");
  c = dlite_instance_copy(i, "c");
  CHECK(c && a->_refcount == 3 && b->_refcount == 5, "copies hold references of their own");
  for (x=0; x<2; x++) {
    if (x != k) continue;
    if (x) { CHECK(!dlite_instance_set_dimension_sizes(c, nd) && b->_refcount == 4 && a->_refcount == 3, "shrinking releases references"); b->_refcount++; }
    dlite_instance_decref(c);
    CHECK(b->_refcount == 3 + x && a->_refcount == 2, "references are released with the instance");
    CHECK(!dlite_instance_set_property(i, "r", &n), "reference is cleared");
    CHECK(b->_refcount == 2 + x && *(DLiteInstance **)dlite_instance_get_property(i, "r") == NULL, "cleared");
    dlite_instance_decref(a);
    CHECK(dlite_instance_has("a", 0) == a && a->_refcount == 1, "a referenced instance stays alive");
    dlite_instance_decref(i);
    CHECK(!dlite_instance_has("a", 0) && dlite_instance_has("b", 0) == b && b->_refcount == 1 + x, "until its last reference is gone");
    REACH("done");
    return;
  }
}
/* failing to create an instance leaves nothing behind */
static int init_fails(DLiteInstance *inst) { (void)inst; return -1; }
void h_fail(void)
{
  DLiteMeta *e = mksmall();
  int rc = e->_refcount;
  DLiteInstance *a = dlite_instance_create(e, NULL, "a");
  CHECK(a && e->_refcount == rc + 1, "first instance");
  e->_init = init_fails;
  CHECK(!dlite_instance_create(e, NULL, "b"), "instance cannot be initialised");
  CHECK(e->_refcount == rc + 1 && !dlite_instance_has("b", 0) && dlite_instance_has("a", 0) == a && a->_refcount == 1, "nothing is left behind, and nothing else released");
  REACH("done");
}
