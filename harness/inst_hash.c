/* Hashes of instances and metadata. */
//@property I06
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_data safety=0 unwind=60 unwindset=keep.0:260,same.0:260 objbits=12 fs=600 VH_SHA3=1 cost=2 /thorough safety=1
//@entry h_same safety=0 unwind=60 unwindset=keep.0:260,same.0:260 objbits=12 fs=600 VH_SHA3=1 /thorough safety=1
//@entry h_lists unwind=60 unwindset=keep.0:260,same.0:260 objbits=12 fs=600 VH_SHA3=1 safety=0
//@entry h_boundary known=hash-string-boundary unwind=60 unwindset=keep.0:260,same.0:260 objbits=12 fs=600 VH_SHA3=1 safety=0
//@entry h_items unwind=24 objbits=10 VH_SHA3=1
//@assume the hash function is replaced by a recorder of what is hashed: equal hashes stand for equal streams of bytes
//@bound an entity with all plain kinds of properties and one dimension changed at a time, any numbers, strings of up to 2 characters; any one field of dimensions, properties and relations changed
#include "inst.h"
#include "utils/sha3.h"
#define MAXB 400
static unsigned char rec[MAXB]; static int nrec;
sha3_return_t sha3_Init(sha3_context *p, unsigned b) { (void)p; (void)b; nrec = 0; return 0; }
enum SHA3_FLAGS sha3_SetFlags(sha3_context *p, enum SHA3_FLAGS f) { (void)p; return f; }
void sha3_Update(sha3_context *p, void const *b, size_t n) { size_t i; (void)p; for (i=0; i<n; i++) { ASSUME(nrec < MAXB); rec[nrec++] = ((const unsigned char *)b)[i]; } }
static unsigned char dig[64];
void const *sha3_Finalize(sha3_context *p) { (void)p; return dig; }
static unsigned char rec0[MAXB]; static int nrec0;
static void keep(void) { int i; nrec0 = nrec; for (i=0; i<nrec; i++) rec0[i] = rec[i]; }
static int same(void) { int i; if (nrec != nrec0) return 0; for (i=0; i<nrec; i++) if (rec[i] != rec0[i]) return 0; return 1; }
static void hash(DLiteInstance *inst) { uint8_t h[32]; CHECK(dlite_instance_get_hash(inst, h, 32) == 0, "hash"); }
static char *S[] = {"", "p", "q", "pq"};
static void fill(DLiteInstance *inst)
{
  int8_t i = nd_i8(); char x[3]; uint64_t f[2]; char *t[2] = {"k", NULL}; int16_t m[4]; int k;
  x[0] = nd_char(); x[1] = nd_char(); x[2] = 0;
  for (k=0; k<2; k++) f[k] = nd_u64();
  for (k=0; k<4; k++) m[k] = nd_i16();
  dlite_instance_set_property(inst, "i", &i); dlite_instance_set_property(inst, "s", &S[1]); dlite_instance_set_property(inst, "x", x);
  dlite_instance_set_property(inst, "f", f); dlite_instance_set_property(inst, "t", t); dlite_instance_set_property(inst, "m", m);
}
/* changing one value changes the hash, setting it to what it is does not */
void h_data(void)
{
  DLiteMeta *e = mkmeta();
  size_t d[2] = {2, 1};
  DLiteInstance *inst = dlite_instance_create(e, d, "a");
  int q = nd_range(0, 9), k, eq, z;
  fill(inst);
  hash(inst); keep();
  for (k=0; k<10; k++) {
    if (k != q) continue;
    if (k == 0) { int8_t *p = dlite_instance_get_property(inst, "i"), o = *p; *p = nd_i8(); eq = *p == o; }
    else if (k == 1) { char *p = dlite_instance_get_property(inst, "x"), o = p[0]; p[0] = nd_char(); eq = p[0] == o; }
    else if (k < 4) { uint64_t *p = dlite_instance_get_property(inst, "f"), o = p[k-2]; p[k-2] = nd_u64(); eq = p[k-2] == o; }
    else if (k == 4) { int16_t *p = dlite_instance_get_property(inst, "m"), o = p[3]; p[3] = nd_i16(); eq = p[3] == o; }
    else if (k < 8) { z = k - 5; if (z) z++; dlite_instance_set_property(inst, "s", &S[z]); eq = 0; }
    else if (k == 8) { char *t[2] = {"k", "p"}; dlite_instance_set_property(inst, "t", t); eq = 0; }
    else { int n[2] = {2, 0}; dlite_instance_set_dimension_sizes(inst, n); eq = 0; }
    hash(inst);
    CHECK(same() == eq, "a changed value changes the hash");
    if (eq) REACH("same"); else REACH("changed");
    return;
  }
}
/* equal content gives equal hashes; parents are part of the content */
void h_same(void)
{
  DLiteMeta *e = mkmeta();
  size_t d[2] = {2, 1};
  DLiteInstance *a = dlite_instance_create(e, d, "a"), *b, *c;
  fill(a);
  b = dlite_instance_copy(a, "b"); c = dlite_instance_copy(a, NULL);
  hash(a); keep(); hash(a);
  CHECK(same(), "the hash is reproducible");
  hash(b);
  CHECK(same(), "a copy has the same hash");
  dlite_instance_freeze(b);
  hash(b);
  CHECK(same(), "a frozen instance has the same hash");
  CHECK(dlite_instance_set_parent(c, b) == 0, "parent");
  hash(c);
  CHECK(!same(), "an instance with a parent has another hash");
  keep();
  { int k = nd_range(0, DLITE_HASH_SIZE-1); uint8_t o = c->_parent->hash[k]; c->_parent->hash[k] = nd_u8(); hash(c); CHECK(same() == (o == c->_parent->hash[k]), "the hash of the parent is part of the hash"); }
  REACH("done");
}
/* dimensions, properties and relations */
static char *any(int z) { return z == 0 ? NULL : z == 1 ? "p" : z == 2 ? "q" : "pq"; }
void h_items(void)
{
  sha3_context c;
  int kind = nd_range(0, 2), f = nd_range(0, 5), k, z = nd_range(0, 3), y = nd_range(0, 3), a, b, eq;
  for (k=0; k<6; k++) for (a=0; a<4; a++) for (b=0; b<4; b++) {
    if (k != f || a != z || b != y) continue;
    eq = a == b;
    sha3_Init(&c, 256);
    if (kind == 0) {
      DLiteDimension d = {"n", "x"};
      if (k > 1 || (k == 0 && (!a || !b))) return;
      if (k) d.description = any(a); else d.name = any(a);
      dlite_type_update_sha3(&c, &d, dliteDimension, sizeof(d)); keep(); sha3_Init(&c, 256);
      if (k) d.description = any(b); else d.name = any(b);
      dlite_type_update_sha3(&c, &d, dliteDimension, sizeof(d));
      REACH("dimension");
    } else if (kind == 1) {
      char *sh[2] = {"N", "M"};
      DLiteProperty p = {"n", dliteInt, 4, NULL, 2, sh, "u", "d"};
      if (k == 0 && (!a || !b)) return;
      if (k == 3 && (!a || !b)) return;
      if (k == 0) p.name = any(a); else if (k == 1) p.unit = any(a); else if (k == 2) p.description = any(a); else if (k == 3) sh[1] = any(a);
      dlite_type_update_sha3(&c, &p, dliteProperty, sizeof(p)); keep(); sha3_Init(&c, 256);
      if (k == 0) p.name = any(b); else if (k == 1) p.unit = any(b); else if (k == 2) p.description = any(b); else if (k == 3) sh[1] = any(b);
      else if (k == 4) { size_t s = nd_range(1, 16); eq = s == p.size; p.size = s; }
      else { int t = nd_range(dliteBlob, dliteFixString); ASSUME(!dlite_type_is_allocated(t)); eq = t == dliteInt; p.type = t; }
      dlite_type_update_sha3(&c, &p, dliteProperty, sizeof(p));
      REACH("property");
    } else {
      DLiteRelation r = {"s", "p", "o", "d", "i"};
      if (k > 2) return;
      if (k == 0) r.s = any(a); else if (k == 1) r.p = any(a); else r.o = any(a);
      dlite_type_update_sha3(&c, &r, dliteRelation, sizeof(r)); keep(); sha3_Init(&c, 256);
      if (k == 0) r.s = any(b); else if (k == 1) r.p = any(b); else r.o = any(b);
      dlite_type_update_sha3(&c, &r, dliteRelation, sizeof(r));
      REACH("relation");
    }
    CHECK(same() == eq, "each field is part of the hash");
    return;
  }
}
/* arrays of strings */
static void lists(int known)
{
  static DLiteProperty p[1] = {{"t", dliteStringPtr, sizeof(char *), NULL, 1, sh_n, NULL, NULL}};
  DLiteMeta *e = dlite_meta_create("http://x.y/1/Q", NULL, 1, e_dims, 1, p);
  size_t d[1] = {2};
  DLiteInstance *inst = dlite_instance_create(e, d, "a");
  char *t[2];
  int q = nd_range(0, 5), k;
  static const int v[6][2] = {{1,2}, {2,1}, {1,1}, {3,1}, {2,3}, {3,0}};   /* the last one has the same characters as the first */
  t[0] = S[1]; t[1] = S[2];
  dlite_instance_set_property(inst, "t", t);
  hash(inst); keep();
  if (known) ASSUME(q == 5); else ASSUME(q != 5);
  for (k=0; k<6; k++) {
    if (k != q) continue;
    t[0] = S[v[k][0]]; t[1] = S[v[k][1]];
    dlite_instance_set_property(inst, "t", t);
    hash(inst);
    CHECK(same() == (k == 0), "different lists of strings have different hashes");
    if (!known) REACH("done");
    return;
  }
}
void h_lists(void) { lists(0); }
void h_boundary(void) { lists(1); }
