/* Transactions: snapshots, parents and their verification. */
//@property I07
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_snap unwind=80 objbits=12 fs=600 VH_SHA3=1 cost=2
//@entry h_parent unwind=80 objbits=12 fs=600 VH_SHA3=1
//@assume the hash function is replaced by one that changes whenever a single number or identifier changes; random snapshot ids are distinct
//@bound two snapshots of an instance with any numbers, any single ancestor changed afterwards, parents replaced twice
#include "inst.h"
#include "utils/sha3.h"
#include "utils/rng.h"
static unsigned char dig[64]; static int npos;
sha3_return_t sha3_Init(sha3_context *p, unsigned b) { int i; (void)p; (void)b; for (i=0; i<64; i++) dig[i] = 0; npos = 0; return 0; }
enum SHA3_FLAGS sha3_SetFlags(sha3_context *p, enum SHA3_FLAGS f) { (void)p; return f; }
void sha3_Update(sha3_context *p, void const *b, size_t n) { size_t i; (void)p; for (i=0; i<n; i++) { dig[npos % 32] ^= ((const unsigned char *)b)[i] + npos/32; npos++; } }
void const *sha3_Finalize(sha3_context *p) { (void)p; return dig; }
static uint32_t rcount;
uint32_t rand_msws32(void) { return rcount++; }
static DLiteProperty q_props[1] = {{"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL}};
static DLiteMeta *mksmall(void) { return dlite_meta_create("http://x.y/1/Q", NULL, 0, NULL, 1, q_props); }
static int32_t *val(const DLiteInstance *i) { return dlite_instance_get_property(i, "i"); }
void h_snap(void)
{
  DLiteMeta *e = mksmall();
  int rc = e->_refcount, k, q = nd_range(0, 3);
  int32_t v[3], w;
  uint8_t h[DLITE_HASH_SIZE];
  DLiteInstance *inst = dlite_instance_create(e, NULL, "a");
  const DLiteInstance *s[3];
  CHECK(!dlite_instance_has_parent(inst) && dlite_instance_get_snapshot(inst, 0) == inst && !dlite_instance_get_snapshot(inst, 1), "no snapshots at first");
  for (k=0; k<3; k++) {
    v[k] = nd_i32();
    CHECK(dlite_instance_set_property(inst, "i", v + k) == 0, "instance can be changed");
    if (k < 2) CHECK(dlite_instance_snapshot(inst) == 0, "snapshot");
  }
  for (k=0; k<3; k++) {
    s[k] = dlite_instance_get_snapshot(inst, k);
    CHECK(s[k] && *val(s[k]) == v[2-k], "snapshots hold the values at their time");
    if (k) CHECK(dlite_instance_is_frozen(s[k]) && s[k]->_refcount == 1 && !strncmp(s[k]->uri, "a#snapshot-", 11) && strlen(s[k]->uri) == 23 && dlite_instance_has(s[k]->uri, 0) == s[k], "snapshots are immutable instances of their own");
  }
  CHECK(s[0] == inst && s[1] != inst && s[2] != s[1] && s[2] != inst, "snapshots are different instances");
  CHECK(!dlite_instance_get_snapshot(inst, 3) && !dlite_instance_get_snapshot(inst, -1), "no more snapshots");
  CHECK(!dlite_instance_is_frozen(inst) && dlite_instance_has_parent(inst) && e->_refcount == rc + 3, "the instance stays mutable");
  CHECK(dlite_instance_verify_transaction(inst) == 0 && dlite_instance_verify_hash(inst, NULL, 0) == 0 && dlite_instance_verify_hash(inst, NULL, 1) == 0, "transaction is valid");
  dlite_instance_get_hash(inst, h, DLITE_HASH_SIZE);
  CHECK(dlite_instance_verify_hash(inst, h, 1) == 0, "hash is verified");
  for (k=0; k<4; k++) {
    if (k != q) continue;
    w = nd_i32();
    if (k < 3) {
      *val(s[k]) = w;
      CHECK((dlite_instance_verify_transaction(inst) == 0) == (k == 0 || w == v[2-k]), "any change of an ancestor is detected");
      CHECK((dlite_instance_verify_hash(inst, NULL, 0) == 0) == (k != 1 || w == v[1]), "a change of the parent is detected");
      CHECK((dlite_instance_verify_hash(inst, h, 0) == 0) == (k != 0 || w == v[2]), "a change of the instance itself is detected by its hash");
      CHECK((dlite_instance_verify_hash(inst, h, 1) == 0) == (w == v[2-k]), "any change is detected by the hash");
      if (w == v[2-k]) REACH("same"); else REACH("changed");
    } else {
      dlite_instance_decref(inst);
      CHECK(e->_refcount == rc && !dlite_instance_has("a", 0), "snapshots are released with the instance");
      REACH("released");
    }
    return;
  }
}
void h_parent(void)
{
  DLiteMeta *e = mksmall();
  DLiteInstance *inst = dlite_instance_create(e, NULL, "a"), *p = dlite_instance_create(e, NULL, "p"), *o = dlite_instance_create(e, NULL, "o"), *c;
  int32_t x = nd_i32(), y = nd_i32();
  *val(p) = x; *val(o) = y;
  CHECK(dlite_instance_set_parent(inst, p) != 0 && p->_refcount == 1 && !dlite_instance_has_parent(inst), "a mutable instance cannot be a parent");
  dlite_instance_freeze(p); dlite_instance_freeze(o);
  CHECK(dlite_instance_set_parent(inst, p) == 0 && p->_refcount == 2 && dlite_instance_get_snapshot(inst, 1) == p, "parent");
  CHECK(!strcmp(inst->_parent->uuid, p->uuid), "parent id");
  CHECK(dlite_instance_set_parent(inst, p) == 0 && p->_refcount == 2, "setting it again changes nothing");
  c = dlite_instance_copy(inst, "c");
  CHECK(c && p->_refcount == 3 && dlite_instance_get_snapshot(c, 1) == p, "a copy has the same parent");
  CHECK(dlite_instance_set_parent(inst, o) == 0 && p->_refcount == 2 && o->_refcount == 2 && dlite_instance_get_snapshot(inst, 1) == o && !strcmp(inst->_parent->uuid, o->uuid), "the parent is replaced");
  CHECK(dlite_instance_verify_transaction(inst) == 0 && dlite_instance_verify_transaction(c) == 0, "valid");
  dlite_instance_freeze(inst);
  CHECK(dlite_instance_set_parent(inst, p) != 0 && p->_refcount == 2 && dlite_instance_get_snapshot(inst, 1) == o, "the parent of an immutable instance cannot be replaced");
  CHECK(dlite_instance_snapshot(inst) != 0, "no snapshots of immutable instances");
  dlite_instance_decref(p);
  CHECK(dlite_instance_has("p", 0) == p, "a parent stays alive");
  dlite_instance_decref(c);
  CHECK(!dlite_instance_has("p", 0), "until its children are gone");
  dlite_instance_decref(inst);
  CHECK(o->_refcount == 1, "references to parents are released");
  REACH("done");
}
