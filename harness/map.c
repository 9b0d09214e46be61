/* Hash map. */
//@property M01
//@sources src/utils/map.c
//@entry h_hist#1 unwind=12 fs=300 NOPS=3 LO=0 HI=3 objbits=12 cost=2 /thorough NOPS=4 objbits=14
//@entry h_hist#2 unwind=12 fs=300 NOPS=3 LO=3 HI=6 objbits=12 cost=2 /thorough NOPS=4 objbits=14
//@entry h_grow unwind=9
//@bound every history of NOPS set/remove operations on three keys (two of which have the same hash), any values, then lookup of every key and a complete iteration; h_grow: five insertions and one removal
#include "vh.h"
#include "map.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef LO
#define LO 0
#define HI 6
#endif
static const char *const keys[] = {"0c", "key", "1B"};
static void body(const int *op)
{
  map_int_t m;
  int val[3], live[3] = {0, 0, 0}, i, n = 0;
  map_init(&m);
  for (i=0; i<NOPS; i++) {
    int k = op[i]/2;
    if (op[i] % 2) { map_remove(&m, keys[k]); live[k] = 0; }
    else { val[k] = nd_int(); live[k] = 1; CHECK(map_set(&m, keys[k], val[k]) == 0, "set succeeds"); }
  }
  for (i=0; i<3; i++) {
    int *p = map_get(&m, keys[i]);
    n += live[i];
    if (live[i]) CHECK(p && *p == val[i], "get returns the last value set");
    else CHECK(p == NULL, "a key that was not set, or was removed, is not found");
  }
  const char *k;
  map_iter_t it = map_iter(&m);
  int seen[3] = {0, 0, 0}, tot = 0;
  while (tot < 5 && (k = map_next(&m, &it))) {
    tot++;
    for (i=0; i<3; i++) if (!strcmp(keys[i], k)) seen[i]++;
  }
  CHECK(tot == n, "iteration gives every key once");
  for (i=0; i<3; i++) CHECK(seen[i] == live[i], "iteration gives the live keys");
  map_deinit(&m);
}
void h_hist(void)
{
  int op[4] = {0}, sel[4], i;
  for (i=0; i<NOPS; i++) sel[i] = nd_range(0, 5);
  for (op[0]=LO; op[0]<HI; op[0]++) { if (sel[0] != op[0]) continue;
  for (op[1]=0; op[1]<6; op[1]++) { if (sel[1] != op[1]) continue;
  for (op[2]=0; op[2]<6; op[2]++) { if (sel[2] != op[2]) continue;
#if NOPS > 3
  for (op[3]=0; op[3]<6; op[3]++) { if (sel[3] != op[3]) continue;
#endif
    body(op);
    if (op[0] == LO && op[1] == 4 && op[2] == 2) REACH("some history");
    return;
#if NOPS > 3
  }
#endif
  } } }
}
void h_grow(void)
{
  map_int_t m;
  int i, d, v[5], del = nd_range(0, 4);
  static const char *const k[] = {"a", "b", "", "abc", "q"};
  for (d=0; d<5; d++) if (del == d) {
    map_init(&m);
    for (i=0; i<5; i++) { v[i] = nd_int(); map_set(&m, k[i], v[i]); }
    map_remove(&m, k[d]);
    for (i=0; i<5; i++) {
      int *p = map_get(&m, k[i]);
      if (i == d) CHECK(p == NULL, "removed"); else CHECK(p && *p == v[i], "survives growing");
    }
    if (d == 3) REACH("five keys");
    map_deinit(&m);
    return;
  }
}
