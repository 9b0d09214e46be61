/* Allocated string lists. */
//@property S05
//@sources src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_insert#small unwind=8 N=3 /thorough unwind=10 N=5
//@entry h_insert#chunk unwind=40 N=33 FIXN=1 cost=3
//@entry h_insert#chunk31 unwind=40 N=31 FIXN=1 cost=3
//@entry h_insert#chunk32 unwind=40 N=32 FIXN=1 cost=3
//@entry h_remove unwind=8 N=3 /thorough unwind=10 N=6
//@bound lists of up to N single-letter strings; list lengths around the allocation chunk of 32
#include "vh.h"
#include "strutils.h"
#ifndef N
#define N 3
#endif
static char nm(int i) { return 'A' + i; }
static char **mk(size_t *n, int len)
{
  char **lst = NULL, s[2] = {0, 0};
  int i;
  for (i=0; i<len; i++) { s[0] = nm(i); lst = strlst_append(lst, n, s); ASSUME(lst != NULL); }
  return lst;
}
/* insert behaves like Python's list.insert(), except that an index out of range appends */
static void insert_case(int len)
{
  size_t n = 0;
  int i = nd_int(), k, at;
  char **lst;
  lst = mk(&n, len);
  CHECK((int)strlst_count(lst) == len, "count");
  lst = strlst_insert(lst, &n, "z", i);
  CHECK(lst != NULL && n >= (size_t)len + 2, "allocated size");
  at = (i >= 0 && i <= len) ? i : (i < 0 && i + len >= 0 && i >= -len) ? i + len : len;
  CHECK((int)strlst_count(lst) == len + 1, "one element more");
  for (k=0; k<=len; k++) {
    const char *e = strlst_get(lst, k);
    char w = (k < at) ? nm(k) : (k == at) ? 'z' : nm(k-1);
    CHECK(e && e[0] == w && !e[1], "element");
  }
  if (at < len) REACH("in the middle"); else REACH("at the end");
  strlst_free(lst);
}
void h_insert(void)
{
  int len = nd_range(0, N), k;
#ifdef FIXN
  k = N;
#else
  k = 0;
#endif
  for (; k<=N; k++) if (len == k) { insert_case(k); return; }
}
static void remove_case(int len)
{
  size_t n = 0;
  int i = nd_range(-N-2, N+2), k, at, pop = nd_range(0, 1);
  char **lst = mk(&n, len);
  const char *e;
  at = (i < 0) ? i + len : i;
  e = strlst_get(lst, i);
  if (at >= 0 && at < len) CHECK(e && e[0] == nm(at), "get"); else CHECK(!e, "get out of range");
  if (pop) {
    char *p = strlst_pop(lst, i);
    if (at >= 0 && at < len) { REACH("popped"); CHECK(p && p[0] == nm(at) && !p[1], "popped string"); free(p); }
    else { CHECK(!p, "pop out of range"); at = -1; }
  } else {
    int r = strlst_remove(lst, i);
    if (at >= 0 && at < len) { REACH("removed"); CHECK(r == 0, "removed"); }
    else { CHECK(r != 0, "remove out of range"); at = -1; }
  }
  if (at >= 0) len--;
  CHECK((int)strlst_count(lst) == len, "count after removal");
  for (k=0; k<len; k++) {
    int w = (at >= 0 && k >= at) ? k+1 : k;
    e = strlst_get(lst, k);
    CHECK(e && e[0] == nm(w), "remaining elements keep their order");
  }
  strlst_free(lst);
}
void h_remove(void)
{
  int len = nd_range(1, N), k;
  for (k=1; k<=N; k++) if (len == k) { remove_case(k); return; }
}
