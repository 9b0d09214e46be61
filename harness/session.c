/* Sessions and their global states. */
//@property M02
//@sources src/utils/session.c src/utils/map.c
//@stubs err
//@entry h_states unwind=18 objbits=12 NOPS=2 fs=300 cost=2 /thorough NOPS=3 unwind=18 objbits=14
//@entry h_sessions unwind=24 objbits=12 fs=300
//@bound every history of NOPS add/remove operations on two states of a session, one of which may have a NULL pointer; two sessions, freed in either order
#include "vh.h"
#include "session.h"
#ifndef NOPS
#define NOPS 3
#endif
static int freed[2]; static char obj[2];
static int nul = -1;   /* state with a NULL pointer, if any */
static void fr(void *p) { freed[p ? (char *)p - obj : nul]++; }
static void *ptr(int k) { return k == nul ? NULL : obj + k; }
static const char *const nm[] = {"st", "other"};
static void body(const int *op)
{
  int i, live[2] = {0,0}, rel[2] = {0,0};
  Session *s = session_create("s");
  CHECK(s && session_get("s") == s, "created session is found");
  freed[0] = freed[1] = 0;
  for (i=0; i<NOPS; i++) {
    int k = op[i]/2, r;
    if (op[i] % 2 == 0) { r = session_add_state(s, nm[k], ptr(k), fr); CHECK((r == 0) == !live[k], "a state is added once"); live[k] = 1; }
    else { r = session_remove_state(s, nm[k]); CHECK((r == 0) == live[k], "an existing state is removed"); rel[k] += live[k]; live[k] = 0; }
    CHECK(freed[0] == rel[0] && freed[1] == rel[1], "free function called once per removal");
  }
  for (i=0; i<2; i++) CHECK(session_get_state(s, nm[i]) == (live[i] ? ptr(i) : NULL), "state pointer");
  session_free(s);
  for (i=0; i<2; i++) CHECK(freed[i] == rel[i] + live[i], "remaining states are freed once with the session");
  CHECK(session_get("s") == NULL, "freed session is gone");
}
void h_states(void)
{
  int op[4] = {0}, sel[4], i;
  for (i=0; i<NOPS; i++) sel[i] = nd_range(0, 3);
  nul = nd_range(0, 1) - 1;
  for (op[0]=0; op[0]<4; op[0]++) { if (sel[0] != op[0]) continue;
  for (op[1]=0; op[1]<4; op[1]++) { if (sel[1] != op[1]) continue;
#if NOPS > 2
  for (op[2]=0; op[2]<4; op[2]++) { if (sel[2] != op[2]) continue;
#endif
#if NOPS > 3
  for (op[3]=0; op[3]<4; op[3]++) { if (sel[3] != op[3]) continue;
#endif
    body(op);
    if (op[0] == 0 && op[1] == 2) REACH("some history");
    return;
#if NOPS > 3
  }
#endif
#if NOPS > 2
  }
#endif
  } }
}
void h_sessions(void)
{
  int first = nd_range(0, 1), dup = nd_range(0, 1);
  Session *a, *b, *d;
  freed[0] = freed[1] = 0;
  a = session_create("a");
  session_add_state(a, nm[0], obj, fr);
  b = session_create("b");
  a = session_get("a");
  CHECK(b && a && a != b, "two sessions");
  session_add_state(b, nm[0], obj + 1, fr);
  CHECK(session_get_state(a, nm[0]) == obj && session_get_state(b, nm[0]) == obj + 1, "states belong to their session");
  CHECK(!strcmp(session_get_id(a), "a") && !strcmp(session_get_id(b), "b"), "ids");
  if (dup) { CHECK(session_create("a") == NULL && session_get("a") == a, "session ids are unique"); REACH("duplicate"); }
  d = session_get_default();
  CHECK(d && d == session_get_default() && d != a && d != b, "one default session");
  CHECK(session_get_state(d, nm[0]) == NULL, "default session has states of its own");
  a = session_get("a"); b = session_get("b");
  if (first) { session_free(a); CHECK(freed[0] == 1 && freed[1] == 0, "first"); session_free(session_get("b")); }
  else { session_free(b); CHECK(freed[0] == 0 && freed[1] == 1, "second"); session_free(session_get("a")); }
  CHECK(freed[0] == 1 && freed[1] == 1, "both");
  session_free(session_get_default());
  CHECK(session_get("a") == NULL && session_get("b") == NULL, "gone");
  REACH("freed");
}
