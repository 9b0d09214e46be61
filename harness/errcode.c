/* Error codes, their names, and which errors are not printed (dlite-errors.c, dlite-misc.c). */
//@property M05
//@sources src/dlite-errors.c src/dlite-misc.c
//@stubs err
//@nobody session_get_default session_get_state session_add_state atexit srand_msws32 srand_msws64
//@entry h_mask unwind=40
//@entry h_name unwind=40 fs=64
//@entry h_msg unwind=16 N=10 /thorough unwind=20 N=14
//@bound every error code; any history of ignored errors; messages of N arbitrary characters
#include "vh.h"
#include "dlite.h"
#include "dlite-misc.h"
#include "dlite-errors.h"
#include "session.h"
#include "rng.h"
#ifndef N
#define N 10
#endif
static DLiteErrMask *st;
Session *session_get_default(void) { static int s; return (Session *)&s; }
void *session_get_state(Session *s, const char *name) { (void)s; return (name[0] == 'e' && name[4] == 'i') ? st : (void *)&st; }
int session_add_state(Session *s, const char *name, void *ptr, void (*f)(void *)) { (void)s; (void)f; if (name[0] == 'e' && name[4] == 'i') st = ptr; return 0; }
int srand_msws32(uint64_t s) { (void)s; return 0; }
int srand_msws64(uint64_t s) { (void)s; return 0; }
int atexit(void (*f)(void)) { (void)f; return 0; }
static int anycode(void) { return nd_range(dliteLastError+1, 1); }
void h_mask(void)
{
  DLiteErrMask m = nd_i64(); int a = anycode(), b = anycode(), v = nd_range(0, 1), before;
  CHECK(!dlite_err_ignored_get(b), "no errors are ignored in the beginning");
  _dlite_err_mask_set(m);
  before = dlite_err_ignored_get(b);
  if (b <= 0) CHECK(!before == !((m >> -b) & 1), "one bit for each error code");
  dlite_err_ignored_set(a, v);
  if (a == b && b <= 0) CHECK(dlite_err_ignored_get(b) == v, "the error is ignored as set");
  else if (a == b && v) CHECK(dlite_err_ignored_get(b), "the error is ignored as set");
  else if (b > 0 && a == dliteUnknownError) { if (v) CHECK(dlite_err_ignored_get(b), "unknown errors include positive codes"); }
  else if (!(a >= 0 && b >= 0)) CHECK(dlite_err_ignored_get(b) == before, "other errors are not affected");
  REACH("set");
}
void h_name(void)
{
  int k, sel = nd_range(0, -dliteLastError+1), i, n;
  for (k=0; k < -dliteLastError; k++) if (sel == k) {
    char s[64]; const char *e = dlite_errname(-k); n = (int)strlen(e);
    CHECK(n > 5 && n < 40 && !strncmp(e, "DLite", 5), "every error has a name");
    if (!strcmp(e, "DLiteUndefined")) return;
    strcpy(s, e); strcpy(s+n, "Error");
    if (k > 0) { CHECK(dlite_errcode(s) == -k, "the name of an error leads back to its code"); REACH("name"); }
    CHECK(dlite_errcode(e) == -k, "also without final Error");
    CHECK(dlite_errdescr(-k) != NULL, "every error has a description");
    for (i=0; i < -dliteLastError; i++) if (i != k) CHECK(strcmp(dlite_errname(-i), e) != 0, "names differ");
    return;
  }
  CHECK(dlite_errcode("DLiteError") == 0, "generic");
  CHECK(dlite_errcode("NoSuchError") == dliteUnknownError, "unknown name");
  CHECK(!strcmp(dlite_errname(nd_range(1, 1000)), "DLiteOther"), "positive codes");
  CHECK(!strcmp(dlite_errname(nd_range(-1000, dliteLastError)), "DLiteUndefined"), "codes out of range");
}
/* the message is what follows the names of errors */
static char msg[N+1];
void h_msg(void)
{
  int n = nd_str(msg, N), i = 0, k; const char *r;
  extern const char *vh_msg; vh_msg = msg;
  r = dlite_errmsg();
  for (;;) {
    if (!((msg[i] >= 'A' && msg[i] <= 'Z') || (msg[i] >= 'a' && msg[i] <= 'z'))) break;
    for (k=i+1; (msg[k] >= 'A' && msg[k] <= 'Z') || (msg[k] >= 'a' && msg[k] <= 'z') || (msg[k] >= '0' && msg[k] <= '9'); k++) ;
    if (msg[k] != ':' || k-i < 5 || strncmp(msg+k-5, "Error", 5)) break;
    for (k++; msg[k] == ' ' || msg[k] == '\t'; k++) ;
    i = k; if (i > 0) REACH("stripped");
  }
  (void)n;
  CHECK(r == msg+i, "names of errors are taken off the front");
}
