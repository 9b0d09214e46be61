/* Error messages and nested error handling (err.c). */
//@property M04
//@sources src/utils/err.c
//@flags -DERR_MSGSIZE=14 -Dthread_local=
//@nobody atexit isatty
//@entry h_seq unwind=16 K=2 M=1 fs=64 /thorough unwind=20 K=2 M=4 timeout=5400
//@entry h_nest unwind=16 M=1 fs=64 /thorough unwind=20 M=6 timeout=5400
//@entry h_warn unwind=16 M=2
//@assume one thread; the message buffer is scaled down from 4096 to 14 characters; error levels from exception on, which end the program or jump, are left out
//@bound K errors in a row, and two levels of try blocks, with messages of M arbitrary characters, all override modes
#include "vh.h"
#include "err.h"
#ifdef exit
# undef exit
#endif
#define SZ 14
#ifndef M
#define M 3
#endif
#ifndef K
#define K 2
#endif
int atexit(void (*f)(void)) { (void)f; return 0; }
int isatty(int fd) { (void)fd; return 0; }
char *getenv(const char *n) { (void)n; return NULL; }
static int nh, hev; static char hmsg[SZ];
static void handler(const ErrRecord *r) { nh++; hev = r->eval; memcpy(hmsg, r->msg, SZ); CHECK(memchr(r->msg, 0, SZ) != NULL, "message is terminated"); }
/* the message expected */
static char ref[SZ]; static int rn;
static void add(const char *s) { int i; for (i=0; s[i]; i++) { if (rn < SZ-1) ref[rn++] = s[i]; } ref[rn] = 0; }
static void add1(int eval, const char *m) { char d[2] = {(char)('0' + eval), 0}; add("Error "); add(d); add(": "); add(m); }
static int same(const char *p) { int i; for (i=0; i<SZ; i++) { if (p[i] != ref[i]) return 0; if (!p[i]) return 1; } return 0; }
static void init(int mode)
{ err_set_stream(NULL); err_set_handler(handler); err_set_override_mode(mode); err_set_level(errLevelWarn); err_set_abort_mode(errAbortNormal); err_set_warn_mode(errWarnNormal); err_set_debug_mode(errDebugOff); }
/* effect of the override mode on the expected message; returns whether the new one is added */
static int over(int mode, int prev)
{
  if (!prev) { rn = 0; ref[0] = 0; return 1; }
  if (mode == errOverrideAppend) { add("\n - "); return 1; }
  if (mode == errOverrideWarnOld || mode == errOverrideOld) { rn = 0; ref[0] = 0; return 1; }
  return 0;
}
void h_seq(void)
{
  int mode = nd_range(errOverrideAppend, errOverrideIgnoreNew), k, prev = 0;
  init(mode);
  CHECK(err_geteval() == 0 && err_getmsg()[0] == 0, "no error in the beginning");
  for (k=0; k<K; k++) {
    char m[M+1]; int ev = nd_range(1, 9);
    nd_str(m, M);
    CHECK(_err_format(errLevelError, ev, 0, NULL, NULL, "%s", m) == ev, "returns the error value");
    if (over(mode, prev)) add1(ev, m);
    prev = ev;
    CHECK(err_geteval() == ev && err_getlevel() == errLevelError, "error value");
    CHECK(same(err_getmsg()), "message, cut off at the end of the buffer");
    CHECK(nh == k+1 && hev == ev && same(hmsg), "handler is called with the error");
  }
  REACH("errors");
  err_clear();
  CHECK(err_geteval() == 0 && err_getmsg()[0] == 0, "cleared");
}
void h_nest(void)
{
  ErrRecord r; char m0[M+1], m1[M+1], t[SZ], save[SZ]; int mode = nd_range(errOverrideAppend, errOverrideIgnoreNew), e0 = nd_range(0, 9), e1 = nd_range(0, 9), handled, again, out, i;
  nd_str(m0, M); nd_str(m1, M); init(mode);
  if (e0) { _err_format(errLevelError, e0, 0, NULL, NULL, "%s", m0); rn = 0; add1(e0, m0); }
  memcpy(save, ref, SZ); nh = 0;
  _err_link_record(&r);
  CHECK(err_geteval() == 0 && err_getmsg()[0] == 0, "no error inside of a try block in the beginning");
  if (e1) { _err_format(errLevelError, e1, 0, NULL, NULL, "%s", m1);
    rn = 0; add1(e1, m1); CHECK(err_geteval() == e1 && same(err_getmsg()), "error inside"); }
  CHECK(nh == 0, "the handler is not called inside of a try block");
  memcpy(t, ref, SZ); memcpy(ref, save, SZ); rn = (int)strlen(ref);
  handled = e1 && nd_range(0, 1); again = handled && nd_range(0, 1);
  if (handled) { r.handled = 1; r.state = errTryCatch; }
  if (again) r.reraise = r.eval;
  _err_unlink_record(&r);
  out = e1 && (!handled || again);
  if (out) { if (over(mode, e0)) add(t); REACH("propagated"); } else REACH("handled");
  CHECK(err_geteval() == (out ? e1 : e0), "error value after the block");
  CHECK(same(err_getmsg()), "message after the block");
  CHECK(nh == out, "handler is called for errors leaving the outermost block");
  for (i=0; i<SZ; i++) if (!err_getmsg()[i]) break;
  CHECK(i < SZ, "terminated");
}
/* warnings and lower levels */
void h_warn(void)
{
  char m[M+1]; int lev = nd_range(errLevelSuccess, errLevelWarn), set = nd_range(errLevelDebug, errLevelFatal), wm = nd_range(errWarnNormal, errWarnError), e;
  nd_str(m, M); init(errOverrideAppend); err_set_level(set); err_set_warn_mode(wm);
  e = _err_format(lev, 0, 0, NULL, NULL, "%s", m);
  CHECK(e == 0 && err_geteval() == 0, "no error value");
  CHECK(nh == (lev >= set && !(lev == errLevelWarn && wm == errWarnIgnore)), "reported iff at or above the error level and not ignored");
  if (nh) { rn = 0; add(lev == errLevelDebug ? "Debug: " : lev == errLevelInfo ? "Info: " : lev == errLevelSuccess ? "Success: " : wm == errWarnError ? "Error: " : "Warning: "); add(m); CHECK(same(hmsg), "message"); REACH("warned"); }
}
