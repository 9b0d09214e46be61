/* err.c -- stand-in for utils/err.c: same results to the caller, no message
   formatting, no output.  Remembers the last error value. */
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include "err.h"
#ifdef exit
# undef exit
#endif
static int vh_eval;
static int vh_nerr;
static ErrRecord *vh_rec;
static ErrRecord vh_root;
static ErrRecord *vh_cur(void) { return vh_rec ? vh_rec : &vh_root; }
int vh_err_count(void) { return vh_nerr; }
int _err_format(ErrLevel l, int eval, int errnum, const char *file, const char *func, const char *msg, ...)
{ (void)errnum; (void)file; (void)func; (void)msg;
  if (l >= errLevelError) { vh_cur()->eval = eval; vh_cur()->level = l; vh_eval = eval; vh_nerr++; } return eval; }
int _err_vformat(ErrLevel l, int eval, int errnum, const char *file, const char *func, const char *msg, va_list ap)
{ (void)errnum; (void)file; (void)func; (void)msg;
  if (l >= errLevelError) { vh_cur()->eval = eval; vh_cur()->level = l; vh_eval = eval; vh_nerr++; } return eval; }
void err_clear(void) { vh_eval = 0; vh_cur()->eval = 0; }
int err_geteval(void) { return vh_cur()->eval; }
int err_update_eval(int eval) { if (vh_cur()->eval) vh_cur()->eval = eval; return vh_cur()->eval; }
const char *vh_msg = "";
const char *err_getmsg(void) { return vh_msg; }
ErrLevel err_get_level(void) { return errLevelWarn; }
ErrLevel err_set_level(int level) { (void)level; return errLevelWarn; }
FILE *err_get_stream(void) { return NULL; }
FILE *err_set_stream(FILE *fp) { (void)fp; return NULL; }
const char *err_set_prefix(const char *p) { (void)p; return NULL; }
ErrHandler err_set_handler(ErrHandler h) { (void)h; return NULL; }
ErrNameConv err_set_nameconv(ErrNameConv n) { (void)n; return NULL; }
ErrOverrideMode err_set_override_mode(int m) { (void)m; return 0; }
void *err_get_state(void) { return &vh_root; }
void err_set_state(void *s) { (void)s; }
const char *err_getname(int e) { (void)e; return NULL; }
void _err_link_record(ErrRecord *r) { r->eval = 0; r->handled = 0; r->reraise = 0; r->state = 0; r->prev = vh_rec; vh_rec = r; }
void _err_unlink_record(ErrRecord *r) { vh_rec = r->prev;
  if (r->reraise || (r->eval && !r->handled)) { vh_cur()->eval = r->reraise ? r->reraise : r->eval; } }
ErrRecord *_err_get_record(void) { return vh_cur(); }
