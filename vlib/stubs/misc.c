/* misc.c -- stand-ins for dlite-misc.c: error reporting without formatting,
   global states in a small table, UUIDs without SHA-1.  A UUID given as id is
   copied as by the real function; any other id yields a deterministic UUID,
   and no id a fresh one.  */
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "err.h"
#include "dlite.h"
#include "dlite-misc.h"
#include "dlite-errors.h"
#ifndef VH_NSTATE
#define VH_NSTATE 6
#endif
static struct { const char *name; void *ptr; void (*fr)(void *); } vh_state[VH_NSTATE];
static DLiteErrMask vh_mask;
int vh_atexit;
int dlite_globals_add_state(const char *name, void *ptr, void (*fr)(void *ptr))
{ int i; for (i=0; i<VH_NSTATE; i++) if (!vh_state[i].name) { vh_state[i].name = name; vh_state[i].ptr = ptr; vh_state[i].fr = fr; return 0; } return 1; }
void *dlite_globals_get_state(const char *name)
{ int i; for (i=0; i<VH_NSTATE; i++) if (vh_state[i].name && !strcmp(vh_state[i].name, name)) return vh_state[i].ptr; return NULL; }
int dlite_globals_remove_state(const char *name)
{ int i; for (i=0; i<VH_NSTATE; i++) if (vh_state[i].name && !strcmp(vh_state[i].name, name)) { if (vh_state[i].fr) vh_state[i].fr(vh_state[i].ptr); vh_state[i].name = NULL; return 0; } return 1; }
int dlite_globals_in_atexit(void) { return vh_atexit; }
void dlite_globals_set_atexit(void) { vh_atexit = 1; }
DLiteGlobals *dlite_globals_get(void) { return NULL; }
void dlite_init(void) { }
DLiteErrMask *_dlite_err_mask_get(void) { return &vh_mask; }
void _dlite_err_mask_set(DLiteErrMask m) { vh_mask = m; }
void dlite_err_ignored_set(DLiteErrCode c, int v) { (void)c; (void)v; }
int dlite_err_ignored_get(DLiteErrCode c) { (void)c; return 0; }
int dlite_err(int eval, const char *msg, ...) { return _err_format(errLevelError, eval, 0, NULL, NULL, msg); }
int dlite_errx(int eval, const char *msg, ...) { return _err_format(errLevelError, eval, 0, NULL, NULL, msg); }
int dlite_warn(const char *msg, ...) { (void)msg; return 0; }
int dlite_warnx(const char *msg, ...) { (void)msg; return 0; }
int dlite_info(const char *msg, ...) { (void)msg; return 0; }
int dlite_debug(const char *msg, ...) { (void)msg; return 0; }
int dlite_errval(void) { return err_geteval(); }
void dlite_errclr(void) { err_clear(); }
const char *dlite_errmsg(void) { return ""; }
int _dlite_deprecation_warning(const char *v, const char *f, const char *g, const char *d) { (void)v; (void)f; (void)g; (void)d; return 0; }
static int vh_isuuid(const char *s)
{ int i; for (i=0; i<36; i++) { int c = s[i];
    if (i == 8 || i == 13 || i == 18 || i == 23) { if (c != '-') return 0; }
    else if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return 0; }
  return 1; }
static unsigned vh_count;
int dlite_isuuid(const char *id) { return vh_isuuid(id); }
DLiteIdType _dlite_get_uuidn(char *buff, const char *id, size_t len, int ns)
{
  static const char hex[] = "0123456789abcdef";
  unsigned h = 5381; size_t i; DLiteIdType t = dliteIdHash;
  (void)ns;
  if (!len || !id || !*id) { h = ++vh_count; t = dliteIdRandom; }
  else if (len == 36 && vh_isuuid(id)) {
    for (i=0; i<36; i++) buff[i] = (id[i] >= 'A' && id[i] <= 'F') ? id[i] + 32 : id[i];
    buff[36] = 0; return dliteIdCopy;
  } else for (i=0; i<len; i++) h = h*33 + (unsigned char)id[i];
  memcpy(buff, "00000000-0000-5000-8000-000000000000", 37);
  if (t == dliteIdRandom) buff[14] = '4';
  for (i=0; i<8; i++) buff[28+i] = hex[(h >> (4*i)) & 15];
  return t;
}
DLiteIdType dlite_get_uuidn(char *buff, const char *id, size_t len) { return _dlite_get_uuidn(buff, id, len, 1); }
DLiteIdType dlite_get_uuid(char *buff, const char *id) { return _dlite_get_uuidn(buff, id, id ? strlen(id) : 0, 1); }
DLiteIdType dlite_idtypen(const char *id, int len) { return (!len || !id || !*id) ? dliteIdRandom : (len == 36 && vh_isuuid(id)) ? dliteIdCopy : dliteIdHash; }
DLiteIdType dlite_idtype(const char *id) { return dlite_idtypen(id, id ? (int)strlen(id) : 0); }
#ifndef VH_MISC_NOURI
int dlite_split_meta_uri(const char *uri, char **name, char **version, char **namespace)
{
  int n = (int)strlen(uri), i = n - 1, j;
  while (i >= 0 && uri[i] != '/') i--;
  j = i - 1;
  while (j >= 0 && uri[j] != '/') j--;
  if (i <= 0 || j <= 0) return 1;
  if (name) *name = strdup(uri + i + 1);
  if (version) { *version = malloc(i - j); memcpy(*version, uri + j + 1, i - j - 1); (*version)[i-j-1] = 0; }
  if (namespace) { *namespace = malloc(j + 1); memcpy(*namespace, uri, j); (*namespace)[j] = 0; }
  return 0;
}
#endif
char *dlite_join_meta_uri(const char *name, const char *version, const char *namespace)
{
  size_t a, b, c; char *s;
  if (!name || !version || !namespace) return NULL;
  a = strlen(namespace); b = strlen(version); c = strlen(name);
  s = malloc(a + b + c + 3);
  memcpy(s, namespace, a); s[a] = '/'; memcpy(s + a + 1, version, b); s[a+b+1] = '/'; memcpy(s + a + b + 2, name, c + 1);
  return s;
}
