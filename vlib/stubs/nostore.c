/* nostore.c -- no storages: nothing is found outside of memory.  Stand-ins for
   the storage layer, instance mappings, file globbing, JSON scanning and the
   call-backs of collections, none of which the harnesses using it reach. */
#include <string.h>
#include "dlite.h"
#include "dlite-entity.h"
#include "dlite-storage.h"
#include "dlite-storage-plugins.h"
#include "dlite-datamodel.h"
#include "dlite-mapping.h"
#include "dlite-collection.h"
#include "utils/fileutils.h"
#include "utils/jsmnx.h"
DLiteStorage *dlite_storage_open(const char *d, const char *l, const char *o) { (void)d; (void)l; (void)o; return NULL; }
int dlite_storage_close(DLiteStorage *s) { (void)s; return 0; }
DLiteInstance *dlite_storage_load(const DLiteStorage *s, const char *id) { (void)s; (void)id; return NULL; }
int dlite_storage_hotlist_iter_init(DLiteStorageHotlistIter *it) { (void)it; return 0; }
const DLiteStorage *dlite_storage_hotlist_iter_next(DLiteStorageHotlistIter *it) { (void)it; return NULL; }
int dlite_storage_hotlist_iter_deinit(DLiteStorageHotlistIter *it) { (void)it; return 0; }
DLiteStoragePathIter *dlite_storage_paths_iter_start(void) { return NULL; }
const char *dlite_storage_paths_iter_next(DLiteStoragePathIter *it) { (void)it; return NULL; }
int dlite_storage_paths_iter_stop(DLiteStoragePathIter *it) { (void)it; return 0; }
const DLiteStoragePlugin *dlite_storage_plugin_get(const char *n) { (void)n; return NULL; }
DLiteDataModel *dlite_datamodel(const DLiteStorage *s, const char *id) { (void)s; (void)id; return NULL; }
int dlite_datamodel_free(DLiteDataModel *d) { (void)d; return 0; }
char *dlite_datamodel_get_meta_uri(const DLiteDataModel *d) { (void)d; return NULL; }
void dlite_datamodel_resolve_dimensions(DLiteDataModel *d, const DLiteMeta *m) { (void)d; (void)m; }
int dlite_datamodel_get_dimension_size(const DLiteDataModel *d, const char *n) { (void)d; (void)n; return -1; }
int dlite_datamodel_get_property(const DLiteDataModel *d, const char *n, void *p, DLiteType t, size_t s, size_t nd, const size_t *sh)
{ (void)d; (void)n; (void)p; (void)t; (void)s; (void)nd; (void)sh; return 1; }
int dlite_datamodel_set_meta_uri(DLiteDataModel *d, const char *u) { (void)d; (void)u; return 1; }
int dlite_datamodel_set_dimension_size(DLiteDataModel *d, const char *n, size_t s) { (void)d; (void)n; (void)s; return 1; }
int dlite_datamodel_set_property(DLiteDataModel *d, const char *n, const void *p, DLiteType t, size_t s, size_t nd, const size_t *sh)
{ (void)d; (void)n; (void)p; (void)t; (void)s; (void)nd; (void)sh; return 1; }
DLiteInstance *dlite_mapping(const char *u, const DLiteInstance **i, int n) { (void)u; (void)i; (void)n; return NULL; }
const char *fu_fileext(const char *p) { return p + strlen(p); }
FUIter *fu_glob(const char *p, const char *s) { (void)p; (void)s; return NULL; }
const char *fu_globnext(FUIter *it) { (void)it; return NULL; }
int fu_globend(FUIter *it) { (void)it; return 0; }
int dlite_split_url(char *u, char **d, char **l, char **o, char **f) { (void)u; (void)d; (void)l; (void)o; (void)f; return 1; }
#ifndef VH_COLLECTION
int dlite_collection_init(DLiteInstance *i) { (void)i; return 0; }
int dlite_collection_deinit(DLiteInstance *i) { (void)i; return 0; }
int dlite_collection_gethash(const DLiteInstance *i, unsigned char *h, int n) { (void)i; (void)h; (void)n; return 0; }
int dlite_collection_getdim(const DLiteInstance *i, size_t k) { (void)i; (void)k; return 0; }
int dlite_collection_loadprop(const DLiteInstance *i, size_t k) { (void)i; (void)k; return 0; }
int dlite_collection_saveprop(DLiteInstance *i, size_t k) { (void)i; (void)k; return 0; }
#endif
#ifndef VH_JSMN
void jsmn_init(jsmn_parser *p) { (void)p; }
int jsmn_parse_alloc(jsmn_parser *p, const char *js, size_t n, jsmntok_t **t, unsigned int *nt) { (void)p; (void)js; (void)n; (void)t; (void)nt; return -1; }
const char *jsmn_strerror(int r) { (void)r; return ""; }
int jsmn_count(const jsmntok_t *t) { (void)t; return 0; }
const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *k) { (void)js; (void)t; (void)k; return NULL; }
const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i) { (void)js; (void)t; (void)i; return NULL; }
#endif
#ifndef VH_SHA3
#include "utils/sha3.h"
sha3_return_t sha3_Init(sha3_context *p, unsigned b) { (void)p; (void)b; return 0; }
enum SHA3_FLAGS sha3_SetFlags(sha3_context *p, enum SHA3_FLAGS f) { (void)p; return f; }
void sha3_Update(sha3_context *p, void const *b, size_t n) { (void)p; (void)b; (void)n; }
void const *sha3_Finalize(sha3_context *p) { return p; }
#endif
#ifndef VH_INFIX_REAL
#endif
