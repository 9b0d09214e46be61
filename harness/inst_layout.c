/* Instances: memory layout and creation. */
//@property I01
//@sources src/dlite-entity.c src/dlite-schemas.c src/dlite-type.c src/dlite-type-cast.c src/utils/map.c src/utils/infixcalc.c
//@stubs err misc nostore
//@entry h_create unwind=60 objbits=12 fs=400 cost=2 NQ=3 /thorough NQ=6
//@entry h_offsets unwind=60 objbits=12 fs=400
//@entry h_meta unwind=60 objbits=12 fs=400
//@entry h_names unwind=60 objbits=12 fs=400
//@bound an entity with scalar, string, fixed-size string, one- and two-dimensional properties and dimensions of 0 to 2; offsets for every triple of plain and pointer types
#include "inst.h"
#ifndef NQ
#define NQ 1
#endif
static void body(DLiteMeta *e, size_t n, size_t m)
{
  size_t dims[2], i, j;
  int j2;
  dims[0] = n; dims[1] = m;
  DLiteInstance *inst = dlite_instance_create(e, dims, "inst");
  CHECK(inst, "instance is created");
  CHECK(inst->meta == e && !strcmp(inst->uri, "inst"), "metadata and uri");
  CHECK(DLITE_DIM(inst, 0) == n && DLITE_DIM(inst, 1) == m, "dimensions");
  CHECK(dlite_instance_get_dimension_size(inst, "N") == (int)n && dlite_instance_get_dimension_size(inst, "M") == (int)m, "dimensions by name");
  CHECK(DLITE_PROP_DIM(inst, P_F, 0) == n && DLITE_PROP_DIM(inst, P_T, 0) == n && DLITE_PROP_DIM(inst, P_M, 0) == n && DLITE_PROP_DIM(inst, P_M, 1) == m + 1, "property dimensions");
  CHECK(dlite_instance_get_property_dimssize(inst, "m", 1) == m + 1 && dlite_instance_get_property_ndims(inst, "m") == 2, "shape");
  for (i=0; i<NP; i++) {
    char *p = dlite_instance_get_property_by_index(inst, i);
    size_t len = e_props[i].size;
    if (e_props[i].ndims) len *= n; 
    if (e_props[i].ndims == 2) len *= m + 1;
    if (!len) { CHECK(p == NULL, "empty arrays have no memory"); continue; }
    CHECK(p, "property has memory");
    for (j=0; j<len; j++) CHECK(p[j] == 0, "properties are initially zero");
    if (i != P_S && i != P_T) for (j=0; j<len; j++) p[j] = nd_char();   /* all of the memory can be written */
  }
  CHECK(DLITE_DIM(inst, 0) == n && DLITE_DIM(inst, 1) == m, "dimensions do not share memory with properties");
  CHECK(*(char **)dlite_instance_get_property(inst, "s") == NULL, "properties do not share memory");
  CHECK(dlite_instance_get_property_by_index(inst, NP) == NULL && dlite_instance_get_property(inst, "nosuch") == NULL, "no such property");
  CHECK(dlite_instance_get_dimension_size(inst, "nosuch") < 0, "no such dimension");
  j2 = dlite_instance_decref(inst);
  CHECK(j2 == 0 && dlite_instance_has("inst", 0) == NULL, "released");
}
void h_create(void)
{
  static const int shape[6][2] = {{2,1}, {0,0}, {1,1}, {1,0}, {0,1}, {2,0}};
  int q = nd_range(0, NQ-1), i;
  DLiteMeta *e = mkmeta();
  for (i=0; i<NQ; i++) if (i == q) { body(e, shape[i][0], shape[i][1]); REACH("created"); return; }
}
void h_meta(void)
{
  DLiteMeta *e = mkmeta(), *e2;
  int i;
  CHECK(e && !strcmp(e->uri, E_URI) && e->_ndimensions == 2 && e->_nproperties == NP, "metadata");
  CHECK(dlite_instance_is_meta((DLiteInstance *)e) && !dlite_instance_is_data((DLiteInstance *)e) && !dlite_instance_is_metameta((DLiteInstance *)e), "entities are metadata");
  for (i=0; i<2; i++) CHECK(!strcmp(e->_dimensions[i].name, e_dims[i].name) && dlite_meta_get_dimension_index(e, e_dims[i].name) == i, "dimension");
  CHECK(!strcmp(e->_dimensions[0].description, "first") && !e->_dimensions[1].description, "dimension description");
  for (i=0; i<NP; i++) {
    const DLiteProperty *p = dlite_meta_get_property(e, e_props[i].name);
    CHECK(p == e->_properties + i && p->type == e_props[i].type && p->size == e_props[i].size && p->ndims == e_props[i].ndims, "property");
    if (p->ndims) CHECK(!strcmp(p->shape[0], "N"), "shape");
    CHECK(dlite_meta_has_property(e, e_props[i].name), "has property");
  }
  CHECK(!strcmp(e->_properties[P_F].unit, "m") && !strcmp(e->_properties[P_S].description, "a string") && !strcmp(e->_properties[P_M].shape[1], "M+1"), "details");
  CHECK(!dlite_meta_has_property(e, "N") && !dlite_meta_has_dimension(e, "i") && dlite_meta_get_property_index(e, "q") < 0, "unknown names");
  e2 = mkmeta();
  CHECK(e2 == e, "creating the same metadata again gives the same");
  CHECK(!dlite_meta_create(E_URI, "desc", 1, e_dims, NP, e_props), "metadata is immutable");
  REACH("done");
}
/* offsets of properties of any type */
static const struct { DLiteType t; size_t s, a; } ty[] = {
  {dliteBool, sizeof(bool), _Alignof(bool)}, {dliteInt, 1, 1}, {dliteUInt, 2, _Alignof(uint16_t)}, {dliteInt, 4, _Alignof(int32_t)}, {dliteInt, 8, _Alignof(int64_t)},
  {dliteFloat, 4, _Alignof(float)}, {dliteFloat, 8, _Alignof(double)}, {dliteFloat, 16, 16}, {dliteStringPtr, sizeof(char *), _Alignof(char *)}, {dliteRef, sizeof(void *), _Alignof(void *)},
  {dliteBlob, 3, 1}, {dliteFixString, 5, 1},
};
#define NT ((int)(sizeof(ty)/sizeof(*ty)))
void h_offsets(void)
{
  static DLiteProperty p[3] = {{"a", dliteInt, 1, NULL, 0, NULL, NULL, NULL}, {"b", dliteInt, 1, NULL, 0, NULL, NULL, NULL}, {"c", dliteInt, 1, NULL, 0, NULL, NULL, NULL}};
  DLiteMeta *e = dlite_meta_create(E_URI, "desc", 2, e_dims, 3, p);
  size_t *o, end, i, sz[3], al[3];
  CHECK(e, "metadata is created");
  for (i=0; i<3; i++) {
    int k = nd_range(0, NT-1), nd = nd_range(0, 1), j;
    for (j=0; j<NT; j++) if (j == k) { e->_properties[i].type = ty[j].t; e->_properties[i].size = sz[i] = ty[j].s; al[i] = ty[j].a; }
    if (nd) { sz[i] = sizeof(void *); al[i] = _Alignof(void *); }
    e->_properties[i].ndims = nd;
    e->_properties[i].shape = nd ? sh_n : NULL;
  }
  CHECK(dlite_meta_init(e) == 0, "layout is computed");
  o = e->_propoffsets;
  CHECK(e->_dimoffset >= sizeof(DLiteInstance) && e->_dimoffset % sizeof(size_t) == 0, "dimensions follow the header");
  end = e->_dimoffset + 2*sizeof(size_t);
  for (i=0; i<3; i++) {
    CHECK(o[i] >= end && o[i] % al[i] == 0, "properties are aligned and do not overlap what comes before");
    end = o[i] + sz[i];
  }
  CHECK(e->_reloffset >= end && e->_propdimsoffset >= e->_reloffset && e->_propdimsoffset % sizeof(size_t) == 0, "property dimensions come after the properties");
  CHECK(e->_npropdims == (size_t)(e->_properties[0].ndims + e->_properties[1].ndims + e->_properties[2].ndims), "number of property dimensions");
  CHECK(e->_propdiminds[0] == 0 && e->_propdiminds[1] == (size_t)e->_properties[0].ndims && e->_propdiminds[2] == (size_t)(e->_properties[0].ndims + e->_properties[1].ndims), "index of property dimensions");
  size_t dims[2] = {1, 1};
  CHECK(dlite_instance_size(e, dims) >= e->_propdimsoffset + e->_npropdims*sizeof(size_t), "instances are large enough");
  REACH("any types");
}
/* names are compared as a whole */
void h_names(void)
{
  static DLiteProperty p[3] = {{"ab", dliteInt, 1, NULL, 0, NULL, NULL, NULL}, {"a", dliteInt, 2, NULL, 0, NULL, NULL, NULL}, {"B", dliteInt, 4, NULL, 0, NULL, NULL, NULL}};
  static DLiteDimension d[3] = {{"Nx", NULL}, {"N", NULL}, {"n", NULL}};
  static const char *N[6] = {"ab", "a", "B", "Nx", "N", "n"};
  DLiteMeta *e = dlite_meta_create(E_URI, "desc", 3, d, 3, p);
  size_t dims[3] = {5, 6, 7}; char name[3]; int i, k = -1, n = nd_range(0, 2);
  DLiteInstance *inst = dlite_instance_create(e, dims, NULL);
  for (i=0; i<2; i++) { name[i] = nd_char(); ASSUME(i >= n || name[i]); if (i >= n) name[i] = 0; }
  name[2] = 0;
  for (i=0; i<6; i++) if (name[0] == N[i][0] && name[1] == N[i][1]) k = i;
  CHECK(dlite_meta_get_property_index(e, name) == (k >= 0 && k < 3 ? k : -1) || (k < 0 || k > 2), "index of property");
  CHECK((k >= 0 && k < 3) || dlite_meta_get_property_index(e, name) < 0, "no such property");
  CHECK(k < 3 || dlite_meta_get_dimension_index(e, name) == k - 3, "index of dimension");
  CHECK(k > 2 || dlite_meta_get_dimension_index(e, name) < 0, "no such dimension");
  CHECK(dlite_meta_has_property(e, name) == (k >= 0 && k < 3) && dlite_meta_has_dimension(e, name) == (k > 2), "has property or dimension");
  CHECK(dlite_instance_has_property(inst, name) == (k >= 0 && k < 3) && dlite_instance_has_dimension(inst, name) == (k > 2), "instance has property or dimension");
  CHECK(dlite_instance_get_dimension_size(inst, name) == (k > 2 ? k + 2 : -1) || (k <= 2 && dlite_instance_get_dimension_size(inst, name) < 0), "size of dimension");
  if (k > 2) REACH("dimension");
  if (k >= 0 && k < 3) REACH("property");
  if (k < 0) REACH("neither");
}
