/* Views on n-dimensional arrays (dlite-arrays.c). */
//@property A01
//@sources src/dlite-arrays.c
//@stubs err
//@nobody dlite_type_print
//@entry h_create unwind=6 fs=128
//@entry h_iter unwind=6 fs=128 unwindset=walk.0:30 MAXS=2 /thorough MAXS=3
//@entry h_slice1 unwind=12 fs=128 LEN=8 /thorough unwind=18 LEN=14
//@entry h_slice2 unwind=8 fs=128 LEN=3 /thorough unwind=10 LEN=5
//@entry h_transpose unwind=6 fs=128
//@entry h_contig unwind=24 fs=128 safety=0 /thorough safety=1
//@entry h_compare unwind=15 fs=128 safety=0 /thorough safety=1
//@entry h_reshape unwind=6 fs=128
//@bound up to three dimensions of MAXS (LEN) elements; any start, stop and step in -LEN-2..LEN+2; any strides
#include "vh.h"
#include "dlite.h"
#include "dlite-arrays.h"
#ifndef LEN
#define LEN 3
#endif
#ifndef MAXS
#define MAXS 2
#endif
int dlite_type_print(char *d, size_t n, const void *p, DLiteType t, size_t s, int w, int pr, DLiteTypeFlag f) { (void)d; (void)n; (void)p; (void)t; (void)s; (void)w; (void)pr; (void)f; return 0; }
static char data[200];
static DLiteArray *mk(int nd, const size_t *shape, size_t size)
{ return dlite_array_create(data, dliteBlob, size, nd, shape); }
/* each number of dimensions is followed on its own */
#define CASES(name, from, to) void name(void) { int k, n = nd_range(from, to); for (k=from; k<=to; k++) if (n == k) { name##_(k); return; } }
/* creation: row-major order without gaps */
static void h_create_(int nd)
{
  size_t shape[3], size = nd_range(1, 8), tot;
  int i, ind[3], off = 0, o = nd_range(0, 1), empty = 0;
  DLiteArray *a;
  for (i=0; i<3; i++) { shape[i] = nd_range(0, 3); ind[i] = nd_range(0, 2); }
  tot = size;
  for (i=0; i<nd; i++) { if (!shape[i]) empty = 1; tot *= shape[i]; }
  a = mk(nd, shape, size);
  CHECK(a && a->data == data && a->size == size && a->ndims == nd && a->type == dliteBlob, "fields");
  for (i=0; i<nd; i++) { CHECK(a->shape[i] == shape[i], "shape"); ASSUME(empty || ind[i] < (int)shape[i]); }
  CHECK(dlite_array_is_continuous(a), "new arrays are contiguous");
  if (nd && !empty) { CHECK(dlite_array_size(a) == tot, "memory size"); REACH("size"); }
  for (i=0; i<nd; i++) off = off*(int)shape[i] + ind[i];
  if (!empty) {
    CHECK(dlite_array_index(a, ind) == data + off*size, "row-major order");
  }
  dlite_array_free(a);
  if (nd == 2) {
    a = dlite_array_create_order(data, dliteBlob, size, 2, shape, o ? 'C' : 'F');
    if (o) CHECK(a->shape[0] == shape[0] && a->shape[1] == shape[1] && dlite_array_index(a, ind) == data + (ind[0]*shape[1] + ind[1])*size, "C order");
    else { int t[2]; t[0] = ind[1]; t[1] = ind[0]; CHECK(a->shape[0] == shape[1] && a->shape[1] == shape[0] && dlite_array_index(a, t) == data + (ind[0]*shape[1] + ind[1])*size, "Fortran order is transposed"); REACH("fortran"); }
    dlite_array_free(a);
    CHECK(!dlite_array_create_order(data, dliteBlob, size, 2, shape, 'x'), "other orders");
  }
}
CASES(h_create, 0, 3)
/* iteration visits every element once, in row-major order, whatever the strides */
static int walk(DLiteArray *a)
{
  DLiteArrayIter it; char *p; int i, j, k, n = 0, s[3];
  char *d = (char *)a->data;
  for (i=0; i<3; i++) s[i] = i < a->ndims ? (int)a->shape[i] : 1;
  CHECK(!dlite_array_iter_init(&it, a), "init");
  for (i=0; i<s[0]; i++) for (j=0; j<s[1]; j++) for (k=0; k<s[2]; k++) {
    p = dlite_array_iter_next(&it); n++;
    CHECK(p == d + (a->ndims > 0 ? i*a->strides[0] : 0) + (a->ndims > 1 ? j*a->strides[1] : 0) + (a->ndims > 2 ? k*a->strides[2] : 0), "next element");
  }
  CHECK(!dlite_array_iter_next(&it) && !dlite_array_iter_next(&it), "then no more");
  dlite_array_iter_deinit(&it);
  return n;
}
static void h_iter_(int nd)
{
  size_t shape[3]; int i, n; DLiteArray *a;
  for (i=0; i<3; i++) shape[i] = nd_range(0, MAXS);
  a = mk(nd, shape, 1); a->data = data+100;
  for (i=0; i<nd; i++) a->strides[i] = nd_range(-3, 3);
  n = walk(a);
  if (nd == 0 && n == 1) REACH("scalar");
  if (nd == 3 && n > 4) REACH("3-d");
  dlite_array_free(a);
}
CASES(h_iter, 0, 3)
/* the elements a slice refers to, Python-like */
static int sel(int len, int hs, int start, int hp, int stop, int d, int *out)
{
  int n = 0, i;
  if (hs) { if (start < 0) start += len; if (start < 0) start = 0; if (start > len) start = len; } else start = d > 0 ? 0 : len;
  if (hp) { if (stop < 0) stop += len; if (stop < 0) stop = 0; if (stop > len) stop = len; } else stop = d > 0 ? len : 0;
  if (d > 0) { for (i=start; i<stop; i+=d) out[n++] = i; }
  else { for (i=start-1; i>=stop; i+=d) out[n++] = i; }
  return n;
}
typedef struct { int hs, hp, hd, s[2], p[2], d[2]; } Sl;
static void anysl(Sl *l)
{
  int i;
  l->hs = nd_range(0, 1); l->hp = nd_range(0, 1); l->hd = nd_range(0, 1);
  for (i=0; i<2; i++) { l->s[i] = nd_range(-LEN-2, LEN+2); l->p[i] = nd_range(-LEN-2, LEN+2); l->d[i] = nd_range(-LEN-2, LEN+2); }
}
static DLiteArray *slice(DLiteArray *a, Sl *l) { return dlite_array_slice(a, l->hs ? l->s : NULL, l->hp ? l->p : NULL, l->hd ? l->d : NULL); }
void h_slice1(void)
{
  Sl l; size_t shape[1]; int o[LEN+1], n, k = nd_range(0, LEN-1), st = nd_range(-9, 9); DLiteArray *a, *b;
  anysl(&l); shape[0] = nd_range(0, LEN);
  a = mk(1, shape, 4); a->data = data+100; a->strides[0] = st; b = slice(a, &l);
  if (l.hd && l.d[0] == 0) { CHECK(!b, "no step"); return; }
  n = sel((int)shape[0], l.hs, l.s[0], l.hp, l.p[0], l.hd ? l.d[0] : 1, o);
  CHECK(b && b->ndims == 1 && b->size == 4 && b->shape[0] == (size_t)n, "number of elements");
  if (k < n) { CHECK(dlite_array_index(b, &k) == data + 100 + st*o[k], "elements from start to stop"); if (l.hd && l.d[0] < -1 && n > 1) REACH("backwards"); }
  CHECK(a->shape[0] == shape[0] && a->data == data+100 && a->strides[0] == st, "sliced array is unchanged");
}
void h_slice2(void)
{
  Sl l; size_t shape[2]; int o[2][LEN+1], n[2], k[2], i, d[2], st[2]; DLiteArray *a, *b;
  anysl(&l); for (i=0; i<2; i++) { shape[i] = nd_range(0, LEN); k[i] = nd_range(0, LEN-1); d[i] = l.hd ? l.d[i] : 1; ASSUME(d[i]); }
  a = mk(2, shape, 2); a->data = data+100; for (i=0; i<2; i++) a->strides[i] = st[i] = nd_range(-9, 9); b = slice(a, &l);
  for (i=0; i<2; i++) { n[i] = sel((int)shape[i], l.hs, l.s[i], l.hp, l.p[i], d[i], o[i]); CHECK(b && b->shape[i] == (size_t)n[i], "number of elements"); }
  if (k[0] < n[0] && k[1] < n[1]) { CHECK(dlite_array_index(b, k) == data + 100 + o[0][k[0]]*st[0] + o[1][k[1]]*st[1], "elements of both dimensions"); REACH("element"); }
}
/* any view of two or three dimensions */
static DLiteArray *anyview(int nd, size_t size)
{
  size_t shape[3]; int i; DLiteArray *a;
  for (i=0; i<3; i++) shape[i] = nd_range(0, 2);
  a = mk(nd, shape, size); a->data = data+100;
  for (i=0; i<nd; i++) a->strides[i] = nd_range(-3, 3);
  return a;
}
static void h_transpose_(int nd)
{
  int i, k[3], t[3]; DLiteArray *a = anyview(nd, 1), *b = dlite_array_transpose(a);
  for (i=0; i<nd; i++) { k[i] = nd_range(0, 1); t[nd-1-i] = k[i]; }
  CHECK(b && b->ndims == nd && b->size == 1 && b->type == a->type, "same kind");
  for (i=0; i<nd; i++) CHECK(b->shape[i] == a->shape[nd-1-i], "dimensions are reversed");
  CHECK(dlite_array_index(b, t) == dlite_array_index(a, k), "with the same elements");
  if (nd == 3) REACH("3-d");
}
CASES(h_transpose, 0, 3)
/* contiguous copies */
static void h_contig_(int nd)
{
  int i, n = 1, x, y, w = 0, st[2]; DLiteArray *a; char ref[8]; char *p; static char d[24]; size_t shape[2];
  for (i=0; i<22; i++) d[i] = (char)nd_u8();
  for (i=0; i<2; i++) { shape[i] = nd_range(0, 2); st[i] = nd_range(-5, 5); }
  a = mk(nd, shape, 2); a->data = d+10;
  for (i=0; i<nd; i++) { a->strides[i] = st[i]; n *= (int)shape[i]; }
  if (nd < 2) { st[1] = 0; shape[1] = 1; }
  for (x=0; x<(int)shape[0]; x++) for (y=0; y<(int)shape[1]; y++) { ref[w++] = d[10 + x*st[0] + y*st[1]]; ref[w++] = d[11 + x*st[0] + y*st[1]]; }
  p = dlite_array_make_continuous(a);
  CHECK(p && p != d && p == a->data && dlite_array_is_continuous(a), "the array is contiguous now, with data of its own");
  for (i=0; i<2*n; i++) CHECK(p[i] == ref[i], "the elements follow each other in order");
  if (nd == 2 && n == 4) REACH("2-d");
  free(p);
}
CASES(h_contig, 1, 2)
void h_compare(void)
{
  size_t shape[1]; int i, eq = 1; DLiteArray *a, *b; static char x[20], y[20];
  for (i=0; i<14; i++) { x[i] = (char)nd_u8(); y[i] = (char)nd_u8(); }
  shape[0] = nd_range(0, 3); a = mk(1, shape, 2); a->data = x+6; a->strides[0] = nd_range(-3, 3);
  shape[0] = nd_range(0, 3); b = mk(1, shape, 2); b->data = y+6; b->strides[0] = nd_range(-3, 3);
  if (a->shape[0] != b->shape[0] || a->strides[0] != b->strides[0]) eq = 0;
  if (eq) for (i=0; i<(int)a->shape[0]; i++) { int o = 6 + i*a->strides[0]; if (x[o] != y[o] || x[o+1] != y[o+1]) eq = 0; }
  CHECK(dlite_array_compare(a, b) == eq, "arrays are equal exactly if they have the same layout and equal elements");
  if (eq && a->shape[0] == 3) REACH("equal");
  b->type = dliteInt;
  CHECK(!dlite_array_compare(a, b), "other type");
}
static void h_reshape_(int nd)
{
  size_t s1[3], s2[3]; int n1 = nd, n2 = nd_range(0, 3), i, p1 = 1, p2 = 1, c = nd_range(0, 1); DLiteArray *a, *b = NULL;
  for (i=0; i<3; i++) { s1[i] = nd_range(0, 3); s2[i] = nd_range(0, 4); }
  a = mk(n1, s1, 2);
  for (i=0; i<n1; i++) p1 *= (int)s1[i];
  for (i=0; i<n2; i++) p2 *= (int)s2[i];
  if (!c) { a->strides[n1-1] = nd_range(-8, 8); }
  c = dlite_array_is_continuous(a);
  for (i=0; i<=3; i++) if (n2 == i) b = dlite_array_reshape(a, i, s2);
  CHECK(!b == (p1 != p2 || !c), "reshaping needs a contiguous array and as many elements");
  if (b) { CHECK(b->data == a->data && b->size == 2 && b->ndims == n2 && dlite_array_is_continuous(b), "same data"); for (i=0; i<n2; i++) CHECK(b->shape[i] == s2[i], "new shape"); if (n1 != n2) REACH("reshaped"); }
}
CASES(h_reshape, 1, 3)
