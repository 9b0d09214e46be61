/* Copying and casting of n-dimensional arrays. */
//@property T04
//@sources src/dlite-type-cast.c src/dlite-type.c
//@stubs err misc ent
//@entry h_2d unwind=20 objbits=12 fs=128 cost=2
//@entry h_3d unwind=18 objbits=12 fs=128
//@entry h_1d unwind=7 objbits=10 fs=128
//@entry h_reshape unwind=8 objbits=12 fs=128
//@entry h_strings unwind=6 objbits=12 fs=128
//@entry h_refuse unwind=8 objbits=12 fs=128
//@bound arrays of one to three dimensions of length 0 to 3 with any content: contiguous, transposed, padded and reversed layouts of source and destination, cast between 16 and 32 bit integers or plain copies; string arrays of 2 elements; refusal of every pair of 2-d shapes up to 3 x 3 with different numbers of elements
#include "vh.h"
#include "dlite.h"
#include "dlite-type.h"
#define GUARD 0x5a5a
/* layout l of a d0 x d1 array of `sz` byte elements inside a buffer of 16
   elements: strides and offset of the first element */
static int layout(int l, int d0, int d1, int sz, int *st)
{
  switch (l) {
  case 0: st[0] = d1*sz; st[1] = sz; return 0;              /* C order */
  case 1: st[0] = sz; st[1] = d0*sz; return 0;              /* Fortran order */
  case 2: st[0] = 4*sz; st[1] = sz; return 0;               /* padded rows */
  default: st[0] = sz; st[1] = 4*sz; return 0;              /* padded columns */
  }
}
static void body2(int d0, int d1, int ls, int ld, int cast)
{
  int16_t s[16];
  int32_t d4[16]; int16_t d2[16];
  size_t dims[2]; int ss[2], ds[2], i, j, k, r;
  dims[0] = d0; dims[1] = d1;
  for (i=0; i<16; i++) { s[i] = nd_i16(); d4[i] = d2[i] = GUARD; }
  layout(ls, d0, d1, 2, ss);
  layout(ld, d0, d1, cast ? 4 : 2, ds);
  r = dlite_type_ndcast(2, cast ? (void *)d4 : (void *)d2, dliteInt, cast ? 4 : 2, dims, ld ? ds : NULL,
                        s, dliteInt, 2, dims, ls ? ss : NULL, NULL);
  CHECK(r == 0, "cast succeeds");
  for (i=0; i<16; i++) {
    int want = GUARD, got = cast ? d4[i] : d2[i];
    for (j=0; j<d0; j++) for (k=0; k<d1; k++)
      if ((ds[0]*j + ds[1]*k)/(cast ? 4 : 2) == i) want = s[(ss[0]*j + ss[1]*k)/2];
    CHECK(got == want, "every element is at its place and nothing else is changed");
  }
}
void h_2d(void)
{
  int a = nd_range(0, 8), b = nd_range(0, 8), i, j;
  static const int sh[4][2] = {{2,3},{1,3},{3,1},{2,0}};
  int q = nd_range(0, 3), k, x = a % 4, y = b % 4;
  ASSUME(a < 8 && b < 4);
  for (k=0; k<4; k++) for (i=0; i<8; i++) for (j=0; j<4; j++) {
    if (k != q || i != a || j != b) continue;
    (void)x; (void)y;
    body2(sh[k][0], sh[k][1], j, i % 4, i / 4);
    REACH("done");
    return;
  }
}
void h_3d(void)
{
  /* C order to Fortran order by inverted strides, and plain copy */
  int16_t s[12], d[14];
  size_t dims[3] = {2, 3, 2};
  int ds[3] = {2, 4, 12}, i, j, k, f = nd_range(0, 1), g;
  for (i=0; i<12; i++) s[i] = nd_i16();
  for (g=0; g<2; g++) {
    if (g != f) continue;
    for (i=0; i<14; i++) d[i] = GUARD;
    CHECK(dlite_type_ndcast(3, d + 1, dliteInt, 2, dims, g ? ds : NULL, s, dliteInt, 2, dims, NULL, NULL) == 0, "copy succeeds");
    CHECK(d[0] == GUARD && d[13] == GUARD, "nothing around the destination is changed");
    for (i=0; i<2; i++) for (j=0; j<3; j++) for (k=0; k<2; k++)
      CHECK(d[1 + (g ? i + 2*j + 6*k : 6*i + 2*j + k)] == s[6*i + 2*j + k], "element is at its place");
    REACH("done");
    return;
  }
}
void h_1d(void)
{
  /* every second element, also backwards */
  int16_t s[6], d[6];
  size_t n;
  int len = nd_range(0, 3), st = nd_range(-2, 2), i, t, *pst;
  for (i=0; i<6; i++) s[i] = nd_i16();
  for (n=0; n<=3; n++) for (t=-2; t<=2; t++) {
    if ((int)n != len || t != st || t == 0) continue;
    int strides[1] = {2*t}, off = t < 0 ? -t*((int)n > 0 ? (int)n - 1 : 0) : 0;
    for (i=0; i<6; i++) d[i] = GUARD;
    pst = strides;
    CHECK(dlite_type_ndcast(1, d, dliteInt, 2, &n, NULL, s + off, dliteInt, 2, &n, pst, NULL) == 0, "copy succeeds");
    for (i=0; i<6; i++) CHECK(d[i] == (i < (int)n ? s[off + t*i] : GUARD), "selected elements are copied in order");
    REACH("done");
    return;
  }
}
void h_reshape(void)
{
  int8_t s[6]; int32_t d[6];
  size_t a[2] = {2, 3}, b[2] = {3, 2}, c[2] = {2, 2};
  int i, which = nd_range(0, 1);
  for (i=0; i<6; i++) { s[i] = nd_i8(); d[i] = 0; }
  if (which) {
    CHECK(dlite_type_ndcast(2, d, dliteInt, 4, b, NULL, s, dliteInt, 1, a, NULL, NULL) == 0, "equal number of elements");
    for (i=0; i<6; i++) CHECK(d[i] == s[i], "elements are copied in order");
    REACH("reshape");
  } else {
    CHECK(dlite_type_ndcast(2, d, dliteInt, 4, c, NULL, s, dliteInt, 1, a, NULL, NULL) != 0, "number of elements must agree");
    CHECK(d[0] == 0, "nothing is copied on error");
    REACH("mismatch");
  }
}
void h_strings(void)
{
  char x[2] = {0}, *s[2], *d[2] = {NULL, NULL};
  size_t n = 2;
  x[0] = nd_char(); ASSUME(x[0]);
  s[0] = x; s[1] = nd_range(0, 1) ? x : NULL;
  if (s[1]) { s[1] = x; } else { s[1] = NULL; }
  CHECK(dlite_type_ndcast(1, d, dliteStringPtr, 8, &n, NULL, s, dliteStringPtr, 8, &n, NULL, NULL) == 0, "copy succeeds");
  CHECK(d[0] && d[0] != x && d[0][0] == x[0] && d[0][1] == 0, "strings are copied to memory of their own");
  if (s[1]) CHECK(d[1] && d[1] != x && d[1] != d[0] && d[1][0] == x[0] && d[1][1] == 0, "strings are copied");
  else CHECK(d[1] == NULL, "an absent string stays absent");
  free(d[0]); free(d[1]);
  REACH("done");
}
/* shapes with different numbers of elements are refused */
void h_refuse(void)
{
  int16_t s[9]; int32_t d[9];
  size_t sd[2], dd[2];
  int i;
  for (i=0; i<9; i++) { s[i] = 1; d[i] = GUARD; }
  for (i=0; i<2; i++) { sd[i] = nd_range(0, 3); dd[i] = nd_range(0, 3); }
  ASSUME(sd[0]*sd[1] != dd[0]*dd[1]);
  CHECK(dlite_type_ndcast(2, d, dliteInt, 4, dd, NULL, s, dliteInt, 2, sd, NULL, NULL) != 0, "different numbers of elements are refused");
  for (i=0; i<9; i++) CHECK(d[i] == GUARD, "nothing is copied");
  REACH("refused");
}
