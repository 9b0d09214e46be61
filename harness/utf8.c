/* UTF-8 encoding and decoding of code points. */
//@property S07
//@sources src/utils/unicode.c
//@entry h_encode unwind=10
//@entry h_decode unwind=10
//@bound every 64-bit code point value; every sequence of up to 6 bytes
#include "vh.h"
#include "unicode.h"
void h_encode(void)
{
  long v = nd_long(), w = -1;
  char b[8];
  int n, m, i, exp;
  for (i=0; i<8; i++) b[i] = 0x55;
  n = utf8encode(v, b);
  exp = (v < 0 || v > 0x7fffffff) ? 0 : (v < 0x80) ? 1 : (v < 0x800) ? 2 : (v < 0x10000) ? 3 :
        (v < 0x200000) ? 4 : (v < 0x4000000) ? 5 : 6;
  CHECK(n == exp, "shortest encoding");
  CHECK(utf8encode(v, NULL) == n, "length without output");
  if (!n) { REACH("not encodable"); return; }
  REACH("encoded");
  CHECK(b[n] == 0 && b[7] == 0x55, "terminated, nothing behind");
  for (i=1; i<n; i++) CHECK((b[i] & 0xc0) == 0x80, "continuation bytes");
  m = utf8decode(b, &w);
  CHECK(m == n && w == v, "decoding gives the code point back");
}
void h_decode(void)
{
  char bb[7], *b;
  long v = -1;
  int n, i, k, lead, exp, len = nd_range(0, 6);
  b = bb + (6 - len);
  for (i=0; i<6; i++) { char c = nd_char(); ASSUME(i < 6-len || c); bb[i] = c; }
  bb[6] = 0;
  n = utf8decode(b, &v);
  lead = (unsigned char)b[0];
  exp = lead < 0x80 ? 1 : lead < 0xc0 ? 0 : lead < 0xe0 ? 2 : lead < 0xf0 ? 3 : lead < 0xf8 ? 4 : lead < 0xfc ? 5 : lead < 0xfe ? 6 : 0;
  for (i=1, k=1; i<exp; i++) if (k == i && i <= len && (b[i] & 0xc0) == 0x80) k++;
  if (k < exp) exp = 0;
  CHECK(n == exp, "length of a well-formed sequence, 0 otherwise");
  if (n > 1) { char c[8]; REACH("multi-byte");
    if (utf8encode(v, c) == n) for (i=0; i<n; i++) CHECK(c[i] == b[i], "encoding gives the bytes back"); }
  else if (n == 0) REACH("rejected");
}
