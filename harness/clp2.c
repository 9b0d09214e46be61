//@property S11
//@sources src/utils/clp2.c
//@entry h_pow unwind=2
//@bound every size_t value whose rounding is representable
#include "vh.h"
#include "clp2.h"
void h_pow(void)
{
  size_t n = nd_size(), c, f;
  if (n >= 1 && n <= ((size_t)1 << 63)) {
    c = clp2(n);
    REACH("clp2");
    CHECK(c && (c & (c - 1)) == 0, "clp2() is a power of two");
    CHECK(c >= n && c/2 < n, "the smallest one not below n");
  }
  if (n >= 1) {
    f = flp2(n);
    REACH("flp2");
    CHECK(f && (f & (f - 1)) == 0, "flp2() is a power of two");
    CHECK(f <= n && n - f < f, "the largest one not above n");
  }
}
