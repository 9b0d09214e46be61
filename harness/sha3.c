/* Message digests: SHA-3 (sha3.c). */
//@property H01
//@sources src/utils/sha3.c
//@flags -Dunion=struct
//@entry h_sha3 unwind=155 fs=210 replace=keccakf:vh_perm3 safety=0 DEEP=0 /thorough DEEP=1 timeout=3000
//@entry h_sha3all unwind=110 fs=210 replace=keccakf:vh_perm3 safety=0
//@entry h_perm3 unwind=140 fs=210 REALPERM=1 safety=0
//@assume SHA-3: the union of words and bytes in the context is laid out as a structure, since the solver's front end mistreats arrays in unions
#include "digest.h"
static const int B3[] = {0, 128};
void h_sha3(void) { cases(3, 256, B3, 2); }
void h_sha3all(void)
{
  int k = nd_range(0, 1), l = nd_range(0, 2), i; u8 d[8], r[64];
  if (k) { for (i=0; i<3; i++) if (l == i) { run(3, 384, 101+i, 1, 1); REACH("384"); } }
  else { for (i=0; i<3; i++) if (l == i) { run(3, 512, 69+i, 1, 1); REACH("512"); } }
  CHECK(sha3_HashBuffer(256, SHA3_FLAGS_NONE, msg, 5, d, 8) == SHA3_RETURN_OK, "all in one");
  ref3(256, 5, r); for (i=0; i<8; i++) CHECK(d[i] == r[i], "truncated digest");
}
void h_perm3(void) { one(3); }
