/* Message digests SHA-1 and MD5 (sha1.c, md5.c). */
//@property H01
//@sources src/utils/sha1.c src/utils/md5.c
//@entry h_sha1 objbits=12 unwind=135 fs=210 replace=SHA1Transform:vh_perm1 safety=0 DEEP=0 /thorough DEEP=1 timeout=3000
//@entry h_md5 unwind=135 fs=210 replace=body:vh_perm5 safety=0 DEEP=0 /thorough DEEP=1 timeout=3000
//@entry h_long1 objbits=12 unwind=210 fs=210 MSG=200 replace=SHA1Transform:vh_perm1 safety=0
//@entry h_long5 objbits=12 unwind=210 fs=210 MSG=200 replace=body:vh_perm5 safety=0
//@entry h_perm1 unwind=140 fs=210 REALPERM=1 safety=0
//@entry h_perm5 unwind=140 fs=210 REALPERM=1 safety=0
//@assume for splitting and padding, the function applied to each block is replaced by a simple one, the same in the code and in the specification; it is compared with its specification for one symbolic byte
//@bound messages of up to 195 arbitrary bytes around the block sizes, in up to three pieces
#include "digest.h"
static const int B1[] = {0, 48, 120};
void h_sha1(void) { cases(1, 0, B1, DEEP ? 3 : 2); }
void h_md5(void) { cases(5, 0, B1, DEEP ? 3 : 2); }
static const int L[][3] = {{0, 128, 0}, {1, 127, 1}, {16, 112, 0}, {60, 132, 3}, {64, 64, 64}, {5, 59, 130}};
void h_long1(void) { longs(1, 0, L, 6); }
void h_long5(void) { longs(5, 0, L, 6); }
void h_perm1(void) { one(1); }
void h_perm5(void) { one(5); }
