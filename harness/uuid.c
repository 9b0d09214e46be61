/* UUIDs (uuid.c, uuid4.c). */
//@property U01
//@sources src/utils/uuid.c src/utils/uuid4.c
//@nobody SHA1Init SHA1Update SHA1Final MD5Init MD5Update MD5Final rand_msws64 srand_msws64
//@entry h_isuuid unwind=40
//@entry h_fromstr unwind=40 unwindset=nd_str.0:40
//@entry h_named unwind=40
//@entry h_uuid4 unwind=40
//@entry h_compare unwind=8
//@assume the digest (SHA-1, MD5) and the random generator return arbitrary values
//@bound all texts of up to 37 characters; names of 3 bytes
#include "vh.h"
#include "uuid.h"
#include "uuid4.h"
#include "sha1.h"
#include "md5.h"
#include "rng.h"
static uint64_t rnd[2]; static int nr, nseed;
static unsigned char H[20]; static unsigned char in[64]; static int nin, alg;
static void upd(const void *p, int n) { int i; for (i=0; i<n; i++) { if (nin < 64) in[nin] = ((const unsigned char *)p)[i]; nin++; } }
void SHA1Init(SHA1_CTX *c) { (void)c; nin = 0; alg = 5; }
void SHA1Update(SHA1_CTX *c, const unsigned char *p, uint32_t n) { (void)c; upd(p, (int)n); }
void SHA1Final(unsigned char d[20], SHA1_CTX *c) { (void)c; memcpy(d, H, 20); }
void MD5Init(MD5_CTX *c) { (void)c; nin = 0; alg = 3; }
void MD5Update(MD5_CTX *c, const void *p, unsigned long n) { (void)c; upd(p, (int)n); }
void MD5Final(unsigned char *d, MD5_CTX *c) { (void)c; memcpy(d, H, 16); }
uint64_t rand_msws64(void) { return rnd[nr++ & 1]; }
int srand_msws64(uint64_t s) { (void)s; nseed++; return 0; }
static int hx(int c) { return (c >= '0' & c <= '9') ? c - '0' : (c >= 'a' & c <= 'f') ? c - 'a' + 10 : (c >= 'A' & c <= 'F') ? c - 'A' + 10 : -1; }
static int hyphen(int i) { return i == 8 || i == 13 || i == 18 || i == 23; }
static int valid(const char *s)
{ int i, ok = 1; for (i=0; i<36; i++) ok &= hyphen(i) ? s[i] == '-' : hx(s[i]) >= 0; return ok; }
/* the 16 bytes written in a UUID */
static void bytes(const char *s, unsigned char b[16])
{ int i, k; for (i=k=0; i<36; i++) { if (hyphen(i)) continue; if (k & 1) b[k/2] |= hx(s[i]); else b[k/2] = hx(s[i]) << 4; k++; } }
void h_isuuid(void)
{
  char s[38]; nd_str(s, 37);
  CHECK(!isuuid(s) == !valid(s), "a UUID is 8-4-4-4-12 hexadecimal digits"); REACH("compared");
}
void h_fromstr(void)
{
  char s[40], o[38]; uuid_s u; int i, r, len = nd_range(0, 40);
  memset(&u, 0x5a, sizeof u); memset(s, 0, sizeof s);
  for (i=0; i<37; i++) s[i] = nd_char();
  s[37] = 0;
  r = uuid_from_string(&u, s, len);
  CHECK((r == 0) == (len == 36 && valid(s)), "only UUIDs are accepted");
  CHECK(uuid_from_string(NULL, s, len) == r, "checking the format only");
  if (r) { CHECK(u.time_low == 0x5a5a5a5a && u.node[5] == 0x5a, "left alone when refused"); return; }
  uuid_as_string(&u, o);
  for (i=0; i<36; i++) CHECK(o[i] == (s[i] >= 'A' & s[i] <= 'F' ? s[i] + 32 : s[i]), "written again as it was read, in lower case");
  CHECK(o[36] == 0, "terminated");
  REACH("read");
}
void h_named(void)
{
  uuid_s u; char name[3], o[38]; int i, n = nd_range(0, 3), md5 = nd_range(0, 1); unsigned char b[16];
  static const unsigned char dns[16] = {0x6b,0xa7,0xb8,0x10,0x9d,0xad,0x11,0xd1,0x80,0xb4,0,0xc0,0x4f,0xd4,0x30,0xc8};
  nd_bytes(H, 20); nd_bytes(name, 3);
  if (md5) uuid_create_md5_from_name(&u, NameSpace_DNS, name, n);
  else uuid_create_sha1_from_name(&u, NameSpace_DNS, name, n);
  CHECK(alg == (md5 ? 3 : 5) && nin == 16+n, "digest of the name space followed by the name");
  for (i=0; i<16; i++) CHECK(in[i] == dns[i], "name space in network order");
  for (i=0; i<3; i++) if (i < n) CHECK(in[16+i] == (unsigned char)name[i], "name");
  uuid_as_string(&u, o);
  CHECK(valid(o), "a UUID");
  bytes(o, b);
  for (i=0; i<16; i++)
    CHECK(b[i] == (i == 6 ? ((H[6] & 0x0f) | (md5 ? 0x30 : 0x50)) : i == 8 ? ((H[8] & 0x3f) | 0x80) : H[i]), "digest with version and variant");
  REACH("named");
}
void h_uuid4(void)
{
  char o[40]; int i, k, n = 0; unsigned char b[16]; uuid_s u;
  rnd[0] = nd_u64(); rnd[1] = nd_u64(); memset(o, 'Z', sizeof o);
  CHECK(uuid4_generate(o) == 0, "generated");
  CHECK(nseed == 1, "the generator is seeded first");
  CHECK(o[36] == 0 && o[37] == 'Z' && valid(o), "a UUID");
  for (i=0; i<36; i++) CHECK(!(o[i] >= 'A' && o[i] <= 'F'), "in lower case");
  bytes(o, b);
  CHECK((b[6] >> 4) == 4 && (b[8] >> 6) == 2, "version 4, variant 1");
  /* all other bits are random bits: 30 digits of 4 and one of 2 bits, none used twice */
  for (i=k=0; i<36; i++) {
    int d, rb, v;
    if (hyphen(i) || i == 14) continue;
    rb = (int)(rnd[k/16] >> (8*((k%16)/2))) & 255; v = (k & 1) ? rb >> 4 : rb & 15; d = hx(o[i]);
    CHECK(i == 19 ? (d & 3) == (v & 3) : d == v, "digits are random"); k++; n++;
  }
  CHECK(n == 31, "31 digits");
  nr = 0;
  CHECK(uuid_create_random(&u) == 0 && nseed == 1, "random UUID");
  { char p[38]; uuid_as_string(&u, p); for (i=0; i<37; i++) CHECK(o[i] == p[i], "same digits"); }
  REACH("random");
}
void h_compare(void)
{
  uuid_s u, v; int r, i, e = 0;
  u.time_low = nd_u32(); v.time_low = nd_u32(); u.time_mid = nd_u16(); v.time_mid = nd_u16();
  u.time_hi_and_version = nd_u16(); v.time_hi_and_version = nd_u16();
  u.clock_seq_hi_and_reserved = nd_u8(); v.clock_seq_hi_and_reserved = nd_u8();
  u.clock_seq_low = nd_u8(); v.clock_seq_low = nd_u8();
  for (i=0; i<6; i++) { u.node[i] = nd_u8(); v.node[i] = nd_u8(); }

  r = uuid_compare(&u, &v);
  e = u.time_low != v.time_low ? (u.time_low < v.time_low ? -1 : 1) : u.time_mid != v.time_mid ? (u.time_mid < v.time_mid ? -1 : 1) :
    u.time_hi_and_version != v.time_hi_and_version ? (u.time_hi_and_version < v.time_hi_and_version ? -1 : 1) :
    u.clock_seq_hi_and_reserved != v.clock_seq_hi_and_reserved ? (u.clock_seq_hi_and_reserved < v.clock_seq_hi_and_reserved ? -1 : 1) :
    u.clock_seq_low != v.clock_seq_low ? (u.clock_seq_low < v.clock_seq_low ? -1 : 1) : 0;
  for (i=0; i<6 && !e; i++) e = u.node[i] < v.node[i] ? -1 : u.node[i] > v.node[i] ? 1 : 0;
  CHECK(r == e, "order of UUIDs"); REACH("compared");
}
