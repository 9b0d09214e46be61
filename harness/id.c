/* Identifiers of instances (dlite-misc.c). */
//@property L01
//@sources src/dlite-misc.c src/utils/uuid.c
//@stubs err
//@nobody SHA1Init SHA1Update SHA1Final MD5Init MD5Update MD5Final uuid4_generate isurln isurl dlite_behavior_get
//@entry h_uuid unwind=75 safety=0 PRINTF_FULL=1 fs=330 objbits=11 /thorough safety=1 DEEP=1
//@entry h_text unwind=45 objbits=10
//@entry h_long unwind=300 safety=0 PRINTF_FULL=1 fs=320
//@entry h_norm unwind=82 safety=0 PRINTF_FULL=1 fs=330 objbits=11 /thorough safety=1 DEEP=1
//@assume whether an id is a URL is arbitrary here (L02 decides it), except that a normalised id is one; the digest is replaced by a record of what is digested
//@bound ids of 1, 3, 35-37, 45-47 arbitrary characters (thorough up to 52), the last being a hash, a slash or a letter; ids of 230 and 260 characters
#include "vh.h"
#include "dlite.h"
#include "dlite-misc.h"
#include "uuid.h"
#include "sha1.h"
#include "md5.h"
#ifndef DEEP
#define DEEP 0
#endif
#define NS "http://onto-ns.com/data"
static unsigned char H[20] = {0xAA,0xBB}; static char in[320]; static int nin, nhash, nrand;
void SHA1Init(SHA1_CTX *c) { (void)c; nin = 0; nhash++; }
void SHA1Update(SHA1_CTX *c, const unsigned char *p, uint32_t n) { uint32_t i; (void)c; for (i=0; i<n; i++) if (nin < 320) in[nin++] = p[i]; }
void SHA1Final(unsigned char d[20], SHA1_CTX *c) { (void)c; memcpy(d, H, 20); }
void MD5Init(MD5_CTX *c) { (void)c; CHECK(0, "names are digested with SHA-1"); }
void MD5Update(MD5_CTX *c, const void *p, unsigned long n) { (void)c; (void)p; (void)n; }
void MD5Final(unsigned char *d, MD5_CTX *c) { (void)c; (void)d; }
int uuid4_generate(char *s) { int i; nrand++; for (i=0; i<36; i++) s[i] = (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : '7'; s[36] = 0; return 0; }
static int url;   /* whether the id is a URL */
static int isu(const char *s, int n) { (void)s; (void)n; return url; }
int isurln(const char *s, int n) { return isu(s, n); }
int isurl(const char *s) { return isu(s, (int)strlen(s)); }
static int nsid;
int dlite_behavior_get(const char *name) { CHECK(!strcmp(name, "namespacedID"), "behavior"); return nsid; }
static int hx(int c) { return (c >= '0' & c <= '9') | (c >= 'a' & c <= 'f') | (c >= 'A' & c <= 'F'); }
static int valid(const char *s)
{ int i, ok = 1; for (i=0; i<36; i++) ok &= (i == 8 || i == 13 || i == 18 || i == 23) ? s[i] == '-' : hx(s[i]); return ok; }
static char low(char c) { return (c >= 'A' & c <= 'Z') ? c + 32 : c; }
/* lengths, whether a URL, last character (0: any but hash and slash) */
static const struct { int n, url; char last; } cs[] = {
  {1, 0, 0}, {3, 0, '/'}, {3, 1, '#'}, {36, 0, 0}, {37, 0, '/'}, {45, 1, 0}, {46, 1, 0}, {47, 1, '#'},
  {1, 1, 0}, {1, 0, '/'}, {3, 0, 0}, {3, 1, 0}, {3, 0, '#'}, {35, 0, 0},
  {36, 1, '/'}, {37, 0, 0}, {37, 1, 0}, {46, 1, '/'}, {46, 0, 0}, {47, 1, 0},
  {36, 1, 0}, {44, 1, 0}, {48, 1, '/'}, {50, 1, 0}, {52, 1, '#'}, {52, 0, 0}};
#define NL (DEEP ? 26 : 8)
static void mkid(char *s, int n, int last)
{ int i; for (i=0; i<n; i++) { s[i] = nd_char(); ASSUME(s[i]); } for (; i<56; i++) s[i] = 0;
  if (last) s[n-1] = last; else s[n-1] = 'c'; }
/* what the UUID of the id s[0..n) is made of: 0 random, 1 copied from s+*at, 2 digest of s, 3 digest of NS/s */
static int rule(const char *s, int n, int *at)
{
  *at = 0;
  if (n == 0) return 0;
  if (n == 36 && valid(s)) return 1;
  if (isu(s, n)) { *at = n-36; return (n-36 > 9 && valid(s+n-36)) ? 1 : 2; }
  return nsid ? 3 : 2;
}
static int expect(const char *id, int len, DLiteIdType t, const char *buf)
{
  int i, at, r, pre = sizeof(NS);
  if (len > 1 && (id[len-1] == '/' || id[len-1] == '#')) len--;
  r = rule(id, len, &at);
  CHECK(t == (r == 0 ? dliteIdRandom : r == 1 ? dliteIdCopy : dliteIdHash), "id type");
  CHECK(nrand == (r == 0) && nhash == (r >= 2), "random, copied or digested");
  if (r == 0) { CHECK(buf[0] == '7' && buf[36] == 0, "random UUID"); return r; }
  if (r == 1) { for (i=0; i<36; i++) CHECK(buf[i] == low(id[at+i]), "copied in lower case"); CHECK(buf[36] == 0, "terminated"); return r; }
  CHECK(buf[0] == 'a' && buf[2] == 'b' && buf[36] == 0, "digest as UUID in lower case");
  if (r == 3) {
    CHECK(nin == 16 + pre + len, "number of characters digested");
    for (i=0; i<pre; i++) CHECK(in[16+i] == (NS "/")[i], "name space");
    for (i=0; i<len; i++) CHECK(in[16+pre+i] == id[i], "id is digested");
  } else {
    CHECK(nin == 16 + len, "number of characters digested");
    for (i=0; i<len; i++) CHECK(in[16+i] == id[i], "id is digested");
  }
  return r;
}
static void uuid(int k, int more)
{
  char s[56], b[40]; int n = cs[k].n; DLiteIdType t;
  mkid(s, n, cs[k].last); if (more) s[n] = s[n+1] = 'a';
  url = cs[k].url;
  t = dlite_get_uuidn(b, s, n);
  switch (expect(s, n, t, b)) { case 1: REACH("copied"); break; case 2: REACH("digest"); break; case 3: REACH("name"); break; }
  CHECK(dlite_idtypen(s, n) == t, "id type without UUID");
}
void h_uuid(void)
{
  int k, sel = nd_range(0, NL), ns = nd_range(0, 1); char b[40];
  if (sel == NL) { CHECK(dlite_get_uuid(b, NULL) == dliteIdRandom && nrand == 1 && dlite_idtype(NULL) == dliteIdRandom && dlite_idtype("") == dliteIdRandom, "random UUID if there is no id"); return; }
  for (k=0; k<NL; k++) if (sel == k) { if (ns) { nsid = 1; uuid(k, 1); } else { nsid = 0; uuid(k, 0); } return; }
}
/* functions without length */
void h_text(void)
{
  char s[4], b[40], c[40], o[40], p[40]; int n = nd_str(s, 3), m; DLiteIdType t;
  url = nd_range(0, 1); nsid = 1;
  t = dlite_get_uuid(b, s);
  CHECK(dlite_idtype(s) == t, "id type");
  if (t == dliteIdHash) { int n1 = nin, i; char first[40]; memcpy(first, in, 40); nin = 0;
    CHECK(dlite_get_uuidn(c, s, n) == t, "with length"); CHECK(n1 == nin, "same text digested"); for (i=0; i<40; i++) if (i < nin) CHECK(first[i] == in[i], "same text digested"); REACH("digested"); }
  m = dlite_normalise_id(o, sizeof o, s, "u:");
  CHECK(dlite_normalise_idn(p, sizeof p, s, n, "u:") == m && !strcmp(o, p), "normalised with length");
}
void h_long(void)
{
  static char s[264], b[40]; int i, cut = nd_range(0, 1);
  nsid = 1;
  for (i=0; i<260; i++) s[i] = 'a' + i%26;
  s[100] = nd_char(); ASSUME(s[100]);
  if (cut) expect(s, 230, dlite_get_uuidn(b, s, 230), b); else expect(s, 260, dlite_get_uuidn(b, s, 260), b);
  REACH("long");
}
/* normalised ids and the UUIDs they have */
static void norm(int k, int ns, int more)
{
  char s[56], o[80], a[40], b[40]; int i, m, n = cs[k].n, len = n, pre; const char *uri, *p;
  uri = ns == 0 ? NULL : ns == 1 ? "x:/y#" : "x:y";
  p = ns == 0 ? NS "/" : ns == 1 ? "x:/y#" : "x:y/";
  mkid(s, n, cs[k].last); if (more) s[n] = s[n+1] = 'a';
  url = cs[k].url;
  memset(o, 'Z', sizeof o);
  m = dlite_normalise_idn(o, sizeof o, s, n, uri);
  if (len > 0 && cs[k].last) len--;
  pre = cs[k].url ? 0 : (int)strlen(p);
  if (len == 0) return;
  CHECK(m == pre + len, "length of the normalised id");
  for (i=0; i<pre; i++) CHECK(o[i] == p[i], "name space");
  for (i=0; i<len; i++) CHECK(o[pre+i] == s[i], "id without final hash or slash");
  CHECK(o[pre+len] == 0 && o[pre+len+1] == 'Z', "terminated");
  if (n == 3) { char q[4] = "QQQ"; CHECK(dlite_normalise_idn(q, 2, s, n, uri) == m && q[2] == 'Q', "length does not depend on the buffer"); CHECK(q[0] == o[0] && q[1] == 0, "truncated"); }
  /* same UUID */
  if (ns == 0 && !(s[len-1] == '/' || s[len-1] == '#') && (len < 36 || !valid(s+len-36))) {
    char first[112]; int n1;
    nsid = 1;
    dlite_get_uuidn(a, s, n); n1 = nin; memcpy(first, in, 112);
    nin = 0; url = 1;
    dlite_get_uuidn(b, o, pre+len);
    CHECK(nhash == 2 && n1 == nin && n1 == 16+pre+len, "same text digested");
    for (i=0; i<37; i++) CHECK(a[i] == b[i], "same UUID");
    for (i=0; i<16+pre+len; i++) CHECK(in[i] == first[i], "same text digested");
    REACH("digested");
  }
}
void h_norm(void)
{
  int k, sel = nd_range(0, NL-1), v = nd_range(0, cs[sel].n == 3 ? 2 : 0);
  for (k=0; k<NL; k++) if (sel == k) { if (v == 0) norm(k, 0, 0); else if (cs[k].n != 3) ; else if (v == 1) norm(k, 1, 1); else norm(k, 2, 0); return; }
}
