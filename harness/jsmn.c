/* JSON texts are split into tokens (jsmn.h, jsmnx.c). */
//@property J01
//@sources src/utils/jsmnx.c
//@stubs err
//@entry h_any unwind=5 objbits=10 N=4 safety=0 cost=3 unwindset=jsmn_parse_string.1:5
//@entry h_few unwind=4 objbits=10 N=3 cost=2 unwindset=jsmn_parse_string.1:5 /thorough N=4 unwind=5 timeout=800
//@entry h_valid0 unwind=5 objbits=10 K=3 P=0 safety=0 cost=2 /thorough K=4 timeout=800
//@entry h_valid1 unwind=7 objbits=10 K=2 P=1 safety=0 cost=2 /thorough K=3 unwind=8 timeout=800
//@entry h_valid2 unwind=7 objbits=10 K=2 P=2 safety=0 cost=2 /thorough K=3 unwind=8 timeout=800
//@entry h_valid3 unwind=7 objbits=10 K=3 P=3 safety=0 cost=2 /thorough K=4 timeout=800
//@entry h_alloc unwind=30 objbits=10 fs=100 checks=leak
//@entry h_alloc0 unwind=8 objbits=10 fs=100
//@entry h_item unwind=50 objbits=10 fs=100
//@entry h_element unwind=50 objbits=10 fs=100
//@bound any text of 4 bytes, of 3 bytes with any number of tokens available; every JSON text of 4 bytes, every continuation by 2 or 3 bytes of an array, an object and a nested array; objects of two members and arrays of three elements of any kind, with keys of up to two arbitrary characters
#include "vh.h"
#include "jsmnx.h"
#ifndef N
#define N 5
#endif
static int same(const jsmntok_t *a, const jsmntok_t *b)
{ return a->type == b->type && a->start == b->start && a->end == b->end && a->size == b->size && a->parent == b->parent; }
static void filltok(jsmntok_t *t, int n) { int i; for (i=0; i<n; i++) { t[i].type = (jsmntype_t)7; t[i].start = 77; t[i].end = 77; t[i].size = 77; t[i].parent = 77; } }
/* any text, as many tokens as it can have */
void h_any(void)
{
  char js[N];
  static jsmntok_t t[N];
  jsmn_parser p;
  int i, j, r;
  nd_bytes(js, N);
  jsmn_init(&p); r = jsmn_parse(&p, js, N, t, N);
  CHECK(r >= 0 || r == JSMN_ERROR_INVAL || r == JSMN_ERROR_PART, "with enough tokens, a text is either parsed or invalid");
  if (r > 0) for (i=0; i<N; i++) if (i < r) {
    int ns = 0;
    for (j=0; j<N; j++) ns += (j < r && t[j].parent == i);
    CHECK(t[i].start >= 0 && t[i].start <= t[i].end && t[i].end <= N, "tokens refer to the text");
    CHECK(t[i].parent >= -1 && t[i].parent < i, "parents come first");
    CHECK(t[i].size == ns, "the size is the number of tokens inside");
    if (t[i].type == JSMN_STRING) CHECK(t[i].start > 0 && t[i].end < N && js[t[i].start-1] == '"' && js[t[i].end] == '"', "strings are between quotes");
    else if (t[i].type == JSMN_OBJECT) CHECK(js[t[i].start] == '{' && js[t[i].end-1] == '}', "objects are between braces");
    else if (t[i].type == JSMN_ARRAY) CHECK(js[t[i].start] == '[' && js[t[i].end-1] == ']', "arrays are between brackets");
    else CHECK(t[i].type == JSMN_PRIMITIVE && t[i].end > t[i].start, "others are primitives");
    REACH("token");
  }
}
/* any number of tokens available; text at the end of its buffer */
void h_few(void)
{
  char buf[N], *js;
  static jsmntok_t t[N], u[N];
  jsmn_parser p;
  int n = nd_range(0, N), c = nd_range(0, N), i, r, r0, rc;
  nd_bytes(buf, N);
  js = buf + (N - n);
  filltok(u, N);
  r0 = jsmn_required_tokens(js, n);
  jsmn_init(&p); r = jsmn_parse(&p, js, n, t, N);
  jsmn_init(&p); rc = jsmn_parse(&p, js, n, u, c);
  CHECK(r < 0 || r0 == r, "the number of tokens asked for is the number used");
  CHECK(r < 0 || rc == (c < r ? JSMN_ERROR_NOMEM : r), "too few tokens are reported");
  CHECK(r >= 0 || rc < 0, "invalid texts are not parsed with fewer tokens");
  for (i=0; i<N; i++) {
    if (i >= c) CHECK(u[i].start == 77 && u[i].end == 77 && u[i].size == 77, "tokens that are not available are not touched");
    if (r >= 0 && i < r && r <= c) CHECK(same(t+i, u+i), "tokens do not depend on their number");
  }
  if (r > 1) REACH("two tokens");
}
/* tokens allocated as needed */
static const char *docs[] = {"{}", "[1, 2, 3, 4]", "{\"a\":[{}, \"b\"], \"c\":null}", "{\"a\" x", "[[]"};
void h_alloc0(void)
{
  jsmntok_t *v = NULL;
  unsigned int nv = 0;
  jsmn_parser p;
  jsmn_init(&p);
  if (jsmn_parse_alloc(&p, "[1]", 3, &v, &nv) < 0) return;
  CHECK(nv >= 2 && v[0].type == JSMN_ARRAY && v[1].type == JSMN_PRIMITIVE && v[0].end == 3 && v[1].parent == 0, "a new buffer has room for all tokens");
  free(v);
  REACH("done");
}
void h_alloc(void)
{
  int k = nd_range(0, 4), a = nd_range(0, 3), i, j, m, r, rv, n;
  static jsmntok_t t[24];
  jsmntok_t *v = NULL;
  unsigned int nv = 0;
  jsmn_parser p;
  for (i=0; i<5; i++) for (j=0; j<4; j++) {
    if (i != k || j != a) continue;
    n = strlen(docs[i]);
    if (j) { v = calloc(j, sizeof(jsmntok_t)); nv = j; if (!v) return; }
    jsmn_init(&p); r = jsmn_parse(&p, docs[i], n, t, 24);
    jsmn_init(&p); rv = jsmn_parse_alloc(&p, docs[i], n, &v, &nv);
    CHECK(r < 0 ? rv < 0 : rv == r, "a text is parsed whatever number of tokens is given");
    if (r >= 0) {
      CHECK((int)nv >= r, "enough tokens are allocated");
      for (m=0; m<r; m++) CHECK(same(v+m, t+m), "tokens are the same");
      REACH("parsed");
    }
    free(v);
    return;
  }
}
/* JSON automaton (RFC 8259), object or array outermost */
enum { sVAL, sVALEND, sKEYEND, sKEY, sCOLON, sAFTER, sDONE, sSTR, sESC, sU1, sU2, sU3, sU4, sMINUS, sZERO, sINT, sDOT, sFRAC, sE, sESIGN, sEXP, sLIT, sBAD };
static jsmntok_t ref[12]; static int nref;
static int st, iskey, depth, stack[12], cur, litn, lit;
static void begin(jsmntype_t type, int start)
{
  int top = depth ? stack[depth-1] : -1, par;
  ref[nref].type = type; ref[nref].start = start; ref[nref].end = -1; ref[nref].size = 0;
  par = top;
  if (top >= 0 && ref[top].type == JSMN_OBJECT && !iskey) par = nref - 1;
  ref[nref].parent = par;
  if (par >= 0) ref[par].size++;
  cur = nref++;
}
static void after(void) { if (iskey) st = sCOLON; else st = depth ? sAFTER : sDONE; }
static void value(char c, int i)
{
  if (c == '"') { begin(JSMN_STRING, i+1); st = sSTR; }
  else if (c == '{' || c == '[') { begin(c == '{' ? JSMN_OBJECT : JSMN_ARRAY, i); stack[depth++] = cur; st = c == '{' ? sKEYEND : sVALEND; }
  else if (!depth) st = sBAD;
  else {
    begin(JSMN_PRIMITIVE, i);
    if (c == '-') st = sMINUS; else if (c == '0') st = sZERO; else if (c >= '1' && c <= '9') st = sINT;
    else if (c == 't') { lit = 't'; litn = 1; st = sLIT; } else if (c == 'f') { lit = 'f'; litn = 1; st = sLIT; } else if (c == 'n') { lit = 'n'; litn = 1; st = sLIT; }
    else st = sBAD;
  }
}
static int isd(char c) { return c >= '0' && c <= '9'; }
static int isx(char c) { return isd(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static char litc(void)
{
  if (lit == 't') return litn == 1 ? 'r' : litn == 2 ? 'u' : litn == 3 ? 'e' : 0;
  if (lit == 'f') return litn == 1 ? 'a' : litn == 2 ? 'l' : litn == 3 ? 's' : litn == 4 ? 'e' : 0;
  return litn == 1 ? 'u' : litn == 2 || litn == 3 ? 'l' : 0;
}
static void step(char c, int i)
{
  if (st == sZERO || st == sINT || st == sFRAC || st == sEXP || (st == sLIT && litn == (lit == 'f' ? 5 : 4))) {
    if (ws(c) || c == ',' || c == ']' || c == '}') { ref[cur].end = i; st = sAFTER; }
  }
  switch (st) {
  case sVAL: case sVALEND:
    if (ws(c)) break;
    if (c == ']' && st == sVALEND) { ref[stack[--depth]].end = i+1; after(); break; }
    value(c, i); break;
  case sKEYEND: case sKEY:
    if (ws(c)) break;
    if (c == '}' && st == sKEYEND) { ref[stack[--depth]].end = i+1; after(); break; }
    if (c != '"') { st = sBAD; break; }
    iskey = 1; begin(JSMN_STRING, i+1); st = sSTR; break;
  case sCOLON: if (ws(c)) break; if (c == ':') { iskey = 0; st = sVAL; } else st = sBAD; break;
  case sAFTER:
    if (ws(c)) break;
    if (c == ',') { st = ref[stack[depth-1]].type == JSMN_OBJECT ? sKEY : sVAL; break; }
    if ((c == ']' && ref[stack[depth-1]].type == JSMN_ARRAY) || (c == '}' && ref[stack[depth-1]].type == JSMN_OBJECT)) { ref[stack[--depth]].end = i+1; after(); break; }
    st = sBAD; break;
  case sDONE: if (!ws(c)) st = sBAD; break;
  case sSTR: if (c == '"') { ref[cur].end = i; after(); } else if (c == '\\') st = sESC; else if ((unsigned char)c < 32) st = sBAD; break;
  case sESC: st = c == 'u' ? sU1 : (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't') ? sSTR : sBAD; break;
  case sU1: st = isx(c) ? sU2 : sBAD; break;
  case sU2: st = isx(c) ? sU3 : sBAD; break;
  case sU3: st = isx(c) ? sU4 : sBAD; break;
  case sU4: st = isx(c) ? sSTR : sBAD; break;
  case sMINUS: st = c == '0' ? sZERO : isd(c) ? sINT : sBAD; break;
  case sZERO: st = c == '.' ? sDOT : (c == 'e' || c == 'E') ? sE : sBAD; break;
  case sINT: st = isd(c) ? sINT : c == '.' ? sDOT : (c == 'e' || c == 'E') ? sE : sBAD; break;
  case sDOT: st = isd(c) ? sFRAC : sBAD; break;
  case sFRAC: st = isd(c) ? sFRAC : (c == 'e' || c == 'E') ? sE : sBAD; break;
  case sE: st = isd(c) ? sEXP : (c == '+' || c == '-') ? sESIGN : sBAD; break;
  case sESIGN: case sEXP: st = isd(c) ? sEXP : sBAD; break;
  case sLIT: st = c == litc() ? sLIT : sBAD; litn++; break;
  }
}
#ifndef K
#define K 3
#define P 0
#endif
#define M (K + (P == 0 ? 1 : P == 3 ? 3 : 4))
static const char *prefix[] = {"[", "{\"\":", "[\"\",", "[[1"};
static void valid(void)
{
  char js[M];
  static jsmntok_t t[M];
  jsmn_parser p;
  int i, r, m = M, n = m - K;
  for (i=0; i<n; i++) js[i] = prefix[P][i];
  for (; i<m; i++) js[i] = nd_char();
  st = sVAL; depth = 0; nref = 0; iskey = 0;
  for (i=0; i<m && st != sBAD; i++) step(js[i], i);
  ASSUME(st != sBAD);
  jsmn_init(&p); r = jsmn_parse(&p, js, m, t, M);
  if (st != sDONE) {
    CHECK(r < 0, "an incomplete text is not accepted");
    REACH("incomplete");
    return;
  }
  CHECK(r == nref, "a JSON text is parsed");
  for (i=0; i<M; i++) if (i < nref) CHECK(same(t+i, ref+i), "tokens describe the text");
  REACH("complete");
}
void h_valid0(void) { valid(); }
void h_valid1(void) { valid(); }
void h_valid2(void) { valid(); }
void h_valid3(void) { valid(); }
/* looking up members and elements */
static char b[64]; static int bn;
static void put(const char *s) { while (*s) b[bn++] = *s++; }
static const char *vals[] = {"1", "\"a\"", "{\"a\":2}", "[{\"a\":1},3]"};
static const int cnt[] = {0, 0, 2, 4};
static char kc(void) { char c = nd_char(); ASSUME(c > 32 && c != '"' && c != '\\' && c != 127); return c; }
static void item1(int v, int l)
{
  static jsmntok_t t[24];
  jsmn_parser p;
  char k[3], m[3], q[3];
  const jsmntok_t *x;
  int i, s1, s2, k1, k2, r;
  for (i=0; i<3; i++) k[i] = m[i] = q[i] = 0;
  k[0] = kc(); if (l & 1) k[1] = kc();
  m[0] = kc(); if (l & 2) m[1] = kc();
  q[0] = kc(); if (nd_range(0, 1)) q[1] = kc();
  bn = 0; put("{\""); k1 = bn; put(l & 1 ? "kk" : "k"); put("\":"); s1 = bn; put(vals[v]); put(", \""); k2 = bn; put(l & 2 ? "kk" : "k"); put("\":"); s2 = bn; put(vals[3-v]); put("}"); b[bn] = 0;
  jsmn_init(&p); r = jsmn_parse(&p, b, bn, t, 24);
  CHECK(r == 5 + cnt[v] + cnt[3-v] && jsmn_count(t) == r - 1, "the object is parsed");
  b[k1] = k[0]; if (l & 1) b[k1+1] = k[1];
  b[k2] = m[0]; if (l & 2) b[k2+1] = m[1];
  x = jsmn_item(b, t, q);
  if (!strcmp(q, k)) { CHECK(x && x->start == s1 + (v == 1), "the value of the first member with this key"); REACH("first"); }
  else if (!strcmp(q, m)) { CHECK(x && x->start == s2 + (v == 2), "the value of the member with this key"); REACH("second"); }
  else { CHECK(!x, "keys of other objects and keys that only begin the same are not found"); REACH("none"); }
}
void h_item(void)
{
  int v = nd_range(0, 3), l = nd_range(0, 3), i, j;
  for (i=0; i<4; i++) for (j=0; j<4; j++) if (i == v && j == l) { item1(i, j); return; }
}
void h_element(void)
{
  static jsmntok_t t[24];
  jsmn_parser p;
  const jsmntok_t *x;
  int v = nd_range(0, 3), e = nd_range(-1, 3), s[3], i, j, r;
  for (i=0; i<4; i++) for (j=-1; j<4; j++) {
    if (i != v || j != e) continue;
    bn = 0; put("["); s[0] = bn; put(vals[i]); put(", "); s[1] = bn; put(vals[3-i]); put(","); s[2] = bn; put("\"b\"]"); b[bn] = 0;
    jsmn_init(&p); r = jsmn_parse(&p, b, bn, t, 24);
    CHECK(r == 4 + cnt[i] + cnt[3-i] && jsmn_count(t) == r - 1, "the array is parsed");
    x = jsmn_element(b, t, j);
    if (j < 0 || j > 2) CHECK(!x, "no such element");
    else { CHECK(x && x->start == s[j] + (b[s[j]] == '"'), "the element asked for"); REACH("element"); }
    CHECK(!jsmn_item(b, t, "a"), "arrays have no members");
    return;
  }
}
