/* Bounded string writes. */
//@property S02
//@sources src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_strsets unwind=10 N=6 /thorough unwind=14 N=10
//@entry h_strput unwind=13 N=4 FIXHEAP=12 cost=2 /thorough unwind=18 N=7 FIXHEAP=16
//@entry h_escape unwind=17 N=3 FIXHEAP=16 cost=3 /thorough unwind=33 N=5 FIXHEAP=32
//@entry h_natoi unwind=8 N=4
//@bound strings of at most N bytes, any bytes; buffers of at most N+2 bytes, positions up to 4
#include "vh.h"
#include "strutils.h"
#ifndef N
#define N 4
#endif

/* valid UTF-8 up to the terminating NUL (at most max bytes) */
static int valid_utf8(const char *s, int max)
{
  int i, rem = 0;
  for (i=0; i<=max; i++) {
    unsigned char c = s[i];
    if (rem) { if ((c & 0xc0) != 0x80) return 0; rem--; }
    else if (c == 0) return 1;
    else if (c < 0x80) rem = 0;
    else if (c >= 0xc2 && c < 0xe0) rem = 1;
    else if (c >= 0xe0 && c < 0xf0) rem = 2;
    else if (c >= 0xf0 && c < 0xf5) rem = 3;
    else return 0;
  }
  return 1;
}

static void strsets_case(int size)
{
  char s[N+1], buf[N+3];
  int n = nd_str(s, N), m, i, len = nd_range(-1, N), full, w;
  for (i=0; i<N+3; i++) buf[i] = 'G';
  if (len > n) len = n;
  m = (len < 0) ? strsets(buf, size, s) : strsetn(buf, size, s, len);
  full = (len < 0) ? n : len;
  CHECK(m == full, "returns the length of the source");
  for (i=size; i<N+3; i++) CHECK(buf[i] == 'G', "nothing is written behind the buffer");
  if (size > 0) {
    int valid = (len < 0) && valid_utf8(s, N);
    w = 0; while (w < size && buf[w]) w++;
    CHECK(w < size, "terminated");
    CHECK(w <= full, "not longer than the source");
    for (i=0; i<size; i++) if (i < w) CHECK(buf[i] == s[i], "prefix of the source");
    if (valid) {
      if (size > full) { REACH("fits"); CHECK(w == full, "complete when it fits"); }
      else {
        if (size == 4) REACH("truncated");
        CHECK(valid_utf8(buf, size-1), "no partial code point is written");
        CHECK(w >= size - 4, "truncated only as much as needed");
      }
    }
  }
}
void h_strsets(void)
{
  int size = nd_range(0, N+2), k;
  for (k=0; k<=N+2; k++) if (size == k) { strsets_case(k); break; }
}

void h_strput(void)
{
  char s[N+1], *buf = NULL;
  size_t size = 0;
  int use = nd_range(0, 2), pos = nd_range(0, 3), m, i, len = nd_range(-1, N), full;
  int n = nd_str(s, N);
  if (len > n) len = n;
  full = (len < 0) ? n : len;
  if (use) {
    size = 5;
    buf = malloc(5);
    for (i=0; i<5; i++) buf[i] = 'x';
  } else pos = 0;
  m = strnput(&buf, (use == 2) ? NULL : &size, pos, s, len);
  REACH("put");
  CHECK(m == full, "returned length");
  if (use != 2) CHECK(size >= (size_t)pos + m + 1, "size covers the text");
  for (i=0; i<N; i++) if (i < m) CHECK(buf[pos+i] == s[i], "text");
  CHECK(buf[pos+m] == 0, "terminated");
  for (i=0; i<3; i++) if (i < pos) CHECK(buf[i] == 'x', "bytes in front of pos are kept");
  free(buf);
}

/* percent-like escaping: decoding the result gives the source back */
static int hexval(char c)
{ return (c >= '0' && c <= '9') ? c - '0' : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static void escape_case(int use)
{
  char s[N+1], *buf = NULL;
  int n = nd_str(s, N);
  size_t size = 0, pos = 0;
  int m, i, j, cat = nd_range(strcatUpper, strcatReserved);
  if (use) {
    buf = malloc(4); size = 4; pos = 2;
    buf[0] = buf[1] = 'x'; buf[2] = buf[3] = 0;
  }
  m = strnput_escape(&buf, &size, pos, s, -1, cat, "%");
  REACH("escaped");
  CHECK(m >= (int)pos, "no error");
  CHECK(size > (size_t)m && buf[m] == 0, "terminated inside the buffer");
  for (i=pos, j=0; i<m; j++) {
    CHECK(j < n, "not more characters than in the source");
    if (buf[i] == '%') {
      int a = hexval(buf[i+1]), b = hexval(buf[i+2]);
      CHECK(a >= 0 && b >= 0 && (char)(16*a + b) == s[j], "escaped byte");
      CHECK((int)strcategory(s[j]) > cat, "only other categories are escaped");
      i += 3;
    } else {
      CHECK(buf[i] == s[j], "unescaped byte");
      i++;
    }
  }
  CHECK(j == n, "all characters are written");
  if (pos) CHECK(buf[0] == 'x' && buf[1] == 'x', "bytes in front of pos are kept");
  free(buf);
}
void h_escape(void)
{
  int use = nd_range(0, 1);
  if (use) escape_case(1); else escape_case(0);
}

/* natoi() reads at most n bytes and agrees with a plain decimal reading */
void h_natoi(void)
{
  char b[N], *s;
  int n = nd_range(0, N), i, v, x = 0, neg = 0;
  s = b + (N - n);
  for (i=0; i<N; i++) b[i] = nd_char();
  v = natoi(s, n);
  i = 0;
  while (i < n && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
  if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  for (; i < n && s[i] >= '0' && s[i] <= '9'; i++) x = 10*x + (s[i] - '0');
  if (x > 9) REACH("number");
  CHECK(v == (neg ? -x : x), "value");
}
