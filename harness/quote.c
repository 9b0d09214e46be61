/* String quoting: quote/unquote round trip, JSON validity, truncation, bounds. */
//@property S01
//@sources src/utils/strutils.c src/utils/compat.c src/utils/clp2.c
//@entry h_roundtrip unwind=16 N=5 cost=3 /thorough unwind=24 N=8
//@entry h_roundtrip_n unwind=16 N=4 cost=3 /thorough unwind=20 N=6
//@entry h_json_valid unwind=16 N=4 /thorough unwind=20 N=7
//@entry h_truncate unwind=14 N=4 /thorough unwind=20 N=6
//@entry h_unquote_any unwind=14 N=5 cost=4 /thorough unwind=20 N=8
//@entry h_put_unquote unwind=17 N=4 FIXHEAP=12 cost=2 /thorough unwind=20 N=6
//@bound strings of at most N bytes (see entries), any bytes; buffers of at most 2N+4 bytes
#include "vh.h"
#include "strutils.h"

#ifndef N
#define N 5
#endif

/* unquote(quote(s)) == s, whatever s contains; with and without the surrounding quotes */
void h_roundtrip(void)
{
  char s[N+1], q[2*N+4], r[N+2];
  int consumed = -99, n, m, k, x;
  StrquoteFlags flags = nd_range(0, 1) ? strquoteNoQuote : 0;
  n = nd_str(s, N);
  m = strnquote(q, sizeof(q), s, -1, flags);
  x = (flags & strquoteNoQuote) ? 0 : 2;
  CHECK(m >= n + x && m <= 2*n + x, "quoted length");
  CHECK((int)strlen(q) == m, "quoted result is terminated at the returned length");
  if (x) CHECK(q[0] == '"' && q[m-1] == '"', "starts and ends with a quote");
  k = strnunquote(r, sizeof(r), q, -1, &consumed, flags | strquoteInitialBlanks);
  REACH("roundtrip");
  CHECK(k == n, "unquoted length is the original length");
  CHECK(!strcmp(s, r), "unquoted string is the original string");
  CHECK(consumed == m, "the whole quoted string is consumed");
}

/* quoting the first n bytes, then reading the text between the quotes */
void h_roundtrip_n(void)
{
  char sb[N+1], *s = nd_endstr(sb, N), q[2*N+4], r[N+2];
  int n = nd_range(0, N), len = strlen(s), m, k, i;
  if (n > len) n = len;
  m = strnquote(q, sizeof(q), s, n, 0);
  k = strnunquote(r, sizeof(r), q + 1, m - 2, NULL, strquoteNoQuote);
  REACH("roundtrip");
  CHECK(k == n, "length of the text between the quotes");
  for (i=0; i<n; i++) CHECK(r[i] == s[i], "bytes of the text between the quotes");
  CHECK(r[n] == 0, "terminated");
}

/* every backslash in the quoted string starts a valid JSON escape, and the
   only unescaped double-quotes are the first and the last byte */
void h_json_valid(void)
{
  char s[N+1], q[2*N+4];
  int m, i, esc = 0, u = 0;
  nd_str(s, N);
  m = strquote(q, sizeof(q), s);
  REACH("quoted");
  for (i=1; i<m-1; i++) {
    char c = q[i];
    if (u) {
      CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), "hex digit in unicode escape");
      u--;
    } else if (esc) {
      CHECK(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' ||
            c == 'r' || c == 't' || c == 'u', "valid escape");
      esc = 0;
      if (c == 'u') u = 4;
    } else {
      CHECK(c != '"', "embedded double-quotes are escaped");
      if (c == '\\') esc = 1;
    }
  }
  CHECK(!esc && !u, "final quote is not escaped");
}

/* a too small buffer never overflows and the return value tells the full size */
void h_truncate(void)
{
  char s[N+1], full[2*N+4], bb[2*N+3], *buf;
  int size, m, m2, i, w;
  StrquoteFlags flags = nd_range(0, 7);
  nd_str(s, N);
  size = nd_range(0, 2*N + 3);
  m = strnquote(full, sizeof(full), s, -1, flags);
  buf = bb + (2*N + 3 - size);
  m2 = strnquote(size ? buf : NULL, size, s, -1, flags);
  CHECK(m == m2, "returned length does not depend on the buffer size");
  if (size > 0 && size <= m) REACH("truncated");
  if (size > 0) {
    w = (m < size) ? m : size - 1;
    CHECK(buf[w] == 0, "terminated");
    for (i=0; i<w; i++) CHECK(buf[i] == full[i], "prefix of the full result");
  }
}

/* any input: no memory error, error code or a length that fits the text */
void h_unquote_any(void)
{
  char sb[N+1], *s = nd_endstr(sb, N), bb[N+2], *buf;
  int size = nd_range(0, N+2), consumed = -99, m, flags = nd_range(0, 7);
  int len = strlen(s);
  buf = bb + (N+2 - size);
  m = strnunquote(size ? buf : NULL, size, s, -1, &consumed, flags);
  if (m >= 0) {
    REACH("accepted");
    CHECK(m <= len, "not longer than its source");
    CHECK(consumed >= 0 && consumed <= len, "consumed stays inside the source");
    if (size > 0) CHECK((int)strlen(buf) == ((m < size) ? m : size - 1), "terminated");
  } else REACH("rejected");
  if (flags == strquoteRaw) {
    CHECK(m == len, "raw: length");
    if (size > 0 && m < size) CHECK(!strcmp(buf, s), "raw: copied unchanged");
  }
}

/* the allocating variant gives the same text, at the wanted position */
void h_put_unquote(void)
{
  char s[N+1], q[2*N+4], *buf = NULL;
  size_t size = 0, pos = nd_range(0, 3);
  int n = nd_str(s, N), m, i;
  if (nd_range(0, 1)) {
    size = 6;
    buf = malloc(size);
    for (i=0; i<6; i++) buf[i] = 'x';
  } else
    pos = 0;
  strquote(q, sizeof(q), s);
  m = strnput_unquote(&buf, &size, pos, q, -1, NULL, 0);
  REACH("put");
  CHECK(m == n, "length");
  CHECK(size > pos + m, "reported size holds the text");
  CHECK(!strcmp(buf + pos, s), "text");
  for (i=0; i<(int)pos; i++) CHECK(buf[i] == 'x', "bytes in front of pos are kept");
  free(buf);
}
