/* libc.c -- solver-side definitions of libc functions that CBMC's own library
   lacks or only over-approximates.  Not used by native replays (those run on
   the real libc).  Plain C transcriptions of the C standard's wording. */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <limits.h>

typedef struct _IO_FILE FILE;
int nondet_vh_int(void);
double nondet_vh_double(void);
void *malloc(size_t);
void free(void *);
void *realloc(void *, size_t);
void *memcpy(void *d, const void *s, size_t n);

#ifdef FIXHEAP
/* Heap model for functions that resize buffers (entry option FIXHEAP=K):
   every block has room for K bytes (K must suffice: asserted); the bytes
   behind the requested size hold a canary that is checked when the block is
   resized or released.  Constant-size objects keep the formula small. */
# define VH_CANARY 0xA5
void *vh_malloc(size_t n)
{ __CPROVER_assert(n <= FIXHEAP, "vh: heap block within the modelled capacity");
  __CPROVER_assume(n <= FIXHEAP);
  unsigned char *p = malloc(FIXHEAP + sizeof(size_t));
  for (size_t i = 0; i < FIXHEAP; i++) if (i >= n) p[i] = VH_CANARY;
  *(size_t *)(p + FIXHEAP) = n;
  return p; }
static size_t vh_blk(unsigned char *p)
{ size_t n = *(size_t *)(p + FIXHEAP);
  __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0, "vh: start of a heap block");
  for (size_t i = 0; i < FIXHEAP; i++)
    __CPROVER_assert(i < n || p[i] == VH_CANARY, "vh: write behind the end of a heap block");
  return n; }
void vh_free(void *p) { if (p) { vh_blk(p); free(p); } }
void *vh_calloc(size_t a, size_t b)
{ unsigned char *p = vh_malloc(a*b);
  for (size_t i = 0; i < FIXHEAP; i++) if (i < a*b) p[i] = 0;
  return p; }
void *vh_realloc(void *q, size_t n)
{ if (!q) return vh_malloc(n);
  size_t o = vh_blk(q);
  unsigned char *p = vh_malloc(n);
  for (size_t i = 0; i < FIXHEAP; i++) if (i < o && i < n) p[i] = ((unsigned char *)q)[i];
  free(q);
  return p; }
# define malloc vh_malloc
# define calloc vh_calloc
# define realloc vh_realloc
# define free vh_free
#endif

size_t strlen(const char *s)
{ size_t n = 0; while (s[n]) n++; return n; }

size_t strnlen(const char *s, size_t max)
{ size_t n = 0; while (n < max && s[n]) n++; return n; }

int strcmp(const char *a, const char *b)
{ size_t i = 0;
  for (;; i++) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  } }

int strncmp(const char *a, const char *b, size_t n)
{ for (size_t i = 0; i < n; i++) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0; }

static int vh_lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }

int strcasecmp(const char *a, const char *b)
{ for (size_t i = 0; ; i++) {
    int x = vh_lower((unsigned char)a[i]), y = vh_lower((unsigned char)b[i]);
    if (x != y) return x - y;
    if (!x) return 0;
  } }

int strncasecmp(const char *a, const char *b, size_t n)
{ for (size_t i = 0; i < n; i++) {
    int x = vh_lower((unsigned char)a[i]), y = vh_lower((unsigned char)b[i]);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0; }

char *strchr(const char *s, int c)
{ for (size_t i = 0; ; i++) {
    if (s[i] == (char)c) return (char *)s + i;
    if (!s[i]) return NULL;
  } }

char *strchrnul(const char *s, int c)
{ size_t i = 0; while (s[i] && s[i] != (char)c) i++; return (char *)s + i; }

char *strrchr(const char *s, int c)
{ char *r = NULL;
  for (size_t i = 0; ; i++) {
    if (s[i] == (char)c) r = (char *)s + i;
    if (!s[i]) return r;
  } }

size_t strspn(const char *s, const char *set)
{ size_t n = 0;
  while (s[n]) { size_t k = 0; while (set[k] && set[k] != s[n]) k++; if (!set[k]) break; n++; }
  return n; }

size_t strcspn(const char *s, const char *set)
{ size_t n = 0;
  while (s[n]) { size_t k = 0; while (set[k] && set[k] != s[n]) k++; if (set[k]) break; n++; }
  return n; }

char *strpbrk(const char *s, const char *set)
{ size_t n = strcspn(s, set); return s[n] ? (char *)s + n : NULL; }

char *strstr(const char *h, const char *n)
{ for (size_t i = 0; ; i++) {
    size_t k = 0;
    while (n[k] && h[i+k] == n[k]) k++;
    if (!n[k]) return (char *)h + i;
    if (!h[i]) return NULL;
  } }

char *strcpy(char *d, const char *s)
{ size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }

char *strncpy(char *d, const char *s, size_t n)
{ size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d; }

char *strcat(char *d, const char *s)
{ strcpy(d + strlen(d), s); return d; }

char *strncat(char *d, const char *s, size_t n)
{ size_t k = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[k+i] = s[i];
  d[k+i] = 0; return d; }

size_t strlcpy(char *d, const char *s, size_t n)
{ size_t i = 0;
  if (n) { for (; i + 1 < n && s[i]; i++) d[i] = s[i]; d[i] = 0; }
  return strlen(s); }

size_t strlcat(char *d, const char *s, size_t n)
{ size_t k = strnlen(d, n);
  if (k == n) return n + strlen(s);
  return k + strlcpy(d + k, s, n - k); }

char *strdup(const char *s)
{ size_t n = strlen(s); char *p = malloc(n + 1);
  if (p) for (size_t i = 0; i <= n; i++) p[i] = s[i];
  return p; }

char *strndup(const char *s, size_t max)
{ size_t n = strnlen(s, max); char *p = malloc(n + 1);
  if (p) { for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; }
  return p; }

void *memchr(const void *s, int c, size_t n)
{ for (size_t i = 0; i < n; i++)
    if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i;
  return NULL; }

int memcmp(const void *a, const void *b, size_t n)
{ for (size_t i = 0; i < n; i++) {
    unsigned char x = ((const unsigned char *)a)[i], y = ((const unsigned char *)b)[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return 0; }

#ifdef VH_BYTEMEM
/* byte loops: cheaper than CBMC's array_copy for small symbolic sizes */
void *memcpy(void *d, const void *s, size_t n)
{ for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n)
{ unsigned char *D = d; const unsigned char *S = s;
  if (D < S) for (size_t i = 0; i < n; i++) D[i] = S[i];
  else for (size_t i = n; i > 0; i--) D[i-1] = S[i-1];
  return d; }
void *memset(void *d, int c, size_t n)
{ for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = (unsigned char)c; return d; }
#endif

/* --- ctype ("C" locale) --- */
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }

/* --- strtol family --- */
static unsigned long long vh_strtou(const char *s, char **end, int base, int *neg, int *ovf)
{
  size_t i = 0, start;
  unsigned long long v = 0;
  int any = 0;
  *neg = 0; *ovf = 0;
  while (isspace((unsigned char)s[i])) i++;
  if (s[i] == '+' || s[i] == '-') { *neg = (s[i] == '-'); i++; }
  if ((base == 0 || base == 16) && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X') &&
      isxdigit((unsigned char)s[i+2])) { i += 2; base = 16; }
  else if (base == 0) base = (s[i] == '0') ? 8 : 10;
  start = i;
  for (;; i++) {
    int c = (unsigned char)s[i], d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    if (base == 16) { if (v >> 60) *ovf = 1; v = (v << 4) | (unsigned)d; }
    else if (base == 8) { if (v >> 61) *ovf = 1; v = (v << 3) | (unsigned)d; }
    else {
      if (v > (ULLONG_MAX - (unsigned)d)/(unsigned)base) *ovf = 1;
      v = v*(unsigned)base + (unsigned)d;
    }
  }
  (void)start;
  if (end) *end = (char *)(any ? s + i : s);
  if (!any) v = 0;
  return v;
}
long long strtoll(const char *s, char **end, int base)
{ int neg, ovf; unsigned long long v = vh_strtou(s, end, base, &neg, &ovf);
  if (neg) return (ovf || v > (unsigned long long)LLONG_MAX + 1) ? LLONG_MIN : (long long)(0 - v);
  return (ovf || v > LLONG_MAX) ? LLONG_MAX : (long long)v; }
long strtol(const char *s, char **end, int base) { return strtoll(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base)
{ int neg, ovf; unsigned long long v = vh_strtou(s, end, base, &neg, &ovf);
  if (ovf) return ULLONG_MAX; return neg ? 0 - v : v; }
unsigned long strtoul(const char *s, char **end, int base) { return strtoull(s, end, base); }
intmax_t strtoimax(const char *s, char **end, int base) { return strtoll(s, end, base); }
uintmax_t strtoumax(const char *s, char **end, int base) { return strtoull(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }

/* --- formatted output: %[-0+ ][width|*][.prec|.*][hh|h|l|ll|z|j|t](d i u x X c s p %) --- */
static size_t vh_put(char *b, size_t size, size_t n, char c)
{ if (b && n + 1 < size) b[n] = c; return n + 1; }

#ifndef VH_PRINTF_MAXDIGITS
# define VH_PRINTF_MAXDIGITS 20
#endif

/* CBMC does not promote variadic arguments: look at the size of the object */
#define VA_INT(ap, S, T) (__CPROVER_OBJECT_SIZE(*(void **)(ap)) == 1 ? (int)va_arg(ap, S char) : \
                          __CPROVER_OBJECT_SIZE(*(void **)(ap)) == 2 ? (int)va_arg(ap, S short) : va_arg(ap, T))

#ifdef PRINTF_BUF
/* entry option PRINTF_BUF=K: print to a local buffer of K characters and copy */
static int vh_vsnprintf(char *b, size_t size, const char *f, va_list ap);
int vsnprintf(char *b, size_t size, const char *f, va_list ap)
{
  char t[PRINTF_BUF];
  int n = vh_vsnprintf(t, PRINTF_BUF, f, ap);
  __CPROVER_assert(n < PRINTF_BUF || size <= PRINTF_BUF, "vh: printed text within the modelled capacity");
  if (b) for (size_t i = 0; i < PRINTF_BUF; i++)
    if (i < size && i <= (size_t)n) b[i] = (i == size - 1 || i == (size_t)n) ? 0 : t[i];
  return n;
}
static int vh_vsnprintf(char *b, size_t size, const char *f, va_list ap)
#else
int vsnprintf(char *b, size_t size, const char *f, va_list ap)
#endif
{
#ifdef PRINTF_BRIEF
  /* for code where printed text is only a message nobody looks at: the literal
     text up to the first conversion (entry option PRINTF_BRIEF=1) */
  size_t q = 0;
  for (; q < 8 && f[q] && f[q] != '%'; q++) if (q + 1 < size) b[q] = f[q];
  if (f[q] == '%') { if (q + 1 < size) b[q] = '#'; q++; }
  if (size) b[q < size ? q : size - 1] = 0;
  return (int)q;
#endif
  size_t n = 0, i;
  for (i = 0; f[i]; i++) {
    int left = 0, zero = 0, width = 0, prec = -1, lng = 0, alt = 0;
    char plus = 0;
    if (f[i] != '%') { n = vh_put(b, size, n, f[i]); continue; }
    i++;
    for (;; i++) {
      if (f[i] == '-') left = 1;
      else if (f[i] == '0') zero = 1;
      else if (f[i] == '+') plus = '+';
      else if (f[i] == ' ') plus = ' ';
      else if (f[i] == '#') alt = 1;
      else break;
    }
    if (f[i] == '*') { width = va_arg(ap, int); i++; if (width < 0) { left = 1; width = -width; } }
    else for (; f[i] >= '0' && f[i] <= '9'; i++) width = 10*width + (f[i] - '0');
    if (f[i] == '.') {
      i++; prec = 0;
      if (f[i] == '*') { prec = va_arg(ap, int); i++; }
      else for (; f[i] >= '0' && f[i] <= '9'; i++) prec = 10*prec + (f[i] - '0');
    }
    for (;; i++) {
      if (f[i] == 'l') lng++;
      else if (f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng = 2;
      else if (f[i] == 'h') lng--;
      else break;
    }
    if (f[i] == '%') { n = vh_put(b, size, n, '%'); }
    else if (f[i] == 'c') {
      int c = VA_INT(ap, signed, int);
      if (!left) for (int k = 1; k < width; k++) n = vh_put(b, size, n, ' ');
      n = vh_put(b, size, n, (char)c);
      if (left) for (int k = 1; k < width; k++) n = vh_put(b, size, n, ' ');
    } else if (f[i] == 's') {
      const char *s = va_arg(ap, const char *);
      if (!s) s = "(null)";
#ifdef PRINTF_FULL
      /* entry option PRINTF_FULL=1: texts printed with a precision have at least so many characters */
      if (width == 0 && prec >= 0) { for (int k = 0; k < prec; k++) { __CPROVER_assert(s[k], "vh: printed text as long as its precision"); n = vh_put(b, size, n, s[k]); } continue; }
#endif
      if (width == 0) {
        for (int k = 0; (prec < 0 || k < prec) && s[k]; k++) n = vh_put(b, size, n, s[k]);
      } else {
        int len = 0;
        while ((prec < 0 || len < prec) && s[len]) len++;
        if (!left) for (int k = len; k < width; k++) n = vh_put(b, size, n, ' ');
        for (int k = 0; k < len; k++) n = vh_put(b, size, n, s[k]);
        if (left) for (int k = len; k < width; k++) n = vh_put(b, size, n, ' ');
      }
    } else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 'x' || f[i] == 'X' || f[i] == 'p') {
      char dig[VH_PRINTF_MAXDIGITS + 1];
      int nd = 0, neg = 0;
      int fixed = (prec >= 0) ? (width <= prec ? prec : 0) : (zero && !left) ? width : 0;
      if ((f[i] == 'x' || f[i] == 'X') && lng <= 0 && !alt && fixed > 0 && __CPROVER_OBJECT_SIZE(*(void **)(ap)) <= 4 && 2*(int)__CPROVER_OBJECT_SIZE(*(void **)(ap)) <= fixed) {
        /* the number of digits is known */
        unsigned int h = (unsigned int)VA_INT(ap, unsigned, int);
        if (lng == -1) h = (unsigned short)h;
        if (lng <= -2) h = (unsigned char)h;
        for (int k = fixed - 1; k >= 0; k--) {
          unsigned d = k >= 8 ? 0 : (h >> (4*k)) & 15;
          n = vh_put(b, size, n, (char)(d < 10 ? '0' + d : (f[i] == 'X' ? 'A' : 'a') + d - 10));
        }
        continue;
      }
      unsigned long long v;
      if (f[i] == 'd' || f[i] == 'i') {
        long long sv = (lng > 0) ? va_arg(ap, long long) : VA_INT(ap, signed, int);
        if (lng == -1) sv = (short)sv;
        if (lng <= -2) sv = (signed char)sv;
        neg = sv < 0;
        v = neg ? 0 - (unsigned long long)sv : (unsigned long long)sv;
      } else if (f[i] == 'p') {
        v = (unsigned long long)(uintptr_t)va_arg(ap, void *);
        alt = 1;
      } else {
        v = (lng > 0) ? va_arg(ap, unsigned long long) : (unsigned int)VA_INT(ap, unsigned, int);
        if (lng == -1) v = (unsigned short)v;
        if (lng <= -2) v = (unsigned char)v;
      }
      if (f[i] == 'x' || f[i] == 'X' || f[i] == 'p') {
        while (nd < VH_PRINTF_MAXDIGITS && v) { int d = v & 15; dig[nd++] = (char)(d < 10 ? '0' + d : (f[i] == 'X' ? 'A' : 'a') + d - 10); v >>= 4; }
      } else if (v >> 32) {
        while (nd < VH_PRINTF_MAXDIGITS && v) { dig[nd++] = (char)('0' + v % 10); v /= 10; }
      } else {
        unsigned int w = (unsigned int)v;
        while (nd < VH_PRINTF_MAXDIGITS && w) { dig[nd++] = (char)('0' + w % 10); w /= 10; }
      }
      if (!nd && prec != 0) dig[nd++] = '0';
      int nz = (prec > nd) ? prec - nd : 0;
      int sgn = (neg || (plus && (f[i] == 'd' || f[i] == 'i'))) ? 1 : 0;
      int pre = (alt && (f[i] == 'x' || f[i] == 'X' || f[i] == 'p')) ? 2 : 0;
      int total = sgn + pre + nz + nd;
      if (zero && !left && prec < 0 && total < width) { nz += width - total; total = width; }
      if (!left) for (int k = total; k < width; k++) n = vh_put(b, size, n, ' ');
      if (sgn) n = vh_put(b, size, n, neg ? '-' : plus);
      if (pre) { n = vh_put(b, size, n, '0'); n = vh_put(b, size, n, f[i] == 'X' ? 'X' : 'x'); }
      for (int k = 0; k < nz; k++) n = vh_put(b, size, n, '0');
      while (nd > 0) n = vh_put(b, size, n, dig[--nd]);
      if (left) for (int k = total; k < width; k++) n = vh_put(b, size, n, ' ');
    } else {
      __CPROVER_assert(0, "vh: printf conversion not modelled");
    }
  }
  if (b && size) b[n < size ? n : size - 1] = 0;
  return (int)n;
}
int snprintf(char *b, size_t size, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vsnprintf(b, size, f, ap); va_end(ap); return n; }
/* results of up to 255 characters */
int vasprintf(char **r, const char *f, va_list ap)
{ char t[256]; int i, n = vsnprintf(t, sizeof(t), f, ap); __CPROVER_assume(n < (int)sizeof(t)); *r = malloc(n + 1); for (i=0; i<=n; i++) (*r)[i] = t[i]; return n; }
int asprintf(char **r, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vasprintf(r, f, ap); va_end(ap); return n; }
int vsprintf(char *b, const char *f, va_list ap)
{ return vsnprintf(b, (size_t)1 << 40, f, ap); }
int sprintf(char *b, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vsnprintf(b, (size_t)1 << 40, f, ap); va_end(ap); return n; }

/* output streams are outside the model: arguments are not looked at */
int fprintf(FILE *fp, const char *f, ...) { (void)fp; (void)f; return 0; }
int vfprintf(FILE *fp, const char *f, va_list ap) { (void)fp; (void)f; return 0; }
int printf(const char *f, ...) { (void)f; return 0; }
int fflush(FILE *fp) { (void)fp; return 0; }

void __assert_fail(const char *e, const char *file, unsigned line, const char *func)
{ __CPROVER_assert(0, "assert() in the code under test"); __CPROVER_assume(0); }
void abort(void) { __CPROVER_assert(0, "abort() called"); __CPROVER_assume(0); }

/* sscanf: blanks, literals, %% %c %d %i %u %x %X %o %n %s with width, '*' and length modifiers */
static int vh_dig(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99; }
static int vh_blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
int vsscanf(const char *s, const char *f, va_list ap)
{
  int i, p = 0, got = 0;
  for (i = 0; f[i]; i++) {
    if (vh_blank(f[i])) { while (vh_blank(s[p])) p++; continue; }
    if (f[i] != '%') { if (s[p] == f[i]) { p++; continue; } return (!s[p] && !got) ? -1 : got; }
    i++;
    int sup = 0, width = 0, lng = 0;
    if (f[i] == '*') { sup = 1; i++; }
    while (f[i] >= '0' && f[i] <= '9') width = 10*width + (f[i++] - '0');
    while (f[i] == 'l' || f[i] == 'j' || f[i] == 'z' || f[i] == 't') { lng++; i++; }
    while (f[i] == 'h') { lng--; i++; }
    if (f[i] == 'n') {
      if (!sup) { if (lng > 0) *va_arg(ap, long *) = p; else if (lng == 0) *va_arg(ap, int *) = p; else if (lng == -1) *va_arg(ap, short *) = (short)p; else *va_arg(ap, signed char *) = (signed char)p; }
      continue;
    }
    if (f[i] == 'c') {
      char *d = sup ? 0 : va_arg(ap, char *);
      if (!width) width = 1;
      for (int k = 0; k < width; k++) { if (!s[p]) return got ? got : -1; if (d) d[k] = s[p]; p++; }
      got += !sup;
      continue;
    }
    while (vh_blank(s[p])) p++;
    if (f[i] == '%') { if (s[p] != '%') return got; p++; continue; }
    if (!s[p]) return got ? got : -1;
    if (f[i] == 's') {
      char *d = sup ? 0 : va_arg(ap, char *);
      int k = 0;
      while (s[p] && !vh_blank(s[p]) && (!width || k < width)) { if (d) d[k] = s[p]; k++; p++; }
      if (d) d[k] = 0;
      got += !sup;
      continue;
    }
    if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 'x' || f[i] == 'X' || f[i] == 'o') {
      int base = (f[i] == 'd' || f[i] == 'u') ? 10 : (f[i] == 'o') ? 8 : (f[i] == 'i') ? 0 : 16, neg = 0, nd = 0, k = 0, ovf = 0;
      unsigned long long v = 0;
      if (!width) width = 1000;
      if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; p++; k++; }
      if ((base == 16 || base == 0) && k < width && s[p] == '0') {
        p++; k++; nd = 1;
        if (k < width && (s[p] == 'x' || s[p] == 'X')) { base = 16; p++; k++; nd = 0; }
        else if (!base) base = 8;
      }
      if (!base) base = 10;
      while (k < width && vh_dig(s[p]) < base) {
        int dd = vh_dig(s[p]);
        if (v > (~0ULL - dd) / base) ovf = 1;
        v = v*base + dd; p++; k++; nd++;
      }
      if (!nd) return got;
      if (f[i] == 'd' || f[i] == 'i') {
        unsigned long long lim = neg ? 1ULL << 63 : ~(1ULL << 63);
        if (ovf || v > lim) v = lim;
        if (neg) v = 0 - v;
      } else { if (ovf) v = ~0ULL; else if (neg) v = 0 - v; }
      if (!sup) {
        if (lng > 0) *va_arg(ap, unsigned long long *) = v;
        else if (lng == 0) *va_arg(ap, unsigned int *) = (unsigned int)v;
        else if (lng == -1) *va_arg(ap, unsigned short *) = (unsigned short)v;
        else *va_arg(ap, unsigned char *) = (unsigned char)v;
      }
      got += !sup;
      continue;
    }
    __CPROVER_assert(0, "vh: scanf conversion not modelled");
  }
  return got;
}
int sscanf(const char *s, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char *s, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc23_sscanf(const char *s, const char *f, ...)
{ va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc23_vsscanf(const char *s, const char *f, va_list ap) { return vsscanf(s, f, ap); }

long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
intmax_t __isoc23_strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
uintmax_t __isoc23_strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }

/* --- strtod: the extent of the number is exact; the value is exact for
   integers of at most 15 digits without exponent, otherwise only its sign and
   whether it is zero are (any such value is considered) --- */
double nondet_vh_double(void);
static int vh_lc(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
double strtod(const char *s, char **end)
{
  const char *p = s, *q;
  int neg = 0, any = 0, nz = 0, nd = 0, frac = 0, hex = 0;
  long long v = 0;
  double r;
  while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (vh_lc(p[0]) == 'i' && vh_lc(p[1]) == 'n' && vh_lc(p[2]) == 'f') {
    p += 3;
    if (vh_lc(p[0]) == 'i' && vh_lc(p[1]) == 'n' && vh_lc(p[2]) == 'i' && vh_lc(p[3]) == 't' && vh_lc(p[4]) == 'y') p += 5;
    if (end) *end = (char *)p;
    return neg ? -__builtin_inf() : __builtin_inf();
  }
  if (vh_lc(p[0]) == 'n' && vh_lc(p[1]) == 'a' && vh_lc(p[2]) == 'n') {
    p += 3;
    if (*p == '(') { q = p + 1; while ((*q >= '0' && *q <= '9') || (vh_lc(*q) >= 'a' && vh_lc(*q) <= 'z') || *q == '_') q++; if (*q == ')') p = q + 1; }
    if (end) *end = (char *)p;
    return __builtin_nan("");
  }
#define VH_HEXD(c) (((c) >= '0' && (c) <= '9') || (vh_lc(c) >= 'a' && vh_lc(c) <= 'f'))
#define VH_DEC(c) ((c) >= '0' && (c) <= '9')
  if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (VH_HEXD(p[2]) || (p[2] == '.' && VH_HEXD(p[3])))) { hex = 1; p += 2; }
  for (; hex ? VH_HEXD(*p) : VH_DEC(*p); p++) { any = 1; if (*p != '0') nz = 1; if (!hex) { v = v*10 + (*p - '0'); nd++; } }
  if (*p == '.' && (any || (hex ? VH_HEXD(p[1]) : VH_DEC(p[1])))) {
    frac = 1; p++;
    for (; hex ? VH_HEXD(*p) : VH_DEC(*p); p++) { any = 1; if (*p != '0') nz = 1; }
  }
  if (!any) { if (end) *end = (char *)s; return 0.0; }
  if (vh_lc(*p) == (hex ? 'p' : 'e')) {
    q = p + 1;
    if (*q == '+' || *q == '-') q++;
    if (VH_DEC(*q)) { while (VH_DEC(*q)) q++; p = q; frac = 1; }
  }
  if (end) *end = (char *)p;
  if (!nz) return neg ? -0.0 : 0.0;
  if (!hex && !frac && nd <= 15) return neg ? -(double)v : (double)v;
  r = nondet_vh_double();
  __CPROVER_assume(r > 0.0);
  return neg ? -r : r;
}
long double strtold(const char *s, char **end) { return strtod(s, end); }
float strtof(const char *s, char **end) { return strtod(s, end); }
double atof(const char *s) { return strtod(s, NULL); }
