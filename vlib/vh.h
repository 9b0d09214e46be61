/* vh.h -- harness vocabulary shared by the solver run (CBMC) and the native
   replay of a counterexample.

   Solver run   (-DVH_CBMC):   ND_*() are free symbolic values, ASSUME/CHECK
                               are the solver's assumption and assertion.
   Vacuity twin (-DVH_CBMC -DVH_VACUITY): only REACH() marks are asserted
                               (false); each must come back violated.
   Replay       (neither):     ND_*() yield the solver's values in call order,
                               CHECK failure aborts; built with sanitizers
                               against the real sources and the real libc.  */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VH_CBMC
# ifdef VH_VACUITY
#  define CHECK(c, msg)  do { __CPROVER_bool vh_unused = (c); (void)vh_unused; } while (0)
#  define REACH(label)   __CPROVER_assert(0, "REACH " label)
# else
#  define CHECK(c, msg)  __CPROVER_assert((c), "CHECK " msg)
#  define REACH(label)   do { } while (0)
# endif
# define ASSUME(c)       __CPROVER_assume(c)
# define VH_ND(name, type)                                              \
  type nondet_##name(void);                                             \
  static inline type nd_##name(void)                                    \
  { type v = nondet_##name(); __CPROVER_input("nd", v); return v; }
#else
# define CHECK(c, msg)   vh_check(!!(c), msg, __FILE__, __LINE__)
# define REACH(label)    vh_reach(label)
# define ASSUME(c)       vh_assume(!!(c), #c, __FILE__, __LINE__)
void vh_check(int ok, const char *msg, const char *file, int line);
void vh_reach(const char *label);
void vh_assume(int ok, const char *expr, const char *file, int line);
unsigned long long vh_next(void);
# define VH_ND(name, type)                                              \
  static inline type nd_##name(void)                                    \
  { unsigned long long u = vh_next(); type v; memset(&v, 0, sizeof v);  \
    memcpy(&v, &u, sizeof v); return v; }
#endif

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wunused-function"
VH_ND(char, char)
VH_ND(u8, uint8_t)
VH_ND(i8, int8_t)
VH_ND(u16, uint16_t)
VH_ND(i16, int16_t)
VH_ND(u32, uint32_t)
VH_ND(i32, int32_t)
VH_ND(u64, uint64_t)
VH_ND(i64, int64_t)
VH_ND(int, int)
VH_ND(size, size_t)
VH_ND(long, long)
VH_ND(float, float)
VH_ND(double, double)

/* integer in [lo, hi] */
static inline int nd_range(int lo, int hi)
{ int v = nd_int(); ASSUME(lo <= v && v <= hi); return v; }

/* Fill buf[0..n) with arbitrary bytes */
static inline void nd_bytes(void *buf, int n)
{ for (int i=0; i<n; i++) ((unsigned char *)buf)[i] = nd_u8(); }

/* Arbitrary NUL-terminated string of length 0..maxlen in buf[maxlen+1].
   Bytes behind the terminator are arbitrary as well.  Returns the length. */
static inline int nd_str(char *buf, int maxlen)
{ int n = nd_range(0, maxlen);
  for (int i=0; i<maxlen; i++) { char c = nd_char(); ASSUME(i >= n || c); buf[i] = (i < n) ? c : 0; }
  buf[maxlen] = 0; return n; }

/* As nd_str() but right-aligned in buf[maxlen+1], so that reading past the
   terminator is a memory error.  Returns pointer to the string. */
static inline char *nd_endstr(char *buf, int maxlen)
{ int n = nd_range(0, maxlen);
  for (int i=0; i<maxlen; i++) { char c = nd_char(); ASSUME(i < maxlen - n || c); buf[i] = c; }
  buf[maxlen] = 0; return buf + (maxlen - n); }
#pragma GCC diagnostic pop

#ifndef VH_NO_MAIN_DECL
void vh_harness(void);
#endif
#define HARNESS(name) void name(void); void name(void)
#endif
