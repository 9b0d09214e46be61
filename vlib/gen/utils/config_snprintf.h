#ifdef HAVE_STDARG_H
# undef HAVE_STDARG_H
#endif
#ifdef HAVE_STDDEF_H
# undef HAVE_STDDEF_H
#endif
#ifdef HAVE_STDINT_H
# undef HAVE_STDINT_H
#endif
#ifdef HAVE_STDLIB_H
# undef HAVE_STDLIB_H
#endif
#ifdef HAVE_FLOAT_H
# undef HAVE_FLOAT_H
#endif
#ifdef HAVE_INTTYPES_H
# undef HAVE_INTTYPES_H
#endif
#ifdef HAVE_LOCALE_H
# undef HAVE_LOCALE_H
#endif
#ifdef HAVE_LOCALECONV
# undef HAVE_LOCALECONV
#endif
#ifdef HAVE_LCONV_DECIMAL_POINT
# undef HAVE_LCONV_DECIMAL_POINT
#endif
#ifdef HAVE_LCONV_THOUSANDS_SEP
# undef HAVE_LCONV_THOUSANDS_SEP
#endif
#ifdef HAVE_LONG_DOUBLE
# undef HAVE_LONG_DOUBLE
#endif
#ifdef HAVE_LONG_LONG_INT
# undef HAVE_LONG_LONG_INT
#endif
#ifdef HAVE_UNSIGNED_LONG_LONG_INT
# undef HAVE_UNSIGNED_LONG_LONG_INT
#endif
#ifdef HAVE_INTMAX_T
# undef HAVE_INTMAX_T
#endif
#ifdef HAVE_UINTMAX_T
# undef HAVE_UINTMAX_T
#endif
#ifdef HAVE_UINTPTR_T
# undef HAVE_UINTPTR_T
#endif
#ifdef HAVE_PTRDIFF_T
# undef HAVE_PTRDIFF_T
#endif
#ifdef HAVE_VA_COPY
# undef HAVE_VA_COPY
#endif
#ifdef HAVE___VA_COPY
# undef HAVE___VA_COPY
#endif

#define HAVE_STDARG_H 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_FLOAT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LOCALE_H 1
#define HAVE_LOCALECONV 1
#define HAVE_LCONV_DECIMAL_POINT 1
#define HAVE_LCONV_THOUSANDS_SEP 1
#define HAVE_LONG_DOUBLE 1
#define HAVE_LONG_LONG_INT 1
#define HAVE_UNSIGNED_LONG_LONG_INT 1
#define HAVE_INTMAX_T 1
#define HAVE_UINTMAX_T 1
#define HAVE_UINTPTR_T 1
#define HAVE_PTRDIFF_T 1
#define HAVE_VA_COPY 1
#define HAVE___VA_COPY 1
