From ccef8b7f8fd0a8600a66ca0b035e98c05a92c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/39] fix: keep backslashes before a double-quote when
 quoting strings

strnquote() did not escape backslashes that precede a double-quote, so
that a string ending with a backslash, or containing a backslash followed
by a double-quote, could not be unquoted again.
---
 src/utils/strutils.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..87801ad 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -285,10 +285,17 @@ int strnquote(char *dest, size_t size, const char *s, int n,
     while (s[j] && (n < 0 || (int)j < n)) {
 
       /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
-        i++;
+         when copying to `dest`.  Backslashes that precede a double-quote
+         (including the final quote sign) are doubled, such that they are
+         not mistaken for an escape. */
+      if (!(flags & strquoteNoEscape)) {
+        size_t k=j;
+        while (s[k] == '\\' && (n < 0 || (int)k < n)) k++;
+        if (s[j] == '"' ||
+            (k > j && (!s[k] || (n >= 0 && (int)k >= n) || s[k] == '"'))) {
+          if (size > i) dest[i] = '\\';
+          i++;
+        }
       }
       if (size > i) dest[i] = s[j];
       i++;
@@ -360,7 +367,15 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
     while (isspace(s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
   while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
+    if (!(flags & strquoteNoEscape) && s[j] == '\\') {
+      /* Backslashes only escape if they precede a double-quote (or the end
+         of unquoted input) */
+      size_t k=j;
+      while (s[k] == '\\' && (n < 0 || (int)k < n)) k++;
+      if (s[k] == '"' ||
+          ((flags & strquoteNoQuote) && k-j > 1 &&
+           (!s[k] || (n >= 0 && (int)k >= n)))) j++;
+    }
     if (n >= 0 && (int)j >= n) break;
     if (dest && size > i) dest[i] = s[j];
     i++;
-- 
2.43.0


From 1409ee7f8599fda4618b01dc6e5232b9780eef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 02/39] fix: unescape string values read from json and write
 valid json escapes

Strings containing double-quotes or backslashes were either not possible to
read back from json or were changed by a write/read round trip.
---
 src/dlite-type.c     |  6 +++++-
 src/utils/strutils.c | 45 ++++++++++++++++++++++++++------------------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..5e7e311 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -954,6 +954,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
   int m=0, v;
   char *endptr;
   StrquoteFlags qflags = as_qflags(dtype, flags);
+
+  /* Content of a json string - no surrounding quotes, but with escapes */
+  if (flags == dliteFlagDefault) qflags = strquoteNoQuote;
+
   switch(dtype) {
 
   case dliteBlob:
@@ -1075,7 +1079,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       assert(n >= 0);
       if (!(q = realloc(*((char **)p), n+1)))
         return err(dliteMemoryError, "allocation failure");
-      n = strunquote(q, n+1, src, NULL, qflags);
+      n = strnunquote(q, n+1, src, len, NULL, qflags);
       assert(n >= 0);
       *(char **)p = q;
     }
diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 87801ad..c702c55 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -243,6 +243,25 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
 
+/*
+  Returns non-zero if `s` starts with a sequence of backslashes that has to
+  be escaped, i.e. if the sequence is followed by a double-quote, by the end
+  of `s` or by a character that doesn't form a valid json escape.
+
+  If `n` is non-negative, at most `n` bytes are read from `s`.
+*/
+static int needs_escape(const char *s, int n)
+{
+  int i=0, j;
+  while ((n < 0 || i < n) && s[i] == '\\') i++;
+  if (i == 0) return 0;
+  if ((n >= 0 && i >= n) || !s[i]) return 1;
+  if (s[i] != 'u') return !strchr("bfnrt/", s[i]);
+  for (j=1; j<=4; j++)
+    if ((n >= 0 && i+j >= n) || !isxdigit((unsigned char)s[i+j])) return 1;
+  return 0;
+}
+
 /*
   Double-quote input string `s` and write it to `dest`.
 
@@ -285,17 +304,12 @@ int strnquote(char *dest, size_t size, const char *s, int n,
     while (s[j] && (n < 0 || (int)j < n)) {
 
       /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest`.  Backslashes that precede a double-quote
-         (including the final quote sign) are doubled, such that they are
-         not mistaken for an escape. */
-      if (!(flags & strquoteNoEscape)) {
-        size_t k=j;
-        while (s[k] == '\\' && (n < 0 || (int)k < n)) k++;
-        if (s[j] == '"' ||
-            (k > j && (!s[k] || (n >= 0 && (int)k >= n) || s[k] == '"'))) {
-          if (size > i) dest[i] = '\\';
-          i++;
-        }
+         when copying to `dest`.  The same goes for backslashes that
+         otherwise would be mistaken for an (invalid) escape. */
+      if (!(flags & strquoteNoEscape) &&
+          (s[j] == '"' || needs_escape(s+j, (n < 0) ? -1 : n-(int)j))) {
+        if (size > i) dest[i] = '\\';
+        i++;
       }
       if (size > i) dest[i] = s[j];
       i++;
@@ -368,13 +382,8 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
   while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
     if (!(flags & strquoteNoEscape) && s[j] == '\\') {
-      /* Backslashes only escape if they precede a double-quote (or the end
-         of unquoted input) */
-      size_t k=j;
-      while (s[k] == '\\' && (n < 0 || (int)k < n)) k++;
-      if (s[k] == '"' ||
-          ((flags & strquoteNoQuote) && k-j > 1 &&
-           (!s[k] || (n >= 0 && (int)k >= n)))) j++;
+      if (s[j+1] == '"' ||
+          (s[j+1] == '\\' && needs_escape(s+j, (n < 0) ? -1 : n-(int)j))) j++;
     }
     if (n >= 0 && (int)j >= n) break;
     if (dest && size > i) dest[i] = s[j];
-- 
2.43.0


From b28f2ad4ba062fdf1b8c3fb6fcf0c116e295a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 03/39] fix: clp2() and flp2() for arguments larger than 8 bits

The macro SIZEOF_SIZE_TYPE is not defined anywhere, it is SIZEOF_SIZE_T.
---
 src/utils/clp2.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/clp2.c b/src/utils/clp2.c
index 7cbbacf..5093ff9 100644
--- a/src/utils/clp2.c
+++ b/src/utils/clp2.c
@@ -8,16 +8,16 @@ size_t clp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return ++n;
@@ -30,16 +30,16 @@ size_t flp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return n - (n >> 1);
-- 
2.43.0


From 2564be563ec176e63bf91f7e7a6784de034be64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 04/39] fix: NUL-terminate the destination when copying an
 empty string

strsets() and strsetn() did not touch `dest` if there was nothing to copy.
---
 src/utils/strutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index c702c55..fc2adc9 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -121,6 +121,7 @@ int strsetc(char *dest, long size, int c)
 int strsets(char *dest, long size, const char *src)
 {
   int n=0;
+  if (size > 0) *dest = '\0';
   while (*src)
     n += strsetc(dest+n, size-n, *(src++));
   return n;
@@ -133,6 +134,7 @@ int strsetn(char *dest, long size, const char *src, int len)
 {
   int i, n=0;
   if (len < 0) len = strlen(src);
+  if (size > 0) *dest = '\0';
   for (i=0; i<len; i++)
     n += strsetc(dest+n, size-n, src[i]);
   return n;
-- 
2.43.0


From 5c246e641b751af774c4ff1872e6e241c3eeb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 05/39] fix: NUL-terminate the result of strhex_encode() for
 empty input

---
 src/utils/strutils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index fc2adc9..b506082 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -455,6 +455,7 @@ int strhex_encode(char *hex, size_t hexsize, const unsigned char *data,
 {
   int n, m=0;
   size_t i;
+  if (hexsize) *hex = '\0';
   for (i=0; i<size; i++) {
     if ((n = snprintf(hex+m, PDIFF(hexsize, m), "%02x", data[i])) < 0) return n;
     if (n == 2 && m == (int)hexsize-2) hex[m] = '\0';
-- 
2.43.0


From cab25cfa8eec46943f3bc92694dd8f830c4d5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 06/39] fix: strnput_escape() of an empty string

The destination was neither allocated nor terminated, which made the
assertion at the end of the function fail.
---
 src/utils/strutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index b506082..9bc77d6 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -216,6 +216,14 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
   if (unescaped >= strcatOther) return -1;
   if (len < 0) len = strlen(src);
 
+  if (size < n+1) {
+    size = n+1;
+    if (!(p = realloc(p, size))) return -1;
+    *destp = p;
+    *sizep = size;
+  }
+  p[n] = '\0';
+
   while (i < len && src[i]) {
     if (size < n+escape_size) {
       size = clp2(n+escape_size + len);
-- 
2.43.0


From c9c94362d2fdd401f4b299b70e75a4c2fba435e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 07/39] fix: grow string list before it is full

The terminating NULL was not accounted for, so that inserting into a list
with one less element than allocated hit an assertion.
---
 src/utils/strutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 9bc77d6..84639ae 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -704,7 +704,7 @@ static char **_strlst_insert(char **strlst, size_t *n, const char *s, int i,
   if (!strlst || !*n) {
     m = CHUNK_SIZE;
     if (!(q = calloc(m, sizeof(char *)))) goto fail;
-  } else if (m < len+1) {
+  } else if (m < len+2) {
     m += CHUNK_SIZE;
     if (!(q = realloc(strlst, m*sizeof(char *)))) goto fail;
   }
-- 
2.43.0


From 4eca641c8f6ab3f37ee861c1bca83d610985e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 08/39] fix: do not read more than `n` bytes in natoi()

---
 src/utils/strutils.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 84639ae..fd4409e 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -837,13 +837,12 @@ char *strlst_pop(char **strlst, int i)
 int natoi(const char *s, int n)
 {
   int x=0, sign=1;
-  while (isspace(*s)) s++, n--;
-  if (*s == '-') {
-    sign = -1;
+  while (n > 0 && isspace(*s)) s++, n--;
+  if (n > 0 && (*s == '-' || *s == '+')) {
+    if (*s == '-') sign = -1;
     s++, n--;
   }
-  if (*s == '+') s++;
-  while(isdigit(*s) && n-- > 0) {
+  while (n-- > 0 && isdigit(*s)) {
     x = 10*x + (*s - '0');
     s++;
   }
-- 
2.43.0


From c8b62eddaada22c249be99f22be10fde89b2c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 09/39] fix: check of semantic version numbers

Do not let characters behind the first `n` bytes influence the result and do
not accept numeric pre-release identifiers with leading zeros.
---
 src/utils/strutils.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index fd4409e..a777f1a 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -879,27 +879,32 @@ int strnchk_semver(const char *v, size_t n)
   if (n < 5) return -1;
   if (!isdigit(v[m])) return -1;
   if (v[0] == '0' && isdigit(v[1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  while (m < n && isdigit(v[m])) m++;
   /* Minor number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
+  if (m >= n || v[m] != '.') return -1;
+  m++;
+  if (m >= n || !isdigit(v[m])) return -1;
   if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  while (m < n && isdigit(v[m])) m++;
   /* Patch number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
+  if (m >= n || v[m] != '.') return -1;
+  m++;
+  if (m >= n || !isdigit(v[m])) return -1;
   if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  while (m < n && isdigit(v[m])) m++;
   /* Pre-release */
   if (m == n) return m;
   if (v[m] == '-') {
     do {
+      size_t i;
       if (n <= ++m) return -1;
       if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      i = m;
+      while (m < n && isdigit(v[m])) m++;
+      if (v[i] == '0' && m > i+1 && !(m < n && (isalpha(v[m]) || v[m] == '-')))
+        return -1;  // numeric identifiers must not have leading zeros
+      while (m < n && (isalnum(v[m]) || v[m] == '-')) m++;
+    } while (m < n && v[m] == '.');
   }
   /* Build */
   if (m == n) return m;
@@ -907,8 +912,8 @@ int strnchk_semver(const char *v, size_t n)
     do {
       if (n <= ++m ) return -1;
       if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      while (m < n && (isalnum(v[m]) || v[m] == '-')) m++;
+    } while (m < n && v[m] == '.');
   }
   if (m < n && v[m]) return -1;
   return m;
-- 
2.43.0


From 0ce8f0f4453ad95474b1a542a40427f705346d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 10/39] fix: semantic version precedence of pre-release
 identifiers

Numeric identifiers have lower precedence than non-numeric and a larger set
of identifiers has higher precedence, see https://semver.org/#spec-item-11.
---
 src/utils/strutils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index a777f1a..d2eeb09 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -984,6 +984,10 @@ int strncmp_semver(const char *v1, const char *v2, size_t n)
       for (d2=m; (isdigit(v2[d2])) && d2 < n; d2++);
       if (d1 == n1 && d2 == n2) {
         d = natoi(v1+m, n-m) - natoi(v2+m, n-m);
+      } else if (d1 == n1) {
+        d = -1;  // numeric identifiers have lower precedence
+      } else if (d2 == n2) {
+        d = 1;
       } else {
         d = strncmp(v1+m, v2+m, MIN(n1, n2)-m);
         if (d == 0) d = n1 - n2;
@@ -991,7 +995,11 @@ int strncmp_semver(const char *v1, const char *v2, size_t n)
       if (d) return (d < 0) ? -1 : 1;
       assert(n1 == n2);
       m = n1;
-    } while (v1[n1] == '.' && v2[n2] == '.');
+    } while (m < n && v1[m] == '.' && v2[m] == '.');
+
+    /* If all fields so far are equal, the one with most fields is larger */
+    if (m < n && v1[m] == '.') return 1;
+    if (m < n && v2[m] == '.') return -1;
   }
   return 0;
 }
-- 
2.43.0


From 95f223c4399f22349c7331eefbd17f35905858c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 11/39] fix: character groups in glob patterns

The closing bracket was taken to be a member of the group and the bitlist had
no room for bytes above 127.
---
 src/utils/globmatch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/globmatch.c b/src/utils/globmatch.c
index 6197335..77506a5 100644
--- a/src/utils/globmatch.c
+++ b/src/utils/globmatch.c
@@ -36,7 +36,7 @@
 #include "globmatch.h"
 
 # define CHECK_BIT( tab, bit ) ( tab[ (bit)/8 ] & (1<<( (bit)%8 )) )
-# define BITLISTSIZE 16 /* bytes used for [chars] in compiled expr */
+# define BITLISTSIZE 32 /* bytes used for [chars] in compiled expr */
 
 static void globchars();
 
@@ -75,7 +75,7 @@ int globmatch(const char *pattern, const char *string)
 
                 /* build character class bitlist */
 
-                globchars( here, c, bitlist );
+                globchars( here, c-1, bitlist );
 
                 if( !CHECK_BIT( bitlist, *(unsigned char *)s ) )
                         return 1;
@@ -143,11 +143,11 @@ char *s, *e, *b;
 
                 if( s+2 < e && s[1] == '-' )
                 {
-                        for( c = s[0]; c <= s[2]; c++ )
+                        for( c = (unsigned char)s[0]; c <= (unsigned char)s[2]; c++ )
                                 b[ c/8 ] |= (1<<(c%8));
                         s += 3;
                 } else {
-                        c = *s++;
+                        c = (unsigned char)*s++;
                         b[ c/8 ] |= (1<<(c%8));
                 }
         }
-- 
2.43.0


From a993830726dbefa4c59e8f93dfe790b14f2e1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 12/39] fix: always assign `endptr` in strtob()

It was left uninitialised for an empty string.
---
 src/utils/strtob.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/strtob.c b/src/utils/strtob.c
index 7d4d47e..83c5df0 100644
--- a/src/utils/strtob.c
+++ b/src/utils/strtob.c
@@ -16,6 +16,7 @@ int strtob(const char *ptr, char **endptr)
   char *falsevals[] = {"0", "false", ".false.", "no", "off", NULL};
   char **q, *p = (char *)ptr;
 
+  if (endptr) *endptr = p;
   if (!p || !*p) return 0;
   p += strspn(p, " \t\n\v\f\r");
   for (q=truevals; *q; q++) {
-- 
2.43.0


From 0376239ba7ed665c50a27cdddba8da265e923e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 13/39] fix: NUL-terminate empty results of percent encoding
 and decoding

---
 src/utils/urlsplit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..79ee034 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -334,6 +334,7 @@ int pct_xencode(char *buf, long size, const char *src, long len,
   int n=0;
   long i;
   if (len < 0) len = (long)strlen(src);
+  if (size > 0) *buf = '\0';
   for (i=0; i<len; i++) {
     if (strcategory(src[i]) <= maxcat ||
         (accepted && strchr(accepted, src[i]))) {
@@ -376,7 +377,8 @@ int pct_ndecode(char *buf, long size, const char *encoded, long len)
   int n=0;
   long i=0;
   if (len < 0) len = (long)strlen(encoded);
-  while (encoded[i] && i < len) {
+  if (size > 0) *buf = '\0';
+  while (i < len && encoded[i]) {
     if (encoded[i] == '%') {
       if (i+2 >= len || !isxdigit(encoded[i+1]) || !isxdigit(encoded[i+2]))
         return -1;
-- 
2.43.0


From 3da17b4ca2d045eae8c320ffc9e45e42e44b6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 14/39] fix: missing start parenthesis in infix expression

Popping from the empty operator stack hit an assertion.
---
 src/utils/infixcalc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..8b53c61 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -309,14 +309,15 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         push(&ostack, token.u.op);
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
+        do {
           if (!ostack.len) {
             snprintf(err, errlen,
                      "missing start parenthesis in expression \"%s\"", expr);
             goto fail;
           }
+          if ((op = pop(&ostack)) == '(') break;
           if (eval(op, &vstack, err, errlen)) goto fail;
-        }
+        } while (1);
         break;
       default:
         opinfo = get_opinfo(token.u.op);
-- 
2.43.0


From 2eb0be96f3d7954898dd5f2177feb1286a593b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 15/39] fix: division by zero in infix expression

Report an error instead of terminating the process.  Also, do not write to
`err` if it is NULL.
---
 src/utils/infixcalc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index 8b53c61..9465c1c 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -254,6 +254,11 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
+    if ((op == '/' || op == '%') &&
+        (arg2 == 0 || (arg1 == INT_MIN && arg2 == -1))) {
+      snprintf(err, errlen, "invalid operands: %d %c %d", arg1, op, arg2);
+      return -1;
+    }
     value = binary_eval(op, arg1, arg2);
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
@@ -285,7 +290,8 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   Operator op;
   int result=INT_MIN;
 
-  if (err && errlen) err[0] = '\0';
+  if (!err) errlen = 0;
+  if (errlen) err[0] = '\0';
   memset(&vstack, 0, sizeof(vstack));
   memset(&ostack, 0, sizeof(ostack));
 
-- 
2.43.0


From 87486b8f8253d582258414f7c2932bb91923d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 16/39] fix: dlite_type_set_dtype_and_size(): do not accept
 abbreviated type names

---
 src/dlite-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 5e7e311..b620474 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -494,7 +494,8 @@ int dlite_type_set_dtype_and_size(const char *typename,
 
   /* Check if typename is a fixed-sized type listed in the type table */
   for (i=0; type_table[i].typename; i++) {
-    if (strncmp(typename, type_table[i].typename, len) == 0) {
+    if (strncmp(typename, type_table[i].typename, len) == 0 &&
+        !type_table[i].typename[len]) {
       *dtype = type_table[i].dtype;
       *size = type_table[i].size;
       return 0;
-- 
2.43.0


From 4cfd7d91222b6cd6942faab39816b126f0e991cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 17/39] fix: dlite_type_copy(): copy datatype of relations,
 accept absent strings

---
 src/dlite-type.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index b620474..fc90064 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -588,18 +588,18 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
-      d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      d->name = (s->name) ? strdup(s->name) : NULL;
+      d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
   case dliteProperty:
     {
       DLiteProperty *d=dest;
       const DLiteProperty *s=src;
-      d->name = strdup(s->name);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->type = s->type;
       d->size = s->size;
-      if (s->ref) d->ref = strdup(s->ref);
+      d->ref = (s->ref) ? strdup(s->ref) : NULL;
       d->ndims = s->ndims;
       if (d->ndims) {
         int i;
@@ -618,9 +618,10 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteRelation *d=dest;
       const DLiteRelation *s=src;
-      d->s = strdup(s->s);
-      d->p = strdup(s->p);
-      d->o = strdup(s->o);
+      d->s = (s->s) ? strdup(s->s) : NULL;
+      d->p = (s->p) ? strdup(s->p) : NULL;
+      d->o = (s->o) ? strdup(s->o) : NULL;
+      d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
     break;
-- 
2.43.0


From 04c3129e663f57eaecc963daaef6d4d4b0e5edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 18/39] fix: dlite_type_copy_cast(): write casted value to the
 destination, not to the source

---
 src/dlite-type-cast.c | 55 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..99ec501 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -88,8 +88,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 
   case dliteBlob:
     q = (uint8_t *)src;
-    for (i=0; i<size; i++, q++) if (*q) return 0;
-    return 1;
+    for (i=0; i<size; i++, q++) if (*q) return 1;
+    return 0;
 
   case dliteBool:
     return *((bool *)src);
@@ -152,8 +152,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
@@ -196,6 +196,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
 {
   char *p, *endptr;
   long long int vi;
+  unsigned long long int vu;
   long double vf;
   char stype[32], dtype[32];
 
@@ -203,8 +204,9 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
 
   case dliteBlob:
     switch (dest_type) {
-    case dliteBlob:
     case dliteBool:
+      toBool;
+    case dliteBlob:
     case dliteInt:
     case dliteUInt:
     case dliteFloat:
@@ -229,32 +231,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 2: *((uint16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((uint32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((uint64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 2: *((int16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((int32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((int64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
       }
@@ -765,10 +767,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     switch (dest_type) {
     case dliteBlob:
       memset(dest, 0, dest_size);
-      memcpy(dest, p, strlen(p));
+      if (p) memcpy(dest, p, MIN(strlen(p), dest_size));
       return 0;
     case dliteBool:
-      *(bool *)src = (p && *p) ? 1 : 0;
+      *(bool *)dest = (p && *p) ? 1 : 0;
       return 0;
     case dliteUInt:
       switch (isnegative(src, src_type, src_size)) {
@@ -777,17 +779,17 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
                          "uint%lu_t", p, (unsigned long)(dest_size*8));
       default: goto fail;
       }
-      vi = strtoll(p, &endptr, 0);
+      vu = strtoull(p, &endptr, 0);
       if (*endptr) return err(1, "cannot cast string \"%s\" to uint", p);
-      if (vi < 0) return err(1, "cannot cast string \"%s\" to uint", p);
       switch (dest_size) {
-      case 1: *((uint8_t *)dest) = vi;  return 0;
-      case 2: *((uint16_t *)dest) = vi; return 0;
-      case 4: *((uint32_t *)dest) = vi; return 0;
-      case 8: *((uint64_t *)dest) = vi; return 0;
+      case 1: *((uint8_t *)dest) = vu;  return 0;
+      case 2: *((uint16_t *)dest) = vu; return 0;
+      case 4: *((uint32_t *)dest) = vu; return 0;
+      case 8: *((uint64_t *)dest) = vu; return 0;
       default: goto fail;
       }
     case dliteInt:
+      if (!p) goto fail;
       vi = strtoll(p, &endptr, 0);
       if (*endptr) return err(1, "cannot cast string \"%s\" to int", p);
       switch (dest_size) {
@@ -798,6 +800,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteFloat:
+      if (!p) goto fail;
       vf = strtold(p, &endptr);
       if (*endptr) return err(1, "cannot cast string \"%s\" to float", p);
       switch (dest_size) {
-- 
2.43.0


From 8738e6f6c1d772825d2a87f687a967f1f1e210e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 19/39] fix: dlite_type_ndcast(): respect strides, shape and
 ownership of allocated data

The contiguity check indexed src_dims with its own values, reading out of
bounds and taking non-contiguous layouts for contiguous.  Zero elements
copied one and allocated data were shared between source and destination.
The strings of a metadata model are now owned, and freed, by the model.
---
 src/dlite-entity.c    |  4 ++++
 src/dlite-type-cast.c |  1 +
 src/dlite-type.c      | 14 +++++++-------
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..07328d6 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3529,7 +3529,11 @@ void dlite_metamodel_free(DLiteMetaModel *model)
     }
   }
   if (model->values) free(model->values);
+  for (i=0; i < model->ndims; i++)
+    dlite_type_clear(model->dims + i, dliteDimension, sizeof(DLiteDimension));
   if (model->dims) free(model->dims);
+  for (i=0; i < model->nprops; i++)
+    dlite_type_clear(model->props + i, dliteProperty, sizeof(DLiteProperty));
   if (model->props) free(model->props);
   if (model->rels) free(model->rels);
   free(model);
diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index 99ec501..7bdf294 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -820,6 +820,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     case dliteFixString:
       toFixString;
     case dliteStringPtr:
+      if (!p) return (dlite_type_copy(dest, &p, dest_type, dest_size)) ? 0 : 1;
       toStringPtr;
     default:
       goto fail;
diff --git a/src/dlite-type.c b/src/dlite-type.c
index fc90064..45822aa 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1493,22 +1493,22 @@ int dlite_type_ndcast(int ndims,
   }
   if (samelayout) {
     /* -- check that source is contiguous */
-    int size = src_size;
-    for (i=0; i<ndims; i++) {
-      int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
-        if (src_strides[j] == size) { iscont = 1; break; }
-      if (!iscont) { samelayout = 0; break; }
+    size_t size = src_size;
+    for (i=ndims-1; i>=0; i--) {
+      if (src_strides[i] != (int)size) { samelayout = 0; break; }
       size *= src_dims[i];
     }
   }
+  /* -- allocated data must not be shared between source and dest */
+  if (dlite_type_is_allocated(src_type) && src_type != dliteRef)
+    samelayout = 0;
 
   if (samelayout) {
     /* Special case: if source and dest have same layout and are
        contiguous, copy all data in one chunck */
     memcpy(dest, src, N * src_size);
 
-  } else {
+  } else if (N) {
     /* General case: copy all elements individually using castfun()
 
        We make a single loop over the total number of elements.  The
-- 
2.43.0


From 3ea1eb06e986c57f4a9986c828d182603e28ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 20/39] fix: dlite_metamodel_set_value(): do not count a
 replaced value twice

---
 src/dlite-entity.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 07328d6..f27ef54 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3605,7 +3605,7 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
     if (!(model->values = realloc(model->values,
                                   sizeof(Value)*(model->nvalues+1))))
       FAILCODE(dliteMemoryError, "allocation failure");
-    v = model->values + model->nvalues;
+    v = model->values + model->nvalues++;
   }
   memset(v, 0, sizeof(Value));
 
@@ -3613,7 +3613,6 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
     FAILCODE(dliteMemoryError, "allocation failure");
   v->data = (void *)value;
 
-  model->nvalues++;
   return 0;
  fail:
   return 1;
-- 
2.43.0


From c97e608279d43cd4c91f587a52ef20018e34d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 21/39] fix: dlite_instance_set_property_by_index(): check
 index and accept absent references

---
 src/dlite-entity.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index f27ef54..c2d0330 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1322,6 +1322,11 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   size_t nmemb=1;
   int j;
 
+  if (i >= meta->_nproperties)
+    return errx(dliteIndexError,
+                "index %d exceeds number of properties (%d) in %s",
+                (int)i, (int)meta->_nproperties, meta->uri);
+
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
@@ -1336,14 +1341,15 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
       size_t n;
       DLiteInstance **q = (DLiteInstance **)ptr;
       for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
-        if (strcmp(ref, p->ref))
+        const char *ref = (*q) ? (*q)->meta->uri : NULL;
+        if (ref && strcmp(ref, p->ref))
           return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                      p->ref, ref);
       }
     } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
-      if (strcmp(ref, p->ref))
+      DLiteInstance *q = *(DLiteInstance **)ptr;
+      const char *ref = (q) ? q->meta->uri : NULL;
+      if (ref && strcmp(ref, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                    p->ref, ref);
     }
-- 
2.43.0


From 95e93b84c80d2bd560b34e4c8f615130d66a2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 22/39] fix: dlite_instance_copy(): copy instances with empty
 arrays

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c2d0330..29a9ae8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1925,7 +1925,7 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
     void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    if (!src) continue;  /* empty array */
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
   return new;
-- 
2.43.0


From 680057645b2b4735925610d63f9157812e6abcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 23/39] fix: index check when getting and setting a dimension
 size

---
 src/dlite-entity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 29a9ae8..b637df6 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1442,7 +1442,7 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
+  assert(i < (int)inst->meta->_ndimensions);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
@@ -1875,8 +1875,11 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
                                                size_t i, size_t size)
 {
   size_t j;
-  int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int retval, *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "no dimension with index %d in %s",
+                (int)i, inst->meta->uri);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
-- 
2.43.0


From 5495b57272ab6624780bd1f06e5d3dcb8310f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 24/39] fix: dlite_instance_set_parent(): setting the same
 parent again freed it

---
 src/dlite-entity.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index b637df6..540c0c9 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2420,17 +2420,19 @@ int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
   if (dlite_instance_get_hash(parent, hash, DLITE_HASH_SIZE))
     return err(-1, "Error calculating hash of parent instance \"%s\"",
                (parent->uri) ? parent->uri : parent->uuid);
+  dlite_instance_incref((DLiteInstance *)parent);
   if (p) {
     if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
   } else {
-    if (!(p = calloc(1, sizeof(DLiteParent))))
+    if (!(p = calloc(1, sizeof(DLiteParent)))) {
+      dlite_instance_decref((DLiteInstance *)parent);
       return err(-1, "Allocation failure");
+    }
     inst->_parent = p;
   }
   p->parent = parent;
   strncpy(p->uuid, parent->uuid, DLITE_UUID_LENGTH+1);
   memcpy(p->hash, hash, DLITE_HASH_SIZE);
-  dlite_instance_incref((DLiteInstance *)p->parent);
   return 0;
 }
 
-- 
2.43.0


From 0b80ff13a8dad490cd19c83ab299231ccb5153a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 25/39] fix: reference count of metadata when an instance
 exists with other dimensions

---
 src/dlite-entity.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 540c0c9..e2dc7f3 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -430,10 +430,14 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
 
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
-      if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
-              "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+      size_t n = dlite_instance_get_dimension_size_by_index(inst, i);
+      if (dims[i] != n) {
+        dlite_instance_decref(inst);
+        return err(dliteIndexError,
+                   "mismatch of dimension %d. Trying to create with size %d "
+                   "but existing instance has size %d", (int)i, (int)dims[i],
+                   (int)n), NULL;
+      }
     }
     return inst;
   }
-- 
2.43.0


From cbf32f6894e8d76b0df0d7e6317ff8dd349864d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 26/39] fix: dlite_instance_set_property(): hold a reference of
 its own to instances referred to

---
 src/dlite-entity.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e2dc7f3..89718a6 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1313,6 +1313,18 @@ void *dlite_instance_get_property_by_index(const DLiteInstance *inst, size_t i)
 }
 
 
+/*
+  Help function for dlite_instance_set_property_by_index().  Let `*dest` be
+  a new reference to `inst` and release the reference it was holding.
+ */
+static void _set_ref(DLiteInstance **dest, DLiteInstance *inst)
+{
+  DLiteInstance *old = *dest;
+  if (inst) dlite_instance_incref(inst);
+  *dest = inst;
+  if (old) dlite_instance_decref(old);
+}
+
 /*
   Copies memory pointed to by `ptr` to property `i`.
   Returns non-zero on error.
@@ -1363,7 +1375,10 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   if (p->ndims > 0) {
     size_t n;
     dest = *((void **)DLITE_PROP(inst, i));
-    if (dlite_type_is_allocated(p->type)) {
+    if (p->type == dliteRef) {
+      for (n=0; n<nmemb; n++)
+        _set_ref((DLiteInstance **)dest + n, ((DLiteInstance **)ptr)[n]);
+    } else if (dlite_type_is_allocated(p->type)) {
       for (n=0; n<nmemb; n++) {
         void *v = (char *)ptr + n*p->size;
         if (!dlite_type_copy((char *)dest + n*p->size,
@@ -1374,7 +1389,10 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
     }
   } else {
     dest = DLITE_PROP(inst, i);
-    if (!dlite_type_copy(dest, ptr, p->type, p->size)) return -1;
+    if (p->type == dliteRef)
+      _set_ref((DLiteInstance **)dest, *(DLiteInstance **)ptr);
+    else if (!dlite_type_copy(dest, ptr, p->type, p->size))
+      return -1;
   }
 
   if (inst->meta->_setdim &&
-- 
2.43.0


From 02b095ee3d345ba62663953f819151f93cce3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 27/39] fix: mask of ignored errors: do not mix up error codes
 below -30

---
 src/dlite-misc.c | 4 ++--
 src/dlite-misc.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..5b5111f 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1008,7 +1008,7 @@ void _dlite_err_mask_set(DLiteErrMask mask)
 void dlite_err_ignored_set(DLiteErrCode code, int value)
 {
   DLiteErrMask *mask = _dlite_err_mask_get();
-  int bit = DLITE_ERRBIT(code);
+  DLiteErrMask bit = DLITE_ERRBIT(code);
   if (mask) {
     if (value)
       *mask |= bit;
@@ -1023,7 +1023,7 @@ int dlite_err_ignored_get(DLiteErrCode code)
   DLiteErrMask *mask = _dlite_err_mask_get();
   if (!mask) return 0;
   if (code > 0 && (*mask & DLITE_ERRBIT(dliteUnknownError))) return 1;
-  return (int)(*mask) & DLITE_ERRBIT(code);
+  return (*mask & DLITE_ERRBIT(code)) ? 1 : 0;
 }
 
 
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index 714109a..de38fc0 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -471,7 +471,7 @@ DLiteErrMask *_dlite_err_mask_get(void);
 void _dlite_err_mask_set(DLiteErrMask mask);
 
 #define DLITE_ERRBIT(code)                                              \
-  ((int)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
+  ((DLiteErrMask)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
 
 #define DLITE_NOERR(mask)                                       \
   do {                                                          \
-- 
2.43.0


From 3d163d694594019d280772e74be484713d71c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 28/39] fix: dlite_err_set_file(): accept file names

---
 src/dlite-misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 5b5111f..d5d7496 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1121,9 +1121,9 @@ void dlite_err_set_file(const char *filename)
   FILE *fp;
   if (!filename || !*filename)
     err_set_stream(NULL);
-  else if (strcmp(filename, "<stdout>"))
+  else if (strcmp(filename, "<stdout>") == 0)
     err_set_stream(stdout);
-  else if (strcmp(filename, "<stderr>"))
+  else if (strcmp(filename, "<stderr>") == 0)
     err_set_stream(stderr);
   else if ((fp = fopen(filename, "a")))
     err_set_stream(fp);
-- 
2.43.0


From fecab5b7cdccfd8e6632c164fca777ddb91758fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 29/39] fix: dlite_split_meta_uri(): do not read before a uri
 whose only slash is first

---
 src/dlite-misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index d5d7496..87aeb96 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -319,7 +319,7 @@ int dlite_split_meta_uri(const char *uri, char **name, char **version,
 {
   char *p, *q, *namep=NULL, *versionp=NULL, *namespacep=NULL;
 
-  if (!(p = strrchr(uri, '/')))
+  if (!(p = strrchr(uri, '/')) || p == uri)
     FAIL1("invalid metadata uri: '%s'", uri);
   q = p-1;
   while (*q != '/' && q > uri) q--;
-- 
2.43.0


From 2b90e4304278a91fe5945281f28f1421a6f990e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 30/39] fix: dlite_normalise_id(): strip off a final hash or
 slash as documented

---
 src/dlite-misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 87aeb96..5b649c2 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -146,12 +146,15 @@ int dlite_normalise_idn(char *buff, size_t n,
     return 0;
   }
 
+  // strip off final hash or slash
+  if (id[len-1] && strchr("/#", id[len-1])) len--;
+
   // id: uri/uuid, uri
   if (isurln(id, len))
     return snprintf(buff, n, "%.*s", (int)len, id);
 
   if (!uri) uri = DLITE_DATA_NS;
-  char *sep = (strchr("/#", uri[strlen(uri)-1])) ? "" : "/";
+  char *sep = (!*uri || strchr("/#", uri[strlen(uri)-1])) ? "" : "/";
 
   // id: uuid, id
   return snprintf(buff, n, "%s%s%.*s", uri, sep, (int)len, id);
-- 
2.43.0


From bc7abe12a5ba9433d63cce3ed3b6047609b26df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 31/39] fix: uuid_from_string(): refuse malformed UUIDs

---
 src/utils/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/uuid.c b/src/utils/uuid.c
index c1cd472..5f826a5 100644
--- a/src/utils/uuid.c
+++ b/src/utils/uuid.c
@@ -202,7 +202,7 @@ int uuid_from_string(uuid_s *uuid, const char *s, size_t len)
 {
   uuid_s u;
   int i, n;
-  if (len != 36)
+  if (len != 36 || !isuuid(s))
     return 1;
 
   if (sscanf(s, "%8x-%4hx-%4hx-%n",
-- 
2.43.0


From 8bce202724d78a964da1c90551cbeba8eceb88c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 32/39] fix: urlsplitn(): consider only the first len
 characters, accept empty path segments

---
 src/utils/urlsplit.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index 79ee034..ea619fb 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -10,9 +10,12 @@
 #include <string.h>
 #include <ctype.h>
 
+#include "compat.h"
 #include "strutils.h"
 #include "urlsplit.h"
 
+static int _urlsplitn(const char *url, int len, UrlComponents *components);
+
 
 /*
   Returns length of percent-encoded segment from the start of string `s`.
@@ -92,11 +95,38 @@ int urlsplit(const char *url, UrlComponents *components)
   (equivalent to ``len=strlen(url)``).
  */
 int urlsplitn(const char *url, int len, UrlComponents *components)
+{
+  UrlComponents *c = components;
+  char *s;
+  int n;
+  if (len < 0 || !url[len]) return _urlsplitn(url, len, c);
+
+  /* make a copy, such that nothing after the `len` first characters
+     is considered */
+  if (!(s = strndup(url, len))) return 0;
+  n = _urlsplitn(s, len, c);
+  if (c) {
+    if (c->scheme)    c->scheme    = url + (c->scheme - s);
+    if (c->authority) c->authority = url + (c->authority - s);
+    if (c->userinfo)  c->userinfo  = url + (c->userinfo - s);
+    if (c->host)      c->host      = url + (c->host - s);
+    if (c->port)      c->port      = url + (c->port - s);
+    if (c->path)      c->path      = url + (c->path - s);
+    if (c->query)     c->query     = url + (c->query - s);
+    if (c->fragment)  c->fragment  = url + (c->fragment - s);
+  }
+  free(s);
+  return n;
+}
+
+/* Help function for urlsplitn(). Assumes that `url` has length `len` or that
+   `len` is negative. */
+static int _urlsplitn(const char *url, int len, UrlComponents *components)
 {
   int n=0;
-  if (len == 0) return 0;
   if (len < 0) len = (int)strlen(url);
   if (components) memset(components, 0, sizeof(UrlComponents));
+  if (len == 0) return 0;
 
   /* check scheme */
   if (components) components->scheme = url;
@@ -163,7 +193,6 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
   if (len && len < n) return 0;
 
   /* check path */
-  if (url[n] == '/' && url[n+1] == '/') return 0;  // must not start with "//"
   if (components) components->path = url+n;
   n += jspn(url+n, strcatSubDelims, 1, "/:@");
   if (len > 0 && n >= len) n = len;
-- 
2.43.0


From f01f48a42c03664598debfb70b3a6420ebe4c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 33/39] fix: dlite_get_uuid(): strip off a final hash or slash
 as documented

---
 src/dlite-misc.c | 7 ++++++-
 src/dlite-misc.h | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 5b649c2..f154a65 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -89,7 +89,7 @@ DLiteIdType dlite_idtypen(const char *id, int len)
 {
   if (!len || !id || !*id) return dliteIdRandom;
 
-  if (id[len-1] && strchr("/#", id[len-1])) len--;
+  if (len > 1 && id[len-1] && strchr("/#", id[len-1])) len--;
 
   if (len == DLITE_UUID_LENGTH && isuuid(id)) return dliteIdCopy;
 
@@ -197,6 +197,8 @@ static void uuid5n(char *buff, const char *id, size_t len)
     Ex: "http://onto-ns.com/meta/0.1/MyDatamodel"
   - *name* is a string that is neither a UUID or a URL. Ex: "aa6060"
 
+  A final hash or slash in `id` is stripped off.
+
   A version 4 UUID is used for the random UUID and a version 5 UUID
   (with the DNS namespace) is used for the hash.
 
@@ -226,6 +228,9 @@ DLiteIdType _dlite_get_uuidn(char *buff, const char *id, size_t len,
 {
   DLiteIdType type;
 
+  // strip off final hash or slash
+  if (id && len > 1 && id[len-1] && strchr("/#", id[len-1])) len--;
+
   if (!len || !id || !*id) {  // id: NULL
     if (uuid4_generate(buff))
       return err(dliteRuntimeError, "cannot generate version 4 UUID");
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index de38fc0..61ecfe0 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -128,6 +128,8 @@ int dlite_normalise_idn(char *buff, size_t n,
     Ex: "http://onto-ns.com/meta/0.1/MyDatamodel"
   - *name* is a string that is neither a UUID or a URL. Ex: "aa6060"
 
+  A final hash or slash in `id` is stripped off.
+
   A version 4 UUID is used for the random UUID and a version 5 UUID
   (with the DNS namespace) is used fhr the hash.
 
-- 
2.43.0


From 5cea3b247264b8077ec4e0896ff890385d4447f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 34/39] fix: error messages: do not write behind the message
 buffer

---
 src/utils/err.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index b815d03..8d431ae 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -184,6 +184,9 @@ static char *errlevel_names[] = {
 };
 
 
+/* Position in message buffer, where the next text should be added. */
+#define NPOS (((size_t)n < errsize) ? (size_t)n : errsize)
+
 /* Reports the error and returns `eval`.  Args:
  *  errlevel : error level
  *  eval     : error value that is returned or passed exit()
@@ -236,7 +239,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     case errOverrideAppend:
       n = strlen(errmsg);
       tls->err_record->pos = n;
-      n += snprintf(errmsg + n, errsize - n, "%s", err_append_sep);
+      n += snprintf(errmsg + NPOS, errsize - NPOS, "%s", err_append_sep);
       break;
     case errOverrideWarnOld:
       if (stream) fprintf(stream, "Warning: Overriding old error: '%s'\n",
@@ -267,29 +270,29 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     Globals *g = tls->globals;
 
     if (g->err_prefix && *g->err_prefix)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", g->err_prefix);
+      n += snprintf(errmsg + NPOS, errsize - NPOS, "%s: ", g->err_prefix);
 
     if (debug_mode >= 1)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", file);
+      n += snprintf(errmsg + NPOS, errsize - NPOS, "%s: ", file);
     if (debug_mode >= 2)
-      n += snprintf(errmsg + n, errsize - n, "in %s(): ", func);
+      n += snprintf(errmsg + NPOS, errsize - NPOS, "in %s(): ", func);
 
     if (eval) {
       if (nameconv)
-        n += snprintf(errmsg + n, errsize - n, "%s%s: ", nameconv(eval),
+        n += snprintf(errmsg + NPOS, errsize - NPOS, "%s%s: ", nameconv(eval),
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "");
       else
-        n += snprintf(errmsg + n, errsize - n, "%s %d: ",
+        n += snprintf(errmsg + NPOS, errsize - NPOS, "%s %d: ",
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "Errval", eval);
     } else if (errlevel_name && *errlevel_name) {
-      n += snprintf(errmsg + n, errsize - n, "%s: ", errlevel_name);
+      n += snprintf(errmsg + NPOS, errsize - NPOS, "%s: ", errlevel_name);
     }
     if (msg && *msg)
-      n += vsnprintf(errmsg + n, errsize - n, msg, ap);
+      n += vsnprintf(errmsg + NPOS, errsize - NPOS, msg, ap);
     if (errnum)
-      n += snprintf(errmsg + n, errsize - n, ": %s", strerror(errnum));
+      n += snprintf(errmsg + NPOS, errsize - NPOS, ": %s", strerror(errnum));
     if (n >= (int)errsize && stream)
       fprintf(stream,
               "Warning: error %d truncated due to full message buffer: %s",
@@ -879,8 +882,8 @@ void _err_unlink_record(ErrRecord *record)
       case errOverrideEnv:
       case errOverrideAppend:
         n = strlen(tls->err_record->msg);
-        strncat(tls->err_record->msg+n, err_append_sep, ERR_MSGSIZE-n);
-        n += strlen(err_append_sep);
+        n += snprintf(tls->err_record->msg+n, ERR_MSGSIZE-n, "%s",
+                      err_append_sep);
         break;
       case errOverrideWarnOld:
         fprintf(stderr, "** Warning: overwriting old error: %s\n",
@@ -900,7 +903,8 @@ void _err_unlink_record(ErrRecord *record)
     tls->err_record->level = record->level;
     tls->err_record->eval = eval;
     tls->err_record->errnum = record->errnum;
-    if (!ignore_new) strncpy(tls->err_record->msg+n, record->msg, ERR_MSGSIZE-n);
+    if (!ignore_new && n < ERR_MSGSIZE)
+      snprintf(tls->err_record->msg+n, ERR_MSGSIZE-n, "%s", record->msg);
 
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
-- 
2.43.0


From f33ccd00b703b4634e76543f8b43808dc3cab104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 35/39] fix: iteration over arrays with one or no dimension

---
 src/dlite-arrays.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a9f105..3a92160 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -147,9 +147,9 @@ int dlite_array_iter_init(DLiteArrayIter *iter, const DLiteArray *arr)
 {
   memset(iter, 0, sizeof(DLiteArrayIter));
   iter->arr = arr;
-  if (!(iter->ind = calloc(arr->ndims, sizeof(int))))
+  if (!(iter->ind = calloc((arr->ndims) ? arr->ndims : 1, sizeof(int))))
     return err(dliteMemoryError, "allocation failure");
-  iter->ind[arr->ndims-1]--;
+  if (arr->ndims) iter->ind[arr->ndims-1]--;
   return 0;
 }
 
@@ -169,7 +169,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 {
   int n;
   DLiteArray *arr = (DLiteArray *)iter->arr;
-  if (iter->ind[0] < 0) return NULL;  /* check stop indicator */
+  if (iter->ind[0] < -1) return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
@@ -178,8 +178,8 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
     iter->ind[n] = 0;
   }
   if (n < 0) {
-    iter->ind[0] = -1;  /* stop indicator */
-    return NULL;
+    iter->ind[0] = -2;  /* stop indicator */
+    return (arr->ndims) ? NULL : arr->data;
   }
   return dlite_array_index(arr, iter->ind);
 }
-- 
2.43.0


From fcb6fe182bcd344b6e0785434cb3642851519986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 36/39] fix: dlite_array_compare(): compare the elements, not
 the memory between them

---
 src/dlite-arrays.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a92160..9499a91 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -190,7 +190,9 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
  */
 int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 {
-  int i;
+  int i, equal=1;
+  const void *p, *q;
+  DLiteArrayIter ia, ib;
   /* check whether the array structures are equal */
   if (a->type != b->type) return 0;
   if (a->size != b->size) return 0;
@@ -200,8 +202,17 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
     if (a->strides[i] != b->strides[i]) return 0;
   }
   /* check whether the array data are equal */
-  if (memcmp(a->data, b->data, dlite_array_size(a))) return 0;
-  return 1;
+  if (dlite_array_iter_init(&ia, a)) return 0;
+  if (dlite_array_iter_init(&ib, b)) {
+    dlite_array_iter_deinit(&ia);
+    return 0;
+  }
+  while (equal && (p = dlite_array_iter_next(&ia)) &&
+         (q = dlite_array_iter_next(&ib)))
+    if (memcmp(p, q, a->size)) equal = 0;
+  dlite_array_iter_deinit(&ia);
+  dlite_array_iter_deinit(&ib);
+  return equal;
 }
 
 
-- 
2.43.0


From fd136ed849c67ec611e39c8da5c2154eb6512b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 37/39] fix: dlite_array_slice(): indices from the back, steps,
 and strides of the sliced array

---
 src/dlite-arrays.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 9499a91..17e3c01 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -216,8 +216,6 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 }
 
 
-#define abs(x) (((x) > 0) ? (x) : -(x))
-
 /*
   Returns a new array object representing a slice of `arr`.  `start`,
   `stop` and `step` has the same meaning as in Python and should be
@@ -264,21 +262,27 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
   for (n = arr->ndims-1; n >= 0; n--) {
-    int s1, s2;
+    int len = arr->shape[n];
     int d = (step) ? step[n] : 1;
-    if (d == 0) return err(1, "dim %d: slice step cannot be zero", n), NULL;
+    int s1 = (start) ? start[n] : (d > 0) ? 0 : len;
+    int s2 = (stop) ? stop[n] : (d > 0) ? len : 0;
+    if (d == 0) {
+      dlite_array_free(new);
+      return err(1, "dim %d: slice step cannot be zero", n), NULL;
+    }
+    /* negative values count from the back, limit to the array */
+    if (s1 < 0) s1 += len;
+    if (s2 < 0) s2 += len;
+    s1 = (s1 < 0) ? 0 : (s1 > len) ? len : s1;
+    s2 = (s2 < 0) ? 0 : (s2 > len) ? len : s2;
     if (d > 0) {
-      s1 = (start) ? start[n] % arr->shape[n] : 0;
-      s2 = (stop) ? stop[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
+      new->shape[n] = (s2 > s1) ? (s2 - s1 - 1) / d + 1 : 0;
     } else {
-      s1 = (start) ? start[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-      s2 = (stop) ? stop[n] % arr->shape[n] : 0;
+      new->shape[n] = (s1 > s2) ? (s1 - s2 - 1) / -d + 1 : 0;
+      s1--;
     }
-    if (s1 < 0) s1 += arr->shape[n];
-    if (s2 < 0) s2 += arr->shape[n];
-    offset += s1 * arr->strides[n];
-    new->shape[n] = (abs(s2 - s1) + 1 + d/2) / abs(d);
-    new->strides[n] *= d;
+    if (new->shape[n]) offset += s1 * arr->strides[n];
+    new->strides[n] = d * arr->strides[n];
   }
   new->data = ((char *)arr->data) + offset;
   return new;
-- 
2.43.0


From 7fe303696b626a274765be9aee36d041840c3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 38/39] fix: dlite_array_make_continuous(): update the array
 also if it is continuous already

---
 src/dlite-arrays.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 17e3c01..4beacbd 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -345,10 +345,16 @@ void *dlite_array_make_continuous(DLiteArray *arr)
   DLiteArrayIter iter;
   for (n=0; n < arr->ndims; n++) size *= arr->shape[n];
   if (!(data = malloc(size))) return err(dliteMemoryError, "allocation failure"), NULL;
-  if (dlite_array_is_continuous(arr)) return memcpy(data, arr->data, size);
+  if (dlite_array_is_continuous(arr)) {
+    arr->data = memcpy(data, arr->data, size);
+    return data;
+  }
 
   q = data;
-  dlite_array_iter_init(&iter, arr);
+  if (dlite_array_iter_init(&iter, arr)) {
+    free(data);
+    return NULL;
+  }
   while ((p = dlite_array_iter_next(&iter))) {
     memcpy(q, p, arr->size);
     q += arr->size;
-- 
2.43.0


From 1eb56d6fe254232252cc557622d55d0324845b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 39/39] fix: dlite_array_create_order(): do not leak the array
 for invalid orders

---
 src/dlite-arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 4beacbd..b0ee062 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -70,6 +70,7 @@ DLiteArray *dlite_array_create_order(void *data, DLiteType type, size_t size,
     dlite_array_free(arr);
     return arr2;
   default:
+    dlite_array_free(arr);
     return err(1, "invalid order '%c', should be either 'C' or 'F'",
                order), NULL;
   }
-- 
2.43.0

