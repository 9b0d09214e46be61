/* Native replay runtime: feeds the solver's values to the harness. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned long long *vals; static size_t nvals, pos;
void VH_ENTRY(void);
void vh_check(int ok, const char *msg, const char *file, int line)
{ if (!ok) { fflush(NULL); fprintf(stderr, "VH-CHECK-FAILED %s (%s:%d)\n", msg, file, line); _exit(42); } }
void vh_reach(const char *label) { fprintf(stderr, "VH-REACH %s\n", label); }
void vh_assume(int ok, const char *expr, const char *file, int line)
{ if (!ok) { fprintf(stderr, "VH-ASSUME-FALSE %s (%s:%d)\n", expr, file, line); _exit(77); } }
unsigned long long vh_next(void)
{ return (pos < nvals) ? vals[pos++] : 0; }
int main(int argc, char **argv)
{
  FILE *fp = (argc > 1) ? fopen(argv[1], "r") : NULL;
  unsigned long long v; size_t cap = 0;
  if (fp) {
    while (fscanf(fp, "%llx", &v) == 1) {
      if (nvals >= cap) vals = realloc(vals, (cap = cap ? 2*cap : 256)*sizeof(*vals));
      vals[nvals++] = v;
    }
    fclose(fp);
  }
  VH_ENTRY();
  fprintf(stderr, "VH-END\n");
  return 0;
}
