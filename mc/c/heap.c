/* Live heap of the process under AddressSanitizer, for leak balance; and use of closed streams (not seen by ASan,
 * because the C library is not instrumented). */
#include <stdarg.h>
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>
size_t __sanitizer_get_current_allocated_bytes(void);
void mc_live(FILE *o) { fprintf(o, "%zu\n", __sanitizer_get_current_allocated_bytes()); }

#define N 4096
static FILE *closed[N];
static int n;
static int find(FILE *f) { for (int i = 0; i < n; i++) if (closed[i] == f) return i; return -1; }
static void use(FILE *f, const char *what) {
  if (f && find(f) < 0) return;
  fprintf(stderr, "ERROR: %s on a stream that is %s\n", what, f ? "closed" : "NULL");
  _exit(98);
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  FILE *f = __real_fopen(p, m);
  int i = f ? find(f) : -1;
  if (i >= 0) closed[i] = closed[--n];
  return f;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) {
  use(f, "fclose");
  int r = __real_fclose(f);
  if (n == N) { for (int i = 1; i < N; i++) closed[i - 1] = closed[i]; n--; }
  closed[n++] = f;
  return r;
}
int __real_vfprintf(FILE *f, const char *s, va_list a);
int __wrap_vfprintf(FILE *f, const char *s, va_list a) { use(f, "vfprintf"); return __real_vfprintf(f, s, a); }
int __wrap_fprintf(FILE *f, const char *s, ...) {
  va_list a;
  if (f != stderr) use(f, "fprintf");
  va_start(a, s);
  int r = __real_vfprintf(f, s, a);
  va_end(a);
  return r;
}
#define W(ret, name, args, call) ret __real_##name args; ret __wrap_##name args { use(f, #name); return __real_##name call; }
W(int, fputs, (const char *s, FILE *f), (s, f))
W(int, fputc, (int c, FILE *f), (c, f))
W(int, putc, (int c, FILE *f), (c, f))
W(size_t, fwrite, (const void *p, size_t s, size_t k, FILE *f), (p, s, k, f))
W(size_t, fread, (void *p, size_t s, size_t k, FILE *f), (p, s, k, f))
W(char *, fgets, (char *p, int k, FILE *f), (p, k, f))
int __real_fflush(FILE *f);
int __wrap_fflush(FILE *f) { if (f) use(f, "fflush"); return __real_fflush(f); }
