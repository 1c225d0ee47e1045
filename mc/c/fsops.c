/* File operations under crash injection: fopen/fclose for writing go through a cookie whose write function counts every
 * write(2) the C library would issue; mkdir, remove, unlink, rename, rmdir are counted too.  mc_arm(k, b): the process
 * dies at operation number k (1-based); if it is a write, after its first b bytes (b < 0: after all of them). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

void mc_die(void);
static long at = -1, bytes = 0, nops = 0;
void mc_arm(long op, long b) { at = op; bytes = b; nops = 0; }
long mc_ops(void) { return nops; }
static long lens[1 << 16]; /* size of each write, -1 for the other operations */
static int step1(long len) { if (nops < (1 << 16)) lens[nops] = len; return ++nops == at; }
static int step(void) { return step1(-1); }
void mc_lens(FILE *o) { for (long i = 0; i < nops && i < (1 << 16); i++) fprintf(o, "\t%ld", lens[i]); }

FILE *__real_fopen(const char *p, const char *m);
static ssize_t cw(void *c, const char *buf, size_t n) {
  int fd = (int)(long)c;
  if (step1((long)n)) {
    size_t k = bytes < 0 || (size_t)bytes > n ? n : (size_t)bytes;
    if (k && write(fd, buf, k) < 0) {}
    mc_die();
  }
  ssize_t r = write(fd, buf, n);
  return r < 0 ? 0 : r;
}
static ssize_t cr(void *c, char *buf, size_t n) { return read((int)(long)c, buf, n); }
static int cs(void *c, off64_t *o, int w) { off_t r = lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int cc(void *c) { return close((int)(long)c); }
FILE *__wrap_fopen(const char *p, const char *m) {
  int fl;
  if (m[0] == 'r' && !strchr(m, '+')) return __real_fopen(p, m);
  if (step()) mc_die();
  if (m[0] == 'a') fl = O_CREAT | O_APPEND | (strchr(m, '+') ? O_RDWR : O_WRONLY);
  else if (m[0] == 'w') fl = O_CREAT | O_TRUNC | (strchr(m, '+') ? O_RDWR : O_WRONLY);
  else fl = O_RDWR;
  int fd = open(p, fl, 0666);
  if (fd < 0) return NULL;
  cookie_io_functions_t io = {cr, cw, cs, cc};
  FILE *f = fopencookie((void *)(long)fd, m, io);
  if (!f) close(fd);
  return f;
}
int __real_mkdir(const char *p, mode_t m);
int __wrap_mkdir(const char *p, mode_t m) { if (step()) mc_die(); return __real_mkdir(p, m); }
int __real_remove(const char *p);
int __wrap_remove(const char *p) { if (step()) mc_die(); return __real_remove(p); }
int __real_unlink(const char *p);
int __wrap_unlink(const char *p) { if (step()) mc_die(); return __real_unlink(p); }
int __real_rename(const char *p, const char *q);
int __wrap_rename(const char *p, const char *q) { if (step()) mc_die(); return __real_rename(p, q); }
int __real_rmdir(const char *p);
int __wrap_rmdir(const char *p) { if (step()) mc_die(); return __real_rmdir(p); }
