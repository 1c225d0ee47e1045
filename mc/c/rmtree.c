/* Calls coco_remove_directory under guarded, fault-injected directory operations.
 * Input lines: "<k> <sticky> <path>"; output: result, operations, escapes, open descriptors before and after.
 * Operation number k (1-based) fails (with sticky: all from k on); 0: none.  A deletion whose directory does not
 * resolve to the work directory or below is refused and counted as an escape. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "coco.h"

static long at, sticky, nops, escapes;
static int on;
static char work[PATH_MAX];
static int fails(void) { if (!on) return 0; nops++; return at && (sticky ? nops >= at : nops == at); }
static int outside(int dfd, const char *p) {
  char buf[PATH_MAX], r[PATH_MAX], full[2 * PATH_MAX];
  if (!on) return 0;
  if (dfd != AT_FDCWD && p[0] != '/') {
    char l[64]; ssize_t n; snprintf(l, 64, "/proc/self/fd/%d", dfd);
    n = readlink(l, r, PATH_MAX - 1); if (n < 0) return 0; r[n] = 0;
    snprintf(full, sizeof full, "%s/%s", r, p);
  } else snprintf(full, sizeof full, "%s", p);
  size_t n = strlen(full);
  while (n > 1 && full[n - 1] == '/') full[--n] = 0;
  char *s = strrchr(full, '/');
  const char *last = s ? s + 1 : full;
  if (!strcmp(last, ".") || !strcmp(last, "..")) snprintf(buf, PATH_MAX, "%s/..", full);
  else if (s == full) strcpy(buf, "/");
  else if (s) { *s = 0; snprintf(buf, PATH_MAX, "%s", full); }
  else strcpy(buf, ".");
  if (!realpath(buf, r)) return 0; /* the call fails by itself */
  size_t w = strlen(work);
  if (!strncmp(r, work, w) && (r[w] == 0 || r[w] == '/')) return 0;
  escapes++;
  return 1;
}
int __real_unlink(const char *p); int __real_rmdir(const char *p); int __real_remove(const char *p);
int __real_unlinkat(int d, const char *p, int f); DIR *__real_opendir(const char *p);
struct dirent *__real_readdir(DIR *d); struct dirent64 *__real_readdir64(DIR *d);
int __wrap_unlink(const char *p) { if (outside(AT_FDCWD, p)) { errno = EPERM; return -1; } if (fails()) { errno = EACCES; return -1; } return __real_unlink(p); }
int __wrap_rmdir(const char *p) { if (outside(AT_FDCWD, p)) { errno = EPERM; return -1; } if (fails()) { errno = EBUSY; return -1; } return __real_rmdir(p); }
int __wrap_remove(const char *p) { if (outside(AT_FDCWD, p)) { errno = EPERM; return -1; } if (fails()) { errno = EACCES; return -1; } return __real_remove(p); }
int __wrap_unlinkat(int d, const char *p, int f) { if (outside(d, p)) { errno = EPERM; return -1; } if (fails()) { errno = EACCES; return -1; } return __real_unlinkat(d, p, f); }
DIR *__wrap_opendir(const char *p) { if (fails()) { errno = EMFILE; return NULL; } return __real_opendir(p); }
struct dirent *__wrap_readdir(DIR *d) { if (fails()) { errno = EIO; return NULL; } return __real_readdir(d); }
struct dirent64 *__wrap_readdir64(DIR *d) { if (fails()) { errno = EIO; return NULL; } return __real_readdir64(d); }

static int fds(void) { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
int main(void) {
  char line[3 * PATH_MAX];
  if (!getcwd(work, sizeof work) || !strcmp(work, "/")) return 9;
  coco_set_log_level("error");
  while (fgets(line, sizeof line, stdin)) {
    int off = 0; long k, s;
    line[strcspn(line, "\n")] = 0;
    if (sscanf(line, "%ld %ld %n", &k, &s, &off) != 2) return 8;
    at = k; sticky = s; nops = escapes = 0;
    int a = fds();
    on = 1; int r = coco_remove_directory(line + off); on = 0;
    printf("%d %ld %ld %d\n", r, nops, escapes, fds() - a);
    fflush(stdout);
  }
  return 0;
}
