/* All interleavings of the file-system operations of several processes that each create an observer and log one
 * evaluation.  stdin: lines  "setup commands are done by the caller";  job line:  n <tab> observer <tab> options_1 ... options_n
 * (cwd: a directory that may hold existing files).  For every schedule the directory `world` is copied from `seed`, the
 * n processes run under the scheduler, and one line is printed: schedule | folder_1 ... folder_n . */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "coco.h"

static int rd = -1, wr = -1; /* child: token in, request out */
static long maxyield = 0, nyield = 0;
static void yield_(char op) {
  char c;
  if (wr < 0) return;
  if (maxyield && nyield++ >= maxyield) return;
  if (write(wr, &op, 1) != 1 || read(rd, &c, 1) != 1) _exit(7);
}
int __real_mkdir(const char *p, mode_t m);
int __wrap_mkdir(const char *p, mode_t m) { yield_('m'); return __real_mkdir(p, m); }
int __real_stat(const char *p, struct stat *s);
int __wrap_stat(const char *p, struct stat *s) { yield_('s'); return __real_stat(p, s); }
int __real_lstat(const char *p, struct stat *s);
int __wrap_lstat(const char *p, struct stat *s) { yield_('s'); return __real_lstat(p, s); }
int __real_access(const char *p, int m);
int __wrap_access(const char *p, int m) { yield_('a'); return __real_access(p, m); }
int __real_rename(const char *p, const char *q);
int __wrap_rename(const char *p, const char *q) { yield_('r'); return __real_rename(p, q); }
int __real_rmdir(const char *p);
int __wrap_rmdir(const char *p) { yield_('d'); return __real_rmdir(p); }
DIR *__real_opendir(const char *p);
DIR *__wrap_opendir(const char *p) { yield_('o'); return __real_opendir(p); }

static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; return remove(p); }
static void reset_world(void) {
  nftw("world", rm1, 16, FTW_DEPTH | FTW_PHYS);
  if (access("seed", F_OK) == 0) { if (system("cp -a seed world")) exit(8); }
  else __real_mkdir("world", 0755);
}

#define MAXP 4
#define MAXS 4096
static char *opts[MAXP]; static char *obsname;
static int n;

static int child(int k) {
  if (chdir("world")) _exit(6);
  coco_set_log_level("error");
  coco_observer_t *o = coco_observer(obsname, opts[k]);
  const char *f = coco_observer_get_result_folder(o);
  char msg[2048];
  snprintf(msg, sizeof msg, "=%s\n", f);
  wr = -1; /* the rest runs without yielding: the folder is this process's own */
  char keep[1024]; snprintf(keep, sizeof keep, "%s", f);
  coco_suite_t *s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 1");
  coco_problem_t *p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1), o);
  double x[2] = {1.0 + k, 2.0}, y;
  coco_evaluate_function(p, x, &y);
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  return write(rd + 1000, msg, strlen(msg)) < 0; /* result pipe */
}

int main(void) {
  char *line = NULL; size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *save = NULL, *t = strtok_r(line, "\t", &save);
    n = atoi(t);
    maxyield = atol(strtok_r(NULL, "\t", &save));
    obsname = strtok_r(NULL, "\t", &save);
    for (int k = 0; k < n; k++) { char *q = strtok_r(NULL, "\t", &save); opts[k] = q ? (strcmp(q, "-") ? q : "") : ""; }
    static int sched[MAXS], nen[MAXS], en[MAXS][MAXP], idx[MAXS];
    int plen = 0; /* prefix to follow: idx[0..plen-1] are the choices */
    long execs = 0;
    for (;;) {
      reset_world();
      int req[MAXP], go[MAXP], res[MAXP]; pid_t pid[MAXP]; int alive[MAXP], waiting[MAXP];
      char folder[MAXP][2048];
      for (int k = 0; k < n; k++) {
        int a[2], b[2], c[2];
        if (pipe(a) || pipe(b) || pipe(c)) return 9;
        pid[k] = fork();
        if (pid[k] == 0) {
          rd = b[0]; wr = a[1];
          dup2(c[1], rd + 1000);
          close(c[0]); close(c[1]); close(a[0]); close(b[1]);
          fclose(stdin);
          _exit(child(k));
        }
        close(a[1]); close(b[0]); close(c[1]);
        req[k] = a[0]; go[k] = b[1]; res[k] = c[0]; alive[k] = 1; waiting[k] = 0; folder[k][0] = 0;
      }
      int len = 0;
      for (;;) {
        int ne = 0, list[MAXP];
        for (int k = 0; k < n; k++) {
          if (alive[k] && !waiting[k]) { char c; ssize_t r = read(req[k], &c, 1); if (r == 1) waiting[k] = 1; else alive[k] = 0; }
          if (alive[k]) list[ne++] = k;
        }
        if (!ne) break;
        if (len >= MAXS) return 9;
        if (len >= plen) { idx[len] = 0; }
        nen[len] = ne;
        for (int k = 0; k < ne; k++) en[len][k] = list[k];
        if (idx[len] >= ne) { printf("nondeterministic\n"); return 9; }
        int k = list[idx[len]];
        sched[len] = k;
        waiting[k] = 0;
        if (write(go[k], "g", 1) != 1) return 9;
        len++;
      }
      for (int k = 0; k < n; k++) {
        int st; ssize_t r = 0, m = 0;
        while ((r = read(res[k], folder[k] + m, sizeof folder[k] - 1 - m)) > 0) m += r;
        folder[k][m] = 0; folder[k][strcspn(folder[k], "\n")] = 0;
        close(res[k]); close(req[k]); close(go[k]);
        waitpid(pid[k], &st, 0);
        if (st) snprintf(folder[k], sizeof folder[k], "!status %d", st);
      }
      execs++;
      for (int i = 0; i < len; i++) putchar('0' + sched[i]);
      for (int k = 0; k < n; k++) printf("\t%s", folder[k]);
      putchar('\n'); fflush(stdout);
      /* the caller inspects `world` and answers one line */
      char *ack = NULL; size_t ac = 0;
      if (getline(&ack, &ac, stdin) <= 0) return 0;
      free(ack);
      int i = len - 1;
      while (i >= 0 && idx[i] + 1 >= nen[i]) i--;
      if (i < 0) break;
      idx[i]++;
      plen = i + 1;
    }
    printf("done\t%ld\n", execs); fflush(stdout);
  }
  return 0;
}
