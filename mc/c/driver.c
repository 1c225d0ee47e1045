/* Script executor: one tab-separated command per line on stdin, one answer line per command on fd 3.
 * Runs the real coco.c (public API only).  exit()/abort()/assert inside coco are intercepted with --wrap
 * and reported as "fatal"; the rest of that history is then answered with "skip". */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <ftw.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include "coco.h"

double coco_problem_get_best_value(const coco_problem_t *problem);
double coco_problem_get_final_target_fvalue1(const coco_problem_t *problem);
coco_problem_t *coco_get_bbob_problem(const size_t function, const size_t dimension, const size_t instance);

#define NS 256
static coco_suite_t *S[NS];
static coco_problem_t *P[NS];
static coco_observer_t *O[NS];
static coco_archive_t *A[NS];
static coco_random_state_t *R[NS];
static FILE *out;
static jmp_buf jb;
static int armed = 0, dead = 0;

void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
  if (armed) { armed = 0; longjmp(jb, 1); }
  __real_exit(c);
}
void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void) {
  if (armed) { armed = 0; longjmp(jb, 2); }
  __real_abort();
}
void __real___assert_fail(const char *e, const char *f, unsigned l, const char *fn) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (armed) { armed = 0; longjmp(jb, 3); }
  __real___assert_fail(e, f, l, fn);
}

static char *tok[4096];
static int ntok;
static void split(char *line) {
  char *p = line;
  ntok = 0;
  size_t n = strlen(line);
  if (n && line[n - 1] == '\n') line[n - 1] = 0;
  while (ntok < 4095) {
    tok[ntok++] = p;
    p = strchr(p, '\t');
    if (!p) break;
    *p++ = 0;
  }
}
static int I(int k) { return k < ntok ? atoi(tok[k]) : -1; }
static size_t Z(int k) { return k < ntok ? strtoull(tok[k], NULL, 10) : 0; }
static double *vec(int k, size_t n) {
  double *x = malloc(n * sizeof(double)); /* exactly sized: an overread is an ASan report */
  for (size_t i = 0; i < n; i++) x[i] = (k + (int)i < ntok) ? strtod(tok[k + i], NULL) : 0.0;
  return x;
}
static void pv(const double *y, size_t n) {
  for (size_t i = 0; i < n; i++) fprintf(out, "%s%.17g", i ? "\t" : "", y[i]);
  fputc('\n', out);
}
/* Evaluation must leave the caller's vector alone. */
static double *xcopy;
static void keep(const double *x, size_t n) { xcopy = malloc((n ? n : 1) * sizeof(double)); memcpy(xcopy, x, n * sizeof(double)); }
static int same(const double *x, size_t n) { int r = !memcmp(x, xcopy, n * sizeof(double)); free(xcopy); return r; }
static void describe(coco_problem_t *p) {
  if (!p) { fprintf(out, "null\n"); return; }
  fprintf(out, "%s\t%zu\t%zu\t%zu\t%zu\t%zu\t%s\n", coco_problem_get_id(p), coco_problem_get_suite_dep_index(p),
          coco_problem_get_dimension(p), coco_problem_get_number_of_objectives(p),
          coco_problem_get_number_of_constraints(p), coco_problem_get_number_of_integer_variables(p),
          coco_problem_get_name(p));
}
static void clear_slots(void) {
  memset(S, 0, sizeof S); memset(P, 0, sizeof P); memset(O, 0, sizeof O); memset(A, 0, sizeof A); memset(R, 0, sizeof R);
}
/* Optimum scan: every point of a grid over the domain (2 and 3 variables), the corner patterns of the domain, and a
 * stencil around the declared optimum; answers: known, f(x*), best value, smallest admissible value, points visited,
 * admissible points, x* in bounds, largest constraint value at x*, distance of integer variables to integers. */
static double smin; static size_t spts, sadm;
static void try_point(coco_problem_t *p, const double *x) {
  size_t n = coco_problem_get_dimension(p), m = coco_problem_get_number_of_constraints(p);
  const double *l = coco_problem_get_smallest_values_of_interest(p), *u = coco_problem_get_largest_values_of_interest(p);
  double y = 0; int ok = 1;
  for (size_t i = 0; i < n; i++) if (x[i] < l[i] || x[i] > u[i]) return;
  spts++;
  if (m) {
    double *c = malloc(m * sizeof(double));
    coco_evaluate_constraint(p, x, c);
    for (size_t i = 0; i < m; i++) if (!(c[i] <= 0)) ok = 0;
    free(c);
  }
  coco_evaluate_function(p, x, &y);
  if (!ok) return;
  sadm++;
  if (!(y >= smin)) smin = y;
}
static void scan_optimum(coco_problem_t *p, int ng) {
  size_t n = coco_problem_get_dimension(p), m = coco_problem_get_number_of_constraints(p);
  size_t ni = coco_problem_get_number_of_integer_variables(p);
  const double *l = coco_problem_get_smallest_values_of_interest(p), *u = coco_problem_get_largest_values_of_interest(p);
  double *b = malloc(n * sizeof(double)), *x = malloc(n * sizeof(double)), fb = 0, cm = -1, di = 0;
  int known = coco_problem_get_best_parameter(p, b), inb = 1;
  smin = INFINITY; spts = sadm = 0;
  if (known) {
    coco_evaluate_function(p, b, &fb);
    if (m) { double *c = malloc(m * sizeof(double)); coco_evaluate_constraint(p, b, c); cm = c[0];
      for (size_t i = 0; i < m; i++) if (!(c[i] <= cm)) cm = c[i];
      free(c); }
    for (size_t i = 0; i < n; i++) {
      if (!(b[i] >= l[i] && b[i] <= u[i])) inb = 0;
      if (i < ni && fabs(b[i] - floor(b[i] + 0.5)) > di) di = fabs(b[i] - floor(b[i] + 0.5));
    }
    static const double D[] = {1e-7, 1e-5, 1e-3, 1e-2, 0.1, 0.4, 1.0, 2.0, 3.7};
    size_t step = n > 40 ? n / 20 : 1;
    for (int k = 0; k < 9; k++) for (int s = -1; s <= 1; s += 2) {
      for (size_t i = 0; i < n; i += step) {
        memcpy(x, b, n * sizeof(double)); x[i] += s * D[k]; try_point(p, x);
        if (n <= 40) { size_t j = (i + 1) % n; for (int t = -1; t <= 1; t += 2) { x[j] = b[j] + t * D[k]; try_point(p, x); } }
      }
      for (size_t i = 0; i < n; i++) x[i] = b[i] + s * D[k];
      try_point(p, x);
      for (size_t i = 0; i < n; i++) x[i] = b[i] + (i % 2 ? s : -s) * D[k];
      try_point(p, x);
    }
    if (n <= 40) { /* neighbouring numbers: all patterns of period 5 */
      size_t q = n < 5 ? n : 5, np = 1;
      for (size_t i = 0; i < q; i++) np *= 3;
      for (int k = 0; k < 3; k++) for (size_t t = 0; t < np; t++) {
        size_t w[5], z = t;
        for (size_t i = 0; i < q; i++) { w[i] = z % 3; z /= 3; }
        for (size_t i = 0; i < n; i++) {
          x[i] = b[i];
          if (i < ni) { x[i] += k ? 0 : (double)w[i % q] - 1; continue; }
          for (int h = 0; h < (k == 0 ? 1 : k == 1 ? 4 : 30) && w[i % q]; h++) x[i] = nextafter(x[i], w[i % q] == 1 ? -INFINITY : INFINITY);
        }
        try_point(p, x);
      }
    }
    double *x0 = malloc(n * sizeof(double)); /* the segment between initial solution and optimum */
    coco_problem_get_initial_solution(p, x0);
    for (int k = 0; k <= 40; k++) { for (size_t i = 0; i < n; i++) x[i] = x0[i] + k / 40.0 * (b[i] - x0[i]); try_point(p, x); }
    for (int k = 0; k <= 26; k++) for (int t = -1; t <= 1; t += 2) { for (size_t i = 0; i < n; i++) x[i] = b[i] + t * pow(10, -3 - 0.5 * k) * (b[i] - x0[i]); try_point(p, x); }
    free(x0);
  }
  if (n == 2) for (int i = 0; i < ng; i++) for (int j = 0; j < ng; j++) {
    x[0] = l[0] + (u[0] - l[0]) * i / (ng - 1); x[1] = l[1] + (u[1] - l[1]) * j / (ng - 1); try_point(p, x); }
  if (n == 3) { int g = ng / 4 + 2; for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) for (int k = 0; k < g; k++) {
    x[0] = l[0] + (u[0] - l[0]) * i / (g - 1); x[1] = l[1] + (u[1] - l[1]) * j / (g - 1); x[2] = l[2] + (u[2] - l[2]) * k / (g - 1); try_point(p, x); } }
  for (int k = 0; k < 64; k++) { /* all sign patterns of period 6: corners, face centres and axis points */
    for (size_t i = 0; i < n; i++) x[i] = (k >> (i % 6)) & 1 ? u[i] : l[i];
    try_point(p, x);
    for (size_t i = 0; i < n; i++) x[i] = (k >> (i % 6)) & 1 ? u[i] : 0.5 * (l[i] + u[i]);
    try_point(p, x);
  }
  fprintf(out, "%d\t%.17g\t%.17g\t%.17g\t%zu\t%zu\t%d\t%.17g\t%.17g\n", known, fb, coco_problem_get_best_value(p), smin, spts, sadm, inb, cm, di);
  free(b); free(x);
}
/* Fingerprint of a problem: strings, and numbers that characterise bounds, start, optimum, values and constraints. */
static double wsum(const double *v, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += v[i] * (2 + cos(1.3 * (double)i)); return s; }
static void fingerprint(coco_problem_t *p, int has_type) {
  size_t n = coco_problem_get_dimension(p), m = coco_problem_get_number_of_constraints(p), o = coco_problem_get_number_of_objectives(p);
  const double *l = coco_problem_get_smallest_values_of_interest(p), *u = coco_problem_get_largest_values_of_interest(p);
  double *b = malloc(n * sizeof(double)), *x = malloc(n * sizeof(double)), *y = malloc(o * sizeof(double)), *c = malloc((m + 1) * sizeof(double));
  fprintf(out, "%s|%s|%s|%zu|%zu|%zu|%zu", coco_problem_get_id(p), coco_problem_get_name(p), has_type ? coco_problem_get_type(p) : "-", n, o, m,
          coco_problem_get_number_of_integer_variables(p));
  coco_problem_get_initial_solution(p, b);
  fprintf(out, "\t%.17g\t%.17g\t%.17g", wsum(l, n), wsum(u, n), wsum(b, n));
  if (o == 1) { coco_problem_get_best_parameter(p, b); fprintf(out, "\t%.17g\t%.17g", coco_problem_get_best_value(p), wsum(b, n)); }
  else { const double *w = coco_problem_get_largest_fvalues_of_interest(p); fprintf(out, "\t%.17g\t%.17g", w[0], w[1]); }
  for (int k = 0; k < 15; k++) {
    for (size_t i = 0; i < n; i++) {
      double t, di = (double)i;
      switch (k) {
      case 0: case 1: t = 0.137 + 0.618034 * di * (k + 1) + 0.29 * k; x[i] = l[i] + (u[i] - l[i]) * (t - floor(t)); break;
      case 2: x[i] = 0; break;
      case 3: x[i] = 7.3 * sin(1.7 * di + 1); break;
      case 4: x[i] = 60 * cos(di); break;
      case 5: x[i] = i % 2 ? l[i] : u[i]; break;
      case 6: x[i] = b[i] + 0.01 * sin(1 + di); break;
      case 7: x[i] = b[i] + 0.7 * cos(1.1 * di); break;
      case 8: x[i] = b[i] - 2.3 * sin(0.7 * di + 0.4); break;
      case 10: x[i] = 2e3 * sin(2.1 * di + 0.5); break;
      case 11: x[i] = (i % 2 ? -1e6 : 1e6) * (0.3 + 0.01 * di); break;
      case 12: x[i] = u[i]; break;
      case 13: x[i] = l[i] + (u[i] - l[i]) * 0.41 + (i == n / 2 ? 6.3 : 0); break;
      case 14: x[i] = b[i] + 1e-4 * cos(1 + di); break;
      default: x[i] = (i % 3 == 0 ? 4.61 : i % 3 == 1 ? -1.234 : 0.077); break;
      }
    }
    coco_reset_seeds();
    coco_evaluate_function(p, x, y);
    for (size_t j = 0; j < o; j++) fprintf(out, "\t%.17g", y[j]);
    if (m && k != 4) { coco_evaluate_constraint(p, x, c); fprintf(out, "\t%.17g", wsum(c, m)); }
  }
  fputc('\n', out);
  free(b); free(x); free(y); free(c);
}
extern void mc_live(FILE *o) __attribute__((weak));
#define NEED(c) if (!(c)) { fprintf(out, "nop\n"); break; }

static void run(void) {
  const char *c = tok[0];
  double *x, *y;
  int p = I(1);
  switch (c[0]) {
  case 'S': /* S slot name inst opts */
    S[p] = coco_suite(tok[2], tok[3], tok[4]);
    fprintf(out, S[p] ? "ok\n" : "null\n"); break;
  case 'n': NEED(S[p]); fprintf(out, "%zu\n", coco_suite_get_number_of_problems(S[p])); break;
  case 'e': NEED(S[p]); fprintf(out, "%zu\n", coco_suite_encode_problem_index(S[p], Z(2), Z(3), Z(4))); break;
  case 'd': { size_t f = 0, d = 0, i = 0; NEED(S[p]);
    coco_suite_decode_problem_index(S[p], Z(2), &f, &d, &i); fprintf(out, "%zu\t%zu\t%zu\n", f, d, i); break; }
  case 'i': NEED(S[p]); /* i slot fidx didx iidx -> f d i */
    fprintf(out, "%zu\t%zu\t%zu\n", coco_suite_get_function_from_function_index(S[p], Z(2)),
            coco_suite_get_dimension_from_dimension_index(S[p], Z(3)),
            coco_suite_get_instance_from_instance_index(S[p], Z(4))); break;
  case 'N': { int s = I(2), o = I(3); NEED(S[s]);
    P[p] = coco_suite_get_next_problem(S[s], o >= 0 ? O[o] : NULL); describe(P[p]); break; }
  case 'G': { int s = I(2); NEED(S[s]); P[p] = coco_suite_get_problem(S[s], Z(3)); describe(P[p]); break; }
  case 'B': { int s = I(2); NEED(S[s]);
    P[p] = coco_suite_get_problem_by_function_dimension_instance(S[s], Z(3), Z(4), Z(5)); describe(P[p]); break; }
  case 'O': O[p] = coco_observer(tok[2], tok[3]);
    fprintf(out, "%s\n", O[p] ? coco_observer_get_result_folder(O[p]) : "null"); break;
  case 'A': NEED(P[p]); P[p] = coco_problem_add_observer(P[p], I(2) >= 0 ? O[I(2)] : NULL); describe(P[p]); break;
  case 'R': NEED(P[p]); P[p] = coco_problem_remove_observer(P[p], I(2) >= 0 ? O[I(2)] : NULL); describe(P[p]); break;
  case 'E': NEED(P[p]); { size_t m = coco_problem_get_number_of_objectives(P[p]);
    x = vec(2, coco_problem_get_dimension(P[p])); y = malloc(m * sizeof(double));
    keep(x, coco_problem_get_dimension(P[p]));
    coco_evaluate_function(P[p], x, y);
    if (same(x, coco_problem_get_dimension(P[p]))) pv(y, m); else fprintf(out, "xmodified\n"); free(x); free(y); break; }
  case 'C': NEED(P[p]); { size_t m = coco_problem_get_number_of_constraints(P[p]);
    x = vec(2, coco_problem_get_dimension(P[p])); y = malloc((m ? m : 1) * sizeof(double));
    keep(x, coco_problem_get_dimension(P[p]));
    coco_evaluate_constraint(P[p], x, y);
    if (same(x, coco_problem_get_dimension(P[p]))) pv(y, m); else fprintf(out, "xmodified\n"); free(x); free(y); break; }
  case 'x': NEED(P[p]); { /* x slot E|C n point: the same call n times, the value (with = in front of the operation: only if it is always the same) */
    int same_value = tok[2][0] == '=', varies = 0;
    char op = tok[2][same_value];
    size_t d = coco_problem_get_dimension(P[p]), m = op == 'E' ? coco_problem_get_number_of_objectives(P[p]) : coco_problem_get_number_of_constraints(P[p]);
    double *w;
    x = vec(4, d); y = calloc(m + 1, sizeof(double)); w = calloc(m + 1, sizeof(double));
    for (size_t i = Z(3), k = 0; i > 0; i--, k++) {
      if (op == 'E') coco_evaluate_function(P[p], x, y); else coco_evaluate_constraint(P[p], x, y);
      if (k == 0) memcpy(w, y, m * sizeof(double));
      varies |= memcmp(w, y, m * sizeof(double)) != 0;
    }
    if (same_value && varies) fprintf(out, "varies\n"); else pv(y, m);
    free(x); free(y); free(w); break; }
  case 'k': NEED(P[p]); { /* k slot n to from: n evaluations on the way; the first after which the counter or the best value is wrong, best value */
    size_t d = coco_problem_get_dimension(P[p]), m = coco_problem_get_number_of_objectives(P[p]), n = Z(2), wrong = 0, base = coco_problem_get_evaluations(P[p]);
    double *to = vec(3, d), *from = vec(3 + (int)d, d), best = coco_problem_get_best_observed_fvalue1(P[p]);
    x = malloc(d * sizeof(double)); y = malloc(m * sizeof(double));
    for (size_t k = 1; k <= n; k++) {
      double t = k == n ? 0 : pow(2, -40.0 * (double)k / (double)n);
      for (size_t i = 0; i < d; i++) x[i] = to[i] + t * (from[i] - to[i]);
      coco_evaluate_function(P[p], x, y);
      if (y[0] < best) best = y[0];
      if (!wrong && (coco_problem_get_best_observed_fvalue1(P[p]) != best || coco_problem_get_evaluations(P[p]) != base + k)) wrong = k;
    }
    fprintf(out, "%zu\t%.17g\n", wrong, best);
    free(to); free(from); free(x); free(y); break; }
  case 'M': NEED(P[p]); x = vec(2, coco_problem_get_dimension(P[p])); keep(x, coco_problem_get_dimension(P[p]));
    coco_recommend_solution(P[p], x);
    fprintf(out, same(x, coco_problem_get_dimension(P[p])) ? "ok\n" : "xmodified\n"); free(x); break;
  case 'T': NEED(P[I(2)] && O[p]); coco_observer_signal_restart(O[p], P[I(2)]); fprintf(out, "ok\n"); break;
  case 'F': NEED(P[p]); { coco_problem_t *q = P[p]; P[p] = NULL; coco_problem_free(q); fprintf(out, "ok\n"); break; }
  case 'f': NEED(S[p]); { coco_suite_t *q = S[p]; S[p] = NULL; coco_suite_free(q); fprintf(out, "ok\n"); break; }
  case 'o': NEED(O[p]); { coco_observer_t *q = O[p]; O[p] = NULL; coco_observer_free(q); fprintf(out, "ok\n"); break; }
  case 'z': P[p] = NULL; fprintf(out, "ok\n"); break; /* forget the pointer (suite owns it) */
  case 'D': NEED(P[p]); describe(P[p]); break;
  case 'Q': NEED(P[p]); /* counters */
    fprintf(out, "%zu\t%zu\t%d\t%.17g\t%d\n", coco_problem_get_evaluations(P[p]),
            coco_problem_get_evaluations_constraints(P[p]), coco_problem_final_target_hit(P[p]),
            coco_problem_get_best_observed_fvalue1(P[p]), coco_problem_is_tainted(P[p])); break;
  case 'q': NEED(P[p]); /* without the multi-objective-unsafe accessors */
    fprintf(out, "%zu\t%zu\n", coco_problem_get_evaluations(P[p]), coco_problem_get_evaluations_constraints(P[p])); break;
  case 'v': NEED(P[p]); fprintf(out, "%.17g\n", coco_problem_get_best_value(P[p])); break;
  case 'u': NEED(P[p]); fprintf(out, "%.17g\n", coco_problem_get_final_target_fvalue1(P[p])); break;
  case 'X': NEED(P[p]); x = vec(9999, coco_problem_get_dimension(P[p])); coco_problem_get_initial_solution(P[p], x);
    pv(x, coco_problem_get_dimension(P[p])); free(x); break;
  case 'K': NEED(P[p]); { size_t n = coco_problem_get_dimension(P[p]); x = vec(9999, n);
    int r = coco_problem_get_best_parameter(P[p], x); fprintf(out, "%d\t", r); pv(x, n); free(x); break; }
  case 'W': NEED(P[p]); { size_t n = coco_problem_get_dimension(P[p]); /* region of interest */
    const double *l = coco_problem_get_smallest_values_of_interest(P[p]), *u = coco_problem_get_largest_values_of_interest(P[p]);
    for (size_t i = 0; i < n; i++) fprintf(out, "%.17g\t", l[i]);
    pv(u, n); break; }
  case 'Y': NEED(P[p]); fingerprint(P[p], I(2)); break;
  case 'V': NEED(P[p]); scan_optimum(P[p], I(2)); break;
  case 'w': NEED(P[p]); { const double *l = coco_problem_get_largest_fvalues_of_interest(P[p]);
    if (!l) fprintf(out, "null\n"); else pv(l, coco_problem_get_number_of_objectives(P[p])); break; }
  case 't': NEED(P[p]); fprintf(out, "%s\n", coco_problem_get_type(P[p])); break;
  case 'Z': coco_reset_seeds(); fprintf(out, "ok\n"); break;
  case 'L': fprintf(out, "%s\n", coco_set_log_level(tok[1])); break;
  case 'a': /* a<op> slot ... archive */
    switch (c[1]) {
    case 'n': A[p] = coco_archive(tok[2], Z(3), Z(4), Z(5)); fprintf(out, A[p] ? "ok\n" : "null\n"); break;
    case 'a': NEED(A[p]); fprintf(out, "%d\n", coco_archive_add_solution(A[p], strtod(tok[2], 0), strtod(tok[3], 0), tok[4])); break;
    case 'q': NEED(A[p]); fprintf(out, "%zu\t%.17g\n", coco_archive_get_number_of_solutions(A[p]), coco_archive_get_hypervolume(A[p])); break;
    case 'c': NEED(A[p]); fprintf(out, "%zu\n", coco_archive_get_number_of_solutions(A[p])); break;
    case 'h': NEED(A[p]); fprintf(out, "%.17g\n", coco_archive_get_hypervolume(A[p])); break;
    case 't': NEED(A[p]); { const char *s = coco_archive_get_next_solution_text(A[p]);
      if (!s) fprintf(out, "null");
      else for (; *s; s++) { if (*s == '\n') fputs("\\n", out); else if (*s == '\t') fputs("\\t", out); else fputc(*s, out); }
      fputc('\n', out); break; }
    case 'f': NEED(A[p]); { coco_archive_t *q = A[p]; A[p] = NULL; coco_archive_free(q); fprintf(out, "ok\n"); break; }
    }
    break;
  case 'g': NEED(P[p]); x = vec(3, 2); fprintf(out, "%d\n", coco_logger_biobj_feed_solution(P[p], Z(2), x)); free(x); break;
  case 'r':
    switch (c[1]) {
    case 'n': R[p] = coco_random_new((uint32_t)Z(2)); fprintf(out, "ok\n"); break;
    case 'u': NEED(R[p]); fprintf(out, "%.17g\n", coco_random_uniform(R[p])); break;
    case 'g': NEED(R[p]); fprintf(out, "%.17g\n", coco_random_normal(R[p])); break;
    case 'k': { double v = 0; NEED(R[p]); for (size_t i = Z(2); i > 0; i--) v = coco_random_uniform(R[p]); fprintf(out, "%.17g\n", v); break; } /* rk slot n: n draws, the last one */
    case 'l': NEED(R[p]); for (size_t i = Z(2); i > 0; i--) fprintf(out, "%.17g%c", tok[3][0] == 'u' ? coco_random_uniform(R[p]) : coco_random_normal(R[p]), i > 1 ? '\t' : '\n'); break; /* rl slot n u|g: n draws */
    case 'f': NEED(R[p]); coco_random_free(R[p]); R[p] = NULL; fprintf(out, "ok\n"); break;
    }
    break;
  case 'b': P[p] = coco_get_bbob_problem(Z(2), Z(3), Z(4)); describe(P[p]); break; /* what cocoex.BareProblem uses */
  case 'm': /* live heap bytes and blocks (sanitizer builds, see heap.c) */
    if (mc_live) mc_live(out); else fprintf(out, "0\n"); break;
  case 'c': fprintf(out, chdir(tok[1]) ? "err\n" : "ok\n"); break;
  default: fprintf(out, "?\n");
  }
}

static char home[4096];
static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; return remove(p); }
/* The result folders of the previous history, inside the scratch directory the driver was started in. */
static void clean(void) {
  if (chdir(home)) __real_abort();
  if (access("exdata", F_OK) == 0) nftw("exdata", rm1, 16, FTW_DEPTH | FTW_PHYS);
}

/* Crash injection (linked in by the crash checks, see fsops.c). */
extern void mc_arm(long op, long bytes) __attribute__((weak));
extern long mc_ops(void) __attribute__((weak));
extern void mc_lens(FILE *o) __attribute__((weak));
void mc_die(void) { fprintf(out, "crash\n"); fflush(out); _exit(0); }

static void exec_line(char *line) {
  split(line);
  if (tok[0][0] == 'H') { dead = 0; clear_slots(); clean(); fprintf(out, "H\n"); return; }
  if (tok[0][0] == 'h') { dead = 0; clear_slots(); fprintf(out, "H\n"); return; } /* keeps the files */
  if (dead) { fprintf(out, "skip\n"); return; }
  int r = setjmp(jb);
  if (r == 0) { armed = 1; run(); armed = 0; }
  else { fprintf(out, r == 1 ? "fatal\n" : r == 2 ? "abort\n" : "assert\n"); dead = 1; }
}

int main(void) {
  char *line = NULL;
  size_t cap = 0;
  static char *buf[1 << 20];
  size_t nbuf = 0;
  prctl(PR_SET_PDEATHSIG, SIGKILL); /* no process is left behind when the check is ended */
  int fd = dup(1);
  out = fdopen(fd, "w");
  static char obuf[1 << 20];
  setvbuf(out, obuf, _IOFBF, sizeof obuf);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  coco_set_log_level("error");
  if (!getcwd(home, sizeof home)) return 9;
  while (getline(&line, &cap, stdin) > 0) {
    if (line[0] == 'J') { /* J op bytes: the rest of this history runs in a child that dies at that file operation */
      long a = 0, b = 0;
      sscanf(line + 1, "%ld %ld", &a, &b);
      nbuf = 0;
      while (getline(&line, &cap, stdin) > 0 && line[0] != '.') buf[nbuf++] = strdup(line);
      fflush(out);
      pid_t c = fork();
      if (c == 0) {
        for (size_t i = 0; i < nbuf; i++) { exec_line(buf[i]); if (i == 0) mc_arm(a, b); }
        fprintf(out, "ops\t%ld", mc_ops()); mc_lens(out); fputc('\n', out);
        fflush(out);
        _exit(0);
      }
      int st = 0;
      waitpid(c, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fprintf(out, "died\t%d\n", st);
      for (size_t i = 0; i < nbuf; i++) free(buf[i]);
      fprintf(out, ".\n");
      fflush(out);
      continue;
    }
    if (line[0] == '.') { fprintf(out, ".\n"); fflush(out); continue; }
    exec_line(line);
  }
  fflush(out);
  _exit(0);
}
