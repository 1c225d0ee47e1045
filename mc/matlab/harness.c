/* Executes the scripts of driver.c through the MATLAB functions: every call goes through the wrapper found in its .m file
 * (wrappers.h, made by the check) to mexFunction of cocoCall.c. */
#include <unistd.h>
#include <ftw.h>
#include "cocoCall.c"

typedef struct { const char *name, *gateway; int nargs, perm[4], out; } wrapper_t;
static const wrapper_t W[] = {
#include "wrappers.h"
  {NULL, NULL, 0, {0}, 0}};

#define NS 256
static int64_t S[NS], P[NS], O[NS];
static FILE *out;
static char *tok[4096];
static int ntok, spelling = 0, left; /* left: objects not freed by the history before */
size_t __sanitizer_get_current_allocated_bytes(void);

static mxArray *ref(int64_t v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxINT64_CLASS, mxREAL); *(int64_t *)a->data = v; return a; }
static mxArray *str(const char *s) { return mxCreateString(s); }

static mxArray *gateway(const char *name, int nlhs, mxArray *const *arg, int n) {
  mxArray *r[8] = {0};
  const mxArray *prhs[8];
  mxArray *own[8];
  char nm[200];
  volatile int bad = 0;
  int i;
  strncpy(nm, name, 199);
  nm[199] = 0;
  for (i = 0; spelling && nm[i]; i++) nm[i] = (char)(spelling == 1 ? tolower((unsigned char)nm[i]) : spelling == 2 || i % 2 ? toupper((unsigned char)nm[i]) : tolower((unsigned char)nm[i]));
  own[0] = str(nm);
  for (i = 0; i < n; i++) own[i + 1] = mxDuplicateArray(arg[i]);
  for (i = 0; i <= n; i++) prhs[i] = own[i];
  /* exact-size vector of results, as MATLAB's */
  mxArray **plhs = calloc(nlhs ? (size_t)nlhs : 1, sizeof(*plhs));
  if (setjmp(mex_jb) == 0) mexFunction(nlhs, plhs, n + 1, prhs);
  else bad = 1;
  for (i = 0; i < 64; i++) if (mex_mem[i]) { free(mex_mem[i]); mex_mem[i] = NULL; }
  r[0] = plhs[0];
  free(plhs);
  for (i = 0; i < n; i++)
    if (arg[i]->data && memcmp(arg[i]->data, own[i + 1]->data, arg[i]->m * arg[i]->n * mex_size(arg[i]->cls))) bad = 2;
  for (i = 0; i <= n; i++) mxDestroyArray(own[i]);
  if (bad) { mxDestroyArray(r[0]); return bad == 1 ? NULL : (mxArray *)1; }
  return r[0] ? r[0] : (mxArray *)2;
}

/* the MATLAB function `name`; NULL: error raised, 1: argument modified, 2: no result */
static mxArray *call(const char *name, int n, mxArray *a, mxArray *b, mxArray *c) {
  mxArray *arg[4] = {a, b, c, NULL}, *perm[4], *r;
  const wrapper_t *w;
  int i;
  for (w = W; w->name; w++) if (strcmp(w->name, name) == 0) break;
  if (!w->name || w->nargs != n) { r = (mxArray *)2; }
  else {
    int m = 0;
    for (i = 0; i < 4 && w->perm[i] >= 0; i++) perm[m++] = arg[w->perm[i]];
    r = gateway(w->gateway, w->out, perm, m);
    if (w->out && r == (mxArray *)2) r = NULL; /* 'output argument not assigned' is an error */
  }
  for (i = 0; i < n; i++) mxDestroyArray(arg[i]);
  return r;
}
#define C1(f, a) call(f, 1, a, NULL, NULL)
#define C2(f, a, b) call(f, 2, a, b, NULL)
#define REAL(r) ((uintptr_t)(r) > 2)

static void show(mxArray *r) {
  size_t i;
  if (r == NULL) { fprintf(out, "exc"); return; }
  if (r == (mxArray *)1) { fprintf(out, "xmodified"); return; }
  if (r == (mxArray *)2) { fprintf(out, "ok"); return; }
  if (r->cls == mxCHAR_CLASS) { for (i = 0; i < r->m * r->n; i++) fputc(((mxChar *)r->data)[i], out); }
  else for (i = 0; i < r->m * r->n; i++) {
    mxArray e = {r->cls, 1, 1, (char *)r->data + i * mex_size(r->cls)};
    fprintf(out, "%s%.17g", i ? "\t" : "", mxGetScalar(&e));
  }
  mxDestroyArray(r);
}
static int64_t handle(mxArray *r) {
  int64_t v = REAL(r) && r->cls == mxINT64_CLASS && r->m * r->n == 1 ? *(int64_t *)r->data : 0;
  if (REAL(r)) mxDestroyArray(r);
  return v;
}
static void describe(int64_t p) {
  mxArray *r = C1("cocoProblemIsValid", ref(p));
  int valid = REAL(r) && mxGetScalar(r) != 0;
  if (REAL(r)) mxDestroyArray(r);
  if (!valid) { fprintf(out, "null"); return; }
  show(C1("cocoProblemGetId", ref(p))); fprintf(out, "\t%zu\t", coco_problem_get_suite_dep_index((coco_problem_t *)p));
  show(C1("cocoProblemGetDimension", ref(p))); fputc('\t', out);
  show(C1("cocoProblemGetNumberOfObjectives", ref(p))); fputc('\t', out);
  show(C1("cocoProblemGetNumberOfConstraints", ref(p))); fputc('\t', out);
  show(C1("cocoProblemGetNumberOfIntegerVariables", ref(p))); fputc('\t', out);
  show(C1("cocoProblemGetName", ref(p)));
}
/* the numbers from tok[from] on as an array of class c with m rows (0: a row vector) */
static mxArray *point(int from, mxClassID c, size_t m) {
  size_t n = 0, i;
  mxArray *a;
  for (i = (size_t)from; i < (size_t)ntok; i++) if (*tok[i]) n++;
  if (m == 9999) m = n;
  if (m == 0) m = 1;
  a = mxCreateNumericMatrix(m, n / m, c, mxREAL);
  for (i = 0; i < a->m * a->n; i++) {
    double v = strtod(tok[(size_t)from + i], NULL);
    if (c == mxDOUBLE_CLASS) ((double *)a->data)[i] = v;
    else if (c == mxSINGLE_CLASS) ((float *)a->data)[i] = (float)v;
    else ((int64_t *)a->data)[i] = (int64_t)v;
  }
  return a;
}
static int unlink_cb(const char *f, const struct stat *s, int t, struct FTW *w) { (void)s; (void)t; (void)w; return remove(f); }

static void run(void) {
  int p = ntok > 1 ? atoi(tok[1]) : 0;
  const char *op = tok[0];
  p = p < 0 || p >= NS ? 0 : p;
  if (!strcmp(op, "S")) { S[p] = handle(call("cocoSuite", 3, str(tok[2]), str(tok[3]), str(tok[4]))); fprintf(out, S[p] ? "ok" : "null"); }
  else if (!strcmp(op, "N")) { int o = atoi(tok[3]); P[p] = handle(C2("cocoSuiteGetNextProblem", ref(S[atoi(tok[2])]), ref(o < 0 ? 0 : O[o]))); describe(P[p]); }
  else if (!strcmp(op, "G")) { P[p] = handle(C2("cocoSuiteGetProblem", ref(S[atoi(tok[2])]), mxCreateDoubleScalar(strtod(tok[3], NULL)))); describe(P[p]); }
  else if (!strcmp(op, "O")) { O[p] = handle(C2("cocoObserver", str(tok[2]), str(tok[3]))); fprintf(out, O[p] ? "ok" : "null"); }
  else if (!strcmp(op, "A")) { P[p] = handle(C2("cocoProblemAddObserver", ref(P[p]), ref(atoi(tok[2]) < 0 ? 0 : O[atoi(tok[2])]))); describe(P[p]); }
  else if (!strcmp(op, "R")) { P[p] = handle(C2("cocoProblemRemoveObserver", ref(P[p]), ref(atoi(tok[2]) < 0 ? 0 : O[atoi(tok[2])]))); describe(P[p]); }
  else if (strchr("ECM", op[0])) { /* E row, Ec column, Ei integers, Es single, E<m> matrix of m rows */
    const char *f = op[0] == 'E' ? "cocoEvaluateFunction" : op[0] == 'C' ? "cocoEvaluateConstraint" : "cocoRecommendSolution";
    size_t m = op[1] == 'c' ? 9999 : (size_t)atoi(op + 1);
    show(C2(f, ref(P[p]), point(2, op[1] == 'i' ? mxINT64_CLASS : op[1] == 's' ? mxSINGLE_CLASS : mxDOUBLE_CLASS, m)));
  }
  else if (!strcmp(op, "T")) show(C2("cocoObserverSignalRestart", ref(O[p]), ref(P[atoi(tok[2])])));
  else if (!strcmp(op, "F")) { show(C1("cocoProblemFree", ref(P[p]))); P[p] = 0; }
  else if (!strcmp(op, "f")) { show(C1("cocoSuiteFree", ref(S[p]))); S[p] = 0; }
  else if (!strcmp(op, "o")) { show(C1("cocoObserverFree", ref(O[p]))); O[p] = 0; }
  else if (!strcmp(op, "D")) describe(P[p]);
  else if (!strcmp(op, "z")) { P[p] = 0; fprintf(out, "ok"); }
  else if (!strcmp(op, "Q")) {
    show(C1("cocoProblemGetEvaluations", ref(P[p]))); fputc('\t', out);
    show(C1("cocoProblemGetEvaluationsConstraints", ref(P[p]))); fputc('\t', out);
    show(C1("cocoProblemFinalTargetHit", ref(P[p])));
  }
  else if (!strcmp(op, "v")) show(C1("cocoProblemGetBestValue", ref(P[p])));
  else if (!strcmp(op, "X")) show(C1("cocoProblemGetInitialSolution", ref(P[p])));
  else if (!strcmp(op, "W")) { show(C1("cocoProblemGetSmallestValuesOfInterest", ref(P[p]))); fputc('\t', out); show(C1("cocoProblemGetLargestValuesOfInterest", ref(P[p]))); }
  else if (!strcmp(op, "w")) show(C1("cocoProblemGetLargestFValuesOfInterest", ref(P[p])));
  else if (!strcmp(op, "L") || !strcmp(op, "l")) show(C1("cocoSetLogLevel", str(tok[1])));
  else if (!strcmp(op, "!")) { spelling = p; fprintf(out, "ok"); }
  else if (!strcmp(op, "#")) { /* # gateway nargs nlhs: a call with that many arguments (references to problem 1) */
    mxArray *a[4];
    int i, n = atoi(tok[2]);
    for (i = 0; i < n; i++) a[i] = ref(P[1]);
    show(gateway(tok[1], atoi(tok[3]), a, n));
    for (i = 0; i < n; i++) mxDestroyArray(a[i]);
  }
  else if (!strcmp(op, "$")) fprintf(out, "%d %zu", left, __sanitizer_get_current_allocated_bytes());
  else fprintf(out, "?");
  fputc('\n', out);
}

int main(int argc, char **argv) {
  static char line[1 << 20];
  (void)argc;
  out = fopen(argv[1], "w");
  while (fgets(line, sizeof line, stdin)) {
    char *p = line;
    line[strcspn(line, "\n")] = 0;
    for (ntok = 0; ntok < 4090;) { tok[ntok++] = p; p = strchr(p, '\t'); if (!p) break; *p++ = 0; }
    tok[ntok] = tok[ntok + 1] = tok[ntok + 2] = "";
    if (!strcmp(tok[0], ".")) { fprintf(out, ".\n"); fflush(out); }
    else if (tok[0][0] == 'H' || tok[0][0] == 'h') {
      left = 0;
      for (int k = 0; k < NS; k++) left += (S[k] != 0) + (P[k] != 0) + (O[k] != 0);
      memset(S, 0, sizeof S); memset(P, 0, sizeof P); memset(O, 0, sizeof O); spelling = 0;
      if (tok[0][0] == 'H') nftw("exdata", unlink_cb, 16, FTW_DEPTH | FTW_PHYS);
      fprintf(out, "H\n");
    } else run();
  }
  return 0;
}
