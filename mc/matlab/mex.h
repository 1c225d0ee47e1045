/* Stand-in for MATLAB's mex.h: arrays in exact-size heap blocks, errors unwind to the caller of mexFunction. */
#pragma GCC diagnostic ignored "-Wunused-function"
#ifndef MC_MEX_H
#define MC_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdarg.h>
#include <setjmp.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <math.h>

typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef uint16_t mxChar;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS,
  mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct mxArray_tag { mxClassID cls; mwSize m, n; void *data; } mxArray;
typedef double mxDouble; typedef int64_t mxInt64; typedef uint64_t mxUint64; typedef int32_t mxInt32; typedef uint32_t mxUint32;

static jmp_buf mex_jb;
static void *mex_mem[64];

static size_t mex_size(mxClassID c) {
  static const size_t s[] = {0, 8, 0, 1, 2, 0, 8, 4, 1, 1, 2, 2, 4, 4, 8, 8, 8};
  return s[c];
}
static mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) {
  mxArray *a = malloc(sizeof *a);
  (void)x;
  a->cls = c; a->m = m; a->n = n;
  a->data = m * n ? calloc(m * n, mex_size(c)) : NULL;
  return a;
}
static mxArray *mxCreateUninitNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { return mxCreateNumericMatrix(m, n, c, x); }
static mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity x) {
  mwSize n = 1, i;
  for (i = 1; i < nd; i++) n *= d[i];
  return mxCreateNumericMatrix(nd ? d[0] : 0, n, c, x);
}
static mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
static mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; }
static mxArray *mxCreateLogicalScalar(mxLogical v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxLOGICAL_CLASS, mxREAL); *(mxLogical *)a->data = v; return a; }
static mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n) { return mxCreateNumericMatrix(m, n, mxLOGICAL_CLASS, mxREAL); }
static mxArray *mxCreateString(const char *s) {
  size_t i, n = s ? strlen(s) : 0;
  mxArray *a = mxCreateNumericMatrix(n ? 1 : 0, n, mxCHAR_CLASS, mxREAL);
  for (i = 0; i < n; i++) ((mxChar *)a->data)[i] = (mxChar)(unsigned char)s[i];
  return a;
}
static void mxDestroyArray(mxArray *a) { if (a) { free(a->data); free(a); } }
static mwSize mxGetM(const mxArray *a) { return a->m; }
static mwSize mxGetN(const mxArray *a) { return a->n; }
static mwSize mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
static mwSize mxGetNumberOfDimensions(const mxArray *a) { (void)a; return 2; }
static const mwSize *mxGetDimensions(const mxArray *a) { return &a->m; }
static size_t mxGetElementSize(const mxArray *a) { return mex_size(a->cls); }
static mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
static const char *mxGetClassName(const mxArray *a) { return a->cls == mxDOUBLE_CLASS ? "double" : a->cls == mxCHAR_CLASS ? "char" : a->cls == mxINT64_CLASS ? "int64" : "other"; }
static void *mxGetData(const mxArray *a) { return a->data; }
static double *mxGetPr(const mxArray *a) { return a->data; }
static double *mxGetDoubles(const mxArray *a) { return a->cls == mxDOUBLE_CLASS ? a->data : NULL; }
static mxInt64 *mxGetInt64s(const mxArray *a) { return a->cls == mxINT64_CLASS ? a->data : NULL; }
static mxUint64 *mxGetUint64s(const mxArray *a) { return a->cls == mxUINT64_CLASS ? a->data : NULL; }
static mxInt32 *mxGetInt32s(const mxArray *a) { return a->cls == mxINT32_CLASS ? a->data : NULL; }
static mxUint32 *mxGetUint32s(const mxArray *a) { return a->cls == mxUINT32_CLASS ? a->data : NULL; }
static mxLogical *mxGetLogicals(const mxArray *a) { return a->data; }
static bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
static bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; }
static bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
static bool mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; }
static bool mxIsUint64(const mxArray *a) { return a->cls == mxUINT64_CLASS; }
static bool mxIsInt32(const mxArray *a) { return a->cls == mxINT32_CLASS; }
static bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
static bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
static bool mxIsComplex(const mxArray *a) { (void)a; return false; }
static bool mxIsSparse(const mxArray *a) { (void)a; return false; }
static bool mxIsCell(const mxArray *a) { (void)a; return false; }
static bool mxIsStruct(const mxArray *a) { (void)a; return false; }
static bool mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
static bool mxIsScalar(const mxArray *a) { return a->m == 1 && a->n == 1; }
static bool mxIsClass(const mxArray *a, const char *c) { return strcmp(mxGetClassName(a), c) == 0; }
static double mxGetScalar(const mxArray *a) {
  if (!a->data) return 0;
  switch (a->cls) {
  case mxDOUBLE_CLASS: return *(double *)a->data;
  case mxSINGLE_CLASS: return *(float *)a->data;
  case mxLOGICAL_CLASS: return *(mxLogical *)a->data;
  case mxCHAR_CLASS: return *(mxChar *)a->data;
  case mxINT32_CLASS: return *(int32_t *)a->data;
  case mxUINT32_CLASS: return *(uint32_t *)a->data;
  case mxINT64_CLASS: return (double)*(int64_t *)a->data;
  case mxUINT64_CLASS: return (double)*(uint64_t *)a->data;
  default: return 0;
  }
}
/* memory of a call: released at its end, as MATLAB does */
static void *mxMalloc(size_t n) {
  int i;
  void *p = malloc(n ? n : 1);
  for (i = 0; i < 64; i++) if (!mex_mem[i]) { mex_mem[i] = p; return p; }
  abort();
}
static void *mxCalloc(size_t n, size_t s) { return memset(mxMalloc(n * s), 0, n * s); }
static void mxFree(void *p) {
  int i;
  if (!p) return;
  for (i = 0; i < 64; i++) if (mex_mem[i] == p) { mex_mem[i] = NULL; free(p); return; }
  fprintf(stderr, "mxFree of a foreign pointer\n");
  abort();
}
static char *mxArrayToString(const mxArray *a) {
  char *s;
  size_t i, n = a->m * a->n;
  if (a->cls != mxCHAR_CLASS) return NULL;
  s = mxMalloc(n + 1);
  for (i = 0; i < n; i++) s[i] = (char)((mxChar *)a->data)[i];
  s[n] = 0;
  return s;
}
static char *mxArrayToUTF8String(const mxArray *a) { return mxArrayToString(a); }
static int mxGetString(const mxArray *a, char *b, mwSize len) {
  size_t i, n = a->m * a->n;
  if (a->cls != mxCHAR_CLASS || len == 0) return 1;
  for (i = 0; i < n && i + 1 < len; i++) b[i] = (char)((mxChar *)a->data)[i];
  b[i] = 0;
  return n + 1 > len;
}
static void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) __attribute__((noreturn));
static void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)id; (void)fmt; longjmp(mex_jb, 1); }
static void mexErrMsgTxt(const char *fmt) __attribute__((noreturn));
static void mexErrMsgTxt(const char *fmt) { (void)fmt; longjmp(mex_jb, 1); }
static void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)id; (void)fmt; }
static void mexWarnMsgTxt(const char *fmt) { (void)fmt; }
static int mexPrintf(const char *fmt, ...) { va_list a; int r; va_start(a, fmt); r = vprintf(fmt, a); va_end(a); return r; }
static int mexAtExit(void (*f)(void)) { (void)f; return 0; }
static void mexLock(void) {}
static void mexUnlock(void) {}
static bool mexIsLocked(void) { return false; }
static void mexMakeMemoryPersistent(void *p) { int i; for (i = 0; i < 64; i++) if (mex_mem[i] == p) mex_mem[i] = NULL; }
static void mexMakeArrayPersistent(mxArray *a) { (void)a; }
static const char *mexFunctionName(void) { return "cocoCall"; }
static mxArray *mxDuplicateArray(const mxArray *a) {
  mxArray *b = mxCreateNumericMatrix(a->m, a->n, a->cls, mxREAL);
  if (a->data) memcpy(b->data, a->data, a->m * a->n * mex_size(a->cls));
  return b;
}
#define mxAssert(e, m) ((void)0)
#define mxIsNaN(x) isnan(x)
#define mxIsInf(x) isinf(x)
#define mxIsFinite(x) isfinite(x)
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
