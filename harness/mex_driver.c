/* Calls the loader on the files given; prints for each what it returned:
 *   file / err TEXT | none | field NAME M N v... (hex floats)  */
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mex.h"
struct mxArray { int kind; mwSize m, n; double *d; char *s; int nk; char *keys[64]; mxArray *v[64]; };
static jmp_buf jb;
static char emsg[4096];
static mxArray *new(int k) { mxArray *a = calloc(1, sizeof *a); a->kind = k; return a; }
void mexPrintf(const char *f, ...) { (void)f; }
void mexWarnMsgTxt(const char *s) { (void)s; }
void mexErrMsgTxt(const char *s) { strncpy(emsg, s, sizeof emsg - 1); longjmp(jb, 1); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { (void)id; mexErrMsgTxt(f); }
const char *mexFunctionName(void) { return "loadsrf"; }
char *mxArrayToString(const mxArray *a) { return strdup(a->s); }
mxArray *mxCreateString(const char *s) { mxArray *a = new(2); a->s = strdup(s); return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nk, const char **keys) {
  mxArray *a = new(1); a->m = m; a->n = n; a->nk = nk;
  for (int i = 0; i < nk; i++) a->keys[i] = strdup(keys[i]);
  return a;
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { (void)c; mxArray *a = new(0); a->m = m; a->n = n; a->d = calloc(m * n, sizeof(double)); return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, 0); a->d[0] = v; return a; }
double *mxGetPr(const mxArray *a) { return a->d; }
double mxGetScalar(const mxArray *a) { return a->d[0]; }
mwSize mxGetM(const mxArray *a) { return a->m; }
mwSize mxGetN(const mxArray *a) { return a->n; }
int mxIsChar(const mxArray *a) { return a->kind == 2; }
void mxSetFieldByNumber(mxArray *s, mwIndex i, int k, mxArray *v) { if (k < 0 || k >= s->nk || i >= s->m * s->n) abort(); s->v[k] = v; }
int mxGetFieldNumber(const mxArray *s, const char *name) { for (int i = 0; i < s->nk; i++) if (!strcmp(s->keys[i], name)) return i; return -1; }
void mxSetField(mxArray *s, mwIndex i, const char *name, mxArray *v) { mxSetFieldByNumber(s, i, mxGetFieldNumber(s, name), v); }
void *mxMalloc(size_t n) { return malloc(n); }
void *mxCalloc(size_t n, size_t m) { return calloc(n, m); }
void mxFree(void *p) { free(p); }
void mxDestroyArray(mxArray *a) { (void)a; }
int main(int argc, char **argv) {
  FILE *out = fopen(argv[1], "w");
  for (int i = 2; i < argc; i++) {
    mxArray *l[1] = {NULL};
    const mxArray *r[1];
    int noarg = !strcmp(argv[i], "-");
    fprintf(out, "file\n");
    r[0] = mxCreateString(argv[i]);
    if (setjmp(jb)) { for (char *q = emsg; *q; q++) if (*q == '\n') *q = ' '; fprintf(out, "err %s\n", emsg); continue; }
    mexFunction(1, l, noarg ? 0 : 1, r);
    if (!l[0]) { fprintf(out, "none\n"); continue; }
    for (int k = 0; k < l[0]->nk; k++) {
      mxArray *v = l[0]->v[k];
      fprintf(out, "field %s", l[0]->keys[k]);
      if (!v) { fprintf(out, " 0 0\n"); continue; }
      fprintf(out, " %d %d", (int)v->m, (int)v->n);
      for (mwSize j = 0; j < v->m * v->n; j++) fprintf(out, " %a", v->d[j]);
      fputc('\n', out);
    }
    fflush(out);
  }
  fprintf(out, "end\n");
  return fclose(out) != 0;
}
