/* Just enough of Octave's MEX interface for Octave/loadsrf.c. */
#ifndef MOCK_MEX_H
#define MOCK_MEX_H
#include <stddef.h>
typedef struct mxArray mxArray;
typedef int mxComplexity;
typedef size_t mwSize;
typedef size_t mwIndex;
#define mxREAL 0
void mexPrintf(const char *f, ...);
void mexErrMsgTxt(const char *s);
void mexErrMsgIdAndTxt(const char *id, const char *f, ...);
void mexWarnMsgTxt(const char *s);
const char *mexFunctionName(void);
char *mxArrayToString(const mxArray *a);
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nk, const char **keys);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateString(const char *s);
double *mxGetPr(const mxArray *a);
double mxGetScalar(const mxArray *a);
mwSize mxGetM(const mxArray *a);
mwSize mxGetN(const mxArray *a);
int mxIsChar(const mxArray *a);
void mxSetFieldByNumber(mxArray *s, mwIndex i, int k, mxArray *v);
int mxGetFieldNumber(const mxArray *s, const char *name);
void mxSetField(mxArray *s, mwIndex i, const char *name, mxArray *v);
void *mxMalloc(size_t n);
void *mxCalloc(size_t n, size_t m);
void mxFree(void *p);
void mxDestroyArray(mxArray *a);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
