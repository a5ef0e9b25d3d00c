/* The functions behind mex/matrix.h and mex/mex.h, and the calling side of a MEX file.  Inputs come ready made from
 * the recorder (read-only pages); memory of the MEX file comes from malloc, which is wrapped and recorded. */
#include "mex.h"
#include <math.h>
#include <setjmp.h>
#include <stdarg.h>
#define X __attribute__((visibility("default")))
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
struct mxArray_tag { mxClassID cls; int sparse, cplx, nd; mwSize dims[4]; void *pr; double *pi; mwIndex *ir, *jc; mwSize nzmax; int nf; const char *names[32]; mxArray **f; };
static const char *cname[] = { "unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle" };
static const int csize[] = { 0, 8, 8, 1, 2, 0, 8, 4, 1, 1, 2, 2, 4, 4, 8, 8, 8 };
size_t mxGetNumberOfElements(const mxArray *a) { size_t k = 1; for (int i = 0; i < a->nd; i++) k *= a->dims[i]; return k; }
const mwSize *mxGetDimensions(const mxArray *a) { return a->dims; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->nd; }
size_t mxGetM(const mxArray *a) { return a->dims[0]; }
size_t mxGetN(const mxArray *a) { size_t k = 1; for (int i = 1; i < a->nd; i++) k *= a->dims[i]; return k; }
size_t mxGetElementSize(const mxArray *a) { return csize[a->cls]; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsInt32(const mxArray *a) { return a->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; }
bool mxIsSparse(const mxArray *a) { return a->sparse; }
bool mxIsComplex(const mxArray *a) { return a->cplx; }
bool mxIsEmpty(const mxArray *a) { return mxGetNumberOfElements(a) == 0; }
bool mxIsStruct(const mxArray *a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsCell(const mxArray *a) { return a->cls == mxCELL_CLASS; }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsScalar(const mxArray *a) { return a->nd == 2 && mxGetNumberOfElements(a) == 1; }
bool mxIsLogicalScalar(const mxArray *a) { return mxIsLogical(a) && mxGetNumberOfElements(a) == 1; }
bool mxIsClass(const mxArray *a, const char *n) { return !strcmp(n, cname[a->cls]); }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
const char *mxGetClassName(const mxArray *a) { return cname[a->cls]; }
double *mxGetPr(const mxArray *a) { return a->pr; }
double *mxGetDoubles(const mxArray *a) { return mxIsDouble(a) && !a->cplx ? a->pr : 0; }
void *mxGetData(const mxArray *a) { return a->pr; }
double *mxGetPi(const mxArray *a) { return a->pi; }
mwIndex *mxGetIr(const mxArray *a) { return a->sparse ? a->ir : 0; }
mwIndex *mxGetJc(const mxArray *a) { return a->sparse ? a->jc : 0; }
mwSize mxGetNzmax(const mxArray *a) { return a->nzmax; }
double mxGetScalar(const mxArray *a)
{
	if (!a->pr) return NAN;
	switch (a->cls) {
	case mxDOUBLE_CLASS: return *(double *)a->pr; case mxSINGLE_CLASS: return *(float *)a->pr; case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t *)a->pr; case mxINT8_CLASS: return *(int8_t *)a->pr;
	case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t *)a->pr; case mxINT16_CLASS: return *(int16_t *)a->pr; case mxINT32_CLASS: return *(int32_t *)a->pr; case mxUINT32_CLASS: return *(uint32_t *)a->pr;
	case mxINT64_CLASS: return (double)*(int64_t *)a->pr; case mxUINT64_CLASS: return (double)*(uint64_t *)a->pr; default: return NAN;
	}
}
int mxGetFieldNumber(const mxArray *a, const char *n) { if (!mxIsStruct(a)) return -1; for (int i = 0; i < a->nf; i++) if (!strcmp(a->names[i], n)) return i; return -1; }
int mxGetNumberOfFields(const mxArray *a) { return mxIsStruct(a) ? a->nf : 0; }
const char *mxGetFieldNameByNumber(const mxArray *a, int i) { return i >= 0 && i < a->nf ? a->names[i] : 0; }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex k, int i) { return mxIsStruct(a) && i >= 0 && i < a->nf && k < mxGetNumberOfElements(a) ? a->f[k * a->nf + i] : 0; }
mxArray *mxGetField(const mxArray *a, mwIndex k, const char *n) { return mxGetFieldByNumber(a, k, mxGetFieldNumber(a, n)); }
void mxSetFieldByNumber(mxArray *a, mwIndex k, int i, mxArray *v) { if (mxIsStruct(a) && i >= 0 && i < a->nf && k < mxGetNumberOfElements(a)) a->f[k * a->nf + i] = v; }
void mxSetField(mxArray *a, mwIndex k, const char *n, mxArray *v) { mxSetFieldByNumber(a, k, mxGetFieldNumber(a, n), v); }
static mxArray *blank(mwSize nd, const mwSize *d, mxClassID c) { mxArray *a = __real_calloc(1, sizeof *a); a->cls = c; a->nd = nd < 2 ? 2 : (int)nd; for (mwSize i = 0; i < (mwSize)a->nd; i++) a->dims[i] = i < nd ? d[i] : 1; return a; }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity x) { mxArray *a = blank(nd, d, c); size_t k = mxGetNumberOfElements(a); if (k) { a->pr = __real_calloc(k, csize[c]); if (x == mxCOMPLEX) { a->cplx = 1; a->pi = __real_calloc(k, csize[c]); } } return a; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { mwSize d[2] = { m, n }; return mxCreateNumericArray(2, d, c, x); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->pr = v; return a; }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **n) { mxArray *a = blank(nd, d, mxSTRUCT_CLASS); a->nf = nf; for (int i = 0; i < nf; i++) a->names[i] = strdup(n[i]); a->f = __real_calloc(mxGetNumberOfElements(a) * nf + 1, sizeof *a->f); return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f) { mwSize d[2] = { m, n }; return mxCreateStructArray(2, d, nf, f); }
mxArray *mxDuplicateArray(const mxArray *a) { mxArray *b = __real_malloc(sizeof *b); *b = *a; size_t k = (a->sparse ? a->nzmax : mxGetNumberOfElements(a)) * csize[a->cls]; if (a->pr) { b->pr = __real_malloc(k); memcpy(b->pr, a->pr, k); } return b; }
void mxDestroyArray(mxArray *a) { (void)a; }
void *mxMalloc(size_t n) { return malloc(n); }
void *mxCalloc(size_t a, size_t b) { return calloc(a, b); }
void *mxRealloc(void *p, size_t n) { return realloc(p, n); }
void mxFree(void *p) { free(p); }
bool mxIsNaN(double x) { return isnan(x); } bool mxIsInf(double x) { return isinf(x); } bool mxIsFinite(double x) { return isfinite(x); }
double mxGetNaN(void) { return NAN; } double mxGetInf(void) { return INFINITY; } double mxGetEps(void) { return 2.220446049250313e-16; }
static jmp_buf jb; static char msg[4096]; static char out[1 << 16]; static size_t nout; static int warned;
int mexPrintf(const char *f, ...) { va_list v; va_start(v, f); int k = vsnprintf(out + nout, sizeof out - nout, f, v); va_end(v); if (k > 0) nout = nout + k < sizeof out - 1 ? nout + k : sizeof out - 1; return k; }
void mexErrMsgTxt(const char *m) { snprintf(msg, sizeof msg, "%s", m); longjmp(jb, 1); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { va_list v; va_start(v, f); vsnprintf(msg, sizeof msg, f ? f : id, v); va_end(v); longjmp(jb, 1); }
void mexWarnMsgTxt(const char *m) { (void)m; warned++; }
void mexWarnMsgIdAndTxt(const char *i, const char *f, ...) { (void)i; (void)f; warned++; }
int mexAtExit(void (*f)(void)) { (void)f; return 0; } void mexMakeMemoryPersistent(void *p) { (void)p; } void mexMakeArrayPersistent(mxArray *a) { (void)a; } void mexLock(void) { } void mexUnlock(void) { } const char *mexFunctionName(void) { return "qpSWIFT"; }
/* ---- recorder side */
X mxArray *x_new(int cls, int sparse, int cplx, int nd, const long *d, void *pr, void *ir, void *jc, long nz) { mwSize e[4]; for (int i = 0; i < nd; i++) e[i] = d[i]; mxArray *a = blank(nd, e, cls); a->sparse = sparse; a->cplx = cplx; a->pr = pr; a->ir = ir; a->jc = jc; a->nzmax = nz; if (cplx) a->pi = pr; return a; }
X mxArray *x_struct(long count, int nf, const char **n, mxArray **v) { mxArray *a = mxCreateStructMatrix(count ? 1 : 0, count, nf, n); if (count) for (int i = 0; i < nf; i++) a->f[i] = v[i]; return a; }
void w_begin(long); long w_end(void);
static mxArray *plhs[8];
#ifdef X_GATEWAY
X long x_call(int nlhs, int nrhs, const mxArray **prhs)
{
	memset(plhs, 0, sizeof plhs); msg[0] = out[0] = 0; nout = 0; warned = 0; w_begin(1);
	volatile long r = 0; if (setjmp(jb) == 0) mexFunction(nlhs, plhs, nrhs, prhs); else r = 1;
	w_end(); return r;
}
#endif
X const char *x_msg(void) { return msg; }
X const char *x_printed(void) { return out; }
X mxArray *x_out(int i) { return plhs[i]; }
X mxArray *x_field(mxArray *a, const char *n) { return mxGetField(a, 0, n); }
X const char *x_fieldname(mxArray *a, int i) { return mxGetFieldNameByNumber(a, i); }
X void x_info(const mxArray *a, long *o) { o[0] = a->cls; o[1] = a->sparse; o[2] = a->cplx; o[3] = a->nd; o[4] = a->dims[0]; o[5] = a->dims[1]; o[6] = a->nf; }
X void *x_data(const mxArray *a) { return a->pr; }
