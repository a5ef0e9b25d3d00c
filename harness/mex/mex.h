#ifndef X_MEX
#define X_MEX
#include <stdio.h>
#include "matrix.h"
#define EXTERN_C extern
void mexFunction(int, mxArray *[], int, const mxArray *[]);
int mexPrintf(const char *, ...); __attribute__((noreturn)) void mexErrMsgTxt(const char *), mexErrMsgIdAndTxt(const char *, const char *, ...); void mexWarnMsgTxt(const char *), mexWarnMsgIdAndTxt(const char *, const char *, ...);
int mexAtExit(void (*)(void)); void mexMakeMemoryPersistent(void *), mexMakeArrayPersistent(mxArray *), mexLock(void), mexUnlock(void); const char *mexFunctionName(void);
#endif
