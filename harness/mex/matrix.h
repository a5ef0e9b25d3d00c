/* Stand-in for MATLAB's matrix API, as documented (separate complex storage). */
#ifndef X_MATRIX
#define X_MATRIX
#include "tmwtypes.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
typedef size_t mwSize, mwIndex; typedef ptrdiff_t mwSignedIndex; typedef bool mxLogical; typedef uint16_t mxChar; typedef double mxDouble;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct mxArray_tag mxArray;
const mwSize *mxGetDimensions(const mxArray *); mwSize mxGetNumberOfDimensions(const mxArray *); size_t mxGetM(const mxArray *), mxGetN(const mxArray *), mxGetNumberOfElements(const mxArray *), mxGetElementSize(const mxArray *);
bool mxIsDouble(const mxArray *), mxIsSparse(const mxArray *), mxIsComplex(const mxArray *), mxIsEmpty(const mxArray *), mxIsStruct(const mxArray *), mxIsNumeric(const mxArray *), mxIsLogical(const mxArray *), mxIsChar(const mxArray *), mxIsSingle(const mxArray *), mxIsScalar(const mxArray *), mxIsCell(const mxArray *), mxIsClass(const mxArray *, const char *), mxIsInt32(const mxArray *), mxIsInt64(const mxArray *), mxIsLogicalScalar(const mxArray *);
mxClassID mxGetClassID(const mxArray *); const char *mxGetClassName(const mxArray *);
double *mxGetPr(const mxArray *), *mxGetPi(const mxArray *), *mxGetDoubles(const mxArray *); void *mxGetData(const mxArray *); mwIndex *mxGetIr(const mxArray *), *mxGetJc(const mxArray *); mwSize mxGetNzmax(const mxArray *); double mxGetScalar(const mxArray *);
mxArray *mxGetField(const mxArray *, mwIndex, const char *), *mxGetFieldByNumber(const mxArray *, mwIndex, int); int mxGetFieldNumber(const mxArray *, const char *), mxGetNumberOfFields(const mxArray *); const char *mxGetFieldNameByNumber(const mxArray *, int);
void mxSetField(mxArray *, mwIndex, const char *, mxArray *), mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity), *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity), *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity), *mxCreateDoubleScalar(double), *mxCreateStructArray(mwSize, const mwSize *, int, const char **), *mxCreateStructMatrix(mwSize, mwSize, int, const char **), *mxDuplicateArray(const mxArray *);
void mxDestroyArray(mxArray *); void *mxMalloc(size_t), *mxCalloc(size_t, size_t), *mxRealloc(void *, size_t); void mxFree(void *);
bool mxIsNaN(double), mxIsInf(double), mxIsFinite(double); double mxGetNaN(void), mxGetInf(void), mxGetEps(void);
#endif
