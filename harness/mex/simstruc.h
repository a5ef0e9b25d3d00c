/* Stand-in for Simulink's S-function interface, level 2, as far as real vector ports go.  An input port whose
 * S-function did not ask for contiguity has its elements scattered, and then only the pointer access is valid. */
#ifndef X_SIM
#define X_SIM
#include "tmwtypes.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define DYNAMICALLY_SIZED (-1)
#define INHERITED_SAMPLE_TIME (-1.0)
#define XP 12
typedef const real_T *const *InputRealPtrsType;
typedef struct { int width, nd; int *dims; } DimsInfo_T;
typedef struct { int width, contiguous, feed; double *sig; const double **ptr; } XPort;
typedef struct SimStruct_tag { int nin, nout, ncont, ndisc, npar, nst; double ts, off; XPort in[XP], out[XP]; void *user; const char *err; } SimStruct;
#define ssSetNumContStates(S, k) ((S)->ncont = (k))
#define ssSetNumDiscStates(S, k) ((S)->ndisc = (k))
#define ssSetNumSFcnParams(S, k) ((S)->npar = (k))
#define ssGetNumSFcnParams(S) ((S)->npar)
#define ssGetSFcnParamsCount(S) (0)
#define ssSetNumInputPorts(S, k) ((k) <= XP ? ((S)->nin = (k), 1) : 0)
#define ssSetNumOutputPorts(S, k) ((k) <= XP ? ((S)->nout = (k), 1) : 0)
#define ssGetNumInputPorts(S) ((S)->nin)
#define ssGetNumOutputPorts(S) ((S)->nout)
#define ssSetInputPortVectorDimension(S, i, w) ((S)->in[i].width = (w), 1)
#define ssSetOutputPortVectorDimension(S, i, w) ((S)->out[i].width = (w), 1)
#define ssSetInputPortWidth(S, i, w) ((S)->in[i].width = (w), 1)
#define ssSetOutputPortWidth(S, i, w) ((S)->out[i].width = (w), 1)
#define ssSetInputPortDirectFeedThrough(S, i, f) ((S)->in[i].feed = (f))
#define ssSetInputPortRequiredContiguous(S, i, f) ((S)->in[i].contiguous = (f))
#define ssSetInputPortDimensionInfo(S, i, d) ((S)->in[i].width = (d)->width, 1)
#define ssSetOutputPortDimensionInfo(S, i, d) ((S)->out[i].width = (d)->width, 1)
#define ssSetNumSampleTimes(S, k) ((S)->nst = (k))
#define ssSetSampleTime(S, i, t) ((S)->ts = (t))
#define ssSetOffsetTime(S, i, t) ((S)->off = (t))
#define ssGetInputPortWidth(S, i) ((S)->in[i].width)
#define ssGetOutputPortWidth(S, i) ((S)->out[i].width)
#define ssGetInputPortRealSignal(S, i) ((const real_T *)((S)->in[i].contiguous ? (S)->in[i].sig : 0))
#define ssGetInputPortSignal(S, i) ((const void *)((S)->in[i].contiguous ? (S)->in[i].sig : 0))
#define ssGetInputPortRealSignalPtrs(S, i) ((InputRealPtrsType)((S)->in[i].contiguous ? 0 : (S)->in[i].ptr))
#define ssGetOutputPortRealSignal(S, i) ((S)->out[i].sig)
#define ssGetOutputPortSignal(S, i) ((void *)(S)->out[i].sig)
#define ssSetErrorStatus(S, m) ((S)->err = (m))
#define ssSetUserData(S, u) ((S)->user = (u))
#define ssGetUserData(S) ((S)->user)
#define ssSetOptions(S, o) ((void)(o))
#define ssSetNumRWork(S, k) ((void)0)
#define ssSetNumIWork(S, k) ((void)0)
#define ssSetNumPWork(S, k) ((void)0)
#define ssSetNumModes(S, k) ((void)0)
#define ssSetNumNonsampledZCs(S, k) ((void)0)
#define UNUSED_ARG(x) ((void)(x))
#endif
