/* Included at the end of an S-function: what Simulink would call. */
#define X __attribute__((visibility("default")))
int s_guard(void);
X void *s_new(void) { SimStruct *S = calloc(1, sizeof *S); mdlInitializeSizes(S); mdlInitializeSampleTimes(S); return S; }
X long s_ports(SimStruct *S, long *o) { o[0] = S->nin; o[1] = S->nout; for (int i = 0; i < XP; i++) { o[2+i] = S->in[i].width; o[2+XP+i] = S->out[i].width; o[2+2*XP+i] = S->in[i].contiguous; o[2+3*XP+i] = S->in[i].feed; } return S->ncont + S->ndisc; }
X int s_clock(SimStruct *S) { return S->nst == 1 && S->ts == INHERITED_SAMPLE_TIME && S->off == 0.0; }      /* runs whenever its inputs change */
X void s_dim_in(SimStruct *S, int i, int w) { DimsInfo_T d = { w, 1, &w }; mdlSetInputPortDimensionInfo(S, i, &d); }
X void s_dim_out(SimStruct *S, int i, int w) { DimsInfo_T d = { w, 1, &w }; mdlSetOutputPortDimensionInfo(S, i, &d); }
X void s_in(SimStruct *S, int i, double *sig, const double **ptr) { S->in[i].sig = sig; S->in[i].ptr = ptr; }
X void s_out(SimStruct *S, int i, double *sig) { S->out[i].sig = sig; }
X void s_step(SimStruct *S) { mdlOutputs(S, 0); }
X void s_end(SimStruct *S) { mdlTerminate(S); free(S); }
