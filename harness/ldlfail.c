/* Fault injection: the factorisation behind --wrap=LDL_numeric reports a zero pivot at a chosen call. */
#define X __attribute__((visibility("default")))
long __real_LDL_numeric(long, long *, long *, double *, long *, long *, long *, long *, double *, double *, double *, long *, long *, long *, long *);
static long calls, at = -1, pivot;
X void f_arm(long call, long k) { calls = 0; at = call; pivot = k; }
X long f_calls(void) { return calls; }
X long __wrap_LDL_numeric(long n, long *Ap, long *Ai, double *Ax, long *Lp, long *Pa, long *Lnz, long *Li, double *Lx, double *D, double *Y, long *Pt, long *Fl, long *P, long *Pi)
{
	long d = __real_LDL_numeric(n, Ap, Ai, Ax, Lp, Pa, Lnz, Li, Lx, D, Y, Pt, Fl, P, Pi);
	return ++calls == at ? pivot % n : d;
}
