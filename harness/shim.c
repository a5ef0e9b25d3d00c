/* Thin accessor layer over the public API of qpSWIFT, compiled against the
 * headers of the tree under test so that struct layouts never matter to the
 * drivers.  It contains no checking logic. */
#define _GNU_SOURCE
#include "qpSWIFT.h"
#include <string.h>
#include <stdint.h>

#define X __attribute__((visibility("default")))

X long v_sizeof_int(void) { return sizeof(qp_int); }
X double v_default(int k)
{
	switch (k) {
	case 0: return MAXIT; case 1: return RELTOL; case 2: return ABSTOL;
	case 3: return SIGMA; case 4: return VERBOSE;
	case 5: return QP_OPTIMAL; case 6: return QP_KKTFAIL; case 7: return QP_MAXIT; case 8: return QP_FATAL;
	case 9: return ROW_MAJOR_ORDERING; case 10: return COLUMN_MAJOR_ORDERING;
	}
	return -1;
}
X QP *v_setup(long n, long m, long p, qp_int *Pjc, qp_int *Pir, qp_real *Ppr, qp_int *Ajc, qp_int *Air, qp_real *Apr,
	qp_int *Gjc, qp_int *Gir, qp_real *Gpr, qp_real *c, qp_real *h, qp_real *b, double sigma_d, qp_int *Permut)
{ return QP_SETUP(n, m, p, Pjc, Pir, Ppr, Ajc, Air, Apr, Gjc, Gir, Gpr, c, h, b, sigma_d, Permut); }
X QP *v_setup_dense(long n, long m, long p, qp_real *P, qp_real *A, qp_real *G, qp_real *c, qp_real *h, qp_real *b, qp_int *Permut, int ord)
{ return QP_SETUP_dense(n, m, p, P, A, G, c, h, b, Permut, ord); }
X long v_solve(QP *q) { return QP_SOLVE(q); }
X void v_cleanup(QP *q) { QP_CLEANUP(q); }
X void v_cleanup_dense(QP *q) { QP_CLEANUP_dense(q); }
X void v_setopt(QP *q, long maxit, double reltol, double abstol, double sigma, long verbose)
{ q->options->maxit = maxit; q->options->reltol = reltol; q->options->abstol = abstol; q->options->sigma = sigma; q->options->verbose = verbose; }
X void v_set_sigma_d(QP *q, double s) { q->sigma_d = s; }
X void v_getopt(QP *q, double *o)
{ o[0] = q->options->maxit; o[1] = q->options->reltol; o[2] = q->options->abstol; o[3] = q->options->sigma; o[4] = q->options->verbose; o[5] = q->sigma_d; }
X void v_dims(QP *q, long *d) { d[0] = q->n; d[1] = q->m; d[2] = q->p; }
X void v_stats(QP *q, double *f, long *k)
{
	stats *t = q->stats;
	f[0] = t->tsetup; f[1] = t->tsolve; f[2] = t->kkt_time; f[3] = t->ldl_numeric;
	f[4] = t->n_rx; f[5] = t->n_ry; f[6] = t->n_rz; f[7] = t->n_mu; f[8] = t->alpha_p; f[9] = t->alpha_d; f[10] = t->fval;
	k[0] = t->IterationCount; k[1] = t->Flag; k[2] = t->AMD_RESULT;
}
X void v_vecs(QP *q, double *x, double *y, double *z, double *s)
{
	memcpy(x, q->x, q->n * sizeof(double));
	if (q->p) memcpy(y, q->y, q->p * sizeof(double));
	memcpy(z, q->z, q->m * sizeof(double));
	memcpy(s, q->s, q->m * sizeof(double));
}
X void v_setvecs(QP *q, double *x, double *y, double *z, double *s)
{
	memcpy(q->x, x, q->n * sizeof(double));
	if (q->p) memcpy(q->y, y, q->p * sizeof(double));
	memcpy(q->z, z, q->m * sizeof(double));
	memcpy(q->s, s, q->m * sizeof(double));
}
/* which: 0 P, 1 A, 2 G, 3 At, 4 Gt, 5 kkt */
static smat *mat(QP *q, int w)
{
	switch (w) { case 0: return q->P; case 1: return q->A; case 2: return q->G; case 3: return q->A ? q->At : 0; case 4: return q->Gt; default: return q->kkt->kktmatrix; }
}
X int v_mat_dims(QP *q, int w, long *d)
{ smat *a = mat(q, w); if (!a) return 0; d[0] = a->m; d[1] = a->n; d[2] = a->nnz; return 1; }
X void v_mat_jc(QP *q, int w, long *jc) { smat *a = mat(q, w); memcpy(jc, a->jc, (a->n + 1) * sizeof(long)); }
X void v_mat_get(QP *q, int w, long *ir, double *pr) { smat *a = mat(q, w); memcpy(ir, a->ir, a->jc[a->n] * sizeof(long)); memcpy(pr, a->pr, a->jc[a->n] * sizeof(double)); }
X void v_perm(QP *q, long *P) { memcpy(P, q->kkt->P, q->kkt->kktmatrix->n * sizeof(long)); }
X void *v_perm_ptr(QP *q) { return q->kkt->P; }
