/* Array-level entry points to the struct-based building blocks of the library.  No checking logic. */
#include "qpSWIFT.h"
#include <stdlib.h>
#include <string.h>
#define X __attribute__((visibility("default")))

#if !defined NO_SparseMatrixSetup
static smat mk(long m, long n, qp_int *jc, qp_int *ir, qp_real *pr)
{ smat a; memset(&a, 0, sizeof a); SparseMatrixSetup(m, n, jc[n], jc, ir, pr, &a); return a; }
#endif

#if !defined NO_SparseMatrixSetup
X void h_setup(long m, long n, long nnz, qp_int *jc, qp_int *ir, qp_real *pr, long *d, void **ptr)
{ smat a; memset(&a, 0, sizeof a); SparseMatrixSetup(m, n, nnz, jc, ir, pr, &a); d[0] = a.m; d[1] = a.n; d[2] = a.nnz; ptr[0] = a.jc; ptr[1] = a.ir; ptr[2] = a.pr; }
#endif
#if !defined NO_SparseMatrixSetup && !defined NO_SparseMatrixTranspose
/* the result arrays have n+1/m+1 and nnz entries */
X void h_transpose(long m, long n, qp_int *jc, qp_int *ir, qp_real *pr, qp_int *ojc, qp_int *oir, qp_real *opr)
{ smat a = mk(m, n, jc, ir, pr), t; memset(&t, 0, sizeof t); t.m = n; t.n = m; t.nnz = jc[n]; t.jc = ojc; t.ir = oir; t.pr = opr; SparseMatrixTranspose(&a, &t); }
#endif
#if !defined NO_densetosparse && !defined NO_densetosparse_ROWMAJOR
X void *h_dense(int row, long m, long n, qp_real *pr)
{ smat *a = calloc(1, sizeof *a); if (row) densetosparse_ROWMAJOR(m, n, pr, a); else densetosparse(m, n, pr, a); return a; }
#endif
X void h_sp_dims(smat *a, long *d) { d[0] = a->m; d[1] = a->n; d[2] = a->nnz; d[3] = a->jc[a->n]; }
X void h_sp_get(smat *a, qp_int *jc, qp_int *ir, qp_real *pr)
{ memcpy(jc, a->jc, (a->n + 1) * sizeof *jc); memcpy(ir, a->ir, a->jc[a->n] * sizeof *ir); memcpy(pr, a->pr, a->jc[a->n] * sizeof *pr); }
X void h_sp_free(smat *a) { free(a->jc); free(a->ir); free(a->pr); free(a); }
#if !defined NO_SparseMatrixSetup && !defined NO_SparseMatrixMultiply && !defined NO_SparseMatrixTransMultiply
X void h_mul(int trans, long m, long n, qp_int *jc, qp_int *ir, qp_real *pr, qp_real *x, qp_real *y, long start)
{ smat a = mk(m, n, jc, ir, pr); if (trans) SparseMatrixTransMultiply(&a, x, y, start); else SparseMatrixMultiply(&a, x, y, start); }
#endif
#if !defined NO_SparseMatrixSetup && !defined NO_obj_value
X double h_obj(long n, qp_int *jc, qp_int *ir, qp_real *pr, qp_real *c, qp_real *x, qp_real *temp)
{ smat a = mk(n, n, jc, ir, pr); return obj_value(&a, c, x, temp); }
#endif
#if !defined NO_SparseMatrixSetup && !defined NO_formkktmatrix_U && !defined NO_formkktmatrix_full
/* kind 0: full, 1: upper triangle (no equalities).  pm = 0: A and At are NULL. */
X void h_kkt(int kind, long n, long m, long p, qp_int *Pj, qp_int *Pi, qp_real *Pp, qp_int *Aj, qp_int *Ai, qp_real *Ap, qp_int *Atj, qp_int *Ati, qp_real *Atp,
	qp_int *Gj, qp_int *Gi, qp_real *Gp, qp_int *Gtj, qp_int *Gti, qp_real *Gtp, qp_int *Kj, qp_int *Ki, qp_real *Kp, long nnz)
{
	smat P = mk(n, n, Pj, Pi, Pp), G = mk(m, n, Gj, Gi, Gp), Gt = mk(n, m, Gtj, Gti, Gtp), A, At, K;
	memset(&K, 0, sizeof K); K.m = K.n = n + m + p; K.nnz = nnz; K.jc = Kj; K.ir = Ki; K.pr = Kp;
	if (p) { A = mk(p, n, Aj, Ai, Ap); At = mk(n, p, Atj, Ati, Atp); }
	if (kind) formkktmatrix_U(&P, &G, &Gt, &K); else formkktmatrix_full(&P, &G, p ? &A : 0, &Gt, p ? &At : 0, &K);
}
#endif
#if !defined NO_SparseMatrixSetup && !defined NO_updatekktmatrix
X void h_update(long N, qp_int *jc, qp_int *ir, qp_real *pr, qp_real *s, qp_real *z, qp_real *ds, qp_real *dz, double ap, double ad, long m, long n, long p, long ind)
{ smat K = mk(N, N, jc, ir, pr); updatekktmatrix(&K, s, z, ds, dz, ap, ad, m, n, p, ind); }
#endif
#if !defined NO_computeresiduals
X void h_residuals(QP *q, qp_real *rx, qp_real *ry, qp_real *rz, double *st)
{
	computeresiduals(q);
	memcpy(rx, q->rx, q->n * sizeof *rx); if (q->p) memcpy(ry, q->ry, q->p * sizeof *ry); memcpy(rz, q->rz, q->m * sizeof *rz);
	st[0] = q->stats->n_rx; st[1] = q->stats->n_ry; st[2] = q->stats->n_rz; st[3] = q->stats->n_mu;
}
#endif
X long h_selector(int k) { return k == 0 ? QP_PURE_NEWTON_STEP : k == 1 ? QP_CENTERING_CORRECTOR_STEP : QP_CENTERING_STEP; }
