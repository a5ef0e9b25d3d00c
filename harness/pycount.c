/* Counts calls of the library's entry points from the Python extension (linked with --wrap). */
#include "qpSWIFT.h"
#define X __attribute__((visibility("default")))
static long k[3];
QP *__real_QP_SETUP(qp_int, qp_int, qp_int, qp_int *, qp_int *, qp_real *, qp_int *, qp_int *, qp_real *, qp_int *, qp_int *, qp_real *, qp_real *, qp_real *, qp_real *, qp_real, qp_int *);
QP *__wrap_QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *a, qp_int *b, qp_real *c, qp_int *d, qp_int *e, qp_real *f, qp_int *g, qp_int *h, qp_real *i, qp_real *j, qp_real *l, qp_real *o, qp_real q, qp_int *r)
{ k[0]++; return __real_QP_SETUP(n, m, p, a, b, c, d, e, f, g, h, i, j, l, o, q, r); }
QP *__real_QP_SETUP_dense(qp_int, qp_int, qp_int, qp_real *, qp_real *, qp_real *, qp_real *, qp_real *, qp_real *, qp_int *, int);
QP *__wrap_QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *a, qp_real *b, qp_real *c, qp_real *d, qp_real *e, qp_real *f, qp_int *g, int o)
{ k[0]++; return __real_QP_SETUP_dense(n, m, p, a, b, c, d, e, f, g, o); }
qp_int __real_QP_SOLVE(QP *); qp_int __wrap_QP_SOLVE(QP *q) { k[1]++; return __real_QP_SOLVE(q); }
void __real_QP_CLEANUP(QP *); void __wrap_QP_CLEANUP(QP *q) { k[2]++; __real_QP_CLEANUP(q); }
void __real_QP_CLEANUP_dense(QP *); void __wrap_QP_CLEANUP_dense(QP *q) { k[2]++; __real_QP_CLEANUP_dense(q); }
X void y_counts(long *o) { o[0] = k[0]; o[1] = k[1]; o[2] = k[2]; k[0] = k[1] = k[2] = 0; }
