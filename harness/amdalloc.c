/* amd_l_order under a recording allocator (amd_malloc and amd_free are the library's own hooks). No checking logic. */
#include "amd.h"
#include <stdlib.h>
#include <string.h>
#define X __attribute__((visibility("default")))
#define PAD 64
#define MAXB 64
static __thread struct { char *p; size_t n; int live; } B[MAXB];
static __thread unsigned char filler = 0xA5;
static __thread long nb, fail_at, calls, frees, badfree, broken;
static void *am(size_t n)
{
	long k = calls++;
	if (k == fail_at || fail_at == -2 || nb >= MAXB) return 0;
	char *p = malloc(n + 2 * PAD); if (!p) return 0;
	memset(p, 0xA5, n + 2 * PAD); memset(p + PAD, filler, n);
	B[nb].p = p; B[nb].n = n; B[nb].live = 1; nb++; return p + PAD;
}
static void af(void *q)
{
	if (!q) return;
	frees++;
	for (long i = 0; i < nb; i++) if (B[i].p + PAD == (char *)q && B[i].live) {
		for (int j = 0; j < PAD; j++) if ((unsigned char)B[i].p[j] != 0xA5 || (unsigned char)B[i].p[PAD + B[i].n + j] != 0xA5) broken++;
		B[i].live = 0; return;
	}
	badfree++;
}
/* fail: index of the allocation that fails, -1 none, -2 all.  o: calls, frees, blocks left, bad frees, damaged blocks */
static void *(*om)(size_t); static void (*of)(void *);
X void v_amd_begin(long fail) { filler = (unsigned char)(filler * 5 + 3); nb = calls = frees = badfree = broken = 0; fail_at = fail; om = amd_malloc; of = amd_free; amd_malloc = am; amd_free = af; }
X void v_amd_end(long *o)
{
	amd_malloc = om; amd_free = of; o[0] = calls; o[1] = frees; o[2] = 0; o[3] = badfree; o[4] = broken;
	for (long i = 0; i < nb; i++) { if (B[i].live) o[2]++; free(B[i].p); }
}
X long v_amd(long n, const SuiteSparse_long *Ap, const SuiteSparse_long *Ai, SuiteSparse_long *P, double *Control, double *Info, long fail, long *o)
{ v_amd_begin(fail); long r = amd_l_order(n, Ap, Ai, P, Control, Info); v_amd_end(o); return r; }
