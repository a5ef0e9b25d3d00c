/* Recording allocator behind --wrap=malloc,calloc,realloc,free for the library under test, read-only placement of
 * caller arrays, and a token scheduler at allocator and timer calls.  Observes and records; decides nothing.
 * Every block lies against an inaccessible page (after it, or before it in mode 1); freed blocks become inaccessible. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#define X __attribute__((visibility("default")))
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_clock_gettime(clockid_t, struct timespec *);

#define PG 4096UL
#define MAXB 65536
#define SLACK 0xC3
typedef struct { char *map; size_t maplen; char *p; size_t n; long owner; int live; } Blk;
static Blk *T; static long nT;
typedef struct { long op, id, size; } Ev;                       /* 1 alloc, 2 free, 3 free of an unknown pointer, 4 second free, 5 free of another object's block, 6 damaged surroundings */
#define MAXE 100000
static Ev *E; static long nE;
static int mode; static unsigned char fill = 0xA5;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static __thread long cur = -1;                                   /* object whose call is running, -1 outside */
static void ev(long op, long id, long size) { if (nE < MAXE) { E[nE].op = op; E[nE].id = id; E[nE].size = size; nE++; } }

/* ---- scheduler: sched[i] is the thread to run between yield points i and i+1 */
static int s_on; static const unsigned char *s_seq; static long s_len, s_pos, s_points; static int s_n; static unsigned s_alive;
static pthread_cond_t s_cv = PTHREAD_COND_INITIALIZER; static pthread_mutex_t s_mx = PTHREAD_MUTEX_INITIALIZER; static int s_now;
static __thread int s_me = -1;
static void pick(void) { for (long k = 0; k < s_len; k++) { int t = s_seq[s_pos++ % s_len] % s_n; if (s_alive >> t & 1) { s_now = t; return; } } for (int t = 0; t < s_n; t++) if (s_alive >> t & 1) { s_now = t; return; } s_now = -1; }
static void yield(void)
{
	if (!s_on || s_me < 0) return;
	pthread_mutex_lock(&s_mx); s_points++; pick(); pthread_cond_broadcast(&s_cv);
	while (s_now != s_me && s_now != -1) pthread_cond_wait(&s_cv, &s_mx);
	pthread_mutex_unlock(&s_mx);
}
X void w_sched(const unsigned char *seq, long len, int n) { s_seq = seq; s_len = len; s_pos = 0; s_n = n; s_alive = (1u << n) - 1; s_points = 0; pick(); s_on = 1; }
X void w_enter(int me) { s_me = me; pthread_mutex_lock(&s_mx); while (s_now != me) pthread_cond_wait(&s_cv, &s_mx); pthread_mutex_unlock(&s_mx); }
X void w_leave(void) { pthread_mutex_lock(&s_mx); s_alive &= ~(1u << s_me); pick(); s_me = -1; pthread_cond_broadcast(&s_cv); pthread_mutex_unlock(&s_mx); }
X long w_unsched(void) { s_on = 0; return s_points; }
/* ---- clock: real, or simulated: every reading advances it by the next of a list of steps, and is recorded */
static const long *k_steps; static long k_len, k_pos; static long long k_now; static long k_log[100000], k_n;
X void w_clock(long long start, const long *steps, long len) { k_now = start; k_steps = steps; k_len = len; k_pos = 0; k_n = 0; }
X long w_clock_log(long *o) { if (o) memcpy(o, k_log, k_n * sizeof(long)); return k_n; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	yield();
	if (!k_steps) return __real_clock_gettime(c, t);
	k_now += k_steps[k_pos++ % k_len]; t->tv_sec = k_now / 1000000000; t->tv_nsec = k_now % 1000000000;
	if (k_n < 100000) k_log[k_n++] = (long)k_now;
	return 0;
}
/* with the library compiled with -fsanitize-coverage=trace-pc: a yield point after every q basic blocks, q from a list */
static const int *q_seq; static long q_len, q_pos; static int q_left;
X void w_quanta(const int *q, long len) { q_seq = q; q_len = len; q_pos = 0; q_left = len ? q[0] : 0; }
void __attribute__((no_sanitize_coverage)) __sanitizer_cov_trace_pc(void)
{
	if (s_on && s_me >= 0 && q_len && --q_left <= 0) { q_left = q_seq[++q_pos % q_len]; yield(); }
}

/* ---- allocator */
static Blk *find(void *q) { for (long i = nT - 1; i >= 0; i--) if (T[i].p == q) return &T[i]; return 0; }
static int intact(Blk *b)
{
	for (char *s = b->map + PG; s < b->map + b->maplen - PG; s++) if ((s < b->p || s >= b->p + b->n) && (unsigned char)*s != SLACK) return 0;
	return 1;
}
static void *take(size_t n, int zero)
{
	if (cur < 0) return zero ? __real_calloc(1, n ? n : 1) : __real_malloc(n);
	yield();
	pthread_mutex_lock(&mx);
	if (!T) { T = __real_calloc(MAXB, sizeof *T); E = __real_calloc(MAXE, sizeof *E); }
	void *r = 0;
	if (nT < MAXB) {
		Blk *b = &T[nT]; size_t a = (n + 7) & ~7UL, pages = (a + PG - 1) / PG; if (!pages) pages = 1;
		b->maplen = (pages + 2) * PG; b->map = mmap(0, b->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (b->map != MAP_FAILED) {
			memset(b->map + PG, SLACK, pages * PG);
			b->p = mode ? b->map + PG : b->map + PG + pages * PG - a; b->n = n; b->owner = cur; b->live = 1;
			memset(b->p, zero ? 0 : fill, n);
			mprotect(b->map, PG, PROT_NONE); mprotect(b->map + b->maplen - PG, PG, PROT_NONE);
			ev(1, nT, n > 0x7fffffff ? 0x7fffffff : (long)n); r = b->p; nT++;
		}
	}
	pthread_mutex_unlock(&mx); return r;
}
static void drop(void *q)
{
	if (!q) return;
	if (cur < 0) { __real_free(q); return; }
	yield();
	pthread_mutex_lock(&mx);
	Blk *b = T ? find(q) : 0;
	if (!b) ev(3, -1, 0);
	else if (!b->live) ev(4, b - T, 0);
	else {
		if (b->owner != cur) ev(5, b - T, 0);
		if (!intact(b)) ev(6, b - T, 0);
		ev(2, b - T, 0); b->live = 0; mprotect(b->map, b->maplen, PROT_NONE);
	}
	pthread_mutex_unlock(&mx);
}
void *__wrap_malloc(size_t n) { return take(n, 0); }
void *__wrap_calloc(size_t a, size_t b) { return take(a * b, 1); }
void __wrap_free(void *p) { drop(p); }
void *__wrap_realloc(void *p, size_t n)
{
	if (cur < 0) return __real_realloc(p, n);
	void *r = take(n, 0); if (p && r) { Blk *b = find(p); if (b && b->live) memcpy(r, p, b->n < n ? b->n : n); drop(p); } return r;
}
/* AMD allocates through a hook of its own: make its k-th allocation fail (-1 none, -2 all) */
extern void *(*amd_malloc)(size_t);
static __thread long a_fail = -1, a_calls;
static void *amdm(size_t n) { long k = a_calls++; return k == a_fail || a_fail == -2 ? 0 : take(n, 0); }
X void w_failamd(long k) { a_fail = k; a_calls = 0; amd_malloc = amdm; }
X void w_mode(int m, int f) { mode = m; fill = (unsigned char)f; }
/* a call on object h begins: everything allocated until w_end belongs to it */
static void __attribute__((noinline)) dirty(int b) { volatile char a[65536]; memset((char *)a, b, sizeof a); }
X void w_clear(void) { nE = 0; }
X void w_begin(long h) { dirty(fill); cur = h; }
X long w_end(void) { cur = -1; return nE; }
X void w_log(long *o) { for (long i = 0; i < nE; i++) { o[3*i] = E[i].op; o[3*i+1] = E[i].id; o[3*i+2] = E[i].size; } }
X long w_live(void) { long k = 0; for (long i = 0; i < nT; i++) k += T[i].live; return k; }
X long w_damaged(void) { long k = 0; for (long i = 0; i < nT; i++) if (T[i].live && !intact(&T[i])) k++; return k; }
/* contents of all live blocks that do not belong to h */
X unsigned long w_others(long h)
{
	unsigned long x = 1469598103934665603UL;
	for (long i = 0; i < nT; i++) if (T[i].live && T[i].owner != h) for (size_t j = 0; j < T[i].n; j++) x = (x ^ (unsigned char)T[i].p[j]) * 1099511628211UL;
	return x;
}
X void w_reset(void) { for (long i = 0; i < nT; i++) munmap(T[i].map, T[i].maplen); nT = nE = 0; }
/* ---- caller arrays: read-only, against an inaccessible page */
X void *w_place(const void *src, size_t n)
{
	size_t a = (n + 7) & ~7UL, pages = (a + PG - 1) / PG; if (!pages) pages = 1;
	char *m = mmap(0, (pages + 2) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *p;
	memset(m, 0x7B, (pages + 2) * PG);
	p = mode ? m + PG : m + PG + pages * PG - a; memcpy(p, src, n);
	mprotect(m, (pages + 2) * PG, PROT_READ); mprotect(m, PG, PROT_NONE); mprotect(m + (pages + 1) * PG, PG, PROT_NONE); return p;
}
X void w_unplace(void *q, size_t n)
{
	size_t a = (n + 7) & ~7UL, pages = (a + PG - 1) / PG; if (!pages) pages = 1;
	char *p = q; munmap(mode ? p - PG : p - (pages * PG - a) - PG, (pages + 2) * PG);
}
