// mcrt: stateless model checker for real code.
//
// The code under test is compiled with gcc -fsanitize=thread (volatile accesses
// distinguished) and linked with this file instead of libtsan.  Real threads
// run one at a time; the runtime takes the decision which thread continues at
// every scheduling point (volatile/atomic access, lock, condition variable,
// thread create/join, sleep, file operation, and every plain access found to
// take part in a data race).  All decision sequences whose cost (preemptions,
// early or spurious wakeups, injected faults) is within the bound are explored;
// executions reaching an already explored state are cut off.  A state is
// identified by the happens-before history of every thread and shared variable.
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <time.h>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include "mc.h"

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum { MAXT = 16, PRE = 15 };
static const uintptr_t BASE = 0x100000000000ull;
static const size_t ARENA = 32u << 20, STACKSZ = 512u << 10;
static const size_t ARENAS = (size_t)MAXT * ARENA;
static const size_t REGION = ARENAS + (size_t)MAXT * STACKSZ;

#define NOINSTR __attribute__((no_sanitize("thread")))
#define PC() ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------ raw helpers
static inline long fut(volatile int *a, int op, int v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
extern "C" char __executable_start, etext, __data_start, _end;

static inline u64 mix(u64 a, u64 b) {
	a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
	a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29;
	return a;
}

// ------------------------------------------------------------------ shared (between processes)
enum { MAXCP = 2000000, MAXDEV = 60, MAXALT = 16 };
struct CP { u64 key; u32 costs; u8 n, chosen, kind, pad; };
enum Status { ST_NONE, ST_OK, ST_PRUNED, ST_VIOL, ST_DIVERGE, ST_DISCARD, ST_ERROR };
struct Result {
	volatile int status; char msg[4096];
	u32 ncp; u64 steps; u64 newsteps; u64 switches;
	char note[4096]; u32 notelen; u64 outcome; int truncated;
	CP cp[MAXCP];
};
struct Job { u16 ndev, cost; u32 pad; u64 exp; struct { u32 point; u32 alt; } dev[MAXDEV]; };

struct Slot { u64 key; u64 bud; };
struct Shared {
	volatile int lock; volatile long sp; volatile int nactive; volatile int stop;  // stop: 1 violation, 2 time, 3 newracy, 4 error
	volatile u64 skipped, execs, pruned, states, steps, diverged, discarded, truncated, hangs, maxcp, switches;
	volatile int newracy; volatile u64 nracy;
	Job viol; volatile int haveviol; char violmsg[4096];
	char samples[8][4096]; volatile int nsamples;
	volatile u64 outcomes[4096]; volatile u64 noutcomes;
	volatile int stackfull, cachefull;
};
static Shared *S; static Result *RES; static Result *R; static Job *STK; static Slot *CACHE;
static size_t STKCAP = 8u << 20; static u64 CACHECAP = 1u << 26;
static u8 *RACY, *RACYNEW; // per text byte
static uintptr_t TEXT0, TEXT1, DATA0, DATA1;
static int opt_cache = 1, opt_trace = 0, opt_pcost = 1; static FILE *tracef;
static int g_bound; static const char *g_prop = "?";

// ------------------------------------------------------------------ per execution state
enum Pend { P_NONE, P_START, P_ACCESS, P_LOCK, P_JOIN, P_COND, P_SLEEP, P_DONE, P_CONDT, P_IO };
struct Thread {
	volatile int go; int used; int pend; void *obj; void *obj2; int joined; bool signaled, timedout; u64 deadline;
	void *(*fn)(void *); void *arg; void *ret; pthread_t real; int started;
	u64 h; u32 vc[MAXT];
	struct { void (*f)(void *); void *o; } dtor[16]; int ndtor;
	u64 run; uintptr_t pc; int guard; const char *gwhat;
};
static Thread T[MAXT]; static int NT; static volatile int cur = -1;
static volatile int in_exec; static Job job; static u32 devi; static u64 Ssum; static u64 vnow;
static unsigned livelimit = 400, sleeprun; static u64 steplimit = 400000; static u32 cplimit = 60000;
static volatile int main_wait;
mc::hooks mc::H;
static int in_rt; // running runtime/hook code: suppress scheduling
// What the running thread must not do now: 1 memory, 2 locks, waiting and system calls
static inline void guarded(int bit, const char *op) { if (in_exec && !in_rt && cur >= 0 && (T[cur].guard & bit)) { const char *w = T[cur].gwhat; T[cur].guard = 0; mc::fail("%s by T%d while %s", op, (int) cur, w); } }

struct Var { uintptr_t a; u64 h; u32 vc[MAXT]; int owner; int rec; int kind; };
enum { NVAR = 1 << 15 };
static Var *VAR;
static void rt_error(const char *m);
static Var *var(const void *p) {
	uintptr_t a = (uintptr_t)p; u32 i = (u32)((a >> 2) * 2654435761u) >> 17;
	for (int k = 0; k < NVAR; k++) { Var *v = &VAR[(i + k) & (NVAR - 1)]; if (v->a == a) return v; if (!v->a) { v->a = a; v->owner = -1; return v; } }
	rt_error("var table full"); return 0;
}
static struct { uintptr_t a, e; } FINE[16]; static int NFINE; // every write in these ranges is a scheduling point
static inline bool fine_hit(uintptr_t a) { for (int i = 0; i < NFINE; i++) if (a - FINE[i].a < FINE[i].e) return true; return false; }
static void th_set(int t, u64 h) { Ssum -= mix(t + 1, T[t].h); T[t].h = h; Ssum += mix(t + 1, h); }
static void var_set(Var *v, u64 h) { if (v->h) Ssum -= mix(v->a, v->h); v->h = h; Ssum += mix(v->a, h); }

// ------------------------------------------------------------------ race shadow
struct Cell { u32 we, wpc; u32 re[2], rpc[2]; u8 wm, rm[2], pad; };
static u8 *SH; static Cell *CELLS, *DCELLS;
static inline u32 ep(int t) { return ((u32)t << 26) | T[t].vc[t]; }
static inline bool ordered(u32 e, int t) { int o = e >> 26; return o == t || (e & 0x3ffffff) <= T[t].vc[o]; }
static inline Cell *cellof(uintptr_t a) {
	if (a - BASE < REGION) return &CELLS[(a - BASE) >> 3];
	if (a >= DATA0 && a < DATA1) return &DCELLS[(a - DATA0) >> 3];
	return 0;
}
static void markracy(uintptr_t pc) {
	if (pc < TEXT0 || pc >= TEXT1) return;
	if (!RACY[pc - TEXT0] && !RACYNEW[pc - TEXT0]) { RACYNEW[pc - TEXT0] = 1; __sync_fetch_and_add(&S->nracy, 1); S->newracy = 1; }
}
static inline void race1(uintptr_t a, u8 m, bool w, uintptr_t pc) {
	Cell *c = cellof(a); if (!c) return; int t = cur; u32 e = ep(t);
	if (c->wm & m && !ordered(c->we, t)) { markracy(pc); markracy(c->wpc); }
	if (w) {
		for (int i = 0; i < 2; i++) if (c->rm[i] & m && !ordered(c->re[i], t)) { markracy(pc); markracy(c->rpc[i]); }
		c->we = e; c->wpc = (u32)pc; c->wm = m;
	} else {
		int i = (c->rm[0] && (c->re[0] >> 26) != (u32)t && !ordered(c->re[0], t)) ? 1 : 0;
		if (c->rm[i] && (c->re[i] >> 26) == (u32)t && c->re[i] == e) c->rm[i] |= m; else c->rm[i] = m;
		c->re[i] = e; c->rpc[i] = (u32)pc;
	}
}
static void race(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	while (n) { size_t o = a & 7, k = 8 - o < n ? 8 - o : n; race1(a, (u8)(((1u << k) - 1) << o), w, pc); a += k; n -= k; }
}

// ------------------------------------------------------------------ heap
static size_t ATOP[MAXT]; static int region_ready;
static void setup_region() {
	if (region_ready) return;
	void *p = mmap((void *)BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)BASE) { static const char m[] = "mcrt: cannot map region\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
	SH = (u8 *)mmap(0, ARENAS / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (int i = 0; i < MAXT; i++) ATOP[i] = 64;
	region_ready = 1;
}
static void *rt_alloc(size_t n, size_t al, bool zero) {
	if (!region_ready) setup_region();
	guarded(1, "memory allocated");
	int t = in_exec && cur >= 0 ? cur : PRE; uintptr_t b = BASE + t * ARENA; uintptr_t p = b + ATOP[t] + 32; if (al < 16) al = 16;
	p = (p + al - 1) & ~(uintptr_t)(al - 1);
	if (n > ARENA || p + n + 32 > b + ARENA) { if (in_exec) rt_error("model checker arena exhausted"); errno = ENOMEM; return 0; }
	ATOP[t] = p + n + 16 - b; ((u64 *)p)[-1] = n; ((u64 *)p)[-2] = 0x6d63616c6c6f63ull;
	size_t g = (p - BASE) >> 3, k; for (k = 0; k < n / 8; k++) SH[g + k] = 8; if (n & 7) SH[g + k] = n & 7;
	if (!zero && in_exec) memset((void *)p, 0xA5, n < 65536 ? n : 65536);
	return (void *)p;
}
static const char *shadow_bad(uintptr_t a, size_t n) {
	if (a - BASE >= ARENAS) return 0;
	size_t e = a + n;
	for (uintptr_t x = a; x < e; ) {
		u8 v = SH[(x - BASE) >> 3]; uintptr_t ge = (x & ~7ull) + 8; uintptr_t lim = e < ge ? e : ge;
		if (v == 0xFD) return "use of freed memory"; if (v == 0 || v > 8) return "out-of-bounds heap access";
		if ((lim - (x & ~7ull)) > v) return "out-of-bounds heap access";
		x = lim;
	}
	return 0;
}
static void memcheck(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	const char *b = shadow_bad(a, n);
	if (b) mc::fail("%s: %s of %zu bytes at 0x%lx pc=0x%lx", b, w ? "write" : "read", n, (long)a, (long)pc);
}

extern "C" {
void *malloc(size_t n) { return rt_alloc(n, 16, false); }
void *calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; } return rt_alloc(a * b, 16, true); }
void free(void *p) {
	if (!p) return; uintptr_t a = (uintptr_t)p;
	guarded(1, "memory freed");
	if (a - BASE >= ARENAS) return;
	size_t g = (a - BASE) >> 3; u64 n = ((u64 *)p)[-1];
	if (((u64 *)p)[-2] != 0x6d63616c6c6f63ull || (n && SH[g] == 0)) { if (in_exec) mc::fail("free of invalid pointer 0x%lx", (long)a); return; }
	if (n && SH[g] == 0xFD) { if (in_exec) mc::fail("double free of 0x%lx", (long)a); return; }
	if (!in_exec) return;
	for (size_t k = 0; k < (n + 7) / 8; k++) SH[g + k] = 0xFD;
}
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n);
	u64 o = ((u64 *)p)[-1]; void *q = malloc(n); if (!q) return 0;
	memcpy(q, p, o < n ? o : n); free(p); return q;
}
int posix_memalign(void **m, size_t al, size_t n) { void *p = rt_alloc(n, al, false); if (!p) return ENOMEM; *m = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return rt_alloc(n, al, false); }
void *memalign(size_t al, size_t n) { return rt_alloc(n, al, false); }
size_t malloc_usable_size(void *p) { return p ? ((u64 *)p)[-1] : 0; }
}

// ------------------------------------------------------------------ trace
struct TE { u16 t; u8 op; uintptr_t a, pc; char *txt; };
static TE *TR; static u32 NTR; enum { TRMAX = 200000 };
static const char *opname[] = {"?", "start", "access", "lock", "join", "cond", "sleep", "done", "condtimed", "io", "NOTE", "switch", "wake", "write", "read", "trylock", "unlock", "signal", "create", "choose", "fault"};
enum { O_NOTE = 10, O_SWITCH, O_WAKE, O_WRITE, O_READ, O_TRY, O_UNLOCK, O_SIGNAL, O_CREATE, O_CHOOSE, O_FAULT };
static void tr(int op, uintptr_t a, uintptr_t pc, const char *txt = 0) {
	if (!opt_trace || NTR >= TRMAX) return;
	TE &e = TR[NTR++]; e.t = cur; e.op = op; e.a = a; e.pc = pc; e.txt = 0;
	if (txt) { size_t n = strlen(txt) + 1; static char *pool; static size_t left; if (left < n) { left = 1 << 20; pool = (char *)mmap(0, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } memcpy(pool, txt, n); e.txt = pool; pool += n; left -= n; }
}
static void dump_trace() {
	if (!opt_trace) return; int fd = opt_trace; char b[1024];
	for (u32 i = 0; i < NTR; i++) {
		TE &e = TR[i]; int n;
		if (e.txt) n = snprintf(b, sizeof b, "T%d  %s: %s\n", e.t, e.op == O_NOTE ? "note" : opname[e.op], e.txt);
		else n = snprintf(b, sizeof b, "T%d  %-8s obj=0x%lx pc=0x%lx\n", e.t, opname[e.op], (long)e.a, (long)e.pc);
		if (n > (int)sizeof b) n = sizeof b; if (syscall(SYS_write, fd, b, n)) {}
	}
}

static void finish(int st) __attribute__((noreturn));
static void finish(int st) {
	R->status = st; dump_trace(); syscall(SYS_exit_group, 0); __builtin_unreachable();
}
static void rt_error(const char *m) { snprintf(R->msg, sizeof R->msg, "%s", m); finish(ST_ERROR); }

namespace mc {
void fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (!in_exec) { vfprintf(stderr, fmt, ap); fputc('\n', stderr); _exit(3); }
	in_exec = 0;
	vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
	in_exec = 1;
	if (opt_trace) { char b[1200]; snprintf(b, sizeof b, "VIOLATION %.1100s", R->msg); tr(O_NOTE, 0, 0, b); }
	finish(ST_VIOL);
}
void discard() { finish(ST_DISCARD); }
bool active() { return in_exec; }
int self() { return cur; }
const char *prop() { return g_prop; }
void note(const char *fmt, ...) {
	if (!in_exec) return;
	char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	if (R->notelen + n + 2 < sizeof R->note) { memcpy(R->note + R->notelen, b, n); R->notelen += n; R->note[R->notelen++] = ';'; R->note[R->notelen] = 0; }
	tr(O_NOTE, 0, 0, b);
}
void outcome(const std::string &s) { u64 h = 1; for (size_t i = 0; i < s.size(); i++) h = mix(h, (u8)s[i]); R->outcome = h ? h : 1; }
u64 now_ns() { return vnow; }
void set_livelock_limit(unsigned n) { livelimit = n; }
void set_max_decisions(unsigned n) { cplimit = n; steplimit = 2ul * n; }
static scenario *scen; scenario::scenario(const char *n, void (*f)()) : name(n), fn(f), next(scen) { scen = this; }
static struct { char k[32], v[128]; } prm[32]; static int nprm;
const char *param_s(const char *n, const char *d) { for (int i = 0; i < nprm; i++) if (!strcmp(prm[i].k, n)) return prm[i].v; return d; }
long param(const char *n, long d) { const char *s = param_s(n, 0); return s ? atol(s) : d; }
}

// ------------------------------------------------------------------ scheduler
static u32 jobcost() { return job.cost; }
// Records a choice point; returns the chosen alternative.
static int choice(int n, u32 costs, int kind, u64 key) {
	if (n > MAXALT) rt_error("too many alternatives");
	u32 i = R->ncp; if (i >= cplimit || i >= MAXCP) { R->truncated = 1; mc::fail("no termination: more than %d decisions in one execution", (int)cplimit); }
	int c = 0;
	if (devi < job.ndev && job.dev[devi].point == i) {
		c = job.dev[devi].alt;
		if (c >= n || (devi + 1 == job.ndev && job.exp && job.exp != key)) { snprintf(R->msg, sizeof R->msg, "divergence at decision %u alt %d of %d", i, c, n); finish(ST_DIVERGE); }
		devi++;
	} else if (opt_cache && devi == job.ndev && kind == 0 && CACHE) {
		// visited?
		u64 rem = g_bound - jobcost() + 1, k = key ? key : 1, s = (k * 0x9E3779B97F4A7C15ull) & (CACHECAP - 1); int found = 0;
		for (int p = 0; p < 64; p++) {
			Slot *sl = &CACHE[(s + p) & (CACHECAP - 1)]; u64 o = __atomic_load_n(&sl->key, __ATOMIC_ACQUIRE);
			if (!o && __sync_bool_compare_and_swap(&sl->key, 0, k)) { sl->bud = rem; __sync_fetch_and_add(&S->states, 1); found = 1; break; }
			o = sl->key;
			if (o == k) {
				u64 b = __atomic_load_n(&sl->bud, __ATOMIC_ACQUIRE);
				while (b < rem) if (__sync_bool_compare_and_swap(&sl->bud, b, rem)) { found = 2; break; } else b = sl->bud;
				if (found != 2) finish(ST_PRUNED);
				break;
			}
		}
		if (!found) S->cachefull = 1;
	}
	CP &p = R->cp[i]; p.key = key; p.costs = costs; p.n = n; p.chosen = c; p.kind = kind; R->ncp = i + 1;
	return c;
}

static bool normal_enabled(int t) {
	Thread &x = T[t];
	switch (x.pend) {
	case P_START: case P_ACCESS: case P_IO: return true;
	case P_LOCK: { Var *m = var(x.obj); return m->owner < 0 || (m->owner == t && m->kind == PTHREAD_MUTEX_RECURSIVE); }
	case P_JOIN: return T[(long)x.obj].pend == P_DONE;
	case P_COND: case P_CONDT: return x.signaled;
	}
	return false;
}
static bool sleeping(int t) { return T[t].pend == P_SLEEP || (T[t].pend == P_CONDT && !T[t].signaled); }

static Var clockvar;
static void describe_blocked(char *b, size_t n) {
	size_t k = 0; b[0] = 0;
	for (int t = 0; t < NT && k < n; t++) if (T[t].pend != P_DONE) k += snprintf(b + k, n - k, " T%d:%s(0x%lx) pc=0x%lx", t, opname[T[t].pend], (long)T[t].obj, (long)T[t].pc);
}
// Pick the next thread; all threads are at a scheduling point with pend set.
static int pick() {
	int c[MAXT * 3], kind[MAXT * 3]; u32 costs = 0; int n = 0; bool have = false;
#define ADD(t, k, co) do { if (n < MAXALT) { c[n] = t; kind[n] = k; costs |= (u32)(co) << (2 * n); n++; } } while (0)
	if (cur >= 0 && T[cur].pend != P_DONE && normal_enabled(cur) && T[cur].run < 20000) { ADD(cur, 0, 0); have = true; }
	bool curfirst = have;
	for (int k = 1; k <= NT; k++) { int t = ((cur < 0 ? 0 : cur) + k) % NT; if (curfirst && t == cur) continue; if (normal_enabled(t)) { ADD(t, 0, curfirst ? opt_pcost : 0); have = true; } }
	int sl[MAXT], ns = 0;
	for (int t = 0; t < NT; t++) if (sleeping(t)) sl[ns++] = t;
	for (int i = 0; i < ns; i++) for (int j = i + 1; j < ns; j++) if (T[sl[j]].deadline < T[sl[i]].deadline) { int x = sl[i]; sl[i] = sl[j]; sl[j] = x; }
	for (int i = 0; i < ns; i++) ADD(sl[i], 1, (have || i) ? 1 : 0);
	if (!have && !ns) {
		bool alldone = true; for (int t = 0; t < NT; t++) if (T[t].pend != P_DONE) alldone = false;
		if (alldone) finish(ST_OK);
		char b[600]; describe_blocked(b, sizeof b); mc::fail("deadlock: no thread can run;%s", b);
	}
	static int spur = -1; if (spur < 0) spur = mc::param("spurious", 1);
	if (spur) for (int t = 0; t < NT; t++) if ((T[t].pend == P_COND) && !T[t].signaled) ADD(t, 2, 1);
	int i = n > 1 ? choice(n, costs, 0, mix(Ssum, cur + 77)) : 0;
	int t = c[i];
	if (kind[i] == 1) {
		if (T[t].pend == P_CONDT) { T[t].signaled = true; T[t].timedout = true; }
		if (T[t].deadline > vnow) { vnow = T[t].deadline; var_set(&clockvar, mix(clockvar.h, vnow)); }
		th_set(t, mix(T[t].h, 0x51ee + vnow)); T[t].pend = T[t].pend == P_CONDT ? P_CONDT : P_ACCESS;
		if (!have && ++sleeprun > livelimit) { char b[600]; describe_blocked(b, sizeof b); mc::fail("livelock: threads only poll, no progress;%s", b); }
	} else {
		if (t != cur) sleeprun = 0;
		if (kind[i] == 2) { T[t].signaled = true; th_set(t, mix(T[t].h, 0x5b0)); }
	}
	if (t != cur) { R->switches++; }
	return t;
}
static void wait_turn(int t) { while (!T[t].go) fut(&T[t].go, FUTEX_WAIT, 0); T[t].go = 0; }
static void switch_to(int n) { T[n].go = 1; fut(&T[n].go, FUTEX_WAKE, 1); }

// Scheduling point: the running thread is about to do (pend,obj).
static void sp(int pend, void *obj, uintptr_t pc) {
	if (pend != P_ACCESS && pend != P_START && pend != P_DONE) guarded(2, pend == P_LOCK ? "lock taken" : pend == P_SLEEP ? "sleep" : pend == P_IO ? "system call" : "wait");
	int me = cur; Thread &x = T[me];
	x.pend = pend; x.obj = obj; x.pc = pc; x.run++;
	if (++R->steps > steplimit) { char b[600]; describe_blocked(b, sizeof b); mc::fail("no termination within %lu steps;%s", (long)steplimit, b); }
	if (devi == job.ndev) R->newsteps++;
	int n = pick();
	if (n != me) { T[n].run = 0; x.run = 0; cur = n; switch_to(n); wait_turn(me); cur = me; }
	tr(pend, (uintptr_t)obj, pc);
	x.pend = P_ACCESS;
}
static void acq(Var *v) { for (int i = 0; i < MAXT; i++) if (T[cur].vc[i] < v->vc[i]) T[cur].vc[i] = v->vc[i]; }
static void rel(Var *v, bool join) { for (int i = 0; i < MAXT; i++) if (!join || v->vc[i] < T[cur].vc[i]) v->vc[i] = T[cur].vc[i]; T[cur].vc[cur]++; }
static void hread(Var *v, u64 op) { th_set(cur, mix(mix(T[cur].h, op), v->h)); }
static void hwrite(Var *v, u64 op) { th_set(cur, mix(mix(T[cur].h, op), 0)); var_set(v, T[cur].h); }
static void hrmw(Var *v, u64 op) { th_set(cur, mix(mix(T[cur].h, op), v->h)); var_set(v, T[cur].h); }

static inline void plain(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	if (!in_exec || in_rt || cur < 0) return;
	memcheck(a, n, w, pc);
	if ((pc >= TEXT0 && pc < TEXT1 && RACY[pc - TEXT0]) || (NFINE && w && fine_hit(a))) {
		sp(P_ACCESS, (void *)a, pc); memcheck(a, n, w, pc); Var *v = var((void *)(a & ~7ull)); if (w) hrmw(v, pc); else hread(v, pc); tr(w ? O_WRITE : O_READ, a, pc);
	}
	race(a, n, w, pc);
}
static inline void vol(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	if (!in_exec || in_rt || cur < 0) return;
	memcheck(a, n, w, pc);
	sp(P_ACCESS, (void *)a, pc);
	memcheck(a, n, w, pc);
	Var *v = var((void *)a);
	if (w) { rel(v, false); hwrite(v, pc); } else { acq(v); hread(v, pc); }
	tr(w ? O_WRITE : O_READ, a, pc);
}
static void atom(uintptr_t a, size_t n, int k, uintptr_t pc) { // k: 0 load 1 store 2 rmw
	if (!in_exec || in_rt || cur < 0) return;
	memcheck(a, n, k != 0, pc);
	sp(P_ACCESS, (void *)a, pc);
	memcheck(a, n, k != 0, pc);
	Var *v = var((void *)a);
	if (k != 1) acq(v);
	if (k) rel(v, k == 2);
	if (k == 0) hread(v, pc); else if (k == 1) hwrite(v, pc); else hrmw(v, pc);
	tr(k ? O_WRITE : O_READ, a, pc);
}

// ------------------------------------------------------------------ tsan entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(N) \
void __tsan_read##N(void *a) { plain((uintptr_t)a, N, false, PC()); } \
void __tsan_write##N(void *a) { plain((uintptr_t)a, N, true, PC()); } \
void __tsan_unaligned_read##N(void *a) { plain((uintptr_t)a, N, false, PC()); } \
void __tsan_unaligned_write##N(void *a) { plain((uintptr_t)a, N, true, PC()); } \
void __tsan_read_write##N(void *a) { plain((uintptr_t)a, N, true, PC()); } \
void __tsan_volatile_read##N(void *a) { vol((uintptr_t)a, N, false, PC()); } \
void __tsan_volatile_write##N(void *a) { vol((uintptr_t)a, N, true, PC()); } \
void __tsan_unaligned_volatile_read##N(void *a) { vol((uintptr_t)a, N, false, PC()); } \
void __tsan_unaligned_volatile_write##N(void *a) { vol((uintptr_t)a, N, true, PC()); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, size_t n) { plain((uintptr_t)a, n, false, PC()); }
void __tsan_write_range(void *a, size_t n) { plain((uintptr_t)a, n, true, PC()); }
void __tsan_vptr_update(void *a, void *) { plain((uintptr_t)a, 8, true, PC()); }
void __tsan_vptr_read(void *a) { plain((uintptr_t)a, 8, false, PC()); }
#define ATM(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY *a, int) { atom((uintptr_t)a, sizeof(TY), 0, PC()); return *a; } \
void __tsan_atomic##B##_store(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 1, PC()); *a = v; } \
TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = v; return o; } \
TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = o + v; return o; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = o - v; return o; } \
TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = o & v; return o; } \
TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = o | v; return o; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = o ^ v; return o; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY e, TY v, int, int) { atom((uintptr_t)a, sizeof(TY), 2, PC()); TY o = *a; if (o == e) *a = v; return o; }
ATM(8, u8) ATM(16, u16) ATM(32, u32) ATM(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// --wrap'ed libc memory functions (only calls from instrumented objects)
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
size_t __real_strlen(const char *); int __real_memcmp(const void *, const void *, size_t); int __real_strcmp(const char *, const char *);
static bool racy(uintptr_t pc) { return pc >= TEXT0 && pc < TEXT1 && RACY[pc - TEXT0]; }
void *__wrap_memcpy(void *d, const void *s, size_t n) {
	if (in_exec && !in_rt && cur >= 0 && n) {
		uintptr_t pc = PC();
		if (racy(pc) || (NFINE && fine_hit((uintptr_t)d))) { for (size_t o = 0; o < n; o += 8) { size_t k = n - o < 8 ? n - o : 8; plain((uintptr_t)s + o, k, false, pc); plain((uintptr_t)d + o, k, true, pc); __real_memcpy((char *)d + o, (const char *)s + o, k); } return d; }
		plain((uintptr_t)s, n, false, pc); plain((uintptr_t)d, n, true, pc);
	}
	return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) { if (in_exec && n) { plain((uintptr_t)s, n, false, PC()); plain((uintptr_t)d, n, true, PC()); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (in_exec && n) plain((uintptr_t)d, n, true, PC()); return __real_memset(d, c, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); plain((uintptr_t)s, n + 1, false, PC()); return n; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { plain((uintptr_t)a, n, false, PC()); plain((uintptr_t)b, n, false, PC()); } return __real_memcmp(a, b, n); }
int __wrap_strcmp(const char *a, const char *b) { plain((uintptr_t)a, 1, false, PC()); plain((uintptr_t)b, 1, false, PC()); return __real_strcmp(a, b); }
}

// ------------------------------------------------------------------ interposed functions
template <class F> static F real(const char *n, F *slot) { if (!*slot) *slot = (F)dlsym(RTLD_NEXT, n); return *slot; }
#define REAL(name) ({ static __typeof__(&name) p_; real(#name, &p_); })
#define OFF (!in_exec || in_rt || cur < 0)

static void *tramp(void *a) {
	int me = (int)(long)a;
	static char alt[MAXT][16384]; stack_t ss; ss.ss_sp = alt[me]; ss.ss_size = sizeof alt[me]; ss.ss_flags = 0; sigaltstack(&ss, 0);
	wait_turn(me); cur = me; T[me].pend = P_ACCESS;
	T[me].ret = T[me].fn(T[me].arg);
	while (T[me].ndtor) { int i = --T[me].ndtor; T[me].dtor[i].f(T[me].dtor[i].o); }
	if (me == 0) finish(ST_OK);
	sp(P_ACCESS, 0, PC());
	T[me].pend = P_DONE; th_set(me, mix(T[me].h, 0xd0e)); tr(P_DONE, 0, 0);
	int n = pick(); T[n].run = 0; cur = n; switch_to(n);
	for (;;) { volatile int z = 0; fut(&z, FUTEX_WAIT, 0); }
	return 0;
}
static void spawn(int n) {
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)(BASE + ARENAS + n * STACKSZ), STACKSZ);
	int e = REAL(pthread_create)(&T[n].real, &at, tramp, (void *)(long)n);
	if (e) rt_error("pthread_create failed");
	pthread_attr_destroy(&at);
}
static int tid_of(pthread_t p) { for (int i = 0; i < NT; i++) if (T[i].real == p) return i; return -1; }

extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	if (OFF) return REAL(pthread_create)(th, at, fn, arg);
	sp(P_ACCESS, 0, PC());
	if (NT >= PRE) rt_error("too many threads");
	int n = NT++; T[n].fn = fn; T[n].arg = arg; T[n].pend = P_START; T[n].used = 1;
	memcpy(T[n].vc, T[cur].vc, sizeof T[n].vc); T[n].vc[n] = 1; T[cur].vc[cur]++;
	th_set(cur, mix(T[cur].h, 0xc4ea)); T[n].h = 0; T[n].h = mix(T[cur].h, n); Ssum += mix(n + 1, T[n].h);
	in_rt = 1; spawn(n); in_rt = 0; *th = T[n].real; tr(O_CREATE, n, PC());
	return 0;
}
int pthread_join(pthread_t p, void **ret) {
	if (OFF) return REAL(pthread_join)(p, ret);
	int t = tid_of(p); if (t < 0) return ESRCH;
	sp(P_JOIN, (void *)(long)t, PC());
	if (T[t].joined) mc::fail("thread joined twice"); T[t].joined = 1;
	for (int i = 0; i < MAXT; i++) if (T[cur].vc[i] < T[t].vc[i]) T[cur].vc[i] = T[t].vc[i];
	th_set(cur, mix(T[cur].h, T[t].h)); if (ret) *ret = T[t].ret; return 0;
}
int pthread_detach(pthread_t p) { if (OFF) return REAL(pthread_detach)(p); return 0; }
static void mcheck(void *m, uintptr_t pc) { const char *b = shadow_bad((uintptr_t)m, 8); if (b) mc::fail("%s: synchronisation object 0x%lx pc=0x%lx", b, (long)m, (long)pc); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	if (OFF) return REAL(pthread_mutex_init)(m, a);
	int k = 0; if (a) pthread_mutexattr_gettype(a, &k); Var *v = var(m); v->owner = -1; v->rec = 0; v->kind = k; memset(m, 0, sizeof *m); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
	if (OFF) return REAL(pthread_mutex_destroy)(m);
	mcheck(m, PC()); Var *v = var(m); if (v->owner >= 0) mc::fail("mutex 0x%lx destroyed while locked by T%d", (long)m, v->owner); return 0;
}
static void lock_(pthread_mutex_t *m, uintptr_t pc) {
	mcheck(m, pc); sp(P_LOCK, m, pc); mcheck(m, pc); Var *v = var(m); v->owner = cur; v->rec++; acq(v); hrmw(v, 0x10c);
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (OFF) return REAL(pthread_mutex_lock)(m); lock_(m, PC()); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (OFF) return REAL(pthread_mutex_trylock)(m);
	guarded(2, "lock tried"); mcheck(m, PC()); sp(P_ACCESS, m, PC()); mcheck(m, PC()); Var *v = var(m); tr(O_TRY, (uintptr_t)m, PC());
	if (v->owner >= 0 && !(v->owner == cur && v->kind == PTHREAD_MUTEX_RECURSIVE)) { hread(v, 0x7f1); return EBUSY; }
	v->owner = cur; v->rec++; acq(v); hrmw(v, 0x7f2); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (OFF) return REAL(pthread_mutex_timedlock)(m, ts); lock_(m, PC()); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (OFF) return REAL(pthread_mutex_unlock)(m);
	guarded(2, "lock released"); mcheck(m, PC()); sp(P_ACCESS, m, PC()); mcheck(m, PC()); Var *v = var(m); tr(O_UNLOCK, (uintptr_t)m, PC());
	if (v->owner != cur) mc::fail("mutex 0x%lx unlocked by T%d, owner T%d pc=0x%lx", (long)m, cur, v->owner, (long)PC());
	if (--v->rec == 0) v->owner = -1;
	rel(v, false); hrmw(v, 0x017); return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (OFF) return REAL(pthread_cond_init)(c, a); memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
	if (OFF) return REAL(pthread_cond_destroy)(c);
	mcheck(c, PC()); for (int t = 0; t < NT; t++) if ((T[t].pend == P_COND || T[t].pend == P_CONDT) && T[t].obj == c && !T[t].signaled) mc::fail("condition variable destroyed with a waiter (T%d)", t); return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline, bool timed, uintptr_t pc) {
	mcheck(c, pc); sp(P_ACCESS, c, pc); Var *v = var(m);
	if (v->owner != cur) mc::fail("condition wait without holding the mutex");
	int rec = v->rec; v->rec = 0; v->owner = -1; rel(v, false); hrmw(v, 0xc0d); hrmw(var(c), 0xc0e);
	T[cur].signaled = false; T[cur].timedout = false; T[cur].deadline = deadline;
	sp(timed ? P_CONDT : P_COND, c, pc);
	bool to = T[cur].timedout;
	sp(P_LOCK, m, pc); v = var(m); v->owner = cur; v->rec = rec; acq(v); hrmw(v, 0x10d);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (OFF) return REAL(pthread_cond_wait)(c, m); return cwait(c, m, 0, false, PC()); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (OFF) return REAL(pthread_cond_timedwait)(c, m, ts); return cwait(c, m, ts->tv_sec * 1000000000ull + ts->tv_nsec, true, PC()); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (OFF) return REAL(pthread_cond_clockwait)(c, m, k, ts); return cwait(c, m, ts->tv_sec * 1000000000ull + ts->tv_nsec, true, PC()); }
static void csig(pthread_cond_t *c, bool all, uintptr_t pc) {
	guarded(2, "condition signalled");
	mcheck(c, pc); sp(P_ACCESS, c, pc); hrmw(var(c), 0x516); tr(O_SIGNAL, (uintptr_t)c, pc);
	int w[MAXT], n = 0; for (int t = 0; t < NT; t++) if ((T[t].pend == P_COND || T[t].pend == P_CONDT) && T[t].obj == c && !T[t].signaled) w[n++] = t;
	if (!n) return;
	if (all) { for (int i = 0; i < n; i++) { T[w[i]].signaled = true; th_set(w[i], mix(T[w[i]].h, T[cur].h)); } return; }
	int i = n > 1 ? choice(n, 0, 1, mix(Ssum, 0x516)) : 0;
	T[w[i]].signaled = true; th_set(w[i], mix(T[w[i]].h, T[cur].h));
}
int pthread_cond_signal(pthread_cond_t *c) { if (OFF) return REAL(pthread_cond_signal)(c); csig(c, false, PC()); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (OFF) return REAL(pthread_cond_broadcast)(c); csig(c, true, PC()); return 0; }
int pthread_spin_init(pthread_spinlock_t *m, int p) { if (OFF) return REAL(pthread_spin_init)(m, p); var((void *)m)->owner = -1; return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { if (OFF) return REAL(pthread_spin_lock)(m); lock_((pthread_mutex_t *)m, PC()); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (OFF) return REAL(pthread_spin_unlock)(m); return pthread_mutex_unlock((pthread_mutex_t *)m); }
int pthread_setname_np(pthread_t t, const char *n) { if (OFF) return REAL(pthread_setname_np)(t, n); return 0; }
int pthread_setschedparam(pthread_t t, int p, const struct sched_param *s) { if (OFF) return REAL(pthread_setschedparam)(t, p, s); return 0; }
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (OFF) return REAL(pthread_setaffinity_np)(t, n, s); return 0; }

static void sleep_ns(u64 ns, uintptr_t pc) { T[cur].deadline = vnow + ns; sp(P_SLEEP, 0, pc); }
int usleep(useconds_t us) { if (OFF) return REAL(usleep)(us); sleep_ns(us * 1000ull, PC()); return 0; }
unsigned sleep(unsigned s) { if (OFF) return REAL(sleep)(s); sleep_ns(s * 1000000000ull, PC()); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (OFF) return REAL(nanosleep)(a, b); sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec, PC()); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (OFF) return REAL(clock_nanosleep)(c, f, a, b); u64 v = a->tv_sec * 1000000000ull + a->tv_nsec; sleep_ns((f & TIMER_ABSTIME) ? (v > vnow ? v - vnow : 0) : v, PC()); return 0; }
int sched_yield() { if (OFF) return REAL(sched_yield)(); sleep_ns(0, PC()); return 0; }
int gettimeofday(struct timeval *tv, void *tz) noexcept {
	if (OFF) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	hread(&clockvar, 0x60d); tv->tv_sec = vnow / 1000000000; tv->tv_usec = vnow % 1000000000 / 1000; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
	if (OFF) return syscall(SYS_clock_gettime, c, ts);
	hread(&clockvar, 0x60e); ts->tv_sec = vnow / 1000000000; ts->tv_nsec = vnow % 1000000000; return 0;
}
time_t time(time_t *t) noexcept { if (OFF) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } if (t) *t = vnow / 1000000000; return vnow / 1000000000; }

int __cxa_thread_atexit(void (*f)(void *), void *o, void *) { if (in_exec && cur >= 0 && T[cur].ndtor < 16) { T[cur].dtor[T[cur].ndtor].f = f; T[cur].dtor[T[cur].ndtor++].o = o; } return 0; }
int __cxa_guard_acquire(u64 *g) {
	if (*(volatile char *)g) return 0;
	if (OFF) return 1;
	sp(P_LOCK, g, PC()); Var *v = var(g); acq(v); hrmw(v, 0x9ad);
	if (*(volatile char *)g) { return 0; }
	v->owner = cur; return 1;
}
void __cxa_guard_release(u64 *g) { *(volatile char *)g = 1; if (OFF) return; Var *v = var(g); v->owner = -1; rel(v, false); hrmw(v, 0x9ae); }
void __cxa_guard_abort(u64 *g) { if (OFF) return; Var *v = var(g); v->owner = -1; rel(v, false); }

// ---- file operations: scheduling points; optional hooks
static Var fsvar;
static void fs_pre(uintptr_t pc) { sp(P_IO, 0, pc); hrmw(&fsvar, 0xf5); }
static void fs_post(const char *op, const char *p, long ret) { if (mc::H.fs) { int e = errno; in_rt = 1; mc::H.fs(op, p, ret); in_rt = 0; errno = e; } }
static bool io_hook(const char *op, int fd, const void *iov, int cnt, long *r) { if (!mc::H.io) return false; in_rt = 1; bool h = mc::H.io(op, fd, iov, cnt, r); in_rt = 0; return h; }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
	if (OFF) return syscall(SYS_writev, fd, iov, cnt);
	fs_pre(PC()); long r; for (int i = 0; i < cnt; i++) if (iov[i].iov_len) memcheck((uintptr_t)iov[i].iov_base, iov[i].iov_len, false, PC());
	if (io_hook("writev", fd, iov, cnt, &r)) return r;
	r = syscall(SYS_writev, fd, iov, cnt); fs_post("write", 0, r); return r;
}
ssize_t write(int fd, const void *b, size_t n) {
	if (OFF) return syscall(SYS_write, fd, b, n);
	fs_pre(PC()); long r; struct iovec iov = {(void *)b, n}; if (n) memcheck((uintptr_t)b, n, false, PC());
	if (io_hook("write", fd, &iov, 1, &r)) return r;
	r = syscall(SYS_write, fd, b, n); fs_post("write", 0, r); return r;
}
static int do_open(const char *p, int fl, int md, uintptr_t pc) {
	fs_pre(pc); long r; if (io_hook("open", -1, p, 0, &r)) return r;
	r = syscall(SYS_openat, AT_FDCWD, p, fl, md); fs_post("open", p, r); return r;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap); if (OFF) return syscall(SYS_openat, AT_FDCWD, p, fl, md); return do_open(p, fl, md, PC()); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap); if (OFF) return syscall(SYS_openat, AT_FDCWD, p, fl, md); return do_open(p, fl, md, PC()); }
int openat(int dfd, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int md = va_arg(ap, int); va_end(ap); if (OFF || dfd != AT_FDCWD) return syscall(SYS_openat, dfd, p, fl, md); return do_open(p, fl, md, PC()); }
int creat(const char *p, mode_t md) { int fl = O_CREAT | O_WRONLY | O_TRUNC; if (OFF) return syscall(SYS_openat, AT_FDCWD, p, fl, md); return do_open(p, fl, md, PC()); }
int close(int fd) { if (OFF) return syscall(SYS_close, fd); fs_pre(PC()); long r; if (io_hook("close", fd, 0, 0, &r)) return r; r = syscall(SYS_close, fd); fs_post("close", 0, r); return r; }
int rename(const char *a, const char *b) noexcept { if (OFF) return syscall(SYS_rename, a, b); fs_pre(PC()); int r = syscall(SYS_rename, a, b); fs_post("rename", b, r); return r; }
int symlink(const char *a, const char *b) noexcept { if (OFF) return syscall(SYS_symlink, a, b); fs_pre(PC()); int r = syscall(SYS_symlink, a, b); fs_post("symlink", b, r); return r; }
int unlink(const char *a) noexcept { if (OFF) return syscall(SYS_unlink, a); fs_pre(PC()); int r = syscall(SYS_unlink, a); fs_post("unlink", a, r); return r; }
int remove(const char *a) noexcept { if (OFF) return syscall(SYS_unlink, a); fs_pre(PC()); int r = syscall(SYS_unlink, a); fs_post("unlink", a, r); return r; }
int ftruncate(int fd, off_t n) noexcept { if (OFF) return syscall(SYS_ftruncate, fd, n); fs_pre(PC()); int r = syscall(SYS_ftruncate, fd, n); fs_post("ftruncate", 0, r); return r; }
int fsync(int fd) { if (OFF) return syscall(SYS_fsync, fd); fs_pre(PC()); fs_post("fsync", 0, fd); return 0; }
int link(const char *a, const char *b) noexcept { if (OFF) return syscall(SYS_link, a, b); fs_pre(PC()); int r = syscall(SYS_link, a, b); fs_post("link", b, r); return r; }
ssize_t readlink(const char *a, char *b, size_t n) noexcept { if (OFF) return syscall(SYS_readlink, a, b, n); fs_pre(PC()); return syscall(SYS_readlink, a, b, n); }
}

namespace mc {
void guard(int bits, const char *what) { if (cur >= 0) { T[cur].gwhat = what; T[cur].guard = bits; } }
void guards_off() { for (int i = 0; i < MAXT; i++) T[i].guard = 0; }
int choose(int n, const char *what) { if (n <= 1) return 0; int c = choice(n, 0, 1, mix(Ssum, 0xc400 + cur)); th_set(cur, mix(T[cur].h, 0xc400 + c)); if (opt_trace) { char b[200]; snprintf(b, sizeof b, "%s = %d of %d", what, c, n); tr(O_CHOOSE, 0, 0, b); } return c; }
int fault(int n, const char *what) { if (n <= 1) return 0; u32 k = 0; for (int i = 1; i < n; i++) k |= 1u << (2 * i); int c = choice(n, k, 1, mix(Ssum, 0xfa00 + cur)); th_set(cur, mix(T[cur].h, 0xfa00 + c)); if (opt_trace) { char b[200]; snprintf(b, sizeof b, "%s = %d of %d", what, c, n); tr(O_FAULT, 0, 0, b); } return c; }
static Var evvar;
void done() { finish(ST_OK); __builtin_unreachable(); }
void detach() { in_exec = 0; in_rt = 0; }
void attach() { in_exec = 1; NFINE = 0; }
void fine(const void *p, size_t n) { if (NFINE < 16) { FINE[NFINE].a = (uintptr_t)p; FINE[NFINE++].e = n; } }
void fine_heap() { fine((void *)BASE, ARENAS); }
int image(range *r, int n) {
	int k = 0; for (int t = 0; t < MAXT && k < n; t++) if (ATOP[t] > 64) { r[k].p = (void *)(BASE + t * ARENA); r[k++].n = ATOP[t]; }
	struct acc { range *r; int n, k; } a = {r, n, k};
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) -> int { acc &a = *(acc *)p; for (int j = 0; j < i->dlpi_phnum; j++) { const ElfW(Phdr) &h = i->dlpi_phdr[j]; if (h.p_type == PT_LOAD && !(h.p_flags & PF_X) && a.k < a.n) { a.r[a.k].p = (void *)(i->dlpi_addr + h.p_vaddr); a.r[a.k++].n = h.p_memsz; } } return 1; }, &a);
	return a.k;
}
bool heap_live(const void *p) { return !shadow_bad((uintptr_t)p, 1); }
void event(u64 v) { if (OFF) return; hrmw(&evvar, v); }
void access(const void *a, bool w) { vol((uintptr_t)a, 1, w, PC()); }
}

// ------------------------------------------------------------------ signals
static void onsig(int s, siginfo_t *si, void *) {
	if (!in_exec) { signal(s, SIG_DFL); raise(s); return; }
	const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "abort" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "CPU limit: endless loop";
	in_exec = 0; snprintf(R->msg, sizeof R->msg, "crash: %s in T%d addr=0x%lx", n, (int)cur, s == SIGSEGV || s == SIGFPE ? (long)si->si_addr : 0L);
	finish(ST_VIOL);
}

static void *scen_main(void *p) { ((mc::scenario *)p)->fn(); return 0; }
static void run_child(mc::scenario *sc, const Job &j) {
	int nfd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0); if (nfd >= 0) { dup2(nfd, 2); dup2(nfd, 1); if (nfd > 2) syscall(SYS_close, nfd); }
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sg[] = {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGXCPU}; for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
	struct rlimit rl = {20, 25}; setrlimit(RLIMIT_CPU, &rl); struct rlimit cl = {0, 0}; setrlimit(RLIMIT_CORE, &cl);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	job = j; devi = 0; NT = 1; cur = -1; vnow = 1600000000ull * 1000000000ull;
	clockvar.a = 0x1001; clockvar.h = 1; fsvar.a = 0x1002; fsvar.h = 1; mc::evvar.a = 0x1003; mc::evvar.h = 1;
	T[0].fn = scen_main; T[0].arg = sc; T[0].pend = P_START; T[0].vc[0] = 1; T[0].h = 1; T[0].used = 1;
	DCELLS = (Cell *)mmap(0, ((DATA1 - DATA0) / 8 + 1) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	VAR = (Var *)mmap(0, NVAR * sizeof(Var), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	CELLS = (Cell *)mmap(0, (REGION / 8) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	spawn(0); in_exec = 1; cur = 0; switch_to(0);
	for (;;) { volatile int z = 0; fut(&z, FUTEX_WAIT, 0); }
}

// ------------------------------------------------------------------ explorer
static void slock() { while (__sync_lock_test_and_set(&S->lock, 1)) sched_yield(); }
static void sunlock() { __sync_lock_release(&S->lock); }
static double mono() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t_end; static int stopped_racy;
static pid_t g_child; static volatile int g_timedout;
static void on_alarm(int) { g_timedout = 1; if (g_child > 0) kill(g_child, SIGKILL); }

// Run one job in a forked child; result in *R.
static void run_job(mc::scenario *sc, const Job &j) {
	R->status = ST_NONE; R->ncp = 0; R->steps = R->newsteps = R->switches = 0; R->notelen = 0; R->note[0] = 0; R->outcome = 0; R->truncated = 0; R->msg[0] = 0;
	pid_t p = fork();
	if (p == 0) { run_child(sc, j); _exit(0); }
	if (p < 0) { R->status = ST_ERROR; strcpy(R->msg, "fork failed"); return; }
	g_child = p; g_timedout = 0; alarm(120);
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	alarm(0); g_child = 0;
	if (R->status == ST_NONE) {
		if (g_timedout) { R->status = ST_ERROR; strcpy(R->msg, "execution stuck outside the scheduler"); }
		else if (WIFSIGNALED(st)) { R->status = ST_VIOL; snprintf(R->msg, sizeof R->msg, "crash: killed by signal %d", WTERMSIG(st)); }
		else { R->status = ST_ERROR; snprintf(R->msg, sizeof R->msg, "child exited without result (status %x)", st); }
	}
}
static void worker(mc::scenario *sc, int w, int ncpu, const int *cpus) {
	R = &RES[w]; cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpus[w % ncpu], &cs); sched_setaffinity(0, sizeof cs, &cs);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	bool active = false; u64 mysteps = 0;
	for (;;) {
		if (S->stop) break;
		if (mono() > t_end) { S->stop = 2; break; }
		Job j; bool got = false;
		slock(); if (S->sp > 0) { j = STK[--S->sp]; got = true; if (!active) { S->nactive++; active = true; } } else if (active) { S->nactive--; active = false; } int na = S->nactive; sunlock();
		if (!got) { if (!na) break; REAL(usleep)(200); continue; }
		run_job(sc, j);
		__sync_fetch_and_add(&S->execs, 1); __sync_fetch_and_add(&S->steps, R->newsteps); __sync_fetch_and_add(&S->switches, R->switches);
		(void)mysteps;
		if (R->ncp > S->maxcp) S->maxcp = R->ncp;
		if (R->status == ST_PRUNED) __sync_fetch_and_add(&S->pruned, 1);
		if (R->status == ST_DISCARD) __sync_fetch_and_add(&S->discarded, 1);
		if (R->status == ST_DIVERGE) { __sync_fetch_and_add(&S->diverged, 1); continue; }
		if (R->status == ST_ERROR) { slock(); if (!S->haveviol) { S->haveviol = 2; S->viol = j; strcpy(S->violmsg, R->msg); } S->stop = 4; sunlock(); break; }
		if (R->status == ST_VIOL) { slock(); if (!S->haveviol) { S->haveviol = 1; S->viol = j; strcpy(S->violmsg, R->msg); } S->stop = 1; sunlock(); break; }
		if (R->status == ST_OK) {
			bool fresh = !R->outcome;
			if (R->outcome) { u64 o = R->outcome; for (u32 k = 0; k < 200; k++) { volatile u64 *x = &S->outcomes[(o + k) & 4095]; if (*x == o) break; if (!*x && __sync_bool_compare_and_swap(x, 0, o)) { __sync_fetch_and_add(&S->noutcomes, 1); fresh = true; break; } if (*x == o) break; } }
			if (fresh && R->notelen && S->nsamples < 6) { slock(); if (S->nsamples < 6) { memcpy(S->samples[S->nsamples], R->note, sizeof R->note); S->nsamples++; } sunlock(); }
		}
		if (S->newracy) { S->stop = 3; break; }
		// expand
		u32 start = j.ndev ? j.dev[j.ndev - 1].point + 1 : 0; static Job nb[64]; int nn = 0;
		for (u32 i = start; i < R->ncp; i++) for (int a = 1; a < R->cp[i].n; a++) {
			u32 c = j.cost + ((R->cp[i].costs >> (2 * a)) & 3); if ((int)c > g_bound) { __sync_fetch_and_add(&S->skipped, 1); continue; }
			if (j.ndev >= MAXDEV) { __sync_fetch_and_add(&S->truncated, 1); continue; }
			Job &q = nb[nn++]; q = j; q.dev[q.ndev].point = i; q.dev[q.ndev].alt = a; q.ndev++; q.cost = c; q.exp = R->cp[i].key;
			if (nn == 64) { slock(); if (S->sp + nn < (long)STKCAP) { memcpy(&STK[S->sp], nb, nn * sizeof(Job)); S->sp += nn; } else { S->stackfull = 1; } sunlock(); nn = 0; }
		}
		if (nn) { slock(); if (S->sp + nn < (long)STKCAP) { memcpy(&STK[S->sp], nb, nn * sizeof(Job)); S->sp += nn; } else S->stackfull = 1; sunlock(); }
	}
	if (active) __sync_fetch_and_sub(&S->nactive, 1);
	_exit(0);
}
static void *shm(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { u8 c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char **argv) {
	// A fixed address space layout makes runs repeatable.
	if (!getenv("MC_NOASLR")) { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("MC_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
	setup_region();
	const char *name = 0, *json = 0, *replay = 0, *vout = 0; int bound = 2, nw = 8, startb = 0; double maxs = 60;
	for (int i = 1; i < argc; i++) {
		const char *a = argv[i]; 
		if (!strcmp(a, "--list")) { for (mc::scenario *s = mc::scen; s; s = s->next) puts(s->name); return 0; }
		if (i + 1 >= argc) break; const char *v = argv[++i];
		if (!strcmp(a, "--scenario")) name = v; else if (!strcmp(a, "--bound")) bound = atoi(v); else if (!strcmp(a, "--start-bound")) startb = atoi(v); else if (!strcmp(a, "--workers")) nw = atoi(v);
		else if (!strcmp(a, "--time")) maxs = atof(v); else if (!strcmp(a, "--json")) json = v; else if (!strcmp(a, "--prop")) g_prop = v;
		else if (!strcmp(a, "--replay")) replay = v; else if (!strcmp(a, "--replay-out")) vout = v; else if (!strcmp(a, "--nocache")) opt_cache = !atoi(v);
		else if (!strcmp(a, "--pcost")) opt_pcost = atoi(v); else if (!strcmp(a, "--steps")) steplimit = atol(v);
		else if (!strcmp(a, "--param") && mc::nprm < 32) { const char *e = strchr(v, '='); if (e) { snprintf(mc::prm[mc::nprm].k, 32, "%.*s", (int)(e - v), v); snprintf(mc::prm[mc::nprm++].v, 128, "%s", e + 1); } }
	}
	mc::scenario *sc = mc::scen; while (sc && (!name || strcmp(sc->name, name))) sc = sc->next;
	if (!sc) { fprintf(stderr, "no such scenario\n"); return 3; }
	TEXT0 = (uintptr_t)&__executable_start; TEXT1 = (uintptr_t)&etext; DATA0 = (uintptr_t)&__data_start & ~7ull; DATA1 = (uintptr_t)&_end;
	S = (Shared *)shm(sizeof(Shared)); RES = (Result *)shm(sizeof(Result) * (nw + 1)); STK = (Job *)shm(STKCAP * sizeof(Job)); CACHE = (Slot *)shm(CACHECAP * sizeof(Slot));
	RACY = (u8 *)shm(TEXT1 - TEXT0); RACYNEW = (u8 *)shm(TEXT1 - TEXT0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0);
	// warm up lazily bound symbols before forking
	REAL(pthread_create); REAL(usleep); REAL(pthread_join);
	if (replay) {
		FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 3; } char line[65536]; Job j; memset(&j, 0, sizeof j); int want = 0;
		while (fgets(line, sizeof line, f)) {
			unsigned long x; unsigned p, a;
			if (sscanf(line, "racy 0x%lx", &x) == 1 && x >= TEXT0 && x < TEXT1) RACY[x - TEXT0] = 1;
			else if (sscanf(line, "dev %u %u", &p, &a) == 2 && j.ndev < MAXDEV) { j.dev[j.ndev].point = p; j.dev[j.ndev++].alt = a; }
			else if (!strncmp(line, "end", 3)) { want = 1; break; }
		}
		(void)want; fclose(f); R = &RES[nw]; opt_cache = 0; opt_trace = dup(1); TR = (TE *)shm(TRMAX * sizeof(TE));
		run_job(sc, j); fflush(stdout);
		printf("REPLAY status=%s msg=%s\n", R->status == ST_VIOL ? "violation" : R->status == ST_OK ? "ok" : "other", R->msg);
		return R->status == ST_VIOL ? 1 : R->status == ST_OK ? 0 : 2;
	}
	int cpus[256], nc = 0; cpu_set_t cs; sched_getaffinity(0, sizeof cs, &cs); for (int i = 0; i < 256 && nc < 256; i++) if (CPU_ISSET(i, &cs)) cpus[nc++] = i;
	if (!nc) { cpus[0] = 0; nc = 1; }
	double t0 = mono(); t_end = t0 + maxs; int done = -1; u64 texec = 0, tsteps = 0, tpruned = 0, tdisc = 0, laststates = 0, lastexecs = 0, laststeps = 0, maxstates = 0; int restarts = 0;
	int b = startb; bool viol = false, err = false; u64 trunc = 0, divg = 0; bool exhausted = false; u64 pstates = 0, pexecs = 0;
	struct { int b; u64 st, ex, sp; } per[64]; int nper = 0;
	while (b <= bound) {
		S->sp = 0; S->nactive = 0; S->stop = 0; S->skipped = S->execs = S->pruned = S->states = S->steps = S->diverged = S->discarded = S->truncated = 0; S->newracy = 0; S->stackfull = S->cachefull = 0;
		g_bound = b; if (CACHE) madvise(CACHE, CACHECAP * sizeof(Slot), MADV_REMOVE);
		memset(&STK[0], 0, sizeof(Job)); S->sp = 1;
		pid_t pids[64]; for (int w = 0; w < nw; w++) { pids[w] = fork(); if (!pids[w]) worker(sc, w, nc, cpus); }
		for (int w = 0; w < nw; w++) { int st; while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {} }
		texec += S->execs; tsteps += S->steps; tpruned += S->pruned; tdisc += S->discarded; divg += S->diverged;
		if (S->states > maxstates) maxstates = S->states;
		if (S->haveviol == 1) { viol = true; break; } // also if another worker asked for a restart meanwhile
		if (S->haveviol == 2 || S->stop == 4) { err = true; break; }
		if (S->newracy) { for (size_t i = 0; i < TEXT1 - TEXT0; i++) if (RACYNEW[i]) { RACY[i] = 1; RACYNEW[i] = 0; } restarts++; if (S->stop == 2 || mono() > t_end) break; b = startb; nper = 0; done = -1; continue; }
		trunc += S->truncated + S->stackfull + S->cachefull;
		if (S->stop == 2) { pstates = S->states; pexecs = S->execs; break; }
		done = b; laststates = S->states; lastexecs = S->execs; laststeps = S->steps; if (nper < 64) { per[nper].b = b; per[nper].st = S->states; per[nper].ex = S->execs; per[nper].sp = S->steps; nper++; }
		if (!S->skipped && !trunc) { exhausted = true; break; } // no alternative was cut by the bound
		b++;
	}
	int rc = 0;
	if (err) { fprintf(stderr, "ERROR scenario=%s: %s\n", sc->name, S->violmsg); rc = 2; }
	if (viol || (err && S->haveviol)) {
		// confirm by replaying twice
		R = &RES[nw]; opt_cache = 0; int same = 0; Job j = S->viol; j.exp = 0;
		for (int k = 0; k < 2; k++) { run_job(sc, j); if (R->status == ST_VIOL || err) same++; }
		if (viol && same == 2) rc = 1; else if (viol) { fprintf(stderr, "ERROR scenario=%s: violation did not replay: %s\n", sc->name, S->violmsg); rc = 2; }
		if (vout) {
			FILE *f = fopen(vout, "w"); if (f) {
				fprintf(f, "scenario %s\nprop %s\nmessage %s\nbound %d cost %d\n", sc->name, g_prop, S->violmsg, g_bound, j.cost);
				for (int i = 0; i < mc::nprm; i++) fprintf(f, "param %s=%s\n", mc::prm[i].k, mc::prm[i].v);
				for (size_t i = 0; i < TEXT1 - TEXT0; i++) if (RACY[i]) fprintf(f, "racy 0x%lx\n", (long)(TEXT0 + i));
				for (int i = 0; i < j.ndev; i++) fprintf(f, "dev %u %u\n", j.dev[i].point, j.dev[i].alt);
				fprintf(f, "end\n# trace of the violating execution\n"); fflush(f); opt_trace = fileno(f); TR = (TE *)shm(TRMAX * sizeof(TE)); run_job(sc, j); opt_trace = 0; fclose(f);
			}
		}
		printf("%s scenario=%s %s\n", rc == 1 ? "VIOL" : "ERR", sc->name, S->violmsg);
	}
	u64 nr = 0; for (size_t i = 0; i < TEXT1 - TEXT0; i++) nr += RACY[i];
	FILE *f = json ? fopen(json, "w") : stdout; if (!f) { perror(json); return 3; }
	fprintf(f, "{\"scenario\": \"%s\", \"result\": \"%s\", \"bound_requested\": %d, \"bound_completed\": %d, \"exhausted\": %s, ", sc->name, rc == 1 ? "violation" : rc ? "error" : "ok", bound, done, exhausted ? "true" : "false");
	fprintf(f, "\"executions\": %lu, \"states\": %lu, \"states_completed_bound\": %lu, \"partial_next_bound_executions\": %lu, \"transitions\": %lu, \"pruned\": %lu, \"discarded\": %lu, ", texec, (unsigned long)maxstates, laststates, pexecs, tsteps, tpruned, tdisc);
	fprintf(f, "\"outcomes\": %lu, \"max_decisions\": %lu, \"racy_sites\": %lu, \"restarts\": %d, \"diverged\": %lu, \"truncated\": %lu, \"wall_s\": %.2f, ", (unsigned long)S->noutcomes, (unsigned long)S->maxcp, nr, restarts, divg, trunc, mono() - t0);
	fprintf(f, "\"per_bound\": ["); for (int i = 0; i < nper; i++) fprintf(f, "%s{\"bound\": %d, \"states\": %lu, \"executions\": %lu}", i ? ", " : "", per[i].b, per[i].st, per[i].ex); fprintf(f, "], ");
	(void)lastexecs; (void)laststeps; (void)pstates;
	fprintf(f, "\"message\": "); jstr(f, rc ? S->violmsg : ""); fprintf(f, ", \"samples\": ["); for (int i = 0; i < S->nsamples; i++) { if (i) fputc(',', f); jstr(f, S->samples[i]); } fprintf(f, "]}\n");
	if (json) fclose(f);
	return rc;
}
