// C24: posting allocates nothing, takes no lock and makes no system call.
// Every system call, allocation and lock of the posting thread is trapped.
#include "rec.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/prctl.h>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/tls.hpp>
#include <hogl/mask.hpp>
#include <hogl/output-null.hpp>
#include <hogl/format-null.hpp>
#include "c_posts.h"
using namespace vt;
static char m1[] = "mutable", m3[300];
struct vals G = { {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4}, {true, false}, {1, 2, 3, 4}, {1, 2, 3, 4}, {0, &G, 0, 0}, {"s", "", 0, "string"}, {m1, m3, m1, 0}, {1, 2, 3, 4}, {1, 2, 3, 4}, {1, 2, 3, 4} };
static __thread volatile char armed __attribute__((tls_model("initial-exec"))); // selector of the system call dispatch
static __thread const char *bad __attribute__((tls_model("initial-exec"))); static __thread long badnr __attribute__((tls_model("initial-exec")));
#define TRAP(what) do { if (armed && !bad) bad = what; } while (0)
template <class T> static T next(const char *n) { char a = armed; armed = 0; T f = (T) dlsym(RTLD_NEXT, n); armed = a; return f; }
#define NEXT(f) ({ static decltype(&f) p; if (!p) p = next<decltype(&f)>(#f); p; })
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { TRAP("memory allocated"); return __libc_malloc(n); }
void free(void *p) { if (p) TRAP("memory freed"); __libc_free(p); }
void *calloc(size_t a, size_t b) { TRAP("memory allocated"); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { TRAP("memory allocated"); return __libc_realloc(p, n); }
void *aligned_alloc(size_t a, size_t n) { TRAP("memory allocated"); return __libc_memalign(a, n); }
void *memalign(size_t a, size_t n) { TRAP("memory allocated"); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { TRAP("memory allocated"); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
int pthread_mutex_lock(pthread_mutex_t *m) { TRAP("mutex locked"); return NEXT(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { TRAP("mutex tried"); return NEXT(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { TRAP("mutex unlocked"); return NEXT(pthread_mutex_unlock)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { TRAP("lock taken"); return NEXT(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { TRAP("lock taken"); return NEXT(pthread_rwlock_wrlock)(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { TRAP("spin lock taken"); return NEXT(pthread_spin_lock)(m); }
int pthread_cond_signal(pthread_cond_t *c) { TRAP("condition signalled"); return NEXT(pthread_cond_signal)(c); }
int pthread_cond_broadcast(pthread_cond_t *c) { TRAP("condition signalled"); return NEXT(pthread_cond_broadcast)(c); }
int sem_post(sem_t *s) { TRAP("semaphore posted"); return NEXT(sem_post)(s); }
int sem_wait(sem_t *s) { TRAP("semaphore taken"); return NEXT(sem_wait)(s); }
// no system call on any supported platform
int clock_gettime(clockid_t c, struct timespec *t) { if (!armed) return NEXT(clock_gettime)(c, t); static uint64_t n; uint64_t k = __sync_add_and_fetch(&n, 1); t->tv_sec = k / 1000000000; t->tv_nsec = k % 1000000000; return 0; }
}
static void sigsys(int, siginfo_t *i, void *) { armed = 0; if (!bad) bad = "system call"; badnr = i->si_syscall; }
namespace {
bool trapping;
void setup() { static __thread bool done; if (done) return; done = true; struct sigaction a = {}; a.sa_sigaction = sigsys; a.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &a, 0); trapping = prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, 0L, 0L, &armed) == 0; if (!trapping) en::note("system calls are not trapped here"); }
#define QUIET(what, ...) do { setup(); bad = 0; badnr = -1; armed = 1; __VA_ARGS__; armed = 0; en::eval(); if (bad) en::fail("%s while posting (%s)%s", bad, what, badnr >= 0 ? (": number " + std::to_string(badnr)).c_str() : ""); } while (0)
const char *sections[] = {"DEBUG", "INFO", "WARN", 0};
hogl::area &area() { static hogl::area a("AREA", sections); return a; }
val arg_of(int k, int v) { switch (k) { case 0: return val::i32(-1); case 1: return val::u64(5); case 2: return val::dbl(1.5); case 3: return val::ptr(77); case 4: return val::gstr("global"); case 5: return val::cstr(string(v ? 300 : 3, 's')); case 6: return val::raw(string(v ? 300 : 3, 'r')); default: return val::xdump(string(v ? 300 : 3, 'd')); } }
const char *hn[] = {"post", "post_unlocked", "inline", "packed"}; const char *sn[] = {"empty", "wrapped", "nearly full", "full", "section off"};
void in_all_states(vector<val> &v) {
	static const unsigned tails[] = {0, 16, 64, 128, 400}; unsigned tail = tails[en::choose(5, "tailroom")]; int st = en::choose(5, "state"), h = en::choose(NHOW, "way"); en::note(string(hn[h]) + ", " + sn[st] + ", tailroom " + std::to_string(tail) + ": " + show(v)); 
	if (tail < 8 * v.size()) tail = 8 * v.size(); hogl::ringbuf *r = ring(4, tail); area().enable(); area().reset(0); vector<val> one(1, val::i32(1)); unsigned cap = r->capacity();
	if (st == 1) for (unsigned i = 0; i < cap + 1; i++) { post(r, &area(), 1, one); r->pop_begin(); r->pop_commit(); }
	if (st == 2 || st == 3) for (unsigned i = 0; i + (st == 2 ? 2 : 1) < cap; i++) post(r, &area(), 1, one);
	hogl::arg x[16]; for (size_t i = 0; i < v.size() && i < 16; i++) x[i] = v[i].get(); hogl::argpack ap; uint64_t d0 = r->dropcnt();
	// a full ring takes no record, so there is nothing to fill in
	if (st == 3 && h >= INLINE) { r->release(); en::skip(); } if (st == 4 && h >= INLINE) { r->release(); en::skip(); }
	QUIET(hn[h], switch (h) { case POST: hogl::post(r, &area(), st == 4 ? 0 : 1, VT_A16); break; case POST_UNLOCKED: hogl::post_unlocked(r, &area(), st == 4 ? 0 : 1, VT_A16); break;
		case INLINE: { hogl::record *q = hogl::post_impl::begin_unlocked(r, &area(), 1); q->set_args(r->record_tailroom(), VT_A16); hogl::post_impl::finish_unlocked(r); break; }
		case PACKED: ap.populate(VT_A16); hogl::post_impl::unlocked(r, &area(), 1, ap); break; });
	if (r->dropcnt() - d0 != (st == 3 ? 1 : 0)) en::fail("%lu records dropped", (unsigned long) (r->dropcnt() - d0)); en::outcome(sn[st] + std::to_string(v.size())); r->release();
}
}
EN_SCENARIO(lists) { int n = en::choose(en::param("len", 2), "arguments") + 1; vector<val> v; for (int i = 0; i < n; i++) { int k = en::choose(8, "type"); v.push_back(arg_of(k, k > 4 ? en::choose(2, "length") : 0)); } in_all_states(v); }
EN_SCENARIO(many) { int n = en::choose(16, "arguments") + 1, k = en::choose(8, "type"), l = en::choose(8, "last"), big = en::choose(2, "length"); vector<val> v; for (int i = 0; i < n; i++) v.push_back(arg_of(i + 1 == n ? l : k, big)); in_all_states(v); }
// Long runs: many drops in a row, many records through one ring, long silence of the reader
EN_SCENARIO(overrun) {
	int cap = 2 + en::choose(4, "capacity") * 5, how = en::choose(3, "reader"), k = en::choose(3, "way"), n = en::param("n", 1500); en::note("capacity " + std::to_string(cap) + " reader " + std::to_string(how));
	hogl::ringbuf *r = ring(cap, 80); area().enable(); area().reset(0); string s(20, 'x'); uint64_t taken = 0;
	for (int i = 0; i < n; i++) {
		QUIET("long run", switch (k) { case 0: hogl::post(r, &area(), 1, "%s %d", s, i); break; case 1: hogl::post_unlocked(r, &area(), i % 3, i); break; case 2: if (i & 1) hogl::post(r, &area(), 0, i); else hogl::post(r, &area(), 2, 1.5, s, s); break; });
		if ((how == 1 && i % 7 == 0) || (how == 2 && i % 300 == 299)) while (r->pop_begin()) { r->pop_commit(); taken++; }
	}
	while (r->pop_begin()) { r->pop_commit(); taken++; }
	uint64_t posted = k == 0 ? n : k == 1 ? n - (n + 2) / 3 : (n + 1) / 2; EN_CHECK(taken + r->dropcnt() == posted, "%lu records read and %lu dropped of %lu", (long) taken, (long) r->dropcnt(), (long) posted); en::outcome(std::to_string(taken)); r->release();
}
// A thread with a context of its own, the engine running, both interfaces
EN_SCENARIO(live) {
	int tso = en::choose(2, "timestamp ordering"), cap = en::choose(3, "capacity") * 7 + 2, n = en::choose(3, "posts") * 20 + 2, c = en::choose(4, "interface"), k = en::choose(NKIND, "type"), dflt = en::choose(2, "time source"); 
	en::note(string(tso ? "ordered" : "unordered") + " capacity " + std::to_string(cap) + " posts " + std::to_string(n) + " interface " + std::to_string(c) + " type " + std::to_string(k));
	hogl::format_null f; hogl::output_null o(f); hogl::engine::options eo = hogl::engine::default_options; eo.polling_interval_usec = 100; eo.tso_buffer_capacity = 16; eo.features = tso ? 0 : hogl::engine::DISABLE_TSO; if (dflt) eo.timesource = 0; hogl::activate(o, eo);
	hogl::area *a = hogl::add_area("AREA", sections); a->enable(); a->reset(0);
	{ hogl::ringbuf::options ro = {}; ro.capacity = cap; ro.record_tailroom = 80; hogl::tls t("RING", ro); std::string s(20, 'x'); hogl::arg_xdump xd(m3, 100);
		for (int i = 0; i < n; i++) switch (c) {
		case 0: QUIET("C", c_two(a, i % 3, k, K_str, i % NVAL)); break; case 1: QUIET("C", c_three(a, i % 3, K_u8, K_str, K_dbl, i % NVAL)); break;
		case 2: QUIET("C++", hogl::post(a, i % 3, "%s %d %f %s", s, i, 1.5, xd)); break;
		case 3: QUIET("C++", hogl::post(a, i % 3, i, s, "literal", hogl::arg_gstr("g"), (void *) a, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10l, true)); break;
		}
		hogl::flush();
	}
	hogl::deactivate(); en::outcome(std::to_string(c));
}
// The trap works
EN_SCENARIO(self) {
	int k = en::choose(4, "what"); setup(); bad = 0; badnr = -1; static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; armed = 1;
	if (k == 0) { void *volatile p = malloc(10); free(p); } if (k == 1) { pthread_mutex_lock(&m); pthread_mutex_unlock(&m); } if (k == 2) getppid(); if (k == 3) { volatile int x = 1; (void) x; }
	armed = 0; if (k == 2 && !trapping) return; EN_CHECK(!!bad == (k != 3), "trap %d", k);
}
