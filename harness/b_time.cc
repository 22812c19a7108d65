// C11, C05: time stamps and the built-in time sources, in both representations of time stamps
#include "rec.hpp"
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <hogl/timesource.hpp>
using namespace vt;
typedef unsigned __int128 u128;
static bool armed; static struct timespec at[2];
extern "C" int clock_gettime(clockid_t c, struct timespec *t) {
	if (armed && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { *t = at[c == CLOCK_MONOTONIC]; return 0; }
	return syscall(SYS_clock_gettime, c, t);
}
namespace {
#ifdef HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT
const uint64_t MAXSEC = (1ul << 32) - 1;
#else
const uint64_t MAXSEC = ~0ul / 1000000000 - 1;
#endif
const uint64_t secs[] = {0, 1, 2, 4, 5, 59, 1600000000, (1ul << 31) - 1, 1ul << 31, (1ul << 32) - 1, 1ul << 32, ~0ul / 1000000000 - 1}, nsecs[] = {0, 1, 2, 999, 1000, 1001, 999999, 1000000, 500000000, 999999998, 999999999};
struct moment { uint64_t s, n, v; };
moment pick(const char *what) { moment m; m.s = secs[en::choose(12, what)]; if (m.s > MAXSEC) m.s = MAXSEC; m.n = nsecs[en::choose(11, "nanoseconds")]; m.v = m.s * 1000000000 + m.n; return m; }
struct timespec spec(const moment &m) { struct timespec t; t.tv_sec = m.s; t.tv_nsec = m.n; return t; }
}
#define IS(x, y) do { uint64_t a_ = (x), b_ = (y); en::eval(); if (a_ != b_) en::fail("%s is %lu instead of %lu for %lu.%09lu and %lu.%09lu", #x, (long) a_, (long) b_, (long) a.s, (long) a.n, (long) b.s, (long) b.n); } while (0)
EN_SCENARIO(stamps) {
	moment a = pick("seconds"), b = pick("other seconds"); hogl::timestamp x(spec(a)), y(b.v), z; struct timespec t;
	IS((uint64_t) x, a.v); IS((uint64_t) y, b.v); x.to_timespec(t); IS(t.tv_sec, a.s); IS(t.tv_nsec, a.n); y.to_timespec(t); IS(t.tv_sec, b.s); IS(t.tv_nsec, b.n);
	IS(x.to_nsec(), a.v); IS(x.to_usec(), a.v / 1000); IS(x.to_msec(), a.v / 1000000); IS(x.to_sec(), a.s);
	z.from_nsec(b.v); IS(z.to_nsec(), b.v); z.from_usec(b.v / 1000); IS(z.to_nsec(), b.v / 1000 * 1000); z.from_msec(b.v / 1000000); IS(z.to_nsec(), b.v / 1000000 * 1000000); z.from_sec(b.s); IS(z.to_nsec(), b.s * 1000000000); z.from_timespec(spec(b)); IS(z.to_nsec(), b.v); z = x; IS(z.to_nsec(), a.v); hogl::timestamp c(y); IS(c.to_nsec(), b.v);
	IS(x < y, a.v < b.v); IS(x > y, a.v > b.v); IS(x == y, a.v == b.v); IS(y < x, b.v < a.v); IS(y == x, a.v == b.v);
	u128 most = (u128) MAXSEC * 1000000000 + 999999999;
	if ((u128) a.v + b.v <= most) { IS((x + y).to_nsec(), a.v + b.v); IS((x + b.v).to_nsec(), a.v + b.v); z = x; z += b.v; IS(z.to_nsec(), a.v + b.v); }
	if ((u128) a.v + 7 <= most) { IS((x + 7).to_nsec(), a.v + 7); z = x; z += 7; IS(z.to_nsec(), a.v + 7); IS((++z).to_nsec(), a.v + 8); IS((--z).to_nsec(), a.v + 7); IS((--z).to_nsec(), a.v + 6); }
	if (a.v > b.v) { IS((x - y).to_nsec(), a.v - b.v); IS((x - b.v).to_nsec(), a.v - b.v); } if (a.v > 7) IS((x - 7).to_nsec(), a.v - 7);
}
EN_SCENARIO(sources) { // what the clocks say is what the records carry
	moment a = pick("real time"), b = pick("monotonic time"); at[0] = spec(a); at[1] = spec(b); armed = true; hogl::timesource *s[] = {&hogl::realtime_timesource, &hogl::monotonic_timesource, &hogl::default_timesource}; uint64_t v[3], w[3]; hogl::ringbuf *r = ring(4, 64, "R"); hogl::area ar("AREA"); ar.enable();
	for (int i = 0; i < 3; i++) { v[i] = s[i]->timestamp().to_nsec(); r->timesource(s[i]); hogl::post(r, &ar, 1, "x"); } armed = false;
	for (int i = 0; i < 3; i++) { hogl::record *x = r->pop_begin(); w[i] = x ? x->timestamp.to_nsec() : 0; if (x) r->pop_commit(); } r->release();
	IS(v[0], a.v); IS(v[1], b.v); IS(v[2], a.v); IS(w[0], a.v); IS(w[1], b.v); IS(w[2], a.v);
}
