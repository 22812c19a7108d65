// Shared parts of the engine scenarios: capturing output, posting helpers and
// the delivery oracle.  Only public interfaces of the library are used.
#ifndef VT_ENG_HPP
#define VT_ENG_HPP
#include <pthread.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "mc.h"
#include "hogl/engine.hpp"
#include "hogl/post.hpp"
#include "hogl/flush.hpp"
#include "hogl/area.hpp"
#include "hogl/tls.hpp"
#include "hogl/ring.hpp"
#include "hogl/mask.hpp"
#include "hogl/timesource.hpp"
#include "hogl/output-null.hpp"
#include "hogl/detail/internal.hpp"
#include "hogl/detail/ostrbuf.hpp"

namespace vt {

// One record as seen by the format handler.
struct rec {
	std::string ring, area_name, text, cstr;
	bool internal; unsigned sect; uint64_t ts, seq, a1, a2; const hogl::area *area; unsigned argtypes; uint64_t n;
	const void *rec_ptr;
};

struct sink_buf : hogl::ostrbuf {
	std::string written; unsigned flushes; volatile unsigned nwritten;
	sink_buf(size_t cap) : hogl::ostrbuf(cap), flushes(0), nwritten(0) { written.reserve(4096); }
	void do_flush(const uint8_t *d, size_t n) {
		written.append((const char *) head(), size()); reset();
		if (d) written.append((const char *) d, n);
		flushes++; nwritten = written.size();
	}
};

inline std::string argstr(const hogl::record *r, unsigned i) {
	unsigned t = r->get_arg_type(i);
	if (t == hogl::arg::GSTR) { const char *p = (const char *) r->get_arg_val64(i); return p ? p : ""; }
	if (t == hogl::arg::CSTR) { unsigned l; const uint8_t *p = r->get_arg_data(i, l); return std::string((const char *) p, l); }
	return "";
}

// Stops the engine inside the output until the test opens the gate.
struct gate {
	pthread_mutex_t m; pthread_cond_t c; bool reached, open;
	gate() : reached(false), open(false) { pthread_mutex_init(&m, 0); pthread_cond_init(&c, 0); }
	void engine_side() { pthread_mutex_lock(&m); reached = true; pthread_cond_broadcast(&c); while (!open) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
	void wait_reached() { pthread_mutex_lock(&m); while (!reached) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
	void release() { pthread_mutex_lock(&m); open = true; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); }
};
enum { GATE = 9999 };

struct capture : hogl::format {
	std::vector<rec> recs; const hogl::area *internal; gate g;
	capture() : internal(0) { recs.reserve(64); }
	void process(hogl::ostrbuf &s, const data &d) {
		const hogl::record *r = d.record; rec x;
		x.ring = d.ring_name; x.area = r->area; x.sect = r->section; x.ts = r->timestamp; x.seq = r->seqnum;
		x.area_name = r->area ? r->area->name() : "(null)"; x.internal = x.area_name == "HOGL";
		x.rec_ptr = r; x.text = argstr(r, 0); x.a1 = x.a2 = x.n = 0;
		if (x.internal) { if (r->get_arg_type(1) == hogl::arg::UINT64) x.n = r->get_arg_val64(1); else x.cstr = argstr(r, 1) + "|" + argstr(r, 2); }
		else { x.a1 = r->get_arg_val32(1); x.a2 = r->get_arg_val32(2); x.cstr = argstr(r, 3); x.argtypes = r->argtype & 0xffff; }
		if (!x.internal && x.a1 == GATE) { g.engine_side(); return; }
		recs.push_back(x);
		if (!x.internal) { char b[64]; int n = snprintf(b, sizeof b, "%u.%u\n", (unsigned) x.a1, (unsigned) x.a2); s.push_back(b, n); }
	}
};

struct sink : hogl::output {
	sink_buf *sb;
	sink(hogl::format &f, size_t cap) : hogl::output(f) { sb = new sink_buf(cap); init(sb); }
};

// Timestamps are whatever the posting thread says.
extern thread_local uint64_t cur_ts;
extern hogl::timesource ts_tls;
// Strictly increasing global clock (each reading is a scheduling point).
extern hogl::timesource ts_clock; extern volatile uint64_t clock_now;

inline hogl::engine::options eopts(unsigned features, unsigned tso, hogl::timesource *ts = &ts_tls) {
	hogl::engine::options o = { hogl::mask(), 100, tso, features, 0, ts };
	return o;
}
inline hogl::ringbuf::options ropts(unsigned cap, unsigned flags = 0, unsigned prio = 0, unsigned tail = 128) {
	hogl::ringbuf::options o = { cap, prio, flags, tail }; return o;
}

extern const char *sections[];
enum { SEC_A, SEC_B, SEC_OFF };

// Posts record (w,i).  Even records use the inline path, odd ones the packed path.
inline void post(hogl::ringbuf *ring, const hogl::area *a, unsigned w, unsigned i, uint64_t ts) {
	cur_ts = ts;
	if (i & 1) {
		char s[32]; snprintf(s, sizeof s, "<%u:%u>", w, i);
		hogl::post(ring, a, SEC_B, hogl::arg_gstr("fmt"), (uint32_t) w, (uint32_t) i, (const char *) s);
	} else
		hogl::post(ring, a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) w, (uint32_t) i);
}

// Checks that a captured user record is exactly what was posted.
inline void check_intact(const rec &r, const hogl::area *a, const char *ring, uint64_t ts) {
	MC_CHECK(r.area == a && r.area_name == "AREA", "record (%lu,%lu): wrong area %s", (long) r.a1, (long) r.a2, r.area_name.c_str());
	MC_CHECK(r.sect == ((r.a2 & 1) ? SEC_B : SEC_A), "record (%lu,%lu): wrong section %u", (long) r.a1, (long) r.a2, r.sect);
	MC_CHECK(r.text == "fmt", "record (%lu,%lu): wrong first argument '%s'", (long) r.a1, (long) r.a2, r.text.c_str());
	MC_CHECK(!ring || r.ring == ring, "record (%lu,%lu): attributed to ring %s", (long) r.a1, (long) r.a2, r.ring.c_str());
	MC_CHECK(r.ts == ts, "record (%lu,%lu): timestamp %lu instead of %lu", (long) r.a1, (long) r.a2, (long) r.ts, (long) ts);
	if (r.a2 & 1) { char s[32]; snprintf(s, sizeof s, "<%u:%u>", (unsigned) r.a1, (unsigned) r.a2); MC_CHECK(r.cstr == s, "record (%lu,%lu): string argument '%s'", (long) r.a1, (long) r.a2, r.cstr.c_str()); }
}

inline std::string dump(const std::vector<rec> &v) {
	std::string s; char b[128];
	for (size_t i = 0; i < v.size(); i++) {
		if (v[i].internal) snprintf(b, sizeof b, "[%s n=%lu %s] ", v[i].text.c_str(), (long) v[i].n, v[i].cstr.c_str());
		else snprintf(b, sizeof b, "%s:%lu.%lu@%lu ", v[i].ring.c_str(), (long) v[i].a1, (long) v[i].a2, (long) v[i].ts);
		s += b;
	}
	return s;
}

// thread helper
struct thr { pthread_t t; void start(void *(*f)(void *), void *a) { pthread_create(&t, 0, f, a); } void join() { pthread_join(t, 0); } };

} // namespace vt
#endif
