// C01, C02: one ring of any capacity and record size, posts and a reader in
// every order, against a reference queue.
#include "rec.hpp"
#include <deque>
#include <sys/mman.h>
// Clearing gigabytes of fresh memory would make all of it resident
static char *fresh; static size_t nfresh;
#ifdef VT_SPARSE
#include <errno.h>
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" int posix_memalign(void **p, size_t a, size_t n) {
	if (n < (1ul << 28) || a > 4096) { *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
	if (fresh) munmap(fresh, nfresh);
	*p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*p == MAP_FAILED) return ENOMEM; fresh = (char *) *p; nfresh = n; return 0;
}
extern "C" void *memset(void *p, int c, size_t n) {
	if (fresh && p == fresh && !c) { if (n > nfresh) abort(); return p; }
	void *d = p; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return p;
}
extern "C" void __libc_free(void *);
extern "C" void free(void *p) { if (p && p == fresh) { munmap(fresh, nfresh); fresh = 0; return; } __libc_free(p); }
#endif
using namespace vt;
namespace {
const char *sections[] = {"DEBUG", "INFO", "WARN", 0};
hogl::area &area() { static hogl::area a("AREA", sections); a.enable(); return a; }
struct model { // what the ring has to do
	hogl::ringbuf *r; uint64_t cap, seq, drops, stamp; std::deque<std::pair<uint64_t, uint64_t> > q;
	void check(const char *when) {
		if (r->size() != q.size()) en::fail("%s: %u records instead of %zu in a ring of capacity %lu", when, r->size(), q.size(), (long) cap);
		if (r->room() != cap - 1 - q.size()) en::fail("%s: room for %u records instead of %zu", when, r->room(), (size_t) (cap - 1 - q.size()));
		if (r->empty() != q.empty()) en::fail("%s: ring with %zu records is %sempty", when, q.size(), r->empty() ? "" : "not ");
		if (r->dropcnt() != drops) en::fail("%s: %lu drops counted instead of %lu", when, (long) r->dropcnt(), (long) drops);
		if (r->seqnum() != seq) en::fail("%s: sequence number %lu instead of %lu", when, (long) r->seqnum(), (long) seq);
		en::eval();
	}
	void post(bool fmt) {
		if (fmt) hogl::post(r, &area(), 1, "format", (uint64_t) seq); else hogl::post(r, &area(), 2, (uint64_t) ~seq, (uint64_t) seq);
		if (q.size() < cap - 1) q.push_back(std::make_pair(seq, (uint64_t) fmt)); else drops++;
		seq++;
	}
	void is(hogl::record *x, const std::pair<uint64_t, uint64_t> &w) {
		if (x->seqnum != w.first || x->area != &area() || x->section != 2 - w.second || x->get_arg_val64(1) != w.first || (!w.second && x->get_arg_val64(0) != ~w.first)) en::fail("read record %lu section %u argument %lx instead of record %lu", (long) x->seqnum, x->section, (long) x->get_arg_val64(1), (long) w.first);
	}
	void take(uint64_t n) { // as the recovery tool does
		for (; n; n--) { hogl::record *x = r->pop_begin(); if (!x) { if (!q.empty()) en::fail("nothing to read in a ring of %zu records", q.size()); return; } if (q.empty()) en::fail("read from an empty ring"); is(x, q.front()); q.pop_front(); r->pop_commit(); }
	}
	void sweep(uint64_t n) { // as the engine does: look at everything there is, release the first n
		hogl::ringbuf::pop_iterator it(r); size_t k = 0; hogl::record *x, *last = 0;
		while ((x = it.next())) { if (k >= q.size()) en::fail("%zu records found in a ring of %zu", k + 1, q.size()); is(x, q[k]); if (k < n) last = x; k++; }
		if (k != q.size()) en::fail("%zu records found in a ring of %zu", k, q.size());
		if (last) { it.rewind(last); it.commit(); q.erase(q.begin(), q.begin() + (n < k ? n : k)); }
	}
};
uint64_t roundup(uint64_t n) { uint64_t c = 2; while (c < n) c *= 2; return c; } // one slot is reserved: at least two
}
EN_SCENARIO(ring) {
	static const unsigned caps[] = {2, 0, 1, 3, 4, 5, 7, 8, 9, 16, 17, 127, 128, 129, 255, 256, 257, 513, 1025}, tails[] = {40, 0, 128, 1000}; unsigned nc = en::param("caps", 19);
	unsigned c = caps[en::choose(nc, "capacity")], t = tails[en::choose(en::param("tails", 4), "tailroom")]; bool fmt = en::choose(2, "kind of record"); string ops = "capacity " + std::to_string(c) + ":";
	model m = {ring(c, t), roundup(c), 0, 0, 0, {}}; m.check("new ring"); EN_CHECK(m.r->capacity() == m.cap, "ring of capacity %u has capacity %u", c, m.r->capacity());
	for (int i = 0; i < en::param("len", 4); i++) {
		int op = en::choose(4, "post, take, sweep, reset"); uint64_t n = 0;
		if (op < 3) switch (en::choose(5, "how many")) { case 0: n = 1; break; case 1: n = m.cap / 2; break; case 2: n = m.cap - 1; break; case 3: n = m.cap; break; case 4: n = 2 * m.cap + 1; break; }
		ops += string(" ") + "PTSR"[op] + std::to_string(n); en::note(ops);
		if (op == 0) while (n--) m.post(fmt); else if (op == 1) m.take(n); else if (op == 2) m.sweep(n); else { m.r->reset(); m.q.clear(); m.seq = m.drops = 0; }
		m.check(ops.c_str());
	}
	m.take(m.q.size() + 1); m.check("after reading everything"); en::outcome(std::to_string(m.drops)); m.r->release();
}
// Rings whose records take up to 4 GiB and more
EN_SCENARIO(large) {
	static const struct { unsigned cap, tail; } S[] = {{65535, 40}, {65536, 40}, {65537, 40}, {1 << 20, 40}, {4096, (1 << 20) - 200}, {65536, 65000}, {8192, (1 << 20) - 100}}; auto &s = S[en::choose(en::param("sizes", 7), "size")];
	en::note("capacity " + std::to_string(s.cap) + " tailroom " + std::to_string(s.tail)); model m = {ring(s.cap, s.tail), roundup(s.cap), 0, 0, 0, {}}; m.check("new ring");
	EN_CHECK(m.r->record_tailroom() >= s.tail, "records of tailroom %u instead of %u", m.r->record_tailroom(), s.tail);
	for (int round = 0; round < 2; round++) { for (uint64_t i = 0; i < m.cap + 2; i++) m.post(round); m.check("full"); m.sweep(m.cap / 2); m.check("half"); for (int i = 0; i < 5; i++) m.post(1); m.check("more"); m.take(m.q.size() + 1); m.check("all read"); }
	en::outcome(std::to_string(m.drops)); m.r->release();
}
