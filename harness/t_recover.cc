// C19: the memory image at every crash point of small histories, read back by
// the recovery tool.
#include "eng.hpp"
#include "core.hpp"
#include "hogl/detail/output.hpp"
#include "tools/recovery-engine.hpp"
using namespace vt;
namespace {
enum { MAXW = 3, MAXR = 8 };
struct writer { hogl::ringbuf *ring; const char *ringname; unsigned w, n; volatile bool begun[MAXR], done[MAXR], dropped[MAXR]; uint64_t ts[MAXR]; bool shared; hogl::ringbuf *also; };
writer W[MAXW]; unsigned NW; hogl::area *A; hogl::engine *E;
void *write_records(void *p) {
	writer *w = (writer *) p;
	for (unsigned i = 0; i < w->n; i++) {
		uint64_t d0 = w->shared ? 0 : w->ring->dropcnt(); w->begun[i] = true; post(w->ring, A, w->w, i, w->ts[i]);
		if (!w->shared && w->ring->dropcnt() != d0) w->dropped[i] = true; else w->done[i] = true;
	}
	return 0;
}
struct reader : hogl::format { std::vector<rec> r; void process(hogl::ostrbuf &s, const data &d) {
	const hogl::record *q = d.record; rec x; x.ring = d.ring_name ? d.ring_name : "(null)"; x.area_name = q->area ? q->area->name() : "(null)"; x.internal = x.area_name == "SPECIAL"; x.sect = q->section; x.ts = q->timestamp; x.seq = q->seqnum; x.text = x.cstr = ""; x.a1 = x.a2 = 0;
	x.cstr = q->area ? q->area->section_name(q->section) : "";
	if (!x.internal) { x.text = argstr(q, 0); x.a1 = q->get_arg_val32(1); x.a2 = q->get_arg_val32(2); x.area_name += std::string(".") + x.cstr; x.cstr = q->get_arg_type(3) == hogl::arg::CSTR ? argstr(q, 3) : ""; }
	r.push_back(x); } };
struct image { std::vector<rec> recs; std::string text; };
// what the tool gets out of the memory of this process
void recover(image &im) {
	int fd = write_core(0, 0); char path[40]; snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
	int out = syscall(SYS_memfd_create, "out", 0); fflush(stdout); dup2(out, 1);
	{
		hogl::coredump core(path); reader f; 
		if (core.failed) { im.text = "core not loaded"; return; }
		hogl::recovery_engine re(core, f); re.dump_outbufs(); re.dump_records(); im.recs = f.r;
	}
	fflush(stdout); off_t n = lseek(out, 0, SEEK_END); im.text.resize(n); if (pread(out, &im.text[0], n, 0) != n) abort();
}
capture *F; sink *OUT; unsigned held[MAXW]; bool done[MAXW][MAXR], begun[MAXW][MAXR], dropped[MAXW][MAXR]; std::string written;
// the state at the crash: nothing else runs meanwhile
void freeze() { for (unsigned w = 0; w < NW; w++) { held[w] = W[w].ring->size(); for (unsigned i = 0; i < W[w].n; i++) { done[w][i] = W[w].done[i]; begun[w][i] = W[w].begun[i]; dropped[w][i] = W[w].dropped[i]; } } if (F) written = OUT->sb->written; }
void check(image &im) {
	std::string d; char b[200]; std::string live = written, buf = im.text; uint64_t prev = 0; int seen[MAXW][MAXR] = {}; std::map<std::string, unsigned> cnt;
	for (auto &r : im.recs) { snprintf(b, sizeof b, "%s:%lu.%lu@%lu ", r.ring.c_str(), (long) r.a1, (long) r.a2, (long) r.ts); d += r.internal ? "[special] " : b; }
	MC_CHECK(im.text != "core not loaded", "core not loaded");
	for (auto &r : im.recs) {
		cnt[r.ring]++; MC_CHECK(r.ts >= prev, "recovered records are not in time order: %s", d.c_str()); prev = r.ts;
		if (r.internal || r.ring == "other") continue;
		MC_CHECK(r.a1 < NW && r.a2 < W[r.a1].n && begun[r.a1][r.a2], "a record that was not posted was recovered: %s", d.c_str());
		writer &w = W[r.a1]; MC_CHECK(!dropped[r.a1][r.a2], "dropped record %lu.%lu was recovered", (long) r.a1, (long) r.a2); MC_CHECK(!seen[r.a1][r.a2]++, "recovered twice: %s", d.c_str());
		MC_CHECK(r.ring == w.ringname && r.area_name == ((r.a2 & 1) ? "AREA.B" : "AREA.A") && r.text == "fmt" && r.ts == w.ts[r.a2], "record %lu.%lu recovered as ring %s area %s text '%s' time %lu", (long) r.a1, (long) r.a2, r.ring.c_str(), r.area_name.c_str(), r.text.c_str(), (long) r.ts);
		if (r.a2 & 1) { snprintf(b, sizeof b, "<%lu:%lu>", (long) r.a1, (long) r.a2); MC_CHECK(r.cstr == b, "record %lu.%lu recovered with string '%s'", (long) r.a1, (long) r.a2, r.cstr.c_str()); }
	}
	for (unsigned w = 0; w < NW; w++) for (unsigned i = 0; i < W[w].n; i++) if (done[w][i]) {
		snprintf(b, sizeof b, "%u.%u\n", w, i); bool written = live.find(b) != std::string::npos, buffered = buf.find(b) != std::string::npos; 
		MC_CHECK(seen[w][i] || buffered || written, "record %u.%u is neither in the log nor recovered: %s log '%s' buffers '%s'", w, i, d.c_str(), live.c_str(), buf.c_str());
	}
	// only what the engine has not consumed
	for (unsigned w = 0; w < NW; w++) { unsigned n = held[w]; MC_CHECK(cnt[W[w].ringname] == n, "ring %s holds %u records, %u recovered: %s", W[w].ringname, n, cnt[W[w].ringname], d.c_str()); }
	mc::outcome(d + "|" + live + "|" + buf); mc::note("%.900s", d.c_str());
}
void *crash(void *) { static int here; mc::access(&here, true); static image im; mc::detach(); freeze(); recover(im); mc::attach(); check(im); mc::done(); }
void finish_with_crash(thr &c) { c.join(); }
}

// Writers against the engine; the process dies at every point.
MC_SCENARIO(crash) {
	bool tso = mc::param("tso", 1); NW = mc::param("writers", 1); unsigned n = mc::param("n", 2), cap = mc::param("cap", 4), eng = mc::param("engine", 1), shared = mc::param("shared", 0);
	unsigned flags = (mc::param("blocking", 0) ? hogl::ringbuf::BLOCKING : 0) | (shared ? hogl::ringbuf::SHARED : 0); static const char *names[] = {"R0", "R1", "R2"};
	unsigned pat = mc::choose(mc::param("patterns", 1), "timestamps"), skip = mc::choose(mc::param("skip", 0) + 1, "records posted before");
	if (eng) {
		F = new capture; OUT = new sink(*F, mc::param("obuf", 0)); E = new hogl::engine(*OUT, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64))); A = E->add_area("AREA", sections);
	} else A = new hogl::area("AREA", sections);
	A->enable();
	for (unsigned w = 0; w < NW; w++) {
		W[w].ringname = shared ? names[0] : names[w]; W[w].w = w; W[w].n = n; W[w].shared = shared; for (unsigned i = 0; i < n; i++) W[w].ts[i] = pat == 0 ? 1000 + 10 * w + i : pat == 1 ? 1000 : 1000 + 10 * i - w;
		W[w].ring = shared && w ? W[0].ring : eng ? E->add_ring(names[w], ropts(cap, flags)) : (new hogl::ringbuf(names[w], ropts(cap, flags)))->hold();
		if (!eng) for (unsigned i = 0; i < skip; i++) { cur_ts = 1; post(W[w].ring, A, 90, i, 1); W[w].ring->pop_commit(); }
		W[w].ring->timesource(&ts_tls);
		if (!shared || !w) mc::fine(W[w].ring, sizeof(hogl::ringbuf)); 
		hogl::record *q = W[w].ring->push_begin(); mc::fine((void *) ((uintptr_t) q & ~4095ul), W[w].ring->capacity() * W[w].ring->record_size());
	}
	thr c, t[MAXW]; c.start(crash, 0);
	for (unsigned w = 1; w < NW; w++) t[w].start(write_records, &W[w]);
	write_records(&W[0]);
	for (unsigned w = 1; w < NW; w++) t[w].join();
	if (mc::param("flush", 0)) E->add_ring("R3", ropts(4)); 
	c.join();
}

// Other objects come and go while records wait in a ring.
MC_SCENARIO(setup) {
	A = new hogl::area("AREA", sections); A->enable(); NW = 1; W[0].ringname = "R0"; W[0].w = 0; W[0].n = 3; int what = mc::param("what", 0);
	W[0].ring = (new hogl::ringbuf("R0", ropts(4)))->hold(); W[0].ring->timesource(&ts_tls); for (int i = 0; i < 3; i++) W[0].ts[i] = 1000 - i; write_records(&W[0]);
	thr c; c.start(crash, 0);
	mc::fine_heap();
	if (what == 0) { hogl::ringbuf *r = (new hogl::ringbuf("other", ropts(2)))->hold(); r->timesource(&ts_tls); cur_ts = 5; hogl::post(r, A, SEC_A, (uint32_t) 1); r->pop_commit(); r->release(); }
	if (what == 1) { hogl::area *a = new hogl::area("AREA2", sections); a->enable(); delete a; a = new hogl::area("AREA3"); delete a; }
	if (what == 2) { capture *f = new capture; sink *o = new sink(*f, 32); hogl::ostrbuf *b = o->get_ostrbuf(); b->push_back((const uint8_t *) "abc", 3); b->flush(); delete o; }
	if (what == 3) { W[0].ring->timesource(new hogl::timesource(ts_tls)); }
	c.join();
}
