// Engine scenarios: delivery, drop accounting, blocking, shared rings.
#include "eng.hpp"
using namespace vt;

namespace {
enum { MAXW = 4, MAXR = 6 };
struct writer {
	hogl::ringbuf *ring; const hogl::area *area; unsigned w, n; uint64_t ts0, tstep;
	bool must[MAXR]; bool dropped[MAXR]; const char *ringname; bool shared; unsigned pause;
};
writer W[MAXW];

void *write_records(void *p) {
	writer *w = (writer *) p;
	for (unsigned i = 0; i < w->n; i++) {
		if (w->pause && mc::choose(2, "pause before the post")) usleep(w->pause); // later passes of the engine see the record
		uint64_t d0 = w->shared ? 0 : w->ring->dropcnt();
		w->must[i] = w->ring->room() > 0 && !w->shared;
		post(w->ring, w->area, w->w, i, w->ts0 + i * w->tstep);
		w->dropped[i] = w->shared ? false : w->ring->dropcnt() != d0;
	}
	return 0;
}

// Delivery oracle for private rings (one writer per ring).
// tso: gaps must be announced by drop markers.
void check_delivery(capture &c, unsigned nw, bool tso, bool lossless) {
	std::string d = dump(c.recs);
	for (unsigned w = 0; w < nw; w++) {
		long next = 0; uint64_t marks = 0;
		for (size_t k = 0; k < c.recs.size(); k++) {
			const rec &r = c.recs[k];
			if (r.internal) {
				if (r.sect == hogl::internal::DROPMARK && r.ring == W[w].ringname) marks += r.n;
				continue;
			}
			if (r.a1 != w) continue;
			check_intact(r, W[w].area, W[w].ringname, W[w].ts0 + r.a2 * W[w].tstep);
			MC_CHECK((long) r.a2 >= next, "record (%u,%lu) delivered twice or out of order: %s", w, (long) r.a2, d.c_str());
			MC_CHECK(r.a2 < W[w].n, "record (%u,%lu) was never posted: %s", w, (long) r.a2, d.c_str());
			if (tso) MC_CHECK(marks == r.a2 - next, "writer %u: %lu record(s) missing before record %lu but markers report %lu: %s", w, (long) (r.a2 - next), (long) r.a2, (long) marks, d.c_str());
			for (long m = next; m < (long) r.a2; m++) {
				MC_CHECK(!W[w].must[m] && !lossless, "record (%u,%ld) lost although the ring had room: %s", w, m, d.c_str());
				MC_CHECK(W[w].dropped[m], "record (%u,%ld) lost but not counted as dropped: %s", w, m, d.c_str());
			}
			MC_CHECK(!W[w].dropped[r.a2], "record (%u,%lu) delivered but counted as dropped", w, (long) r.a2);
			next = r.a2 + 1; marks = 0;
		}
		MC_CHECK(marks == 0, "writer %u: drop marker with no missing record: %s", w, d.c_str());
		for (long m = next; m < (long) W[w].n; m++) {
			MC_CHECK(!W[w].must[m] && !lossless, "record (%u,%ld) lost although the ring had room: %s", w, m, d.c_str());
			MC_CHECK(W[w].dropped[m], "record (%u,%ld) lost but not counted as dropped: %s", w, m, d.c_str());
		}
	}
	size_t users = 0; for (size_t k = 0; k < c.recs.size(); k++) users += !c.recs[k].internal;
	mc::outcome(d); mc::note("%.900s", d.c_str());
}
}

// Private rings, one writer each.
MC_SCENARIO(deliver) {
	bool tso = mc::param("tso", 1); unsigned nw = mc::param("writers", 2), n = mc::param("n", 2), cap = mc::param("cap", 4);
	unsigned flags = mc::param("blocking", 0) ? hogl::ringbuf::BLOCKING : 0;
	capture f; sink out(f, mc::param("obuf", 0));
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	static const char *names[] = {"R0", "R1", "R2", "R3"};
	// Posts are ordered by their timestamps within a ring; the rings interleave.
	unsigned pat = mc::choose(mc::param("patterns", 1), "timestamp pattern");
	for (unsigned w = 0; w < nw; w++) {
		W[w].ring = e->add_ring(names[w], ropts(cap, flags)); W[w].area = a; W[w].w = w; W[w].n = n; W[w].ringname = names[w]; W[w].pause = mc::param("pause", 0);
		W[w].ts0 = pat == 2 ? 1000 : 1000 + 10 * w; W[w].tstep = pat == 0 ? 7 : pat == 1 ? (uint64_t) -3 : 0;
	}
	thr t[MAXW];
	for (unsigned w = 1; w < nw; w++) t[w].start(write_records, &W[w]);
	write_records(&W[0]);
	for (unsigned w = 1; w < nw; w++) t[w].join();
	for (unsigned w = 0; w < nw; w++) W[w].ring->release();
	delete e;
	check_delivery(f, nw, tso, flags);
}

// One ring used by several writers.
MC_SCENARIO(shared) {
	bool tso = mc::param("tso", 1); unsigned nw = mc::param("writers", 2), n = mc::param("n", 1), cap = mc::param("cap", 4);
	unsigned flags = hogl::ringbuf::SHARED | (mc::param("blocking", 0) ? hogl::ringbuf::BLOCKING : 0);
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	hogl::ringbuf *r = e->add_ring("R0", ropts(cap, flags));
	for (unsigned w = 0; w < nw; w++) { W[w].ring = r; W[w].area = a; W[w].w = w; W[w].n = n; W[w].ringname = "R0"; W[w].ts0 = 1000 + 10 * w; W[w].tstep = 1; W[w].shared = true; W[w].pause = mc::param("pause", 0); }
	thr t[MAXW];
	for (unsigned w = 1; w < nw; w++) t[w].start(write_records, &W[w]);
	write_records(&W[0]);
	for (unsigned w = 1; w < nw; w++) t[w].join();
	unsigned long drops = r->dropcnt(), seq = r->seqnum();
	r->release();
	delete e;
	std::string d = dump(f.recs); unsigned long got = 0, marks = 0; long next[MAXW] = {0, 0, 0}; uint64_t eseq = 0; 
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &x = f.recs[k];
		if (x.internal) { if (x.sect == hogl::internal::DROPMARK) marks += x.n; continue; }
		MC_CHECK(x.a1 < nw && x.a2 < n, "record (%lu,%lu) was never posted: %s", (long) x.a1, (long) x.a2, d.c_str());
		check_intact(x, a, "R0", W[x.a1].ts0 + x.a2);
		MC_CHECK((long) x.a2 >= next[x.a1], "record (%lu,%lu) delivered twice or out of order: %s", (long) x.a1, (long) x.a2, d.c_str());
		next[x.a1] = x.a2 + 1; got++;
		if (tso) { MC_CHECK(x.seq - eseq == marks, "%lu record(s) missing before (%lu,%lu) but markers report %lu: %s", (long) (x.seq - eseq), (long) x.a1, (long) x.a2, marks, d.c_str()); }
		eseq = x.seq + 1; marks = 0;
	}
	MC_CHECK(seq == nw * n, "%lu records posted but %lu sequence numbers used", (long) nw * n, seq);
	MC_CHECK(got + drops == nw * n, "%u records posted, %lu delivered, %lu counted as dropped: %s", nw * n, got, drops, d.c_str());
	if (flags & hogl::ringbuf::BLOCKING || nw * n < cap) MC_CHECK(drops == 0, "%lu record(s) lost although there was room", drops);
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

namespace {
hogl::ringbuf *gate_up(hogl::engine *e, hogl::area *a, capture &f) {
	hogl::ringbuf *g = e->add_ring("GATE", ropts(4, 0, 5000));
	post(g, a, GATE, 0, 1); f.g.wait_reached();
	return g;
}
}
// Every sequence of posts, flush requests and time source changes on a small ring; the
// engine is held in the output until the first request.
MC_SCENARIO(gaps) {
	bool tso = mc::param("tso", 1); unsigned n = mc::param("n", 5), cap = mc::param("cap", 2);
	static hogl::timesource alt("alt", [](const hogl::timesource *) -> hogl::timestamp { return cur_ts; });
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	hogl::ringbuf *r = e->add_ring("R0", ropts(cap)), *g = gate_up(e, a, f);
	bool held = true; std::vector<char> dropped; std::string ops; uint64_t drops = 0;
	for (unsigned i = 0; i < n; i++) {
		unsigned op = mc::choose(3, "post, flush or time source"); cur_ts = 1000 + 10 * i; ops += "PFT"[op];
		if (op && held) { f.g.release(); held = false; }
		if (op == 0) { uint64_t d0 = r->dropcnt(); post(r, a, 0, dropped.size(), 1000 + 10 * i); dropped.push_back(r->dropcnt() != d0); drops += dropped.back(); }
		else if (op == 1) MC_CHECK(hogl::flush(r, 10000000), "flush timed out although the engine is running");
		else MC_CHECK(hogl::change_timesource(r, i & 1 ? &alt : &ts_tls, 10000000), "time source change timed out although the engine is running");
	}
	if (held) f.g.release();
	MC_CHECK(r->dropcnt() == drops, "drop counter %lu after %lu drops", (long) r->dropcnt(), (long) drops);
	r->release(); g->release(); delete e;
	std::string d = ops + " " + dump(f.recs); size_t next = 0; uint64_t marks = 0;
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &x = f.recs[k];
		if (x.internal) { if (x.sect == hogl::internal::DROPMARK) { MC_CHECK(x.ring == "R0", "marker for ring %s: %s", x.ring.c_str(), d.c_str()); MC_CHECK(x.n > 0, "marker of no records: %s", d.c_str()); marks += x.n; } continue; }
		MC_CHECK(x.a2 >= next && x.a2 < dropped.size(), "record %lu delivered twice, out of order or never posted: %s", (long) x.a2, d.c_str());
		uint64_t miss = 0; for (; next < x.a2; next++) { MC_CHECK(dropped[next], "record %lu lost but not counted as dropped: %s", (long) next, d.c_str()); miss++; }
		MC_CHECK(!dropped[next], "record %lu delivered but counted as dropped: %s", (long) next, d.c_str()); next++;
		if (tso) MC_CHECK(marks == miss, "%lu record(s) missing before record %lu but markers report %lu: %s", (long) miss, (long) x.a2, (long) marks, d.c_str());
		marks = 0;
	}
	uint64_t miss = 0; for (; next < dropped.size(); next++) { MC_CHECK(dropped[next], "record %lu lost but not counted as dropped: %s", (long) next, d.c_str()); miss++; }
	MC_CHECK(marks <= miss, "%lu record(s) missing at the end but markers report %lu: %s", (long) miss, (long) marks, d.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

// A ring moves from one engine to the next: every sequence of posts, flush requests and moves to
// an engine with or without ordering.
MC_SCENARIO(move) {
	unsigned n = mc::param("n", 5), cap = mc::param("cap", 2); capture f; sink out(f, 0); hogl::area *a = new hogl::area("AREA", sections); a->enable();
	hogl::ringbuf *r = new hogl::ringbuf("R0", ropts(cap, hogl::ringbuf::IMMORTAL)); r->hold();
	bool tso = false; hogl::engine *e = 0; std::vector<char> dropped; std::string ops; size_t from = 0, next = 0; uint64_t carry = 0; bool exact = true;
	for (unsigned i = 0; i <= n; i++) {
		unsigned op = i == n ? 1 : mc::choose(4, "post, no engine, engine with ordering, engine without"); ops += "P0TN"[op]; cur_ts = 1000 + 10 * i;
		if (op == 0) { if (e && mc::choose(2, "flush before the post")) { MC_CHECK(hogl::flush(r, 10000000), "flush timed out although the engine is running"); ops += 'f'; } uint64_t d0 = r->dropcnt(); post(r, a, 0, dropped.size(), 1000 + 10 * i); dropped.push_back(r->dropcnt() != d0); }
		else {
			if (e) {
				r->release(); delete e; e = 0; r->hold(); MC_CHECK(r->empty() && r->refcnt() == 1, "ring has %u records and %d references after its engine is gone", r->size(), r->refcnt());
				std::string d = ops + " " + dump(f.recs); uint64_t marks = 0, miss;
				for (; from < f.recs.size(); from++) {
					const rec &x = f.recs[from];
					if (x.internal) { if (x.sect == hogl::internal::DROPMARK) { MC_CHECK(x.ring == "R0" && x.n > 0, "marker for ring %s of %lu records: %s", x.ring.c_str(), (long) x.n, d.c_str()); marks += x.n; } continue; }
					MC_CHECK(x.ring == "R0" && x.a2 >= next && x.a2 < dropped.size(), "record %lu delivered twice, out of order or never posted: %s", (long) x.a2, d.c_str());
					for (miss = 0; next < x.a2; next++) { MC_CHECK(dropped[next], "record %lu lost but not counted as dropped: %s", (long) next, d.c_str()); miss++; }
					MC_CHECK(!dropped[next], "record %lu delivered but counted as dropped: %s", (long) next, d.c_str()); next++;
					MC_CHECK(carry + marks <= miss && (!tso || !exact || carry + marks == miss), "%lu record(s) missing before record %lu but markers report %lu: %s", (long) miss, (long) x.a2, (long) (carry + marks), d.c_str());
					carry = marks = 0; exact = true;
				}
				carry += marks; miss = dropped.size() - next; for (size_t k = next; k < dropped.size(); k++) MC_CHECK(dropped[k], "record %lu lost but not counted as dropped: %s", (long) k, d.c_str());
				MC_CHECK(carry <= miss, "%lu record(s) missing at the end but markers report %lu: %s", (long) miss, (long) carry, d.c_str());
				if (!tso) exact = false; // may have passed over missing records without telling
			}
			if (op > 1) { tso = op == 2; e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64)); MC_CHECK(e->add_ring(r), "ring was refused"); }
		}
	}
	uint64_t drops = 0; for (char d : dropped) drops += d; MC_CHECK(r->dropcnt() == drops, "drop counter %lu after %lu drops", (long) r->dropcnt(), (long) drops);
	r->release(); MC_CHECK(mc::heap_live(r), "immortal ring was freed"); delete r; delete a; mc::outcome(ops); mc::note("%s", ops.c_str());
}

// Longer runs: bursts of any length into a ring held by the engine or not, with requests between.
MC_SCENARIO(bulk) {
	static const unsigned caps[] = {2, 4, 8, 16}, hcaps[] = {2, 256, 512, 1024}, hns[] = {1, 300, 5000, 66000}; bool tso = mc::param("tso", 1); unsigned huge = mc::param("huge", 0), cap = (huge ? hcaps : caps)[mc::choose(4, "capacity")], max = mc::param("max", 20);
	if (huge) mc::set_max_decisions(2000000);
	capture f; sink out(f, 0); f.recs.reserve(huge ? 4096 : 256);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)));
	hogl::area *a = e->add_area("AREA", sections); a->enable(); hogl::ringbuf *r = e->add_ring("R0", ropts(cap)), *g = e->add_ring("GATE", ropts(4, 0, 5000));
	uint64_t next = 0, drops = 0; std::vector<uint64_t> want; std::string ops;
	for (unsigned b = 0; b < 2; b++) {
		f.g.reached = f.g.open = false; post(g, a, GATE, 0, 1); f.g.wait_reached(); // the ring is empty, nothing is read until the gate opens
		unsigned n; if (huge) n = hns[mc::choose(huge, "burst")]; else { n = 5 * mc::choose(max / 5, "burst, fives"); n += mc::choose(5, "burst, ones"); } ops += std::to_string(n) + ' ';
		for (unsigned k = 0; k < n; k++) {
			bool fits = k < r->capacity() - 1; uint64_t d0 = r->dropcnt(); post(r, a, 0, next, 1000 + next); 
			MC_CHECK(r->dropcnt() - d0 == !fits, "post %u of a burst into a ring of %u: drop counter went from %lu to %lu", k, r->capacity(), (long) d0, (long) r->dropcnt());
			if (fits) want.push_back(next); else drops++; next++;
		}
		f.g.release(); cur_ts = 5000; MC_CHECK(hogl::flush(r, 10000000), "flush timed out although the engine is running"); MC_CHECK(r->empty() && r->room() == r->capacity() - 1, "ring is not empty after a flush");
	}
	MC_CHECK(r->seqnum() == next + 2, "%lu sequence numbers used for %lu posts and two requests", (long) r->seqnum(), (long) next);
	r->release(); g->release(); delete e; std::string d = ops + dump(f.recs).substr(0, 2000); size_t k = 0; uint64_t marks = 0, told = 0, prev = 0;
	for (auto &x : f.recs) {
		if (x.internal) { if (x.sect == hogl::internal::DROPMARK) { marks += x.n; told += x.n; } continue; }
		MC_CHECK(k < want.size() && x.a2 == want[k], "record %lu is not the next one accepted: %s", (long) x.a2, d.c_str()); k++; check_intact(x, a, "R0", 1000 + x.a2);
		if (tso) MC_CHECK(marks == x.a2 - prev, "%lu record(s) missing before record %lu but markers report %lu: %s", (long) (x.a2 - prev), (long) x.a2, (long) marks, d.c_str());
		prev = x.a2 + 1; marks = 0;
	}
	MC_CHECK(k == want.size(), "%zu of %zu accepted records delivered: %s", k, want.size(), d.c_str()); if (tso) MC_CHECK(told == drops, "%lu drops, markers report %lu: %s", (long) drops, (long) told, d.c_str());
	mc::outcome(ops); mc::note("%s", ops.c_str());
}

// ---------------------------------------------------------------- C05
// Timestamps to order: close together, and more than 2^31, 2^32 ns apart.
static uint64_t tsval(unsigned alpha, unsigned k) {
	static const uint64_t far_[] = {1000, 3000001000ull, 7000001000ull, 0x100001000ull}, epoch[] = {1700000000000000000ull, 1700000000000000000ull + (1ull << 32), 1700000000000000001ull + (1ull << 32), 1800000000000000000ull}, tight[] = {1000, 1001, 1002, 1003};
	switch (alpha) { case 1: return far_[k]; case 2: return epoch[k]; case 3: return tight[k]; }
	return 1000 * (1 + k);
}
// All records are posted while the engine is held in the output, then found together.
// Every timestamp pattern over `vals` values is enumerated.
MC_SCENARIO(order) {
	unsigned nr = mc::param("rings", 2), n = mc::param("n", 3), tc = mc::param("tsocap", 64), vals = mc::param("vals", 3), np = mc::param("prios", 1);
	bool tso = mc::param("tso", 1); unsigned alpha = mc::choose(mc::param("alphas", 1), "timestamp alphabet");
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, tc));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	static const char *names[] = {"R0", "R1", "R2"}; hogl::ringbuf *r[3]; unsigned prio[3]; uint64_t ts[3][MAXR], key[3][MAXR];
	for (unsigned w = 0; w < nr; w++) { prio[w] = np > 1 ? 10 * mc::choose(np, "ring priority") : 0; r[w] = e->add_ring(names[w], ropts(8, 0, prio[w])); }
	hogl::ringbuf *g = gate_up(e, a, f);
	for (unsigned w = 0; w < nr; w++) for (unsigned i = 0; i < n; i++) {
		ts[w][i] = tsval(alpha, mc::choose(vals, "timestamp"));
		key[w][i] = i && key[w][i - 1] > ts[w][i] ? key[w][i - 1] : ts[w][i];
		post(r[w], a, w, i, ts[w][i]);
	}
	f.g.release();
	for (unsigned w = 0; w < nr; w++) r[w]->release();
	g->release();
	delete e;
	std::string d = dump(f.recs); unsigned N = nr * n, seen = 0; long next[3] = {0, 0, 0}; bool mark = false; uint64_t maxkey = 0; bool maxmark = true; unsigned maxw = 0; unsigned lastp = ~0u;
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &x = f.recs[k];
		if (x.internal) {
			if (x.sect == hogl::internal::TSOFULLMARK) { MC_CHECK(N >= tc, "ordering buffer of %u reported full with %u records: %s", tc, N, d.c_str()); mark = true; }
			continue;
		}
		unsigned w = x.a1; MC_CHECK(w < nr && x.a2 < n, "unknown record: %s", d.c_str());
		check_intact(x, a, names[w], ts[w][x.a2]);
		MC_CHECK((long) x.a2 == next[w], "records of ring %u out of order or lost: %s", w, d.c_str());
		next[w]++; seen++;
		if (tso) {
			uint64_t kk = key[w][x.a2];
			// disorder: an earlier output record of another ring is newer
			if (kk < maxkey) MC_CHECK(N >= tc && maxmark, "record (%u,%lu) output after a newer record of ring %u%s: %s", w, (long) x.a2, maxw, N >= tc ? " and no marker before it" : "", d.c_str());
			if (kk > maxkey) { maxkey = kk; maxw = w; maxmark = mark; }
		} else {
			MC_CHECK(prio[w] <= lastp, "ring %u with priority %u served after priority %u: %s", w, prio[w], lastp, d.c_str());
			lastp = prio[w];
		}
	}
	MC_CHECK(seen == N, "%u of %u records delivered: %s", seen, N, d.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

// As above with many records: every combination of timestamp series and numbers of records.
namespace {
uint64_t series(unsigned kind, unsigned i) {
	switch (kind) {
	case 0: return 1000; // all equal
	case 1: return 1000 + i; // increasing
	case 2: return 2000 - i; // decreasing
	case 3: return 1000 + (i & 1); // alternating
	case 4: return 1000 + i / 3 * 2; // steps
	case 5: return 1000 + i % 3 + i / 5; // saw teeth
	case 6: return 1000 + (i * 7 + 3) % 11; // scattered
	}
	return 1000 + 4 * i;
}
}
MC_SCENARIO(orderbig) {
	static const unsigned ns[] = {24, 17, 9, 3}, tcs[] = {128, 32, 20}; unsigned nr = mc::param("rings", 2), tc = tcs[mc::choose(3, "ordering buffer")], N = 0, n[3], kind[3];
	for (unsigned w = 0; w < nr; w++) { kind[w] = mc::choose(8, "series"); n[w] = ns[mc::choose(4, "records")]; N += n[w]; }
	capture f; f.recs.reserve(256); sink out(f, 0); hogl::engine *e = new hogl::engine(out, eopts(0, tc)); hogl::area *a = e->add_area("AREA", sections); a->enable();
	static const char *names[] = {"R0", "R1", "R2"}; hogl::ringbuf *r[3]; uint64_t key[3][24]; for (unsigned w = 0; w < nr; w++) r[w] = e->add_ring(names[w], ropts(32, 0, 10 * w));
	hogl::ringbuf *g = gate_up(e, a, f);
	for (unsigned w = 0; w < nr; w++) for (unsigned i = 0; i < n[w]; i++) { uint64_t t = series(kind[w], i); key[w][i] = i && key[w][i - 1] > t ? key[w][i - 1] : t; post(r[w], a, w, i, t); }
	f.g.release(); for (unsigned w = 0; w < nr; w++) r[w]->release(); g->release(); delete e;
	std::string d = dump(f.recs).substr(0, 1500); unsigned seen = 0, next[3] = {0, 0, 0}; bool mark = false, maxmark = true; uint64_t maxkey = 0;
	for (auto &x : f.recs) {
		if (x.internal) { MC_CHECK(x.sect == hogl::internal::TSOFULLMARK && N >= tc, "unexpected marker: %s", d.c_str()); mark = true; continue; }
		unsigned w = x.a1; check_intact(x, a, names[w], series(kind[w], x.a2)); MC_CHECK(x.a2 == next[w], "record (%u,%lu) instead of (%u,%u): %s", w, (long) x.a2, w, next[w], d.c_str()); next[w]++; seen++;
		uint64_t kk = key[w][x.a2]; if (kk < maxkey) MC_CHECK(N >= tc && maxmark, "record (%u,%lu) output after a newer one: %s", w, (long) x.a2, d.c_str()); if (kk > maxkey) { maxkey = kk; maxmark = mark; }
	}
	MC_CHECK(seen == N, "%u of %u records delivered: %s", seen, N, d.c_str()); mc::outcome(std::to_string(kind[0]) + std::to_string(n[0]));
}

// Many rings at once: every combination of the number of rings, clocks, priorities and records per ring.
MC_SCENARIO(manyrings) {
	static const unsigned counts[] = {40, 129, 255, 256, 257, 300}; bool tso = mc::param("tso", 1); unsigned per = 1 + mc::choose(2, "records per ring"), nr = counts[mc::choose(mc::param("sizes", 6), "rings")], clock = mc::choose(3, "clocks equal, rising, falling"), prios = mc::choose(3, "priorities equal, rising, falling");
	capture f; f.recs.reserve(1024); sink out(f, 0); hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 1024)); hogl::area *a = e->add_area("AREA", sections); a->enable();
	std::vector<hogl::ringbuf *> r(nr); char nm[16]; std::vector<unsigned> next(nr);
	for (unsigned w = 0; w < nr; w++) { snprintf(nm, sizeof nm, "R%03u", w); r[w] = e->add_ring(nm, ropts(4, 0, prios == 0 ? 7 : prios == 1 ? w : nr - w)); MC_CHECK(r[w], "ring %u was refused", w); }
	hogl::ringbuf *g = gate_up(e, a, f);
	for (unsigned i = 0; i < per; i++) for (unsigned w = 0; w < nr; w++) post(r[w], a, w, i, clock == 0 ? 1000 : clock == 1 ? 1000 + w : 2000 - w);
	f.g.release(); for (unsigned w = 0; w < nr; w++) r[w]->release(); g->release(); delete e;
	unsigned seen = 0, last = ~0u; uint64_t lastts = 0;
	for (auto &x : f.recs) {
		if (x.internal) mc::fail("unexpected marker %u", x.sect);
		unsigned w = x.a1; MC_CHECK(w < nr, "record of ring %u", w); snprintf(nm, sizeof nm, "R%03u", w); uint64_t t = clock == 0 ? 1000 : clock == 1 ? 1000 + w : 2000 - w; check_intact(x, a, nm, t);
		MC_CHECK(x.a2 == next[w], "record (%u,%lu) instead of (%u,%u)", w, (long) x.a2, w, next[w]); next[w]++; seen++;
		if (tso) { MC_CHECK(t >= lastts, "record (%u,%lu) output after a newer one", w, (long) x.a2); lastts = t; }
		else if (prios) { unsigned p = prios == 1 ? w : nr - w; MC_CHECK(p <= last, "ring %u with priority %u served after priority %u", w, p, last); last = p; }
	}
	MC_CHECK(seen == nr * per, "%u of %u records delivered", seen, nr * per); mc::outcome(std::to_string(nr) + "/" + std::to_string(per));
}

// Threads post with a strictly increasing common clock while the engine runs.
// All records together fit into one eighth of the ordering buffer.
namespace {
struct lw { hogl::ringbuf *ring; const hogl::area *a; unsigned w, n; };
struct lrec { uint64_t start, end; } L[3][MAXR];
volatile uint64_t lseq;
void *live_writer(void *p) {
	lw *w = (lw *) p;
	for (unsigned i = 0; i < w->n; i++) {
		L[w->w][i].start = __sync_add_and_fetch(&lseq, 1);
		if (i & 1) { hogl::post(w->ring, w->a, SEC_B, hogl::arg_gstr("fmt"), (uint32_t) w->w, (uint32_t) i, (const char *) "x"); }
		else hogl::post(w->ring, w->a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) w->w, (uint32_t) i);
		L[w->w][i].end = __sync_add_and_fetch(&lseq, 1);
	}
	return 0;
}
}
MC_SCENARIO(orderlive) {
	unsigned nr = mc::param("rings", 2), n = mc::param("n", 2), tc = mc::param("tsocap", 32);
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(0, tc, &ts_clock));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	static const char *names[] = {"R0", "R1", "R2"}; lw w[3]; thr t[3];
	for (unsigned i = 0; i < nr; i++) { w[i].ring = e->add_ring(names[i], ropts(8)); w[i].a = a; w[i].w = i; w[i].n = n; }
	for (unsigned i = 1; i < nr; i++) t[i].start(live_writer, &w[i]);
	live_writer(&w[0]);
	for (unsigned i = 1; i < nr; i++) t[i].join();
	for (unsigned i = 0; i < nr; i++) w[i].ring->release();
	delete e;
	std::string d = dump(f.recs); unsigned seen = 0;
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &x = f.recs[k]; if (x.internal) continue;
		seen++;
		for (size_t j = 0; j < k; j++) {
			const rec &y = f.recs[j]; if (y.internal) continue;
			// y was output before x although x was completely posted before y was started
			MC_CHECK(!(x.ts < y.ts && L[x.a1][x.a2].end < L[y.a1][y.a2].start), "record (%lu,%lu) posted before (%lu,%lu) but output after it: %s", (long) x.a1, (long) x.a2, (long) y.a1, (long) y.a2, d.c_str());
			MC_CHECK(!(x.a1 == y.a1 && x.a2 <= y.a2), "records of one ring out of order: %s", d.c_str());
		}
	}
	MC_CHECK(seen == nr * n, "%u of %u records delivered: %s", seen, nr * n, d.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

// ---------------------------------------------------------------- C06
namespace {
struct fl { hogl::ringbuf *ring; const hogl::area *a; unsigned w, n; sink *out; bool ok; bool viatls; hogl::engine *e; };
__attribute__((no_sanitize("thread"))) bool written(sink *o, unsigned w, unsigned i) {
	char b[32]; snprintf(b, sizeof b, "%u.%u\n", w, i); return memmem(o->sb->written.data(), o->sb->nwritten, b, strlen(b)) != 0;
}
void *flusher(void *p) {
	fl *x = (fl *) p;
	for (unsigned i = 0; i < x->n; i++) post(x->ring, x->a, x->w, i, 1000 + 10 * x->w + i);
	cur_ts = 2000 + x->w;
	x->ok = hogl::flush(x->ring, 10000000);
	if (x->ok) for (unsigned i = 0; i < x->n; i++) MC_CHECK(written(x->out, x->w, i), "flush returned true but record (%u,%u) is not written yet", x->w, i);
	return 0;
}
void *flush_other(void *p) { fl *x = (fl *) p; for (unsigned i = 0; i < x->n; i++) post(x->ring, x->a, x->w, i, 1500 + i); return 0; }
}
// One or two flushing threads and the engine; buffered output.
MC_SCENARIO(flush) {
	unsigned nf = mc::param("flushers", 1), n = mc::param("n", 2), no = mc::param("others", 1); bool tso = mc::param("tso", 1), shared = mc::param("shared", 0);
	capture f; sink out(f, mc::param("obuf", 512));
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	static const char *names[] = {"R0", "R1", "R2"}; fl x[3]; thr t[3]; hogl::ringbuf *r[3]; unsigned nt = nf + no;
	for (unsigned i = 0; i < nt; i++) {
		r[i] = shared && i ? r[0]->hold() : e->add_ring(names[i], ropts(8, shared ? hogl::ringbuf::SHARED : 0));
		x[i].ring = r[i]; x[i].a = a; x[i].w = i; x[i].n = n; x[i].out = &out; x[i].ok = true; x[i].e = e;
	}
	for (unsigned i = 1; i < nt; i++) t[i].start(i < nf ? flusher : flush_other, &x[i]);
	flusher(&x[0]);
	for (unsigned i = 1; i < nt; i++) t[i].join();
	for (unsigned i = 0; i < nt; i++) r[i]->release();
	delete e;
	for (unsigned i = 0; i < nf; i++) MC_CHECK(x[i].ok, "flush timed out although the engine is running");
	std::string d = dump(f.recs); long next[3] = {0, 0, 0};
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &y = f.recs[k]; if (y.internal) { MC_CHECK(y.sect != hogl::internal::DROPMARK, "nothing was lost, but: %s", d.c_str()); continue; }
		MC_CHECK((long) y.a2 == next[y.a1], "record lost, duplicated or reordered: %s", d.c_str()); next[y.a1]++;
	}
	for (unsigned i = 0; i < nt; i++) { MC_CHECK(next[i] == (long) n, "record lost: %s", d.c_str()); for (unsigned k = 0; k < n; k++) MC_CHECK(written(&out, i, k), "record (%u,%u) not written", i, k); }
	mc::outcome(d); mc::note("%.900s", d.c_str());
}
// Requests that time out: the engine is stuck in the output, the ring partly or completely full.
MC_SCENARIO(flushto) {
	bool tso = mc::param("tso", 1), tsrc = mc::param("tsrc", 0); static const unsigned tos[] = {1, 500, 1000, 3500, 20000};
	capture f; sink out(f, 512);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	hogl::ringbuf *r = e->add_ring("R0", ropts(4, mc::param("shared", 0) ? hogl::ringbuf::SHARED : 0)), *g = gate_up(e, a, f);
	unsigned n = mc::choose(4, "records before"), reps = 1 + mc::choose(2, "requests"), after = mc::choose(2, "records after"); bool full = n == 3;
	for (unsigned i = 0; i < n; i++) post(r, a, 0, i, 1000 + i);
	static hogl::timesource other("other", [](const hogl::timesource *) -> hogl::timestamp { return 4242; });
	for (unsigned k = 0; k < reps && n + k < 4; k++) {
		unsigned to = tos[mc::choose(5, "timeout")]; cur_ts = 1100 + k;
		uint64_t t0 = mc::now_ns(); bool ok = tsrc ? hogl::change_timesource(r, &other, to) : hogl::flush(r, to);
		uint64_t us = (mc::now_ns() - t0) / 1000;
		MC_CHECK(!ok, "%s returned true although the engine is stuck", tsrc ? "time source change" : "flush");
		MC_CHECK(us <= to + 1000, "request with a timeout of %u us took %lu us", to, (long) us);
		full = full || n + k + 1 == 3;
	}
	// the request itself may occupy a slot; post one more record if there surely is room
	unsigned total = n;
	f.g.release();
	if (after) { cur_ts = 1190; bool ok = hogl::flush(r, 10000000); MC_CHECK(ok, "flush timed out although the engine is running"); post(r, a, 0, total++, 1200); }
	unsigned long drops = r->dropcnt();
	r->release(); g->release();
	delete e;
	MC_CHECK(drops == 0, "%lu record(s) dropped", drops);
	std::string d = dump(f.recs); long next = 0;
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &y = f.recs[k];
		if (y.internal) { MC_CHECK(y.sect != hogl::internal::DROPMARK, "nothing was dropped, but: %s", d.c_str()); continue; }
		MC_CHECK((long) y.a2 == next, "record lost, duplicated or reordered: %s", d.c_str()); next++;
	}
	MC_CHECK(next == (long) total, "%ld of %u records delivered: %s", next, total, d.c_str());
	mc::outcome(d); mc::note("n=%u %.900s", n, d.c_str());
}
// The time of a request is limited as a whole: the ring is full for part of it, and then the engine
// stops processing before the request is acknowledged.
namespace {
struct two_gates : capture {
	gate g2; hogl::ringbuf *h; const hogl::area *a; bool posted;
	two_gates() : h(0), a(0), posted(false) {}
	void process(hogl::ostrbuf &s, const data &d) {
		bool u = strcmp(d.record->area->name(), "HOGL") != 0; uint32_t w = u ? d.record->get_arg_val32(1) : 0;
		if (w == 98) { g2.engine_side(); return; }
		capture::process(s, d);
		if (u && w == 0 && !posted) { posted = true; post(h, a, 98, 0, 1900); } // holds the engine in one of the next passes
	}
};
struct opener { gate *g; unsigned us; };
void *open_later(void *p) { opener *o = (opener *) p; usleep(o->us); o->g->release(); return 0; }
}
MC_SCENARIO(flushslow) {
	bool tso = mc::param("tso", 1), tsrc = mc::param("tsrc", 0); static const unsigned tos[] = {1500, 2500, 5000, 20000}, part[] = {1, 2, 3};
	static hogl::timesource other("other", [](const hogl::timesource *) -> hogl::timestamp { return 4242; });
	two_gates f; sink out(f, 512);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	bool before = mc::choose(2, "holding ring registered before");
	hogl::ringbuf *h = before ? e->add_ring("HOLD", ropts(4)) : 0, *r = e->add_ring("R0", ropts(4)), *g = gate_up(e, a, f);
	if (!before) h = e->add_ring("HOLD", ropts(4));
	f.h = h; f.a = a;
	unsigned to = tos[mc::choose(4, "timeout")]; opener o = {&f.g, to * part[mc::choose(3, "part of the timeout spent waiting for room")] / 4};
	unsigned n = 0; while (r->room()) { post(r, a, 0, n, 1000 + n); n++; }
	thr t; t.start(open_later, &o); cur_ts = 2000;
	uint64_t t0 = mc::now_ns(); bool ok = tsrc ? hogl::change_timesource(r, &other, to) : hogl::flush(r, to); uint64_t us = (mc::now_ns() - t0) / 1000;
	MC_CHECK(us <= to + 1000, "request with a timeout of %u us took %lu us", to, (long) us);
	if (ok) for (unsigned k = 0; k < n && !tsrc; k++) MC_CHECK(written(&out, 0, k), "flush returned but record %u was not written", k);
	t.join(); f.g2.release(); cur_ts = 2100; MC_CHECK(hogl::flush(r, 10000000), "flush timed out although the engine is running");
	r->release(); h->release(); g->release(); delete e;
	std::string d = dump(f.recs); unsigned next = 0;
	for (size_t k = 0; k < f.recs.size(); k++) { const rec &y = f.recs[k]; if (y.internal && tsrc) continue; MC_CHECK(!y.internal, "nothing was dropped, but: %s", d.c_str()); MC_CHECK(y.a2 == next, "record lost, duplicated or reordered: %s", d.c_str()); next++; }
	MC_CHECK(next == n, "%u of %u records delivered: %s", next, n, d.c_str());
	mc::outcome(d); mc::note("ok=%d %.900s", (int) ok, d.c_str());
}

// ---------------------------------------------------------------- C11
namespace {
hogl::timestamp tsA_cb(const hogl::timesource *) { return 1000; }
hogl::timestamp tsB_cb(const hogl::timesource *) { return 2000; }
hogl::timestamp tsC_cb(const hogl::timesource *) { return 3000; }
hogl::timesource tsA("A", tsA_cb), tsB("B", tsB_cb), tsC("C", tsC_cb);
volatile int confirmed; // the change to B was confirmed
struct tx { hogl::engine *e; hogl::ringbuf *ring; const hogl::area *a; unsigned w; bool after[MAXR]; bool own; };
void tpost(tx *x, unsigned i) { x->after[i] = confirmed; if (i & 1) hogl::post(x->ring, x->a, SEC_B, hogl::arg_gstr("fmt"), (uint32_t) x->w, (uint32_t) i, (const char *) "x"); else hogl::post(x->ring, x->a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) x->w, (uint32_t) i); }
void *treg(void *p) { // registers a new ring and posts to it
	tx *x = (tx *) p; x->ring = x->e->add_ring(x->w == 1 ? "N1" : "N2", ropts(8)); MC_CHECK(x->ring, "registration failed");
	tpost(x, 0); return 0;
}
void *treg2(void *p) { // registers a ring made by the caller
	tx *x = (tx *) p; x->ring = new hogl::ringbuf(x->w == 1 ? "N1" : "N2", ropts(8)); x->ring->hold(); MC_CHECK(x->e->add_ring(x->ring), "registration failed");
	tpost(x, 0); return 0;
}
void *treuse(void *p) { // releases its ring and becomes the next owner of it
	tx *x = (tx *) p; x->ring->release(); usleep(mc::param("late", 50)); x->ring = x->e->add_ring(x->w == 1 ? "N1" : "N2", ropts(8, hogl::ringbuf::REUSABLE)); MC_CHECK(x->ring, "registration failed");
	tpost(x, 0); return 0;
}
void *tpost2(void *p) { tx *x = (tx *) p; tpost(x, 0); tpost(x, 1); return 0; }
}
// change: 1 change to B by the main thread; other threads register rings and post.
MC_SCENARIO(tsrc) {
	bool tso = mc::param("tso", 1); int kind = mc::param("kind", 0);
	confirmed = 0;
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64, &tsA));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	tx x[3]; thr t[3]; unsigned nt = mc::param("threads", 2);
	for (unsigned w = 0; w < nt; w++) { x[w].e = e; x[w].a = a; x[w].w = w; x[w].ring = 0; for (int i = 0; i < MAXR; i++) x[w].after[i] = false; }
	x[0].ring = e->add_ring("R0", ropts(8));
	if (kind == 2) for (unsigned w = 1; w < nt; w++) x[w].ring = e->add_ring(w == 1 ? "N1" : "N2", ropts(8));
	if (kind == 3) for (unsigned w = 1; w < nt; w++) x[w].ring = e->add_ring(w == 1 ? "N1" : "N2", ropts(8, hogl::ringbuf::REUSABLE));
	for (unsigned w = 1; w < nt; w++) t[w].start(kind == 3 ? treuse : kind == 0 ? treg : kind == 1 ? treg2 : tpost2, &x[w]);
	tpost(&x[0], 0);
	MC_CHECK(hogl::change_timesource(x[0].ring, &tsB, 10000000), "time source change timed out although the engine is running");
	confirmed = 1;
	tpost(&x[0], 1);
	hogl::ringbuf *late = e->add_ring("LATE", ropts(4)); MC_CHECK(late->timesource() == &tsB, "ring registered after the change uses time source %s", late->timesource()->name()); late->release();
	for (unsigned w = 1; w < nt; w++) t[w].join();
	for (unsigned w = 0; w < nt; w++) {
		hogl::ringbuf *r = x[w].ring;
		MC_CHECK(r->timesource() == &tsB, "after the change was confirmed ring %s uses time source %s", r->name(), r->timesource()->name());
		r->release();
	}
	delete e;
	std::string d = dump(f.recs); long next[3] = {0, 0, 0};
	for (size_t k = 0; k < f.recs.size(); k++) {
		const rec &y = f.recs[k];
		if (y.internal) { MC_CHECK(y.sect != hogl::internal::DROPMARK, "nothing was dropped, but: %s", d.c_str()); continue; }
		MC_CHECK(y.ts == 1000 || y.ts == 2000, "record (%lu,%lu) carries a timestamp of no requested time source: %lu", (long) y.a1, (long) y.a2, (long) y.ts);
		MC_CHECK(!(x[y.a1].after[y.a2] && y.ts != 2000), "record (%lu,%lu) posted after the confirmed change carries an old timestamp: %s", (long) y.a1, (long) y.a2, d.c_str());
		MC_CHECK((long) y.a2 == next[y.a1], "record lost, duplicated or reordered: %s", d.c_str()); next[y.a1]++;
	}
	for (unsigned w = 0; w < nt; w++) MC_CHECK(next[w] == (w == 0 || kind == 2 ? 2 : 1), "record lost: %s", d.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}
// Two threads change the time source; afterwards all rings agree on one of them.
namespace {
struct cx { hogl::ringbuf *r; hogl::timesource *ts; };
void *changer(void *p) { cx *x = (cx *) p; MC_CHECK(hogl::change_timesource(x->r, x->ts, 10000000), "time source change timed out although the engine is running"); return 0; }
}
MC_SCENARIO(tsrc2) {
	capture f; sink out(f, 0);
	hogl::engine *e = new hogl::engine(out, eopts(mc::param("tso", 1) ? 0 : hogl::engine::DISABLE_TSO, 64, &tsA));
	hogl::ringbuf *r0 = e->add_ring("R0", ropts(4)), *r1 = e->add_ring("R1", ropts(4));
	cx c0 = {r0, &tsB}, c1 = {r1, &tsC}; thr t; t.start(changer, &c1); changer(&c0); t.join();
	hogl::ringbuf *r2 = e->add_ring("R2", ropts(4));
	hogl::timesource *s = r0->timesource();
	MC_CHECK(s == &tsB || s == &tsC, "time source %s after two changes", s->name());
	MC_CHECK(r1->timesource() == s && r2->timesource() == s, "rings use different time sources: %s %s %s", s->name(), r1->timesource()->name(), r2->timesource()->name());
	mc::outcome(s->name());
	r0->release(); r1->release(); r2->release(); delete e;
}

// ---------------------------------------------------------------- C24
namespace {
volatile bool steady;
struct quiet_fmt : hogl::format { // does not allocate
	unsigned n, drops; quiet_fmt() : n(0), drops(0) {}
	void process(hogl::ostrbuf &s, const data &d) {
		mc::guard(0); if (!strcmp(d.record->area->name(), "HOGL")) { if (d.record->section == hogl::internal::DROPMARK) drops += d.record->get_arg_val64(1); } else n++; s.push_back("x\n", 2);
		mc::guard(1, "processing records"); if (!steady) mc::guard(0);
	}
};
struct qx { hogl::engine *e; hogl::ringbuf *ring; hogl::area *a; unsigned w, n; int bg; };
// The ways to post; accepted, dropped or filtered out
void qpost(qx *q, unsigned i) {
	static const char big[] = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"; 
	const char *s = big; hogl::arg_xdump xd(big, 40); hogl::arg_raw raw(big, sizeof big); cur_ts = 1000 + 10 * i; static std::string str(big, 50);
	mc::guard(3, "posting");
	switch (i % 6) {
	case 0: hogl::post(q->ring, q->a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) 1, (uint64_t) 2, 2.5, (void *) q, s); break;
	case 1: hogl::post(q->ring, q->a, SEC_A, "%s %s", s, xd, raw, str); break;
	case 2: hogl::post(q->ring, q->a, SEC_OFF, "%s", s, 5); break;
	case 3: hogl::post(q->ring, q->a, SEC_B, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, s, "end"); break;
	case 4: hogl::post_unlocked(q->ring, q->a, SEC_B, "%d", 1, xd); break;
	case 5: hogl::post(q->ring, q->a, SEC_B, "x"); break;
	}
	mc::guard(0);
}
void *qwriter(void *p) { qx *q = (qx *) p; for (unsigned i = 0; i < q->n; i++) qpost(q, i + q->w); return 0; }
void *qother(void *p) {
	qx *q = (qx *) p; hogl::engine *e = q->e;
	switch (q->bg) {
	case 1: cur_ts = 1; hogl::post(q->ring, q->a, SEC_A, "y"); MC_CHECK(hogl::flush(q->ring, 10000000), "flush failed"); break;
	case 2: MC_CHECK(hogl::change_timesource(q->ring, &ts_clock, 10000000), "change failed"); break;
	case 3: { hogl::string_list l; e->list_rings(l); l.clear(); e->list_areas(l); hogl::ringbuf *r = e->find_ring("R0"); if (r) r->release(); break; }
	case 4: e->apply_mask(hogl::mask("AREA:A", "!AREA:B", 0)); break;
	case 6: q->ring->release(); delete e; break; // goes on until the posting threads are done
	case 5: { hogl::ringbuf *r = e->add_ring("N", ropts(4)); e->add_area("NEW", sections); r->release(); break; }
	}
	return 0;
}
}
// Posting threads and the engine neither allocate memory nor, when posting, lock or wait.
MC_SCENARIO(quiet) {
	bool tso = mc::param("tso", 1); unsigned nw = mc::param("writers", 1), n = mc::param("n", 4), cap = mc::param("cap", 2); int bg = mc::param("bg", 0);
	quiet_fmt *f = new quiet_fmt; sink *out = new sink(*f, mc::param("obuf", 0)); steady = false;
	hogl::engine *e = new hogl::engine(*out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64))); hogl::area *a = e->add_area("AREA", sections); a->enable(); a->reset(SEC_OFF);
	static qx q[3]; thr t[3]; for (unsigned w = 0; w < nw; w++) { qx x = {e, e->add_ring(w ? "R1" : "R0", ropts(cap, 0, 0, 160)), a, (unsigned) mc::choose(mc::param("first", 6), "first post"), n, 0}; q[w] = x; }
	qx o = {e, e->add_ring("OTHER", ropts(4)), a, 0, 0, bg}; hogl::post(o.ring, a, SEC_A, "first"); MC_CHECK(hogl::flush(o.ring, 10000000), "flush failed");
	// everything is registered now; the guard of the engine thread comes with its next record
	steady = bg < 5; thr c; if (bg) c.start(qother, &o); for (unsigned w = 1; w < nw; w++) t[w].start(qwriter, &q[w]);
	qwriter(&q[0]);
	for (unsigned w = 1; w < nw; w++) t[w].join(); if (bg == 6) for (unsigned w = 0; w < nw; w++) q[w].ring->release(); if (bg) c.join();
	if (bg == 6) { mc::outcome(std::to_string(f->n)); return; }
	for (unsigned w = 0; w < nw; w++) MC_CHECK(hogl::flush(q[w].ring, 10000000), "flush failed");
	steady = false; mc::guards_off(); std::string d = std::to_string(f->n) + " drops " + std::to_string(f->drops);
	for (unsigned w = 0; w < nw; w++) q[w].ring->release(); o.ring->release(); delete e; mc::outcome(d); mc::note("%s", d.c_str());
}
