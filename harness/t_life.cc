// Lifetime scenarios: ring registry, shutdown, default engine, areas and masks, thread contexts.
#include "eng.hpp"
#include <sstream>
#include <stdexcept>
#include <new>
#include <algorithm>
using namespace vt;

namespace {
volatile int holders, owners; hogl::ringbuf *volatile curptr;
int inc(volatile int *p) { return __sync_add_and_fetch(p, 1); }
int dec(volatile int *p) { return __sync_sub_and_fetch(p, 1); }
enum { MAXP = 16 };
volatile int nposted; // record ids
std::vector<hogl::ringbuf *> *allrings;

struct ctx { hogl::engine *e; const hogl::area *a; unsigned w, flags; int ops; hogl::ringbuf *ring; unsigned n; };

bool delivered_once(capture &f, int id, std::string &d) {
	int c = 0; for (size_t k = 0; k < f.recs.size(); k++) if (!f.recs[k].internal && (int) f.recs[k].a1 == id) c++;
	MC_CHECK(c <= 1, "record %d delivered %d times: %s", id, c, d.c_str()); return c == 1;
}
void post_id(hogl::ringbuf *r, const hogl::area *a) { int id = inc(&nposted) - 1; post(r, a, id, 0, 1000); }

void check_all(capture &f) {
	std::string d = dump(f.recs);
	for (int i = 0; i < nposted; i++) MC_CHECK(delivered_once(f, i, d), "record %d posted to a registered ring but never delivered: %s", i, d.c_str());
	for (size_t k = 0; k < f.recs.size(); k++) MC_CHECK(!f.recs[k].internal || f.recs[k].sect != hogl::internal::DROPMARK, "nothing was dropped, but: %s", d.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

// One thread: `ops` operations on the ring name "X".
void *reg_ops(void *p) {
	ctx *x = (ctx *) p; bool shared = x->flags & hogl::ringbuf::SHARED;
	for (int k = 0; k < x->ops; k++) {
		switch (mc::choose(4, "operation: add, find, list, wait")) {
		case 0: {
			int others = inc(&holders) - 1;
			hogl::ringbuf *r = x->e->add_ring("X", ropts(8, x->flags));
			if (r) {
				if (!shared) MC_CHECK(inc(&owners) == 1, "two owners of a ring that is not shared");
				MC_CHECK(!strcmp(r->name(), "X") && r->refcnt() >= 1, "registered ring is not valid");
				if (shared) {
					// everybody who holds a shared ring holds the same one
					hogl::ringbuf *c = curptr; curptr = r; MC_CHECK(!c || c == r, "two rings with the same name in use");
				}
				post_id(r, x->a);
				if (shared) post_id(r, x->a);
				if (!shared) dec(&owners);
				else curptr = 0;
				r->release();
			} else {
				MC_CHECK(!shared, "shared ring was not returned");
				(void) others;
			}
			dec(&holders); break; }
		case 1: {
			hogl::ringbuf *r = x->e->find_ring("X");
			if (r) { MC_CHECK(!strcmp(r->name(), "X") && r->refcnt() >= 1, "found ring is not valid"); if (shared) post_id(r, x->a); r->release(); }
			break; }
		case 2: { hogl::string_list l; x->e->list_rings(l); int c = 0; for (hogl::string_list::iterator i = l.begin(); i != l.end(); ++i) c += *i == "X"; MC_CHECK(c <= 1, "ring listed %d times", c); break; }
		case 3: usleep(350); break; // the engine runs three times, this thread may go on at any point of that for one unit
		}
	}
	return 0;
}
}

// C07: concurrent register / find / list / post / release of one name.
MC_SCENARIO(registry) {
	unsigned nt = mc::param("threads", 2); capture f; sink out(f, 0); bool tso = mc::param("tso", 1);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	unsigned fl = mc::param("flags", 0); ctx c[3]; thr t[3];
	for (unsigned i = 0; i < nt; i++) { c[i].e = e; c[i].a = a; c[i].w = i; c[i].flags = fl; c[i].ops = i ? mc::param("ops2", 1) : mc::param("ops", 2); }
	if (mc::param("pre", 0)) { hogl::ringbuf *r = e->add_ring("X", ropts(8, fl)); post_id(r, a); r->release(); }
	for (unsigned i = 1; i < nt; i++) t[i].start(reg_ops, &c[i]);
	reg_ops(&c[0]);
	for (unsigned i = 1; i < nt; i++) t[i].join();
	delete e;
	check_all(f);
}

// C07: threads compete for a name and keep what they get until all are done.
namespace {
void *compete(void *p) { ctx *x = (ctx *) p; if (x->n) usleep(x->n); x->ring = x->e->add_ring("X", ropts(8, x->flags)); if (x->ring) post_id(x->ring, x->a); return 0; }
}
MC_SCENARIO(compete) {
	unsigned nt = mc::param("threads", 2); capture f; sink out(f, 0); bool tso = mc::param("tso", 1), pre = mc::param("pre", 1);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	unsigned fl = mc::param("flags", 0); ctx c[3]; thr t[3]; hogl::ringbuf *held = 0;
	for (unsigned i = 0; i < nt; i++) { c[i].e = e; c[i].a = a; c[i].w = i; c[i].flags = fl; c[i].n = mc::param("late", 0); }
	if (pre) { held = e->add_ring("X", ropts(8, fl)); post_id(held, a); if (mc::param("hold", 0) == 0) { held->release(); held = 0; } }
	for (unsigned i = 1; i < nt; i++) t[i].start(compete, &c[i]);
	compete(&c[0]);
	for (unsigned i = 1; i < nt; i++) t[i].join();
	int got = 0; hogl::ringbuf *one = held; for (unsigned i = 0; i < nt; i++) if (c[i].ring) { got++; MC_CHECK(!one || one == c[i].ring, "two rings with the same name in use"); one = c[i].ring; }
	if (fl & hogl::ringbuf::SHARED) { MC_CHECK(got == (int) nt, "shared ring returned to %d of %u threads", got, nt); MC_CHECK(one->refcnt() == 1 + (int) nt + (held ? 1 : 0), "%d references to a shared ring used by %u threads", one->refcnt(), nt); }
	else if (held) MC_CHECK(got == 0, "name in use was registered again");
	else if (!pre || (fl & hogl::ringbuf::REUSABLE)) MC_CHECK(got == 1, "ring was given to %d of %u threads", got, nt);
	else MC_CHECK(got <= 1, "ring was given to %d of %u threads", got, nt);
	hogl::ringbuf *q = e->find_ring("X"); if (one) { MC_CHECK(q == one, "ring in use is not registered"); } if (q) q->release();
	// the ring is still served although others came and went
	if (one) { post_id(one, a); MC_CHECK(hogl::flush(one, 10000000), "ring handed out is not served by the engine"); }
	for (unsigned i = 0; i < nt; i++) if (c[i].ring) c[i].ring->release();
	if (held) held->release();
	delete e;
	if (one) MC_CHECK(!mc::heap_live(one), "ring was not freed");
	check_all(f);
}

// C08: the engine is destroyed while threads still post and release their rings.
namespace {
void *last_posts(void *p) { ctx *x = (ctx *) p; for (unsigned i = 0; i < x->n; i++) post_id(x->ring, x->a); x->ring->release(); return 0; }
}
MC_SCENARIO(shutdown) {
	unsigned nt = mc::param("threads", 2), n = mc::param("n", 1); capture f; sink out(f, mc::param("obuf", 256)); bool tso = mc::param("tso", 1);
	hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)));
	hogl::area *a = e->add_area("AREA", sections); a->enable(); const hogl::area *in = e->internal_area();
	unsigned fl = mc::param("flags", 0); ctx c[3]; thr t[3]; static const char *names[] = {"R0", "R1", "R2"};
	for (unsigned i = 0; i < nt; i++) { c[i].e = e; c[i].a = a; c[i].w = i; c[i].n = n; c[i].ring = (fl & hogl::ringbuf::SHARED) && i ? c[0].ring->hold() : e->add_ring(names[i], ropts(8, fl)); }
	std::vector<hogl::ringbuf *> rings; for (unsigned i = 0; i < nt; i++) rings.push_back(c[i].ring);
	for (unsigned i = 0; i < nt; i++) t[i].start(last_posts, &c[i]);
	delete e;
	for (unsigned i = 0; i < nt; i++) MC_CHECK(!mc::heap_live(rings[i]), "ring was not freed by the engine");
	MC_CHECK(!mc::heap_live(a) && !mc::heap_live(in), "area was not freed by the engine");
	size_t w = out.sb->written.size(), k = 0; for (size_t i = 0; i < f.recs.size(); i++) k += !f.recs[i].internal;
	MC_CHECK(w >= 4 * k, "destroying the engine left output in the buffer");
	check_all(f);
	for (unsigned i = 0; i < nt; i++) t[i].join();
}

// C08: sequences of activate, deactivate, post, flush and thread contexts on the default engine.
extern "C++" { namespace hogl { extern ringbuf default_ring; } }
namespace {
struct bg { const hogl::area *a; unsigned n; };
void *bg_post(void *p) { bg *b = (bg *) p; for (unsigned i = 0; i < b->n; i++) { cur_ts = 1000; int id = inc(&nposted) - 1; hogl::post(b->a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) id, (uint32_t) 0); } return 0; }
}
MC_SCENARIO(deflt) {
	unsigned len = mc::param("len", 5); bool active = false; static capture f; static sink out(f, 256); hogl::area *a = new hogl::area("AREA", sections); a->enable();
	int tso = mc::param("tso", 1), base = hogl::default_ring.refcnt(); thr t; bg b = {a, (unsigned) mc::param("bg", 0)}; if (b.n) t.start(bg_post, &b);
	hogl::tls *ctxt = 0; std::string ops; hogl::engine::options o = eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64);
	#define PICK_MODE() if (tso == 2) o.features = mc::choose(2, "without ordering") ? hogl::engine::DISABLE_TSO : 0
	for (unsigned k = 0; k < len; k++) {
		int op = mc::choose(4, "activate/deactivate, post, flush, context");
		if (op == 3 && !active) op = 1;
		switch (op) {
		case 0:
			if (ctxt) { delete ctxt; ctxt = 0; }
			if (!active) { ops += "activate "; PICK_MODE(); hogl::activate(out, o); active = true; }
			else { ops += "deactivate "; hogl::deactivate(); active = false; MC_CHECK(!hogl::default_engine, "default engine still set"); }
			break;
		case 1: { ops += "post "; int id = inc(&nposted) - 1; cur_ts = 1000; hogl::post(a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) id, (uint32_t) 0); break; }
		case 2:
			if (active) { ops += "flush "; MC_CHECK(hogl::flush(10000000), "flush timed out although the engine is running"); }
			else { ops += "deactivate "; hogl::deactivate(); } // no engine: no effect
			break;
		case 3: if (!ctxt) { ops += "context+ "; hogl::ringbuf::options ro = ropts(8); ctxt = new hogl::tls("T", ro); } else { ops += "context- "; delete ctxt; ctxt = 0; } break;
		}
	}
	delete ctxt;
	if (active) { bool threw = false; try { hogl::activate(out, o); } catch (std::logic_error &) { threw = true; } MC_CHECK(threw, "activating twice was accepted"); }
	if (b.n) t.join();
	if (!active) { PICK_MODE(); hogl::activate(out, o); }
	hogl::deactivate();
	MC_CHECK(hogl::default_ring.refcnt() == base, "default ring has %d references instead of %d", hogl::default_ring.refcnt(), base);
	MC_CHECK(hogl::default_ring.empty(), "records left in the default ring after shutdown");
	mc::note("%s", ops.c_str());
	check_all(f); mc::outcome(ops);
}

// C08: the default ring has options the application chose.
MC_SCENARIO(defltopts) {
	capture f; sink out(f, 256); nposted = 0; hogl::area *a = new hogl::area("AREA", sections); a->enable();
	unsigned fl = (mc::choose(2, "shared") ? hogl::ringbuf::SHARED : 0) | (mc::choose(2, "immortal") ? hogl::ringbuf::IMMORTAL : 0) | (mc::choose(2, "blocking") ? hogl::ringbuf::BLOCKING : 0) | (mc::choose(2, "reusable") ? hogl::ringbuf::REUSABLE : 0);
	bool valid = (fl & hogl::ringbuf::SHARED) && (fl & hogl::ringbuf::IMMORTAL), threw = false;
	hogl::default_ring.~ringbuf(); ::new ((void *) &hogl::default_ring) hogl::ringbuf("DEFAULT", ropts(8, fl)); // as if the application had replaced default_ring_options
	for (int k = 0; k < 2; k++) {
		try { hogl::activate(out, eopts(0, 64)); } catch (std::logic_error &) { threw = true; }
		MC_CHECK(threw == !valid, "default ring with flags %x was %s", fl, threw ? "refused" : "accepted");
		if (valid) { cur_ts = 1000; int id = inc(&nposted) - 1; hogl::post(a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) id, (uint32_t) 0); hogl::deactivate(); }
		else MC_CHECK(!hogl::default_engine, "default engine set although activation failed");
	}
	delete a; check_all(f);
}

// C10: areas and masks.
namespace {
const char *secs2[] = {"A", "B", 0}; const char *secs2same[] = {"A", "B", 0}; const char *secs3[] = {"A", "C", 0};
hogl::mask *mD, *m1, *m2; 
struct ax { hogl::engine *e; int script; hogl::area *got[2]; bool tried[2], pre; };
void area_op(ax *x, int k, int op) {
	switch (op) {
	case 0: x->got[k] = x->e->add_area("P", secs2); x->tried[k] = true; break;
	case 1: x->got[k] = x->e->add_area("P", secs3); break;
	case 2: { const hogl::area *p = x->e->find_area("P"); MC_CHECK(p || !x->pre, "a registered area is not found"); if (p) { MC_CHECK(!strcmp(p->name(), "P") && p->count() == 2, "found area is not valid"); } hogl::string_list l; x->e->list_areas(l); MC_CHECK(std::count(l.begin(), l.end(), std::string("P")) <= 1, "area listed twice"); break; }
	case 3: x->e->apply_mask(*m1); break;
	case 4: x->e->apply_mask(*m2); break;
	case 5: x->e->add_area("Q", secs2); break;
	}
}
void *area_thread(void *p) { ax *x = (ax *) p; int s = x->script; for (int k = 0; s; k++, s /= 10) area_op(x, k, s % 10 - 1); return 0; }
unsigned bits(const hogl::area *a) { unsigned b = 0; for (unsigned i = 0; i < a->count(); i++) b |= a->test(i) << i; return b; }
std::string mstr(const hogl::mask &m) { std::string s; (void) m; return s; }
}
// s0, s1, s2: scripts (digits op+1) of the three threads
MC_SCENARIO(areas) {
	capture f; sink out(f, 0);
	mD = new hogl::mask("P:C", 0); m1 = new hogl::mask(".*:A", "!.*:B", 0); m2 = new hogl::mask("!.*:A", ".*:B", 0);
	hogl::engine::options o = eopts(0, 64); o.default_mask = *mD;
	hogl::engine *e = new hogl::engine(out, o);
	ax x[3]; thr t[3]; memset(x, 0, sizeof x); int sc[3] = {(int) mc::param("s0", 1), (int) mc::param("s1", 1), (int) mc::param("s2", 0)};
	int n1 = 0, n2 = 0; for (int i = 0; i < 3; i++) for (int s = sc[i]; s; s /= 10) { n1 += s % 10 == 4; n2 += s % 10 == 5; }
	bool pre = mc::param("pre", 0); if (pre) MC_CHECK(e->add_area("P", secs2), "area registration failed");
	for (int i = 0; i < 3; i++) { x[i].e = e; x[i].pre = pre; x[i].script = sc[i]; }
	for (int i = 1; i < 3; i++) if (sc[i]) t[i].start(area_thread, &x[i]);
	area_thread(&x[0]);
	for (int i = 1; i < 3; i++) if (sc[i]) t[i].join();
	// same sections: same area for everybody; different sections: refused
	const hogl::area *P = e->find_area("P"), *Q = e->find_area("Q"); hogl::area *late = e->add_area("LATE", secs2);
	for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) {
		if (x[i].got[k]) MC_CHECK(x[i].got[k] == P, "two areas with the same name");
		if (x[i].tried[k] && P && !strcmp(P->section_name(1), "B")) MC_CHECK(x[i].got[k], "area with the same sections was refused");
	}
	MC_CHECK(e->add_area("P", secs2same) == P || !P || strcmp(P->section_name(1), "B"), "area with the same sections was refused");
	if (P && !strcmp(P->section_name(1), "B")) MC_CHECK(!e->add_area("P", secs3), "area with different sections was accepted");
	// all areas show the mask that was applied last
	if (n1 || n2) {
		unsigned l = bits(late); MC_CHECK((l == 1 && n1) || (l == 2 && n2), "a new area has sections %u enabled after the mask change", l);
		if (P) MC_CHECK((bits(P) & 3) == l || strcmp(P->section_name(1), "B"), "area P has sections %u enabled, but the current mask enables %u", bits(P), l);
		if (Q) MC_CHECK(bits(Q) == l, "area Q has sections %u enabled, but the current mask enables %u", bits(Q), l);
		mc::outcome(std::string(1, '0' + l));
	}
	delete e;
	delete mD; delete m1; delete m2;
}

// C07, C10: rings and areas that exist are found and listed at any time while others are added and removed.
namespace {
struct lk { hogl::engine *e; bool rings; int n; };
#define LONG "a_name_that_is_very_long_and_goes_on_for_more_than_one_hundred_and_twenty_eight_characters_so_that_only_a_comparison_of_all_of_it_finds_out_that_it_is_another_name_than_"
const char *lnames[2][6] = {{"P", "Q", "S", "R", "X", "A"}, {LONG "0", LONG "1", LONG "2", LONG, LONG "00", "a"}};
void *lk_add(void *p) {
	lk *x = (lk *) p; const char **nm = lnames[mc::param("long", 0)] + 2;
	for (int k = 0; k < x->n; k++) {
		if (x->rings) { hogl::ringbuf *r = x->e->add_ring(nm[k], ropts(8)); MC_CHECK(r && !strcmp(r->name(), nm[k]), "ring %s was refused", nm[k]); r->release(); }
		else MC_CHECK(x->e->add_area(nm[k], secs2), "area %s was refused", nm[k]);
	}
	return 0;
}
}
MC_SCENARIO(lookup) {
	capture f; sink out(f, 0); bool tso = mc::param("tso", 1); hogl::engine *e = new hogl::engine(out, eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64));
	lk x = {e, mc::param("rings", 0) != 0, (int) mc::param("n", 2)}; hogl::ringbuf *h[2]; const hogl::area *a[2]; const char **nm = lnames[mc::param("long", 0)];
	for (int i = 0; i < 2; i++) if (x.rings) h[i] = e->add_ring(nm[i], ropts(8)); else a[i] = e->add_area(nm[i], secs2);
	thr t; t.start(lk_add, &x);
	switch (mc::choose(3, "look up one, look up the other, list")) {
	case 0: case 1: { int i = mc::choose(2, "which"); if (x.rings) { hogl::ringbuf *r = e->find_ring(nm[i]); MC_CHECK(r == h[i], "a registered ring is not found"); r->release(); } else MC_CHECK(e->find_area(nm[i]) == a[i], "a registered area is not found"); break; }
	default: { hogl::string_list l; if (x.rings) e->list_rings(l); else e->list_areas(l); for (int i = 0; i < 2; i++) MC_CHECK(std::count(l.begin(), l.end(), std::string(nm[i])) == 1, "a registered name is not listed once"); break; }
	}
	t.join();
	if (!x.rings) for (int i = 0; i < x.n; i++) { const hogl::area *p = e->find_area(nm[2 + i]); MC_CHECK(p && !strcmp(p->name(), nm[2 + i]), "area %s is lost", nm[2 + i]); }
	for (int i = 0; i < 2; i++) if (x.rings) h[i]->release();
	delete e; mc::outcome("done");
}

// C21: thread contexts.
namespace {
struct frame { hogl::tls *t; hogl::ringbuf *ring; bool valid; hogl::ringbuf *own; };
struct tc { hogl::engine *e; const hogl::area *a; unsigned w, len; hogl::ringbuf *shared; std::vector<std::pair<int, std::string> > *want; };
int tcount;
// Runs one enumerated sequence; expected ring names of the posts go to `want`.
void *tls_ops(void *p) {
	tc *x = (tc *) p; std::vector<frame> st; hogl::ringbuf *top = &hogl::default_ring; char nm[32];
	MC_CHECK(hogl::tls::ring() == &hogl::default_ring, "new thread does not use the default ring");
	for (unsigned k = 0; k < x->len; k++) {
		int op = mc::choose(7, "post, pop, push private / shared / reusable / ring / rejected");
		if (op == 1) {
			if (st.empty()) op = 0;
			else { frame fr = st.back(); st.pop_back(); delete fr.t; top = st.empty() ? &hogl::default_ring : st.back().ring; }
		}
		if (op == 0) {
			int id = inc(&nposted) - 1; cur_ts = 1000; hogl::post(x->a, SEC_A, hogl::arg_gstr("fmt"), (uint32_t) id, (uint32_t) 0);
			x->want->push_back(std::make_pair(id, std::string(top->name())));
		} else if (op >= 2) {
			frame fr; fr.own = 0; fr.valid = true; hogl::ringbuf::options o = ropts(8);
			switch (op) {
			case 2: snprintf(nm, sizeof nm, "T%u.%u", x->w, k); fr.t = new hogl::tls(nm, o, x->e); break;
			case 3: o.flags = hogl::ringbuf::SHARED; fr.t = new hogl::tls("SH", o, x->e); MC_CHECK(hogl::tls::ring() == x->shared, "context with a shared ring uses another ring"); break;
			case 4: snprintf(nm, sizeof nm, "RE%u", x->w); o.flags = hogl::ringbuf::REUSABLE; { bool used = false; for (size_t i = 0; i < st.size(); i++) used |= st[i].valid && !strcmp(st[i].ring->name(), nm); fr.t = new hogl::tls(nm, o, x->e); fr.valid = !used; } break;
			case 5: snprintf(nm, sizeof nm, "P%u.%u", x->w, k); if (k & 1) o.flags = hogl::ringbuf::IMMORTAL; fr.own = new hogl::ringbuf(nm, o); fr.own->hold(); MC_CHECK(x->e->add_ring(fr.own), "registration failed"); fr.t = new hogl::tls(fr.own, x->e); break;
			default: fr.t = new hogl::tls("BUSY", o, x->e); fr.valid = false; break;
			}
			MC_CHECK(fr.t->valid() == fr.valid, "context is %s", fr.valid ? "not valid" : "valid although its ring is in use");
			if (fr.valid) { fr.ring = hogl::tls::ring(); MC_CHECK(fr.ring != top || op == 3, "context did not change the ring"); if (op != 3) MC_CHECK(!strcmp(fr.ring->name(), nm), "context uses ring %s", fr.ring->name()); }
			else fr.ring = top;
			top = fr.ring; st.push_back(fr);
		}
		MC_CHECK(hogl::tls::ring() == top, "thread uses ring %s instead of %s", hogl::tls::ring()->name(), top->name());
	}
	while (!st.empty()) { frame fr = st.back(); st.pop_back(); delete fr.t; top = st.empty() ? &hogl::default_ring : st.back().ring; MC_CHECK(hogl::tls::ring() == top, "thread uses ring %s instead of %s", hogl::tls::ring()->name(), top->name()); }
	return 0;
}
}
MC_SCENARIO(contexts) {
	unsigned nt = mc::param("threads", 1); static capture f; static sink out(f, 0); bool tso = mc::param("tso", 1); int base = hogl::default_ring.refcnt();
	bool own = mc::param("own", 0); hogl::engine::options eo = eopts(tso ? 0 : hogl::engine::DISABLE_TSO, 64); if (!own) hogl::activate(out, eo); // or the default ring has no engine
	hogl::engine *e = own ? new hogl::engine(out, eo) : hogl::default_engine;
	hogl::area *a = e->add_area("AREA", sections); a->enable();
	hogl::ringbuf *busy = e->add_ring("BUSY", ropts(8)), *sh = e->add_ring("SH", ropts(8, hogl::ringbuf::SHARED));
	tc x[2]; thr t; std::vector<std::pair<int, std::string> > want[2];
	for (unsigned i = 0; i < nt; i++) { x[i].e = e; x[i].a = a; x[i].w = i; x[i].shared = sh; x[i].len = i ? mc::param("len2", 2) : mc::param("len", 5); x[i].want = &want[i]; }
	if (nt > 1) t.start(tls_ops, &x[1]);
	tls_ops(&x[0]);
	if (nt > 1) t.join();
	MC_CHECK(busy->refcnt() == 2 && sh->refcnt() == 2, "references leaked or lost: %d %d", busy->refcnt(), sh->refcnt());
	// every other ring loses its last reference and goes away
	hogl::string_list l; for (int k = 0; k < 50; k++) { l.clear(); e->list_rings(l); if (l.size() == (own ? 2 : 3)) break; usleep(1000); }
	MC_CHECK(l.size() == (own ? 2 : 3), "%zu rings still registered", l.size());
	busy->release(); sh->release(); if (own) { static capture f2; static sink out2(f2, 0); hogl::activate(out2, eo); hogl::deactivate(); delete e; for (auto &y : f2.recs) { MC_CHECK(y.ring == "DEFAULT", "record of ring %s in the output of another engine", y.ring.c_str()); f.recs.push_back(y); } } else hogl::deactivate();
	MC_CHECK(!mc::heap_live(busy) && !mc::heap_live(sh), "ring was not freed");
	MC_CHECK(hogl::default_ring.refcnt() == base, "default ring has %d references instead of %d", hogl::default_ring.refcnt(), base);
	std::string d = dump(f.recs);
	for (unsigned i = 0; i < nt; i++) for (size_t k = 0; k < want[i].size(); k++)
		for (size_t j = 0; j < f.recs.size(); j++) if (!f.recs[j].internal && (int) f.recs[j].a1 == want[i][k].first) MC_CHECK(f.recs[j].ring == want[i][k].second, "record %d went to ring %s instead of %s", want[i][k].first, f.recs[j].ring.c_str(), want[i][k].second.c_str());
	check_all(f);
}

// C25: looking at an engine while other threads use it.
namespace {
hogl::timesource ts_two("two", [](const hogl::timesource *) -> hogl::timestamp { return 2000; });
struct ix { hogl::engine *e; hogl::area *a; hogl::ringbuf *own, *gone; int script; unsigned posted, requests, masks, areas, changes; const hogl::mask *m; };
const char *manysecs[] = {"A", "B", "C", 0};
void *inspect_user(void *p) {
	ix *x = (ix *) p; char n[8];
	for (int s = x->script; s; s /= 10) switch (s % 10) {
	case 1: post(x->own, x->a, 1, x->posted, 1000 + x->posted); x->posted++; break;
	case 2: { hogl::ringbuf *r = x->e->add_ring("NEW", ropts(4)); if (r) { post(r, x->a, 2, 0, 1500); r->release(); } break; }
	case 3: snprintf(n, sizeof n, "N%u", x->areas); MC_CHECK(x->e->add_area(n, secs2), "area refused"); x->areas++; break;
	case 4: x->e->apply_mask(*x->m); x->masks++; break;
	case 5: MC_CHECK(hogl::change_timesource(x->own, x->requests & 1 ? &ts_tls : &ts_two, 10000000), "time source change timed out"); x->requests++; x->changes++; break;
	case 6: if (x->gone) { x->gone->release(); x->gone = 0; } break;
	case 7: MC_CHECK(hogl::flush(x->own, 10000000), "flush timed out"); x->requests++; break;
	case 8: { hogl::ringbuf *r = x->e->find_ring("R1"); MC_CHECK(r && !strcmp(r->name(), "R1"), "registered ring not found"); r->release(); break; }
	}
	return 0;
}
size_t count_of(const std::string &s, const std::string &w) { size_t n = 0; for (size_t p = 0; (p = s.find(w, p)) != s.npos; p++) n++; return n; }
unsigned long counter(const std::string &s, const char *name) { size_t p = s.find(name); MC_CHECK(p != s.npos, "counter %s is missing: %s", name, s.c_str()); return strtoul(s.c_str() + p + strlen(name), 0, 10); }
}
MC_SCENARIO(inspect) {
	capture f; sink out(f, 0); static const char *dm = "D.*:A"; nposted = 0;
	hogl::engine::options o = eopts(mc::param("tso", 1) ? 0 : hogl::engine::DISABLE_TSO, mc::param("tsocap", 64)); o.default_mask << dm;
	hogl::engine *e = new hogl::engine(out, o); hogl::engine::stats s0 = e->get_stats();
	hogl::area *a = e->add_area("AREA", manysecs); a->set();
	hogl::ringbuf *r1 = e->add_ring("R1", ropts(4, 0, 7, 100)), *own = e->add_ring("OWN", ropts(mc::param("cap", 8))), *gone = e->add_ring("GONE", ropts(4)), *own2 = e->add_ring("OWN2", ropts(4));
	hogl::mask m("AREA:B", "!.*:C", (char *) 0); unsigned looks = mc::param("looks", 2);
	ix x[2]; thr t[2]; unsigned nt = 0; for (int s : {(int) mc::param("s1", 1), (int) mc::param("s2", 0)}) if (s) { x[nt] = ix{e, a, nt ? own2 : own, nt ? 0 : gone, s, 0, 0, 0, 0, 0, &m}; nt++; }
	for (unsigned i = 0; i < nt; i++) t[i].start(inspect_user, &x[i]);
	for (unsigned k = 0; k < looks; k++) {
		std::ostringstream s; s << *e; std::string d = s.str();
		size_t pm = d.find("Mask: \n"), ps = d.find("Stats: \n"), pr = d.find("Rings:\n"), pa = d.find("Areas:\n"); MC_CHECK(pm < ps && ps < pr && pr < pa && pa != d.npos, "a part is missing: %s", d.c_str());
		std::string mask = d.substr(pm + 7, ps - pm - 7), rings = d.substr(pr, pa - pr), ar = d.substr(pa); mask.erase(std::remove(mask.begin(), mask.end(), ' '), mask.end());
		MC_CHECK(count_of(rings, " R1: {") == 1 && count_of(rings, " OWN: {") == 1 && count_of(rings, "NEW: {") <= 1 && count_of(rings, "GONE: {") <= 1, "a registered ring is not shown exactly once: %s", d.c_str());
		MC_CHECK(count_of(ar, " AREA:A\n") == 1 && count_of(ar, " AREA:B\n") == 1 && count_of(ar, "AREA:C\n") == 1 && count_of(ar, "HOGL:INFO\n") == 1, "a section is not shown exactly once: %s", d.c_str());
		MC_CHECK(mask == "D.*:A\n" || mask == "AREA:B\n!.*:C\n", "the mask shown is neither the old nor the new one: %s", d.c_str());
		MC_CHECK(count_of(rings, "R1: { prio:7, refcnt:3, ") == 1 || mc::param("s1", 1) % 10 == 8 || mc::param("s2", 1) % 10 == 8, "ring data are wrong: %s", d.c_str());
		hogl::string_list l; if (k & 1) e->list_areas(l); else e->list_rings(l); for (hogl::string_list::iterator i = l.begin(); i != l.end(); ++i) MC_CHECK(std::count(l.begin(), l.end(), *i) == 1, "%s listed twice", i->c_str());
		if (k & 1) MC_CHECK(std::count(l.begin(), l.end(), "AREA") == 1 && std::count(l.begin(), l.end(), "HOGL") == 1, "area missing in the list"); else MC_CHECK(std::count(l.begin(), l.end(), "R1") == 1 && std::count(l.begin(), l.end(), "OWN") == 1, "ring missing in the list");
		mc::note("mask %s", mask.c_str());
	}
	for (unsigned i = 0; i < nt; i++) t[i].join();
	unsigned long dropped = own->dropcnt() + own2->dropcnt(); unsigned masks = 0, areas = 1, changes = 0, req = 1, posted = 0; bool timed = false; for (unsigned i = 0; i < nt; i++) { masks += x[i].masks; areas += x[i].areas; changes += x[i].changes; req += x[i].requests; posted += x[i].posted; timed = timed || x[i].changes; }
	// quiet: the text is exact
	cur_ts = 5000; MC_CHECK(hogl::flush(own, 10000000), "flush timed out"); 
	{ std::ostringstream s; s << *r1; char w[300]; snprintf(w, sizeof w, "R1: { prio:7, refcnt:2, seqnum:%lu, dropcnt:0, capacity:4, size:0, room:3, record_size:%u, record_tailroom:%u, timesource:%s }\n", (unsigned long) r1->seqnum(), r1->record_size(), r1->record_tailroom(), r1->timesource()->name()); MC_CHECK(r1->record_tailroom() >= 100 && s.str() == w, "ring shows '%s' instead of '%s'", s.str().c_str(), w); }
	own->release(); r1->release(); own2->release(); if (!nt) gone->release(); else if (x[0].gone) x[0].gone->release();
	hogl::engine::stats s1 = e->get_stats(); std::ostringstream es; es << s1; std::string st = es.str();
	unsigned long seen = 0, marked = 0, full = 0, toldswitch = 0;
	{ std::string d = dump(f.recs); for (auto &y : f.recs) { if (!y.internal) seen++; else if (y.sect == hogl::internal::DROPMARK) marked += y.n; else if (y.sect == hogl::internal::TSOFULLMARK) full++; else toldswitch++; }
	MC_CHECK(toldswitch == changes && s1.timesource_changed - s0.timesource_changed == changes && counter(st, "timesource_changed:") == s1.timesource_changed, "%u time source changes, %lu counted, %lu announced", changes, s1.timesource_changed - s0.timesource_changed, toldswitch);
	MC_CHECK(s1.mask_changed - s0.mask_changed == masks && counter(st, "mask_changed:") == s1.mask_changed, "%u masks applied, %lu counted", masks, s1.mask_changed - s0.mask_changed);
	MC_CHECK(s1.areas_added - s0.areas_added == areas && counter(st, "areas_added:") == s1.areas_added, "%u areas added, %lu counted", areas, s1.areas_added - s0.areas_added);
	if (mc::param("tso", 1)) { MC_CHECK(s1.recs_dropped == marked && counter(st, "recs_dropped:") == marked, "%lu dropped records announced, %lu counted: %s", marked, s1.recs_dropped, d.c_str()); MC_CHECK(s1.recs_dropped == dropped, "%lu records dropped, %lu counted: %s", dropped, s1.recs_dropped, d.c_str()); MC_CHECK(full - s1.tso_full <= 1 && counter(st, "tso_full:") == s1.tso_full, "ordering buffer was full %lu times, %lu counted", full, s1.tso_full); }
	MC_CHECK(counter(st, "recs_out:") == s1.recs_out && s1.recs_out - s0.recs_out <= seen + req && s1.recs_out - s0.recs_out >= seen, "%lu records output, %lu counted: %s", seen, s1.recs_out - s0.recs_out, d.c_str());
	mc::outcome(d); }
	(void) posted; (void) timed; delete e;
}
