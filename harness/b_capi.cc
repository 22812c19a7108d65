// C23: the C interface against the C++ interface.
#include "rec.hpp"
#include <limits.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <functional>
#include <hogl/engine.hpp>
#include <hogl/flush.hpp>
#include <hogl/mask.hpp>
#include <hogl/tls.hpp>
#include <hogl/format-basic.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/area.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/tls.h>
#include "c_posts.h"
extern "C" void hogl_flush();
using namespace vt;
static char m0[] = "", m1[] = "mutable", m2[] = "%d and %s", m3[600];
static string big(300, 'x');
struct vals G = { {0, -1, INT8_MIN, 77}, {0, 255, 128, 65}, {0, -1, INT16_MIN, 12345}, {0, 65535, 32768, 777}, {0, -1, INT_MIN, INT_MAX}, {0, UINT_MAX, 1u << 31, 12}, {0, -1, INT64_MIN, INT64_MAX}, {0, UINT64_MAX, 1ull << 63, 1ull << 32}, {0, -1, LLONG_MIN, 1ll << 40}, {0, ULLONG_MAX, 1ull << 63, 5},
	{'a', 0, -1, -128}, {false, true, true, false}, {0, -1.5f, INFINITY, 1e-40f}, {0, -1.5, 1e308, 5e-324}, {0, (void *) -1ul, &G, (void *) 0x1000}, {"string", "", 0, big.c_str()}, {m1, m0, m2, m3}, {0, -1, LONG_MIN, LONG_MAX}, {0, ULONG_MAX, 1ul << 63, 9}, {0, -1, SHRT_MIN, SHRT_MAX} };
namespace {
const char *sections[] = {"DEBUG", "INFO", "WARN", "ERROR", "X:Y", 0};
const char *kn[] = {
#define X(t) #t,
TYPES(X)
#undef X
};
hogl::arg mk(int k, int v) { v %= NVAL; switch (k) {
#define X(t) case K_##t: return hogl::arg(G.t[v]);
TYPES(X)
#undef X
} return hogl::arg(); }
hogl::area &area() { static hogl::area a("AREA", sections); return a; }
// everything a record holds
string show(hogl::record *r) {
	if (!r) return "nothing"; string s = r->area->name(); s += "/" + std::to_string(r->section); char b[64];
	for (int i = 0; i < 16; i++) {
		unsigned t = r->get_arg_type(i), len; if (t == arg::NONE) { s += " -"; continue; } 
		if (t == arg::CSTR || t == arg::RAW || t == arg::XDUMP) { const uint8_t *d = r->get_arg_data(i, len); snprintf(b, 64, " %u(%u)", t, len); s += b; s += "'" + vis(string((const char *) d, len)) + "'"; }
		else { snprintf(b, 64, " %u:%lx", t, t == arg::INT32 || t == arg::UINT32 ? r->get_arg_val32(i) : (unsigned long) r->get_arg_val64(i)); s += b; }
	}
	return s;
}
hogl::ringbuf *defring() { hogl::default_ring.reset(); return &hogl::default_ring; }
string taken(hogl::ringbuf *r) { hogl::record *k = r->pop_begin(); string s = show(k); if (!k) return s; r->pop_commit(); if (r->pop_begin()) s += " and another record"; return s; }
void both(const string &what, const std::function<void(void *, unsigned)> &c, const vector<hogl::arg> &v) {
	en::note(what); hogl::arg x[16]; for (size_t i = 0; i < v.size(); i++) x[i] = v[i];
	for (unsigned sect = 0; sect < 2; sect++) {
		hogl::ringbuf *r = defring(); area().enable(); area().reset(0); en::eval(); // section 0 is off
		hogl::post(&area(), sect, VT_A16); string want = taken(r);
		c(&area(), sect); string got = taken(r); EN_CHECK(got == want, "section %u: C posted %s instead of %s", sect, got.c_str(), want.c_str()); EN_CHECK((want == "nothing") == !sect, "section %u: posted %s", sect, want.c_str()); en::outcome(want);
	}
}
}
EN_SCENARIO(args) {
	int n = en::choose(4, "arguments"), v = en::choose(NVAL, "value"); static const int some[] = {K_u8, K_i32, K_ull, K_dbl, K_ptr, K_str}, many[] = {K_i32, K_u64, K_dbl, K_ptr, K_str, K_ll};
	if (n == 0) { int k = en::choose(NKIND, "type"); both(string(kn[k]), [=](void *a, unsigned s) { c_one(a, s, k, v); }, {mk(k, v)}); }
	if (n == 1) { int k = en::choose(NKIND, "type"), l = en::choose(NKIND, "type"); both(string(kn[k]) + " " + kn[l], [=](void *a, unsigned s) { c_two(a, s, k, l, v); }, {mk(k, v), mk(l, v + 1)}); }
	if (n == 2) { int k = some[en::choose(6, "type")], l = some[en::choose(6, "type")], m = some[en::choose(6, "type")]; both(string(kn[k]) + " " + kn[l] + " " + kn[m], [=](void *a, unsigned s) { c_three(a, s, k, l, m, v); }, {mk(k, v), mk(l, v + 1), mk(m, v + 2)}); }
	if (n == 3) { int k = many[en::choose(6, "type")], num = en::choose(13, "number") + 4; vector<hogl::arg> x; for (int i = 0; i < num; i++) x.push_back(mk(k, v + i)); both(string(kn[k]) + " * " + std::to_string(num), [=](void *a, unsigned s) { c_many(a, s, k, num, v); }, x); }
}
EN_SCENARIO(misc) {
	int w = en::choose(11, "case"), v = en::choose(NVAL, "value"); vector<hogl::arg> x; const char *s = G.str[v];
	switch (w) {
	case 0: x = {"literal"}; break; case 1: x = {"format %d and %s", 5 + v, s}; break; case 2: x = {"%f", 0.5, (const char *) G.mstr[v]}; break;
	case 3: x = {v, v + 2, "x"}; break; case 4: x = {"%p", (void *) &G}; break; case 5: x = {(const char *) G.mstr[v]}; break;
	case 6: x = {1u, 2l, 3ul, 4ll, 5ull, 6.5f, 7.25, -1, 0xffffffffffull}; break; case 7: x = {""}; break;
	case 8: if (s && !*s) en::skip(); x = {77u, s ? s + 1 : s}; break; case 9: x = {v & 1 ? 1 : 2}; break; case 10: x = {v ? "a" : "bb", v > 1 ? 1.5 : 2.5}; break;
	}
	both("case " + std::to_string(w), [=](void *a, unsigned s) { int n = c_misc(a, s, w, v); EN_CHECK(w != 3 || !s || n == v + 2, "arguments evaluated more or less than once"); }, x);
}

namespace {
struct capture : hogl::output { struct buf : hogl::ostrbuf { capture *o; buf(capture *c) : hogl::ostrbuf(0), o(c) {} void do_flush(const uint8_t *d, size_t n) { o->got.append((const char *) head(), size()); reset(); if (n) o->got.append((const char *) d, n); } }; string got; capture(hogl::format &f) : hogl::output(f) { hogl::output::init(new buf(this)); } };
// The same operations through one or the other interface
struct api {
	bool c; api(bool b) : c(b) {}
	void activate(hogl::output *o) { if (c) { hogl_engine_options e = {0, 0, 100, 64, {0, 0, 0}}; hogl_mask_t m = hogl_new_mask(".*:INFO", (char *) 0); e.default_mask = m; hogl_activate(o, &e); hogl_delete_mask(m); } else { hogl::engine::options e = hogl::engine::default_options; e.polling_interval_usec = 100; e.tso_buffer_capacity = 64; e.default_mask = hogl::mask(".*:INFO", 0); e.schedparam = 0; hogl::activate(*o, e); } }
	void deactivate() { if (c) hogl_deactivate(); else hogl::deactivate(); }
	void *add(const char *n, const char **s) { return c ? (void *) hogl_add_area(n, s) : (void *) hogl::add_area(n, s); }
	void post(void *a, unsigned s, int k, int v) { if (c) c_two(a, s, k, K_i32, v); else hogl::post((hogl::area *) a, s, mk(k, v), mk(K_i32, v + 1)); }
	void *tls(const char *n, unsigned cap, unsigned pr, unsigned tr) { if (c) { hogl_tls_options o = {cap, pr, tr}; return hogl_new_tls(n, &o); } hogl::ringbuf::options o; o.capacity = cap; o.prio = pr; o.flags = 0; o.record_tailroom = tr ? tr : 80; return new hogl::tls(n, o); }
	void deltls(void *t) { if (c) hogl_delete_tls(t); else delete (hogl::tls *) t; }
	void flush() { if (c) hogl_flush(); else hogl::flush(); }
	bool test(void *a, unsigned s) { return c ? hogl_area_test(a, s) : ((hogl::area *) a)->test(s); }
	void set(void *a, unsigned s) { if (c) hogl_area_set(a, s); else ((hogl::area *) a)->set(s); } void reset(void *a, unsigned s) { if (c) hogl_area_reset(a, s); else ((hogl::area *) a)->reset(s); }
	void setall(void *a) { if (c) hogl_area_set_all(a); else ((hogl::area *) a)->set(); } void resetall(void *a) { if (c) hogl_area_reset_all(a); else ((hogl::area *) a)->reset(); }
	void *mask(const char *x, const char *y) { return c ? hogl_new_mask(x, y, (char *) 0) : x ? y ? new hogl::mask(x, y, 0) : new hogl::mask(x, 0) : new hogl::mask(); }
	void madd(void *m, const char *s) { if (c) hogl_mask_add(m, s); else *(hogl::mask *) m << s; } void mclear(void *m) { if (c) hogl_mask_clear(m); else ((hogl::mask *) m)->clear(); }
	void mapply(void *m) { if (c) hogl_apply_mask(m); else hogl::apply_mask(*(hogl::mask *) m); } void mdel(void *m) { if (c) hogl_delete_mask(m); else delete (hogl::mask *) m; }
	string bits(void *a) { string s; for (unsigned i = 0; i < 5; i++) s += test(a, i) ? '1' : '0'; return s; }
};
// lines of our areas, ring by ring
string lines(const string &t) { std::map<string, string> m; size_t p = 0, q; while ((q = t.find('\n', p)) != t.npos) { string l = t.substr(p, q - p); p = q + 1; if (l.find("AREA") != l.npos && l.find("HOGL:") == l.npos) m[l.substr(0, l.find(' '))] += l + "\n"; } string s; for (auto &x : m) s += x.second; return s + t.substr(p); }
}
// Sequences of operations on engine, areas, masks, contexts
EN_SCENARIO(script) {
	int len = en::param("len", 3); static const char *on[] = {"post", "post string", "new context", "delete context", "flush", "apply .*:.*", "apply !AREA:.*", "enable section", "disable section", "enable all", "disable all", "restart", "second area", "extend and apply mask", "clear mask", "area without sections"};
	vector<int> op; string what; for (int i = 0; i < len; i++) { op.push_back(en::choose(16, "operation")); what += string(i ? ", " : "") + on[op.back()]; } en::note(what); string res[2];
	for (int c = 0; c < 2; c++) {
		string &r = res[c]; defring(); api x(c); hogl::format_basic f("ring|seqnum|area|section"); capture *o = new capture(f); x.activate(o); void *a = x.add("AREA", sections), *m = x.mask("AREA:WARN", 0); vector<void *> t; int n = 0;
		for (int k : op) { n++; switch (k) {
			case 0: for (unsigned s = 0; s < 4; s++) x.post(a, s, K_u64, n % NVAL); break; case 1: x.post(a, 1, K_str, n % NVAL); break;
			case 2: { char b[8]; snprintf(b, 8, "T%d", n); t.push_back(x.tls(b, 8 * n, n, n == 1 ? 0 : 64)); break; } case 3: if (t.size()) { x.deltls(t.back()); t.pop_back(); } break;
			case 4: x.flush(); r += lines(o->got); break; case 5: { void *k = x.mask(".*:.*", 0); x.mapply(k); x.mdel(k); break; } case 6: { void *k = x.mask(".*:DEBUG", "!AREA:I.*"); x.mapply(k); x.mdel(k); break; }
			case 7: x.set(a, n % 4); break; case 8: x.reset(a, (n + 1) % 4); break; case 9: x.setall(a); break; case 10: x.resetall(a); break;
			case 11: while (t.size()) { x.deltls(t.back()); t.pop_back(); } x.deactivate(); x.activate(o); a = x.add("AREA", sections); break;
			case 12: { void *b = x.add("AREA2", sections); x.post(b, 1, K_i32, n % NVAL); if (b) r += x.bits(b); break; }
			case 13: x.madd(m, n & 1 ? "AREA:ERROR" : "!AREA2?:INFO"); x.mapply(m); break; case 14: x.mclear(m); x.mapply(m); break;
			case 15: { void *b = x.add(n & 1 ? "AREA3" : "AREA", 0); r += b ? x.bits(b) + (b == a ? "same" : "") : "none"; if (b && n & 1) x.post(b, 1, K_i32, n % NVAL); break; }
			}
			r += x.bits(a); hogl::ringbuf *g = hogl::tls::ring(); r += "[" + string(g->name()) + " " + std::to_string(g->capacity()) + " " + std::to_string(g->prio()) + " " + std::to_string(g->record_tailroom()) + (g->shared() ? "s" : "") + (g->reusable() ? "r" : "") + (g->blocking() ? "b" : "") + "]"; en::eval();
		}
		while (t.size()) { x.deltls(t.back()); t.pop_back(); } x.flush(); x.deactivate(); x.mdel(m); r += lines(o->got); delete o;
	}
	EN_CHECK(res[0] == res[1], "C: %s\nC++: %s", vis(res[1]).c_str(), vis(res[0]).c_str()); en::outcome(res[0]);
}
// Options of the engine
EN_SCENARIO(engine) {
	static const unsigned polls[] = {0, 100, 1000, 12345}, caps[] = {1, 2, 16, 4096}; static const char *affs[] = {0, "", "list:0", "0x1"};
	int given = en::choose(2, "options"); unsigned feat = given ? en::choose(2, "features") : 0, poll = given ? polls[en::choose(4, "polling")] : 0, cap = given ? caps[en::choose(4, "capacity")] : 0; int mk = given ? en::choose(4, "mask") : 0, af = given ? en::choose(4, "affinity") : 0;
	static const char *masks[] = {0, "AREA:DEBUG", "", "!AREA:INFO"}; string want, got; en::note(given ? "features " + std::to_string(feat) + " polling " + std::to_string(poll) + " capacity " + std::to_string(cap) + " mask " + (masks[mk] ? masks[mk] : "none") + " affinity " + (affs[af] ? affs[af] : "none") : "no options");
	hogl::format_basic f("ring|area|section"); defring();
	for (int c = 0; c < 2; c++) {
		capture o(f); string &r = c ? got : want;
		if (!given) { if (c) hogl_activate(&o, 0); else hogl::activate(o); }
		else if (c) { hogl_mask_t m = !masks[mk] ? 0 : *masks[mk] ? hogl_new_mask(masks[mk], (char *) 0) : hogl_new_mask(0); string keep = affs[af] ? affs[af] : ""; hogl_engine_options e = {feat, m, poll, cap, {SCHED_OTHER, 0, affs[af] ? keep.c_str() : 0}}; hogl_activate(&o, &e); if (m) hogl_delete_mask(m); keep.assign(keep.size(), 'x'); memset(&e, 0xff, sizeof e); }
		else { hogl::engine::options e = hogl::engine::default_options; e.features = feat; e.polling_interval_usec = poll; e.tso_buffer_capacity = cap; if (masks[mk]) { e.default_mask = hogl::mask(); if (*masks[mk]) e.default_mask << masks[mk]; } e.schedparam = new hogl::schedparam(SCHED_OTHER, 0, hogl::schedparam::DELETE_ON_EXIT, affs[af] ? affs[af] : ""); hogl::activate(o, e); }
		api x(c); void *a = x.add("AREA", sections); r = x.bits(a); for (unsigned s = 0; s < 5; s++) x.post(a, s, K_str, s % NVAL); x.flush();
		const hogl::engine::options &g = hogl::default_engine->get_options(); r += " features " + std::to_string(g.features) + " polling " + std::to_string(g.polling_interval_usec) + " capacity " + std::to_string(g.tso_buffer_capacity); if (g.schedparam) r += " policy " + std::to_string(g.schedparam->policy) + " priority " + std::to_string(g.schedparam->priority) + " '" + g.schedparam->cpu_affinity + "' " + std::to_string(g.schedparam->flags); if (g.timesource) r += " timesource";
		x.deactivate(); r += lines(o.got); en::eval();
	}
	EN_CHECK(got == want, "C: %s\nC++: %s", vis(got).c_str(), vis(want).c_str()); en::outcome(want);
}
// Thread contexts
EN_SCENARIO(tls) {
	static const unsigned caps[] = {2, 3, 4, 5, 1000, 1}, prios[] = {0, 1, 100, UINT_MAX}, tails[] = {0, 1, 8, 79, 80, 81, 128, 4000}; unsigned cap = caps[en::choose(6, "capacity")], pr = prios[en::choose(4, "priority")], tr = tails[en::choose(8, "tailroom")]; string want, got; en::note("capacity " + std::to_string(cap) + " priority " + std::to_string(pr) + " tailroom " + std::to_string(tr));
	hogl::format_basic f("ring|seqnum|area|section"); defring();
	for (int c = 0; c < 2; c++) {
		capture o(f); string &r = c ? got : want; api x(c); x.activate(&o); void *a = x.add("AREA", sections), *t = x.tls("RING", cap, pr, tr); hogl::ringbuf *g = hogl::tls::ring(), *h = hogl::default_engine->find_ring("RING");
		r = string(g->name()) + " " + std::to_string(g->capacity()) + " " + std::to_string(g->prio()) + " " + std::to_string(g->record_tailroom()) + " " + std::to_string(g->record_size()) + (g->shared() ? "s" : "") + (g->reusable() ? "r" : "") + (g->blocking() ? "b" : "") + (g == h ? "" : "unknown"); if (h) h->release();
		void *u = x.tls("RING", 4, 1, 80); r += hogl::tls::ring() == g ? " rejected " : " accepted "; if (g->capacity() > 2) { x.post(a, 1, K_str, 3); x.flush(); } x.deltls(u); x.deltls(t); r += hogl::tls::ring()->name(); x.deactivate(); r += lines(o.got); en::eval();
	}
	EN_CHECK(got == want, "C: %s\nC++: %s", vis(got).c_str(), vis(want).c_str()); en::outcome(want);
}
namespace {
string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
struct dir { string d; int old; dir() { char b[64]; snprintf(b, 64, "capi.%d", getpid()); d = b; clear(); mkdir(b, 0700); old = open(".", O_RDONLY | O_DIRECTORY); if (chdir(b)) en::fail("chdir"); } void clear() { DIR *x = opendir(d.c_str()); if (!x) return; while (dirent *e = readdir(x)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(x); rmdir(d.c_str()); } ~dir() { if (fchdir(old)) abort(); close(old); clear(); }
	string list() { std::map<string, string> m; DIR *x = opendir("."); while (dirent *e = readdir(x)) if (e->d_name[0] != '.') { struct stat st; lstat(e->d_name, &st); char b[300]; ssize_t n = readlink(e->d_name, b, 299); if (n >= 0) { b[n] = 0; m[e->d_name] = string("-> ") + b; } else { snprintf(b, 300, "%o ", st.st_mode & 07777); m[e->d_name] = b + slurp(e->d_name); } } closedir(x); string s; for (auto &k : m) s += k.first + " " + k.second + "; "; return s; } };
void records(void *out, int n, bool c) { hogl::output &o = *(hogl::output *) out; for (int i = 0; i < n; i++) { hogl::ringbuf *r = defring(); api x(c); area().enable(); x.post(&area(), i % 5, i & 1 ? K_str : K_dbl, i % NVAL); hogl::record *k = r->pop_begin(); k->timestamp = hogl::timestamp(1000); hogl::format::data d = {}; d.ring_name = "RING"; d.record = k; o.process(d); r->pop_commit(); } o.flush(); }
}
// Outputs and formats
EN_SCENARIO(outputs) {
	static const char *names[] = {"stdout", "stderr", "plain file", "pipe", "file"}; int k = en::choose(5, "output"), fk = en::choose(4, "format"), n = en::choose(3, "records"); static const char *fs[] = {0, "ring|area|section", "seqnum|timestamp", ""}; string res[2]; int opt = 0, perms = 0, size = 0, count = 0, cap = 0; string what = string(names[k]) + " format " + (fs[fk] ? fs[fk] : "default") + " records " + std::to_string(n);
	static const unsigned P[] = {0600, 0644, 0666}, C[] = {2, 10, 128}, B[] = {0, 64, 8192}; static const size_t Z[] = {50, 100000, 1 << 20};
	if (k == 4) { opt = en::choose(2, "options"); if (opt) { perms = en::choose(3, "permissions"), size = en::choose(3, "size"), count = en::choose(3, "count"), cap = en::choose(3, "buffer");  what += " permissions " + std::to_string(P[perms]) + " size " + std::to_string(Z[size]) + " count " + std::to_string(C[count]) + " buffer " + std::to_string(B[cap]); } }
	en::note(what); umask(0);
	for (int c = 0; c < 2; c++) {
		dir d; bool full = false; string &r = res[c]; int save = -1, fd = k < 2 ? 1 + k : -1; if (fd >= 0) { fflush(0); save = dup(fd); int o = open("std", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(o, fd); close(o); }
		void *f = c ? hogl_new_format_basic(fs[fk]) : (void *) (hogl::format *) (fs[fk] ? new hogl::format_basic(fs[fk]) : new hogl::format_basic()), *o = 0; hogl::format &F = *(hogl::format *) f;
		switch (k) {
		case 0: o = c ? hogl_new_output_stdout(f) : (void *) (hogl::output *) new hogl::output_stdout(F); break; case 1: o = c ? hogl_new_output_stderr(f) : (void *) (hogl::output *) new hogl::output_stderr(F); break;
		case 2: o = c ? hogl_new_output_plainfile("log", f) : (void *) (hogl::output *) new hogl::output_plainfile("log", F); break; case 3: o = c ? hogl_new_output_pipe("cat >log", f) : (void *) (hogl::output *) new hogl::output_pipe("cat >log", F); break;
		case 4: if (c) { hogl_output_options q = {P[perms], Z[size], C[count], B[cap], {0, 0, 0}}; o = hogl_new_output_file("log.#.txt", f, opt ? &q : 0); } else if (!opt) o = (hogl::output *) new hogl::output_file("log.#.txt", F); else { hogl::output_file::options q = {P[perms], Z[size], C[count], B[cap], 0}; o = (hogl::output *) new hogl::output_file("log.#.txt", F, q); } break;
		}
		r = "buffer " + std::to_string(((hogl::output *) o)->get_ostrbuf()->capacity()) + " ";
		if (k != 4) records(o, n, c);
		else { // when a file is full, writing goes on until the rotation has happened
			auto link = [] { char b[300]; ssize_t n = readlink("log.txt", b, 299); return string(b, n < 0 ? 0 : n); }; string b = link(); r += b + " " + ((hogl::output_file *) (hogl::output *) o)->name() + " "; records(o, n, c);
			if (n && opt && Z[size] == 50) { full = true; for (int i = 0; i < 50 && link() == b; i++) { records(o, 1, c); for (int w = 0; w < 1000 && link() == b; w++) usleep(100); } r += link() == b ? "not rotated" : "rotated"; struct stat st; if (!stat(b.c_str(), &st)) r += " " + std::to_string(st.st_mode); }
		}
		if (c) { hogl_delete_output(o); hogl_delete_format(f); } else { delete (hogl::output *) o; delete &F; } fflush(0); if (fd >= 0) { dup2(save, fd); close(save); }
		if (k == 3) for (int w = 0; w < 3000; w++) { string a = slurp("log"); if (w && a != "(none)" && (n == 0 || (a.size() && a.back() == '\n'))) { usleep(1000); break; } usleep(1000); }
		if (!full) r += d.list(); en::eval();
	}
	EN_CHECK(res[0] == res[1], "C: %s\nC++: %s", vis(res[1]).c_str(), vis(res[0]).c_str()); en::outcome(res[0]);
}
// Areas
EN_SCENARIO(areas) {
	int len = en::param("len", 4); vector<int> op; string what; for (int i = 0; i < len; i++) { op.push_back(en::choose(12, "operation")); what += " " + std::to_string(op.back()); } en::note(what); string res[2];
	for (int c = 0; c < 2; c++) { api x(c); hogl::area a("AREA", sections); for (int k : op) { if (k < 5) x.set(&a, k); else if (k < 10) x.reset(&a, k - 5); else if (k == 10) x.setall(&a); else x.resetall(&a); res[c] += x.bits(&a) + " "; en::eval(); } }
	EN_CHECK(res[0] == res[1], "C: %s\nC++: %s", res[1].c_str(), res[0].c_str()); en::outcome(res[0]);
}
