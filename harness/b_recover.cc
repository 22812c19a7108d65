// C19: what the recovery tool makes of whole, incomplete and damaged memory
// images. The objects are made by the library, copied and then freed.
#include "rec.hpp"
#include <elf.h>
#include <fcntl.h>
#include <limits.h>
#include <algorithm>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <hogl/format-basic.hpp>
#include <hogl/detail/output.hpp>
#include <hogl/timesource.hpp>
#include <tools/recovery-engine.hpp>
#define main recover_main
#include <recover.cc>
#undef main
using namespace vt;
namespace {
struct seg { uint64_t vma; string data; const char *what; };
struct ring_x : hogl::ringbuf { static void parts(hogl::ringbuf *r, char *&name, uint8_t *&top) { ring_x *x = (ring_x *) r; name = x->_name; top = x->_rec_top; } };
struct bitmap_x : hogl::bitmap { static void part(hogl::bitmap *b, void *&d, size_t &n) { bitmap_x *x = (bitmap_x *) b; d = x->_data; n = x->nwords(x->_size) * sizeof(word); } };
struct area_x : hogl::area { static void parts(hogl::area *a, char *&name, const char **&s, void *&bits, size_t &nb) { area_x *x = (area_x *) a; name = x->_name; s = x->_section; bitmap_x::part(&x->_bitmap, bits, nb); } };
struct ts_x : hogl::timesource { static char *part(hogl::timesource *t) { return ((ts_x *) t)->_name; } };
uint64_t now_ts; hogl::timestamp tick(const hogl::timesource *) { return now_ts; }
struct out_x : hogl::output { out_x(hogl::format &f, strbuf *b) : hogl::output(f) { init(b); } };
// one recovered or expected record
struct row { uint64_t ts; string s; bool operator<(const row &o) const { return ts != o.ts ? ts < o.ts : s < o.s; } bool operator==(const row &o) const { return ts == o.ts && s == o.s; } };
string rowtext(const char *ring, const hogl::record *r) {
	string s = string(ring ? ring : "(none)") + " " + (r->area ? string(r->area->name()) + "." + r->area->section_name(r->section) : "INVALID") + " " + std::to_string(r->seqnum) + ":"; char b[64];
	for (int i = 0; i < 16; i++) { unsigned t = r->get_arg_type(i), n; if (t == arg::NONE) break; s += " "; 
		switch (t) { case arg::GSTR: { const char *p = (const char *) r->get_arg_val64(i); s += p ? string("g'") + p + "'" : "g-"; break; } case arg::CSTR: case arg::RAW: case arg::XDUMP: { const uint8_t *d = r->get_arg_data(i, n); s += std::to_string(t) + "'" + string((const char *) d, n) + "'"; break; }
		case arg::INT32: case arg::UINT32: snprintf(b, 64, "%u/%x", t, r->get_arg_val32(i)); s += b; break; default: snprintf(b, 64, "%u/%lx", t, (long) r->get_arg_val64(i)); s += b; } }
	return s;
}
struct reader : hogl::format { vector<row> v; void process(hogl::ostrbuf &s, const data &d) { v.push_back({d.record->timestamp, rowtext(d.ring_name, d.record)}); } };
// The program whose memory is looked at.
struct app {
	vector<seg> segs; vector<hogl::ringbuf *> rings; vector<hogl::area *> areas; vector<hogl::timesource *> tss; vector<out_x *> outs; vector<void *> mem; std::set<hogl::area *> custom; vector<row> want; vector<string> lines; hogl::format_basic fb; std::map<uint64_t, vector<string>> text; string buffered;
	app() : fb("timespec,ring,seqnum,area,section") {}
	void add(const void *p, size_t n, const char *what) { if (p && n) segs.push_back({(uint64_t) p, string((const char *) p, n), what}); }
	char *str(const string &s) { char *p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); mem.push_back(p); add(p, s.size() + 1, "string"); return p; }
	hogl::area *area(const char *name, int nsect) { const char **s = nsect ? (const char **) calloc(nsect + 1, sizeof(char *)) : 0; if (s) mem.push_back(s); vector<string> n(nsect); for (int i = 0; i < nsect; i++) s[i] = (n[i] = "SECT" + std::to_string(i)).c_str(); areas.push_back(new hogl::area(name, s)); if (s) custom.insert(areas.back()); return areas.back(); }
	hogl::timesource *ts(const char *n) { tss.push_back(new hogl::timesource(n, tick)); return tss.back(); }
	hogl::ringbuf *ring(const char *n, unsigned cap, hogl::timesource *t, unsigned tail = 256) { rings.push_back(vt::ring(cap, tail, n)); rings.back()->timesource(t); return rings.back(); }
	void post(hogl::ringbuf *r, hogl::area *a, unsigned s, uint64_t t, vector<val> v, vector<char *> g = {}) { // g: global strings, in order
		now_ts = t; hogl::arg x[16]; size_t gi = 0; for (size_t i = 0; i < v.size() && i < 16; i++) x[i] = v[i].type == arg::GSTR && gi < g.size() ? hogl::arg(hogl::arg_gstr(g[gi++])) : v[i].get(); hogl::push_unlocked(r, a, s, VT_A16); }
	void output(const string &held) { strbuf *b = new strbuf(256); outs.push_back(new out_x(fb, b)); b->push_back((const uint8_t *) held.data(), held.size()); buffered += held; }
	// copies everything, notes what must be recovered, and ends the program
	void crash() {
		struct item { hogl::ringbuf *r; hogl::record *q; }; vector<item> all; for (auto r : rings) { hogl::ringbuf::pop_iterator it(r); while (hogl::record *q = it.next()) all.push_back({r, q}); }
		std::stable_sort(all.begin(), all.end(), [](const item &x, const item &y) { return x.q->timestamp < y.q->timestamp; });
		for (auto &i : all) { want.push_back({i.q->timestamp, rowtext(i.r->name(), i.q)}); strbuf sb(0); hogl::format::data d; d.ring_name = i.r->name(); d.record = i.q; fb.process(sb, d); text[i.q->timestamp].push_back(sb.take()); }
		std::sort(want.begin(), want.end());
		for (auto r : rings) { char *n; uint8_t *top; ring_x::parts(r, n, top); add(r, sizeof *r, "ring"); add(n, strlen(n) + 1, "ring name"); add(top, (size_t) r->capacity() * r->record_size(), "records"); }
		for (auto a : areas) { char *n; const char **s; void *b; size_t nb; area_x::parts(a, n, s, b, nb); add(a, sizeof *a, "area"); add(n, strlen(n) + 1, "area name"); add(b, nb, "area bits"); bool seen = false; for (auto &g : segs) seen |= g.vma == (uint64_t) s; if (seen) continue; add(s, sizeof(char *) * a->size(), "section names"); if (custom.count(a)) for (unsigned i = 0; i < a->size(); i++) add(s[i], strlen(s[i]) + 1, "section name"); }
		for (auto t : tss) { add(t, sizeof *t, "timesource"); char *n = ts_x::part(t); add(n, strlen(n) + 1, "timesource name"); }
		for (auto o : outs) { add(o, sizeof *o, "output"); hogl::ostrbuf *b = o->get_ostrbuf(); add(b, sizeof(strbuf), "output buffer"); add(b->head(), b->capacity(), "buffered data"); }
		for (auto r : rings) r->release(); for (auto a : areas) delete a; for (auto t : tss) delete t; for (auto o : outs) { o->get_ostrbuf()->reset(); delete o; } for (void *m : mem) free(m);
	}
};
string core_file(vector<seg> v) {
	std::stable_sort(v.begin(), v.end(), [](const seg &a, const seg &b) { return a.vma < b.vma; }); Elf64_Ehdr e; memset(&e, 0, sizeof e); memcpy(e.e_ident, ELFMAG, 4); e.e_ident[EI_CLASS] = ELFCLASS64; e.e_ident[EI_DATA] = ELFDATA2LSB; e.e_ident[EI_VERSION] = 1;
	e.e_type = ET_CORE; e.e_machine = EM_X86_64; e.e_version = 1; e.e_phoff = sizeof e; e.e_ehsize = sizeof e; e.e_phentsize = sizeof(Elf64_Phdr); e.e_phnum = v.size(); string s((char *) &e, sizeof e), d; size_t off = sizeof e + v.size() * sizeof(Elf64_Phdr);
	for (auto &x : v) { Elf64_Phdr h; memset(&h, 0, sizeof h); h.p_type = PT_LOAD; h.p_flags = PF_R | PF_W; h.p_offset = off + d.size(); h.p_vaddr = x.vma; h.p_filesz = h.p_memsz = x.data.size(); h.p_align = 1; s.append((char *) &h, sizeof h); d += x.data; }
	return s + d;
}
int mem_file(const string &s) { int fd = memfd_create("core", 0); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t) s.size()) { perror("memfd"); _exit(3); } return fd; }
struct quiet { // standard output into memory
	int old, fd; quiet() { fflush(stdout); std::cout.flush(); old = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); } 
	string end() { fflush(stdout); std::cout.flush(); string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); if (pread(fd, &s[0], n, 0) != n) _exit(3); dup2(old, 1); close(old); close(fd); old = -1; return s; } ~quiet() { if (old >= 0) end(); } };
struct result { bool loaded; vector<row> rows; string text; };
enum { ROWS = 1, TEXT = 2, OBJECTS = 4 };
result recover(const string &core, unsigned flags = 0, int what = ROWS, const char *fmt = "timespec,ring,seqnum,area,section") {
	result r; int fd = mem_file(core); string path = "/proc/self/fd/" + std::to_string(fd); quiet q;
	{ hogl::coredump c(path.c_str()); r.loaded = !c.failed; if (r.loaded) { reader rd; hogl::format_basic fb(fmt); hogl::recovery_engine e(c, what & ROWS ? (hogl::format &) rd : fb, flags); if (what & OBJECTS) { e.dump_rings(); e.dump_areas(); } e.dump_outbufs(); e.dump_records(); r.rows = rd.v; } }
	r.text = q.end(); close(fd); return r;
}
// the text without the tool's own headings
string body(const string &s) { string o; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); e = e == string::npos ? s.size() : e + 1; string l = s.substr(p, e - p); if (l.compare(0, 4, "####") && l.compare(0, 8, "Dumping ") && l != "\n") o += l; p = e; } return o; }
string show_rows(const vector<row> &v) { string s; for (auto &x : v) s += std::to_string(x.ts) + " " + x.s + "\n"; return vis(s); }
void compare(app &a, bool text, const char *what = "") {
	string core = core_file(a.segs); result r = recover(core); en::eval(); EN_CHECK(r.loaded, "image not loaded");
	for (size_t i = 1; i < r.rows.size(); i++) EN_CHECK(r.rows[i - 1].ts <= r.rows[i].ts, "not in time order: %s", show_rows(r.rows).c_str());
	vector<row> got = r.rows; std::sort(got.begin(), got.end()); 
	for (auto &w : a.want) EN_CHECK(std::find(got.begin(), got.end(), w) != got.end(), "%srecord not recovered: %lu %s; recovered: %s", what, (long) w.ts, vis(w.s).c_str(), show_rows(got).c_str());
	EN_CHECK(got == a.want, "%srecovered %zu records instead of %zu: %s", what, got.size(), a.want.size(), show_rows(got).c_str());
	if (!text) return;
	string want = a.buffered; for (auto &t : a.text) for (auto &l : t.second) want += l; result t = recover(core, 0, TEXT); string got_t = body(t.text); EN_CHECK(got_t == body(want), "printed '%s' instead of '%s'", vis(got_t).c_str(), vis(body(want)).c_str()); en::outcome(got_t);
}
string bytes(size_t n, int seed = 0) { string s; for (size_t i = 0; i < n; i++) s += (char) ('a' + (i * 7 + seed) % 26); return s; }
val type(int k, int i) {
	switch (k) { case 0: return val::i32(-5 - i); case 1: return val::u32(0x80000000u + i); case 2: return val::i64(LONG_MIN + i); case 3: return val::u64(~0ul - i); case 4: return val::ptr(0x7fff12345678ul + i); case 5: return val::dbl(-1.5 * i); case 6: return val::cstr(bytes(3 + 4 * i, i)); case 7: return val::gstr("?"); case 8: return val::xdump(bytes(5 + i, i), 'd', 2, 3, i, ','); case 9: return val::raw(bytes(i * 3, i)); default: return val::cstr(""); }
}
// every list of argument types
void typed(vector<int> k) {
	app a; hogl::area *x = a.area("AREA", 2); hogl::ringbuf *r = a.ring("RING", 4, a.ts("time")); vector<val> v; vector<char *> g; bool raw = false; for (size_t i = 0; i < k.size(); i++) { v.push_back(type(k[i], i)); raw |= k[i] == 9; if (k[i] == 7) g.push_back(a.str("global%" + std::to_string(i))); } 
	en::note(show(v)); a.post(r, x, 1, 5000000001ul, v, g); a.post(r, x, 0, 7, {val::i32(1)}); a.crash(); compare(a, !raw);
}
EN_SCENARIO(types) { int n = en::choose(en::param("len", 2) + 1, "arguments"); vector<int> k; for (int i = 0; i < n; i++) k.push_back(en::choose(11, "type")); typed(k); }
EN_SCENARIO(many) { int n = en::choose(16, "arguments") + 1, p = en::choose(n, "position"), q = en::choose(n, "position"), kp = en::choose(11, "type"), kq = en::choose(2, "type") ? 7 : 6; if (p == q) en::skip(); vector<int> k(n, en::choose(2, "others") * 5); k[p] = kp; k[q] = kq; typed(k); }
// every state of small rings: filled, wrapped, overrun, consumed
EN_SCENARIO(states) {
	app a; int nr = en::choose(en::param("rings", 2), "rings") + 1, pat = en::choose(4, "timestamps"); hogl::area *x = a.area("AREA", 3), *y = a.area("OTHER", 0); hogl::timesource *t = a.ts("time"); uint64_t k = 0; vector<vector<val>> none; static const char *names[] = {"RING0", "R1", "ring.2"};
	for (int i = 0; i < nr; i++) {
		unsigned cap = 2u << en::choose(i ? 1 : 3, "capacity"), shift = en::choose(i ? 2 : cap, "start"), n = en::choose(cap + 2, "records"), eat = en::choose(i ? 1 : n + 1, "consumed"); hogl::ringbuf *r = a.ring(names[i], cap, t, 100 + 200 * i); if (eat >= cap) en::skip();
		for (unsigned j = 0; j < shift; j++) { a.post(r, x, 0, 1, {val::i32(77)}); r->pop_commit(); }
		for (unsigned j = 0; j < n; j++, k++) { char *g = a.str("g" + std::to_string(k)); a.post(r, j & 1 ? x : y, j & 1 ? j % 3 : 5 - j % 6, pat == 0 ? 100 + k : pat == 1 ? 1000 - k : pat == 2 ? 50 : 10 + 10 * j + (i ? 1 : 0) - (i == 2), {val::gstr("?"), val::u32(k), val::cstr(bytes(k))}, {g}); }
		for (unsigned j = 0; j < eat && r->size(); j++) r->pop_commit();
	}
	en::note(std::to_string(nr) + " rings"); a.crash(); compare(a, pat < 2);
}
// buffered output
EN_SCENARIO(buffers) {
	app a; int n = en::choose(4, "outputs"); a.area("A", 0); for (int i = 0; i < n; i++) { int l = en::choose(4, "bytes"); a.output(l ? bytes(l == 3 ? 255 : l * 5, i) + "\n" : ""); }
	hogl::ringbuf *r = a.ring("R", 4, a.ts("t")); a.post(r, a.areas[0], 1, 9, {val::i32(4)}); string held = a.buffered; a.crash(); compare(a, n < 2); result t = recover(core_file(a.segs), 0, TEXT); std::multiset<char> x(held.begin(), held.end()); for (size_t p = 0; p < held.size();) { size_t e = held.find('\n', p); string l = held.substr(p, e - p + 1); EN_CHECK(t.text.find(l) != string::npos, "buffered output '%s' was not recovered: '%s'", vis(l).c_str(), vis(t.text).c_str()); p = e + 1; }
}
// an image that covers everything
void base(app &a) {
	hogl::area *x = a.area("AREA", 3), *y = a.area("OTHER", 0); hogl::timesource *t = a.ts("time"); hogl::ringbuf *r = a.ring("RING0", 4, t, 200), *q = a.ring("R1", 2, t, 0); char *g = a.str("glob %s %d %s"), *h = a.str("global");
	a.post(r, x, 0, 1, {val::i32(1)}); a.post(r, x, 0, 1, {val::i32(1)}); r->pop_commit(); r->pop_commit();
	a.post(r, x, 1, 100, {val::gstr(""), val::cstr("text"), val::i32(-5), val::gstr("")}, {g, h}); a.post(r, y, 5, 102, {val::xdump(bytes(12), 'H', 1, 2, 8), val::xdump(bytes(12), 'u', 4, 2, 2, ','), val::raw("rawdata")}); a.post(r, x, 2, 99, {val::cstr("%s:%*d"), val::cstr("x"), val::i32(2), val::dbl(1.5), val::ptr(8)});
	a.post(q, y, 0, 101, {val::u64(7)}); a.output("buffered text\n"); a.crash();
}
const uint8_t bval[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x10, 0x40, 0xfe, 4, 5, 6, 7, 8, 9, 0x11, 0x20, 0x33, 0xa0};
int nval() { return std::min<long>(en::param("values", 8), sizeof bval); }
void survives(const vector<seg> &v, const string &note) {
	en::note(note); string c = core_file(v); static const char *fm[] = {"default", "fast0", "fast1", "timespec,ring,seqnum,area,section"};
	for (int all = 0; all < 2; all++) for (int k = all ? 3 : 0; k < 4; k++) { en::eval(); result r = recover(c, all ? hogl::recovery_engine::DUMP_ALL : 0, TEXT | OBJECTS, fm[k]); EN_CHECK(r.loaded, "image not loaded"); en::outcome(std::to_string(r.text.size())); if (!all && k == 0 && en::param("all", 0) == 0) k = 2; }
}
string where(const seg &s, size_t off) { return string(s.what) + " of " + std::to_string(s.data.size()) + " bytes at +" + std::to_string(off); }
EN_SCENARIO(bytes1) { app a; base(a); size_t tot = 0; for (auto &s : a.segs) tot += s.data.size(); size_t p = en::choose(tot, "byte"); for (auto &s : a.segs) { if (p < s.data.size()) { int k = en::choose(nval(), "value"); s.data[p] = bval[k]; survives(a.segs, where(s, p) + " = " + std::to_string(bval[k])); return; } p -= s.data.size(); } }
EN_SCENARIO(fields) { // 8-byte fields: pointers to everything, huge and small numbers
	app a; base(a); size_t tot = 0, ns = a.segs.size(); for (auto &s : a.segs) tot += s.data.size() / 8; size_t p = en::choose(tot, "field"); 
	for (auto &s : a.segs) { if (p < s.data.size() / 8) {
		int k = en::choose(3 * ns + 9, "value"); uint64_t v = 0; if (k < (int) (3 * ns)) { seg &d = a.segs[k / 3]; v = d.vma + (k % 3 == 0 ? 0 : k % 3 == 1 ? d.data.size() - 1 : d.data.size()); } else { static const uint64_t n[] = {0, 1, ~0ul, 1ul << 63, 0x7fffffff, 0xffffffff, 0x100000000ul, 0x2000000020ul, 0xfffff000ul << 32}; v = n[k - 3 * ns]; }
		memcpy(&s.data[p * 8], &v, 8); char b[32]; snprintf(b, 32, " = %lx", (long) v); survives(a.segs, where(s, p * 8) + b + (k < (int) (3 * ns) ? string(" (") + a.segs[k / 3].what + ")" : "")); return; } p -= s.data.size() / 8; } }
EN_SCENARIO(pairs) { // two 4-byte fields of the ring
	app a; base(a); static const uint32_t n[] = {0, 1, 2, 3, 7, 20, 0x7fffffff, 0xffffffff, 64, 0x100000, 0xfffff, 31, 4096}; for (auto &s : a.segs) if (!strcmp(s.what, "ring")) { int lim = en::param("last", 200) / 4, f = en::choose(lim - 4, "field") + 4, g = en::choose(lim - 4, "field") + 4; if (g <= f) en::skip(); int kv = en::param("values", 8); uint32_t v = n[en::choose(kv, "value")], w = n[en::choose(kv, "value")]; memcpy(&s.data[f * 4], &v, 4); memcpy(&s.data[g * 4], &w, 4); survives(a.segs, "ring: +" + std::to_string(f * 4) + " = " + std::to_string(v) + " +" + std::to_string(g * 4) + " = " + std::to_string(w)); return; } }
EN_SCENARIO(missing) { // parts of the memory are not in the image
	app a; base(a); int n = a.segs.size(), i = en::choose(n, "segment"), how = en::choose(3, "missing"); string w = a.segs[i].what; 
	if (how == 0) { int k = en::choose(n, "segment"); if (k < i) en::skip(); w += string(", ") + a.segs[k].what; a.segs[i].data.clear(); a.segs[k].data.clear(); } else { size_t c = 1 + en::choose(std::min<size_t>(a.segs[i].data.size() - 1, 700), "bytes"); if (how == 1) a.segs[i].data.resize(a.segs[i].data.size() - c); else { a.segs[i].data.erase(0, c); a.segs[i].vma += c; } w += (how == 1 ? " without the last " : " without the first ") + std::to_string(c); }
	vector<seg> v; for (auto &s : a.segs) if (s.data.size()) v.push_back(s); survives(v, w);
}
EN_SCENARIO(lost) { // records whose area, strings or section names are missing are still recovered
	app a; base(a); static const char *opt[] = {"area", "area name", "area bits", "string", "section names", "section name", "timesource", "timesource name", "output", "output buffer", "buffered data"}; const char *w = opt[en::choose(11, "missing")]; int only = en::choose(3, "which"), k = 0; en::note(string("without ") + w);
	vector<seg> v; for (auto &s : a.segs) if (strcmp(s.what, w) || (only && k++ != only - 1)) v.push_back(s);
	result r = recover(core_file(v)); EN_CHECK(r.loaded && r.rows.size() == a.want.size(), "without %s: recovered %zu records instead of %zu", w, r.rows.size(), a.want.size());
	for (size_t i = 0; i < r.rows.size(); i++) EN_CHECK(r.rows[i].ts == a.want[i].ts, "without %s: record at %lu instead of %lu", w, (long) r.rows[i].ts, (long) a.want[i].ts);
}
EN_SCENARIO(cutfile) { // the core file itself is cut short or damaged
	app a; base(a); string c = core_file(a.segs); if (en::choose(2, "how") == 0) { size_t n = en::choose(c.size(), "length"); en::note("core cut to " + std::to_string(n)); c.resize(n); } else { size_t h = std::min<size_t>(c.size(), 64 + 56 * 4), p = en::choose(h, "byte"); if (p >= 64 && (p - 64) % 56 >= 43 && (p - 64) % 56 < 48) en::skip(); /* sections of gigabytes */ int k = en::choose(nval(), "value"); c[p] = bval[k]; en::note("core byte " + std::to_string(p) + " = " + std::to_string(bval[k])); }
	result r = recover(c, 0, TEXT | OBJECTS); en::outcome(std::to_string(r.loaded) + " " + std::to_string(r.text.size())); en::eval();
}
// ---- the command
string slurp(const string &f) { string s; FILE *h = fopen(f.c_str(), "r"); char b[4096]; size_t n; while (h && (n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); if (h) fclose(h); return s; }
int command(vector<string> args, string &out) {
	string of = "out.c" + std::to_string(getpid()); fflush(0); pid_t c = fork();
	if (!c) { int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); vector<char *> v; v.push_back((char *) "hogl-recover"); for (auto &s : args) v.push_back((char *) s.c_str()); v.push_back(0); optind = 1; alarm(20); exit(recover_main(v.size() - 1, v.data())); }
	int st; waitpid(c, &st, 0); out = slurp(of); unlink(of.c_str()); if (WIFSIGNALED(st)) en::fail("hogl-recover killed by signal %d", WTERMSIG(st)); if (WEXITSTATUS(st) == 99) en::fail("hogl-recover: memory error"); return WEXITSTATUS(st);
}
EN_SCENARIO(command) {
	static const char *fm[] = {"default", "fast0", "fast1", "timespec,ring,seqnum,area,section", "area"}; int f = en::choose(5, "format"), opt = en::choose(6, "options"); app a; a.fb.~format_basic(); new (&a.fb) hogl::format_basic(fm[f]); hogl::area *x = a.area("AREA", 3); hogl::ringbuf *r = a.ring("RING0", 4, a.ts("time")); r->pop_begin();
	int n = en::choose(4, "records"); for (int i = 0; i < n; i++) a.post(r, x, i % 3, 1000000000ul * (5 - i), {val::gstr(""), val::i32(i)}, {a.str("number %d")}); if (en::choose(2, "buffered")) a.output("buffered\n"); a.crash(); string file = "core." + std::to_string(getpid()); string c = core_file(a.segs); FILE *o = fopen(file.c_str(), "w"); fwrite(c.data(), 1, c.size(), o); fclose(o);
	vector<string> av = {"-f", fm[f]}; if (opt == 1) av.push_back("-R"); if (opt == 2) av.push_back("-A"); if (opt == 3) { av.push_back("-R"); av.push_back("-A"); } if (opt == 4) av.push_back("-a"); av.push_back(opt == 5 ? "nosuchfile" : file); string out; int st = command(av, out); unlink(file.c_str()); en::note(string("-f ") + fm[f]); en::eval();
	if (opt == 5) { EN_CHECK(st == 1 && body(out).empty(), "a missing file gave status %d: '%s'", st, vis(out).c_str()); return; }
	EN_CHECK(st == 0, "status %d", st); string want = a.buffered; for (auto &t : a.text) for (auto &l : t.second) want += l;
	if (opt == 0) EN_CHECK(body(out) == want, "hogl-recover -f %s printed '%s' instead of '%s'", fm[f], vis(body(out)).c_str(), vis(want).c_str());
	if (opt & 1 && opt < 4) EN_CHECK(out.find("RING0") != string::npos, "-R does not show the ring: '%s'", vis(out).c_str());
	if ((opt == 2 || opt == 3) && n) EN_CHECK(out.find("AREA") != string::npos, "-A does not show the area: '%s'", vis(out).c_str());
	if (opt == 4) for (auto &t : a.text) for (auto &l : t.second) EN_CHECK(out.find(l) != string::npos, "-a does not show '%s': '%s'", vis(l).c_str(), vis(out).c_str());
}
}
