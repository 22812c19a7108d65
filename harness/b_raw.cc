// C14, C15: raw logs. Reference: the records that were encoded.
#include "rec.hpp"
#include <hogl/format-basic.hpp>
#include <hogl/format-raw.hpp>
#include <raw-parser.hpp>
#include <rdbuf.hpp>
#include <limits.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <algorithm>
using namespace vt;
#define main cook_main
#include <cook.cc>
#undef main
namespace {
struct membuf : hogl::rdbuf { // reads from memory
	const string &d; size_t at, most; membuf(const string &s) : d(s), at(0), most(0) {}
	bool valid() const { return true; } bool fail() const { return false; } int error() const { return 0; } size_t count() const { return at; } void reset() { at = 0; }
	bool read(void *p, unsigned n) { size_t k = std::min<size_t>(n, d.size() - at); if (p) memcpy(p, d.data() + at, k); at += k; return k == n; }
};
struct clk : hogl::timesource { static uint64_t now; static hogl::timestamp get(const hogl::timesource *) { hogl::timestamp t; t.from_nsec(now); return t; } clk() : hogl::timesource("CLK", get) {} };
uint64_t clk::now; clk &clock_() { static clk c; return c; }
struct rec { string ring, area, sect; uint64_t ts, seq; vector<val> a; };
// encode by posting and formatting
struct encoder {
	hogl::format_raw fr; hogl::format_basic fb; strbuf raw, text; string bin, txt; vector<size_t> ends;
	encoder(uint32_t fields = 127) : fb(fields), raw(64), text(64) {}
	void add(rec &x) {
		const char *sv[] = {"FIRST", x.sect.c_str(), 0}; hogl::area ar(x.area.c_str(), sv); size_t need = 64; for (auto &v : x.a) need += 32 + v.s.size();
		hogl::ringbuf *rg = ring(2, need, x.ring.c_str()); rg->timesource(&clock_()); clk::now = x.ts; post(rg, &ar, 1, x.a, POST_UNLOCKED); hogl::record *r = rg->pop_begin(); EN_CHECK(r, "not posted"); r->seqnum = x.seq;
		hogl::format::data d = {x.ring.c_str(), r}; fr.process(raw, d); bin += raw.take(); fb.process(text, d); txt += text.take(); ends.push_back(bin.size()); rg->pop_commit(); rg->release();
	}
};
void compare(const hogl::format::data *d, const rec &x, size_t k, const char *what) {
	const hogl::record *r = d->record; en::eval();
	EN_CHECK(x.ring == d->ring_name, "%s: record %zu has ring '%s' instead of '%s'", what, k, d->ring_name, x.ring.c_str());
	EN_CHECK(r->area && x.area == r->area->name(), "%s: record %zu has area '%s' instead of '%s'", what, k, r->area->name(), x.area.c_str());
	EN_CHECK(x.sect == r->area->section_name(r->section), "%s: record %zu has section '%s' instead of '%s'", what, k, r->area->section_name(r->section), x.sect.c_str());
	EN_CHECK(x.ts == (uint64_t) r->timestamp && x.seq == r->seqnum, "%s: record %zu has time %lu number %lu instead of %lu %lu", what, k, (uint64_t) r->timestamp, (uint64_t) r->seqnum, x.ts, x.seq);
	for (size_t i = 0; i < 16; i++) {
		unsigned t = r->get_arg_type(i), want = i < x.a.size() ? x.a[i].type : (unsigned) arg::NONE; if (want == arg::GSTR) want = arg::CSTR; EN_CHECK(t == want, "%s: record %zu: argument %zu has type %u instead of %u", what, k, i, t, want); if (i >= x.a.size()) continue; const val &v = x.a[i]; unsigned len = 0;
		if (t == arg::INT32 || t == arg::UINT32) EN_CHECK(r->get_arg_val32(i) == (uint32_t) v.v, "%s: record %zu: argument %zu is %x instead of %x", what, k, i, r->get_arg_val32(i), (uint32_t) v.v);
		else if (t == arg::CSTR || t == arg::RAW) { const char *p = (const char *) r->get_arg_data(i, len); EN_CHECK(string(p, len) == v.s && (t == arg::RAW || p[len] == 0), "%s: record %zu: argument %zu of %zu bytes became %u bytes '%s'", what, k, i, v.s.size(), len, vis(string(p, len)).c_str()); }
		else if (t == arg::XDUMP) { const char *p = (const char *) r->get_arg_data(i, len); EN_CHECK(len == v.s.size() + sizeof v.xd.fmt && !memcmp(p, &v.xd.fmt, sizeof v.xd.fmt) && !memcmp(p + sizeof v.xd.fmt, v.s.data(), v.s.size()), "%s: record %zu: dump argument %zu of %zu bytes changed (%u bytes)", what, k, i, v.s.size(), len); }
		else EN_CHECK(r->get_arg_val64(i) == v.v, "%s: record %zu: argument %zu is %lx instead of %lx", what, k, i, (unsigned long) r->get_arg_val64(i), (unsigned long) v.v);
	}
}
// parse everything from in; whole: bytes available. returns false if an error was reported
void decode(hogl::rdbuf &in, const vector<rec> &x, const vector<size_t> &ends, size_t whole, const char *what, string *text = 0, unsigned size = 4096) {
	hogl::raw_parser p(in, hogl::raw_parser::V1_1, size); EN_CHECK(!p.failed(), "%s: parser failed", what); size_t n = std::upper_bound(ends.begin(), ends.end(), whole) - ends.begin(), k = 0; hogl::format_basic f(127); strbuf sb(64);
	for (; const hogl::format::data *d = p.next(); k++) { EN_CHECK(k < n, "%s: record %zu found in %zu of %zu bytes, which hold %zu records", what, k, whole, ends.back(), n); compare(d, x[k], k, what); if (text) { f.process(sb, *d); *text += sb.take(); } }
	EN_CHECK(k == n, "%s: %zu of %zu records found in %zu bytes%s%s", what, k, n, whole, p.failed() ? ": " : "", p.failed() ? p.error().c_str() : ""); size_t rest = whole - (n ? ends[n - 1] : 0);
	EN_CHECK(rest != 0 || !p.failed(), "%s: error at the end of the log: %s", what, p.error().c_str()); EN_CHECK(rest <= 8 || p.failed(), "%s: no error though the log ends %zu bytes after the last whole record", what, rest);
}
string bytes(size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char) (i * 53 + 1); return s; }
val value(int k) {
	switch (k) {
	case 0: return val::i32(-2); case 1: return val::u32(0x80000001u); case 2: return val::i64(LONG_MIN); case 3: return val::u64(~0ul - 1); case 4: return val::ptr(0xfedcba9876543210ul); case 5: return val::dbl(-0.1); case 6: return val::cstr("string\xff%d"); case 7: return val::gstr("global"); case 8: return val::xdump(bytes(5), 'd', 2, 3, 4, ','); case 9: return val::raw(bytes(9));
	case 10: return val::cstr(""); case 11: return val::gstr(""); case 12: return val::raw(""); case 13: return val::xdump("", 'H'); case 14: return val::i32(0); case 15: return val::cstr("x"); case 16: return val::raw(string(3, '\0')); case 17: return val::dbl(1e308); default: return val::u64(0);
	}
}
string write_file(const string &s) { string n = "raw." + std::to_string(getpid()); FILE *f = fopen(n.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); return n; }
rec mk(int i) { rec x; x.ring = "RING" + std::to_string(i); x.area = "AREA"; x.sect = "SECTION"; x.ts = 1000000000ul * i + 5; x.seq = i; return x; }
void everything(vector<rec> &x, bool cuts) {
	string n; for (auto &r : x) n += "[" + show(r.a) + "] "; en::note(n); encoder e; for (auto &r : x) e.add(r);
	string text; { membuf m(e.bin); decode(m, x, e.ends, e.bin.size(), "whole log", &text); }
	EN_CHECK(text == e.txt || n.find("gstr ''") != n.npos || n.find("xdump") != n.npos || n.find("raw") != n.npos, "decoded log prints '%s' instead of '%s'", vis(text).c_str(), vis(e.txt).c_str());
	if (cuts) for (size_t c = 0; c < e.bin.size(); c++) { string s = e.bin.substr(0, c); membuf m(s); decode(m, x, e.ends, c, ("log cut at " + std::to_string(c)).c_str()); }
}
EN_SCENARIO(types) { int n = en::choose(en::param("len", 3) + 1, "arguments"); vector<rec> x(2, mk(1)); for (int i = 0; i < n; i++) x[0].a.push_back(value(en::choose(n > 2 ? 11 : 19, "argument"))); x[1].a.push_back(val::i32(7)); x[1].ring = "OTHER"; everything(x, true); }
EN_SCENARIO(many) { int n = en::choose(16, "arguments") + 1, p = en::choose(n, "position"), fill = en::choose(2, "others"); vector<rec> x(1, mk(2)); int k = en::choose(19, "argument"); for (int i = 0; i < n; i++) x[0].a.push_back(i == p ? value(k) : fill ? val::cstr("s" + std::to_string(i)) : val::u32(i)); everything(x, n < 4 || n == 16); }
EN_SCENARIO(histories) { int n = en::choose(en::param("len", 4), "records") + 1; vector<rec> x; for (int i = 0; i < n; i++) { rec r = mk(i); switch (en::choose(7, "record")) { case 0: r.a.push_back(val::cstr("fmt %d %s")); r.a.push_back(val::i32(i)); r.a.push_back(val::cstr("arg")); break; case 1: r.a.push_back(val::gstr("global")); r.area = "AREA-" + string(i, 'x'); break; case 2: break; case 3: r.a.push_back(val::xdump(bytes(17))); r.ring = "R" + string(100, 'r'); break; case 4: r.a.push_back(val::raw(bytes(30))); r.sect = "S2"; break; case 5: for (int k = 0; k < 16; k++) r.a.push_back(val::u64(k)); break; case 6: r.a.push_back(val::cstr("long " + string(300, 'l'))); r.a.push_back(val::dbl(.5)); break; } x.push_back(r); } everything(x, n < 3); }
EN_SCENARIO(numbers) { static const uint64_t ts[] = {1, 255, 256, 999999999, 1000000000, 1ul << 32, 1700000000123456789ul, ~0ul, 0x0102030405060708ul}, sq[] = {0, 1, 255, 65536, (1ul << 32) + 1, (1ul << 52) - 1}; vector<rec> x(1, mk(0)); x[0].ts = ts[en::choose(9, "time")]; x[0].seq = sq[en::choose(6, "number")]; x[0].a.push_back(val::cstr("x")); everything(x, true); }
EN_SCENARIO(names) { static const int ln[] = {2, 3, 17, 127, 128}; vector<rec> x(2, mk(0)); int which = en::choose(3, "name"); string s(ln[en::choose(5, "length")], (char) en::choose(95, "character") + 32); (which == 0 ? x[0].ring : which == 1 ? x[0].area : x[0].sect) = s; x[0].a.push_back(val::i32(1)); everything(x, false); }
EN_SCENARIO(lengths) {
	static const int ln[] = {0, 1, 2, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65534, 65535}; int k = en::choose(4, "type"), n = ln[en::choose(16, "length")], more = en::choose(3, "more"); vector<rec> x(2, mk(0)); string b = bytes(n); for (auto &c : b) if (!c) c = 1; en::note("length " + std::to_string(n));
	val v = k == 0 ? val::cstr(b) : k == 1 ? val::gstr(b) : k == 2 ? val::raw(bytes(n * 3)) : val::xdump(bytes(n * 3)); if (more == 1) x[0].a.push_back(val::cstr("before")); x[0].a.push_back(v); if (more == 2) x[0].a.push_back(v); x[0].a.push_back(val::i32(7)); x[1].a.push_back(val::raw("end"));
	encoder e; for (auto &r : x) e.add(r); membuf m(e.bin); decode(m, x, e.ends, e.bin.size(), ("length " + std::to_string(n)).c_str(), 0, 10 << 20); string f = write_file(e.bin); { hogl::file_rdbuf in(f); decode(in, x, e.ends, e.bin.size(), "file", 0, 10 << 20); } unlink(f.c_str());
}
// the reader: buffers of every size, input arriving in pieces of every size
vector<rec> sample(int k) { vector<rec> x; for (int i = 0; i < 3; i++) { rec r = mk(i); if (k == 0) { r.a.push_back(val::cstr("text %d")); r.a.push_back(val::i32(i)); } else if (k == 1) { r.a.push_back(val::raw(bytes(7 * i))); r.a.push_back(val::xdump(bytes(i))); } x.push_back(r); } return x; }
EN_SCENARIO(buffers) { vector<rec> x = sample(en::choose(3, "log")); encoder e; for (auto &r : x) e.add(r); unsigned cap = en::choose(e.bin.size() + 2, "buffer") + 1; size_t cut = en::choose(e.bin.size() + 1, "bytes"); string f = write_file(e.bin.substr(0, cut)); { hogl::file_rdbuf in(f, 0, cap); EN_CHECK(in.valid() && !in.fail(), "file cannot be opened"); decode(in, x, e.ends, cut, "file", 0, 512); EN_CHECK(in.count() <= cut, "%zu bytes counted of %zu", in.count(), cut); } unlink(f.c_str()); }
EN_SCENARIO(pieces) {
	vector<rec> x = sample(en::choose(3, "log")); encoder e; for (auto &r : x) e.add(r); size_t n = e.bin.size(), step = en::param("step", 3), a = en::choose(n / step + 1, "first piece") * step, b = a + en::choose((n - a) / step + 1, "second piece") * step; int fd[2]; if (pipe2(fd, O_DIRECT)) en::skip(); // one read gets one piece
	size_t at = 0; for (size_t s : {a, b - a, n - b}) { if (s && write(fd[1], e.bin.data() + at, s) != (ssize_t) s) en::skip(); at += s; } close(fd[1]); int save = dup(0); dup2(fd[0], 0); close(fd[0]);
	en::note("pieces of " + std::to_string(a) + " and " + std::to_string(b - a) + " bytes"); { hogl::file_rdbuf in("-"); decode(in, x, e.ends, n, "pieces", 0, 512); EN_CHECK(in.count() == n, "%zu bytes counted of %zu", in.count(), n); } dup2(save, 0); close(save);
}
// every read gets a piece of the same size, never more than the reader's buffer; blocks smaller and larger than the buffer
EN_SCENARIO(packets) {
	static const unsigned caps[] = {1, 2, 5, 16, 100, 4096}, sizes[] = {0, 1, 15, 16, 17, 99, 100, 101, 3000, 4096, 4097, 9000}; unsigned cap = caps[en::choose(6, "buffer")]; vector<rec> x(3, mk(0)); unsigned sz = sizes[en::choose(12, "size of data")], k = en::choose(3, "kind of data");
	unsigned p = cap <= 16 ? 1 + en::choose(cap, "piece") : cap == 100 ? 1 + 9 * en::choose(12, "piece") : (unsigned[]) {1000, 2048, 4095, 4096}[en::choose(4, "piece")]; string d = bytes(sz); for (auto &c : d) if (!c) c = 1; for (int i = 0; i < 3; i++) { x[i] = mk(i); if (i) x[i].a.push_back(k == 0 ? val::raw(d) : k == 1 ? val::xdump(d) : val::cstr(d)); x[i].a.push_back(val::i32(i)); }
	encoder e; for (auto &r : x) e.add(r); size_t n = e.bin.size(); if ((n + p - 1) / p > 250) en::skip(); int fd[2]; if (pipe2(fd, O_DIRECT) || fcntl(fd[1], F_SETPIPE_SZ, 1 << 20) < 0) en::skip();
	for (size_t at = 0; at < n; at += p) { ssize_t l = std::min<size_t>(p, n - at); if (write(fd[1], e.bin.data() + at, l) != l) en::skip(); } close(fd[1]); int save = dup(0); dup2(fd[0], 0); close(fd[0]);
	en::note("buffer " + std::to_string(cap) + " pieces of " + std::to_string(p) + " data of " + std::to_string(sz)); { hogl::file_rdbuf in("-", 0, cap); decode(in, x, e.ends, n, "packets", 0, 20000); EN_CHECK(in.count() == n, "%zu bytes counted of %zu", in.count(), n); } dup2(save, 0); close(save); en::outcome(std::to_string(sz) + std::to_string(p));
}
// following a growing log: records appended after it was opened
EN_SCENARIO(tail) {
	int n0 = en::choose(3, "records before"), n = en::choose(3, "records after") + 1; unsigned cap = en::choose(3, "buffer") == 0 ? 1 : 7; string f = write_file(""); FILE *o = fopen(f.c_str(), "w"); vector<rec> x; encoder e; for (int i = 0; i < n0 + n; i++) { x.push_back(mk(i)); x.back().a.push_back(val::cstr("text")); e.add(x.back()); } 
	fwrite(e.bin.data(), 1, n0 ? e.ends[n0 - 1] : 0, o); fflush(o); { hogl::file_rdbuf in(f, hogl::file_rdbuf::TAILF, cap); EN_CHECK(in.valid() && !in.fail(), "file cannot be opened"); hogl::raw_parser p(in, hogl::raw_parser::V1_1, 512);
	for (int i = n0; i < n0 + n; ) { int k = 1 + en::choose(std::min(2, n0 + n - i), "appended"); for (int j = 0; j < k; j++) { size_t b = i + j ? e.ends[i + j - 1] : 0; fwrite(e.bin.data() + b, 1, e.ends[i + j] - b, o); fflush(o); } for (int j = 0; j < k; j++) { auto *d = p.next(); EN_CHECK(d, "appended record %d not found: %s", i + j, p.error().c_str()); compare(d, x[i + j], i + j, "growing log"); } i += k; } } fclose(o); unlink(f.c_str());
}
// ---- the command
string slurp(const string &f) { string s; FILE *h = fopen(f.c_str(), "r"); char b[4096]; size_t n; while (h && (n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); if (h) fclose(h); return s; }
int cook(const string &in, const char *fmt, string &out, bool std_in, unsigned min_valid = 4, const char *ver = "1.1") {
	string of = "out." + std::to_string(getpid()); fflush(0); pid_t c = fork();
	if (!c) { int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); if (std_in) { int i = open(in.c_str(), O_RDONLY); dup2(i, 0); } 
		string mv = std::to_string(min_valid); const char *av[] = {"hogl-cook", "-f", fmt, "-M", "4096", "-R", mv.c_str(), "-v", ver, std_in ? "-" : in.c_str(), 0}; optind = 1; alarm(20); exit(cook_main(10, (char **) av)); }
	int st; waitpid(c, &st, 0); out = slurp(of); unlink(of.c_str()); if (WIFSIGNALED(st)) en::fail("hogl-cook killed by signal %d", WTERMSIG(st)); if (WEXITSTATUS(st) == 99) en::fail("hogl-cook: memory error"); return WEXITSTATUS(st);
}
EN_SCENARIO(cook) {
	static const char *fm[] = {"default", "fast0", "fast1", "timespec,ring,seqnum,area,section", "area"}; static const uint32_t ff[] = {hogl::format_basic::DEFAULT, hogl::format_basic::FAST0, hogl::format_basic::FAST1, hogl::format_basic::FAST0, hogl::format_basic::AREA}; int k = en::choose(5, "format"); bool si = en::choose(2, "standard input"); int n = en::choose(4, "records") * 2; encoder e(ff[k]); vector<rec> x; vector<size_t> tends;
	for (int i = 0; i < n; i++) { rec r = mk(i + 1); switch ((i + n) % 4) { case 0: r.a.push_back(val::cstr("fmt %d|%s|%.3f")); r.a.push_back(val::i32(-i)); r.a.push_back(val::gstr("glob")); r.a.push_back(val::dbl(i / 3.)); break; case 1: r.a.push_back(val::xdump(bytes(25), 'H', 1, 2, 8)); break; case 2: r.a.push_back(val::i64(-i)); r.a.push_back(val::cstr("str%")); break; case 3: r.a.push_back(val::cstr("dump")); r.a.push_back(val::xdump(bytes(16), 'u', 4, 2, 3)); break; } x.push_back(r); e.add(r); tends.push_back(e.txt.size()); }
	size_t cut = e.bin.size(); if (n && en::choose(2, "cut")) cut -= 1 + en::choose(std::min<int>(40, e.bin.size()), "missing bytes"); size_t whole = std::upper_bound(e.ends.begin(), e.ends.end(), cut) - e.ends.begin(); string f = write_file(e.bin.substr(0, cut)), out; cook(f, fm[k], out, si); unlink(f.c_str()); string want = e.txt.substr(0, whole ? tends[whole - 1] : 0);
	EN_CHECK(out == want, "hogl-cook -f %s printed '%s' instead of '%s'", fm[k], vis(out).c_str(), vis(want).c_str());
}
string mask(string s) { size_t q; while ((q = s.find("@ 0x")) != s.npos) s.replace(q, s.find_first_of(" \n", q + 2) - q, "@"); return s; }
EN_SCENARIO(oldver) { // logs of the old format, where raw data have 16 bits for their length
	int n = en::choose(en::param("len", 3) + 1, "arguments"); rec r = mk(1); for (int i = 0; i < n; i++) r.a.push_back(value(en::choose(18, "argument"))); vector<rec> x(2, r); x[1].a.push_back(val::raw(bytes(300)));
	string bin; vector<size_t> ends; encoder e(hogl::format_basic::FAST1);
	for (auto &q : x) {
		string o((char *) &q.ts, 8); o.append((char *) &q.seq, 8); for (auto *s : {&q.ring, &q.area, &q.sect}) { o += (char) s->size(); o += *s; } uint64_t t = 0; for (size_t i = 0; i < q.a.size(); i++) t |= (uint64_t) q.a[i].type << (4 * i); o.append((char *) &t, 8);
		for (auto &v : q.a) switch (v.type) { case arg::CSTR: case arg::GSTR: case arg::RAW: case arg::XDUMP: { string d = v.type == arg::XDUMP ? string((char *) &v.xd.fmt, sizeof v.xd.fmt) + v.s : v.s; uint16_t l = d.size(); o.append((char *) &l, 2); o += d; break; } case arg::INT32: case arg::UINT32: o.append((char *) &v.v, 4); break; default: o.append((char *) &v.v, 8); }
		bin += o; ends.push_back(bin.size()); e.add(q);
	}
	membuf m(bin); hogl::raw_parser p(m, hogl::raw_parser::V1, 4096); for (size_t k = 0; k < x.size(); k++) { auto *d = p.next(); EN_CHECK(d, "record %zu of an old log not found: %s", k, p.error().c_str()); compare(d, x[k], k, "old log"); } EN_CHECK(!p.next() && !p.failed(), "no end of an old log");
	if (n < 3) { string f = write_file(bin), out; cook(f, "fast1", out, false, 4, "1.0"); unlink(f.c_str()); string ref; { membuf m2(e.bin); hogl::raw_parser p2(m2, hogl::raw_parser::V1_1, 4096); hogl::format_basic fb(hogl::format_basic::FAST1); strbuf sb(64); while (auto *d = p2.next()) { fb.process(sb, *d); ref += sb.take(); } } 
		EN_CHECK(mask(out) == mask(ref), "hogl-cook -v 1.0 printed '%s' instead of '%s'", vis(out).c_str(), vis(ref).c_str()); }
}
// ---- C15: damaged logs
string dirt(char c) { encoder e; rec x = mk(9); x.a.push_back(val::cstr(string(700, c))); e.add(x); return e.bin; } // fills the parser's buffer
string digest(const string &s, const string &d, uint32_t fields, unsigned ver, bool again) {
	string all = d + s, out; membuf m(all); hogl::raw_parser p(m, ver, 1024); hogl::format_basic f(fields); hogl::format_raw fr; strbuf sb(64); bool first = d.size() > 0; unsigned n = 0;
	while (const hogl::format::data *x = p.next()) { if (first) { first = false; continue; } EN_CHECK(++n < 1000, "endless records"); string a; 
		if (x->record->get_arg_type(0) != arg::RAW) { f.process(sb, *x); string t = sb.take(); EN_CHECK(t.size() && t[t.size() - 1] == '\n', "output of a record does not end its line"); size_t q; while ((q = t.find("@ 0x")) != t.npos) t.replace(q, t.find_first_of(" \n", q + 2) - q, "@"); out += t; } else { f.process(sb, *x); sb.take(); out += "raw\n"; }
		fr.process(sb, *x); a = sb.take(); out += en::hex(a.data(), a.size()) + "\n"; if (again) out += digest(a, "", fields, hogl::raw_parser::V1_1, false); }
	return out + (p.failed() ? "error\n" : "end\n");
}
void damaged(const string &s, const string &what) {
	en::note(what); static const string dx = dirt('x'), dy = dirt('y'); string a = digest(s, dx, 127, hogl::raw_parser::V1_1, true), b = digest(s, dy, 127, hogl::raw_parser::V1_1, true); en::eval(2);
	if (a != b) en::fail("%s: records contain left over bytes: '%s' / '%s'", what.c_str(), vis(a).c_str(), vis(b).c_str());
}
string base(int k) {
	encoder e; vector<rec> x;
	switch (k) {
	case 0: x.push_back(mk(1)); x[0].a = {val::cstr("f %d %s"), val::i32(3), val::cstr("str")}; break;
	case 1: x.push_back(mk(1)); x[0].a = {val::i32(1), val::xdump(bytes(6), 'H', 1, 2, 4), val::raw("abc"), val::gstr("g")}; break;
	case 2: x.push_back(mk(1)); x[0].a = {val::gstr("%s|%lu|%f"), val::gstr("glob"), val::u64(5), val::dbl(1.5), val::ptr(77)}; break;
	case 3: x.push_back(mk(1)); x[0].a = {val::raw(bytes(5))}; x.push_back(mk(2)); x[1].a = {val::xdump(bytes(8), 'f', 8, 2, 1), val::xdump(bytes(4), 'd', 2, 2, 0)}; break;
	case 4: x.push_back(mk(1)); for (int i = 0; i < 16; i++) x[0].a.push_back(i % 3 ? val::u32(i) : val::cstr("ab")); break;
	case 5: x.push_back(mk(1)); x.push_back(mk(2)); x[1].a = {val::cstr("")}; break;
	}
	for (auto &r : x) e.add(r); return e.bin;
}
enum { NBASE = 6 };
const int interesting[] = {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 32, 37, 42, 64, 65, 126, 127, 128, 129, 0x87, 0x88, 0x89, 0x8a, 0x98, 0xa9, 0xaa, 0xbb, 0xf0, 0xfe, 0xff};
EN_SCENARIO(mutate) {
	string s = base(en::choose(NBASE, "log")); size_t p = en::choose(s.size(), "position"); int all = en::param("all", 1), v = en::choose(all ? 256 : sizeof interesting / sizeof *interesting, "value"); if (!all) v = interesting[v]; if (s[p] == (char) v) en::skip(); s[p] = v; damaged(s, "byte " + std::to_string(p) + " = " + std::to_string(v));
}
EN_SCENARIO(mutate2) { // two positions
	string s = base(en::choose(NBASE, "log")); int nv = en::param("values", 6); static const int vs[] = {0, 0xff, 0x88, 1, 0x7f, 0x9a, '%', '*', 0xa0, 0x0a, 16, 200}; size_t near = en::param("near", 12), p = en::choose(s.size() - 1, "position"), q = p + 1 + en::choose(std::min(near, s.size() - 1 - p), "distance"); s[p] = vs[en::choose(nv, "value")]; s[q] = vs[en::choose(nv, "value")]; damaged(s, "bytes " + std::to_string(p) + " and " + std::to_string(q));
}
EN_SCENARIO(edit) { // bytes removed, inserted, duplicated; logs joined in the middle
	int b = en::choose(NBASE, "log"); string s = base(b); int how = en::choose(4, "edit"); size_t p = en::choose(s.size(), "position"); 
	switch (how) { case 0: { size_t n = 1 + en::choose(std::min<size_t>(24, s.size() - p), "length"); s.erase(p, n); break; } case 1: { size_t n = 1 + en::choose(24, "length"); s.insert(p, s.substr(p, n)); break; } case 2: s.insert(p, 1, (char) interesting[en::choose(sizeof interesting / sizeof *interesting, "value")]); break; case 3: { string t = base(en::choose(NBASE, "second log")); size_t q = en::choose(t.size(), "from"); s = s.substr(0, p) + t.substr(q); break; } }
	damaged(s, "edit " + std::to_string(how) + " at " + std::to_string(p));
}
void u64(string &s, uint64_t v, int n) { s.append((const char *) &v, n); }
EN_SCENARIO(grammar) { // record headers are fine, every list of argument types with every interesting length and amount of data
	string s; u64(s, 5, 8); u64(s, 1, 8); for (const char *n : {"RING", "AREA", "SECT"}) { s += (char) strlen(n); s += n; } int n = en::choose(en::param("len", 2) + 1, "arguments"); uint64_t types = 0; vector<int> t(n); for (int i = 0; i < n; i++) { t[i] = en::choose(15, "type") + 1; types |= (uint64_t) t[i] << (4 * i); } if (en::choose(2, "more types")) types |= 0x8ull << (4 * (n + 1)); u64(s, types, 8);
	static const uint32_t lens[] = {0, 1, 3, 4, 5, 12, 800, 855, 856, 857, 863, 864, 865, 872, 873, 1023, 65535, 0x10000, 0x7fffffff, 0xffffffff, 0xfffffffc};
	uint32_t left = 864; // what fits into 1024 bytes
	for (int i = 0; i < n; i++) { int w = t[i] == arg::CSTR || t[i] == arg::GSTR ? 2 : t[i] == arg::XDUMP || t[i] == arg::RAW ? 4 : 0; if (!w) { u64(s, t[i] == 2 ? 0x80000000u : ~0ul, t[i] <= 2 ? 4 : 8); continue; } uint32_t l; if (i == 0) l = lens[en::choose(w == 2 ? 17 : 21, "length")]; else { const uint32_t rl[] = {0, 5, left - 1, left, left + 1, 0xffff, 0xfffffff0u}; l = rl[en::choose(w == 2 ? 6 : 7, "length")]; } left -= l + (w == 2); u64(s, l, w); size_t have = en::choose(2, "data") ? std::min<uint32_t>(l, 70000) : std::min<uint32_t>(l / 2, 100); static const char *fills[] = {"%s%d%%", "H\x21\x04 abc", "d\x04\x00,12345678", "f\x08\x02;\xff\xfe"}; int fk = en::choose(i ? 2 : 4, "contents"); string d; while (d.size() < have) d += fk == 2 ? string("d\x04\x00,12345678", 12) : fills[fk]; s += d.substr(0, have); }
	int tail = en::choose(2, "another record"); if (tail) s += base(0); damaged(s, "types " + std::to_string(types));
}
EN_SCENARIO(noise) { // short inputs that are no logs at all
	int n = en::choose(en::param("len", 4), "length"); string s = en::choose(2, "header") ? string(16, '\1') : ""; static const unsigned char al[] = {0, 1, 2, 'A', 0xff}; for (int i = 0; i < n; i++) s += (char) al[en::choose(5, "byte")]; string t = base(1); if (en::choose(2, "then a log")) s += t; damaged(s, "noise"); }
EN_SCENARIO(cookbad) { // the command on damaged logs
	int b = en::choose(NBASE, "log"); string s = base(b) + base(0) + base(1); int mv = en::choose(2, "valid records"); size_t step = en::param("step", 3), p = en::choose(base(b).size() / step, "position") * step; s[p] = interesting[en::choose(4, "value") * 10]; string f = write_file(s), out; cook(f, "fast1", out, false, mv * 4); unlink(f.c_str()); en::eval(); }
}
