// C13: text output. Reference: the C library's printf family, strftime.
#include "rec.hpp"
#include <hogl/format-basic.hpp>
#include <limits.h>
#include <math.h>
#include <time.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include <stdarg.h>
using namespace vt;
namespace {
const char *sections[] = {"SECT", "OTHER-SECTION", 0};
hogl::area &area() { static hogl::area a("AREA", sections); return a; }
struct out { // formats one posted record
	hogl::format_basic f; strbuf sb; hogl::ringbuf *rg;
	out(uint32_t fields = 0, unsigned tail = 2048) : f(fields), sb(0), rg(ring(4, tail)) {}
	~out() { rg->release(); }
	string operator()(vector<val> &v, how h = POST_UNLOCKED) {
		post(rg, &area(), 0, v, h); hogl::record *r = rg->pop_begin(); EN_CHECK(r, "record was not posted");
		void *m = malloc(rg->record_size()); memcpy(m, (void *) r, rg->record_size()); // a copy of its own: reading past the record is seen
		hogl::format::data d = { "RING", (hogl::record *) m }; f.process(sb, d); free(m); rg->pop_commit(); return sb.take();
	}
};
string pf(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
void same(const string &got, const string &want, const string &what) { en::eval(); if (got != want) en::fail("%s: output '%s' instead of '%s'", what.c_str(), vis(got).c_str(), vis(want).c_str()); }

const int small[] = {0, 1, -1, 7, 65, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 12345, INT_MAX, INT_MIN};
// one printed piece: directive, its arguments (star arguments first) and the expected text
struct piece { string text; vector<val> a; string want; };
string print1(const string &dir, const string &lm, char conv, int nstar, int s0, int s1, val &v) {
	char b[4096]; const char *f = dir.c_str();
#define GO(x) (nstar == 2 ? snprintf(b, sizeof b, f, s0, s1, x) : nstar == 1 ? snprintf(b, sizeof b, f, s0, x) : snprintf(b, sizeof b, f, x))
	switch (v.type) {
	case arg::DOUBLE: GO(v.d); break; case arg::CSTR: case arg::GSTR: GO(v.s.c_str()); break; case arg::POINTER: GO((void *) v.v); break;
	case arg::INT64: case arg::UINT64: GO(v.v); break; default: GO((int) v.v); break;
	}
	return b;
}
const char *wd[] = {"", "1", "2", "5", "12", "*", "24"}, *pr[] = {"", ".", ".0", ".1", ".3", ".10", ".*"};
bool agreed(const string &fl, const string &w, const string &p, const string &lm, char c, const val &v, int s0, int s1) {
	bool none = (lm == "hh" ? v.v & 0xff : lm == "h" ? v.v & 0xffff : v.v) == 0;
	bool zero = fl.find('0') != fl.npos, alt = fl.find('#') != fl.npos, intg = strchr("diuxXo", c), dot = p.size();
	int pv = p == ".*" ? s1 : p.size() > 1 ? atoi(p.c_str() + 1) : 0;
	// undefined in C
	if (alt && strchr("diucsp", c)) return false;
	if ((zero || fl.find_first_of("+ ") != fl.npos) && strchr("csp", c)) return false;
	if (dot && strchr("cp", c)) return false;
	// recorded findings, see scenario differs
	if (intg && dot && pv == 0 && none) return false;
	if (alt && strchr("gG", c)) return false;
	if (zero && strchr("aA", c)) return false;
	if (strchr("fF", c) && fabs(v.d) > 1e17 && isfinite(v.d)) return false;
	return true;
}
// every flag set, width, precision, length and conversion the documentation of printf and the library agree on, all values
EN_SCENARIO(directives) {
	static const char *convs = "diuxXocspfFeEgGaA"; char c = convs[en::choose(strlen(convs), "conversion")];
	bool intg = strchr("diuxXo", c), sgn = strchr("di", c), flt = strchr("aAeEfFgG", c);
	static const char *fls[] = {"", "-", "+", " ", "#", "0", "-+", "+0", "-#", "#0", "- ", " 0", "-0", "+ ", " +", "-+0", "#+"}; string fl = fls[en::choose(17, "flags")];
	static const char *lms[] = {"", "hh", "h", "l", "ll", "j", "z", "t"}; int li = intg ? en::choose(8, "length") : flt ? 3 * en::choose(2, "l") : 0; string lm = lms[li];
	string w = wd[en::choose(7, "width")], p = pr[en::choose(7, "precision")]; vector<val> vs;
	if (intg) {
		for (int x : small) { if (li < 3) { vs.push_back(sgn ? val::i32(x) : val::u32(x)); continue; }
			for (int sh : {0, 15, 31}) vs.push_back(sgn ? val::i64((int64_t) ((uint64_t) (int64_t) x << sh)) : val::u64((uint64_t) (int64_t) x << sh)); }
		if (li >= 3) { vs.push_back(sgn ? val::i64(LONG_MIN) : val::u64(1ul << 63)); vs.push_back(sgn ? val::i64(LONG_MAX) : val::u64(LONG_MAX)); }
	} else if (flt) for (double d : {0.0, -0.0, 1.0, -1.5, 0.1, 9.995, 123456.789, 1e10, 123456789012345.678, 4503599627370497.5, -9007199254740993.0, 12345678901234567.0, 1e16, 1e-300, 1e300, 5e-324, -1e-10, 0.5, 2.5, 1e15, 1e-5, 99999.95, 1e100, (double) INFINITY, -(double) INFINITY, (double) NAN}) vs.push_back(val::dbl(d));
	else if (c == 'c') for (int x : {65, 37, 10, 127}) { vs.push_back(val::i32(x)); }
	else if (c == 'p') for (uint64_t x : {1ul, 0x1234ul, 0x7fffffffffful, ~0ul}) vs.push_back(val::ptr(x));
	else for (const char *s : {"a", "hello", "100%d", "\x01\xff", "0123456789012345678901234567890123456789"}) { vs.push_back(val::cstr(s)); vs.push_back(val::gstr(s)); }
	out o; string dir = "%" + fl + w + p + lm + c; int stars = (w == "*") + (p == ".*"); en::note(dir); bool any = false;
	for (auto &v : vs) for (int s0 : {0, 7, 20}) for (int s1 : {0, 2}) {
		if ((stars == 0 && (s0 || s1)) || (stars == 1 && s1)) continue;
		int sw = s0, sp = w == "*" ? s1 : s0; if (w == "*" && !sw) continue;
		if (!agreed(fl, w, p, lm, c, v, sw, sp)) continue;
		any = true; vector<val> a; a.push_back(val::gstr("<" + dir + ">")); if (w == "*") a.push_back(val::i32(sw)); if (p == ".*") a.push_back(val::i32(sp)); a.push_back(v);
		string want = "<" + print1(dir, lm, c, stars, w == "*" ? sw : sp, sp, v) + ">\n"; same(o(a), want, "'" + dir + "' of " + show(a));
	}
	if (!any) en::skip();
}
// recorded findings: deviations of the bundled fmt library
EN_SCENARIO(differs) {
	out o; vector<val> a(1); string f, w;
	switch (en::param("k", 0)) {
	case 0: { static const char *d[] = {"<%.0d>", "<%+.d>", "<%.0x>", "<%4.0u>"}; f = d[en::choose(1, "directive")]; a.push_back(val::i32(0)); w = pf(f.c_str(), 0); break; }
	case 1: { static const char *d[] = {"<%#g>", "<%#.3G>"}; f = d[en::choose(1, "directive")]; a.push_back(val::dbl(0.5)); w = pf(f.c_str(), 0.5); break; }
	case 2: { static const char *d[] = {"<%08a>", "<%012A>"}; f = d[en::choose(1, "directive")]; a.push_back(val::dbl(1)); w = pf(f.c_str(), 1.0); break; }
	case 3: { static const char *d[] = {"<%f>", "<%.0F>"}; f = d[en::choose(1, "directive")]; a.push_back(val::dbl(1e100)); w = pf(f.c_str(), 1e100); break; }
	}
	a[0] = val::cstr(f); same(o(a), w + "\n", f);
}
// several directives and text in one format string, string in the record or global, all ways of posting
EN_SCENARIO(multi) {
	int n = en::choose(en::param("len", 3), "directives") + 1; string f, want; vector<val> a(1);
	static const char *lit[] = {"", " x=", "%%", "\n"};
	for (int i = 0; i < n; i++) {
		const char *l = lit[en::choose(i == 0 ? 4 : 2, "text")]; f += l; want += strcmp(l, "%%") ? l : "%";
		switch (en::choose(12, "directive")) {
		case 0: f += "%d"; a.push_back(val::i32(-42 - i)); want += pf("%d", -42 - i); break;
		case 1: f += "%u"; a.push_back(val::u32(4000000000u + i)); want += pf("%u", 4000000000u + i); break;
		case 2: f += "%s"; a.push_back(val::cstr(pf("str%d", i))); want += pf("str%d", i); break;
		case 3: f += "%s"; a.push_back(val::gstr(pf("glob%d", i))); want += pf("glob%d", i); break;
		case 4: f += "%lx"; a.push_back(val::u64(0x123456789abcul << i)); want += pf("%lx", 0x123456789abcul << i); break;
		case 5: f += "%8.3f|"; a.push_back(val::dbl(3.14159 * i - 1)); want += pf("%8.3f|", 3.14159 * i - 1); break;
		case 6: f += "%c"; a.push_back(val::i32('A' + i)); want += pf("%c", 'A' + i); break;
		case 7: f += "%p"; a.push_back(val::ptr(0xdead0000 + i)); want += pf("%p", (void *) (0xdead0000ul + i)); break;
		case 8: f += "%lld"; a.push_back(val::i64(LONG_MIN + i)); want += pf("%lld", (long long) LONG_MIN + i); break;
		case 9: f += "%-6d|"; a.push_back(val::i32(i)); want += pf("%-6d|", i); break;
		case 10: f += "%*d"; a.push_back(val::i32(6)); a.push_back(val::i32(i)); want += pf("%*d", 6, i); break;
		case 11: f += "%04hx"; a.push_back(val::u32(0xab + i)); want += pf("%04hx", 0xab + i); break;
		}
	}
	int extra = en::choose(2, "more arguments than directives"); if (extra) a.push_back(val::i32(99));
	int tail = en::choose(2, "text after"); if (tail) { f += "%% end"; want += "% end"; }
	a[0] = en::choose(2, "format string in record") ? val::cstr(f) : val::gstr(f); en::note("'" + f + "' " + show(a)); want += "\n";
	for (int h = 0; h < NHOW; h++) { out o; same(o(a, (how) h), want, "'" + f + "' posted " + std::to_string(h)); }
}
// fifteen arguments after the format string; each position with each type
EN_SCENARIO(many) {
	int n = en::choose(15, "arguments") + 1, pos = en::choose(n, "position"), ty = en::choose(6, "type"); string f, want; vector<val> a(1);
	for (int i = 0; i < n; i++) switch (i == pos ? ty : 0) {
		case 0: f += "%d "; a.push_back(val::i32(i)); want += pf("%d ", i); break;
		case 1: f += "%s "; a.push_back(val::cstr("text")); want += "text "; break;
		case 2: f += "%s "; a.push_back(val::gstr("global")); want += "global "; break;
		case 3: f += "%lu "; a.push_back(val::u64(~0ul - i)); want += pf("%lu ", ~0ul - i); break;
		case 4: f += "%.2f "; a.push_back(val::dbl(i / 8.)); want += pf("%.2f ", i / 8.); break;
		case 5: f += "%p "; a.push_back(val::ptr(i + 16)); want += pf("%p ", (void *) (long) (i + 16)); break;
	}
	a[0] = val::cstr(f); want += "\n"; en::note(show(a)); out o; same(o(a), want, "'" + f + "'");
}
// ---- dumps and records without format string
string hexdump(const string &s, unsigned lw) {
	string o; if (!lw) lw = s.size();
	for (size_t off = 0; off < s.size(); off += lw) {
		o += pf("\n\t%03d: ", (int) off); for (size_t i = 0; i < lw; i++) o += off + i < s.size() ? pf("%02x ", (uint8_t) s[off + i]) : string("   ");
		o += "  "; for (size_t i = 0; i < lw && off + i < s.size(); i++) o += isprint((uint8_t) s[off + i]) ? s[off + i] : '.';
	}
	return o;
}
template <typename Tt> string dump(const string &s, const char *f, unsigned lw, char d) {
	string o; size_t n = s.size() / sizeof(Tt);
	for (size_t i = 0; i < n; i++) { Tt v; memcpy(&v, s.data() + i * sizeof v, sizeof v); if (lw ? i % lw == 0 : false) o += "\n\t"; else if (i) o += d; o += pf(f, v); }
	return o;
}
string xdump_text(const val &v) {
	const string &s = v.s; unsigned lw = v.xd.fmt.line_width, bw = v.xd.fmt.byte_width, pr = v.xd.fmt.precision; char d = v.xd.fmt.delim; string ff = pr >= 1 && pr <= 5 ? pf("%%.%uf", pr) : string("%f");
	switch (v.xd.fmt.type) {
	case 'H': return hexdump(s, lw);
	case 'x': case 'u': { string l(1, v.xd.fmt.type); return bw == 1 ? dump<uint8_t>(s, ("%" + l).c_str(), lw, d) : bw == 2 ? dump<uint16_t>(s, ("%" + l).c_str(), lw, d) : bw == 4 ? dump<uint32_t>(s, ("%" + l).c_str(), lw, d) : dump<uint64_t>(s, ("%l" + l).c_str(), lw, d); }
	case 'd': return bw == 1 ? dump<int8_t>(s, "%d", lw, d) : bw == 2 ? dump<int16_t>(s, "%d", lw, d) : bw == 4 ? dump<int32_t>(s, "%d", lw, d) : dump<int64_t>(s, "%ld", lw, d);
	case 'f': return bw == 4 ? dump<float>(s, ff.c_str(), lw, d) : dump<double>(s, ff.c_str(), lw, d);
	}
	return "";
}
string bytes(size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char) (i * 37 + (i > 8 ? 0x80 : 0x3f)); return s; }
EN_SCENARIO(dumps) {
	static const char types[] = "Hxudf"; char t = types[en::choose(5, "type")]; unsigned bw = t == 'H' ? 1 : 1u << en::choose(4, "width"); if (t == 'f' && bw < 4) en::skip();
	unsigned prec = t == 'f' ? en::choose(8, "precision") : 2; static const unsigned lws[] = {0, 1, 2, 3, 16, 20, 255}; unsigned lw = lws[en::choose(7, "line")]; char d = ",: "[en::choose(t == 'H' ? 1 : 3, "delimiter")];
	string data; unsigned n = en::choose(en::param("len", 26), "bytes");
	if (t == 'f') { n = n % 6; for (unsigned i = 0; i < n; i++) { double x = i * 1.234567891 - 2; float y = x; if (bw == 4) data.append((char *) &y, 4); else data.append((char *) &x, 8); } if (!n) en::skip(); } else data = bytes(n);
	if (n / bw == 0 && t != 'f' && lw == 0) en::skip();
	int where = en::choose(3, "position"); val x = val::xdump(data, t, bw, prec, lw, d); vector<val> a; string want;
	if (where == 0) { a.push_back(x); want = xdump_text(x); } else if (where == 1) { a.push_back(val::cstr("dump %d")); a.push_back(x); want = "dump %d " + xdump_text(x); }
	else { a.push_back(val::i32(5)); a.push_back(x); a.push_back(x); want = "5 " + xdump_text(x) + " " + xdump_text(x); }
	en::note(pf("dump %c byte width %u precision %u line %u of %zu bytes, position %d", t, bw, prec, lw, data.size(), where));
	for (how h : {POST, INLINE}) { out o; same(o(a, h), want + "\n", pf("dump %c%u line %u of %zu bytes", t, bw, lw, data.size())); }
}
EN_SCENARIO(plain) {
	int n = en::choose(en::param("len", 3), "arguments") + 1; vector<val> a; string want;
	for (int i = 0; i < n; i++) {
		int k = en::choose(i < 2 ? 20 : 7, "argument"); if (i) want += " "; val v; string t;
		switch (k) {
		case 0: v = val::i32(-5); break; case 1: v = val::cstr("str %s %d"); break; case 2: v = val::u64(~0ul); break; case 3: v = val::dbl(-1.25); break; case 4: v = val::xdump("abc"); break; case 5: v = val::raw("xyz"); break; case 6: v = val::ptr(0xabc); break;
		case 7: v = val::i32(INT_MIN); break; case 8: v = val::i32(INT_MAX); break; case 9: v = val::u32(~0u); break; case 10: v = val::i64(LONG_MIN); break; case 11: v = val::i64(-1); break; case 12: v = val::u64(1); break; case 13: v = val::gstr("glob%d"); break;
		case 14: v = val::gstr(""); break; case 15: v = val::dbl(1e15); break; case 16: v = val::dbl(0.1); break; case 17: v = val::u32(0); break; case 18: v = val::cstr(""); break; case 19: v = val::i64(5); break;
		}
		if (i == 0 && v.type == arg::RAW) en::skip();
		switch (v.type) {
		case arg::INT32: t = pf("%d", (int) v.v); break; case arg::UINT32: t = pf("%u", (unsigned) v.v); break; case arg::INT64: t = pf("%ld", (long) v.v); break; case arg::UINT64: t = pf("%lu", (unsigned long) v.v); break;
		case arg::DOUBLE: t = pf("%f", v.d); break; case arg::POINTER: t = pf("%p", (void *) v.v); break; case arg::GSTR: t = v.s; break; case arg::CSTR: t = v.s.size() ? v.s : "null"; break;
		case arg::XDUMP: t = xdump_text(v); break; case arg::RAW: t = "\1"; break; // stands for some text
		}
		want += t; a.push_back(v);
	}
	if (a.size() > 1 && (a[0].type == arg::CSTR || a[0].type == arg::GSTR) && a[1].type != arg::XDUMP && a[1].type != arg::RAW) en::skip(); // has a format string
	want += "\n"; en::note(show(a)); out o; string got = o(a);
	size_t p; while ((p = want.find('\1')) != want.npos) { // raw data: only its length is stated
		size_t q = got.find("rawdata 3 bytes", p); EN_CHECK(q == p, "raw data not described at %zu: '%s'", p, vis(got).c_str());
		size_t e = got.find_first_of(" \n", got.find("@ ", q) + 2); want = want.substr(0, p) + got.substr(p, e - p) + want.substr(p + 1);
	}
	same(got, want, show(a));
}
// ---- header
struct hdr { uint32_t fields; uint64_t last; bool has; };
string header(hdr &h, uint64_t ts, const char *rname, uint64_t seq, const char *aname, const char *sname) {
	string o; time_t s = ts / 1000000000; uint32_t ns = ts % 1000000000; struct tm tm; localtime_r(&s, &tm); typedef hogl::format_basic F;
	if (h.fields & F::TIMESPEC) o += pf("%011lu.%09u ", (unsigned long) s, ns);
	if (h.fields & F::TIMESTAMP) { char b[64]; strftime(b, 64, "%m%d%Y %H:%M:%S", &tm); o += pf("%s.%09u ", b, ns); }
	if (h.fields & F::TIMEDELTA) { o += pf("(%lu) ", h.has ? ts - h.last : 0ul); h.last = ts; h.has = true; }
	bool r = h.fields & F::RING, q = h.fields & F::SEQNUM, a = h.fields & F::AREA, t = h.fields & F::SECTION;
	if (r) o += rname; if (r && q) o += ":"; if (q) o += pf("%lu", seq); if (r || q) o += " ";
	if (a) o += aname; if (a && t) o += ":"; if (t) o += sname; if (a || t) o += " ";
	return o;
}
struct clk : hogl::timesource { static uint64_t now; static hogl::timestamp get(const hogl::timesource *) { hogl::timestamp t; t.from_nsec(now); return t; } clk() : hogl::timesource("CLK", get) {} };
uint64_t clk::now; clk &clock_() { static clk c; return c; }
const uint64_t G = 1000000000ul;
const uint64_t stamps[] = { 1, 9999, 10000, 10001, 99999999, 999999999, G, G + 1, G + 9999, G + 10000, 59 * G + 999999999, 60 * G, 86399 * G + 999999999, 86400 * G,
	1709164799 * G + 999999999, 1709164800 * G /* 29 Feb 2024 */, 1735689599 * G + 999999999, 1735689600 * G /* new year */, 1711846799 * G + 999989999, 1711846800 * G + 10000 /* summer time in Europe */, 2147483647 * G, 2147483648 * G + 5, 4294967296 * G, 9223372036 * G + 854775807 };
const char *zones[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5", "<+1345>-13:45"};
void names(int i, const char *&r, const char *&a, unsigned &s, const char *&sn) { static const char *rn[] = {"R", "RING-NAME"}; r = rn[i & 1]; s = (i >> 1) & 1; sn = sections[s]; a = area().name(); }
string field_names(uint32_t f, char sep) { static const char *n[] = {"timespec", "timestamp", "timedelta", "ring", "seqnum", "area", "section"}; string s; for (int i = 0; i < 7; i++) if (f & (1 << i)) { if (s.size()) s += sep; s += n[i]; } return s; }
// every set of header fields, given as number or as text, with every sequence of two time stamps
EN_SCENARIO(header) {
	uint32_t fields = en::choose(128, "fields"); int how = en::choose(3, "given"); if (!fields && how) en::skip(); const char *z = zones[en::choose(4, "zone")]; setenv("TZ", z, 1); tzset();
	hogl::format_basic *f = how == 0 ? new hogl::format_basic(fields) : new hogl::format_basic(field_names(fields, how == 1 ? ',' : '|')); strbuf sb; hdr h = {fields, 0, false};
	int len = en::param("len", 1); vector<uint64_t> ts; for (int i = 0; i < len; i++) ts.push_back(stamps[en::choose(sizeof stamps / sizeof *stamps, "time stamp")]); if (len == 1) { ts.push_back(ts[0] + 1234567); ts.push_back(ts[1] + 70 * G); }
	en::note("fields " + field_names(fields, ',') + " zone " + z + " first time stamp " + std::to_string(ts[0]));
	for (size_t i = 0; i < ts.size(); i++) {
		const char *rn, *an, *sn; unsigned s; names(i, rn, an, s, sn); hogl::ringbuf *rg = ring(4, 128, rn); rg->timesource(&clock_()); uint64_t seq[] = {0, 9, 10}; 
		for (uint64_t k = 0; k <= seq[i % 3]; k++) { clk::now = ts[i]; vector<val> a(1, val::i32(77)); post(rg, &area(), s, a, POST_UNLOCKED); hogl::record *r = rg->pop_begin(); if (k < seq[i % 3]) { rg->pop_commit(); continue; }
			hogl::format::data d = {rn, r}; f->process(sb, d); string w = header(h, ts[i], rn, r->seqnum, an, sn) + "77\n"; same(sb.take(), w, pf("fields '%s' zone %s time %lu record %zu", field_names(fields, ',').c_str(), z, ts[i], i)); EN_CHECK(r->seqnum == k, "record number %lu is %lu", k, (unsigned long) r->seqnum); rg->pop_commit(); }
		rg->release();
	}
	delete f;
}
// names of all lengths in every kind of header, largest sequence numbers and times
EN_SCENARIO(names) {
	static const uint32_t kinds[] = {hogl::format_basic::DEFAULT, hogl::format_basic::FAST0, hogl::format_basic::FAST1, 127, hogl::format_basic::RING | hogl::format_basic::AREA, hogl::format_basic::SEQNUM | hogl::format_basic::SECTION};
	static const int len[] = {1, 2, 17, 60, 255, 1000}; int k = en::choose(6, "header"), a = len[en::choose(6, "ring name")], b = len[en::choose(6, "area name")], c = len[en::choose(6, "section name")]; bool big = en::choose(2, "large numbers");
	string rn(a, 'r'), an(b, 'a'), sn(c, 's'); const char *sv[] = {"x", sn.c_str(), 0}; hogl::area ar(an.c_str(), sv); hogl::ringbuf *rg = ring(4, 128, "R"); rg->timesource(&clock_()); hogl::format_basic f(kinds[k]); strbuf sb(en::choose(2, "buffer") * 4096); hdr h = {kinds[k], 0, false};
	en::note(pf("fields %u names of %d %d %d", kinds[k], a, b, c));
	for (int i = 0; i < 2; i++) { clk::now = big ? i ? ~0ul : 5 : 1000 * (i + 1); vector<val> v(1, val::i32(3)); post(rg, &ar, 1, v, POST_UNLOCKED); hogl::record *r = rg->pop_begin(); if (big) r->seqnum = (1ul << 52) - 1; hogl::format::data d = {rn.c_str(), r}; f.process(sb, d); same(sb.take(), header(h, clk::now, rn.c_str(), r->seqnum, an.c_str(), sn.c_str()) + "3\n", pf("names of %d %d %d characters", a, b, c)); rg->pop_commit(); }
	rg->release();
}
// the cached parts of the time never go stale: every sequence of time stamps, for every kind of header that shows the time
EN_SCENARIO(cache) {
	static const uint32_t kinds[] = {hogl::format_basic::DEFAULT, hogl::format_basic::FAST0, hogl::format_basic::FAST1, hogl::format_basic::TIMESPEC | hogl::format_basic::TIMEDELTA, 127};
	static const char *kn[] = {"default", "fast0", "fast1", "timedelta,timespec", 0};
	int k = en::choose(5, "header"), len = en::param("len", 3), seq = en::choose(3, "sequence numbers"); setenv("TZ", zones[1], 1); tzset(); vector<uint64_t> ts; string n; size_t ns = en::param("stamps", sizeof stamps / sizeof *stamps);
	for (int i = 0; i < len; i++) { ts.push_back(stamps[en::choose(ns, "time stamp")]); n += std::to_string(ts[i]) + " "; }
	hogl::format_basic f1(kinds[k]), *f2 = kn[k] ? new hogl::format_basic(kn[k]) : new hogl::format_basic(field_names(127, '|').c_str()); strbuf sb; hdr h = {kinds[k], 0, false}; hogl::ringbuf *rg = ring(4, 128); rg->timesource(&clock_()); en::note("fields " + field_names(kinds[k], ',') + " times " + n);
	for (size_t i = 0; i < ts.size(); i++) {
		clk::now = ts[i]; vector<val> a(1, val::i32(1)); post(rg, &area(), 0, a, POST_UNLOCKED); hogl::record *r = rg->pop_begin(); uint64_t sq = seq == 0 ? i : seq == 1 ? i + 7 : 0; r->seqnum = sq; hogl::format::data d = {"RING", r}; string w = header(h, ts[i], "RING", sq, "AREA", "SECT") + "1\n";
		f1.process(sb, d); same(sb.take(), w, "times " + n); f2->process(sb, d); same(sb.take(), w, "times " + n + "(named)"); rg->pop_commit();
	}
	rg->release(); delete f2;
}
// ---- malformed formats and cut records: no error, header and line end are there
void safe(out &o, vector<val> &a, how h, const string &what) {
	en::note(what); string s = o(a, h); en::eval(); EN_CHECK(s.size() && s[s.size() - 1] == '\n', "%s: output '%s' does not end its line", what.c_str(), vis(s).c_str()); EN_CHECK(s.compare(0, 5, "AREA ") == 0, "%s: header missing in '%s'", what.c_str(), vis(s).c_str());
}
EN_SCENARIO(malformed) {
	static const char alpha[] = "%ds*.1$lfcnx0- ph"; int len = en::param("len", 3), na = en::param("alpha", 17); string f = "%"; int n = en::choose(len, "length"); for (int i = 0; i <= n; i++) f += alpha[en::choose(na, "character")];
	static out *o = new out(hogl::format_basic::AREA);
	for (int k = 0; k < 12; k++) {
		vector<val> a; a.push_back(k & 1 ? val::cstr(f) : val::gstr(f));
		switch (k / 2) { case 0: a.push_back(val::i32(2)); break; case 1: a.push_back(val::cstr("ab")); break; case 2: a.push_back(val::dbl(1.5)); a.push_back(val::i32(3)); break; case 3: a.push_back(val::i32(1)); a.push_back(val::xdump("abc")); a.push_back(val::gstr("x")); break; case 4: a.push_back(val::ptr(0)); a.push_back(val::raw("abc")); break; case 5: a.push_back(val::u64(~0ul)); a.push_back(val::i64(-1)); break; }
		safe(*o, a, POST_UNLOCKED, "'" + f + "' " + show(a));
	}
}
// every list of variable-size arguments cut by the end of the record
EN_SCENARIO(cut) {
	int n = en::choose(3, "arguments") + 1; vector<val> a; int fill = en::param("from", 150) + en::choose(en::param("fill", 80), "bytes used before");
	a.push_back(en::choose(2, "first") ? val::cstr(string(fill, 'f')) : val::raw(string(fill, 'r')));
	for (int i = 0; i < n; i++) switch (en::choose(7, "argument")) { case 0: a.push_back(val::cstr("string")); break; case 1: a.push_back(val::xdump(bytes(9), 'H', 1, 2, 4)); break; case 2: a.push_back(val::xdump(bytes(9), 'd', 4, 2, 2)); break; case 3: a.push_back(val::raw("data")); break; case 4: a.push_back(val::i32(7)); break; case 5: a.push_back(val::xdump(bytes(9), 'f', 8, 3, 0)); break; case 6: a.push_back(val::xdump("", 'x', 2, 3, 0)); break; }
	out o(hogl::format_basic::AREA, 1); for (how h : {POST_UNLOCKED, INLINE}) safe(o, a, h, show(a));
}
// odd but representable arguments
EN_SCENARIO(odd) {
	int k = en::choose(10, "case"); vector<val> a; val n; n.type = arg::CSTR; out o(hogl::format_basic::AREA); hogl::arg x[16];
	int pos = en::choose(4, "position"); for (int i = 0; i < pos; i++) x[i] = i == 1 ? hogl::arg(5) : hogl::arg(i == 0 ? "%s %d %s" : "s");
	hogl::arg_xdump d0("abcdefgh", 8, 'H', 1, 2, 0), d1("abcdefgh", 8, 'd', 0, 2, 4), d2("abcdefgh", 8, 'd', 3, 2, 4), d3("abcdefgh", 8, 0, 15, 15, 255), d4("abcdefgh", 8, 'H', 0, 0, 0), d5(0, 0, 'f', 8, 9, 0), d6("abcdefgh", 8, 'f', 1, 1, 1);
	hogl::arg w; switch (k) { case 0: w = hogl::arg((const char *) 0); break; case 1: w = hogl::arg(hogl::arg_gstr(0)); break; case 2: w = hogl::arg(d0); break; case 3: w = hogl::arg(d1); break; case 4: w = hogl::arg(d2); break; case 5: w = hogl::arg(d3); break; case 6: w = hogl::arg(d4); break; case 7: w = hogl::arg(d5); break; case 8: w = hogl::arg(d6); break; case 9: w = hogl::arg(hogl::arg_raw(0, 0)); break; }
	x[pos] = w; bool more = en::choose(2, "more arguments"); if (more) x[pos + 1] = hogl::arg(7); en::note(pf("odd argument %d at position %d", k, pos));
	hogl::push_unlocked(o.rg, &area(), 0, VT_A16); hogl::record *r = o.rg->pop_begin(); hogl::format::data d = {"RING", r}; o.f.process(o.sb, d); string s = o.sb.take(); en::eval();
	EN_CHECK(s.size() && s[s.size() - 1] == '\n' && s.compare(0, 5, "AREA ") == 0, "odd argument %d at %d: output '%s'", k, pos, vis(s).c_str());
	if (k == 2 && pos == 0 && !more) same(s, "AREA " + hexdump("abcdefgh", 0) + "\n", "hexdump on a single line");
	o.rg->pop_commit();
}
// records of no known area or section
EN_SCENARIO(unknown) {
	int k = en::choose(3, "case"); hogl::format_basic f(en::choose(128, "fields")); hogl::ringbuf *rg = ring(); hogl::push_unlocked(rg, &area(), k == 1 ? 2 : k == 2 ? 4094 : 0, 5); hogl::record *r = rg->pop_begin(); if (k == 0) r->area = 0; strbuf sb; hogl::format::data d = {"RING", r}; f.process(sb, d); string s = sb.take(); en::eval();
	EN_CHECK(s.size() && s.substr(s.size() - 2) == "5\n", "output '%s'", vis(s).c_str()); rg->pop_commit(); rg->release();
}
}
