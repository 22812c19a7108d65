// C12: arguments stored in records. Reference: a list of bounded copies.
#include "rec.hpp"
#include <limits.h>
#include <stdlib.h>
#include <stdarg.h>
using namespace vt;
namespace {
const char *sections[] = {"SECT", 0};
hogl::area &area() { static hogl::area a("AREA", sections); return a; }
string bytes(size_t n, int seed) { string s; for (size_t i = 0; i < n; i++) s += (char) ('a' + (i * 7 + seed) % 26); return s; }
const char *hn[] = {"post", "post_unlocked", "inline", "packed"};
struct slot { // a ring whose slots all hold known bytes
	hogl::ringbuf *rg; uint8_t *base; size_t rs; unsigned cap;
	slot(unsigned tail, unsigned at) : rg(ring(4, tail)) {
		cap = rg->capacity(); rs = rg->record_size(); uint8_t *lo = 0; vector<val> none(1, val::i32(0));
		for (unsigned i = 0; i < cap; i++) { post(rg, &area(), 0, none, POST_UNLOCKED); uint8_t *p = (uint8_t *) rg->pop_begin(); if (!lo || p < lo) lo = p; rg->pop_commit(); }
		base = lo; for (unsigned i = 0; i < at; i++) { post(rg, &area(), 0, none, POST_UNLOCKED); rg->pop_begin(); rg->pop_commit(); }
		// the slots a writer does not own; the list of records is empty now
		memset((void *) base, 0xa5, rs * cap);
	}
	~slot() { rg->release(); }
	void others(hogl::record *r, const char *how) { for (size_t i = 0; i < rs * cap; i++) { uint8_t *p = base + i; if (p >= (uint8_t *) r && p < (uint8_t *) r + rs) continue; if (*p != 0xa5) en::fail("posting (%s) wrote %ld bytes from its record of %zu bytes", how, (long) (p - (uint8_t *) r), rs); } }
};
// what record r must hold after posting v
void verify(hogl::record *r, unsigned tailroom, const vector<val> &v, const char *how) {
	size_t room = tailroom - 8 * v.size();
	for (size_t i = 0; i < 16; i++) {
		unsigned t = r->get_arg_type(i), want = i < v.size() ? v[i].type : (unsigned) arg::NONE; en::eval();
		if (t != want) en::fail("%s: argument %zu has type %u instead of %u", how, i, t, want);
		if (i >= v.size()) continue;
		const val &x = v[i]; unsigned len = 0; const uint8_t *d = 0; 
		if (x.type == arg::INT32 || x.type == arg::UINT32) { if (r->get_arg_val32(i) != (uint32_t) x.v) en::fail("%s: argument %zu is %x instead of %lx", how, i, r->get_arg_val32(i), (unsigned long) x.v); continue; }
		if (x.type == arg::GSTR) { if (r->get_arg_val64(i) != (uint64_t) x.s.c_str()) en::fail("%s: argument %zu: global string pointer changed", how, i); continue; }
		if (x.type != arg::CSTR && x.type != arg::XDUMP && x.type != arg::RAW) { if (r->get_arg_val64(i) != x.v) en::fail("%s: argument %zu is %lx instead of %lx", how, i, (unsigned long) r->get_arg_val64(i), (unsigned long) x.v); continue; }
		d = r->get_arg_data(i, len); size_t used = 0;
		if (len && (d < (uint8_t *) r->argval + 8 * v.size() || d + len > (uint8_t *) r->argval + tailroom)) en::fail("%s: argument %zu lies at %ld..%ld of %u", how, i, (long) (d - (uint8_t *) r->argval), (long) (d + len - (uint8_t *) r->argval), tailroom);
		if (x.type == arg::RAW) { size_t n = std::min(x.s.size(), room); if (len != n || memcmp(d, x.s.data(), n)) en::fail("%s: argument %zu: raw data of %zu bytes stored as %u bytes, room %zu", how, i, x.s.size(), len, room); used = n; }
		else if (x.type == arg::XDUMP) {
			if (room < sizeof x.xd.fmt) { if (len) en::fail("%s: argument %zu: dump of %zu bytes stored as %u bytes, room %zu", how, i, x.s.size(), len, room); }
			else { size_t n = std::min(x.s.size(), room - sizeof x.xd.fmt); used = n + sizeof x.xd.fmt; if (len != used || memcmp(d, &x.xd.fmt, sizeof x.xd.fmt) || memcmp(d + sizeof x.xd.fmt, x.s.data(), n)) en::fail("%s: argument %zu: dump of %zu bytes stored as %u bytes, room %zu", how, i, x.s.size(), len, room); }
		} else if (x.s.empty() || !room) { if (len) en::fail("%s: argument %zu: string of %zu bytes stored as %u bytes, room %zu", how, i, x.s.size(), len, room); }
		else {
			size_t n = std::min(x.s.size(), room - 1); if (len != n) en::fail("%s: argument %zu: string of %zu bytes stored as %u bytes, room %zu", how, i, x.s.size(), len, room);
			if (d[n] != 0) en::fail("%s: argument %zu: string of %zu bytes is not null-terminated, room %zu", how, i, x.s.size(), room);
			bool cut = n < x.s.size(), mark = cut && n > 3; if (cut && n == 3) mark = !memcmp(d, ">>>", 3); size_t k = mark ? n - 3 : n;
			if (memcmp(d, x.s.data(), k)) en::fail("%s: argument %zu: string of %zu bytes changed, room %zu: '%s'", how, i, x.s.size(), room, vis(string((char *) d, n)).c_str());
			if (mark && memcmp(d + k, ">>>", 3)) en::fail("%s: argument %zu: cut string has no truncation marker: '%s'", how, i, vis(string((char *) d, n)).c_str());
			used = n + 1;
		}
		room -= used;
	}
}
void all_ways(vector<val> &v, unsigned tail, unsigned at) {
	en::note("tailroom " + std::to_string(tail) + " slot " + std::to_string(at) + ": " + show(v));
	for (int h = 0; h < NHOW; h++) {
		slot s(tail, at); unsigned t = s.rg->record_tailroom(); EN_CHECK(t >= tail && t + hogl::record::header_size() <= s.rs, "record of %zu bytes for tailroom %u has tailroom %u", s.rs, tail, t);
		post(s.rg, &area(), 3, v, (how) h); hogl::record *r = s.rg->pop_begin(); EN_CHECK(r, "record was not posted"); 
		EN_CHECK(r->area == &area() && r->section == 3, "%s: area or section changed", hn[h]); verify(r, t, v, hn[h]); s.others(r, hn[h]); s.rg->pop_commit();
	}
}
val type(int k, int i) {
	switch (k) { case 0: return val::i32(-5 - i); case 1: return val::u32(0x80000000u + i); case 2: return val::i64(LONG_MIN + i); case 3: return val::u64(~0ul - i); case 4: return val::ptr(0x7fff12345678ul + i); case 5: return val::dbl(-1.5 * i); case 6: return val::cstr(bytes(3 + 4 * i, i)); case 7: return val::gstr(bytes(5, i)); case 8: return val::xdump(bytes(5 + i, i), 'd', 2, 3, i, ','); case 9: return val::raw(bytes(i * 3, i)); default: return val::cstr(""); }
}
// every list of types
EN_SCENARIO(types) {
	int n = en::choose(en::param("len", 3) + 1, "arguments"); vector<val> v; for (int i = 0; i < n; i++) v.push_back(type(en::choose(11, "type"), i)); all_ways(v, en::choose(2, "size") ? 500 : 0, en::choose(4, "slot"));
}
// lists of up to sixteen arguments: two of any type among scalars or strings
EN_SCENARIO(many) {
	int n = en::choose(16, "arguments") + 1, p = en::choose(n, "first"), q = en::choose(n, "second"); if (q < p) en::skip(); int kp = en::choose(11, "type"), kq = en::choose(11, "type"), fill = en::choose(2, "others"); vector<val> v;
	for (int i = 0; i < n; i++) v.push_back(type(i == p ? kp : i == q ? kq : fill ? 6 : 0, i)); all_ways(v, 0, n % 4);
}
// variable-size arguments around the end of the record
const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 300};
EN_SCENARIO(room) {
	static const unsigned tails[] = {0, 225, 500}; unsigned tail = tails[en::choose(en::param("tails", 3), "record size")]; slot s(tail, 0); unsigned t = s.rg->record_tailroom();
	int n = en::choose(en::param("len", 2), "arguments") + 1, sc = en::choose(2, "scalar last"), left = en::choose(14, "bytes left"), f = en::choose(3, "first"); vector<val> v;
	size_t fill = t - 8 * (n + 1 + sc) - left; v.push_back(f == 0 ? val::raw(bytes(fill, 1)) : f == 1 ? val::cstr(bytes(fill - 1, 1)) : val::xdump(bytes(fill - 4, 1), 'H', 1, 2, 8));
	for (int i = 0; i < n; i++) { int k = en::choose(3, "type"), z = sizes[en::choose(i < 2 ? 10 : 5, "size")]; string b = bytes(z, i + 3); v.push_back(k == 0 ? val::cstr(b) : k == 1 ? val::xdump(b, 'x', 4, 2, 3, '-') : val::raw(b)); }
	if (sc) v.push_back(val::u64(0x1122334455667788ul)); all_ways(v, tail, left % 4);
}
// one string, dump or block of every length in records of every size
EN_SCENARIO(lengths) {
	unsigned tail = en::choose(en::param("tails", 40), "record size") * 16; int k = en::choose(3, "type"), more = en::choose(3, "more"); slot s(tail, 0); unsigned t = s.rg->record_tailroom();
	for (size_t z = 0; z <= t + 8; z += z + 40 < t && z > 16 ? 7 : 1) { vector<val> v; string b = bytes(z, k); v.push_back(k == 0 ? val::cstr(b) : k == 1 ? val::xdump(b) : val::raw(b)); if (more) v.push_back(val::cstr(bytes(5, 2))); if (more == 2) v.push_back(val::i32(-1)); all_ways(v, tail, z % 4); }
}
// sizes of records and rings as configured
EN_SCENARIO(options) {
	static const unsigned tails[] = {0, 1, 127, 128, 129, 223, 224, 225, 256, 479, 480, 481, 1000, 4000, 65000}; unsigned tail = tails[en::choose(15, "tailroom")], cap = en::choose(70, "capacity") + 2; hogl::ringbuf *rg = ring(cap, tail);
	EN_CHECK(rg->record_tailroom() >= tail && rg->capacity() >= cap, "ring of %u records with tailroom %u got %u and %u", cap, tail, rg->capacity(), rg->record_tailroom()); vector<val> v; string b = bytes(rg->record_tailroom() - 8, 1); v.push_back(val::raw(b)); unsigned n = 0;
	for (unsigned k = 0; k < 2 * cap + 3; k++) { while (rg->room()) { post(rg, &area(), n % 4096, v, POST_UNLOCKED); n++; } unsigned c = 0; while (!rg->empty()) { hogl::record *r = rg->pop_begin(); unsigned len; const uint8_t *d = r->get_arg_data(0, len); EN_CHECK(len == b.size() && !memcmp(d, b.data(), len), "record %u of %u changed", c, n); rg->pop_commit(); c++; en::eval(); } if (k > 3 && tail > 1000) break; }
	rg->release();
}
// every C++ type a user may pass
enum e1 { EA = -7, EB = 9 };
template <typename X> void scalar(const char *name, X x, unsigned type, uint64_t want) {
	for (int h = 0; h < 3; h++) {
		slot s(0, 0); 
		switch (h) { case 0: hogl::push(s.rg, &area(), 1, x); break; case 1: hogl::push_unlocked(s.rg, &area(), 1, x); break;
		case 2: { hogl::arg y[16]; y[0] = hogl::arg(x); hogl::push(s.rg, &area(), 1, y[0], 4, y[0], "s", y[0]); break; } }
		hogl::record *r = s.rg->pop_begin(); EN_CHECK(r, "not posted"); for (int i = 0; i < 5; i += 2) { if (i && h < 2) continue; en::eval(); uint64_t got = type == arg::INT32 || type == arg::UINT32 ? r->get_arg_val32(i) : r->get_arg_val64(i);
			EN_CHECK(r->get_arg_type(i) == type && got == want, "%s posted (%d) at %d: type %u value %lx instead of type %u value %lx", name, h, i, r->get_arg_type(i), got, type, want); }
		if (h == 2) { unsigned l; const uint8_t *d = r->get_arg_data(3, l); EN_CHECK(r->get_arg_val32(1) == 4 && l == 1 && *d == 's' && r->get_arg_type(5) == arg::NONE, "%s: other arguments changed", name); }
		s.rg->pop_commit();
	}
}
uint64_t dv(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
EN_SCENARIO(cpptypes) {
	int v = en::choose(7, "value"); static const long vals[] = {0, 1, -1, 127, -128, LONG_MAX, LONG_MIN}; long x = vals[v]; en::note(std::to_string(x));
	scalar("bool", (bool) x, arg::UINT32, (bool) x); scalar("unsigned char", (unsigned char) x, arg::UINT32, (unsigned char) x); scalar("unsigned short", (unsigned short) x, arg::UINT32, (unsigned short) x);
	scalar("char", (char) x, arg::INT32, (uint32_t) (char) x); scalar("signed char", (signed char) x, arg::INT32, (uint32_t) (signed char) x); scalar("short", (short) x, arg::INT32, (uint32_t) (short) x);
	scalar("int", (int) x, arg::INT32, (uint32_t) x); scalar("unsigned", (unsigned) x, arg::UINT32, (uint32_t) x); scalar("long", (long) x, arg::INT64, x); scalar("unsigned long", (unsigned long) x, arg::UINT64, x);
	scalar("long long", (long long) x, arg::INT64, x); scalar("unsigned long long", (unsigned long long) x, arg::UINT64, x); scalar("double", (double) x, arg::DOUBLE, dv(x)); scalar("float", (float) x, arg::DOUBLE, dv((float) x));
	scalar("pointer", (void *) x, arg::POINTER, x); scalar("pointer to volatile", (volatile void *) x, arg::POINTER, x); scalar("int pointer", (int *) x, arg::POINTER, x); scalar("enum", EA, arg::INT32, (uint32_t) -7); scalar("size_t", (size_t) x, arg::UINT64, x); scalar("int64_t", (int64_t) x, arg::INT64, x);
}
// huge announced lengths are cut as well; the bytes there are enough
EN_SCENARIO(huge) {
	static const unsigned lens[] = {~0u, ~0u - 1, ~0u - 2, ~0u - 3, ~0u - 4, ~0u - 5, 0x80000000u, 0x7fffffffu, 65536}; unsigned z = lens[en::choose(9, "length")]; int k = en::choose(2, "type"), before = en::choose(3, "before"); string b = bytes(70000, 3);
	hogl::arg_xdump xd(b.data(), z); for (int h = 0; h < NHOW; h++) {
		slot s(0, 1); unsigned t = s.rg->record_tailroom(); hogl::arg x[16]; int n = 0; if (before) x[n++] = hogl::arg(5); if (before == 2) x[n++] = hogl::arg("abc"); if (k) x[n] = hogl::arg(xd); else x[n] = hogl::arg(hogl::arg_raw(b.data(), z)); n++;
		switch (h) { case POST: hogl::push(s.rg, &area(), 3, VT_A16); break; case POST_UNLOCKED: hogl::push_unlocked(s.rg, &area(), 3, VT_A16); break; case INLINE: { hogl::record *r = hogl::post_impl::begin_unlocked(s.rg, &area(), 3); r->set_args(t, VT_A16); hogl::post_impl::finish_unlocked(s.rg); break; } default: { hogl::argpack ap; ap.populate(VT_A16); hogl::post_impl::unlocked(s.rg, &area(), 3, ap); } }
		hogl::record *r = s.rg->pop_begin(); unsigned len; const uint8_t *d = r->get_arg_data(n - 1, len); size_t room = t - 8 * n - (before == 2 ? 4 : 0); en::eval(); s.others(r, hn[h]);
		EN_CHECK(len == room && d + len == (uint8_t *) r->argval + t && !memcmp(d + (k ? 4 : 0), b.data(), len - (k ? 4 : 0)), "%s: %s of %u bytes stored as %u bytes, room %zu", hn[h], k ? "dump" : "raw data", z, len, room); s.rg->pop_commit();
	}
}
}
