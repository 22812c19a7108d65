// Records for the enumerating harnesses: made by really posting them.
#pragma once
#include "en.h"
#include <string>
#include <vector>
#include <string.h>
#include <hogl/detail/ringbuf.hpp>
#include <hogl/detail/ostrbuf.hpp>
#include <hogl/detail/format.hpp>
#include <hogl/area.hpp>
#include <hogl/post.hpp>
namespace vt {
using std::string; using std::vector;
typedef hogl::arg arg;
// An argument with everything it refers to
struct val {
	int type; uint64_t v; double d; string s; hogl::arg_xdump xd;
	val() : type(arg::NONE), v(0), d(0), xd(0, 0) {}
	static val i32(int32_t x) { val r; r.type = arg::INT32; r.v = (uint32_t) x; return r; }
	static val u32(uint32_t x) { val r; r.type = arg::UINT32; r.v = x; return r; }
	static val i64(int64_t x) { val r; r.type = arg::INT64; r.v = x; return r; }
	static val u64(uint64_t x) { val r; r.type = arg::UINT64; r.v = x; return r; }
	static val ptr(uint64_t x) { val r; r.type = arg::POINTER; r.v = x; return r; }
	static val dbl(double x) { val r; r.type = arg::DOUBLE; r.d = x; memcpy(&r.v, &x, 8); return r; }
	static val cstr(const string &x) { val r; r.type = arg::CSTR; r.s = x; return r; }
	static val gstr(const string &x) { val r; r.type = arg::GSTR; r.s = x; return r; }
	static val raw(const string &x) { val r; r.type = arg::RAW; r.s = x; return r; }
	static val xdump(const string &x, uint8_t t = 'H', uint8_t bw = 1, uint8_t pr = 2, uint8_t lw = 20, char d = ' ') { val r; r.type = arg::XDUMP; r.s = x; r.xd = hogl::arg_xdump(0, 0, t, bw, pr, lw, d); return r; }
	hogl::arg get() { // valid as long as this object
		switch (type) {
		case arg::INT32: return hogl::arg((int) v); case arg::UINT32: return hogl::arg((unsigned) v); case arg::INT64: return hogl::arg((long) v); case arg::UINT64: return hogl::arg((unsigned long) v);
		case arg::POINTER: return hogl::arg((void *) v); case arg::DOUBLE: return hogl::arg(d); case arg::CSTR: return hogl::arg(s); case arg::GSTR: return hogl::arg(hogl::arg_gstr(s.c_str()));
		case arg::RAW: return hogl::arg(hogl::arg_raw(s.data(), s.size())); case arg::XDUMP: xd.ptr = s.data(); xd.len = s.size(); return hogl::arg(xd); }
		return hogl::arg();
	}
	string show() const {
		static const char *n[] = {"none", "u32", "i32", "u64", "i64", "ptr", "dbl", "str", "gstr", "xdump", "raw"}; char b[400];
		if (type == arg::DOUBLE) snprintf(b, 400, "%s %.17g", n[type], d); else if (type == arg::CSTR || type == arg::GSTR) snprintf(b, 400, "%s '%.40s'(%zu)", n[type], s.c_str(), s.size()); else if (type == arg::RAW || type == arg::XDUMP) snprintf(b, 400, "%s (%zu)", n[type], s.size()); else snprintf(b, 400, "%s %lx", n[type], (unsigned long) v);
		return b;
	}
};
inline string show(const vector<val> &a) { string s; for (auto &x : a) s += (s.empty() ? "" : ", ") + x.show(); return s; }
#define VT_A16 x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]
enum how { POST, POST_UNLOCKED, INLINE, PACKED, NHOW };
inline void post(hogl::ringbuf *ring, const hogl::area *a, unsigned sect, vector<val> &v, how h = POST) {
	hogl::arg x[16]; for (size_t i = 0; i < v.size() && i < 16; i++) x[i] = v[i].get();
	switch (h) {
	case POST: hogl::push(ring, a, sect, VT_A16); break;
	case POST_UNLOCKED: hogl::push_unlocked(ring, a, sect, VT_A16); break;
	case INLINE: { hogl::record *r = hogl::post_impl::begin_unlocked(ring, a, sect); r->set_args(ring->record_tailroom(), VT_A16); hogl::post_impl::finish_unlocked(ring); break; }
	case PACKED: default: { hogl::argpack ap; ap.populate(VT_A16); hogl::post_impl::unlocked(ring, a, sect, ap); break; }
	}
}
inline hogl::ringbuf *ring(unsigned cap = 4, unsigned tailroom = 256, const char *name = "RING") { hogl::ringbuf::options o = {}; o.capacity = cap; o.prio = 1; o.record_tailroom = tailroom; return (new hogl::ringbuf(name, o))->hold(); }
struct strbuf : hogl::ostrbuf {
	string got; strbuf(size_t cap = 0) : hogl::ostrbuf(cap) {}
	void do_flush(const uint8_t *d, size_t n) { got.append((const char *) head(), size()); reset(); if (n) got.append((const char *) d, n); }
	string take() { flush(); string s; s.swap(got); return s; }
};
inline string vis(const string &s) { string o; for (unsigned char c : s) if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return o.size() > 300 ? o.substr(0, 300) + "..." : o; }
}
