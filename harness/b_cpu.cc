// C20: CPU affinity strings and scheduling parameters. The calls that would
// change the threads are replaced by stand-ins that record their arguments.
#include "en.h"
#include <pthread.h>
#include <sched.h>
#include <string.h>
#include <unistd.h>
#include <mutex>
#include <set>
#include <vector>
#include <hogl/detail/schedparam.hpp>
#include <hogl/engine.hpp>
#include <hogl/format-null.hpp>
#include <hogl/output-null.hpp>
#include <hogl/output-file.hpp>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
using std::string; using std::vector; using std::set;
namespace { struct call { bool aff; set<unsigned> cpus; int policy, prio; }; vector<call> calls; std::mutex mtx; int aff_rc, sched_rc; }
extern "C" int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) throw() {
	call k = {true, {}, 0, 0}; for (unsigned i = 0; i < n * 8; i++) if (CPU_ISSET_S(i, n, c)) k.cpus.insert(i);
	if (!pthread_equal(t, pthread_self())) k.cpus.insert(999999);
	std::lock_guard<std::mutex> g(mtx); calls.push_back(k); return aff_rc;
}
extern "C" int pthread_setschedparam(pthread_t t, int p, const struct sched_param *s) throw() {
	call k = {false, {}, p, s->sched_priority}; if (!pthread_equal(t, pthread_self())) k.policy = -1;
	std::lock_guard<std::mutex> g(mtx); calls.push_back(k); return sched_rc;
}
namespace {
enum { VALID, INVALID, LENIENT }; // lenient: may be rejected, but may not mean anything else
typedef unsigned __int128 u128;
bool number(const string &s, size_t &p, u128 &v) { if (p >= s.size() || s[p] < '0' || s[p] > '9') return false; v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { if (v < ((u128) 1 << 100)) v = v * 10 + (s[p] - '0'); p++; } return true; }
int ref_list(const string &s, set<unsigned> &c) {
	size_t p = 0; bool len = false;
	for (;;) { u128 a, b; if (!number(s, p, a)) return INVALID; b = a; if (p < s.size() && s[p] == '-') { p++; if (!number(s, p, b)) return INVALID; }
		if (a > b) return INVALID; if (b >= 100000) return INVALID; if (b >= 256) len = true; for (unsigned i = a; i <= b; i++) c.insert(i);
		if (p == s.size()) return len ? LENIENT : VALID; if (s[p++] != ',') return INVALID; if (p == s.size()) return LENIENT; }
}
int ref_mask(const string &s, set<unsigned> &c) {
	size_t p = 0; bool len = false; while (p < s.size() && strchr(" \t\n\v\f\r", s[p]) && s[p]) { p++; len = true; } if (p < s.size() && s[p] == '+') { p++; len = true; }
	unsigned base = 10; if (p + 1 < s.size() && s[p] == '0' && (s[p + 1] | 32) == 'x') { base = 16; p += 2; } else if (p < s.size() && s[p] == '0') base = 8;
	if (p == s.size()) return INVALID; u128 v = 0;
	for (; p < s.size(); p++) { int d = s[p] >= '0' && s[p] <= '9' ? s[p] - '0' : (s[p] | 32) >= 'a' && (s[p] | 32) <= 'f' && s[p] > 64 ? (s[p] | 32) - 'a' + 10 : 99; if ((unsigned) d >= base) return INVALID; if (v >> 110) return INVALID; v = v * base + d; }
	if (v >> 64) return INVALID; for (int i = 0; i < 64; i++) if (v >> i & 1) c.insert(i); return v ? len ? LENIENT : VALID : LENIENT;
}
string show(const set<unsigned> &c) { string s; for (unsigned x : c) s += std::to_string(x) + " "; return s; }
string vis(const string &s) { string o; for (char c : s) if (c < 32) { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; } else o += c; return o; }
void check(const string &s) {
	set<unsigned> want; int r = !s.compare(0, 5, "list:") ? ref_list(s.substr(5), want) : ref_mask(!s.compare(0, 5, "mask:") ? s.substr(5) : s, want);
	hogl::schedparam p(SCHED_OTHER, 0, 0, s); calls.clear(); aff_rc = sched_rc = 0; en::eval();
	bool v = p.validate(); EN_CHECK(calls.empty(), "'%s': validation changed the thread", vis(s).c_str());
	bool e = p.thread_enter("t"); EN_CHECK(v == e, "'%s': %s as valid but %s", vis(s).c_str(), v ? "accepted" : "rejected", e ? "applied" : "not applied");
	bool aff = calls.size() && calls[0].aff; EN_CHECK(calls.size() == (aff ? 2u : 1u) && !calls.back().aff && calls.back().policy == SCHED_OTHER, "'%s': %zu calls", vis(s).c_str(), calls.size());
	if (s.empty()) { EN_CHECK(v && !aff, "empty string selects CPUs"); return; }
	EN_CHECK(v == aff, "'%s': %s", vis(s).c_str(), aff ? "rejected but applied" : "accepted but not applied");
	if (r == INVALID) EN_CHECK(!v, "'%s' is no valid CPU set but selects: %s", vis(s).c_str(), show(calls[0].cpus).c_str());
	else { if (r == VALID) EN_CHECK(v, "'%s' is rejected", vis(s).c_str()); if (v) EN_CHECK(calls[0].cpus == want, "'%s' selects CPUs %sinstead of %s", vis(s).c_str(), show(calls[0].cpus).c_str(), show(want).c_str()); }
	en::outcome(v ? show(want) : "invalid");
}
}
EN_SCENARIO(strings) { // all strings up to a length
	static const char *pre[] = {"", "mask:", "list:", "List:", "list", ":"}; static const char al[] = {'0', '1', '3', '9', 'f', 'x', ',', '-', ' ', 'g', ':', 0};
	unsigned len = en::param("len", 4); string s = pre[en::choose(en::param("prefixes", 6), "prefix")]; unsigned n = en::choose(len + 1, "length"); unsigned na = en::param("alphabet", sizeof al);
	unsigned outer = n > 2 ? n - 2 : 0; for (unsigned i = 0; i < outer; i++) s += al[en::choose(na, "character")];
	unsigned in = n - outer, total = 1; for (unsigned i = 0; i < in; i++) total *= na;
	for (unsigned k = 0; k < total; k++) { string t = s; unsigned x = k; for (unsigned i = 0; i < in; i++) { t += al[x % na]; x /= na; } en::note("'" + vis(t) + "'"); check(t); }
}
EN_SCENARIO(numbers) { // boundary numbers
	static const char *num[] = {"0", "1", "7", "31", "32", "33", "63", "64", "65", "127", "128", "254", "255", "256", "257", "0255", "1023", "1024", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967300", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999"};
	unsigned N = sizeof num / sizeof *num; int form = en::choose(5, "form"); unsigned a = en::choose(N, "number"); string s;
	if (form == 0) s = string("list:") + num[a]; else if (form == 1) s = string(en::choose(2) ? "mask:" : "") + num[a];
	else { unsigned b = en::choose(N, "number"); s = string("list:") + num[a] + (form == 2 ? "-" : form == 3 ? "," : "-") + num[b]; if (form == 4) s += string(",") + num[en::choose(N, "number")]; }
	en::note(s); check(s);
}
EN_SCENARIO(bits) { // every pair of bits, every notation
	int i = en::choose(66, "bit"); for (int j = 0; j < 66; j++) { u128 v = (u128) 1 << i | (u128) 1 << j; for (int neg = 0; neg < 2; neg++) { u128 x = neg ? (((u128) 1 << 64) - 1) ^ v : v; if (x >> 66) continue; string h, o, d;
		for (u128 t = x; t; t >>= 4) h.insert(h.begin(), "0123456789abcdef"[(int) (t & 15)]); for (u128 t = x; t; t >>= 3) o.insert(o.begin(), '0' + (int) (t & 7)); for (u128 t = x; t; t /= 10) d.insert(d.begin(), '0' + (int) (t % 10));
		if (h.empty()) h = o = d = "0"; string H = h; for (char &c : H) c = toupper(c);
		string all[] = {"0x" + h, "mask:0x" + h, "0X" + H, "mask:0x000000000000000000000" + h, "0" + o, "mask:" + d, "0x" + h + "g"};
		for (string &s : all) { en::note(s); check(s); } } }
	for (int j = i; j < 66; j++) for (int k = 0; k < 3; k++) { string s = "list:" + std::to_string(i * 4) + "-" + std::to_string(j * 4) + (k ? "," + std::to_string(k == 1 ? i : j + 100) : ""); en::note(s); check(s); }
}
namespace {
struct pol { int policy, prio; const char *aff; } P[] = {{SCHED_OTHER, 0, ""}, {SCHED_FIFO, 1, ""}, {SCHED_RR, 99, "0x5"}, {SCHED_BATCH, 0, "list:1-3,7"}, {SCHED_IDLE, 0, "mask:0x8000000000000000"}, {SCHED_FIFO, 50, "bogus"}, {SCHED_RR, 2, "list:40"}};
string showc(const vector<call> &c) { string s; for (auto &k : c) s += k.aff ? "affinity " + show(k.cpus) : "policy " + std::to_string(k.policy) + " priority " + std::to_string(k.prio) + " "; return s; }
void expect(vector<call> &v, const pol &p) { set<unsigned> c; string a = p.aff; if (a.size()) { int r = !a.compare(0, 5, "list:") ? ref_list(a.substr(5), c) : ref_mask(!a.compare(0, 5, "mask:") ? a.substr(5) : a, c); if (r == VALID) v.push_back({true, c, 0, 0}); } v.push_back({false, {}, p.policy, p.prio}); }
int freed; struct mysp : hogl::schedparam { mysp(const pol &p) : hogl::schedparam(p.policy, p.prio, DELETE_ON_EXIT, p.aff) {} ~mysp() { __sync_fetch_and_add(&freed, 1); } };
}
EN_SCENARIO(threads) { // what the engine thread and the rotation thread ask for
	int capi = en::choose(2, "C interface"), what = en::choose(3, "engine, file, both"), fail = en::choose(3, "calls succeed, affinity refused, policy refused"); const int N = sizeof P / sizeof *P; pol pe = P[en::choose(N, "engine")], pf = P[what ? en::choose(N, "file") : 0];
	aff_rc = fail == 1 ? EINVAL : 0; sched_rc = fail == 2 ? EPERM : 0; calls.clear(); freed = 0; vector<call> want, got; en::note(string(capi ? "C " : "") + "engine " + std::to_string(pe.policy) + "/" + std::to_string(pe.prio) + "/" + pe.aff + (what ? string(" file ") + std::to_string(pf.policy) + "/" + std::to_string(pf.prio) + "/" + pf.aff : ""));
	char name[64]; snprintf(name, 64, "cpu.%d.#.log", getpid());
	hogl::format_null fn; hogl::output_null on(fn); void *of = 0, *cf = 0;
	if (what) {
		if (capi) { cf = hogl_new_format_basic(0); struct hogl_output_options o = {0600, 1 << 20, 4, 0, {pf.policy, pf.prio, pf.aff[0] ? pf.aff : 0}}; of = hogl_new_output_file(name, cf, &o); }
		else { hogl::output_file::options o = {0600, 1 << 20, 4, 0, new mysp(pf)}; of = (hogl::output *) new hogl::output_file(name, fn, o); }
		expect(want, pf);
		for (int i = 0; i < 20000; i++) { usleep(100); std::lock_guard<std::mutex> g(mtx); if (calls.size() >= want.size()) break; }
		{ std::lock_guard<std::mutex> g(mtx); got = calls; calls.clear(); } EN_CHECK(showc(got) == showc(want), "rotation thread asked for: %sinstead of: %s", showc(got).c_str(), showc(want).c_str()); en::eval();
	}
	if (what != 1) {
		want.clear(); expect(want, pe);
		if (capi) { struct hogl_engine_options o = {0, 0, 10000, 64, {pe.policy, pe.prio, pe.aff[0] ? pe.aff : 0}}; hogl_activate(of ? of : (hogl_output_t) (hogl::output *) &on, &o); hogl_deactivate(); }
		else { hogl::engine::options o = hogl::engine::default_options; o.schedparam = new mysp(pe); hogl::engine *e = new hogl::engine(of ? *(hogl::output *) of : on, o); delete e; }
		got = calls; calls.clear(); EN_CHECK(showc(got) == showc(want), "engine thread asked for: %sinstead of: %s", showc(got).c_str(), showc(want).c_str()); en::eval();
	}
	if (what) { delete (hogl::output *) of; if (cf) hogl_delete_format(cf); char b[64]; snprintf(b, 64, "cpu.%d.0.log", getpid()); unlink(b); snprintf(b, 64, "cpu.%d.log", getpid()); unlink(b); }
	if (!capi) EN_CHECK(freed == (what == 2) + 1, "parameters released %d times", freed);
	en::outcome(showc(want));
}
