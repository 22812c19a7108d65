// C09: masks. Reference: every pattern comes with its own matcher.
#include "en.h"
#include <hogl/detail/ringbuf.hpp>
#include <hogl/area.hpp>
#include <hogl/mask.hpp>
#include <hogl/post.hpp>
#include <hogl/c-api/mask.h>
#include <sstream>
#include <vector>
#include <memory>
#include <string.h>
using std::string; using std::vector;
namespace {
struct pat { const char *text; bool (*match)(const string &); };
bool all(const string &) { return true; }
#define P(t, e) {t, [](const string &s) -> bool { return e; }}
// area patterns; "" stands for everything
const pat A[] = { {"", all}, P("A", s == "A"), P("AB", s == "AB"), P("A.*", s[0] == 'A'), {".*", all}, P("B|A", s == "A" || s == "B"), P("[AB]+", s.find_first_not_of("AB") == s.npos), P("A?B", s == "B" || s == "AB") };
const pat S[] = { {"", all}, P("S", s == "S"), P("SS", s == "SS"), P("S.*", s[0] == 'S'), {".*", all}, P("S|T", s == "S" || s == "T"), P("(S|SS)T?", s == "S" || s == "SS" || s == "ST"), P("S:T", s == "S:T"), P("!S", s == "!S") };
const char *anames[] = {"A", "AB", "B", "BA", "AC"};
const char *snames[] = {"S", "SS", "T", "ST", "S:T", "!S", "TS"};
struct rule { string text; const pat *a, *s; bool on; };
// colon: 0 without area part
rule mk(unsigned a, unsigned s, bool neg, bool colon) { rule r; r.on = !neg; r.a = &A[a]; r.s = &S[s]; r.text = string(neg ? "!" : "") + (colon ? string(A[a].text) + ":" : "") + S[s].text; return r; }
rule choose_rule(unsigned na, unsigned ns) {
	bool neg = en::choose(2, "negated"); bool colon = en::choose(2, "area part"); unsigned a = colon ? en::choose(na, "area pattern") : 0, s = en::choose(ns, "section pattern");
	if (!colon && (!S[s].text[0] || strchr(S[s].text, ':') || (S[s].text[0] == '!' && !neg))) en::skip();
	if (!neg && colon && A[a].text[0] == '!') en::skip();
	return mk(a, s, neg, colon);
}
typedef std::unique_ptr<hogl::mask> mptr;
enum { NBUILD = 14 };
mptr build(const vector<rule> &r, int how) {
	mptr m(new hogl::mask); size_t n = r.size(); auto t = [&](size_t i) { return r[i].text.c_str(); }; string all; for (auto &x : r) all += x.text + "\n";
	switch (how) {
	case 0: for (auto &x : r) m->add(x.text); break;
	case 1: for (auto &x : r) *m << x.text; break;
	case 2: m.reset(n == 0 ? new hogl::mask((const char *) 0) : n == 1 ? new hogl::mask(t(0), (char *) 0) : n == 2 ? new hogl::mask(t(0), t(1), (char *) 0) : new hogl::mask(t(0), t(1), t(2), (char *) 0)); break;
	case 3: { std::stringstream s(all); s >> *m; break; }
	case 4: { if (all.size()) all.erase(all.size() - 1); std::stringstream s("\n" + all); s >> *m; break; }
	case 5: m.reset((hogl::mask *) (n == 0 ? hogl_new_mask(0) : n == 1 ? hogl_new_mask(t(0), (char *) 0) : n == 2 ? hogl_new_mask(t(0), t(1), (char *) 0) : hogl_new_mask(t(0), t(1), t(2), (char *) 0))); break;
	case 6: m.reset((hogl::mask *) hogl_new_mask(0)); hogl_mask_add(m.get(), "!A:S"); hogl_mask_clear(m.get()); for (auto &x : r) hogl_mask_add(m.get(), x.text.c_str()); break;
	case 7: { mptr o = build(r, 0); m.reset(new hogl::mask(*o)); break; }                         // copy of a mask that is deleted
	case 8: { mptr o = build(r, 0); const hogl::mask &c = *o; m.reset(new hogl::mask(c)); o->clear(); *o << "A:S"; break; } // copy, original changed
	case 9: { mptr o = build(r, 0); *m << "A.*:.*"; *m = *o; o->clear(); break; }                 // assignment replaces
	case 10: m = build(r, 0); *m = *m; break;
	case 11: { mptr o = build(r, 0); mptr c(new hogl::mask(*o)); *c << ".*:.*"; *c << "!A:.*"; m = std::move(o); break; } // a copy that is changed leaves the original
	case 12: { mptr o = build(r, 0); std::stringstream s; s << *o; s >> *m; break; }              // written and read back
	case 13: m.reset(new hogl::mask("!.*", "B", (char *) 0)); m->clear(); for (size_t i = 0; i < n; i++) (*m) << r[i].text; break;
	}
	return m;
}
void check(const vector<rule> &r, int how, int repeat) {
	string d; for (auto &x : r) d += x.text + " "; en::note("rules " + d + " built " + std::to_string(how) + " applied " + std::to_string(repeat));
	mptr m = build(r, how); string out;
	for (unsigned ai = 0; ai < sizeof anames / sizeof *anames; ai++)
		for (int init = 0; init < 3; init++) {
			vector<const char *> sn(snames, snames + sizeof snames / sizeof *snames); unsigned n = sn.size(); sn.push_back(0); hogl::area a(anames[ai], &sn[0]);
			vector<bool> want(n); for (unsigned i = 0; i < n; i++) { want[i] = init == 1 || (init == 2 && i % 2); a.set(i, want[i]); }
			for (int k = 0; k < repeat; k++) m->apply(a);
			for (auto &x : r) if (x.a->match(anames[ai])) for (unsigned i = 0; i < n; i++) if (x.s->match(snames[i])) want[i] = x.on;
			for (unsigned i = 0; i < n; i++) { en::eval(); out += want[i] ? '1' : '0'; EN_CHECK(a.test(i) == want[i], "section %s of area %s is %s", snames[i], anames[ai], want[i] ? "off" : "on"); }
		}
	en::outcome(out);
}
}
EN_SCENARIO(rules) {
	unsigned len = en::param("len", 2), na = en::param("areas", sizeof A / sizeof *A), ns = en::param("sects", sizeof S / sizeof *S); vector<rule> r;
	unsigned n = en::param("exact", 0) ? len : en::choose(len + 1, "number of rules"); for (unsigned i = 0; i < n; i++) r.push_back(choose_rule(na, ns));
	int nb = en::param("builds", NBUILD); for (int how = 0; how < nb; how++) check(r, how, 1 + how % 2);
}
// posting: a record exists if and only if the section is on; areas of all sizes around the word size
EN_SCENARIO(posts) {
	static const unsigned sizes[] = {1, 2, 6, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}; unsigned n = sizes[en::choose(16, "sections")]; int init = en::choose(2, "initially"), how = en::choose(2, "post, post_unlocked");
	vector<string> nm; vector<const char *> sn; for (unsigned i = 0; i < n; i++) nm.push_back("s" + std::to_string(i)); for (auto &x : nm) sn.push_back(x.c_str()); sn.push_back(0);
	unsigned c = n < 4 ? n : 12, k = en::choose(c, "section"); unsigned sect = k < 4 && n >= 12 ? k : n >= 12 ? n * k / 12 : k % n; if (k == 11) sect = n - 1;
	hogl::area a("A", &sn[0]); if (init) a.set(); else a.reset();
	hogl::mask m((string(init ? "!" : "") + "A:s" + std::to_string(sect)).c_str(), (char *) 0); m.apply(a);
	en::note("area of " + std::to_string(n) + " sections, section " + std::to_string(sect) + " switched " + (init ? "off" : "on"));
	hogl::ringbuf::options o = {}; o.capacity = 256; o.prio = 1; o.record_tailroom = 80; hogl::ringbuf *ring = new hogl::ringbuf("R", o);
	ring->hold();
	for (unsigned i = 0; i < n; i++) { if (how == 0) hogl::post(ring, &a, i, i); else hogl::post_unlocked(ring, &a, i, i); }
	for (unsigned i = 0; i < n; i++) {
		bool on = (i == sect) != (init != 0); EN_CHECK(a.test(i) == on, "section %u is %s", i, on ? "off" : "on"); if (!on) continue;
		hogl::record *r = ring->pop_begin(); EN_CHECK(r, "post to section %u was not recorded", i); EN_CHECK(r->section == i && r->get_arg_val32(0) == i && r->area == &a, "record of section %u instead of %u", (unsigned) r->section, i); ring->pop_commit(); en::eval();
	}
	EN_CHECK(!ring->pop_begin(), "record of a section that is off"); en::outcome(std::to_string(n) + "/" + std::to_string(sect) + "/" + std::to_string(init));
	ring->release();
}

// one or two rules over a wide alphabet of patterns, on areas with unusual names and many sections
namespace {
bool upper(const string &s) { for (char c : s) if (c < 'A' || c > 'Z') return false; return s.size(); }
bool digits(const string &s) { for (char c : s) if (c < '0' || c > '9') return false; return true; }
const pat W[] = { P("[[:upper:]]+", upper(s)), P("[[:digit:]]*", digits(s)), P("A{2}", s == "AA"), P("A{1,2}B", s == "AB" || s == "AAB"), P("A\\.B", s == "A.B"), P("A.B", s.size() == 3 && s[0] == 'A' && s[2] == 'B'),
	P("[^A]", s.size() == 1 && s != "A"), P(".", s.size() == 1), P("..", s.size() == 2), P("A+", s.size() && s.find_first_not_of('A') == s.npos), P("(A|AA)(A|B)?", s == "A" || s == "AA" || s == "AB" || s == "AAA" || s == "AAB"),
	P("a", s == "a"), P(".*B", s.size() && s[s.size() - 1] == 'B'), P(".*A.*B.*", s.find('A') != s.npos && s.find('B', s.find('A')) != s.npos), P("A:B", s == "A:B"), P("A-B", s == "A-B"), P("A B", s == "A B"),
	P("[A-C][0-9]", s.size() == 2 && s[0] >= 'A' && s[0] <= 'C' && s[1] >= '0' && s[1] <= '9'), P("A3[12]|A6[34]", s == "A31" || s == "A32" || s == "A63" || s == "A64"), P("A[[:digit:]]+", s.size() > 1 && s[0] == 'A' && digits(s.substr(1))), P("A!", s == "A!"), P("!A", s == "!A"), P("[[:upper:]]:[[:upper:]]", s == "A:B") };
enum { NW = sizeof W / sizeof *W };
}
EN_SCENARIO(patterns) {
	static const char *an[] = {"A", "a", "AA", "AAB", "AB", "A.B", "A-B", "A B", "A3", "31", "A!", "B", "BA", "CAB", ".*"};
	vector<string> sn; for (auto x : an) sn.push_back(x); sn.push_back("A:B"); sn.push_back("!A"); sn.push_back(""); while (sn.size() < 60) sn.push_back("x" + std::to_string(sn.size())); for (int i = 29; i < 36; i++) sn.push_back("A" + std::to_string(i)); for (int i = 62; i < 67; i++) sn.push_back("A" + std::to_string(i));
	vector<const char *> sp; for (auto &x : sn) sp.push_back(x.c_str()); sp.push_back(0);
	unsigned n = 1 + en::choose(en::param("len", 2), "rules"); vector<rule> r;
	for (unsigned i = 0; i < n; i++) {
		bool neg = en::choose(2, "negated"); rule x; x.on = !neg; x.a = i ? &A[0] : &A[0]; unsigned k = en::choose(NW, "pattern"); bool area = n == 1 && en::choose(2, "as area pattern");
		if (area) { x.a = &W[k]; x.s = &S[0]; if (strchr(W[k].text, ':')) en::skip(); if (!neg && W[k].text[0] == '!') en::skip(); x.text = string(neg ? "!" : "") + W[k].text + ":"; if (en::choose(2, "section part .*")) x.text += ".*"; }
		else { x.a = &A[0]; x.s = &W[k]; bool colon = strchr(W[k].text, ':') || (!neg && W[k].text[0] == '!') || en::choose(2, "colon"); x.text = string(neg ? "!" : "") + (colon ? ":" : "") + W[k].text; }
		r.push_back(x);
	}
	string d; for (auto &x : r) d += x.text + " "; en::note("rules " + d); string out;
	for (int how = 0; how < (n == 1 ? 13 : 1); how++) { mptr m = build(r, how);
		for (auto a : an) for (int init = 0; init < 2; init++) {
			hogl::area ar(a, &sp[0]); if (init) ar.set(); else ar.reset(); m->apply(ar); EN_CHECK(ar.size() == sn.size(), "area has %u sections instead of %zu", ar.size(), sn.size());
			for (unsigned i = 0; i < sn.size(); i++) { bool w = init; for (auto &x : r) if (x.a->match(a) && x.s->match(sn[i])) w = x.on; en::eval(); out += w ? '1' : '0'; EN_CHECK(ar.test(i) == w, "section %u '%s' of area %s is %s (built %d)", i, sn[i].c_str(), a, w ? "off" : "on", how); }
		} }
	en::outcome(out);
}
