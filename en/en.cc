#include "en.h"
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>

namespace en {
enum { MAXC = 400, MAXW = 16, NSAMP = 6, HANG = 30 };
struct Choice { int n, v; const char *what; };
struct Shared { // one per worker
	volatile uint64_t execs, leaves, nodes, trans, evals, skipped; volatile int depth; Choice c[MAXC]; volatile int done, viol, partial; char msg[4000], note[4000]; char samples[NSAMP][600]; volatile int nsamp; uint64_t maxdepth;
};
static Shared *sh; static Shared *me; static int W, w; static double t_end; bool replaying;
static std::map<std::string, void (*)()> &reg() { static std::map<std::string, void (*)()> r; return r; }
static std::map<std::string, std::string> &params() { static std::map<std::string, std::string> p; return p; }
Reg::Reg(const char *n, void (*f)()) { reg()[n] = f; }
struct Stop { int kind; };
static int pos; static uint64_t prod, idx; static bool mine; static std::vector<Choice> rep;
static std::unordered_set<uint64_t> *outs; static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int choose(int n, const char *what) {
	if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); _exit(3); }
	if (replaying) { if ((size_t) pos >= rep.size() || rep[pos].n != n) { fprintf(stderr, "replay diverges at choice %d (%s of %d)\n", pos, what, n); _exit(3); } printf("choice %d: %s = %d of %d\n", pos, what, rep[pos].v, n); return rep[pos++].v; }
	if (pos >= MAXC) { fprintf(stderr, "too many choices\n"); _exit(3); }
	Choice &c = me->c[pos];
	if (pos >= me->depth) { c.n = n; c.v = 0; me->depth = pos + 1; me->nodes++; }
	else if (c.n != n) { fprintf(stderr, "nondeterministic harness: choice %d (%s) has %d values, had %d\n", pos, what, n, c.n); _exit(3); }
	c.what = what; pos++; me->trans++; if ((uint64_t) pos > me->maxdepth) me->maxdepth = pos;
	if (!mine) { prod *= n; idx = idx * n + c.v; if (prod >= (uint64_t) 16 * W) { if (idx * 2654435761u % 1000003 % W != (unsigned) w) throw Stop{2}; mine = true; } }
	return c.v;
}
void fail(const char *f, ...) {
	va_list a; va_start(a, f); vsnprintf(me->msg, sizeof me->msg, f, a); va_end(a); throw Stop{1};
}
void skip() { throw Stop{3}; }
void eval(uint64_t n) { me->evals += n; }
void note(const std::string &s) { snprintf(me->note, sizeof me->note, "%s", s.c_str()); }
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
void outcome(const std::string &s) { if (outs && outs->size() < 400000) outs->insert(fnv(s)); }
long param(const char *n, long d) { auto i = params().find(n); return i == params().end() ? d : strtol(i->second.c_str(), 0, 0); }
std::string param_s(const char *n, const char *d) { auto i = params().find(n); return i == params().end() ? d : i->second; }
std::string hex(const void *p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const uint8_t *) p)[i]); s += b; } return s; }

static int run_once(void (*f)()) {
	pos = 0; prod = 1; idx = 0; mine = replaying || W == 1; me->note[0] = 0; int k = 0;
	try { f(); } catch (Stop &s) { k = s.kind; } catch (std::exception &e) { snprintf(me->msg, sizeof me->msg, "unexpected exception: %s", e.what()); k = 1; }
	if (k == 0 && !mine && w != 0) k = 2; // too short to be distributed
	return k;
}
static void worker(void (*f)()) {
	prctl(PR_SET_PDEATHSIG, SIGKILL); outs = new std::unordered_set<uint64_t>; uint64_t lastnote = 0;
	for (;;) {
		me->execs++; if ((me->execs & 255) == 0 && ftruncate(2, 0)) {} int k = run_once(f);
		if (k == 1) { me->viol = 1; break; }
		if (k == 0) { me->leaves++; if (me->note[0] && me->nsamp < NSAMP && (me->leaves & (me->leaves - 1)) == 0 && me->leaves != lastnote) { lastnote = me->leaves; snprintf(me->samples[me->nsamp], 600, "%s", me->note); me->nsamp = me->nsamp + 1; } }
		if (k == 3) me->skipped++;
		int d = pos; // choices beyond pos do not exist in this execution
		while (d > 0 && me->c[d - 1].v + 1 >= me->c[d - 1].n) d--;
		if (!d) break;
		me->c[d - 1].v++; me->depth = d;
		if ((me->execs & 15) == 0 && now() > t_end) { me->partial = 1; break; }
	}
	FILE *o = fopen(("out." + std::to_string(w)).c_str(), "w"); for (uint64_t h : *outs) fwrite(&h, 8, 1, o); fclose(o);
	me->done = 1; _exit(0);
}
static std::string esc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
}
using namespace en;
int main(int argc, char **argv) {
	std::string sc, js, ro, rp; double tm = 20; W = std::min<long>(8, std::max<long>(1, sysconf(_SC_NPROCESSORS_ONLN)));
	for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1];
		if (a == "--scenario") sc = v; else if (a == "--time") tm = atof(v.c_str()); else if (a == "--json") js = v; else if (a == "--replay-out") ro = v; else if (a == "--replay") rp = v;
		else if (a == "--workers") W = atoi(v.c_str());
		else if (a == "--param") { size_t e = v.find('='); params()[v.substr(0, e)] = v.substr(e + 1); } }
	if (!reg().count(sc)) { fprintf(stderr, "scenarios:"); for (auto &r : reg()) fprintf(stderr, " %s", r.first.c_str()); fprintf(stderr, "\n"); return 2; }
	auto f = reg()[sc]; signal(SIGPIPE, SIG_IGN); setenv("TZ", "UTC", 0);
	sh = (Shared *) mmap(0, sizeof(Shared) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (rp.size()) {
		replaying = true; me = sh; W = 1; char l[4096]; FILE *r = fopen(rp.c_str(), "r"); int n, v; while (r && fgets(l, sizeof l, r)) if (sscanf(l, "choice %d %d", &n, &v) == 2) rep.push_back({n, v, ""});
		int k = run_once(f); printf("%s\n%s\n", me->note, k == 1 ? me->msg : "no violation"); return k == 1;
	}
	for (int i = 0; i < MAXW; i++) unlink(("out." + std::to_string(i)).c_str()); double t0 = now(); t_end = t0 + tm; pid_t pid[MAXW]; uint64_t last[MAXW]; double seen[MAXW]; fflush(0);
	for (int i = 0; i < W; i++) { if (!(pid[i] = fork())) { w = i; me = &sh[i]; me->maxdepth = 0; int e = open(("err." + std::to_string(i)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(e, 2); dup2(e, 1); worker(f); } last[i] = 0; seen[i] = now(); }
	int left = W, bad = -1, herr = 0; std::string msg;
	while (left) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p <= 0) {
			usleep(20000);
			for (int i = 0; i < W; i++) if (pid[i] && bad < 0) { if (sh[i].execs != last[i] || sh[i].viol || sh[i].done) last[i] = sh[i].execs, seen[i] = now(); else if (now() - seen[i] > HANG) { bad = i; msg = "does not terminate"; snprintf(sh[i].msg, 4000, "%s", msg.c_str()); kill(pid[i], SIGKILL); } }
			continue;
		}
		int i = 0; while (i < W && pid[i] != p) i++; if (i == W) continue;
		pid[i] = 0; left--;
		if (bad == i) {}
		else if (sh[i].viol && sh[i].done) { if (bad < 0) { bad = i; msg = sh[i].msg; } }
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fputs(slurp("err." + std::to_string(i)).c_str(), stderr); herr = 1; }
		else if (!sh[i].done && !(bad >= 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
			if (bad < 0) { bad = i; std::string e = slurp("err." + std::to_string(i)); size_t a = e.find("SUMMARY: "), b = e.find("runtime error: "); if (a != e.npos) msg = e.substr(a + 9, e.find('\n', a) - a - 9); else if (b != e.npos) msg = e.substr(b, e.find('\n', b) - b); else msg = e.substr(0, 300);
				char h[64]; snprintf(h, 64, WIFSIGNALED(st) ? "crashed with signal %d: " : "exited with %d: ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); msg = h + msg; snprintf(sh[i].msg, 4000, "%s", msg.c_str()); }
		}
		if (bad >= 0) for (int j = 0; j < W; j++) if (pid[j]) kill(pid[j], SIGKILL);
	}
	if (herr && bad < 0) return 2;
	uint64_t ex = 0, lv = 0, nodes = 0, tr = 0, ev = 0, sk = 0, md = 0; bool part = false; std::set<uint64_t> all; std::string smp;
	for (int i = 0; i < W; i++) { Shared &s = sh[i]; lv += s.leaves; nodes += s.nodes; tr += s.trans; ev += s.evals; sk += s.skipped; ex += s.execs; part |= s.partial; md = std::max(md, s.maxdepth);
		std::string o = slurp("out." + std::to_string(i)); for (size_t k = 0; k + 8 <= o.size(); k += 8) { uint64_t h; memcpy(&h, &o[k], 8); all.insert(h); }
		for (int k = 0; k < s.nsamp; k++) if (i < 3 || !k) smp += (smp.empty() ? "\"" : ",\"") + esc(s.samples[k]) + "\""; }
	if (bad >= 0) {
		msg += sh[bad].note[0] ? std::string(" [") + sh[bad].note + "]" : "";
		printf("VIOL scenario=%s %s\n", sc.c_str(), msg.c_str());
		if (ro.size()) { FILE *o = fopen(ro.c_str(), "w"); fprintf(o, "scenario %s\nmessage %s\n", sc.c_str(), msg.c_str()); for (int k = 0; k < sh[bad].depth && k < MAXC; k++) fprintf(o, "choice %d %d %s\n", sh[bad].c[k].n, sh[bad].c[k].v, sh[bad].c[k].what); fprintf(o, "end\n%s", slurp("err." + std::to_string(bad)).substr(0, 20000).c_str()); fclose(o); }
	}
	if (js.size()) { FILE *o = fopen(js.c_str(), "w");
		fprintf(o, "{\"result\":\"%s\",\"message\":\"%s\",\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"evaluations\":%lu,\"skipped\":%lu,\"outcomes\":%lu,\"distinct\":%lu,\"bound_requested\":0,\"bound_completed\":%d,\"exhausted\":%s,\"max_decisions\":%lu,\"wall_s\":%.2f,\"samples\":[%s]}\n",
			bad >= 0 ? "violation" : "ok", esc(msg.substr(0, 1500)).c_str(), lv, tr, lv, ev + lv, sk, (unsigned long) all.size(), (unsigned long) all.size(), part || bad >= 0 ? -1 : 0, part || bad >= 0 ? "false" : "true", md, now() - t0, smp.c_str()); fclose(o); }
	return bad >= 0;
}
