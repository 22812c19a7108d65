// C18: every kind of output with the real system below it: nothing is lost on the way, from the header to the footer
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <hogl/output-stdout.hpp>
#include <hogl/output-stderr.hpp>
#include <hogl/output-pipe.hpp>
#include <hogl/output-plainfile.hpp>
#include <hogl/output-file.hpp>
#include <hogl/output-null.hpp>
#include <hogl/output-tee.hpp>
#include <hogl/format-basic.hpp>
#include <en.h>
__HOGL_PRIV_NS_USING__;
using std::string; using std::vector;
namespace {
void put(hogl::ostrbuf &sb, const char *s) { sb.push_back((const uint8_t *) s, strlen(s)); }
struct wordfmt : hogl::format { // prints the ring name
	void process(hogl::ostrbuf &sb, const data &d) { if (*d.ring_name) sb.push_back((const uint8_t *) d.ring_name, strlen(d.ring_name)); }
	void header(hogl::ostrbuf &sb, const char *n, bool first) { put(sb, first ? "<first " : "<next "); put(sb, n); put(sb, ">\n"); }
	void footer(hogl::ostrbuf &sb, const char *n) { put(sb, "<end"); if (n) { put(sb, " "); put(sb, n); } put(sb, ">\n"); }
};
string slurp(const string &f) { string s; FILE *h = fopen(f.c_str(), "r"); char b[4096]; size_t n; while (h && (n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); if (h) fclose(h); return s; }
string text(size_t n, int seed) { string s; for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyz%\\n"[(i * 7 + seed * 5) % 29]; return s; }
enum kind { OUT, ERR, PIPE, PLAIN, FILES, NUL };
hogl::output *make(int k, hogl::format &f, unsigned cap, const string &name) {
	switch (k) {
	case OUT: return new hogl::output_stdout(f, cap); case ERR: return new hogl::output_stderr(f, cap); case PIPE: return new hogl::output_pipe(("cat > " + name + ".0").c_str(), f, cap); case PLAIN: return new hogl::output_plainfile((name + ".0").c_str(), f, cap);
	case FILES: { hogl::output_file::options o = {0600, 1u << 30, 10, cap, 0}; return new hogl::output_file(name.c_str(), f, o); } default: return new hogl::output_null(f);
	}
}
string title(int k, const string &name) { switch (k) { case OUT: return "stdout"; case ERR: return "stderr"; case PIPE: return "pipe"; default: return name + ".0"; } }
struct redirect { int fd, save; redirect(int f) : fd(f) { if (fd < 0) return; fflush(0); save = dup(fd); int o = open("std", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(o, fd); close(o); } void back() { if (fd < 0) return; fflush(0); dup2(save, fd); close(save); } };
const char *kinds[] = {"stdout", "stderr", "pipe", "plain file", "files", "null"};
}
EN_SCENARIO(streams) {
	static const unsigned caps[] = {0, 1, 16, 4096, 8192}; static const size_t lens[] = {0, 1, 15, 17, 5000, 20000};
	int k = en::choose(6, "output"); unsigned cap = caps[en::choose(5, "buffer")]; int n = en::choose(en::param("len", 2) + 1, "records"), fl = en::choose(3, "flush"); vector<string> w; string what = string(kinds[k]) + " buffer " + std::to_string(cap) + " flush " + std::to_string(fl) + " records"; for (int i = 0; i < n; i++) { size_t l = lens[en::choose(6, "length")]; w.push_back(text(l, i + k)); what += " " + std::to_string(l); } en::note(what);
	char dir[] = "out.XXXXXX"; EN_CHECK(mkdtemp(dir), "mkdtemp"); EN_CHECK(!chdir(dir), "chdir"); wordfmt f; redirect r(k == OUT ? 1 : k == ERR ? 2 : -1); string before, all = "<first " + title(k, "log") + ">\n"; bool whole = true, failed = false;
	{ hogl::output *o = make(k, f, cap, "log"); for (int i = 0; i < n; i++) { hogl::format::data d = {w[i].c_str(), 0}; o->process(d); all += w[i]; if (fl == 1 || (fl == 2 && i == 0)) { o->flush(); if (k == PLAIN || k == FILES) whole = whole && slurp("log.0") == all; } } failed = k != NUL && o->failed(); delete o; }
	all += "<end>\n"; r.back(); string got = slurp(k == OUT || k == ERR ? "std" : "log.0"); for (const char *x : {"std", "log.0", "log"}) unlink(x); EN_CHECK(!chdir("..") && !rmdir(dir), "files left in %s", dir); en::eval(); en::outcome(what);
	EN_CHECK(!failed, "failed without an error"); EN_CHECK(whole, "flush left bytes behind"); if (k == NUL) EN_CHECK(got.empty(), "something was written"); else EN_CHECK(got == all, "%zu bytes '%.60s' ... were written instead of %zu '%.60s' ...", got.size(), got.c_str(), all.size(), all.c_str());
}
// several outputs behind a tee
EN_SCENARIO(tees) {
	int a = en::choose(5, "first output"), b = en::choose(5, "second output"); if (a == b && a < 2) b = 2; static const unsigned caps[] = {0, 16, 4096}; unsigned ca = caps[en::choose(3, "buffer")], cb = caps[en::choose(3, "buffer")], ct = caps[en::choose(3, "buffer")]; size_t l = (size_t[]) {0, 1, 17, 5000}[en::choose(4, "length")]; string t = text(l, 3), what = string(kinds[a]) + " " + std::to_string(ca) + ", " + kinds[b] + " " + std::to_string(cb) + ", tee " + std::to_string(ct) + ", " + std::to_string(l) + " bytes"; en::note(what);
	char dir[] = "out.XXXXXX"; EN_CHECK(mkdtemp(dir), "mkdtemp"); EN_CHECK(!chdir(dir), "chdir"); wordfmt f, g; int fd[2] = {-1, -1}, save[2], ks[2] = {a, b}; fflush(0); const char *nm[] = {"std", "log.0", "lag.0", "std1", "std2", "log", "lag"};
	for (int i = 0; i < 2; i++) if (ks[i] < 2) { fd[i] = 1 + ks[i]; save[i] = dup(fd[i]); int o = open(ks[i] ? "std2" : "std1", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); dup2(o, fd[i]); close(o); }
	hogl::output *x = make(a, f, ca, "log"), *y = make(b, g, cb, "lag"); { hogl::output_tee o(x, y, ct); for (int i = 0; i < 2; i++) { hogl::format::data d = {t.c_str(), 0}; o.process(d); if (i) o.flush(); } } delete x; delete y; fflush(0); for (int i = 0; i < 2; i++) if (fd[i] >= 0) { dup2(save[i], fd[i]); close(save[i]); }
	string got[2]; for (int i = 0; i < 2; i++) got[i] = slurp(ks[i] == OUT ? "std1" : ks[i] == ERR ? "std2" : i ? "lag.0" : "log.0"); for (auto n : nm) unlink(n); EN_CHECK(!chdir("..") && !rmdir(dir), "files left in %s", dir); en::eval(); en::outcome(what);
	for (int i = 0; i < 2; i++) { string all = "<first " + title(ks[i], i ? "lag" : "log") + ">\n" + t + t + "<end>\n"; EN_CHECK(got[i] == all, "output %d: %zu bytes '%.60s' ... were written instead of %zu '%.60s' ...", i, got[i].size(), got[i].c_str(), all.size(), all.c_str()); }
}
