// File output scenarios: rotation, the link, crashes, short writes.
// Every execution works on real files in a directory of its own below the
// current directory; every file operation is a scheduling point and, for the
// crash scenarios, a point where the process may be killed and restarted.
#include "eng.hpp"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/detail/ostrbuf-fd.hpp"
#include "hogl/detail/ostrbuf-tee.hpp"
#include "hogl/output-tee.hpp"
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/syscall.h>
using namespace vt;

namespace {
// ---- raw file helpers (never seen by the scheduler)
std::string slurp(const std::string &p) {
	std::string s; int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (fd < 0) return "\1missing";
	char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n); syscall(SYS_close, fd); return s;
}
bool exists(const std::string &p) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0) == 0; }
std::string rdlink(const std::string &p) { char b[512]; long n = syscall(SYS_readlink, p.c_str(), b, sizeof b); return n < 0 ? "" : std::string(b, n); }
// must not allocate: addresses are part of the explored state
void wipe(const char *d) {
	static char buf[2][8192]; static int depth; int fd = syscall(SYS_openat, AT_FDCWD, d, O_RDONLY | O_DIRECTORY, 0); if (fd < 0 || depth > 1) return;
	char *bf = buf[depth++]; long n;
	while ((n = syscall(SYS_getdents64, fd, bf, sizeof buf[0])) > 0) for (long o = 0; o < n;) {
		struct { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[256]; } *e = (decltype(e)) (bf + o); o += e->len;
		if (!strcmp(e->name, ".") || !strcmp(e->name, "..")) continue;
		char f[600]; snprintf(f, sizeof f, "%s/%s", d, e->name);
		if (syscall(SYS_unlink, f) < 0) { wipe(f); syscall(SYS_rmdir, f); }
	}
	syscall(SYS_close, fd); depth--;
}
// Directory of this execution, empty; the process works inside of it.
void enter_dir() {
	char b[64]; snprintf(b, sizeof b, "w%d", (int) getppid());
	syscall(SYS_mkdir, b, 0700); wipe(b); if (chdir(b)) mc::fail("cannot enter the scratch directory");
	syscall(SYS_mkdir, "sub", 0700);
}

// ---- what the output wrote, file by file
struct gen { std::string name, data; int fd; bool open, aborted; };
std::vector<gen> *G; bool opened; // ctor returned
// remaining faults: short or interrupted writes, failing opens of a rotated file,
// failing first writes to a rotated file, write errors anywhere
int fshort, fopen_, fhead, ferr; int hard_errno; unsigned openfails;
gen *byfd(int fd) { for (size_t i = G->size(); i-- > 0;) if ((*G)[i].open && (*G)[i].fd == fd) return &(*G)[i]; return 0; }
void (*crash_check)(const char *op);

long real_write(int fd, const struct iovec *iov, int cnt, size_t limit) {
	std::string s; for (int i = 0; i < cnt; i++) s.append((const char *) iov[i].iov_base, iov[i].iov_len);
	if (s.size() > limit) s.resize(limit);
	long n = syscall(SYS_write, fd, s.data(), s.size());
	gen *g = byfd(fd); if (g && n > 0) g->data.append(s, 0, n);
	return n;
}
bool io(const char *op, int fd, const void *iov, int cnt, long *ret) {
	if (op[0] == 'w' && byfd(fd)) {
		size_t len = 0; for (int i = 0; i < cnt; i++) len += ((const struct iovec *) iov)[i].iov_len;
		size_t lim = ~0ul;
		gen *g = byfd(fd);
		if (fhead && len && g != &(*G)[0] && g->data.empty() && mc::choose(2, "write of the header: ok, error")) { fhead--; g->aborted = true; errno = ENOSPC; *ret = -1; return true; }
		if (ferr && len) { int c = mc::choose(3, "write: ok, EIO, ENOSPC"); if (c) { ferr--; errno = hard_errno = c == 1 ? EIO : ENOSPC; *ret = -1; return true; } }
		if (fshort && len) {
			int c = mc::choose(len > 1 ? 4 : 2, "write: complete, interrupted, one byte, all but one byte");
			if (c) fshort--;
			if (c == 1) { errno = EINTR; *ret = -1; return true; }
			if (c == 2) lim = 1; else if (c == 3) lim = len - 1;
		}
		*ret = real_write(fd, (const struct iovec *) iov, cnt, lim); if (*ret < 0) errno = EIO;
		if (crash_check) crash_check("write");
		return true;
	}
	if (op[0] == 'o' && fopen_ && !G->empty() && mc::choose(2, "open: ok, error")) { fopen_--; openfails++; errno = ENOSPC; *ret = -1; return true; }
	if (op[0] == 'c') { gen *g = byfd(fd); if (g) g->open = false; }
	return false;
}
void fs(const char *op, const char *path, long ret) {
	if (op[0] == 'o' && ret >= 0 && path) { gen g = {path, "", (int) ret, true, false}; G->push_back(g); }
	if (crash_check) crash_check(op);
}

struct lines_format : hogl::format {
	void process(hogl::ostrbuf &s, const data &) { }
	void header(hogl::ostrbuf &s, const char *n, bool first) { s.push_back(std::string("{") + n + (first ? "*" : "+")); }
	void footer(hogl::ostrbuf &s, const char *n) { s.push_back(std::string(">") + (n ? n : "") + "}"); }
} lfmt;

// Splits a chunk into header, payload and footer.
bool split(const std::string &s, std::string &name, bool &first, std::string &body, std::string &next) {
	if (s.empty() || s[0] != '{') return false;
	size_t h = s.find_first_of("*+"), f = s.rfind('>'); if (h == s.npos || f == s.npos || f < h || s[s.size() - 1] != '}') return false;
	name = s.substr(1, h - 1); first = s[h] == '*'; body = s.substr(h + 1, f - h - 1); next = s.substr(f + 1, s.size() - f - 2);
	return body.find_first_of("{}*+>") == body.npos;
}
std::string gdump() { std::string s; for (size_t i = 0; i < G->size(); i++) s += (*G)[i].name + "=" + (*G)[i].data + ((*G)[i].open ? "" : ".") + " "; return s; }

std::string fname(const std::string &pre, const std::string &suf, unsigned idx, unsigned max) {
	unsigned w = 1; for (unsigned s = 10; s < max; s *= 10) w++;
	char b[32]; snprintf(b, sizeof b, "%0*u", w, idx); return pre + b + suf;
}
struct wr { hogl::output_file *o; unsigned n, k0, len; };
std::string piece(unsigned k, unsigned len) { std::string s(1, 'a' + k % 26); while (s.size() < len) s += '0' + s.size() % 10; return s; }
void begin(int faults) {
	enter_dir(); G = new std::vector<gen>; G->reserve(64); opened = false; fshort = faults; fopen_ = fhead = ferr = 0; openfails = 0; crash_check = 0;
	mc::H.io = io; mc::H.fs = fs;
}
void *switcher(void *p) { wr *w = (wr *) p; w->o->switch_name("sub/new.#.txt"); return 0; }
}

// C16: writing, rotation, forced switch and shutdown.
static std::string link_name(const std::string &pre, const std::string &suf) { return suf.size() && pre.size() && pre[pre.size() - 1] == suf[0] ? pre.substr(0, pre.size() - 1) + suf : pre + suf; }
MC_SCENARIO(rotate) {
	unsigned n = mc::param("n", 3), len = mc::param("len", 4), max = mc::param("max", 3), obuf = mc::param("obuf", 0), sw = mc::param("switch", 0), settle = mc::param("settle", 0);
	size_t lim = mc::param("size", 12); std::string name = mc::param_s("name", "log.#.txt"); std::string pre = name.substr(0, name.find('#')), suf = name.substr(name.find('#') + 1);
	begin(mc::param("faults", 0)); fopen_ = mc::param("openfail", 0); fhead = mc::param("headfail", 0);
	int start = mc::param("start", 0); // a previous output of this name stopped at that index
	if (start) { std::string f = fname(pre, suf, start - 1, max); int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_CREAT | O_WRONLY, 0600); syscall(SYS_close, fd); std::string l = link_name(pre, suf); if (symlink(f.substr(f.rfind('/') + 1).c_str(), l.c_str())) mc::fail("symlink"); }
	int swstart = mc::param("swstart", 0); // the name it switches to was used before, up to that index
	if (swstart) { std::string f = fname("sub/new.", ".txt", swstart - 1, max); int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_CREAT | O_WRONLY, 0600); syscall(SYS_close, fd); if (symlink(f.substr(4).c_str(), "sub/new.txt")) mc::fail("symlink"); }
	hogl::output_file::options o = {0600, lim, max, obuf, 0};
	hogl::output_file *of = new hogl::output_file(name.c_str(), lfmt, o); wr w = {of, n, 0, len}; std::string all; thr t;
	if (sw == 2) t.start(switcher, &w);
	for (unsigned k = 0; k < n; k++) {
		if (sw == 1 && k == n / 2) MC_CHECK(of->switch_name("sub/new.#.txt"), "switch refused");
		std::string s = piece(k, len); all += s; of->get_ostrbuf()->push_back(s); if (obuf && (k & 1)) of->flush();
	}
	if (sw == 2) t.join();
	if (settle == 2) {
		// a rotation that becomes due when nothing else goes on is carried out, even if the output is closed at once
		for (int i = 0; i < 10; i++) usleep(1000);
		size_t g0 = G->size(), hd = g0 > 1 ? (*G)[g0 - 1].name.size() + 2 : 0, have = (*G)[g0 - 1].data.size() - hd;
		std::string s = piece(25, have < lim ? lim - have : 1); all += s; of->get_ostrbuf()->push_back(s); of->flush();
		delete of; of = 0;
		MC_CHECK(G->size() > g0, "file of %zu bytes (limit %zu) is not rotated: %s", (*G)[g0 - 1].data.size(), lim, gdump().c_str());
	} else if (settle) {
		// with further output, a due rotation is carried out
		of->flush(); size_t g0 = G->size(); bool due = (*G)[g0 - 1].data.size() >= lim; int k = 0;
		if (sw) { for (; k < 40 && (*G)[G->size() - 1].name.compare(0, 8, "sub/new."); k++) usleep(1000); MC_CHECK(!(*G)[G->size() - 1].name.compare(0, 8, "sub/new."), "the output was never switched to the new name: %s", gdump().c_str()); }
		else if (due) {
			// everybody else is done, then a byte is enough, unless the rotation fails or the helper just looks around
			for (int i = 0; i < 10; i++) usleep(1000);
			g0 = G->size(); size_t hd = g0 > 1 ? (*G)[g0 - 1].name.size() + 2 : 0; due = (*G)[g0 - 1].data.size() - hd >= lim; int tries = 4 + fopen_ + fhead;
			for (; due && k < tries && (G->size() == g0 || (*G)[G->size() - 1].aborted); k++) { std::string s = "z"; all += s; of->get_ostrbuf()->push_back(s); of->flush(); for (int i = 0; i < 10; i++) usleep(1000); }
			if (due) MC_CHECK(G->size() > g0, "file of %zu bytes (limit %zu) is not rotated: %s", (*G)[g0 - 1].data.size(), lim, gdump().c_str()); }
	}
	delete of;
	// files given up because their header could not be written do not count
	std::vector<gen> whole = *G; size_t kept = 0;
	for (size_t i = G->size(); i-- > 0;) if ((*G)[i].aborted) { MC_CHECK((*G)[i].data.empty() && !(*G)[i].open, "file %s without header is used", (*G)[i].name.c_str()); G->erase(G->begin() + i); }
	std::string got, d = gdump(), expect_next; bool swd = false; unsigned idx = start ? start % max : 0;
	for (size_t i = 0; i < G->size(); i++) {
		gen &g = (*G)[i]; std::string nm, body, next; bool first; MC_CHECK(split(g.data, nm, first, body, next), "file %zu (%s) is not one header, data and one footer: %s", i, g.name.c_str(), d.c_str());
		MC_CHECK(!g.open, "file %s was not closed", g.name.c_str());
		MC_CHECK(nm == g.name, "header of %s names %s", g.name.c_str(), nm.c_str());
		MC_CHECK(first == (i == 0), "header of file %zu is%s marked as the first", i, first ? "" : " not");
		MC_CHECK(next == (i + 1 < G->size() ? (*G)[i + 1].name : ""), "footer of %s names '%s' as successor: %s", g.name.c_str(), next.c_str(), d.c_str());
		bool isnew = !g.name.compare(0, 8, "sub/new.");
		if (isnew && !swd) { MC_CHECK(sw, "file name %s", g.name.c_str()); swd = true; idx = swstart % max; pre = "sub/new."; suf = ".txt"; }
		else if (i) idx = (idx + 1) % max;
		if (i + 1 < G->size() && !sw) MC_CHECK(body.size() + nm.size() + 2 >= lim, "file %s rotated with %zu of %zu bytes: %s", g.name.c_str(), body.size(), lim, d.c_str());
		MC_CHECK(g.name == fname(pre, suf, idx, max), "file %zu is named %s instead of %s: %s", i, g.name.c_str(), fname(pre, suf, idx, max).c_str(), d.c_str());
		got += body;
		while (whole[kept].aborted) kept++;
		bool last = true; for (size_t j = ++kept; j < whole.size(); j++) last &= whole[j].name != g.name;
		if (last) MC_CHECK(slurp(g.name) == g.data, "file %s contains '%s' instead of '%s'", g.name.c_str(), slurp(g.name).c_str(), g.data.c_str());
	}
	MC_CHECK(got == all, "%zu bytes were output, the files contain: %s", all.size(), d.c_str());
	std::string l = link_name(pre, suf); gen &e = (*G)[G->size() - 1]; std::string tgt = rdlink(l);
	MC_CHECK(tgt.size() && exists(l) && slurp(l) == e.data, "after shutdown the link points to '%s', the last file is %s", tgt.c_str(), e.name.c_str());
	mc::outcome(d); mc::note("%.900s", d.c_str());
}

// C17: the process may be killed after every file system operation; then a new
// process opens the same output.
namespace {
std::string Cname, Cpre, Csuf, Clink; unsigned Cmax; int Cphase; char *msg;
enum { NOLINK_OK = 1 };
int lindex(const std::string &tgt) { // index of a link target
	std::string b = tgt.substr(tgt.rfind('/') + 1), p = Cpre.substr(Cpre.rfind('/') + 1);
	if (b.compare(0, p.size(), p) || b.size() < p.size() + Csuf.size()) return -1;
	std::string n = b.substr(p.size(), b.size() - p.size() - Csuf.size()); if (n.empty() || n.find_first_not_of("0123456789") != n.npos || b.substr(b.size() - Csuf.size()) != Csuf) return -1;
	return atoi(n.c_str());
}
void link_valid(const char *when) {
	std::string t = rdlink(Clink); if (t.empty() && !opened) return;
	MC_CHECK(!t.empty(), "%s: link %s does not exist", when, Clink.c_str());
	MC_CHECK(exists(Clink), "%s: link %s points to '%s' which does not exist", when, Clink.c_str(), t.c_str());
	MC_CHECK(lindex(t) >= 0, "%s: link %s points to '%s' which is no file of this output", when, Clink.c_str(), t.c_str());
}
// runs in a forked process: what a restarted program does
void restarted() {
	std::string t0 = rdlink(Clink); std::string f0 = t0.empty() ? "" : slurp(Clink), dirp = Clink.find('/') == Clink.npos ? "" : Clink.substr(0, Clink.rfind('/') + 1); int i0 = t0.empty() ? -1 : lindex(t0);
	std::string full0 = t0.empty() ? "" : t0[0] == '/' ? t0 : dirp + t0;
	lines_format f; hogl::output_file::options o = {0600, 1 << 20, Cmax, 0, 0};
	hogl::output_file *of; try { of = new hogl::output_file(Cname.c_str(), f, o); } catch (...) { snprintf(msg, 900, "restart: the output cannot be opened"); syscall(SYS_exit_group, 1); }
	std::string t1 = rdlink(Clink); int i1 = lindex(t1); int want = i0 < 0 ? 0 : (i0 + 1) % Cmax;
	if (i1 != want) snprintf(msg, 900, "restart: link pointed to '%s', the new output writes to '%s'", t0.c_str(), t1.c_str());
	else if (!exists(Clink)) snprintf(msg, 900, "restart: link points to '%s' which does not exist", t1.c_str());
	else if (i0 >= 0 && slurp(full0) != f0) snprintf(msg, 900, "restart: file '%s' was changed from '%s' to '%s'", full0.c_str(), f0.c_str(), slurp(full0).c_str());
	else if (slurp(Clink).compare(0, 1, "{")) snprintf(msg, 900, "restart: the new file has no header");
	of->get_ostrbuf()->push_back("x");
	if (!msg[0] && slurp(Clink).find("*x") == std::string::npos) snprintf(msg, 900, "restart: output does not go to the file the link points to");
	syscall(SYS_exit_group, 0);
}
void do_crash(const char *op) {
	if (!mc::choose(2, "killed here")) return;
	link_valid(op);
	memset(msg, 0, 1000); pid_t p = fork();
	if (!p) { mc::H.io = 0; mc::H.fs = 0; mc::detach(); alarm(20); restarted(); }
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	MC_CHECK(!msg[0], "killed after %s: %s", op, msg);
	MC_CHECK(WIFEXITED(st), "killed after %s: the restarted program crashed (signal %d)", op, WTERMSIG(st));
	mc::note("killed after %s, restart continues with %s", op, rdlink(Clink).c_str()); mc::outcome(std::string(op) + gdump());
	mc::done();
}
}
MC_SCENARIO(crash) {
	msg = (char *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	unsigned n = mc::param("n", 3), runs = mc::param("runs", 1), sw = mc::param("switch", 0); Cmax = mc::param("max", 3);
	Cname = mc::param_s("name", "log.#.txt"); begin(0);
	if (mc::param("abs", 0)) { char b[256]; if (!getcwd(b, sizeof b)) mc::fail("getcwd"); Cname = std::string(b) + "/" + Cname; }
	size_t s = Cname.find('#'); if (s == std::string::npos) { Clink = Cname; Cpre = Cname + "."; Csuf = ""; }
	else { Cpre = Cname.substr(0, s); Csuf = Cname.substr(s + 1); Clink = link_name(Cpre, Csuf); }
	hogl::output_file::options o = {0600, (size_t) mc::param("size", 12), Cmax, 0, 0};
	crash_check = do_crash;
	for (unsigned r = 0; r < runs; r++) {
		hogl::output_file *of = new hogl::output_file(Cname.c_str(), lfmt, o); opened = true;
		link_valid("after open");
		for (unsigned k = 0; k < n; k++) { of->get_ostrbuf()->push_back(piece(k, 4)); if (sw && k == 0) of->switch_name(Cname); }
		delete of; link_valid("after close");
	}
	mc::outcome(gdump()); mc::note("%.900s", gdump().c_str());
}

// C18: every sequence of appended pieces, buffer sizes and write results.
namespace {
ssize_t cookie_write(void *c, const char *b, size_t n) {
	std::string *s = (std::string *) c; size_t lim = n;
	if (ferr && n) { int k = mc::choose(3, "write: ok, EIO, ENOSPC"); if (k) { ferr--; errno = hard_errno = k == 1 ? EIO : ENOSPC; return 0; } }
	if (fshort && n) { int k = mc::choose(n > 1 ? 4 : 2, "write: complete, interrupted, interrupted after one byte, interrupted before the last byte"); if (k) { fshort--; lim = k == 1 ? 0 : k == 2 ? 1 : n - 1; errno = EINTR; } }
	s->append(b, lim); return lim;
}
}
hogl::ostrbuf *new_ostrbuf_stdio(FILE *f, unsigned cap);
MC_SCENARIO(append) {
	unsigned kind = mc::param("kind", 0), cap = mc::param("cap", -1), np = mc::param("pieces", 3); static const unsigned caps[] = {0, 1, 3, 4};
	begin(0); if ((int) cap < 0) cap = caps[mc::choose(4, "buffer size")];
	hogl::ostrbuf *sb; hogl::output *o = 0; std::string name = "f.0", cookie_data; FILE *cf = 0; lines_format silent; int fd = -1;
	struct none : hogl::format { void process(hogl::ostrbuf &, const data &) {} } nofmt;
	if (kind == 0) { fd = open("f.0", O_CREAT | O_WRONLY, 0600); sb = new hogl::ostrbuf_fd(fd, hogl::ostrbuf_fd::CLOSE_ON_DELETE, cap); }
	else if (kind == 1) { o = new hogl::output_plainfile("f.0", nofmt, cap); sb = o->get_ostrbuf(); }
	else if (kind == 2) { hogl::output_file::options op = {0600, 1 << 20, 4, cap, 0}; o = new hogl::output_file("f", nofmt, op); sb = o->get_ostrbuf(); }
	else { cookie_io_functions_t io = {0, cookie_write, 0, 0}; cookie_data.reserve(64); cf = fopencookie(&cookie_data, "w", io); setvbuf(cf, 0, _IONBF, 0); sb = new_ostrbuf_stdio(cf, cap); }
	fshort = mc::param("faults", 2); ferr = mc::param("errors", 0); bool budget = ferr; hard_errno = 0;
	std::string all; unsigned k = 0; std::string err;
	for (unsigned i = 0; i < np; i++) {
		int op = mc::choose(7, "append nothing, 1, 2, capacity, capacity+1 bytes; flush; flush with data"); std::string s;
		if (op == 5) sb->flush();
		else { unsigned l = op < 3 ? op : op == 3 ? cap : op == 4 ? cap + 1 : 3; for (unsigned j = 0; j < l; j++) s += 'a' + k++ % 26; all += s;
			if (op == 6) sb->flush((const uint8_t *) s.data(), s.size()); else if (op == 1) sb->push_back(s[0]); else if (op == 2) sb->push_back(s); else sb->push_back((const uint8_t *) s.data(), s.size()); }
		MC_CHECK(sb->size() <= sb->capacity(), "%zu bytes in a buffer of %zu bytes", sb->size(), sb->capacity());
		if (hard_errno) {
			if (err.empty()) { MC_CHECK(sb->failed(), "write error not reported"); err = sb->error(); MC_CHECK(err == strerror(hard_errno), "write error %d reported as '%s'", hard_errno, err.c_str()); }
			MC_CHECK(sb->failed() && err == sb->error(), "failure state lost");
		} else MC_CHECK(!sb->failed(), "failed without an error: %s", sb->error());
	}
	sb->flush(); bool failed = sb->failed(); MC_CHECK(failed == (hard_errno != 0), failed ? "failed without an error" : "write error not reported");
	if (o) delete o; else delete sb;
	std::string got = kind == 3 ? cookie_data : (*G)[0].data; if (kind != 3) { MC_CHECK(slurp((*G)[0].name) == got, "file differs"); MC_CHECK(!(*G)[0].open, "file not closed"); }
	if (!failed) MC_CHECK(got == all, "appended '%s', output '%s'", all.c_str(), got.c_str());
	else if (kind != 2) MC_CHECK(got.size() <= all.size() && all.compare(0, got.size(), got) == 0, "appended '%s', output '%s' before the error", all.c_str(), got.c_str());
	(void) budget; mc::outcome(all + "|" + got); mc::note("cap %u: %s -> %s%s", cap, all.c_str(), got.c_str(), failed ? " failed" : "");
}

// C16, C18: gigabytes. The data are never written, a stand-in accepts them
// (at most 0x7ffff000 bytes at a time, like the system) and checks that they come in order.
namespace {
const char *hbase; uint64_t hpos, hmax; std::vector<uint64_t> *hsizes; std::vector<std::string> *hnames; std::vector<int> *hfds;
long htake(const struct iovec *iov, int cnt) {
	uint64_t n = 0;
	for (int i = 0; i < cnt && n < hmax; i++) { size_t l = iov[i].iov_len; if (!l) continue; MC_CHECK(iov[i].iov_base == hbase + hpos, "data from offset %ld instead of %lu", (long) ((const char *) iov[i].iov_base - hbase), (long) hpos); if (l > hmax - n) l = hmax - n; n += l; hpos += l; }
	return n;
}
bool hio(const char *op, int fd, const void *iov, int cnt, long *ret) {
	if (op[0] != 'w') return false;
	for (size_t i = hfds->size(); i-- > 0;) if ((*hfds)[i] == fd) {
		const struct iovec *v = (const struct iovec *) iov; uint64_t len = 0; bool mine = true;
		for (int k = 0; k < cnt; k++) { const char *b = (const char *) v[k].iov_base; len += v[k].iov_len; mine = mine && (!v[k].iov_len || (b >= hbase && b < hbase + (24ull << 30))); }
		if (!mine) { MC_CHECK(len < (1 << 20), "%lu bytes from nowhere", (long) len); *ret = len; (*hsizes)[i] += len; return true; } // headers and footers
		*ret = htake(v, cnt); (*hsizes)[i] += *ret; return true;
	}
	return false;
}
void hfs(const char *op, const char *path, long ret) { if (op[0] == 'o' && ret >= 0 && path) { hfds->push_back(ret); hnames->push_back(path); hsizes->push_back(0); } }
ssize_t hcookie(void *, const char *b, size_t n) { for (size_t k = 0; k < n; ) { struct iovec v = {(void *) (b + k), n - k}; k += htake(&v, 1); } return n; }
}
MC_SCENARIO(huge) {
	static const uint64_t G1 = 1ull << 30, lens[] = {G1, 2 * G1 - 1, 2 * G1, 3 * G1 + 1, 4 * G1, 5 * G1 + 7}, lims[] = {1000, 2 * G1, 4 * G1 - 1, 4 * G1 + 5, 6 * G1, 9 * G1};
	unsigned kind = mc::param("kind", 0), np = mc::param("pieces", 2), cap = mc::choose(2, "buffer") * 8; uint64_t lim = kind == 2 ? lims[mc::choose(6, "limit")] : 0, total = 0, cur = 0; std::string ops;
	enter_dir(); mc::H.io = hio; mc::H.fs = hfs; hpos = 0; hmax = 0x7ffff000; hsizes = new std::vector<uint64_t>; hnames = new std::vector<std::string>; hfds = new std::vector<int>; hsizes->reserve(64); hnames->reserve(64); hfds->reserve(64);
	char *base = (char *) mmap(0, 24 * G1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); MC_CHECK(base != MAP_FAILED, "mmap"); hbase = base;
	struct none : hogl::format { void process(hogl::ostrbuf &, const data &) {} } nofmt; hogl::ostrbuf *sb; hogl::output *o = 0; int rotations = 0;
	if (kind == 0) sb = new hogl::ostrbuf_fd(open("f.0", O_CREAT | O_WRONLY, 0600), hogl::ostrbuf_fd::CLOSE_ON_DELETE, cap);
	else if (kind == 1) { o = new hogl::output_plainfile("f.0", nofmt, cap); sb = o->get_ostrbuf(); }
	else if (kind == 2) { hogl::output_file::options op = {0600, lim, 100, cap, 0}; o = new hogl::output_file("f", nofmt, op); sb = o->get_ostrbuf(); }
	else { cookie_io_functions_t io = {0, hcookie, 0, 0}; FILE *cf = fopencookie(0, "w", io); setvbuf(cf, 0, _IONBF, 0); sb = new_ostrbuf_stdio(cf, cap); }
	for (unsigned i = 0; i < np; i++) {
		uint64_t l = lens[mc::choose(6, "piece")]; ops += std::to_string(l) + " "; sb->push_back((const uint8_t *) base + total, l); total += l; cur += l;
		MC_CHECK(!sb->failed(), "failed without an error: %s (pieces %s)", sb->error(), ops.c_str()); MC_CHECK(hpos == total, "%lu of %lu bytes were written (pieces %s)", (long) hpos, (long) total, ops.c_str());
		if (kind == 2) { for (int k = 0; k < 10; k++) usleep(1000); if (cur >= lim) { rotations++; cur = 0; } MC_CHECK((int) hfds->size() == 1 + rotations, "%zu files instead of %d, limit %lu (pieces %s)", hfds->size(), 1 + rotations, (long) lim, ops.c_str()); }
	}
	if (o) delete o; else delete sb;
	MC_CHECK(hpos == total, "%lu of %lu bytes were written (pieces %s)", (long) hpos, (long) total, ops.c_str()); munmap(base, 24 * G1); mc::outcome(ops); mc::note("%s", ops.c_str());
}

// C22: a tee hands both outputs the same bytes; one may fail.
namespace {
struct lossy : hogl::ostrbuf {
	std::string got; int failat; lossy(size_t cap, int f) : hogl::ostrbuf(cap), failat(f) { got.reserve(256); }
	void do_flush(const uint8_t *d, size_t n) {
		if (failed()) return;
		std::string s((const char *) head(), size()); if (d) s.append((const char *) d, n); reset();
		if (failat >= 0 && s.size() && failat-- == 0) { failure("lost"); return; }
		got += s;
	}
};
struct bufout : hogl::output { lossy *b; bufout(hogl::format &f, size_t cap, int fail) : hogl::output(f) { b = new lossy(cap, fail); init(b); } };
struct wordfmt : hogl::format {
	void process(hogl::ostrbuf &s, const data &d) { unsigned n = d.record->get_arg_val32(0); for (unsigned i = 0; i < n; i++) { char c = 'a' + (d.record->get_arg_val32(1) + i) % 26; if (n & 1) s.push_back(c); else { s.push_back((const uint8_t *) &c, 1); } } if (n > 3) s.push_back("word", 4); }
	void footer(hogl::ostrbuf &s, const char *) { s.push_back("END"); }
};
}
MC_SCENARIO(tee) {
	static const unsigned caps[] = {0, 1, 3, 8}; unsigned np = mc::param("ops", 4), c0 = caps[mc::choose(4, "first buffer")], c1 = caps[mc::choose(4, "second buffer")], ct = caps[mc::choose(4, "tee buffer")];
	int fail = mc::param("fail", 0), nested = mc::param("nested", 0), f0 = -1, f1 = -1; wordfmt f;
	if (fail) { int w = mc::choose(2, "failing output"), at = mc::choose(3, "failing flush"); (w ? f1 : f0) = at; }
	bufout a(f, c0, f0), b(f, c1, f1), c(f, 3, -1); std::string all;
	hogl::output_tee *inner = nested ? new hogl::output_tee(&a, &b, 2) : 0;
	hogl::output_tee *t = nested ? new hogl::output_tee(inner, &c, ct) : new hogl::output_tee(&a, &b, ct); unsigned k = 0;
	// the same records written to an output of their own
	bufout ref(f, 16, -1);
	for (unsigned i = 0; i < np; i++) {
		int op = mc::choose(5, "record of 0, 1, 2, 5 bytes; flush"); static const unsigned len[] = {0, 1, 2, 5};
		if (op == 4) { t->flush(); continue; }
		hogl::record rr, *r = &rr; r->set_arg_type(0, hogl::arg::UINT32); r->set_arg_type(1, hogl::arg::UINT32); r->set_arg_val32(0, len[op]); r->set_arg_val32(1, k); k += len[op];
		hogl::format::data d; d.ring_name = "R"; d.record = r; t->process(d); ref.process(d);
	}
	t->flush(); ref.flush();
	// what was flushed has arrived
	{ if (!a.failed()) MC_CHECK(a.b->got == ref.b->got, "first output got '%s' instead of '%s' when the tee was flushed", a.b->got.c_str(), ref.b->got.c_str()); if (!b.failed()) MC_CHECK(b.b->got == ref.b->got, "second output got '%s' instead of '%s' when the tee was flushed", b.b->got.c_str(), ref.b->got.c_str()); }
	delete t; if (inner) { inner->flush(); delete inner; } a.flush(); b.flush(); c.flush();
	std::string &w = ref.b->got;
	if (f0 < 0 || !a.failed()) MC_CHECK(a.b->got == w, "first output got '%s' instead of '%s'%s", a.b->got.c_str(), w.c_str(), fail ? " after the second one failed" : "");
	if (f1 < 0 || !b.failed()) MC_CHECK(b.b->got == w, "second output got '%s' instead of '%s'%s", b.b->got.c_str(), w.c_str(), fail ? " after the first one failed" : "");
	if (nested) MC_CHECK(c.b->got == w, "third output got '%s' instead of '%s'", c.b->got.c_str(), w.c_str());
	a.footer(); b.footer(); // written by the outputs themselves
	if (!a.failed()) MC_CHECK(a.b->got == w + "END", "footer of the first output lost");
	mc::outcome(w); mc::note("%s", w.c_str());
}
