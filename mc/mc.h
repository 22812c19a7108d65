// Public interface of the stateless model checker (mcrt.cc).
// A scenario is ordinary C++ code run on real threads; the runtime decides
// which thread runs at every scheduling point and enumerates all decisions.
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <string>

namespace mc {

// Enumerated data choice 0..n-1 (n <= 16). All values are explored, at no cost.
int choose(int n, const char *what = "");
// Enumerated environment fault: value 0 is the normal behaviour, every other
// value spends one unit of the bound.
int fault(int n, const char *what = "");

// Report a violation and end the execution.
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// End this execution without a verdict (an assumption of the scenario fails).
void discard() __attribute__((noreturn));

// End this execution as completed (for example: the process is killed here).
void done() __attribute__((noreturn));
// In a forked child: leave the control of the model checker.
void detach();
// Back under its control, to report.
void attach();
// Every plain write into this memory is a scheduling point (crash points).
void fine(const void *p, size_t n);
void fine_heap();
// The calling thread must not allocate or free memory (1), nor lock, wait or
// make system calls (2), until guard(0).
void guard(int bits, const char *what = "");
void guards_off();
// The memory of the program: heap and data.
struct range { const void *p; size_t n; };
int image(range *r, int n);

// Globally ordered harness event (its order relative to other events is part
// of the explored state).
void event(uint64_t v);
// Text for traces and evidence samples.
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Final outcome of the execution, counted for evidence.
void outcome(const std::string &s);

// Explicit scheduling point on a harness variable; counts as synchronisation.
void access(const void *addr, bool write);

uint64_t now_ns();              // virtual clock
void set_livelock_limit(unsigned n);
void set_max_decisions(unsigned n); // in one execution, default 60000
bool heap_live(const void *p); // p points into memory that was not freed
bool active();                  // inside an execution
int  self();                    // id of the running thread
long param(const char *name, long dflt);
const char *param_s(const char *name, const char *dflt);
const char *prop();             // property being checked

// Hooks a scenario may install (called in the running thread).
struct hooks {
	// Return true when handled (ret/errno set by the hook).
	bool (*io)(const char *op, int fd, const void *iov, int cnt, long *ret);
	void (*fs)(const char *op, const char *path, long ret);   // after a file system operation
};
extern hooks H;

struct scenario {
	const char *name; void (*fn)();
	scenario *next;
	scenario(const char *n, void (*f)());
};
#define MC_SCENARIO(nm) static void nm(); static mc::scenario nm##_reg(#nm, nm); static void nm()
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
}
#endif
