#include "eng.hpp"
namespace vt {
thread_local uint64_t cur_ts = 1;
static hogl::timestamp tls_ts(const hogl::timesource *) { return cur_ts; }
hogl::timesource ts_tls("tls", tls_ts);
volatile uint64_t clock_now = 0;
static hogl::timestamp clock_ts(const hogl::timesource *) { return __sync_add_and_fetch(&clock_now, 1); }
hogl::timesource ts_clock("clock", clock_ts);
const char *sections[] = { "A", "B", "OFF", 0 };
}
