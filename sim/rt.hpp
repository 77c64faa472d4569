// Scenario-facing API of the deterministic simulator.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
// ---- choices: every one is recorded, 0 is always the simplest alternative ----
enum stream : int { S_OPS = 0, S_SCHED, S_FAULT, S_NET, S_TIME, S_N };
uint32_t pick(uint32_t n, int s = S_OPS);              // uniform in [0,n)
uint32_t skew(uint32_t n, int s = S_OPS);              // [0,n), small values favoured
bool     chance(uint32_t num, uint32_t den, int s = S_OPS);
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); }

// ---- faults ----
// kind is a stable short name; returns true when the fault fires (and counts it).
bool fault(const char* kind, uint32_t num, uint32_t den);
void faults_enable(const char* kind, bool on); // per-run swarm selection done by scenario
void faults_off(bool off = true);                           // liveness phase: no more faults of any kind
bool faults_active();
void count_fault(const char* kind, uint64_t n = 1);

// ---- outcome ----
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...) do { if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // only in trace mode; never draws choices
void probe(const char* name, uint64_t n = 1);          // reach counter
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // last note per fiber, shown on hang
void mix(uint64_t v);                                   // fold an observable into the run's history hash
void discard();                                         // run is trivial, do not count it as non-trivial

// ---- time / threads ----
int64_t  now();            // virtual ns since start of run
int64_t  stalled();        // total virtual time injected by stall faults so far
int64_t  slack();          // virtual time consumed by execution ticks so far
uint64_t seq();            // global event sequence number, strictly increasing
int      tid();            // simulated thread id
int      live_threads();   // fibers not finished (incl. caller)
bool     tid_exists(int t); // thread id alive
void     point();          // extra scheduling point
void     sleep_ns(int64_t ns);
void     yield();          // let everything else run
uint64_t steps();
void     quiesce(int64_t horizon = 300'000'000); // park until no thread can run and no timed event is due within the horizon
void     sync_all();       // the caller synchronises with everything the other threads did so far (harness-level order)
void     set_step_limit(uint64_t n);

// ---- memory ----
uint64_t live_blocks();
uint64_t live_bytes();
bool     mem_live(const void* p);
uint64_t alloc_fail_next(); // internal

// scoped "sim-internal" region: allocations go to the host heap, no scheduling points, no tracking
struct quiet { quiet(); ~quiet(); quiet(const quiet&) = delete; };

// ---- kernel view ----
int  open_fds();                   // number of simulated descriptors open
void kernel_dump(char* buf, size_t n);

struct scenario
{
    const char* prop;
    const char* name;
    void (*fn)();
    int      weight;
    uint32_t flags;
    scenario* next;
    scenario(const char* p, const char* n, void (*f)(), int w, uint32_t fl = 0);
};
enum : uint32_t { F_FORK = 1 /* run each in its own process */, F_LEAKS_OK = 2, F_FDS_OK = 4, F_THREADS_OK = 8, F_NORACE = 16 };
extern scenario* g_scenarios;
#define SIM_SCENARIO(prop, name, weight, ...)                                                            \
    static void name();                                                                                  \
    static ::sim::scenario sim_reg_##name{prop, #name, &name, weight, ##__VA_ARGS__};                    \
    static void name()
} // namespace sim
