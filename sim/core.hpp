// Internal interface between the simulator core and the simulated kernel.
#pragma once
#include "rt.hpp"
#include <cstddef>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <map>
#include <string>

namespace sim
{
constexpr int MAXF  = 64;   // simulated threads per run
constexpr int MAXK  = 128;  // pthread keys

struct vc
{
    uint32_t c[MAXF];
};

enum bstate : uint8_t { RUN, BLOCKED, DONE };
enum breason : uint8_t { B_NONE, B_MUTEX, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_EPOLL, B_FD, B_RWLOCK, B_ONCE, B_QUIESCE };

struct fiber
{
    int       id;
    void*     sp;
    char*     stack;
    bstate    st;
    breason   br;
    bool      timed;      // has a timeout event pending
    bool      timed_out;  // set when woken by its timeout
    const void* baddr;
    int64_t   horizon = 0;
    uint64_t  bseq;       // identifies the current block for timeout events
    int       insim;
    void* (*start)(void*);
    void*     arg;
    void*     ret;
    bool      detached, joined;
    int       err;
    void*     eh[2];
    void*     once[2];
    char*     tls;
    void*     keys[MAXK];
    vc        clk, acq_pending, rel_fence;
    bool      has_acq, has_rel;
    uint32_t  prio;
    uint32_t  consec;
    uint64_t  sig;
    uint64_t  jgen;
    uint64_t  starve_until;
    uint64_t  last_ran; // point at which it last ran or became runnable
    char      note[160];
};

extern bool     g_active;   // a run is in progress
extern int      g_insim;
extern fiber*   g_cur;
extern int64_t  g_now;

struct insim
{
    insim() { ++g_insim; }
    ~insim() { --g_insim; }
};

typedef void (*evfn)(void* a, uint64_t b, uint64_t c);
void     at(int64_t t, evfn f, void* a, uint64_t b = 0, uint64_t c = 0);
int64_t  next_event_time(); // INT64_MAX if none

void     sched_point(int kind);
// Block the current fiber. timeout_abs = INT64_MAX for none. Returns true if woken (false on timeout).
bool     block(breason r, const void* addr, int64_t timeout_abs);
void     wake(fiber* f);
int      wake_addr(breason r, const void* addr, int maxn); // maxn<0: all
int      nfibers();
fiber*   fib(int i);

void     hb_release(const void* tag);  // join cur clock into tag's clock
void     hb_acquire(const void* tag);
void     hb_clear(const void* tag);
void     check_access(const void* p, size_t n, bool write, bool atomic, const void* pc);

uint32_t decide(int s, uint32_t n, uint32_t (*gen)(uint32_t n, void*), void*);
uint64_t rnd();              // raw PRNG (never used in replay for decisions)

void     kernel_reset();     // start of run
void     kernel_finish();    // end of run: checks
const char* reason_name(breason r);
} // namespace sim
