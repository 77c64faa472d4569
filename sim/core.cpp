// Deterministic simulator core: fibers, scheduler, virtual time, the sanitizer entry points emitted by
// -fsanitize=thread (our own implementation, not libtsan), pthread interposition, allocator, happens-before checker.
#include "core.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <execinfo.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <string>

extern "C" char __libc_single_threaded;

namespace sim
{
scenario* g_scenarios = nullptr;
scenario::scenario(const char* p, const char* n, void (*f)(), int w, uint32_t fl)
    : prop(p), name(n), fn(f), weight(w), flags(fl), next(g_scenarios)
{
    g_scenarios = this;
}

bool    g_active = false;
int     g_insim  = 0;
fiber*  g_cur    = nullptr;
int64_t g_now    = 0;
quiet::quiet() { ++g_insim; }
quiet::~quiet() { --g_insim; }

// ------------------------------------------------------------------ run state
struct rec { uint32_t idx, val, n; };
struct runstate
{
    const scenario* sc;
    uint64_t seed;
    bool     replay;
    bool     trace;
    uint64_t steps, step_limit;
    uint64_t points;
    int64_t  stall_total, tick_total;
    uint64_t seqno;
    uint64_t hash;       // full history hash
    uint64_t shash;      // schedule hash
    uint64_t switches;
    uint32_t cnt[S_N];
    std::vector<rec> recs[S_N];
    std::vector<rec> in[S_N];
    size_t   inpos[S_N];
    bool     faults_on;
    bool     discard;
    int      fault_mask_seeded;
    // strategy
    int      strat;      // 0 random walk, 1 pct, 2 run-to-block
    uint32_t swp;        // switch probability denominator
    std::vector<uint64_t> pct_points;
    uint32_t pct_low;
    uint32_t stall_den;  // 0 = no stalls
    bool     reuse;      // allocator reuses addresses immediately
    uint64_t live_blocks, live_bytes;
    uint64_t nalloc;
    bool     failing;
};
static runstate R;
static std::map<std::string, uint64_t> g_fault_counts, g_probes;
static std::map<std::string, int>      g_fault_enable; // per run
static FILE* g_tracef = nullptr;

// ------------------------------------------------------------------ prng
static uint64_t ps[2];
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rnd()
{
    uint64_t s0 = ps[0], s1 = ps[1], r = s0 + s1;
    s1 ^= s0;
    ps[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    ps[1] = rotl(s1, 37);
    return r;
}
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t ms[2]; // misc stream, fixed seed: getrandom etc.
static uint64_t mrnd()
{
    uint64_t x = ms[0];
    uint64_t r = splitmix(x);
    ms[0] = x;
    return r;
}
static inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

uint32_t decide(int s, uint32_t n, uint32_t (*gen)(uint32_t, void*), void* a)
{
    uint32_t idx = R.cnt[s]++;
    uint32_t v   = 0;
    if (R.replay)
    {
        auto& in = R.in[s];
        size_t& p = R.inpos[s];
        while (p < in.size() && in[p].idx < idx) ++p;
        if (p < in.size() && in[p].idx == idx) v = in[p].val;
        if (v >= n) v = n ? v % n : 0;
    }
    else
    {
        v = gen(n, a);
    }
    if (v) R.recs[s].push_back({idx, v, n});
    return v;
}
static uint32_t gen_uniform(uint32_t n, void*) { return n <= 1 ? 0 : (uint32_t)((rnd() >> 33) % n); }
static uint32_t gen_skew(uint32_t n, void*)
{
    if (n <= 1) return 0;
    uint32_t v = 0;
    uint64_t r = rnd() >> 8;
    while (v + 1 < n && (r & 1)) { ++v; r >>= 1; if (v > 40) break; }
    return v;
}
struct numden { uint32_t num, den; };
static uint32_t gen_chance(uint32_t, void* a)
{
    auto* x = (numden*)a;
    return ((rnd() >> 33) % x->den) < x->num ? 1 : 0;
}
uint32_t pick(uint32_t n, int s)
{
    insim g;
    if (n <= 1) return 0;
    return decide(s, n, gen_uniform, nullptr);
}
uint32_t skew(uint32_t n, int s)
{
    insim g;
    if (n <= 1) return 0;
    return decide(s, n, gen_skew, nullptr);
}
bool chance(uint32_t num, uint32_t den, int s)
{
    insim g;
    numden x{num, den};
    return decide(s, 2, gen_chance, &x);
}
void faults_enable(const char* kind, bool on)
{
    insim g;
    g_fault_enable[kind] = on ? 1 : 0;
}
void faults_off(bool off) { R.faults_on = !off; }
bool faults_active() { return R.faults_on; }
void count_fault(const char* kind, uint64_t n)
{
    insim g;
    g_fault_counts[kind] += n;
}
bool fault(const char* kind, uint32_t num, uint32_t den)
{
    if (!g_active || !R.faults_on || num == 0) return false;
    insim g;
    auto  it = g_fault_enable.find(kind);
    if (it == g_fault_enable.end() || it->second == 0) return false;
    numden x{num, den};
    if (!decide(S_FAULT, 2, gen_chance, &x)) return false;
    g_fault_counts[kind]++;
    if (R.trace) log("fault: %s", kind);
    return true;
}
void probe(const char* name, uint64_t n)
{
    insim g;
    g_probes[name] += n;
}
void mix(uint64_t v) { R.hash = hmix(R.hash, v); }
void discard() { R.discard = true; }
int64_t  now() { return g_now; }
int64_t  stalled() { return R.stall_total; }
int64_t  slack() { return R.tick_total; }
uint64_t seq() { return ++R.seqno; }
int      tid() { return g_cur ? g_cur->id : -1; }
uint64_t steps() { return R.steps; }
void     set_step_limit(uint64_t n) { R.step_limit = n; }
uint64_t live_blocks() { return R.live_blocks; }
uint64_t live_bytes() { return R.live_bytes; }

void log(const char* fmt, ...)
{
    if (!R.trace || !g_tracef) return;
    insim   g;
    va_list ap;
    fprintf(g_tracef, "%12.6fms #%llu T%d ", g_now / 1e6, (unsigned long long)R.points, g_cur ? g_cur->id : -1);
    va_start(ap, fmt);
    vfprintf(g_tracef, fmt, ap);
    va_end(ap);
    fputc('\n', g_tracef);
    fflush(g_tracef);
}
void note(const char* fmt, ...)
{
    insim   g;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_cur->note, sizeof g_cur->note, fmt, ap);
    va_end(ap);
    if (R.trace) log("note: %s", g_cur->note);
}

// ------------------------------------------------------------------ memory regions and shadow
static char* const ARENA      = (char*)0x100000000000ull;
constexpr size_t   ARENA_SZ   = 96ull << 20;
constexpr size_t   STACK_SZ   = 512u << 10;
static char* const STACKS     = ARENA + ARENA_SZ;
constexpr size_t   REGION_SZ  = ARENA_SZ + MAXF * STACK_SZ;
static char* const STATE      = (char*)0x110000000000ull; // 1 byte per 8 bytes of arena
struct cell { uint32_t clk; uint32_t pc; uint32_t run; uint8_t tid, mask, flags, pad; }; // 16 bytes
enum : uint8_t { C_W = 1, C_A = 2, C_F = 4 };
static cell* const SHADOW = (cell*)0x120000000000ull; // 4 cells per 8-byte granule
static uint32_t    g_run  = 0;
static char*       g_bump;
static char*       g_bump_max;
static bool        g_mapped = false;

static void map_regions()
{
    if (g_mapped) return;
    g_mapped = true;
    auto m = [](void* a, size_t n) {
        void* p = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != a) { fprintf(stderr, "sim: cannot map region\n"); _exit(9); }
    };
    m(ARENA, REGION_SZ);
    m(STATE, ARENA_SZ / 8);
    m(SHADOW, REGION_SZ / 8 * 4 * sizeof(cell));
    for (int i = 0; i < MAXF; i++) mprotect(STACKS + i * STACK_SZ, 4096, PROT_NONE);
    g_bump = g_bump_max = ARENA;
}

struct blk { uint32_t size; uint32_t cls; uint32_t state; uint32_t pad; uint64_t pc; uint64_t fpc; }; // 32 bytes header
static std::unordered_map<uint64_t, std::vector<void*>>* g_free;
static bool g_norace = false;
static uint32_t g_alloc_fail_den = 0;
static void* g_alloc_fail_fiber = nullptr; // only allocations of the thread that asked for it fail

// ------------------------------------------------------------------ happens-before
struct synce { vc* v; };
static std::unordered_map<uintptr_t, vc*> g_sync;
static std::vector<vc*>                    g_vcpool;
static int                                 g_nf = 0; // fibers created this run
static fiber                               g_fib[MAXF];
static fiber                               g_host;
static vc* newvc()
{
    vc* v;
    if (g_vcpool.empty()) v = (vc*)malloc(sizeof(vc));
    else { v = g_vcpool.back(); g_vcpool.pop_back(); }
    memset(v, 0, sizeof *v);
    return v;
}
static inline void vjoin(vc& a, const vc& b)
{
    for (int i = 0; i < g_nf; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static vc* syncof(const void* p, bool create)
{
    auto it = g_sync.find((uintptr_t)p);
    if (it != g_sync.end()) return it->second;
    if (!create) return nullptr;
    vc* v = newvc();
    g_sync[(uintptr_t)p] = v;
    return v;
}
static inline void tickclk() { g_cur->clk.c[g_cur->id]++; }
void hb_release(const void* tag)
{
    if (!g_active) return;
    vjoin(*syncof(tag, true), g_cur->clk);
    tickclk();
}
void hb_acquire(const void* tag)
{
    if (!g_active) return;
    if (vc* v = syncof(tag, false)) vjoin(g_cur->clk, *v);
}
void hb_clear(const void* tag)
{
    auto it = g_sync.find((uintptr_t)tag);
    if (it != g_sync.end()) { g_vcpool.push_back(it->second); g_sync.erase(it); }
}
static void sync_store(const void* p, const vc* v)
{
    if (!v) { hb_clear(p); return; }
    *syncof(p, true) = *v;
}

static const char* accname(uint8_t f)
{
    if (f & C_F) return "free";
    if (f & C_A) return (f & C_W) ? "atomic write" : "atomic read";
    return (f & C_W) ? "write" : "read";
}
static void race_cell(cell* cs, uint8_t mask, uint8_t flags, uint32_t pc, const void* p)
{
    fiber* c    = g_cur;
    int    same = -1, stale = -1;
    for (int i = 0; i < 4; i++)
    {
        cell& k = cs[i];
        if (k.run != g_run) { stale = i; continue; }
        if (!(k.mask & mask)) continue;
        if (k.tid == c->id)
        {
            if (k.mask == mask && (k.flags & ~C_F) == (flags & ~C_F)) same = i;
            else if ((k.mask & ~mask) == 0 && (flags & C_W) && !((flags & C_A) && !(k.flags & C_A))) { if (same < 0) same = i; }
            continue;
        }
        if (k.clk <= c->clk.c[k.tid]) 
        {
            // ordered before us; a covering write makes the entry redundant
            if ((k.mask & ~mask) == 0 && (flags & C_W)) stale = i;
            continue;
        }
        if (!((k.flags | flags) & C_W)) continue;
        if ((k.flags & C_A) && (flags & C_A)) continue;
        if (R.failing) continue;
        fail((flags | k.flags) & C_F ? "race-free" : "race",
             "unsynchronised %s at pc=0x%x (T%d) with earlier %s at pc=0x%x (T%d) of address %p",
             accname(flags), pc, c->id, accname(k.flags), k.pc, k.tid, p);
    }
    int slot = same >= 0 ? same : stale >= 0 ? stale : (int)((R.steps ^ (uintptr_t)p >> 3) & 3);
    cs[slot] = cell{c->clk.c[c->id], pc, g_run, (uint8_t)c->id, mask, flags, 0};
}
static inline cell* shadow_of(uintptr_t g) { return SHADOW + (g >> 3) * 4; }

static void bad_memory(const void* p, size_t n, bool write, uint8_t st, const void* pc)
{
    // find the block header for a better message
    fail(st == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %p (%s memory) pc=%p T%d", write ? "write" : "read",
         n, p, st == 2 ? "freed" : "unallocated", pc, g_cur->id);
}
void check_access(const void* p, size_t n, bool write, bool atomic, const void* pc)
{
    uintptr_t a = (uintptr_t)p - (uintptr_t)ARENA;
    if (a >= REGION_SZ) return;
    if (n == 0) return;
    uintptr_t e = a + n;
    if (a < ARENA_SZ)
    {
        for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g)
            if (STATE[g] != 1 && !R.failing) bad_memory(p, n, write, STATE[g], pc);
    }
    if (g_norace) return;
    uint8_t fl = (write ? C_W : 0) | (atomic ? C_A : 0);
    for (uintptr_t x = a; x < e;)
    {
        uintptr_t g  = x & ~7ull;
        unsigned  lo = x - g, hi = std::min<uintptr_t>(e - g, 8);
        uint8_t   m  = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        race_cell(shadow_of(g), m, fl, (uint32_t)(uintptr_t)pc, (void*)(ARENA + x));
        x = g + 8;
    }
}
bool mem_live(const void* p)
{
    uintptr_t a = (uintptr_t)p - (uintptr_t)ARENA;
    if (a >= ARENA_SZ) return true;
    return STATE[a >> 3] == 1;
}

static void* arena_alloc(size_t n, size_t al, const void* pc)
{
    if (n == 0) n = 1;
    size_t rn  = (n + 15) & ~15ull;
    char*  p   = nullptr;
    if (R.reuse && al <= 16)
    {
        auto& v = (*g_free)[rn];
        if (!v.empty()) { p = (char*)v.back(); v.pop_back(); }
    }
    if (!p)
    {
        char* b = g_bump + sizeof(blk);
        if (al > 16) b = (char*)(((uintptr_t)b + al - 1) & ~(al - 1));
        p      = b;
        g_bump = b + rn + 16; // red zone
        if (g_bump > ARENA + ARENA_SZ) fail("sim-arena", "arena exhausted");
        if (g_bump > g_bump_max) g_bump_max = g_bump;
    }
    blk* h   = (blk*)(p - sizeof(blk));
    h->size  = (uint32_t)n;
    h->state = 0xA110C;
    h->pc    = (uint64_t)pc;
    h->fpc   = 0;
    h->cls   = (uint32_t)rn;
    memset(STATE + ((p - ARENA) >> 3), 1, (n + 7) >> 3);
    memset(p, 0xCB, rn);
    if (R.reuse)
    {
        cell* c = shadow_of(p - ARENA);
        for (size_t i = 0; i < (rn >> 3) * 4; i++) c[i].run = 0;
    }
    R.live_blocks++;
    R.live_bytes += n;
    R.nalloc++;
    return p;
}
static void arena_free(void* vp, const void* pc)
{
    char* p = (char*)vp;
    if (p >= ARENA + ARENA_SZ) fail("bad-free", "delete of stack address %p pc=%p", p, pc);
    blk* h = (blk*)(p - sizeof(blk));
    if (h->state == 0xF4EED) fail("double-free", "%p freed twice pc=%p first pc=0x%llx", p, pc, (unsigned long long)h->fpc);
    if (h->state != 0xA110C) fail("bad-free", "%p was never allocated pc=%p", p, pc);
    size_t n = h->size;
    if (!g_norace)
        for (size_t o = 0; o < n; o += 8)
        {
            uint8_t m = n - o >= 8 ? 0xff : (uint8_t)((1u << (n - o)) - 1);
            race_cell(shadow_of(p - ARENA + o), m, C_W | C_F, (uint32_t)(uintptr_t)pc, p + o);
        }
    h->state = 0xF4EED;
    h->fpc   = (uint64_t)pc;
    memset(STATE + ((p - ARENA) >> 3), 2, (n + 7) >> 3);
    memset(p, 0xDD, n);
    for (size_t o = 0; o < n; o += 8) hb_clear(p + o);
    R.live_blocks--;
    R.live_bytes -= n;
    if (R.reuse) (*g_free)[h->cls].push_back(p);
}
uint32_t current_flags() { return R.sc->flags; }
static std::string leak_report()
{
    std::string s;
    int k = 0;
    for (char* p = ARENA; p < g_bump && k < 6;)
    {
        // walk STATE for live granules
        uintptr_t g = (p - ARENA) >> 3;
        if (STATE[g] != 1) { p += 8; continue; }
        blk* h = (blk*)(p - sizeof(blk));
        if (h->state != 0xA110C) { p += 8; continue; }
        char b[96];
        snprintf(b, sizeof b, " [%u bytes pc=0x%llx]", h->size, (unsigned long long)h->pc);
        s += b;
        ++k;
        p += (h->size + 7) & ~7ull;
    }
    return s;
}

// ------------------------------------------------------------------ failing
static void emit_result(const char* kind, const char* msg);
void fail(const char* kind, const char* fmt, ...)
{
    ++g_insim;
    if (R.failing) _exit(78);
    R.failing = true;
    static char buf[4096];
    va_list     ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    (void)n;
    if (R.trace)
    {
        log("VIOLATION %s: %s", kind, buf);
        void* bt[40];
        int   k = backtrace(bt, 40);
        if (g_tracef)
        {
            fprintf(g_tracef, "backtrace:");
            for (int i = 0; i < k; i++) fprintf(g_tracef, " %p", bt[i]);
            fprintf(g_tracef, "\n");
            fflush(g_tracef);
        }
    }
    emit_result(kind, buf);
    _exit(77);
}
static void on_signal(int sig, siginfo_t* si, void*)
{
    if (!g_active) { signal(sig, SIG_DFL); raise(sig); _exit(79); }
    static const char* nm;
    nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (terminate)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL";
    uintptr_t fa = (uintptr_t)si->si_addr;
    if (sig == SIGSEGV && fa >= (uintptr_t)STACKS && fa < (uintptr_t)STACKS + MAXF * STACK_SZ && ((fa - (uintptr_t)STACKS) % STACK_SZ) < 4096)
        fail("stack-overflow", "thread stack exhausted (unbounded recursion) in T%d", g_cur->id);
    fail("crash", "%s in T%d (%s)", nm, g_cur->id, g_cur->note);
}

// ------------------------------------------------------------------ fibers and scheduler
extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  .cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
  .cfi_endproc
.size sim_swap,.-sim_swap
.globl sim_entry
.type sim_entry,@function
sim_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  hlt
  .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

struct event_t { int64_t t; uint64_t s; evfn f; void* a; uint64_t b, c; };
static std::vector<event_t> g_ev;
static uint64_t             g_evseq;
static bool evcmp(const event_t& x, const event_t& y) { return x.t != y.t ? x.t > y.t : x.s > y.s; }
void at(int64_t t, evfn f, void* a, uint64_t b, uint64_t c)
{
    if (t < g_now) t = g_now;
    g_ev.push_back({t, g_evseq++, f, a, b, c});
    std::push_heap(g_ev.begin(), g_ev.end(), evcmp);
}
int64_t next_event_time() { return g_ev.empty() ? INT64_MAX : g_ev.front().t; }
static void run_due()
{
    while (!g_ev.empty() && g_ev.front().t <= g_now)
    {
        std::pop_heap(g_ev.begin(), g_ev.end(), evcmp);
        event_t e = g_ev.back();
        g_ev.pop_back();
        e.f(e.a, e.b, e.c);
    }
}

static char*  g_tls_base = nullptr;
static size_t g_tls_size = 0;
static std::vector<char> g_tls_init;
static int find_tls(struct dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_name[0] == 0)
        {
            g_tls_base = (char*)i->dlpi_tls_data;
            g_tls_size = i->dlpi_phdr[k].p_memsz;
            if (g_tls_base == nullptr) g_tls_size = 0;
        }
    return 1; // first = main program
}

static uint64_t g_jgen = 0;
int    nfibers() { return g_nf; }
fiber* fib(int i) { return &g_fib[i]; }
static int g_nrun; // runnable fibers

const char* reason_name(breason r)
{
    static const char* n[] = {"none", "mutex", "condvar", "futex", "join", "sleep", "epoll_wait", "fd", "rwlock", "once", "quiesce"};
    return n[r];
}

static void save_tls(fiber* f)
{
    auto* g  = (void**)abi::__cxa_get_globals();
    f->eh[0] = g[0];
    f->eh[1] = g[1];
    f->err   = errno;
    f->once[0] = std::__once_callable;
    f->once[1] = (void*)std::__once_call;
    if (g_tls_size && f->tls) memcpy(f->tls, g_tls_base, g_tls_size);
    f->insim = g_insim;
}
static void load_tls(fiber* f)
{
    auto* g = (void**)abi::__cxa_get_globals();
    g[0]    = f->eh[0];
    g[1]    = f->eh[1];
    errno   = f->err;
    std::__once_callable = f->once[0];
    std::__once_call     = (void (*)())f->once[1];
    if (g_tls_size && f->tls) memcpy(g_tls_base, f->tls, g_tls_size);
    g_insim = f->insim;
}

static void switch_to(fiber* n)
{
    fiber* c = g_cur;
    if (c == n) return;
    R.switches++;
    R.shash = hmix(R.shash, ((uint64_t)c->id << 32) | ((uint64_t)n->id << 40) | (c->sig & 0xffffffff));
    save_tls(c);
    c->last_ran = n->last_ran = R.points;
    g_cur = n;
    if (R.trace && g_tracef) log("-> running");
    sim_swap(&c->sp, n->sp);
    load_tls(g_cur);
}

static void advance_idle();
static std::string blocked_list()
{
    std::string s;
    for (int i = 0; i < g_nf; i++)
        if (g_fib[i].st != DONE)
        {
            char b[256];
            snprintf(b, sizeof b, "T%d %s%s%s%s; ", i, g_fib[i].st == RUN ? "runnable" : reason_name(g_fib[i].br),
                     g_fib[i].note[0] ? " (" : "", g_fib[i].note, g_fib[i].note[0] ? ")" : "");
            s += b;
        }
    return s;
}
// choose the next fiber; cur may be blocked/done
static void pick_next(bool must_leave)
{
    for (;;)
    {
        if (g_nrun == 0)
        {
            advance_idle();
            continue;
        }
        fiber* cand[MAXF];
        int    n = 0;
        int    c = g_cur->id < 0 ? 0 : g_cur->id;
        bool   cur_ok = g_cur->st == RUN && g_cur->id >= 0;
        if (cur_ok && !must_leave) cand[n++] = g_cur;
        for (int k = 1; k <= g_nf; k++)
        {
            int i = (c + k) % g_nf;
            if (g_fib[i].st == RUN && &g_fib[i] != g_cur) cand[n++] = &g_fib[i];
        }
        if (n == 0) cand[n++] = g_cur;
        uint32_t v = 0;
        if (n > 1)
        {
            struct ctx { fiber** c; int n; } x{cand, n};
            v = decide(S_SCHED, n, [](uint32_t n, void* a) -> uint32_t {
                auto* x = (ctx*)a;
                if (R.strat == 1)
                {
                    uint32_t best = 0;
                    for (uint32_t i = 1; i < n; i++) if (x->c[i]->prio > x->c[best]->prio) best = i;
                    return best;
                }
                // random: avoid starved fibers when possible
                uint32_t v = gen_uniform(n, nullptr);
                for (uint32_t i = 0; i < n; i++)
                {
                    uint32_t j = (v + i) % n;
                    if (x->c[j]->starve_until <= R.points) return j;
                }
                return v;
            }, &x);
        }
        fiber* nx = cand[v];
        nx->consec = 0;
        switch_to(nx);
        return;
    }
}
constexpr uint32_t CONSEC_MAX = 400;
constexpr uint64_t STARVE_MAX = 8192;

static void stepcheck()
{
    if (++R.steps > R.step_limit && !R.failing)
    {
        fail("livelock", "no completion after %llu scheduling steps at t=%.3fms: %s", (unsigned long long)R.steps, g_now / 1e6,
             blocked_list().c_str());
    }
}
static void maybe_stall()
{
    if (!R.stall_den || !R.faults_on) return;
    // a slow machine: time passes while threads are runnable
    numden x{1, R.stall_den};
    struct sctx { numden nd; } y{x};
    uint32_t v = decide(S_TIME, 6, [](uint32_t, void* a) -> uint32_t {
        auto* y = (sctx*)a;
        if ((rnd() >> 33) % y->nd.den >= y->nd.num) return 0;
        return 1 + (rnd() >> 33) % 5;
    }, &y);
    if (!v) return;
    int64_t d = 0;
    int64_t ne = next_event_time();
    switch (v)
    {
        case 1: d = 10'000; break;
        case 2: d = 1'000'000; break;
        case 3: d = 20'000'000; break;
        default: d = ne == INT64_MAX ? 1'000'000 : std::max<int64_t>(ne - g_now, 0) + (v == 5 ? 1'000 : 0); break; // exactly at the next deadline
    }
    if (d > 60'000'000'000ll) d = 60'000'000'000ll;
    g_fault_counts["stall"]++;
    R.stall_total += d;
    g_now += d;
    if (R.trace) log("stall %.6fms", d / 1e6);
    run_due();
}
void sched_point(int kind)
{
    if (!g_active) return;
    stepcheck();
    R.points++;
    g_now += 50;
    R.tick_total += 50;
    g_cur->sig = kind;
    R.hash = hmix(R.hash, (uint64_t)g_cur->id * 1315423911u + kind);
    if (next_event_time() <= g_now) run_due();
    if (R.stall_den) maybe_stall();
    if (g_nrun <= 1) return;
    if ((R.points & 511) == 0)
    {
        // fairness: nobody who can run is kept from running for ever
        fiber* o = nullptr;
        for (int i = 0; i < g_nf; i++)
        {
            fiber* f = &g_fib[i];
            if (f->st == RUN && f != g_cur && R.points - f->last_ran > STARVE_MAX && (!o || f->last_ran < o->last_ran)) o = f;
        }
        if (o)
        {
            o->consec = 0;
            o->prio   = 1u << 20;
            switch_to(o);
            return;
        }
    }
    if (++g_cur->consec > CONSEC_MAX)
    {
        g_cur->consec = 0;
        if (R.strat == 1) g_cur->prio = --R.pct_low;
        pick_next(true);
        return;
    }
    // candidate list order: current first, then round robin
    if (R.replay)
    {
        // fast path: no recorded decision for this index
        auto& in = R.in[S_SCHED];
        size_t p = R.inpos[S_SCHED];
        if (p >= in.size() || in[p].idx > R.cnt[S_SCHED]) { R.cnt[S_SCHED]++; return; }
    }
    else if (R.strat == 1)
    {
        bool cp = false;
        while (!R.pct_points.empty() && R.points >= R.pct_points.back())
        {
            R.pct_points.pop_back();
            g_cur->prio = --R.pct_low;
            cp = true;
        }
        if (!cp)
        {
            bool higher = false;
            for (int i = 0; i < g_nf; i++) if (g_fib[i].st == RUN && g_fib[i].prio > g_cur->prio) { higher = true; break; }
            if (!higher) { R.cnt[S_SCHED]++; return; }
        }
    }
    else if (R.strat == 2)
    {
        R.cnt[S_SCHED]++;
        return;
    }
    else
    {
        uint64_t r = rnd();
        if ((r >> 33) % R.swp != 0) { R.cnt[S_SCHED]++; return; }
        if ((r & 0x3f) == 1) g_cur->starve_until = R.points + 20 + ((r >> 8) & 0xff);
    }
    pick_next(false);
}

static void timeout_ev(void* a, uint64_t bseq, uint64_t)
{
    fiber* f = (fiber*)a;
    if (f->st == BLOCKED && f->bseq == bseq && f->timed)
    {
        f->timed_out = true;
        wake(f);
    }
}
static uint64_t g_bseq = 0;
bool block(breason r, const void* addr, int64_t timeout)
{
    fiber* f     = g_cur;
    f->st        = BLOCKED;
    f->br        = r;
    f->baddr     = addr;
    f->bseq      = ++g_bseq;
    f->timed     = timeout != INT64_MAX;
    f->timed_out = false;
    g_nrun--;
    if (f->timed) at(timeout, timeout_ev, f, f->bseq);
    stepcheck();
    pick_next(true);
    return !f->timed_out;
}
void wake(fiber* f)
{
    if (f->st != BLOCKED) return;
    f->st    = RUN;
    f->br    = B_NONE;
    f->timed = false;
    f->last_ran = R.points;
    g_nrun++;
}
int wake_addr(breason r, const void* addr, int maxn)
{
    int n = 0;
    for (int i = 0; i < g_nf && (maxn < 0 || n < maxn); i++)
        if (g_fib[i].st == BLOCKED && g_fib[i].br == r && g_fib[i].baddr == addr) { wake(&g_fib[i]); n++; }
    return n;
}
static int64_t g_time_limit = 0;
static void advance_idle()
{
    // nobody can run: virtual time jumps to the next event
    if (g_ev.empty())
    {
        // a fiber waiting for quiescence?
        for (int i = 0; i < g_nf; i++)
            if (g_fib[i].st == BLOCKED && g_fib[i].br == B_QUIESCE) { wake(&g_fib[i]); return; }
        fail("hang", "deadlock: every thread is blocked and nothing is pending at t=%.3fms: %s", g_now / 1e6, blocked_list().c_str());
    }
    stepcheck();
    int64_t t = g_ev.front().t;
    for (int i = 0; i < g_nf; i++)
        if (g_fib[i].st == BLOCKED && g_fib[i].br == B_QUIESCE && t - g_now > g_fib[i].horizon) { wake(&g_fib[i]); return; }
    if (t > g_now) g_now = t;
    if (g_now > g_time_limit)
        fail("hang", "no completion after %.0f simulated seconds: %s", g_now / 1e9, blocked_list().c_str());
    run_due();
}
void point() { insim g; sched_point(1); }
void sleep_ns(int64_t ns)
{
    insim g;
    sched_point(2);
    block(B_SLEEP, nullptr, g_now + (ns < 0 ? 0 : ns));
}
void yield()
{
    insim g;
    sched_point(3);
    if (g_nrun > 1) pick_next(true);
}
void sync_all()
{
    insim g;
    for (int i = 0; i < g_nf; i++)
        if (&g_fib[i] != g_cur) { vjoin(g_cur->clk, g_fib[i].clk); g_fib[i].clk.c[i]++; }
}
void quiesce(int64_t horizon)
{
    insim g;
    g_cur->horizon = horizon;
    block(B_QUIESCE, nullptr, INT64_MAX);
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < g_nf; i++) if (g_fib[i].st != DONE) n++;
    return n;
}
bool tid_exists(int t) { return t >= 0 && t < g_nf && g_fib[t].st != DONE; }

static void (*g_key_dtor[MAXK])(void*);
static int g_nkeys = 0;
static void run_key_dtors(fiber* f)
{
    for (int round = 0; round < 4; round++)
    {
        bool any = false;
        for (int k = 0; k < g_nkeys; k++)
        {
            void* v = f->keys[k];
            if (v && g_key_dtor[k]) { f->keys[k] = nullptr; any = true; g_key_dtor[k](v); }
        }
        if (!any) break;
    }
}
extern "C" void sim_fiber_main()
{
    load_tls(g_cur); // insim=0
    fiber* f = g_cur;
    f->ret   = f->start(f->arg);
    run_key_dtors(f);
    insim g;
    sched_point(4);
    f->st = DONE;
    g_nrun--;
    hb_release(f);
    wake_addr(B_JOIN, f, -1);
    pick_next(true);
    abort();
}
static fiber* new_fiber(void* (*start)(void*), void* arg)
{
    if (g_nf >= MAXF) fail("sim-threads", "too many simulated threads");
    fiber* f = &g_fib[g_nf];
    char*  tls = f->tls;
    memset((void*)f, 0, sizeof *f);
    f->id    = g_nf++;
    f->tls   = tls ? tls : (g_tls_size ? (char*)malloc(g_tls_size) : nullptr);
    if (f->tls) memcpy(f->tls, g_tls_init.data(), g_tls_size);
    f->stack = STACKS + f->id * STACK_SZ;
    f->start = start;
    f->arg   = arg;
    f->st    = RUN;
    f->jgen  = ++g_jgen;
    f->prio  = 1000 + (uint32_t)(rnd() % 100000);
    g_nrun++;
    uint64_t* sp = (uint64_t*)(f->stack + STACK_SZ - 64);
    *--sp        = 0;
    *--sp        = 0; // alignment
    *--sp        = (uint64_t)&sim_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    // happens-before: child starts after parent
    if (g_cur && g_cur != &g_host) { f->clk = g_cur->clk; tickclk(); }
    f->clk.c[f->id] = 1;
    return f;
}

// ------------------------------------------------------------------ run one scenario
static void* main_body(void*)
{
    R.sc->fn();
    return nullptr;
}
struct outcome { uint64_t hash, shash; uint64_t steps; int64_t simtime; bool trivial; uint64_t switches; };

static void setup_strategy()
{
    uint64_t r = rnd();
    switch (r % 8)
    {
        case 0: case 1: case 2: R.strat = 1; break;
        case 7: R.strat = (r >> 8) % 4 == 0 ? 2 : 0; break;
        default: R.strat = 0; break;
    }
    static const uint32_t sw[] = {2, 3, 4, 8, 16, 48};
    R.swp     = sw[(r >> 16) % 6];
    R.pct_low = 900;
    if (R.strat == 1)
    {
        int d   = (r >> 24) % 5;
        int mag = 5 + (r >> 32) % 8; // points within 2^5..2^12
        for (int i = 0; i < d; i++) R.pct_points.push_back(1 + rnd() % (1ull << mag));
        std::sort(R.pct_points.rbegin(), R.pct_points.rend());
    }
    static const uint32_t sd[] = {0, 0, 0, 40, 200, 1000};
    R.stall_den = sd[(r >> 40) % 6];
}

static void kernel_and_checks_end()
{
    if (!(R.sc->flags & F_THREADS_OK))
        for (int i = 1; i < g_nf; i++)
            if (g_fib[i].st != DONE) fail("thread-leak", "thread T%d still alive at end of run: %s", i, blocked_list().c_str());
    kernel_finish();
    if (!(R.sc->flags & F_LEAKS_OK) && R.live_blocks != 0)
        fail("leak", "%llu blocks (%llu bytes) never freed:%s", (unsigned long long)R.live_blocks, (unsigned long long)R.live_bytes, leak_report().c_str());
}
static void* main_wrap(void*)
{
    main_body(nullptr);
    {
        insim g;
        // let detached threads finish
        for (;;)
        {
            bool others = false;
            for (int i = 1; i < g_nf; i++) if (g_fib[i].st == RUN || (g_fib[i].st == BLOCKED && g_fib[i].detached)) others = true;
            if (!others) break;
            sched_point(5);
            pick_next(true);
        }
    }
    return nullptr;
}
// when the main fiber finishes, control returns to the host context
static void* main_entry(void* a)
{
    main_wrap(a);
    run_key_dtors(g_cur);
    insim g;
    g_cur->st = DONE;
    g_nrun--;
    fiber* c = g_cur;
    save_tls(c);
    g_cur = &g_host;
    sim_swap(&c->sp, g_host.sp);
    return nullptr;
}
static outcome run_one(const scenario* sc, uint64_t seed, bool replay, bool trace)
{
    insim g;
    map_regions();
    R.sc = sc;
    R.seed = seed;
    R.replay = replay;
    R.trace = trace;
    R.steps = R.points = 0;
    R.step_limit = 400000;
    R.stall_total = R.tick_total = 0;
    R.seqno = 0;
    R.hash = 0x1234;
    R.shash = 0x5678;
    R.switches = 0;
    for (int i = 0; i < S_N; i++) { R.cnt[i] = 0; R.recs[i].clear(); R.inpos[i] = 0; }
    R.faults_on = true;
    R.discard = false;
    R.failing = false;
    R.pct_points.clear();
    R.live_blocks = R.live_bytes = R.nalloc = 0;
    uint64_t x = seed;
    ps[0] = splitmix(x);
    ps[1] = splitmix(x);
    ms[0] = 0xabcdef12345ull;
    setup_strategy();
    if (replay) { R.stall_den = 1; }
    g_fault_enable.clear();
    g_ev.clear();
    g_evseq = 0;
    g_bseq  = 0;
    g_now   = 1'000'000'000; // clock starts at 1s
    g_time_limit = g_now + 7200ll * 1'000'000'000;
    // memory
    if (++g_run == 0) g_run = 1;
    if (g_bump > ARENA) { memset(STATE, 0, ((g_bump - ARENA) >> 3) + 8); }
    g_bump = ARENA + 64;
    if (!g_free) g_free = new std::unordered_map<uint64_t, std::vector<void*>>();
    for (auto& kv : *g_free) kv.second.clear();
    for (auto& kv : g_sync) g_vcpool.push_back(kv.second);
    g_sync.clear();
    g_norace = (sc->flags & F_NORACE) != 0;
    g_nf   = 0;
    g_nrun = 0;
    kernel_reset();
    R.reuse = decide(S_OPS, 2, gen_uniform, nullptr);
    {
        // legal but unusual behaviour of the platform, enabled for a random subset of runs
        uint32_t m = decide(S_OPS, 8, gen_uniform, nullptr);
        g_fault_enable["weak-cas-fails"]       = m & 1;
        g_fault_enable["spurious-cond-wakeup"] = (m >> 1) & 1;
    }
    save_tls(&g_host);
    g_host.id = -1;
    g_host.st = DONE;
    g_cur     = &g_host;
    fiber* m  = new_fiber(main_entry, nullptr);
    g_active  = true;
    g_cur     = m;
    sim_swap(&g_host.sp, m->sp); // returns when the main fiber has finished
    g_cur = &g_host;
    load_tls(&g_host);
    g_cur = m; // end-of-run checks report as the main thread
    kernel_and_checks_end();
    g_active = false;
    outcome o{R.hash, R.shash, R.steps, g_now - 1'000'000'000, R.discard, R.switches};
    return o;
}
} // namespace sim

namespace sim
{
static std::unordered_map<std::string, std::string> g_vfiles;
void vfile(const std::string& path, const std::string& contents) { insim g; g_vfiles[path] = contents; }
} // namespace sim
#include "abi.inc"
extern "C" void __gcov_dump() __attribute__((weak)); // only in coverage builds
#include "driver.inc"
