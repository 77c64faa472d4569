// Entry points the instrumented code and the system libraries call.
using namespace sim;
#define PC __builtin_return_address(0)

// ---------------------------------------------------------------- plain accesses
static inline bool tracked() { return g_active && g_insim == 0; }
static inline void plain(const void* p, size_t n, bool w, const void* pc)
{
    if (!tracked()) return;
    insim g;
    check_access(p, n, w, false, pc);
}
extern "C"
{
void __tsan_init() {}
int  get_nprocs() { return 4; } // std::thread::hardware_concurrency: the same on every machine
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
#define RW(N)                                                                   \
    void __tsan_read##N(void* p) { plain(p, N, false, PC); }                    \
    void __tsan_write##N(void* p) { plain(p, N, true, PC); }                    \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, false, PC); }          \
    void __tsan_unaligned_write##N(void* p) { plain(p, N, true, PC); }          \
    void __tsan_volatile_read##N(void* p) { plain(p, N, false, PC); }           \
    void __tsan_volatile_write##N(void* p) { plain(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true, PC); }
// linked with --wrap for instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (tracked() && n) { plain(s, n, false, PC); plain(d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (tracked() && n) { plain(s, n, false, PC); plain(d, n, true, PC); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (tracked() && n) plain(d, n, true, PC);
    return __real_memset(d, c, n);
}
}

// ---------------------------------------------------------------- atomics
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool is_acq(int m) { m &= 7; return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static inline bool is_rel(int m) { m &= 7; return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static void at_acquire(const void* p, int mo)
{
    vc* v = syncof(p, false);
    if (!v) return;
    if (is_acq(mo)) vjoin(g_cur->clk, *v);
    else { vjoin(g_cur->acq_pending, *v); g_cur->has_acq = true; }
}
static void at_store(const void* p, int mo)
{
    if (is_rel(mo)) { sync_store(p, &g_cur->clk); tickclk(); }
    else if (g_cur->has_rel) sync_store(p, &g_cur->rel_fence);
    else sync_store(p, nullptr);
}
static void at_rmw_store(const void* p, int mo)
{
    if (is_rel(mo)) { vjoin(*syncof(p, true), g_cur->clk); tickclk(); }
    else if (g_cur->has_rel) vjoin(*syncof(p, true), g_cur->rel_fence);
}
static void at_fence(int mo)
{
    fiber* f = g_cur;
    if (is_acq(mo) && f->has_acq) { vjoin(f->clk, f->acq_pending); }
    if (is_rel(mo)) { f->rel_fence = f->clk; f->has_rel = true; tickclk(); }
}
static inline void at_point(const void* p, size_t n, bool w, int kind, const void* pc)
{
    sched_point(kind);
    check_access(p, n, w, true, pc);
}
template<class T> static T a_load(const volatile T* p, int mo, const void* pc)
{
    if (!tracked()) return *p;
    insim g;
    at_point((void*)p, sizeof(T), false, 10, pc);
    T v = *p;
    at_acquire((void*)p, mo);
    return v;
}
template<class T> static void a_store(volatile T* p, T v, int mo, const void* pc)
{
    if (!tracked()) { *p = v; return; }
    insim g;
    at_point((void*)p, sizeof(T), true, 11, pc);
    *p = v;
    at_store((void*)p, mo);
}
template<class T, class F> static T a_rmw(volatile T* p, int mo, F f, int kind, const void* pc)
{
    if (!tracked()) { T o = *p; *p = f(o); return o; }
    insim g;
    at_point((void*)p, sizeof(T), true, kind, pc);
    T o = *p;
    at_acquire((void*)p, mo);
    *p = f(o);
    at_rmw_store((void*)p, mo);
    return o;
}
template<class T> static int a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, const void* pc)
{
    if (!tracked())
    {
        if (*p == *exp) { *p = des; return 1; }
        *exp = *p;
        return 0;
    }
    insim g;
    at_point((void*)p, sizeof(T), true, 13, pc);
    T o = *p;
    if (o == *exp && !(weak && fault("weak-cas-fails", 1, 16)))
    {
        at_acquire((void*)p, mo);
        *p = des;
        at_rmw_store((void*)p, mo);
        return 1;
    }
    at_acquire((void*)p, fmo);
    *exp = o;
    return 0;
}
extern "C"
{
#define AT(B, T)                                                                                                          \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); }                               \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); }                               \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T) { return v; }, 12, PC); }   \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o + v); }, 14, PC); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o - v); }, 15, PC); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o & v); }, 16, PC); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o | v); }, 17, PC); }  \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)(o ^ v); }, 18, PC); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [v](T o) { return (T)~(o & v); }, 18, PC); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, PC); }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, false, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!tracked()) return;
    insim g;
    sched_point(19);
    at_fence(mo);
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- allocation
static void* do_new(size_t n, size_t al, const void* pc, bool nothrow)
{
    if (!g_active || g_insim)
    {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    insim g;
    if (g_alloc_fail_den && g_alloc_fail_fiber == g_cur && fault("alloc-fails", 1, g_alloc_fail_den))
    {
        if (nothrow) return nullptr;
        --g_insim;
        struct re { ~re() { ++g_insim; } } r;
        throw std::bad_alloc();
    }
    return arena_alloc(n, al, pc);
}
static void do_delete(void* p, const void* pc)
{
    if (!p) return;
    if ((uintptr_t)p - (uintptr_t)ARENA < REGION_SZ)
    {
        insim g;
        if (!g_active) return; // released after its run: nothing to account
        arena_free(p, pc);
        return;
    }
    free(p);
}
namespace sim { void alloc_faults(uint32_t den) { g_alloc_fail_den = den; g_alloc_fail_fiber = g_cur; } }
void* operator new(size_t n) { return do_new(n, 16, PC, false); }
void* operator new[](size_t n) { return do_new(n, 16, PC, false); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC, true); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }

// ---------------------------------------------------------------- pthread
static bool simming() { return g_active && g_cur != &g_host; }
static fiber* of(pthread_t t) { long i = (long)t - 0x5100; return i >= 0 && i < g_nf ? &g_fib[i] : nullptr; }
extern "C"
{
pthread_t pthread_self() noexcept { return simming() ? (pthread_t)(0x5100 + g_cur->id) : (pthread_t)0x50ff; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
    if (!simming()) { fprintf(stderr, "sim: pthread_create outside a run\n"); abort(); }
    insim g;
    sched_point(20);
    if (fault("thread-create-fails", 1, 8)) return EAGAIN;
    fiber* f = new_fiber(fn, arg);
    *t       = (pthread_t)(0x5100 + f->id);
    R.hash   = hmix(R.hash, 20);
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    insim  g;
    fiber* f = of(t);
    if (!f) return ESRCH;
    sched_point(21);
    if (f->joined || f->detached) fail("bad-join", "thread T%d joined twice or detached", f->id);
    if (f == g_cur) return EDEADLK;
    while (f->st != DONE) block(B_JOIN, f, INT64_MAX);
    f->joined = true;
    hb_acquire(f);
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept
{
    insim  g;
    fiber* f = of(t);
    if (f) f->detached = true;
    return 0;
}
int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }

struct simmutex { int owner; unsigned count; int x, y; int kind; };
static bool mtx_take(simmutex* m, const void* key)
{
    if (m->owner == 0)
    {
        m->owner = g_cur->id + 1;
        m->count = 1;
        hb_acquire(key);
        return true;
    }
    return false;
}
static int mtx_lock(pthread_mutex_t* pm, int64_t deadline, bool try_only, const void* pc, bool point = true)
{
    auto* m = (simmutex*)pm;
    if (!simming()) { m->owner = -1; m->count++; return 0; }
    insim g;
    if (point) sched_point(22);
    check_access(pm, 40, true, true, pc);
    if (m->owner == g_cur->id + 1)
    {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if (try_only) return EBUSY;
        if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        fail("hang", "T%d locks a std::mutex it already holds (self deadlock) pc=%p", g_cur->id, pc);
    }
    while (!mtx_take(m, pm))
    {
        if (try_only) return EBUSY;
        if (!block(B_MUTEX, pm, deadline)) return ETIMEDOUT;
        check_access(pm, 40, true, true, pc);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return mtx_lock(m, INT64_MAX, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return mtx_lock(m, INT64_MAX, true, PC); }
static int mtx_unlock(pthread_mutex_t* pm, const void* pc, bool point)
{
    auto* m = (simmutex*)pm;
    if (!simming()) { if (m->count && --m->count == 0) m->owner = 0; return 0; }
    insim g;
    if (point) sched_point(23);
    check_access(pm, 40, true, true, pc);
    if (m->owner != g_cur->id + 1)
    {
        if (m->owner == -1) { m->owner = 0; m->count = 0; return 0; }
        fail("bad-unlock", "T%d unlocks a std::mutex held by T%d pc=%p", g_cur->id, m->owner - 1, pc);
    }
    if (--m->count == 0)
    {
        m->owner = 0;
        hb_release(pm);
        wake_addr(B_MUTEX, pm, -1);
    }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return mtx_unlock(m, PC, true); }
static int64_t abs_to_virtual(clockid_t c, const timespec* ts);
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept { return mtx_lock(m, abs_to_virtual(CLOCK_REALTIME, ts), false, PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) noexcept { return mtx_lock(m, abs_to_virtual(c, ts), false, PC); }

static int cond_wait(pthread_cond_t* cv, pthread_mutex_t* pm, int64_t deadline, const void* pc)
{
    if (!simming()) abort();
    insim g;
    sched_point(24);
    check_access(cv, 48, true, true, pc);
    auto*    m  = (simmutex*)pm;
    unsigned cn = m->count;
    if (m->owner != g_cur->id + 1) fail("bad-unlock", "condition wait without holding the mutex pc=%p", pc);
    m->count = 0;
    m->owner = 0;
    hb_release(pm);
    wake_addr(B_MUTEX, pm, -1);
    bool ok = true;
    if (!fault("spurious-cond-wakeup", 1, 12)) ok = block(B_COND, cv, deadline);
    mtx_lock(pm, INT64_MAX, false, pc, false);
    m->count = cn;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, INT64_MAX, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_wait(c, m, abs_to_virtual(CLOCK_REALTIME, ts), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { return cond_wait(c, m, abs_to_virtual(k, ts), PC); }
int pthread_cond_signal(pthread_cond_t* cv) noexcept
{
    if (!simming()) return 0;
    insim g;
    sched_point(25);
    check_access(cv, 48, true, true, PC);
    // which waiter: any, the default is the longest waiting one
    fiber* w[MAXF];
    int    n = 0;
    for (int i = 0; i < g_nf; i++) if (g_fib[i].st == BLOCKED && g_fib[i].br == B_COND && g_fib[i].baddr == cv) w[n++] = &g_fib[i];
    if (!n) return 0;
    std::sort(w, w + n, [](fiber* a, fiber* b) { return a->bseq < b->bseq; });
    uint32_t k = n > 1 ? decide(S_SCHED, n, gen_uniform, nullptr) : 0;
    wake(w[k]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) noexcept
{
    if (!simming()) return 0;
    insim g;
    sched_point(26);
    check_access(cv, 48, true, true, PC);
    wake_addr(B_COND, cv, -1);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) noexcept
{
    if (!simming()) return 0;
    insim g;
    for (int i = 0; i < g_nf; i++)
        if (g_fib[i].st == BLOCKED && g_fib[i].br == B_COND && g_fib[i].baddr == cv)
            fail("destroy-in-use", "condition variable destroyed while T%d waits on it", i);
    return 0;
}

// Third-party libraries (OpenSSL) take read-write locks thousands of times in a handshake; only the library under
// test gets a scheduling point there.
extern "C" char __executable_start, etext;
static inline bool foreign(const void* pc) { return pc < (void*)&__executable_start || pc >= (void*)&etext; }
struct simrw { unsigned readers; unsigned writer; };
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, const void* pc, int64_t deadline = INT64_MAX)
{
    auto* m = (simrw*)l;
    if (!simming()) return 0;
    insim g;
    if (!foreign(pc)) sched_point(27);
    for (;;)
    {
        if (wr ? (!m->writer && !m->readers) : !m->writer) break;
        if (tr) return EBUSY;
        if (g_now >= deadline) return ETIMEDOUT;
        block(B_RWLOCK, l, deadline);
    }
    if (wr) m->writer = g_cur->id + 1; else m->readers++;
    hb_acquire(l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, false, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rw_lock(l, true, true, PC); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) noexcept { return rw_lock(l, false, false, PC, abs_to_virtual(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) noexcept { return rw_lock(l, true, false, PC, abs_to_virtual(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) noexcept { return rw_lock(l, false, false, PC, abs_to_virtual(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) noexcept { return rw_lock(l, true, false, PC, abs_to_virtual(c, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    auto* m = (simrw*)l;
    if (!simming()) return 0;
    insim g;
    hb_release(l);
    if (m->writer) m->writer = 0; else if (m->readers) m->readers--;
    wake_addr(B_RWLOCK, l, -1);
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)())
{
    int* st = (int*)o;
    if (!simming())
    {
        if (*st != 2) { *st = 2; fn(); }
        return 0;
    }
    for (;;)
    {
        {
            insim g;
            if (!foreign(PC)) sched_point(28);
            if (*st == 2) { hb_acquire(o); return 0; }
            if (*st == 1) { block(B_ONCE, o, INT64_MAX); continue; }
            *st = 1;
        }
        try { fn(); }
        catch (...) { insim g; *st = 0; wake_addr(B_ONCE, o, -1); throw; }
        insim g;
        *st = 2;
        hb_release(o);
        wake_addr(B_ONCE, o, -1);
        return 0;
    }
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept
{
    if (g_nkeys >= MAXK) return EAGAIN;
    g_key_dtor[g_nkeys] = d;
    *k = (pthread_key_t)g_nkeys++;
    return 0;
}
int pthread_key_delete(pthread_key_t k) noexcept { if (k < MAXK) g_key_dtor[k] = nullptr; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { return k < MAXK ? (simming() ? g_cur->keys[k] : g_host.keys[k]) : nullptr; }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept
{
    if (k >= MAXK) return EINVAL;
    (simming() ? g_cur->keys : g_host.keys)[k] = (void*)v;
    return 0;
}
int pthread_atfork(void (*)(), void (*)(), void (*)()) noexcept { return 0; }
int sched_yield() noexcept
{
    if (simming()) { insim g; sched_point(29); if (g_nrun > 1) { g_cur->consec = 0; pick_next(true); } }
    return 0;
}

// one-time initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* gv)
{
    auto* b = (uint8_t*)gv;
    if (b[0]) return 0;
    if (!simming()) { b[1] = 1; return 1; }
    insim g;
    for (;;)
    {
        sched_point(30);
        if (b[0]) { hb_acquire(gv); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        block(B_ONCE, gv, INT64_MAX);
    }
}
void __cxa_guard_release(uint64_t* gv)
{
    auto* b = (uint8_t*)gv;
    b[0] = 1;
    b[1] = 0;
    if (!simming()) return;
    insim g;
    hb_release(gv);
    wake_addr(B_ONCE, gv, -1);
}
void __cxa_guard_abort(uint64_t* gv)
{
    ((uint8_t*)gv)[1] = 0;
    if (!simming()) return;
    insim g;
    wake_addr(B_ONCE, gv, -1);
}

// ---------------------------------------------------------------- time
constexpr int64_t WALL0 = 1'700'000'000ll * 1'000'000'000;
static int64_t g_wall_skew = 0;
}
namespace sim { void wall_jump(int64_t ns) { g_wall_skew += ns; } int64_t wall_offset() { return WALL0 + g_wall_skew; } }
extern "C"
{
static bool mono(clockid_t c) { return c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE && c != CLOCK_TAI; }
static int64_t abs_to_virtual(clockid_t c, const timespec* ts)
{
    if (ts->tv_sec > 4'000'000'000ll) return INT64_MAX;
    int64_t t = ts->tv_sec * 1'000'000'000ll + ts->tv_nsec;
    if (!mono(c)) t -= WALL0 + g_wall_skew;
    return t;
}
int clock_gettime(clockid_t c, timespec* ts) noexcept
{
    if (!simming()) return (int)syscall(SYS_clock_gettime, c, ts);
    int64_t t = g_now;
    if (g_insim == 0) { g_now += 20; R.tick_total += 20; t = g_now; }
    if (!mono(c)) t += WALL0 + g_wall_skew;
    ts->tv_sec  = t / 1'000'000'000;
    ts->tv_nsec = t % 1'000'000'000;
    return 0;
}
int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec*)
{
    if (!simming()) return 0;
    insim g;
    sched_point(31);
    int64_t t = (flags & TIMER_ABSTIME) ? abs_to_virtual(c, r) : g_now + r->tv_sec * 1'000'000'000ll + r->tv_nsec;
    block(B_SLEEP, nullptr, t);
    return 0;
}
int nanosleep(const timespec* r, timespec*) { return clock_nanosleep(CLOCK_MONOTONIC, 0, r, nullptr); }
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr); return 0; }

// ---------------------------------------------------------------- randomness
static void fill_random(void* b, size_t n)
{
    auto* p = (unsigned char*)b;
    while (n)
    {
        uint64_t r = mrnd();
        size_t   k = n < 8 ? n : 8;
        __real_memcpy(p, &r, k);
        p += k;
        n -= k;
    }
}
ssize_t getrandom(void* b, size_t n, unsigned) { fill_random(b, n); return (ssize_t)n; }
int getentropy(void* b, size_t n) { fill_random(b, n); return 0; }
uint32_t arc4random() noexcept { return (uint32_t)mrnd(); }
void arc4random_buf(void* b, size_t n) noexcept { fill_random(b, n); }

// ---------------------------------------------------------------- configuration files read by third-party libraries
FILE* fopen(const char* path, const char* mode)
{
    if (simming() && !strncmp(path, "/etc/", 5))
    {
        const std::string* d;
        {
            insim g;
            auto  it = g_vfiles.find(path);
            d        = it == g_vfiles.end() ? nullptr : &it->second;
        }
        if (!d || d->empty()) { errno = ENOENT; return nullptr; }
        return fmemopen((void*)d->data(), d->size(), "r");
    }
    static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int   gethostname(char* b, size_t n) noexcept { snprintf(b, n, "sim"); return 0; }
int   stat(const char* path, struct stat* st) noexcept
{
    if (simming() && !strncmp(path, "/etc/", 5)) { __real_memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; return 0; }
    return fstatat(AT_FDCWD, path, st, 0);
}

// ---------------------------------------------------------------- raw syscalls (futex from std::atomic::wait etc.)
static long real_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) { fill_random((void*)a, b); return b; }
    if (n == SYS_gettid && simming()) return 5000 + g_cur->id;
    if (n == SYS_futex && simming())
    {
        insim g;
        int   op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sched_point(32);
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            int64_t dl = INT64_MAX;
            if (d)
            {
                auto* ts = (timespec*)d;
                if (op == FUTEX_WAIT) dl = g_now + ts->tv_sec * 1'000'000'000ll + ts->tv_nsec;
                else dl = abs_to_virtual((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (!block(B_FUTEX, (void*)a, dl)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            sched_point(33);
            return wake_addr(B_FUTEX, (void*)a, c == INT_MAX ? -1 : (int)c);
        }
        errno = ENOSYS;
        return -1;
    }
    return real_syscall(n, a, b, c, d, e, f);
}
}
