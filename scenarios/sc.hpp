// Shared helpers of the scenarios: substrates that run the simulated clients, and oracle containers.
#pragma once
#include "kernel.hpp"
#include "rt.hpp"
#include <algorithm>
#include <coro/coro.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace sc
{
using namespace coro;
using namespace std::chrono_literals;
using u64 = uint64_t;
using i64 = int64_t;
constexpr u64 INF = ~0ull;

// Run f inside a simulator-internal region: no scheduling point, no tracking, host heap.
template<typename F> auto q(F&& f) { sim::quiet g; return f(); }
inline u64 now_seq() { return sim::seq(); }

// Oracle object that lives on the host heap so that harness bookkeeping neither races nor counts as a leak.
template<typename T> struct host
{
    T* p;
    template<typename... A> explicit host(A&&... a) { sim::quiet g; p = new T(std::forward<A>(a)...); }
    ~host() { sim::quiet g; delete p; }
    host(const host&) = delete;
    T* operator->() { return p; }
    T& operator*() { return *p; }
};

// ---- substrates: what resumes the coroutines of a run
enum class sub { threads, pool, sched_pool, sched_inline };
struct bed
{
    sub                          kind = sub::threads;
    int                          n    = 0;
    std::unique_ptr<thread_pool> tp;
    std::unique_ptr<scheduler>   sch;
    static thread_pool::options popt(uint32_t n) { return thread_pool::options{.thread_count = n, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}; }
    static std::unique_ptr<scheduler> mksched(bool inl, uint32_t n)
    {
        return scheduler::make_unique(scheduler::options{
            .thread_strategy            = scheduler::thread_strategy_t::spawn,
            .on_io_thread_start_functor = nullptr,
            .on_io_thread_stop_functor  = nullptr,
            .pool                       = popt(n),
            .execution_strategy         = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool});
    }
    void open(sub k, int threads)
    {
        kind = k;
        n    = threads;
        if (k == sub::pool) tp = thread_pool::make_unique(popt(threads));
        if (k == sub::sched_pool) sch = mksched(false, threads);
        if (k == sub::sched_inline) sch = mksched(true, 1);
    }
    // weights: threads, pool, scheduler on pool, scheduler inline
    void open_any(int a = 5, int b = 3, int c = 1, int d = 1)
    {
        int r = sim::pick(a + b + c + d);
        if (r < a) open(sub::threads, 0);
        else if (r < a + b) open(sub::pool, 1 + sim::pick(3));
        else if (r < a + b + c) open(sub::sched_pool, 1 + sim::pick(3));
        else open(sub::sched_inline, 1);
    }
    static task<void> on_pool(thread_pool& p, std::function<task<void>()>& f)
    {
        co_await p.schedule();
        co_await f();
    }
    static task<void> on_sched(scheduler& s, std::function<task<void>()>& f)
    {
        co_await s.schedule();
        co_await f();
    }
    static task<void> all(bed& b, std::vector<std::function<task<void>()>>& fs)
    {
        std::vector<task<void>> ts;
        for (auto& f : fs) ts.emplace_back(b.tp ? on_pool(*b.tp, f) : on_sched(*b.sch, f));
        auto r = co_await when_all(std::move(ts));
        for (auto& x : r) x.return_value();
    }
    // Runs every client to completion; returns when all have finished.
    void run(std::vector<std::function<task<void>()>> fs)
    {
        if (kind == sub::threads)
        {
            std::vector<std::thread> ts;
            for (auto& f : fs) ts.emplace_back([&f] { sync_wait(f()); });
            for (auto& t : ts) t.join();
        }
        else sync_wait(all(*this, fs));
    }
    // give other work a chance from inside a coroutine
    task<void> breathe()
    {
        if (tp) co_await tp->yield();
        else if (sch) co_await sch->yield();
        else sim::yield();
    }
};

// spawn a thread for each client but do not wait; join() waits
struct crew
{
    std::vector<std::thread> ts;
    template<typename F> void add(F&& f) { ts.emplace_back(std::forward<F>(f)); }
    void join() { for (auto& t : ts) t.join(); ts.clear(); }
};

// an interval of an operation in global event order
struct iv { u64 a = 0, b = INF; };

// Swarm selection of scheduling noise inside client code
inline void jitter() { if (sim::chance(1, 3)) { int k = sim::skew(4) ; for (int i = 0; i <= k; i++) sim::point(); } }
// threads of the user that wait for each other
struct meet
{
    std::mutex m; std::condition_variable cv; int in = 0, n = 0;
    void arrive()
    {
        std::unique_lock lk{m};
        if (++in >= n) cv.notify_all();
        else cv.wait(lk, [this] { return in >= n; });
    }
};
// What people write for "for ever": it must not come round to the past.
inline std::chrono::milliseconds ages()
{
    using std::chrono::milliseconds;
    switch (sim::pick(6))
    {
        case 0: return milliseconds::max();
        case 1: return std::chrono::duration_cast<milliseconds>(std::chrono::nanoseconds::max()) + milliseconds((int)sim::pick(3) - 1);
        case 2: return milliseconds((1ll << 31) + (int)sim::pick(3) - 1);
        case 3: return milliseconds((1ll << 32) + (int)sim::pick(3));
        case 4: return std::chrono::hours(24 * (1 + sim::pick(1000)));
        default: return milliseconds::max() / (1 + sim::pick(1 << 21));
    }
}
// A scheduler that is gone soon: an object made for it and then assigned to must not use it any more.
inline std::unique_ptr<scheduler> elsewhere()
{
    return scheduler::make_unique(scheduler::options{
        .thread_strategy = scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr,
        .pool = bed::popt(1), .execution_strategy = scheduler::execution_strategy_t::process_tasks_inline});
}
// a time-out, where zero is none
inline std::chrono::milliseconds endless(std::chrono::milliseconds to) { return to.count() == 0 && sim::chance(1, 8) ? ages() : to; }
inline std::optional<std::chrono::milliseconds> endless(std::optional<std::chrono::milliseconds> to) { if (!to && sim::chance(1, 8)) return ages(); return to; }
} // namespace sc
