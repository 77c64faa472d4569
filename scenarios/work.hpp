// Small tasks that end in every way a task can end, on whichever thread; used by C10 and C12.
#pragma once
#include "sc.hpp"
#include <list>
namespace wk
{
using namespace sc;
struct err { int id; };
enum how { now_, hop, hops, timer, ev, thread_ev, yields, N_HOW };
// threads of the user that resume coroutines
struct kicker
{
    std::mutex                          m;
    std::condition_variable             cv;
    std::vector<std::coroutine_handle<>> hs;
    bool                                stop = false;
    std::vector<std::thread>            ts;
    void open(int n)
    {
        for (int i = 0; i < n; i++)
            ts.emplace_back([this] {
                while (true)
                {
                    std::unique_lock lk{m};
                    cv.wait(lk, [this] { return stop || !hs.empty(); });
                    if (hs.empty()) return;
                    auto h = hs.back();
                    hs.pop_back();
                    lk.unlock();
                    h.resume();
                }
            });
    }
    void close()
    {
        { std::scoped_lock lk{m}; stop = true; }
        cv.notify_all();
        for (auto& t : ts) t.join();
    }
};
struct kick
{
    kicker& k;
    bool await_ready() noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h)
    {
        auto& kk = k;
        std::scoped_lock lk{kk.m};
        kk.hs.push_back(h);
        kk.cv.notify_one();
    }
    void await_resume() noexcept {}
};
struct world
{
    bed                        b, b2;
    std::vector<int>           runs, done; // per task: body entries and ends
    kicker*                    k = nullptr;
    u64*                       data = nullptr; // one plain cell per task, in simulated memory
};
inline int newid(world* w) { return q([&] { w->runs.push_back(0); w->done.push_back(0); return (int)w->runs.size() - 1; }); }
// suspends the way h says
inline task<void> pass(world* w, int h, int id)
{
    switch (h)
    {
        case hop: if (w->b.tp) co_await w->b.tp->schedule(); else if (w->b.sch) co_await w->b.sch->schedule(); else if (w->b2.sch) co_await w->b2.sch->schedule(); break;
        case hops:
            if (w->b.tp) co_await w->b.tp->schedule();
            if (w->b2.sch) co_await w->b2.sch->schedule();
            if (w->b.tp) co_await w->b.tp->schedule();
            break;
        case timer:
            if (w->b2.sch) co_await w->b2.sch->yield_for(std::chrono::microseconds{100 * (1 + id % 3)});
            else if (w->b.sch) co_await w->b.sch->yield_for(std::chrono::microseconds{100 * (1 + id % 3)});
            break;
        case ev: case thread_ev: co_await kick{*w->k}; break;
        case yields: for (int i = 0; i <= id % 3; i++) co_await w->b.breathe(); break;
        default: break;
    }
}
inline void enter(world* w, int id) { q([&] { SIM_CHECK(++w->runs[id] == 1, "ran-twice", "the body of task %d was entered %d times", id, w->runs[id]); }); }
inline void leave(world* w, int id)
{
    w->data[id] = 1000 + id; // plain write: visible to whoever is told that the task has finished
    q([&] { SIM_CHECK(++w->done[id] == 1, "ended-twice", "task %d ended %d times", id, w->done[id]); });
}
inline task<int> t_int(world* w, int id, int h, bool boom)
{
    enter(w, id);
    co_await pass(w, h, id);
    jitter();
    leave(w, id);
    if (boom) throw err{id};
    co_return 7000 + id;
}
inline task<void> t_void(world* w, int id, int h, bool boom)
{
    enter(w, id);
    co_await pass(w, h, id);
    jitter();
    leave(w, id);
    if (boom) throw err{id};
}
inline task<std::unique_ptr<int>> t_ptr(world* w, int id, int h, bool boom)
{
    enter(w, id);
    auto p = std::make_unique<int>(7000 + id);
    co_await pass(w, h, id);
    leave(w, id);
    if (boom) throw err{id};
    co_return p;
}
inline task<u64&> t_ref(world* w, int id, int h, bool boom)
{
    enter(w, id);
    co_await pass(w, h, id);
    leave(w, id);
    if (boom) throw err{id};
    co_return w->data[id];
}
inline void seen(world* w, int id)
{
    u64 v = w->data[id]; // plain read: races unless ordered after the task's end
    q([&] {
        SIM_CHECK(w->done[id] == 1, "too-early", "resumed although task %d has not finished", id);
        SIM_CHECK(v == 1000u + id, "not-visible", "what task %d wrote is not there", id);
    });
}
inline void open(world* w)
{
    w->b.open_any(2, 4, 2, 2);
    if (!w->b.sch && sim::chance(1, 2)) w->b2.open(sim::chance(1, 2) ? sub::sched_pool : sub::sched_inline, 1);
}
inline void close(world* w)
{
    if (w->b.tp) w->b.tp->shutdown();
    if (w->b.sch) w->b.sch->shutdown();
    if (w->b2.sch) w->b2.sch->shutdown();
}
} // namespace wk
