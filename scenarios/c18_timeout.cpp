// C18: running a task with a time limit on the scheduler.
#include "sc.hpp"
#include <stdexcept>
using namespace sc;
namespace
{
struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };
struct job { i64 dur = 0, busy = 0; bool throws = false, coop = false; int hops = 0; i64 t_start = -1, t_end = -1; u64 end = INF; int ran = 0, fin = 0; bool saw_stop = false; int payload[2] = {0, 0}; };
struct world { scheduler* s; std::set<int> exec; bool may_block = false; std::vector<job*> jobs; int open = 0; };
void body_end(world* w, job* j) { j->payload[0] = j->payload[1] = 77; q([&] { SIM_CHECK(++j->fin == 1, "ran-twice", "the task finished twice"); j->end = sim::seq(); j->t_end = sim::now(); w->open--; }); }
task<void> work(world* w, job* j, std::stop_token tok)
{
    q([&] { SIM_CHECK(++j->ran == 1, "ran-twice", "the task ran twice"); SIM_CHECK(w->exec.count(sim::tid()), "wrong-thread", "the scheduled task runs on T%d, which does not belong to the scheduler", sim::tid()); j->t_start = sim::now(); });
    if (j->busy) { i64 t = sim::now(); while (sim::now() - t < j->busy) sim::sleep_ns(j->busy); }
    for (int i = 0; i < j->hops; i++) { if (sim::chance(1, 2)) co_await w->s->schedule(); else co_await w->s->yield(); jitter(); }
    if (j->coop)
    {
        // checks for the stop request now and then
        i64 left = j->dur;
        while (left > 0 && !tok.stop_requested()) { i64 s = std::min<i64>(left, 300'000); co_await w->s->yield_for(std::chrono::nanoseconds(s)); left -= s; }
        q([&] { j->saw_stop = left > 0; });
    }
    else if (j->dur > 0) co_await w->s->yield_for(std::chrono::nanoseconds(j->dur));
    body_end(w, j);
    if (j->throws) throw boom();
}
task<int>  t_int(world* w, job* j, std::stop_token tok) { co_await work(w, j, tok); co_return 5; }
task<void> t_void(world* w, job* j, std::stop_token tok) { co_await work(w, j, tok); }

task<void> one(world* w, bool inside)
{
    if (inside) co_await w->s->schedule();
    job* j = q([&] { auto* j = new job; w->jobs.push_back(j); w->open++; return j; });
    // limits and durations around each other, also below one millisecond
    i64 lim = sim::pick(5) == 0 ? -(i64)sim::pick(2) * 1000 : sim::chance(1, 3) ? 1 + sim::pick(2'500'000) : (1 + (i64)sim::pick(4)) * 1'000'000;
    switch (sim::pick(4))
    {
        case 0: j->dur = 0; break;
        case 1: j->dur = std::max<i64>(lim, 1) + (i64)sim::pick(2000) - 1000; break;
        case 2: j->dur = sim::pick(6'000'000); break;
        default: j->dur = sim::pick(7) * 1'000'000ll;
    }
    j->hops   = sim::skew(4);
    if (w->may_block) { w->may_block = false; j->busy = 1 + sim::pick(8'000'000); }
    j->throws = sim::chance(1, 4);
    j->coop   = sim::chance(1, 3);
    bool        with_stop = j->coop || sim::chance(1, 3);
    std::stop_source src;
    i64  t0 = sim::now();
    bool value = false, timed = false, threw = false;
    auto tmo = std::chrono::nanoseconds(lim);
    auto tok = src.get_token();
    auto chk = [&](auto& r, bool ok) { value = r.has_value(); if (!value) { timed = true; SIM_CHECK(r.error() == timeout_status::timeout, "wrong-value", "unexpected error value"); } else SIM_CHECK(ok, "wrong-value", "the task's value was lost"); };
    try
    {
        switch (sim::pick(2))
        {
            case 0: { expected<int, timeout_status> r; if (with_stop) r = co_await w->s->schedule(src, t_int(w, j, tok), tmo); else r = co_await w->s->schedule(t_int(w, j, tok), tmo); chk(r, r.has_value() && *r == 5); break; }
            default: { expected<void, timeout_status> r; if (with_stop) r = co_await w->s->schedule(src, t_void(w, j, tok), tmo); else r = co_await w->s->schedule(t_void(w, j, tok), tmo); chk(r, true); break; }
        }
    }
    catch (const boom&) { threw = true; }
    i64 t1 = sim::now(), m = 4 * (sim::slack() + sim::stalled()) + 4'000;
    if (value || threw) SIM_CHECK(j->payload[0] == 77 && j->payload[1] == 77, "visibility", "result delivered before the task finished");
    q([&] {
        SIM_CHECK(value + timed + threw == 1, "outcome", "no single outcome");
        sim::mix(value * 4 + timed * 2 + threw);
        if (value) SIM_CHECK(!j->throws, "wrong-outcome", "a value although the task threw");
        if (threw) SIM_CHECK(j->throws, "wrong-outcome", "an exception although the task returned");
        if (value || threw) SIM_CHECK(j->fin == 1, "not-finished", "outcome delivered before the task finished");
        if (timed)
        {
            SIM_CHECK(lim > 0, "false-timeout", "timed out without a limit");
            SIM_CHECK(t1 - t0 >= lim, "early", "timed out after %ld of %ld ns", (long)(t1 - t0), (long)lim);
            SIM_CHECK(j->fin == 0 || j->t_end + m >= t0 + lim, "lost-result", "timed out although the task had finished %ld ns before the limit", (long)(t0 + lim - j->t_end));
        }
        // delivered when the first of both happened
        i64 due = lim > 0 ? t0 + lim : INT64_MAX;
        if (j->fin) due = std::min(due, j->t_end);
        // limits are rounded up to the scheduler's millisecond resolution
        SIM_CHECK(due == INT64_MAX || t1 <= due + 1'000'000 + m, "late", "outcome delivered %.6f ms late (margin %.6f)", (t1 - due) / 1e6, m / 1e6);
        if (with_stop && lim > 0) SIM_CHECK(src.stop_requested(), "no-stop", "the stop source was not asked to stop");
    });
}
task<void> several(world* w, int n) { for (int i = 0; i < n; i++) co_await one(w, sim::chance(1, 2)); }
} // namespace

SIM_SCENARIO("C18", task_timeout, 1)
{
    host<world> W;
    world*      w = W.p;
    bool        inl = sim::chance(1, 2);
    int         np  = 1 + sim::pick(3);
    auto        s   = scheduler::make_unique(scheduler::options{
                .thread_strategy            = scheduler::thread_strategy_t::spawn,
                .on_io_thread_start_functor = [w, inl] { sim::quiet g; if (inl) w->exec.insert(sim::tid()); },
                .on_io_thread_stop_functor  = nullptr,
                .pool                       = thread_pool::options{.thread_count = (uint32_t)np, .on_thread_start_functor = [w](std::size_t) { sim::quiet g; w->exec.insert(sim::tid()); }, .on_thread_stop_functor = nullptr},
                .execution_strategy         = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool});
    w->s = s.get();
    // one task may block a worker thread without delaying anybody else's limit
    w->may_block = !inl && np > 1 && sim::chance(1, 3);
    crew cr;
    for (int i = 1 + sim::skew(3); i > 0; i--) cr.add([&, k = 1 + sim::skew(3)] { sync_wait(several(w, k)); });
    cr.join();
    // the tasks that ran out of time finish all the same, at the latest when the scheduler is gone
    if (sim::chance(1, 2))
    {
        i64 t0 = sim::now();
        while (q([&] { return w->open; }) > 0 || !s->empty())
        {
            SIM_CHECK(sim::now() - t0 < 2'000'000'000 + 2 * sim::stalled(), "lost-task", "a task that ran out of time never finished (%d open, size %zu)", w->open, s->size());
            sim::sleep_ns(200'000);
        }
    }
    s.reset();
    q([&] { for (auto* j : w->jobs) { SIM_CHECK(j->fin == 1, "lost-task", "a task never finished"); delete j; } });
}

// A limit as long as the types allow is no limit. (Its timer goes on, so the scheduler is left behind.)
namespace
{
task<int> brief(scheduler* s, i64 us) { co_await s->yield_for(std::chrono::microseconds(us)); co_return (int)us; }
task<int> unlimited(scheduler* s, int how, i64 us)
{
    using namespace std::chrono;
    std::stop_source src;
    expected<int, timeout_status> r{0};
    switch (how)
    {
        case 0: r = co_await s->schedule(brief(s, us), milliseconds::max()); break;
        case 1: r = co_await s->schedule(brief(s, us), nanoseconds::max()); break;
        case 2: r = co_await s->schedule(brief(s, us), hours::max()); break;
        case 3: r = co_await s->schedule(src, brief(s, us), hours::max()); break;
        case 4: r = co_await s->schedule(src, brief(s, us), milliseconds::max()); break;
        default: r = co_await s->schedule(brief(s, us), duration<double>(1e20)); break;
    }
    SIM_CHECK(r.has_value(), "early-timeout", "a task with an endless limit (form %d) timed out", how);
    co_return *r;
}
} // namespace
SIM_SCENARIO("C18", timeout_far, 1, sim::F_LEAKS_OK | sim::F_FDS_OK)
{
    auto s = scheduler::make_unique(scheduler::options{
        .thread_strategy = scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr,
        .pool = bed::popt(1), .execution_strategy = scheduler::execution_strategy_t::process_tasks_inline});
    host<bool> over{false};
    crew cr;
    cr.add([p = s.get(), o = over.p] { while (!q([&] { return *o; })) p->process_events(std::chrono::milliseconds{5}); });
    for (int i = 1 + sim::pick(3); i > 0; i--)
    {
        i64 us = 1 + sim::pick(20'000), t0 = sim::now();
        int v = sync_wait(unlimited(s.get(), sim::pick(6), us));
        SIM_CHECK(v == us, "wrong-value", "got %d from a task that returns %lld", v, (long long)us);
        SIM_CHECK(sim::now() - t0 <= us * 1000 + 20'000'000 + 3 * (sim::slack() + sim::stalled()), "late", "the result of a task of %lld us took %lld", (long long)us, (long long)(sim::now() - t0) / 1000);
    }
    q([&] { *over = true; });
    cr.join();
    (void)s.release();
}
