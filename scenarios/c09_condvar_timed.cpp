// C09: timed and stoppable waits
#include "condvar.hpp"
using namespace cvw;
SIM_SCENARIO("C09", c09_timed, 3) { drive({tplain, tpred, tstop}, true); }
SIM_SCENARIO("C09", c09_stop, 1) { drive({stoppred, tstop, pred}, true); }
SIM_SCENARIO("C09", c09_mixed, 2) { drive({plain, pred, stoppred, tplain, tpred, tstop}, true); }

// Every notify_one() made while a waiter is there wakes exactly one: a timed wait that times out at the same moment
// must not swallow it.
namespace
{
struct exact
{
    bed                        b;
    std::unique_ptr<scheduler> io;
    objs*                      o = nullptr;
    int                        plain_in = 0, woken = 0, timed_out = 0, notified = 0, calls = 0, calls_done = 0, finished = 0, holder = 0;
    std::unique_ptr<scheduler>& ex() { return b.sch ? b.sch : io; }
};
task<void> ex_plain(exact* w)
{
    auto lk = co_await w->o->m.scoped_lock();
    w->o->s.data++;
    q([&] { w->plain_in++; });
    co_await w->o->cv->wait(lk);
    w->o->s.data++;
    q([&] { w->woken++; w->finished++; });
    lk.unlock();
}
task<void> ex_timed(exact* w, i64 us)
{
    auto lk = co_await w->o->m.scoped_lock();
    auto st = co_await w->o->cv->wait_for(w->ex(), lk, std::chrono::microseconds{us});
    w->o->s.data++;
    q([&] { (st == std::cv_status::timeout ? w->timed_out : w->notified)++; w->finished++; });
    lk.unlock();
}
task<void> ex_notify(exact* w, i64 us, bool pooled)
{
    if (us) co_await w->ex()->schedule_after(std::chrono::microseconds{us});
    jitter();
    q([&] { w->calls++; });
    if (pooled && w->b.tp) w->o->cv->notify_one(w->b.tp);
    else if (pooled) w->o->cv->notify_one(w->ex());
    else co_await w->o->cv->notify_one();
    q([&] { w->calls_done++; });
}
} // namespace
SIM_SCENARIO("C09", c09_exact, 2)
{
    host<exact> w;
    auto        W  = &*w;
    auto        ob = std::make_unique<objs>();
    w->o           = ob.get();
    w->b.open_any(3, 2, 2, 2);
    if (!w->b.sch) w->io = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    int k = 1 + sim::pick(3), np = k + sim::pick(2), nt = 1 + sim::pick(3);
    i64 base = sim::chance(1, 3) ? sim::pick(3) : 100 + sim::pick(400);
    int left = np;
    std::vector<std::function<task<void>()>> ps, fs;
    for (int i = 0; i < np; i++) ps.push_back([W] { return ex_plain(W); });
    crew c;
    c.add([&] { W->b.run(ps); });
    // the plain waiters are all there first (entered under the lock, which wait() gives up after queueing)
    while (q([&] { return W->plain_in < left; })) sim::quiesce();
    {
        auto seen = [](exact* w) -> task<void> { auto lk = co_await w->o->m.scoped_lock(); w->o->s.data++; };
        sync_wait(seen(W));
    }
    for (int i = 0; i < nt; i++) { i64 d = base + (sim::chance(1, 2) ? 0 : sim::pick(3)); fs.push_back([W, d] { return ex_timed(W, d); }); }
    for (int i = 0; i < k; i++)
    {
        i64 d = base > 2 ? base + (i64)sim::pick(4) - 1 : sim::pick(2);
        bool p = sim::chance(1, 3);
        fs.push_back([W, d, p] { return ex_notify(W, d, p); });
    }
    c.add([&] { W->b.run(fs); });
    sim::quiesce();
    q([&] {
        sim::mix(W->timed_out * 16 + W->notified);
        SIM_CHECK(W->timed_out + W->notified == nt, "lost-timeout", "%d of %d timed waits ended", W->timed_out + W->notified, nt);
        SIM_CHECK(W->woken + W->notified >= k, "lost-notification", "%d notify_one() calls while %d tasks waited woke only %d plain and %d timed waits", k, np, W->woken, W->notified);
        SIM_CHECK(W->woken + W->notified <= k, "spurious-wakeup", "%d notify_one() calls woke %d plain and %d timed waits", k, W->woken, W->notified);
        if (W->timed_out) sim::probe("timed-out");
        if (W->timed_out && W->woken) sim::probe("passed-on");
    });
    sync_wait(w->o->cv->notify_all());
    c.join();
    sim::sync_all();
    if (w->b.tp) w->b.tp->shutdown();
    if (w->b.sch) w->b.sch->shutdown();
    if (w->io) w->io->shutdown();
}

// A timeout as long as the types allow does not end the wait, a notification does. (The timer goes on, so the scheduler
// and all that is left behind.)
namespace
{
struct eons { mutex m; condition_variable cv; bool ready = false; };
struct told { int waits = 0, over = 0; bool stop = false; };
task<void> w_far(told* t, eons* a, std::unique_ptr<scheduler>& s, int how, bool pred)
{
    using namespace std::chrono;
    auto lk = co_await a->m.scoped_lock();
    q([&] { t->waits++; });
    bool ok = true;
    auto p = [a]() -> bool { return a->ready; };
    if (pred)
    {
        if (how == 0) ok = co_await a->cv.wait_for(s, lk, nanoseconds::max(), p);
        else if (how == 1) ok = co_await a->cv.wait_for(s, lk, milliseconds::max(), p);
        else if (how == 2) ok = co_await a->cv.wait_for(s, lk, hours::max(), p);
        else ok = co_await a->cv.wait_until(s, lk, steady_clock::time_point::max(), p);
    }
    else
    {
        std::cv_status st{};
        if (how == 0) st = co_await a->cv.wait_for(s, lk, nanoseconds::max());
        else if (how == 1) st = co_await a->cv.wait_for(s, lk, milliseconds::max());
        else if (how == 2) st = co_await a->cv.wait_for(s, lk, hours::max());
        else st = co_await a->cv.wait_until(s, lk, steady_clock::time_point::max());
        ok = st == std::cv_status::no_timeout;
    }
    SIM_CHECK(ok, "early-timeout", "a wait with an endless time-out (form %d) timed out", how);
    SIM_CHECK(a->ready, "spurious", "a wait ended without a notification");
    q([&] { t->over++; });
}
} // namespace
SIM_SCENARIO("C09", c09_far, 1, sim::F_LEAKS_OK | sim::F_FDS_OK)
{
    host<told> t;
    auto       T = &*t;
    auto*      a = new eons;
    auto*      s = new std::unique_ptr<scheduler>(scheduler::make_unique(scheduler::options{
                    .thread_strategy = scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr,
                    .pool = bed::popt(1), .execution_strategy = scheduler::execution_strategy_t::process_tasks_inline}));
    crew cr;
    cr.add([T, s] { while (!q([&] { return T->stop; })) (*s)->process_events(std::chrono::milliseconds{5}); });
    int n = 1 + sim::pick(3);
    for (int i = 0; i < n; i++) (*s)->spawn_detached(w_far(T, a, *s, sim::pick(4), sim::chance(1, 2)));
    while (q([&] { return T->waits; }) < n) sim::sleep_ns(100'000);
    sim::sleep_ns(sim::pick(5'000'000));
    auto tell = [](eons* a) -> task<void> {
        {
            auto lk  = co_await a->m.scoped_lock();
            a->ready = true;
        }
        co_await a->cv.notify_all();
    };
    sync_wait(tell(a));
    i64 t0 = sim::now();
    while (q([&] { return T->over; }) < n)
    {
        SIM_CHECK(sim::now() - t0 < 1'000'000'000 + 3 * (sim::slack() + sim::stalled()), "lost-notification", "%d of %d notified waits are over", T->over, n);
        sim::sleep_ns(100'000);
    }
    q([&] { T->stop = true; });
    cr.join();
}
