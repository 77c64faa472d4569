// C16: waiting for a duration or a time point.
#include "sc.hpp"
#include <sys/eventfd.h>
using namespace sc;
namespace
{
// the oracle of one run
struct world
{
    scheduler* s = nullptr;
    bool       ordered = false;   // no stalls in this run: deadline order is checked
    bool       shut    = false;
    i64        drive   = 0;       // granularity of the event loop (manual mode), ns
    int        loop_tid = -1;
    struct rec { i64 dl, call; bool on_loop; u64 a, b = 0; bool strict; };
    std::vector<rec> r;
    int        outstanding = 0;
};
// what a wait that consumed no injected delay may at most be late: execution time plus the loop granularity
void late(world* w, const char* what, i64 due, i64 t0slack, i64 t0stall)
{
    // the kernel timer is relative, so execution and stalls while it was armed for an earlier deadline count as well
    (void)t0slack, (void)t0stall;
    i64 over = sim::now() - due, tick = sim::slack(), st = sim::stalled();
    sim::quiet g;
    SIM_CHECK(over <= 3 * (tick + st) + 4 * w->drive + 2'000, "late", "%s resumed %.6f ms after its deadline (%.6f ms of execution, %.6f ms of stalls)", what, over / 1e6, tick / 1e6, st / 1e6);
}
bool g_short; // manual event loops poll: keep the waits short
i64 amount()
{
    int k = sim::pick(8);
    if (g_short && (k == 5 || k == 6)) k = 7;
    switch (k)
    {
        case 0: return -(i64)sim::pick(3) * 1'000'000;
        case 1: return 1 + sim::pick(2'000);
        case 2: return 1'000'000;                        // equal deadlines happen
        case 3: return 1 + sim::pick(999'999);
        case 4: return 1'000'000 * (1 + (i64)sim::pick(50)) + sim::pick(3);
        case 5: return 1'000'000'000ll * sim::pick(5);
        case 6: return 600'000'000'000ll * (sim::pick(3) == 0) + 999'999'999;
        default: return 100'000ll * sim::pick(60);
    }
}
task<void> wait_one(world* w, int kind, i64 d)
{
    i64 sl = sim::slack(), st = sim::stalled(), t0 = sim::now();
    auto tp0 = clock::now();
    auto ns  = std::chrono::nanoseconds(d);
    i64  due = t0 + std::max<i64>(d, 0);
    size_t id = 0;
    q([&] {
        id = w->r.size();
        w->r.push_back({due, t0, sim::tid() == w->loop_tid, sim::seq(), 0, false});
        w->outstanding++;
        // only waits for an exact time point have an exactly known deadline
        w->r[id].strict = w->ordered && w->r[id].on_loop && (kind == 2 || kind == 3) && d > 2'000'000;
    });
    switch (kind)
    {
        case 0: co_await w->s->yield_for(ns); break;
        case 1: co_await w->s->schedule_after(ns); break;
        case 2: co_await w->s->yield_until(tp0 + ns); break;
        case 3: co_await w->s->schedule_at(tp0 + ns); break;
        case 4: co_await w->s->yield_for(std::chrono::duration_cast<std::chrono::microseconds>(ns)); due -= std::max<i64>(d, 0) % 1000; break;
        default: co_await w->s->schedule_after(std::chrono::duration<double>(d / 1e9)); due -= 2; break;
    }
    SIM_CHECK(sim::now() >= due, "early", "wait of kind %d for %ld ns resumed after %ld ns", kind, (long)d, (long)(sim::now() - t0));
    q([&] {
        auto& me = w->r[id];
        SIM_CHECK(me.b == 0, "resumed-twice", "wait %zu was resumed twice", id);
        me.b = sim::seq();
        w->outstanding--;
        if (me.strict)
            for (size_t i = 0; i < w->r.size(); i++)
            {
                auto& o = w->r[i];
                if (i != id && o.strict && o.dl < me.dl && o.a < me.a) SIM_CHECK(o.b != 0, "order", "a wait for %.6f ms was resumed while an earlier one for %.6f ms still waits", me.dl / 1e6, o.dl / 1e6);
            }
    });
    late(w, "timer", due, sl, st);
}
// a poll with a timeout whose descriptor may become ready: its timer is added and removed again
task<void> poll_one(world* w, int fd, int ms)
{
    i64  sl = sim::slack(), st = sim::stalled(), t0 = sim::now();
    auto r = co_await w->s->poll(fd, poll_op::read, std::chrono::milliseconds(ms));
    if (r == poll_status::timeout)
    {
        SIM_CHECK(sim::now() - t0 >= ms * 1'000'000ll, "early", "poll timed out after %ld ns instead of %d ms", (long)(sim::now() - t0), ms);
        late(w, "poll timeout", t0 + ms * 1'000'000ll, sl, st);
    }
    else SIM_CHECK(r == poll_status::read, "poll-status", "poll reported %s", to_string(r).c_str());
}
task<void> poker(world* w, int fd)
{
    co_await w->s->schedule();
    i64 d = amount();
    if (d > 1'000'000'000) d = 5'000'000;
    co_await w->s->yield_for(std::chrono::nanoseconds(d));
    uint64_t one = 1;
    (void)!::write(fd, &one, 8);
}
task<void> polls(world* w)
{
    co_await w->s->schedule();
    int n = 1 + sim::pick(3);
    for (int i = 0; i < n; i++)
    {
        int fd = eventfd(0, EFD_NONBLOCK);
        co_await when_all(poll_one(w, fd, 1 + sim::pick(20)), poker(w, fd));
        ::close(fd);
    }
}
task<void> waits(world* w, int n, bool inside)
{
    if (inside) co_await w->s->schedule();
    for (int i = 0; i < n; i++) co_await wait_one(w, sim::pick(6), amount());
}
task<void> timed_work(world* w)
{
    int ms = 1 + sim::pick(5);
    i64 d  = sim::pick(8) * 1'000'000ll + sim::pick(2);
    struct L { static task<int> f(world* w, i64 d) { co_await w->s->schedule(); co_await w->s->yield_for(std::chrono::nanoseconds(d)); co_return 7; } };
    i64  t0 = sim::now(), sl = sim::slack(), st = sim::stalled();
    sim::log("timed_work d=%ld ms=%d", (long)d, ms);
    auto r = co_await w->s->schedule(L::f(w, d), std::chrono::milliseconds(ms));
    SIM_CHECK(sim::now() - t0 >= std::min<i64>(d, ms * 1'000'000ll), "early", "neither the task nor the limit was due");
    late(w, "schedule with timeout", t0 + std::min<i64>(d, ms * 1'000'000ll), sl, st);
    if (!r) SIM_CHECK(sim::now() - t0 >= ms * 1'000'000ll, "early", "timed out after %ld ns", (long)(sim::now() - t0));
}
} // namespace

static void timers(bool ordered)
{
    host<world> W;
    world*      w = W.p;
    w->ordered = ordered;
    if (ordered) sim::faults_off();
    bool manual = !ordered && sim::chance(1, 4);
    g_short     = manual;
    bool inl    = ordered || sim::chance(1, 2);
    auto s = scheduler::make_unique(scheduler::options{
        .thread_strategy            = manual ? scheduler::thread_strategy_t::manual : scheduler::thread_strategy_t::spawn,
        .on_io_thread_start_functor = [w] { sim::quiet g; w->loop_tid = sim::tid(); },
        .on_io_thread_stop_functor  = nullptr,
        .pool                       = bed::popt(1 + sim::pick(2)),
        .execution_strategy         = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool});
    w->s = s.get();
    host<bool> stop(false);
    crew dr, cr;
    if (manual)
        for (int i = 1 + sim::pick(2), n = i; i > 0; i--)
        {
            int k = sim::pick(3);
            w->drive = std::max<i64>(w->drive, n > 1 ? 1'000'000 : k == 0 ? 100'000 : 10'000'000);
            dr.add([&, k, n, p = stop.p] {
                while (true)
                {
                    bool st = q([&] { return *p; });
                    s->process_events(k == 0 ? 0ms : k == 1 ? 3ms : 10ms);
                    if (st && s->empty()) break;
                    if (k == 0 || n > 1) sim::sleep_ns(k == 0 ? 100'000 : 500'000);
                }
            });
        }
    int nt = 1 + sim::pick(4);
    for (int i = 0; i < nt; i++)
    {
        int what = sim::pick(8), n = 1 + sim::pick(3);
        if (what < 3) cr.add([&, n] { sync_wait(waits(w, n, w->ordered)); });
        else if (what < 4) cr.add([&] { sync_wait(polls(w)); });
        else if (what < 5) cr.add([&] { sync_wait(timed_work(w)); });
        else
        {
            // detached: the scheduler may be shut down while they wait
            int m = 1 + sim::pick(4);
            for (int k = 0; k < m; k++) SIM_CHECK(s->spawn_detached(waits(w, 1, false)), "refused", "spawn_detached refused");
        }
        if (!w->ordered && sim::chance(1, 6)) cr.add([] { sim::sleep_ns(sim::pick(30) * 100'000); sim::wall_jump((i64)sim::pick(7) * 1'000'000'000 - 3'000'000'000); });
    }
    cr.join();
    if (manual) { q([&] { *stop = true; }); dr.join(); }
    else if (sim::chance(1, 2)) s->shutdown();
    s.reset();
    q([&] { SIM_CHECK(w->outstanding == 0, "lost-timer", "%d waits never ended although the scheduler is gone", w->outstanding); });
}
SIM_SCENARIO("C16", timers_any, 3) { timers(false); }
SIM_SCENARIO("C16", timers_order, 1) { timers(true); }

// Durations and times as long as the types allow: such a wait does not end, and does not keep shorter ones waiting.
// (Nothing ends them, so this scheduler is left behind.)
namespace
{
struct eons { int in = 0, near_ = 0; bool over = false; };
task<void> far(eons* w, scheduler* s, int how, u64 x)
{
    using namespace std::chrono;
    q([&] { w->in++; });
    switch (how)
    {
        case 0: co_await s->yield_for(nanoseconds::max()); break;
        case 1: co_await s->yield_for(milliseconds::max()); break;
        case 2: co_await s->schedule_after(hours::max()); break;
        case 3: co_await s->schedule_after(duration<double>(1e30)); break;
        case 4: co_await s->yield_until(steady_clock::time_point::max()); break;
        case 5: co_await s->yield_for(duration<long long, std::ratio<31556952>>(1 + (sim::chance(1, 2) ? x : sim::pick(300)))); break; // years
        case 6: co_await s->schedule_at(steady_clock::time_point::max() - nanoseconds(x)); break;
        case 7: co_await s->yield_for(nanoseconds::max() - nanoseconds(x)); break;
        default: co_await s->yield_for(seconds(8000 + x)); break;
    }
    sim::fail("early", "a wait for ages (form %d) is over after %.3f s", how, sim::now() / 1e9);
}
task<void> near_by(eons* w, scheduler* s, i64 us)
{
    i64 t0 = sim::now();
    co_await s->yield_for(std::chrono::microseconds(us));
    i64 d = sim::now() - t0;
    SIM_CHECK(d >= us * 1000, "early", "resumed after %lld of %lld us", (long long)d / 1000, (long long)us);
    SIM_CHECK(d <= us * 1000 + 11'000'000 + 3 * (sim::slack() + sim::stalled()), "late", "resumed after %lld instead of %lld us", (long long)d / 1000, (long long)us);
    q([&] { w->near_++; });
}
// the past, as far back as it goes, has come already
task<void> past(eons* w, scheduler* s, int how)
{
    using namespace std::chrono;
    i64 t0 = sim::now();
    switch (how)
    {
        case 0: co_await s->yield_for(nanoseconds::min()); break;
        case 1: co_await s->schedule_after(hours::min()); break;
        case 2: co_await s->yield_until(steady_clock::time_point::min()); break;
        default: co_await s->schedule_at(steady_clock::time_point{}); break;
    }
    SIM_CHECK(sim::now() - t0 <= 11'000'000 + 3 * (sim::slack() + sim::stalled()), "late", "a wait for the past took %lld us", (long long)(sim::now() - t0) / 1000);
    q([&] { w->near_++; });
}
} // namespace
SIM_SCENARIO("C16", timers_far, 1, sim::F_LEAKS_OK | sim::F_FDS_OK)
{
    host<eons> w;
    auto       W = &*w;
    auto       s = scheduler::make_unique(scheduler::options{
                    .thread_strategy = scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr,
                    .pool = bed::popt(1), .execution_strategy = scheduler::execution_strategy_t::process_tasks_inline});
    int nf = 1 + sim::pick(4), nn = 0;
    crew cr;
    auto* p = s.get();
    cr.add([W, p] { while (!q([&] { return W->over; })) p->process_events(10ms); });
    for (int i = 0; i < nf; i++)
    {
        int how = sim::pick(9);
        u64 x = sim::chance(1, 2) ? sim::pick(5) : sim::pick(1 << 30);
        SIM_CHECK(s->spawn_detached(far(W, p, how, x)), "refused", "spawn_detached refused");
        for (int k = sim::pick(3); k > 0; k--, nn++) SIM_CHECK(s->spawn_detached(near_by(W, p, 1 + sim::pick(30'000))), "refused", "spawn_detached refused");
        if (sim::chance(1, 3)) { nn++; SIM_CHECK(s->spawn_detached(past(W, p, sim::pick(4))), "refused", "spawn_detached refused"); }
    }
    i64 t0 = sim::now();
    while (q([&] { return W->near_; }) < nn || q([&] { return W->in; }) < nf)
    {
        SIM_CHECK(sim::now() - t0 < 1'000'000'000 + 3 * (sim::slack() + sim::stalled()), "lost-timer", "%d of %d short waits are over", W->near_, nn);
        sim::sleep_ns(1'000'000);
    }
    sim::sleep_ns(sim::pick(20) * 5'000'000);
    SIM_CHECK(s->size() >= (size_t)nf, "size", "size() is %zu with %d tasks waiting", (size_t)s->size(), nf);
    q([&] { W->over = true; });
    cr.join();
    (void)s.release();
}
