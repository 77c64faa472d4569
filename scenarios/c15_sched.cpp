// C15: scheduler in every execution mode. Real scheduler, io_notifier, thread_pool, timers, pipes on the simulated kernel.
#include "sc.hpp"
#include <sys/eventfd.h>
using namespace sc;

namespace
{
struct unit { int ran = 0, done = 0, accepted = -1; };
struct world
{
    std::vector<unit> u;
    std::set<int>     threads; // threads on which the mode lets coroutines resume
    std::vector<int>  joined;  // threads that must be gone after shutdown
    bool              anythread = false, shut = false, shut_done = false;
    int               io_starts = 0, io_stops = 0;
    int               add() { sim::quiet g; u.emplace_back(); return (int)u.size() - 1; }
};
struct ctx { scheduler* s; world* w; int depth; };
void on_thread(world* w, const char* what)
{
    sim::quiet g;
    SIM_CHECK(!w->shut_done, "late-run", "%s resumed after shutdown() returned", what);
    SIM_CHECK(w->threads.count(sim::tid()), "wrong-thread", "%s resumed on T%d, which does not execute this scheduler's tasks", what, sim::tid());
}
void ran(world* w, int id) { sim::quiet g; SIM_CHECK(++w->u[id].ran == 1, "ran-twice", "work %d ran twice", id); sim::mix(id); }
task<void> body(ctx c, int id, int n);
void spawn(ctx c)
{
    int  id = c.w->add();
    bool ok = c.s->spawn_detached(body(ctx{c.s, c.w, c.depth + 1}, id, sim::skew(4)));
    sim::quiet g;
    c.w->u[id].accepted = ok;
    if (!ok) SIM_CHECK(c.w->shut, "refused", "spawn_detached refused although shutdown was never requested");
}
std::chrono::nanoseconds dur() { return std::chrono::nanoseconds(sim::chance(1, 4) ? sim::pick(3'000) : sim::pick(30) * 100'000); }
// one suspension of any kind; true if refused
task<bool> hop(ctx c)
{
    bool threw = false;
    i64  t0 = sim::now(), want = 0;
    try
    {
        switch (sim::pick(7))
        {
            case 0: co_await c.s->schedule(); break;
            case 1: co_await c.s->yield(); break;
            case 2: { auto d = dur(); want = d.count(); co_await c.s->yield_for(d); break; }
            case 3: { auto d = dur(); want = d.count(); co_await c.s->schedule_after(d); break; }
            case 4: { auto d = dur(); want = d.count(); auto tp = clock::now() + d; co_await c.s->yield_until(tp); break; }
            case 5: { auto d = dur(); want = d.count(); auto tp = clock::now() + d; co_await c.s->schedule_at(tp); break; }
            default:
            {
                int  ms = 1 + sim::pick(3);
                int  fd = eventfd(0, EFD_NONBLOCK);
                bool rd = sim::chance(1, 2);
                if (rd) { uint64_t one = 1; (void)!::write(fd, &one, 8); }
                std::exception_ptr e;
                poll_status st = poll_status::error;
                try { st = co_await c.s->poll(fd, poll_op::read, std::chrono::milliseconds(rd && sim::chance(1, 2) ? 0 : ms)); }
                catch (const std::runtime_error&) { e = std::current_exception(); }
                ::close(fd);
                if (e) std::rethrow_exception(e);
                if (!rd) want = ms * 1'000'000;
                SIM_CHECK(st == (rd ? poll_status::read : poll_status::timeout) || (rd && st == poll_status::timeout), "poll-status", "poll of a %s descriptor reported %s", rd ? "ready" : "silent", to_string(st).c_str());
            }
        }
    }
    catch (const std::runtime_error&) { threw = true; }
    if (threw) SIM_CHECK(q([&] { return c.w->shut; }), "refused", "scheduling refused although shutdown was never requested");
    else
    {
        on_thread(c.w, "task");
        SIM_CHECK(sim::now() - t0 >= want, "early", "resumed after %ld of %ld ns", (long)(sim::now() - t0), (long)want);
    }
    co_return threw;
}
task<void> body(ctx c, int id, int n)
{
    on_thread(c.w, "spawned task");
    ran(c.w, id);
    for (int i = 0; i < n; i++)
    {
        if (co_await hop(c)) break;
        jitter();
    }
    if (c.depth < 2 && sim::chance(1, 4)) spawn(c);
    q([&] { c.w->u[id].done++; });
    if (sim::chance(1, 8)) throw std::runtime_error("the task fails"); // nobody hears it, nothing else may change
}
task<void> outer(ctx c, int id, int n, bool* threw)
{
    ran(c.w, id);
    for (int i = 0; i < n && !*threw; i++) *threw = co_await hop(c);
    q([&] { c.w->u[id].done++; });
}
task<int> valued(ctx c, int id, int v) { on_thread(c.w, "scheduled task"); ran(c.w, id); co_await hop(c); q([&] { c.w->u[id].done++; }); co_return v; }
struct held { std::vector<task<void>> ts; };
task<void> nothing() { co_return; }
void submit(ctx c, held& h)
{
    switch (sim::pick(6))
    {
        case 0: case 1: spawn(c); break;
        case 2:
        {
            int  id = c.w->add();
            bool threw = false;
            sync_wait(outer(c, id, 1 + sim::skew(3), &threw));
            q([&] { c.w->u[id].accepted = 1; });
            break;
        }
        case 3:
        {
            int id = c.w->add(), v = 1 + sim::pick(99), r = -2;
            try { r = sync_wait(c.s->schedule(valued(c, id, v))); } catch (const std::runtime_error&) {}
            sim::quiet g;
            SIM_CHECK(r == v || (r == -2 && c.w->shut), "wrong-value", "schedule(task) returned %d not %d", r, v);
            c.w->u[id].accepted = r == v;
            break;
        }
        case 4:
        {
            int  id = c.w->add();
            auto j = c.s->spawn_joinable(body(ctx{c.s, c.w, 1}, id, sim::skew(3)));
            jitter();
            sync_wait(j);
            sim::quiet g;
            SIM_CHECK(c.w->u[id].done == c.w->u[id].ran, "join-early", "join completed while the task was running");
            SIM_CHECK(c.w->u[id].ran || c.w->shut, "join-early", "join completed though the task never ran");
            c.w->u[id].accepted = c.w->u[id].ran;
            break;
        }
        default:
        {
            int n = 1 + sim::pick(3);
            std::vector<std::coroutine_handle<>> hs;
            std::vector<int> ids;
            for (int i = 0; i < n; i++)
            {
                if (n > 1 && sim::chance(1, 4))
                {
                    // nothing, or something that is finished already, is no work
                    if (sim::chance(1, 2)) { hs.push_back(nullptr); continue; }
                    auto t = nothing();
                    t.resume();
                    if (sim::chance(1, 2)) { SIM_CHECK(!c.s->resume(t.handle()) && !c.s->resume(nullptr), "resume-count", "resume accepted a coroutine that is done, or none"); }
                    hs.push_back(t.handle());
                    h.ts.push_back(std::move(t));
                    continue;
                }
                int id = c.w->add();
                ids.push_back(id);
                h.ts.push_back(body(ctx{c.s, c.w, 1}, id, sim::skew(3)));
                hs.push_back(h.ts.back().handle());
            }
            if (n == 1)
            {
                bool ok = c.s->resume(hs[0]);
                q([&] { c.w->u[ids[0]].accepted = ok; });
                if (!ok) SIM_CHECK(q([&] { return c.w->shut; }), "refused", "resume refused although shutdown was never requested");
            }
            else
            {
                size_t r = c.s->resume(hs);
                sim::quiet g;
                SIM_CHECK(r <= ids.size() && (r == ids.size() || c.w->shut), "resume-count", "resume(range) of %zu live handles reported %zu", ids.size(), r);
                if (r == ids.size()) for (int id : ids) c.w->u[id].accepted = 1;
                if (r == 0) for (int id : ids) c.w->u[id].accepted = 0;
            }
        }
    }
}
void final_check(world* w, const char* when)
{
    sim::quiet g;
    for (size_t i = 0; i < w->u.size(); i++)
    {
        auto& u = w->u[i];
        if (u.accepted == 1) SIM_CHECK(u.ran == 1 && u.done == 1, "lost-work", "work %zu was accepted but %s %s", i, u.ran ? "has not finished" : "never ran", when);
        if (u.accepted == 0) SIM_CHECK(u.ran == 0, "half-run", "work %zu was refused but ran", i);
    }
}
scheduler::options opts(world* w, bool spawn, bool inl, int n)
{
    return scheduler::options{
        .thread_strategy            = spawn ? scheduler::thread_strategy_t::spawn : scheduler::thread_strategy_t::manual,
        .on_io_thread_start_functor = [w, inl] { sim::quiet g; w->io_starts++; w->joined.push_back(sim::tid()); if (inl) w->threads.insert(sim::tid()); },
        .on_io_thread_stop_functor  = [w] { sim::quiet g; w->io_stops++; },
        .pool = thread_pool::options{.thread_count = (uint32_t)n, .on_thread_start_functor = [w](std::size_t) { sim::quiet g; w->threads.insert(sim::tid()); w->joined.push_back(sim::tid()); }, .on_thread_stop_functor = nullptr},
        .execution_strategy = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool};
}
void gone(world* w)
{
    sim::quiet g;
    for (int t : w->joined) SIM_CHECK(!sim::tid_exists(t), "not-joined", "T%d still exists after shutdown", t);
}
} // namespace

SIM_SCENARIO("C15", sched_spawn, 3)
{
    host<world> W;
    world*      w   = W.p;
    bool        inl = sim::chance(1, 2);
    auto        s   = scheduler::make_unique(opts(w, true, inl, 1 + sim::pick(3)));
    ctx         c{s.get(), w, 0};
    int         ns = 1 + sim::pick(3);
    bool        racy = sim::chance(1, 2);
    std::vector<held> hs(ns);
    crew cr;
    for (int i = 0; i < ns; i++)
        cr.add([&, i] { for (int k = 1 + sim::pick(3); k > 0; k--) { submit(c, hs[i]); jitter(); } });
    if (!racy)
    {
        cr.join();
        if (sim::chance(1, 2))
        {
            // everything accepted finishes by itself and the size returns to zero
            int64_t t0 = sim::now();
            int  look = sim::chance(1, 2) ? 400 : 0; // watches closely for a while
            while (!s->empty())
            {
                SIM_CHECK(sim::now() - t0 < 5'000'000'000 + sim::stalled(), "size", "size() still %zu after 5 s without new work", s->size());
                if (look-- <= 0) sim::sleep_ns(20'000'000);
                else if (sim::chance(1, 2)) sim::sleep_ns(sim::pick(40'000));
            }
            final_check(w, "although the scheduler reports it is empty");
        }
    }
    if (sim::chance(1, 2)) for (int i = sim::pick(100); i > 0; i--) sim::point();
    q([&] { w->shut = true; });
    i64 t0 = sim::now(), st0 = sim::stalled();
    bool expl = racy || sim::chance(1, 2);
    if (expl) s->shutdown(); else { s.reset(); }
    SIM_CHECK(sim::now() - t0 < 10'000'000'000 + (sim::stalled() - st0), "slow-shutdown", "shutdown took %.3f s", (sim::now() - t0) / 1e9);
    q([&] { w->shut_done = true; });
    gone(w);
    if (!racy) final_check(w, "when shutdown returned");
    else
    {
        sim::quiet g;
        for (auto& u : w->u) if (u.accepted == 1) SIM_CHECK(u.ran == 1, "lost-work", "accepted work never ran before shutdown returned");
    }
    q([&] { SIM_CHECK(w->io_starts == 1 && w->io_stops == 1, "hooks", "event loop start/stop functors ran %d/%d times", w->io_starts, w->io_stops); });
    cr.join();
    if (s)
    {
        SIM_CHECK(s->is_shutdown() && s->empty(), "size", "size() is %zu after shutdown", s->size());
        int  id = w->add();
        bool refused = false;
        switch (sim::pick(3))
        {
            case 0: refused = !s->spawn_detached(body(c, id, 0)); break;
            case 1: { auto t = body(c, id, 0); refused = !s->resume(t.handle()); break; }
            default: sync_wait(outer(c, id, 1, &refused));
        }
        SIM_CHECK(refused, "accepted-after-shutdown", "work submitted after shutdown() was accepted");
        SIM_CHECK(s->empty(), "size", "size() is %zu after refused work", s->size());
        s.reset();
    }
    final_check(w, "at the end");
}

// The event loop is driven by client threads calling process_events, possibly several at once.
SIM_SCENARIO("C15", sched_manual, 2)
{
    host<world> W;
    world*      w   = W.p;
    bool        inl = sim::chance(2, 3);
    auto        s   = scheduler::make_unique(opts(w, false, inl, 1 + sim::pick(2)));
    ctx         c{s.get(), w, 0};
    int         nd = 1 + sim::pick(2), ns = sim::pick(3);
    host<bool>  stop(false);
    auto drive = [&, p = stop.p] {
        if (inl) q([&] { w->threads.insert(sim::tid()); });
        int k = sim::pick(4);
        while (true)
        {
            bool st = q([&] { return *p; });
            s->process_events(k == 0 ? 0ms : k == 1 ? 1ms : k == 2 ? 7ms : std::chrono::milliseconds(sim::pick(3)));
            if (st && s->empty()) break;
            if (k == 0 || nd > 1) sim::sleep_ns(100'000);
        }
    };
    std::vector<held> hs(ns + 1);
    crew dr, cr;
    if (inl && nd == 1 && ns == 0)
    {
        q([&] { w->threads.insert(sim::tid()); });
        // a single thread submits and drives
        for (int k = 1 + sim::pick(4); k > 0; k--) spawn(c);
        for (int i = 0; !s->empty(); i++)
        {
            SIM_CHECK(i < 20000, "livelock", "size() still %zu after 20000 calls of process_events", s->size());
            s->process_events(sim::chance(1, 2) ? 0ms : 1ms);
            if (sim::chance(1, 3)) sim::sleep_ns(100'000);
        }
    }
    else
    {
        for (int i = 0; i < nd; i++) dr.add(drive);
        if (ns == 0) for (int k = 1 + sim::pick(4); k > 0; k--) spawn(c);
        for (int i = 0; i < ns; i++)
            cr.add([&, i] { for (int k = 1 + sim::pick(3); k > 0; k--) { submit(c, hs[i]); jitter(); } });
        cr.join();
        q([&] { *stop = true; });
        dr.join();
    }
    final_check(w, "although the scheduler is empty");
    SIM_CHECK(s->empty(), "size", "size() is %zu when idle", s->size());
    q([&] { w->shut = true; });
    s.reset();
    gone(w);
}

// Coroutines hop between two executors; the scheduler is destroyed as soon as the last one reported.
namespace
{
task<void> cross(thread_pool* tp, scheduler* s, latch* l, int n)
{
    co_await tp->schedule();
    for (int i = 0; i < n; i++) { co_await s->schedule(); co_await tp->schedule(); }
    co_await s->schedule();
    l->count_down();
}
task<void> wait_latch(latch* l) { co_await *l; }
}
SIM_SCENARIO("C15", sched_cross, 1)
{
    auto tp = thread_pool::make_unique(bed::popt(1 + sim::pick(2)));
    auto s  = bed::mksched(sim::chance(2, 3), 1);
    int  n  = 1 + sim::pick(3);
    latch l{n};
    for (int i = 0; i < n; i++) SIM_CHECK(tp->spawn_detached(cross(tp.get(), s.get(), &l, sim::skew(3))), "refused", "spawn refused");
    sync_wait(wait_latch(&l));
    s.reset(); // an executor outlives the tasks spawned on it, so the pool goes last
}

// With one executing thread work is taken in the order it was submitted, yielding goes to the end.
namespace
{
struct order { std::vector<int> want, got; };
task<void> hold(meet* m) { m->arrive(); co_return; }
task<void> ord(scheduler* s, order* o, int id, bool again)
{
    q([&] { o->got.push_back(id); });
    if (!again) co_return;
    q([&] { o->want.push_back(1000 + id); });
    if (id & 1) co_await s->yield();
    else co_await s->schedule();
    q([&] { o->got.push_back(1000 + id); });
}
}
SIM_SCENARIO("C15", sched_order, 1)
{
    auto        s = bed::mksched(sim::chance(1, 2), 1);
    auto        m = std::make_unique<meet>();
    host<order> o;
    auto        O = &*o;
    m->n          = 2;
    SIM_CHECK(s->spawn_detached(hold(m.get())), "refused", "spawn refused");
    if (sim::chance(1, 2)) sim::quiesce();
    std::vector<task<void>> own;
    int n = 2 + sim::pick(7);
    for (int i = 0; i < n; i++)
    {
        bool again = sim::chance(1, 3);
        q([&] { o->want.push_back(i); });
        int how = sim::pick(3);
        if (how == 0) SIM_CHECK(s->spawn_detached(ord(s.get(), O, i, again)), "refused", "spawn refused");
        else
        {
            own.push_back(ord(s.get(), O, i, again));
            std::vector<std::coroutine_handle<>> hs{own.back().handle()};
            if (how == 1) SIM_CHECK(s->resume(hs[0]), "refused", "resume refused");
            else
            {
                if (sim::chance(1, 2) && ++i < n)
                {
                    q([&] { o->want.push_back(i); });
                    own.push_back(ord(s.get(), O, i, false));
                    hs.push_back(own.back().handle());
                }
                SIM_CHECK(s->resume(hs) == hs.size(), "refused", "resume refused");
            }
        }
    }
    m->arrive();
    sim::quiesce();
    q([&] {
        SIM_CHECK(O->got.size() == O->want.size(), "lost-work", "%zu of %zu steps ran", O->got.size(), O->want.size());
        for (size_t i = 0; i < O->got.size(); i++)
            SIM_CHECK(O->got[i] == O->want[i], "order", "step %zu of a scheduler with one executing thread was %d, submitted was %d", i, O->got[i], O->want[i]);
    });
    SIM_CHECK(s->empty(), "size", "size() is %zu when idle", s->size());
    sim::sync_all();
    // nothing is left to do, so stopping does not have to wait for anything
    i64 t0 = sim::now(), st0 = sim::stalled();
    if (sim::chance(1, 2)) s->shutdown();
    s.reset();
    i64 el = sim::now() - t0;
    SIM_CHECK(el < 500'000'000 + 3 * (sim::slack() + sim::stalled() - st0), "slow-shutdown", "shutting an idle scheduler down took %lld us", (long long)el / 1000);
}
// A spawned task belongs to the scheduler until it has finished, wherever it is suspended meanwhile.
namespace
{
task<void> away(scheduler* s, event* e, int* done, bool back)
{
    if (sim::chance(1, 2)) co_await s->yield();
    co_await *e;
    if (back) co_await s->schedule();
    q([&] { ++*done; });
    if (sim::chance(1, 4)) throw std::runtime_error("the task fails");
}
}
SIM_SCENARIO("C15", sched_spawned, 1)
{
    auto      s  = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    auto      ev = std::make_unique<std::array<event, 4>>();
    host<int> done;
    auto      D = &*done;
    int       n = 1 + sim::pick(4);
    bool      early = sim::chance(1, 2); // shutdown waits for them
    for (int i = 0; i < n; i++) SIM_CHECK(s->spawn_detached(away(s.get(), &(*ev)[i], D, !early && sim::chance(1, 2))), "refused", "spawn_detached refused");
    crew c;
    if (early) c.add([&] {
        jitter();
        s->shutdown();
        q([&] { SIM_CHECK(*D == n, "shutdown-early", "shutdown returned while %d of %d spawned tasks had finished", *D, n); });
    });
    for (int i = 0; i < n; i++)
    {
        if (!early && sim::chance(1, 2)) sim::quiesce();
        jitter();
        if (!early)
        {
            size_t z = s->size();
            SIM_CHECK((int)z >= n - i, "size", "size() is %zu while %d spawned tasks have not finished", z, n - i);
        }
        (*ev)[i].set();
    }
    c.join();
    sim::quiesce();
    q([&] { SIM_CHECK(*D == n, "lost-work", "%d of %d spawned tasks finished", *D, n); });
    SIM_CHECK(s->empty(), "size", "size() is %zu when idle", s->size());
    sim::sync_all();
}
