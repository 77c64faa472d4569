// C13: thread pool. Real thread_pool, task, sync_wait, when_all, task_group(joinable); simulated threads and clock.
#include "sc.hpp"
using namespace sc;

namespace
{
struct unit { int ran = 0; int accepted = -1; bool joinable = false; bool outside = false; }; // accepted: -1 unknown, 0 refused, 1 accepted
struct world
{
    std::vector<unit>     u;
    std::vector<int>      starts, stops;
    std::vector<int>      wtid;      // worker index -> thread id
    bool                  shut = false;     // shutdown() has been called
    bool                  shut_done = false;
    int                   add() { sim::quiet g; u.emplace_back(); return (int)u.size() - 1; }
    bool                  is_worker(int t) { return std::find(wtid.begin(), wtid.end(), t) != wtid.end(); }
};
struct ctx { thread_pool* tp; world* w; int depth = 0; };

void check_worker(world* w, const char* what)
{
    sim::quiet g;
    SIM_CHECK(w->is_worker(sim::tid()), "wrong-thread", "%s resumed on T%d which is no worker of the pool", what, sim::tid());
    SIM_CHECK(!w->shut_done, "late-run", "%s resumed after shutdown() returned", what);
}
void ran(world* w, int id)
{
    sim::quiet g;
    w->u[id].ran++;
    sim::mix(id);
    SIM_CHECK(w->u[id].ran == 1, "ran-twice", "work %d ran %d times", id, w->u[id].ran);
}
task<void> body(ctx c, int id, int yields);
// submission of one piece of work from wherever the caller runs; synchronous kinds may block the caller
void submit_async(ctx c)
{
    int id = c.w->add();
    int y  = sim::skew(3);
    int ok = c.tp->spawn_detached(body(ctx{c.tp, c.w, c.depth + 1}, id, y));
    sim::quiet g;
    c.w->u[id].accepted = ok;
    if (!ok) SIM_CHECK(c.w->shut, "refused", "spawn_detached refused although shutdown was never requested");
}
// a coroutine is executing on a worker right now
void executing(ctx c)
{
    size_t n = c.tp->size();
    SIM_CHECK(n > 0, "size", "size() is 0 while a worker executes a coroutine");
}
task<void> body(ctx c, int id, int yields)
{
    check_worker(c.w, "spawned task");
    ran(c.w, id);
    if (sim::chance(1, 4)) executing(c);
    for (int i = 0; i < yields; i++)
    {
        bool before = q([&] { return c.w->shut; });
        bool threw = false;
        try
        {
            if (sim::chance(1, 2)) co_await c.tp->yield();
            else co_await c.tp->schedule();
        }
        catch (const std::runtime_error&) { threw = true; }
        check_worker(c.w, "yielding task");
        if (threw) { SIM_CHECK(q([&] { return c.w->shut; }), "refused", "yield refused although shutdown was never requested"); break; }
        (void)before;
        jitter();
    }
    if (c.depth < 2 && sim::chance(1, 4)) submit_async(c);
    if (sim::chance(1, 8)) throw std::runtime_error("the task fails"); // nobody hears it, nothing else may change
    co_return;
}
task<int> valued(ctx c, int id, int v)
{
    check_worker(c.w, "scheduled task");
    ran(c.w, id);
    sim::point();
    co_return v;
}
task<void> hop(ctx c, int id, int n)
{
    for (int i = 0; i < n; i++)
    {
        co_await c.tp->schedule();
        check_worker(c.w, "hopping task");
        executing(c);
        jitter();
    }
    ran(c.w, id);
}
// blocking submissions made by an ordinary thread
void submit_sync(ctx c)
{
    int id = c.w->add();
    switch (sim::pick(3))
    {
        case 0:
        {
            int v = 1 + sim::pick(1000), r = -1;
            try { r = sync_wait(c.tp->schedule(valued(c, id, v))); }
            catch (const std::runtime_error&) { r = -2; }
            sim::quiet g;
            c.w->u[id].accepted = r != -2;
            SIM_CHECK(r == -2 || r == v, "wrong-value", "schedule(task) returned %d instead of %d", r, v);
            if (r == v) SIM_CHECK(c.w->u[id].ran == 1, "not-run", "schedule(task) returned before the task ran");
            if (r == -2) SIM_CHECK(c.w->shut, "refused", "schedule(task) refused although shutdown was never requested");
            break;
        }
        case 1:
        {
            bool threw = false;
            try { sync_wait(hop(c, id, 1 + sim::skew(3))); }
            catch (const std::runtime_error&) { threw = true; }
            sim::quiet g;
            c.w->u[id].accepted = threw ? 0 : 1;
            if (threw) SIM_CHECK(c.w->shut, "refused", "schedule() refused although shutdown was never requested");
            break;
        }
        default:
        {
            q([&] { c.w->u[id].joinable = true; });
            auto j = c.tp->spawn_joinable(body(ctx{c.tp, c.w, 1}, id, sim::skew(3)));
            jitter();
            sync_wait(j);
            sim::quiet g;
            if (c.w->u[id].ran == 0) SIM_CHECK(c.w->shut, "join-early", "the join completed although the task did not run and the pool was not shut down");
            c.w->u[id].accepted = c.w->u[id].ran;
        }
    }
}
// what the pool says about itself while others use it
void observe(ctx c)
{
    std::vector<int> pend;
    q([&] { for (size_t i = 0; i < c.w->u.size(); i++) if (c.w->u[i].accepted == 1 && !c.w->u[i].ran) pend.push_back((int)i); });
    size_t s = c.tp->size(), qs = c.tp->queue_size();
    q([&] {
        size_t still = 0;
        for (int i : pend) still += !c.w->u[i].ran;
        SIM_CHECK(s >= still, "size", "size() is %zu while %zu accepted tasks have not run", s, still);
        SIM_CHECK(qs <= 1000, "queue-size", "queue_size() is %zu", qs);
        pend = {};
    });
}
struct held { std::vector<task<void>> ts; };
task<void> nothing() { co_return; }
// resume(handle) and resume(range): the tasks stay owned by the submitting thread until the end of the run
void submit_handles(ctx c, held& h)
{
    if (sim::chance(1, 4))
    {
        // nothing, or something that is finished already, is no work
        SIM_CHECK(!c.tp->resume(nullptr), "resume-count", "resume accepted no coroutine at all");
        auto t = nothing();
        t.resume();
        SIM_CHECK(!c.tp->resume(t.handle()), "resume-count", "resume accepted a coroutine that is done");
    }
    if (sim::chance(1, 2))
    {
        int id = c.w->add();
        h.ts.push_back(body(ctx{c.tp, c.w, 1}, id, sim::skew(3)));
        bool ok = c.tp->resume(h.ts.back().handle());
        sim::quiet g;
        c.w->u[id].accepted = ok;
        if (!ok) SIM_CHECK(c.w->shut, "refused", "resume refused although shutdown was never requested");
    }
    else
    {
        int n = 1 + sim::pick(4);
        std::vector<std::coroutine_handle<>> hs;
        std::vector<int> ids;
        for (int i = 0; i < n; i++)
        {
            if (sim::chance(1, 4)) { hs.push_back(nullptr); continue; }
            int id = c.w->add();
            ids.push_back(id);
            h.ts.push_back(body(ctx{c.tp, c.w, 1}, id, sim::skew(3)));
            hs.push_back(h.ts.back().handle());
        }
        size_t r = c.tp->resume(hs);
        sim::quiet g;
        SIM_CHECK(r == ids.size() || (c.w->shut && r == 0), "resume-count", "resume(range) of %zu live handles reported %zu", ids.size(), r);
        for (int id : ids) c.w->u[id].accepted = r ? 1 : 0;
    }
}
} // namespace

SIM_SCENARIO("C13", pool_work, 3)
{
    int         nt = 1 + sim::pick(3);
    host<world> W;
    world*      w = W.p;
    q([&] { w->starts.resize(nt); w->stops.resize(nt); w->wtid.assign(nt, -1); });
    auto tp = thread_pool::make_unique(thread_pool::options{
        .thread_count            = (uint32_t)nt,
        .on_thread_start_functor = [w](std::size_t i) { sim::quiet g; SIM_CHECK(i < w->starts.size() && ++w->starts[i] == 1, "thread-start", "worker %zu started twice or out of range", i); w->wtid[i] = sim::tid(); },
        .on_thread_stop_functor  = [w](std::size_t i) { sim::quiet g; SIM_CHECK(++w->stops[i] == 1 && w->wtid[i] == sim::tid(), "thread-stop", "worker %zu stopped wrongly", i); }});
    ctx  c{tp.get(), w, 0};
    int  nsub  = 1 + sim::pick(3);
    bool racy  = sim::chance(2, 3); // shutdown races the submitters
    bool pre   = !racy && sim::chance(1, 2);
    SIM_CHECK(tp->thread_count() == (size_t)nt, "thread-count", "%zu", tp->thread_count());
    std::vector<held> hs(nsub);
    crew cr;
    for (int s = 0; s < nsub; s++)
        cr.add([&, s] {
            int k = 1 + sim::pick(4);
            for (int i = 0; i < k; i++)
            {
                int r = sim::pick(5);
                if (r < 2) submit_async(c);
                else if (r < 4) submit_sync(c);
                else submit_handles(c, hs[s]);
                jitter();
                if (sim::chance(1, 4)) observe(c);
            }
        });
    auto shut = [&] {
        q([&] { w->shut = true; });
        tp->shutdown();
        {
            sim::quiet g;
            w->shut_done = true;
            for (int i = 0; i < nt; i++)
            {
                SIM_CHECK(w->wtid[i] < 0 || !sim::tid_exists(w->wtid[i]), "not-joined", "worker %d still exists after shutdown() returned", i);
                SIM_CHECK(w->starts[i] == 1 && w->stops[i] == 1, "thread-hooks", "worker %d start/stop functors ran %d/%d times", i, w->starts[i], w->stops[i]);
            }
            for (size_t i = 0; i < w->u.size(); i++)
                if (w->u[i].accepted == 1) SIM_CHECK(w->u[i].ran == 1, "lost-work", "work %zu was accepted but had not run when shutdown() returned", i);
        }
        SIM_CHECK(tp->is_shutdown(), "is-shutdown", "is_shutdown() false after shutdown()");
    };
    if (racy)
    {
        if (sim::chance(1, 2)) for (int i = sim::pick(60); i > 0; i--) sim::point();
        shut();
        cr.join();
    }
    else
    {
        cr.join();
        if (pre)
        {
            // liveness: all accepted work finishes and size returns to zero without any further stimulus
            sim::quiesce();
            sim::quiet g;
            for (size_t i = 0; i < w->u.size(); i++)
                SIM_CHECK(w->u[i].accepted != 1 || w->u[i].ran == 1, "stuck-work", "work %zu accepted but never run although every thread is idle", i);
            SIM_CHECK(tp->size() == 0 && tp->empty(), "size", "size() is %zu when idle", tp->size());
            SIM_CHECK(tp->queue_empty(), "queue-size", "queue not empty when idle");
        }
        if (sim::chance(1, 2)) shut();
    }
    bool explicit_shut = q([&] { return w->shut; });
    if (explicit_shut)
    {
        SIM_CHECK(tp->size() == 0, "size", "size() is %zu after shutdown", tp->size());
        // later submissions are refused visibly
        int id = w->add();
        bool threw = false;
        switch (sim::pick(4))
        {
            case 0: threw = !tp->spawn_detached(body(c, id, 0)); break;
            case 1: { auto t = body(c, id, 0); threw = !tp->resume(t.handle()); break; }
            case 2: { auto t = body(c, id, 0); std::vector<std::coroutine_handle<>> v{t.handle()}; threw = tp->resume(v) == 0; break; }
            default: try { sync_wait(hop(c, id, 1)); } catch (const std::runtime_error&) { threw = true; }
        }
        SIM_CHECK(threw, "accepted-after-shutdown", "work submitted after shutdown() was reported as accepted");
        SIM_CHECK(tp->size() == 0, "size", "size() is %zu after refused work", tp->size());
    }
    else q([&] { w->shut = true; });
    tp.reset();
    sim::quiet g;
    for (size_t i = 0; i < w->u.size(); i++)
    {
        auto& u = w->u[i];
        if (u.accepted == 1) SIM_CHECK(u.ran == 1, "lost-work", "work %zu was accepted but never run", i);
        if (u.accepted == 0) SIM_CHECK(u.ran == 0, "half-run", "work %zu was refused but ran", i);
    }
}

// Only coroutines resident on the pool generate work while the destructor runs.
SIM_SCENARIO("C13", pool_destroy, 1)
{
    int         nt = 1 + sim::pick(3);
    host<world> W;
    world*      w = W.p;
    q([&] { w->starts.resize(nt); w->stops.resize(nt); w->wtid.assign(nt, -1); });
    auto tp = thread_pool::make_unique(thread_pool::options{
        .thread_count            = (uint32_t)nt,
        .on_thread_start_functor = [w](std::size_t i) { sim::quiet g; w->wtid[i] = sim::tid(); },
        .on_thread_stop_functor  = nullptr});
    ctx c{tp.get(), w, 0};
    int k = 1 + sim::pick(6);
    for (int i = 0; i < k; i++) submit_async(c);
    jitter();
    q([&] { w->shut = true; });
    tp.reset();
    sim::quiet g;
    w->shut_done = true;
    for (int i = 0; i < nt; i++) SIM_CHECK(!sim::tid_exists(w->wtid[i]), "not-joined", "worker %d still exists after destruction", i);
    for (size_t i = 0; i < w->u.size(); i++)
        SIM_CHECK(w->u[i].ran == (w->u[i].accepted == 1), "lost-work", "work %zu accepted=%d ran=%d", i, w->u[i].accepted, w->u[i].ran);
}

// Work is taken by any idle worker: as many tasks as there are workers can wait for each other.
namespace
{
task<void> meet_task(meet* b) { jitter(); b->arrive(); co_return; }
task<void> meet_hop(thread_pool* tp, meet* b) { co_await tp->schedule(); jitter(); b->arrive(); }
}
SIM_SCENARIO("C13", pool_parallel, 1)
{
    int  nt = 2 + sim::pick(3);
    auto tp = thread_pool::make_unique(bed::popt(nt));
    auto b  = std::make_unique<meet>();
    if (sim::chance(1, 2)) sim::quiesce();
    for (int round = 1 + sim::pick(2); round > 0; round--)
    {
        { std::scoped_lock lk{b->m}; b->n += nt; }
        std::vector<task<void>> own;
        crew c;
        int  left = nt;
        auto t = tp.get();
        auto m = b.get();
        while (left > 0)
        {
            switch (sim::pick(3))
            {
                case 0: SIM_CHECK(tp->spawn_detached(meet_task(m)), "refused", "spawn_detached refused"); left--; break;
                case 1: c.add([t, m] { sync_wait(meet_hop(t, m)); }); left--; break;
                default:
                {
                    int k = 1 + sim::pick(left);
                    std::vector<std::coroutine_handle<>> hs;
                    for (int i = 0; i < k; i++) { own.push_back(meet_task(m)); hs.push_back(own.back().handle()); }
                    SIM_CHECK(tp->resume(hs) == (size_t)k, "refused", "resume refused");
                    left -= k;
                }
            }
            jitter();
        }
        c.join();
        sim::quiesce();
        q([&] { SIM_CHECK(m->in >= m->n, "stuck-work", "%d of %d tasks that wait for each other run on a pool of %d threads", m->in, m->n, nt); });
        sim::sync_all();
    }
    SIM_CHECK(tp->size() == 0, "size", "size() is %zu when idle", tp->size());
    tp->shutdown();
}
// One worker takes work in the order it was accepted, and a yielding task goes to the end.
namespace
{
struct order { std::vector<int> want, got; };
task<void> ord_task(thread_pool* tp, order* o, int id, bool again)
{
    q([&] { o->got.push_back(id); });
    if (!again) co_return;
    q([&] { o->want.push_back(1000 + id); });
    co_await tp->yield();
    q([&] { o->got.push_back(1000 + id); });
}
}
SIM_SCENARIO("C13", pool_order, 1)
{
    auto        tp = thread_pool::make_unique(bed::popt(1));
    auto        b  = std::make_unique<meet>();
    host<order> o;
    auto        O = &*o;
    q([&] { b->n = 2; });
    // the worker is held until everything is queued
    SIM_CHECK(tp->spawn_detached(meet_task(b.get())), "refused", "spawn_detached refused");
    std::vector<task<void>> own;
    int n = 2 + sim::pick(6);
    for (int i = 0; i < n; i++)
    {
        bool again = sim::chance(1, 3);
        q([&] { o->want.push_back(i); });
        if (sim::chance(1, 2)) SIM_CHECK(tp->spawn_detached(ord_task(tp.get(), O, i, again)), "refused", "spawn_detached refused");
        else if (sim::chance(1, 2)) { own.push_back(ord_task(tp.get(), O, i, again)); SIM_CHECK(tp->resume(own.back().handle()), "refused", "resume refused"); }
        else
        {
            own.push_back(ord_task(tp.get(), O, i, again));
            std::vector<std::coroutine_handle<>> hs{own.back().handle()};
            if (sim::chance(1, 2) && ++i < n)
            {
                q([&] { o->want.push_back(i); });
                own.push_back(ord_task(tp.get(), O, i, false));
                hs.push_back(own.back().handle());
            }
            SIM_CHECK(tp->resume(hs) == hs.size(), "refused", "resume refused");
        }
    }
    b->arrive();
    sim::quiesce();
    q([&] {
        SIM_CHECK(O->got.size() == O->want.size(), "stuck-work", "%zu of %zu steps ran", O->got.size(), O->want.size());
        for (size_t i = 0; i < O->got.size(); i++)
            SIM_CHECK(O->got[i] == O->want[i], "order", "step %zu of a pool with one thread was %d, queued was %d", i, O->got[i], O->want[i]);
    });
    sim::sync_all();
    tp->shutdown();
}
// A spawned task belongs to the pool until it has finished, wherever it is suspended meanwhile.
namespace
{
task<void> away(thread_pool* tp, event* e, int* done, bool back)
{
    if (sim::chance(1, 2)) co_await tp->yield();
    co_await *e;
    if (back) co_await tp->schedule();
    q([&] { ++*done; });
    if (sim::chance(1, 4)) throw std::runtime_error("the task fails");
}
}
SIM_SCENARIO("C13", pool_spawned, 1)
{
    auto      tp = thread_pool::make_unique(bed::popt(1 + sim::pick(3)));
    auto      ev = std::make_unique<std::array<event, 4>>();
    host<int> done;
    auto      D = &*done;
    int       n = 1 + sim::pick(4);
    for (int i = 0; i < n; i++) SIM_CHECK(tp->spawn_detached(away(tp.get(), &(*ev)[i], D, sim::chance(1, 2))), "refused", "spawn_detached refused");
    crew c;
    for (int i = 0; i < n; i++)
    {
        if (sim::chance(1, 2)) sim::quiesce();
        int    d = q([&] { return *D; });
        size_t s = tp->size();
        SIM_CHECK((int)s >= n - i, "size", "size() is %zu while %d spawned tasks have not finished", s, n - i);
        (void)d;
        auto e = &(*ev)[i];
        if (sim::chance(1, 2)) e->set();
        else { c.add([e] { e->set(); }); c.join(); }
    }
    sim::quiesce();
    q([&] { SIM_CHECK(*D == n, "stuck-work", "%d of %d spawned tasks finished", *D, n); });
    SIM_CHECK(tp->size() == 0 && tp->empty(), "size", "size() is %zu when idle", tp->size());
    sim::sync_all();
    tp->shutdown();
}
