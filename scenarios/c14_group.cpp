// C14: task groups and joinable tasks on every executor.
#include "sc.hpp"
using namespace sc;

namespace
{
struct unit { int accepted = -1; bool began = false, ended = false, counted = false; };
struct world
{
    std::vector<unit> u;
    int  active    = 0; // definitely running: start() returned true and the body has not ended
    u64  last_zero = 0;
    bool shut = false, destroyed = false;
    u64  data[64] = {};
    int  add() { sim::quiet g; u.emplace_back(); return (int)u.size() - 1; }
    void begin(int id) { sim::quiet g; SIM_CHECK(!u[id].began, "ran-twice", "group task %d ran twice", id); SIM_CHECK(!destroyed, "late-run", "group task %d ran after the group was destroyed", id); u[id].began = true; }
    void end(int id)
    {
        sim::quiet g;
        SIM_CHECK(!destroyed, "late-run", "group task %d still ran after the group was destroyed", id);
        if (u[id].counted && --active == 0) last_zero = sim::seq();
        u[id].ended = true;
        sim::mix(id);
    }
    void started(int id, bool ok)
    {
        sim::quiet g;
        u[id].accepted = ok;
        if (!ok) { SIM_CHECK(shut, "refused", "start refused although the executor was not shut down"); SIM_CHECK(!u[id].began, "half-run", "refused task %d ran", id); return; }
        if (u[id].ended) return;
        if (active == 0) last_zero = sim::seq();
        active++;
        u[id].counted = true;
    }
};
template<typename E> struct run
{
    E* ex; task_group<E>* g; world* w;
    bool inl = false;
    static task<void> member(run* r, int id, int depth, int yields, bool thr)
    {
        r->w->begin(id);
        r->w->data[id & 63] = id + 1; // plain: must be visible to whoever joins
        for (int i = 0; i < yields; i++)
        {
            bool refused = false;
            try { co_await r->ex->yield(); } catch (const std::runtime_error&) { refused = true; }
            if (refused) { SIM_CHECK(q([&] { return r->w->shut; }), "refused", "yield refused without shutdown"); break; }
            jitter();
        }
        if (depth < 2 && sim::chance(1, 3)) start(r, depth + 1);
        if (depth < 2 && sim::chance(1, 4)) start(r, depth + 1);
        r->w->end(id);
        if (thr) throw std::runtime_error("member");
    }
    static task<void> make(run* r, int depth) { return member(r, r->w->add(), depth, sim::skew(3), sim::chance(1, 6)); }
    static void start(run* r, int depth)
    {
        int id = r->w->add();
        if (id >= 60) { r->w->started(id, false); return; }
        bool ok = r->g->start(member(r, id, depth, sim::skew(3), sim::chance(1, 6)));
        r->w->started(id, ok);
    }
    static task<void> wait(run* r, bool all_started)
    {
        u64 a = sim::seq();
        co_await *r->g;
        {
            sim::quiet g;
            SIM_CHECK(r->w->active == 0 || r->w->last_zero > a, "join-early", "waiting on the group ended while %d accepted tasks were still running", r->w->active);
            if (all_started)
                for (size_t i = 0; i < r->w->u.size(); i++)
                    if (r->w->u[i].accepted == 1 && !r->w->u[i].ended) sim::fail("join-early", "join completed but accepted task %zu has not finished", i);
        }
        if (all_started)
        {
            size_t n = q([&] { return r->w->u.size(); });
            for (size_t i = 0; i < n && i < 64; i++)
                if (q([&] { return r->w->u[i].accepted == 1; })) SIM_CHECK(r->w->data[i] == i + 1, "stale", "write of group task %zu not visible after the join", i);
        }
    }
};
template<typename E> void drive(std::unique_ptr<E>& ex, world* w, bool allow_shutdown)
{
    run<E> r{ex.get(), nullptr, w};
    std::unique_ptr<task_group<E>> g;
    switch (sim::pick(4))
    {
        case 0: g = std::make_unique<task_group<E>>(ex.get()); break;
        case 1: g = std::make_unique<task_group<E>>(ex); break;
        case 2:
        {
            // the task starts inside the constructor, it cannot use the group pointer yet
            int id = w->add();
            g = std::make_unique<task_group<E>>(ex, run<E>::member(&r, id, 9, sim::skew(3), false));
            w->started(id, true);
            break;
        }
        default:
        {
            std::vector<task<void>> v;
            std::vector<int> ids;
            for (int i = sim::pick(3); i >= 0; i--) { int id = w->add(); ids.push_back(id); v.push_back(run<E>::member(&r, id, 9, sim::skew(3), false)); }
            g = std::make_unique<task_group<E>>(ex.get(), std::move(v));
            for (int id : ids) w->started(id, true);
        }
    }
    r.g = g.get();
    crew cr;
    int  ns = 1 + sim::pick(2);
    for (int s = 0; s < ns; s++)
        cr.add([&] { for (int k = 1 + sim::pick(3); k > 0; k--) { run<E>::start(&r, 0); jitter(); } });
    int nw = sim::pick(3);
    for (int i = 0; i < nw; i++) cr.add([&] { sync_wait(run<E>::wait(&r, false)); });
    bool shut = allow_shutdown && sim::chance(1, 3);
    if (shut)
    {
        jitter();
        q([&] { w->shut = true; });
        ex->shutdown();
    }
    cr.join();
    int nj = sim::pick(3);
    for (int i = 0; i < nj; i++) cr.add([&] { sync_wait(run<E>::wait(&r, true)); });
    if (nj) { sync_wait(run<E>::wait(&r, true)); cr.join(); SIM_CHECK(g->empty(), "size", "size() is %zu after the join", g->size()); }
    // a second generation on the same group
    if (!shut && sim::chance(1, 2))
    {
        for (int k = 1 + sim::pick(2); k > 0; k--) run<E>::start(&r, 1);
        if (sim::chance(1, 2)) sync_wait(run<E>::wait(&r, true));
    }
    g.reset();
    q([&] {
        w->destroyed = true;
        for (size_t i = 0; i < w->u.size(); i++)
        {
            if (w->u[i].accepted == 1) SIM_CHECK(w->u[i].ended, "destroy-early", "the group was destroyed before accepted task %zu finished", i);
            if (w->u[i].accepted == 0) SIM_CHECK(!w->u[i].began, "half-run", "refused task %zu ran", i);
        }
    });
    ex.reset();
}
} // namespace
SIM_SCENARIO("C14", group_pool, 3)
{
    host<world> w;
    auto tp = thread_pool::make_unique(bed::popt(1 + sim::pick(3)));
    drive(tp, w.p, true);
}
SIM_SCENARIO("C14", group_sched, 2)
{
    host<world> w;
    auto s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    drive(s, w.p, false);
}

namespace
{
struct jw { int ran = 0, done = 0; u64 val = 0; };
template<typename E> task<void> jbody(E* ex, jw* w, int y, bool thr)
{
    q([&] { w->ran++; });
    for (int i = 0; i < y; i++) { co_await ex->yield(); sim::point(); }
    w->val = 7;
    q([&] { w->done++; });
    if (thr) throw std::runtime_error("joinable");
}
template<typename E> task<void> jjoin(E* ex, jw* w, task<void> j)
{
    if (sim::chance(1, 2)) co_await ex->schedule();
    co_await j;
    q([&] { SIM_CHECK(w->done == 1, "join-early", "join completed but the task %s", w->ran ? "is still running" : "never ran"); });
    SIM_CHECK(w->val == 7, "stale", "write of the joined task not visible");
}
template<typename E> void joins(std::unique_ptr<E>& ex)
{
    int n = 1 + sim::pick(3);
    host<std::vector<jw>> W;
    q([&] { W->resize(n); });
    crew cr;
    for (int i = 0; i < n; i++)
        cr.add([&, i] {
            jw* w = &(*W)[i];
            auto j = ex->spawn_joinable(jbody(ex.get(), w, sim::skew(3), sim::chance(1, 5)));
            jitter();
            if (sim::chance(3, 4)) sync_wait(jjoin(ex.get(), w, std::move(j)));
            else
            {
                { auto dropped = std::move(j); } // never awaited: the destructor joins
                q([&] { SIM_CHECK(w->done == 1, "join-early", "dropped join returned before the task finished"); });
                SIM_CHECK(w->val == 7, "stale", "write of the joined task not visible");
            }
        });
    cr.join();
    ex.reset();
    q([&] { for (auto& w : *W) SIM_CHECK(w.ran == 1 && w.done == 1, "ran-twice", "joinable task ran %d times", w.ran); });
}
}
SIM_SCENARIO("C14", joinable_pool, 1) { auto e = thread_pool::make_unique(bed::popt(1 + sim::pick(3))); joins(e); }
SIM_SCENARIO("C14", joinable_sched, 1) { auto e = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2)); joins(e); }
