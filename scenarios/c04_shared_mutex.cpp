// C04: shared mutex
#include "sc.hpp"
#include <stdexcept>
using namespace sc;
namespace
{
struct boom { int id; };
struct data { u64 v[2]; };
struct world
{
    bed b;
    std::unique_ptr<thread_pool> own; // executor of the mutex when the clients run on plain threads
    int readers = 0, writer = -1, finished = 0;
    u64 writes = 0;
};
void enter(world* w, bool ex, int me)
{
    q([&] {
        SIM_CHECK(w->writer == -1, "exclusion", "task %d was granted %s while task %d holds it exclusively", me, ex ? "exclusively" : "shared", w->writer);
        if (ex)
        {
            SIM_CHECK(w->readers == 0, "exclusion", "task %d was granted exclusively while %d share it", me, w->readers);
            w->writer = me;
            w->writes++;
        }
        else w->readers++;
        sim::mix(me * 2 + ex);
    });
}
void leave(world* w, bool ex)
{
    q([&] { if (ex) w->writer = -1; else w->readers--; });
}
task<void> body(world* w, data* d, bool ex, bool pause)
{
    if (ex)
    {
        u64 x   = d->v[0];
        d->v[0] = x + 1;
        jitter();
        if (pause) co_await w->b.breathe();
        d->v[1] = d->v[1] + 1;
    }
    else
    {
        u64 x = d->v[0];
        jitter();
        if (pause) co_await w->b.breathe();
        SIM_CHECK(x == d->v[1] && x == d->v[0], "torn-read", "a shared section saw an exclusive section in progress");
        q([&] { SIM_CHECK(x == w->writes, "stale-read", "a shared section does not see all earlier exclusive sections"); });
    }
}
task<void> section(world* w, data* d, bool ex, int me, bool pause, bool thr)
{
    enter(w, ex, me);
    co_await body(w, d, ex, pause);
    leave(w, ex);
    if (thr) throw boom{me};
}
template<typename M> task<void> client(world* w, M& m, data* d, int me, std::vector<std::array<int, 2>> ops)
{
    for (auto [o, f] : ops)
    {
        jitter();
        bool pause = f & 1;
        switch (o)
        {
            case 0: co_await m.lock(); co_await section(w, d, true, me, pause, false); co_await m.unlock(); break;
            case 1: co_await m.lock_shared(); co_await section(w, d, false, me, pause, false); co_await m.unlock_shared(); break;
            case 2: if (m.try_lock()) { co_await section(w, d, true, me, pause, false); co_await m.unlock(); } break;
            case 3: if (m.try_lock_shared()) { co_await section(w, d, false, me, pause, false); co_await m.unlock_shared(); } break;
            case 4: case 5:
            {
                bool thr = f & 2, caught = false;
                try
                {
                    if (o == 4) co_await m.scoped_lock(section(w, d, true, me, pause, thr)); else co_await m.scoped_lock_shared(section(w, d, false, me, pause, thr));
                }
                catch (const boom& b) { caught = b.id == me; }
                SIM_CHECK(caught == thr, "exception", "the scoped task's exception was not delivered");
                break;
            }
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
template<typename X> void contend(world* w, std::unique_ptr<X>& ex)
{
    int nc = 2 + sim::pick(4);
    std::vector<std::vector<std::array<int, 2>>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(5), style = sim::pick(4);
        for (int i = 0; i < n; i++)
        {
            int o = style == 0 ? 1 : style == 1 ? (int)sim::pick(2) : (int)sim::pick(7);
            p.push_back({o, (int)sim::pick(4)});
        }
    }
    data* d = new data{};
    {
        shared_mutex<X> m(ex);
        std::vector<std::function<task<void>()>> fs;
        for (int i = 0; i < nc; i++) fs.push_back([w, &m, d, i, &p = prog[i]] { return client(w, m, d, i, p); });
        w->b.run(fs);
        SIM_CHECK(d->v[0] == q([&] { return w->writes; }), "lost-update", "an exclusive section's write was lost");
        SIM_CHECK(m.try_lock(), "not-released", "still locked after everybody released it");
        SIM_CHECK(!m.try_lock() && !m.try_lock_shared(), "exclusion", "granted twice");
        sync_wait(m.unlock());
    }
    delete d;
}

// ---- one request or release at a time, compared with a small model after each: who holds, who waits
struct who { bool ex; bool done = false; bool granted = false; bool released = false; };
struct model
{
    std::vector<who> c;
    std::vector<int> queue, holders;
    bool ex_held() const { return !holders.empty() && c[holders[0]].ex; }
    bool can(bool ex) const { return ex ? holders.empty() : !ex_held() && queue.empty(); }
    void pump()
    {
        while (!queue.empty())
        {
            bool ex = c[queue[0]].ex;
            if (ex ? !holders.empty() : ex_held()) break;
            holders.push_back(queue[0]);
            queue.erase(queue.begin());
            if (ex) break;
        }
    }
};
template<typename X> void lockstep(world* w, std::unique_ptr<X>& ex)
{
    host<model> mod;
    int steps = 3 + sim::skew(10);
    std::vector<std::unique_ptr<event>> gates;
    for (int i = 0; i < steps + 1; i++) gates.push_back(std::make_unique<event>());
    {
        shared_mutex<X> m(ex);
        crew            c;
        struct R
        {
            static task<void> hold(world* w, shared_mutex<X>& m, model* mod, int i, bool ex, event& gate, bool scoped)
            {
                if (w->b.tp) co_await w->b.tp->schedule();
                if (w->b.sch) co_await w->b.sch->schedule();
                if (scoped)
                {
                    if (ex) co_await m.scoped_lock(in(w, mod, i, ex, gate)); else co_await m.scoped_lock_shared(in(w, mod, i, ex, gate));
                }
                else if (ex) { co_await m.lock(); co_await in(w, mod, i, ex, gate); co_await m.unlock(); }
                else { co_await m.lock_shared(); co_await in(w, mod, i, ex, gate); co_await m.unlock_shared(); }
                q([&] { mod->c[i].done = true; });
            }
            static task<void> in(world* w, model* mod, int i, bool ex, event& gate)
            {
                enter(w, ex, i);
                q([&] { mod->c[i].granted = true; });
                co_await gate;
                leave(w, ex);
            }
        };
        auto compare = [&] {
            sim::quiesce();
            q([&] {
                for (int i = 0; i < (int)mod->c.size(); i++)
                {
                    bool waiting = std::find(mod->queue.begin(), mod->queue.end(), i) != mod->queue.end();
                    SIM_CHECK(mod->c[i].granted == !waiting, waiting ? "overtaken" : "not-granted", "request %d (%s) %s", i, mod->c[i].ex ? "exclusive" : "shared",
                              waiting ? "was granted ahead of earlier or conflicting ones" : "waits although nothing conflicting is ahead of it");
                    SIM_CHECK(!mod->c[i].released || mod->c[i].done, "unlock-stuck", "a release does not complete");
                }
            });
        };
        for (int s = 0; s < steps; s++)
        {
            int o = sim::pick(8);
            if (o < 5 || q([&] { return mod->holders.empty(); }))
            {
                bool e = sim::chance(2, 5), scoped = sim::chance(1, 3);
                int  i = q([&] {
                    mod->c.push_back({e});
                    int i = (int)mod->c.size() - 1;
                    mod->queue.push_back(i);
                    bool ok = mod->queue.size() == 1 && (e ? mod->holders.empty() : !mod->ex_held());
                    if (ok) { mod->queue.clear(); mod->holders.push_back(i); }
                    return i;
                });
                c.add([&, i, e, scoped] { sync_wait(R::hold(w, m, mod.p, i, e, *gates[i], scoped)); });
            }
            else if (o == 5)
            {
                bool e    = sim::chance(1, 2);
                bool want = q([&] { return mod->can(e); });
                bool got;
                if (e) got = m.try_lock(); else got = m.try_lock_shared();
                SIM_CHECK(got == want, "try-lock", "try_lock%s() returned %d, should be %d", e ? "" : "_shared", got, want);
                if (got) { if (e) sync_wait(m.unlock()); else sync_wait(m.unlock_shared()); }
            }
            else
            {
                int h = q([&] {
                    int k = sim::pick((uint32_t)mod->holders.size());
                    int h = mod->holders[k];
                    mod->holders.erase(mod->holders.begin() + k);
                    mod->c[h].released = true;
                    mod->pump();
                    return h;
                });
                gates[h]->set();
            }
            compare();
        }
        while (q([&] { return !mod->holders.empty(); }))
        {
            int h = q([&] {
                int h = mod->holders[0];
                mod->holders.erase(mod->holders.begin());
                mod->c[h].released = true;
                mod->pump();
                return h;
            });
            gates[h]->set();
            compare();
        }
        c.join();
        SIM_CHECK(m.try_lock(), "not-released", "still locked after everybody released it");
        sync_wait(m.unlock());
    }
}
template<typename F> void with(world* w, F f)
{
    w->b.open_any(4, 4, 2, 1);
    if (w->b.tp) f(w->b.tp);
    else if (w->b.sch) f(w->b.sch);
    else
    {
        w->own = thread_pool::make_unique(bed::popt(1 + sim::pick(2)));
        f(w->own);
        w->own.reset();
    }
    w->b.tp.reset();
    w->b.sch.reset();
}
} // namespace
SIM_SCENARIO("C04", shared_mutex_contend, 2)
{
    host<world> W;
    with(W.p, [&](auto& ex) { contend(W.p, ex); });
}
SIM_SCENARIO("C04", shared_mutex_lockstep, 1)
{
    host<world> W;
    with(W.p, [&](auto& ex) { lockstep(W.p, ex); });
}
