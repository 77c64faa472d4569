// C03: mutex and its lock guard
#include "sc.hpp"
#include <optional>
#include <stdexcept>
using namespace sc;
namespace
{
constexpr int NM = 2;
struct world
{
    bed   b;
    mutex* m[NM]{};
    int   holder[NM] = {-1, -1};
    u64   grants[NM] = {0, 0};
    int   finished = 0;
};
struct data { u64 v[NM][2]; };
struct boom {};
// what a task does while it holds mutex k; leave() right before it lets go
void enter(world* w, int k, int me)
{
    q([&] {
        SIM_CHECK(w->holder[k] == -1, "exclusion", "task %d holds the mutex together with task %d", me, w->holder[k]);
        w->holder[k] = me;
        w->grants[k]++;
        sim::mix(me * 2 + k);
    });
}
void leave(world* w, int k, int me)
{
    q([&] {
        SIM_CHECK(w->holder[k] == me, "exclusion", "task %d is not the holder any more", me);
        w->holder[k] = -1;
    });
}
task<void> body(world* w, data* d, int k, bool pause)
{
    u64 x = d->v[k][0];
    jitter();
    d->v[k][0] = x + 1;
    if (pause) co_await w->b.breathe();
    d->v[k][1] = d->v[k][1] + 1;
    SIM_CHECK(d->v[k][0] == d->v[k][1], "lost-update", "a critical section was interleaved with another");
}
void expect_unlocked_guard(scoped_lock& g) { g.unlock(); } // a second unlock does nothing
scoped_lock pass(scoped_lock g) { return g; }
task<void> client(world* w, data* d, int me, std::vector<std::array<int, 3>> ops)
{
    for (auto [o, k, f] : ops)
    {
        jitter();
        bool pause = f & 1;
        switch (o)
        {
            case 0:
            {
                co_await w->m[k]->lock();
                enter(w, k, me);
                co_await body(w, d, k, pause);
                leave(w, k, me);
                w->m[k]->unlock();
                break;
            }
            case 1: // guard released by scope end
            {
                auto g = co_await w->m[k]->scoped_lock();
                enter(w, k, me);
                co_await body(w, d, k, pause);
                leave(w, k, me);
                break;
            }
            case 2: // explicit unlock, then scope end must not release again
            {
                auto g = co_await w->m[k]->scoped_lock();
                enter(w, k, me);
                co_await body(w, d, k, pause);
                leave(w, k, me);
                g.unlock();
                jitter();
                if (f & 2) expect_unlocked_guard(g);
                break;
            }
            case 3: // by an exception
            {
                try
                {
                    auto g = co_await w->m[k]->scoped_lock();
                    enter(w, k, me);
                    co_await body(w, d, k, pause);
                    leave(w, k, me);
                    throw boom{};
                }
                catch (const boom&) {}
                break;
            }
            case 4: // guard moved around
            {
                std::optional<scoped_lock> keep;
                {
                    auto g = co_await w->m[k]->scoped_lock();
                    enter(w, k, me);
                    keep.emplace(pass(std::move(g)));
                    if (f & 2) { scoped_lock h(std::move(*keep)); *keep = std::move(h); }
                }
                co_await body(w, d, k, pause);
                leave(w, k, me);
                if (f & 4) keep.reset();
                break;
            }
            case 5: // both mutexes; assigning a guard to one that holds another mutex releases that one
            {
                auto g0 = co_await w->m[0]->scoped_lock();
                enter(w, 0, me);
                co_await body(w, d, 0, pause);
                auto g1 = co_await w->m[1]->scoped_lock();
                enter(w, 1, me);
                co_await body(w, d, 1, false);
                leave(w, 0, me);
                g0 = std::move(g1);
                jitter();
                leave(w, 1, me);
                break;
            }
            case 6:
            {
                bool got = w->m[k]->try_lock();
                if (got)
                {
                    enter(w, k, me);
                    co_await body(w, d, k, pause);
                    leave(w, k, me);
                    if (f & 2) { scoped_lock g(*w->m[k], scoped_lock::lock_strategy::adopt); }
                    else w->m[k]->unlock();
                }
                break;
            }
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
} // namespace
SIM_SCENARIO("C03", mutex_clients, 1)
{
    host<world> W;
    world*      w = W.p;
    w->b.open_any(5, 3, 1, 2);
    int  nc  = 2 + sim::pick(4);
    bool two = sim::chance(1, 3);
    std::vector<std::vector<std::array<int, 3>>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(6), style = sim::pick(4);
        for (int i = 0; i < n; i++)
        {
            int o = style == 0 ? (int)sim::pick(2) : style == 1 ? 6 : (int)sim::pick(8);
            if (o == 5 && !two) o = 1;
            p.push_back({o, two ? (int)sim::pick(2) : 0, (int)sim::pick(8)});
        }
    }
    data* d = new data{};
    {
        mutex a, b;
        w->m[0] = &a;
        w->m[1] = &b;
        std::vector<std::function<task<void>()>> fs;
        for (int i = 0; i < nc; i++) fs.push_back([w, d, i, &p = prog[i]] { return client(w, d, i, p); });
        w->b.run(fs);
        for (int k = 0; k < NM; k++)
        {
            SIM_CHECK(d->v[k][0] == q([&] { return w->grants[k]; }), "lost-update", "%llu updates survived of %llu", (unsigned long long)d->v[k][0], (unsigned long long)w->grants[k]);
            SIM_CHECK(w->m[k]->try_lock(), "not-released", "the mutex is still locked after everybody released it");
            SIM_CHECK(!w->m[k]->try_lock(), "exclusion", "try_lock() succeeded on a locked mutex");
            w->m[k]->unlock();
            bool threw = false;
            try { w->m[k]->unlock(); } catch (const std::runtime_error&) { threw = true; }
            SIM_CHECK(threw, "double-unlock", "unlocking a free mutex was not refused");
        }
    }
    delete d;
    w->b.tp.reset();
    w->b.sch.reset();
}
