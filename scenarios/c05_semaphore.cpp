// C05: semaphore
#include "sc.hpp"
using namespace sc;
namespace
{
using res = semaphore_acquire_result;
struct hold { u64 a = INF, z = INF; };
struct world
{
    bed  b;
    i64  total = 0, max = 0;
    int  held = 0, waiting = 0, finished = 0, releasing = 0;
    std::vector<hold> holds;
    u64  sd_inv = INF, sd_end = INF;
    bool cut = false;
};
struct data { u64 v[16]; };
int granted(world* w)
{
    return q([&] {
        w->held++;
        SIM_CHECK(w->held <= w->total, "over-grant", "%d permits are held but only %lld exist", w->held, (long long)w->total);
        w->holds.emplace_back();
        w->holds.back().a = sim::seq();
        return (int)w->holds.size() - 1;
    });
}
template<typename S> task<void> client(world* w, S& s, std::vector<std::array<int, 2>> ops, data* d)
{
    for (auto [o, f] : ops)
    {
        if (q([&] { return w->cut; })) break;
        jitter();
        switch (o)
        {
            case 0: case 1:
            {
                int  h   = -1;
                u64  a   = now_seq();
                bool got = false;
                if (o == 0)
                {
                    q([&] { w->waiting++; });
                    auto r = co_await s.acquire();
                    q([&] {
                        w->waiting--;
                        SIM_CHECK(r == res::acquired || r == res::shutdown, "wrong-result", "acquire() returned %d", (int)r);
                        SIM_CHECK(r != res::shutdown || w->sd_inv < sim::seq(), "wrong-result", "acquire() reported a shutdown nobody asked for");
                    });
                    got = r == res::acquired;
                }
                else got = s.try_acquire();
                if (got)
                {
                    SIM_CHECK(a < q([&] { return w->sd_end; }), "after-shutdown", "%s succeeded after the semaphore was shut down", o ? "try_acquire()" : "acquire()");
                    h = granted(w);
                    sim::mix(h);
                    if (q([&] { return w->max; }) == 1)
                    {
                        // a binary semaphore orders its sections
                        u64 x   = d->v[0];
                        jitter();
                        d->v[0] = x + 1;
                    }
                    if (f & 1) co_await w->b.breathe();
                    if (f & 2) co_await w->b.breathe();
                    q([&] { w->held--; w->holds[h].z = sim::seq(); w->releasing++; });
                    co_await s.release();
                    q([&] { w->releasing--; });
                }
                break;
            }
            case 2:
            {
                u64 a = now_seq();
                i64 v = s.value();
                q([&] {
                    u64 z    = sim::seq();
                    int sure = 0;
                    for (auto& h : w->holds) sure += h.a < a && h.z > z;
                    SIM_CHECK(v >= 0 && v <= w->max, "value-range", "value() is %lld", (long long)v);
                    SIM_CHECK(v <= w->total - sure, "value-range", "value() is %lld while %d of %lld permits are held", (long long)v, sure, (long long)w->total);
                });
                break;
            }
            case 3:
            {
                // add a permit that was never acquired, as long as that keeps within the maximum
                bool can = q([&] { if (w->total >= w->max) return false; w->total++; w->releasing++; return true; });
                if (can) { co_await s.release(); q([&] { w->releasing--; }); }
                break;
            }
            case 4:
            {
                q([&] { if (w->sd_inv == INF) w->sd_inv = sim::seq(); });
                co_await s.shutdown();
                SIM_CHECK(s.is_shutdown(), "is-shutdown", "is_shutdown() false after shutdown()");
                q([&] { if (w->sd_end == INF) w->sd_end = sim::seq(); });
                break;
            }
            case 5: if (s.is_shutdown()) SIM_CHECK(q([&] { return w->sd_inv < sim::seq(); }), "is-shutdown", "is_shutdown() true before shutdown()"); break;
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
template<std::ptrdiff_t M> void run(world* w)
{
    using S  = semaphore<M>;
    w->max   = M;
    w->total = sim::pick(M + 1);
    int  mode = sim::pick(4); // 0,1: no shutdown; 2: a client shuts down; 3: destroyed under waiters
    bool mint = w->total < M && sim::chance(1, 2);
    int  nc   = 2 + sim::pick(4);
    std::vector<std::vector<std::array<int, 2>>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(6), style = sim::pick(3);
        for (int i = 0; i < n; i++)
        {
            int r = sim::pick(10), o;
            if (style == 0) o = 0;
            else o = r < 5 ? 0 : r < 7 ? 1 : r == 7 ? 2 : r == 8 ? (mint ? 3 : 5) : 6;
            p.push_back({o, (int)sim::pick(4)});
        }
    }
    if (mode == 2)
    {
        auto& p = prog[sim::pick(nc)];
        p.insert(p.begin() + sim::pick((uint32_t)p.size() + 1), {4, 0});
        if (sim::chance(1, 3)) prog[sim::pick(nc)].push_back({4, 0});
    }
    data* d = new data{};
    {
        auto s = std::make_unique<S>(w->total);
        crew c;
        std::vector<std::function<task<void>()>> fs;
        for (auto& p : prog) fs.push_back([w, s = s.get(), &p, d] { return client(w, *s, p, d); });
        c.add([&] { w->b.run(fs); });
        for (int round = 0;; round++)
        {
            sim::quiesce();
            bool sd = q([&] { return w->sd_inv != INF; });
            i64  v  = s->value();
            q([&] {
                SIM_CHECK(w->releasing == 0, "release-stuck", "a release does not complete");
                if (!sd)
                {
                    SIM_CHECK(v == w->total - w->held, "conservation", "value() is %lld with %d of %lld permits held", (long long)v, w->held, (long long)w->total);
                    SIM_CHECK(w->waiting == 0 || v == 0, "lost-waiter", "%d tasks wait while %lld permits are available", w->waiting, (long long)v);
                }
                else SIM_CHECK(w->waiting == 0, "lost-waiter", "%d tasks still wait after the shutdown", w->waiting);
            });
            if (q([&] { return w->finished; }) == nc) break;
            // stuck only for want of permits: add one, or destroy the semaphore under the waiters
            SIM_CHECK(q([&] { return w->waiting > 0 && w->total == 0; }), "hang", "clients are stuck");
            if (mode == 3 || w->total >= M)
            {
                q([&] { w->sd_inv = sim::seq(); });
                if (sim::chance(1, 2)) sync_wait(s->shutdown());
                else break;
            }
            else
            {
                q([&] { w->total++; });
                sync_wait(s->release());
            }
        }
        if (q([&] { return w->finished; }) == nc)
        {
            if (q([&] { return w->sd_inv == INF; }))
            {
                SIM_CHECK(s->value() == w->total, "conservation", "value() is %lld at the end, %lld permits exist", (long long)s->value(), (long long)w->total);
                while (s->value() < M) sync_wait(s->release());
                sync_wait(s->release());
                SIM_CHECK(s->value() == M, "value-range", "a release beyond the maximum changed value() to %lld", (long long)s->value());
                for (int i = 0; i < M; i++) SIM_CHECK(s->try_acquire(), "conservation", "permit %d of %d is not available", i, (int)M);
                SIM_CHECK(!s->try_acquire() && s->value() == 0, "over-grant", "more permits than the maximum");
            }
            else
            {
                SIM_CHECK(sync_wait(s->acquire()) == res::shutdown, "after-shutdown", "acquire() succeeded after the shutdown");
                SIM_CHECK(!s->try_acquire(), "after-shutdown", "try_acquire() succeeded after the shutdown");
            }
        }
        else
        {
            // every client's remaining operations would use a dead object: cut the programs short, then destroy
            q([&] { w->cut = true; });
            sim::sync_all();
            s.reset();
        }
        c.join();
        if (s) s.reset();
    }
    delete d;
    w->b.tp.reset();
    w->b.sch.reset();
}
} // namespace
SIM_SCENARIO("C05", semaphore_clients, 1)
{
    host<world> W;
    W->b.open_any(5, 3, 1, 2);
    switch (sim::pick(3))
    {
        case 0: run<1>(W.p); break;
        case 1: run<2>(W.p); break;
        default: run<4>(W.p);
    }
}
namespace
{
// releases beyond the maximum are dropped, however they interleave
template<std::ptrdiff_t M> void clamp()
{
    struct st { bed b; int rel = 0, acq = 0; };
    host<st> w;
    auto*    W = w.p;
    W->b.open_any(5, 3, 1, 1);
    int  start = sim::pick(M + 1), nc = 2 + sim::pick(3);
    bool takers = sim::chance(1, 2);
    auto s = std::make_unique<semaphore<M>>(start);
    std::vector<std::function<task<void>()>> fs;
    for (int i = 0; i < nc; i++)
        fs.push_back([W, s = s.get(), n = 1 + (int)sim::pick(3), take = takers && sim::chance(1, 3)]() -> task<void> {
            for (int k = 0; k < n; k++)
            {
                jitter();
                if (take) { if (s->try_acquire()) q([&] { W->acq++; }); }
                else { q([&] { W->rel++; }); co_await s->release(); }
                auto v = s->value();
                SIM_CHECK(v >= 0 && v <= M, "value-range", "value() is %lld, the maximum %d", (long long)v, (int)M);
            }
        });
    crew c;
    c.add([&] { W->b.run(fs); });
    c.join();
    i64 v = s->value();
    q([&] {
        SIM_CHECK(v >= 0 && v <= M && v <= start + W->rel - W->acq, "value-range", "value() is %lld after %d releases and %d acquisitions of a semaphore started at %d (maximum %d)", (long long)v, W->rel, W->acq, start, (int)M);
        if (!takers) SIM_CHECK(v == std::min<i64>(M, start + W->rel), "conservation", "value() is %lld after %d releases of a semaphore started at %d (maximum %d)", (long long)v, W->rel, start, (int)M);
    });
    int n = 0;
    while (s->try_acquire()) n++;
    SIM_CHECK(n == v, "conservation", "%d permits could be acquired, value() said %lld", n, (long long)v);
    s.reset();
    W->b.tp.reset();
    W->b.sch.reset();
}
} // namespace
SIM_SCENARIO("C05", semaphore_clamp, 1)
{
    switch (sim::pick(3)) { case 0: clamp<1>(); break; case 1: clamp<2>(); break; default: clamp<5>(); }
}
