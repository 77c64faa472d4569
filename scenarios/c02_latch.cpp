// C02: latch
#include "sc.hpp"
using namespace sc;
namespace
{
struct cd_rec { u64 inv = INF, end = INF; i64 n = 0; };
struct world
{
    bed                 b;
    latch*              l = nullptr;
    i64                 count = 0;
    std::vector<cd_rec> cds;
    int                 finished = 0, waiting = 0;
    std::vector<int>*   slots = nullptr;
    i64 upto(u64 t) const { i64 s = 0; for (auto& c : cds) if (c.inv < t) s += c.n; return s; }
    i64 done(u64 t) const { i64 s = 0; for (auto& c : cds) if (c.end < t) s += c.n; return s; }
};
// everything that must have happened, given that somebody saw the latch open at `t`
void open_seen(world* w, const char* how)
{
    std::vector<int> must;
    q([&] {
        u64 t   = sim::seq();
        i64 all = w->upto(t);
        if (w->count > 0)
        {
            SIM_CHECK(all >= w->count, "early", "%s although only %lld of %lld were counted down", how, (long long)all, (long long)w->count);
            for (size_t i = 0; i < w->cds.size(); i++)
                if (w->cds[i].inv < t && all - w->cds[i].n < w->count) must.push_back((int)i);
        }
    });
    bool ok = true;
    q([&] {
        // reads of simulated memory must be tracked, so copy the indices out first
        sim::mix(must.size());
    });
    for (size_t k = 0;; k++)
    {
        int i = q([&] { return k < must.size() ? must[k] : -1; });
        if (i < 0) break;
        ok &= (*w->slots)[i] == i + 1;
    }
    q([&] { must = {}; must.shrink_to_fit(); });
    SIM_CHECK(ok, "visibility", "writes made before a count-down are not visible");
}
task<void> client(world* w, std::vector<std::pair<int, int>> ops)
{
    for (auto [o, n] : ops)
    {
        jitter();
        switch (o)
        {
            case 0:
                q([&] { w->waiting++; });
                co_await *w->l;
                open_seen(w, "a task passed the latch");
                q([&] { w->waiting--; });
                break;
            case 1: case 2:
            {
                int k = q([&] { w->cds.emplace_back(); return (int)w->cds.size() - 1; });
                (*w->slots)[k] = k + 1;
                q([&] { w->cds[k].n = n; w->cds[k].inv = sim::seq(); });
                if (o == 1 || (!w->b.tp && !w->b.sch)) { if (n == 1 && sim::chance(1, 2)) w->l->count_down(); else w->l->count_down(n); }
                else if (w->b.tp) w->l->count_down(w->b.tp, n);
                else w->l->count_down(w->b.sch, n);
                q([&] { w->cds[k].end = sim::seq(); });
                break;
            }
            case 3:
            {
                u64 a = now_seq();
                i64 r = (i64)w->l->remaining();
                q([&] {
                    u64 z = sim::seq();
                    SIM_CHECK(r <= w->count - w->done(a) && r >= w->count - w->upto(z), "remaining", "remaining() is %lld, must be in [%lld, %lld]", (long long)r,
                              (long long)(w->count - w->upto(z)), (long long)(w->count - w->done(a)));
                });
                break;
            }
            case 4:
            {
                bool must = q([&] { return w->count <= 0 || w->done(sim::seq()) >= w->count; });
                bool allc = q([&] { for (auto& c : w->cds) if (c.end == INF) return false; return true; });
                bool r    = w->l->is_ready();
                if (r) open_seen(w, "is_ready() reported true");
                else SIM_CHECK(!(must && allc), "not-ready", "is_ready() false after the count reached zero");
                break;
            }
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
} // namespace
SIM_SCENARIO("C02", latch_counts, 1)
{
    host<world> W;
    world*      w = W.p;
    w->b.open_any(6, 3, 2, 1);
    int cnt  = sim::pick(8);
    w->count = cnt == 7 ? -1 : cnt;
    if (sim::chance(1, 4)) w->count = 1 + sim::pick(2);
    int nc = 2 + sim::pick(4);
    std::vector<std::vector<std::pair<int, int>>> prog(nc);
    i64 total = 0;
    bool big = sim::chance(1, 4);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(5), bias = sim::pick(3);
        for (int i = 0; i < n; i++)
        {
            int r = sim::pick(10);
            if (r < 6 && bias != 2 && (bias == 1 || r < 3))
            {
                int k = big ? 1 + sim::pick(4) : 1;
                total += k;
                p.push_back({1 + (int)sim::pick(2), k});
            }
            else p.push_back({r < 7 ? 0 : r == 7 ? 3 : r == 8 ? 4 : 5, 0});
        }
    }
    std::vector<int> slots(64, 0);
    w->slots = &slots;
    {
        latch l(w->count);
        w->l = &l;
        crew                                    c;
        std::vector<std::function<task<void>()>> fs;
        for (auto& p : prog) fs.push_back([w, &p] { return client(w, p); });
        c.add([&] { w->b.run(fs); });
        for (int round = 0;; round++)
        {
            sim::quiesce();
            if (q([&] { return w->finished; }) == nc) break;
            SIM_CHECK(round < 12, "hang", "clients do not finish");
            bool open = q([&] { return w->count <= 0 || w->upto(sim::seq()) >= w->count; });
            SIM_CHECK(!open, "lost-waiter", "a task waits on a latch whose count reached zero");
            SIM_CHECK(!l.is_ready(), "early", "ready before the count reached zero");
            int k = q([&] { w->cds.emplace_back(); return (int)w->cds.size() - 1; });
            slots[k] = k + 1;
            q([&] { w->cds[k].n = 1; w->cds[k].inv = sim::seq(); });
            l.count_down();
            q([&] { w->cds[k].end = sim::seq(); });
        }
        c.join();
        if (w->count <= 0 || w->upto(INF) >= w->count) SIM_CHECK(l.is_ready(), "not-ready", "not ready after the count reached zero");
    }
    w->b.tp.reset();
    w->b.sch.reset();
}
