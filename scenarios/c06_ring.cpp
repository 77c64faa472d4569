// C06: ring buffer
#include "fifo.hpp"
using namespace sc;
namespace
{
struct world
{
    bed  b;
    std::unique_ptr<thread_pool> own;
    hist h;
    int  finished = 0;
    bool cut = false;
    int* slots = nullptr;
};
template<typename E> E make(world* w, int id) { if constexpr (std::is_same_v<E, elem>) return elem(id); else return cell(w->slots, id); }
template<typename E, size_t N> using RB = ring_buffer<E, N>;
template<typename E, size_t N> task<pres> produce(world* w, RB<E, N>& rb)
{
    int  i = q([&] { return w->h.p_begin(); });
    auto r = co_await rb.produce(make<E>(w, i));
    pres pr = r == ring_buffer_result::produce::produced ? P_OK : r == ring_buffer_result::produce::notified ? P_NOTIFIED : P_STOPPED;
    q([&] { w->h.p_end(i, pr); });
    co_return pr;
}
template<typename E, size_t N> task<cres> consume(world* w, RB<E, N>& rb)
{
    int  i = q([&] { return w->h.c_begin(); });
    auto r = co_await rb.consume();
    if (r.has_value())
    {
        int id = r.value().id();
        q([&] { w->h.c_end(i, C_VAL, id); });
        co_return C_VAL;
    }
    cres cr = r.error() == ring_buffer_result::consume::notified ? C_NOTIFIED : C_STOPPED;
    q([&] { w->h.c_end(i, cr, -1); });
    co_return cr;
}
template<typename E, size_t N> task<void> abrupt(world* w, RB<E, N>& rb)
{
    int i = q([&] { w->h.abrupt.push_back({sim::seq(), INF}); return (int)w->h.abrupt.size() - 1; });
    co_await rb.shutdown();
    q([&] { w->h.abrupt[i].b = sim::seq(); });
}
template<typename E, size_t N> task<void> drain(world* w, RB<E, N>& rb)
{
    int i = q([&] { w->h.drain.push_back({sim::seq(), INF}); return (int)w->h.drain.size() - 1; });
    if (w->b.tp) co_await rb.shutdown_drain(w->b.tp);
    else if (w->b.sch) co_await rb.shutdown_drain(w->b.sch);
    else co_await rb.shutdown_drain(w->own);
    // only the caller that started the draining waits for its end
    SIM_CHECK(rb.is_shutdown(), "is-shutdown", "is_shutdown() false after a draining shutdown");
    q([&] { if (i == 0) w->h.drain[i].b = sim::seq(); });
}
template<typename E, size_t N> task<void> notify(world* w, RB<E, N>& rb, bool producers)
{
    auto& v = producers ? w->h.note_p : w->h.note_c;
    int   i = q([&] { v.push_back({sim::seq(), INF}); return (int)v.size() - 1; });
    if (producers) co_await rb.notify_producers(); else co_await rb.notify_consumers();
    q([&] { v[i].b = sim::seq(); });
}
template<typename E, size_t N> task<void> client(world* w, RB<E, N>& rb, std::vector<int> ops)
{
    for (int o : ops)
    {
        if (q([&] { return w->cut; })) break;
        jitter();
        switch (o)
        {
            case 0: co_await produce(w, rb); break;
            case 1: co_await consume(w, rb); break;
            case 2: co_await notify(w, rb, true); break;
            case 3: co_await notify(w, rb, false); break;
            case 4: co_await abrupt(w, rb); break;
            case 5: co_await drain(w, rb); break;
            case 6:
            {
                u64 a = now_seq();
                i64 s = (i64)rb.size();
                q([&] { w->h.check_size(a, sim::seq(), s); });
                break;
            }
            case 7:
                if (rb.is_shutdown())
                    q([&] {
                        SIM_CHECK(w->h.stop_inv() < sim::seq(), "is-shutdown", "is_shutdown() true before any shutdown");
                        w->h.observed_shutdown = std::min(w->h.observed_shutdown, sim::seq());
                    });
                break;
            case 8: // consume until stopped
                for (int k = 0; k < 64; k++)
                {
                    cres r = co_await consume(w, rb);
                    if (r == C_STOPPED || q([&] { return w->cut; })) break;
                }
                break;
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
template<typename E, size_t N> void run(world* w)
{
    w->h.cap = N;
    int mode = sim::pick(6); // 0,1 none; 2 abrupt by a client; 3 drain; 4 drain and abrupt; 5 destroyed under waiters
    int nc   = 2 + sim::pick(4);
    bool notes = sim::chance(1, 3);
    std::vector<std::vector<int>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(7), style = sim::pick(4);
        for (int i = 0; i < n; i++)
        {
            int r = sim::pick(12);
            if (notes && r == 0) p.push_back(2 + sim::pick(2));
            else if (r == 1) p.push_back(6 + sim::pick(2));
            else if (r == 2) p.push_back(9);
            else p.push_back(style == 0 ? 0 : style == 1 ? 1 : (int)sim::pick(2));
        }
    }
    auto put = [&](int o) { auto& p = prog[sim::pick(nc)]; p.insert(p.begin() + sim::pick((uint32_t)p.size() + 1), o); };
    if (mode == 2 || mode == 4) put(4);
    if (mode == 3 || mode == 4) { put(5); if (sim::chance(1, 4)) put(5); }
    if (mode == 3 || mode == 4)
    {
        // somebody keeps consuming until the end, otherwise draining could not finish
        prog.push_back({8});
        nc++;
    }
    {
        auto  up = std::make_unique<RB<E, N>>();
        auto* rb = up.get();
        crew  c;
        std::vector<std::function<task<void>()>> fs;
        for (auto& p : prog) fs.push_back([w, rb, &p] { return client(w, *rb, p); });
        c.add([&] { w->b.run(fs); });
        for (int round = 0;; round++)
        {
            sim::quiesce();
            i64 s = (i64)rb->size();
            q([&] {
                int  wp = w->h.waiting_p(), wc = w->h.waiting_c();
                bool stopped = w->h.closed_end() != INF;
                if (stopped) SIM_CHECK(wp == 0 && wc == 0, "lost-waiter", "%d producers and %d consumers still wait after the shutdown", wp, wc);
                else
                {
                    SIM_CHECK(wp == 0 || s == (i64)N, "lost-waiter", "%d producers wait although only %lld of %d slots are used", wp, (long long)s, (int)N);
                    SIM_CHECK(wc == 0 || s == 0, "lost-waiter", "%d consumers wait although %lld elements are available", wc, (long long)s);
                }
                if (w->h.abrupt.empty())
                    SIM_CHECK(s == w->h.accepted() - w->h.consumed(), "conservation", "size() is %lld, %lld were accepted and %lld delivered", (long long)s,
                              (long long)w->h.accepted(), (long long)w->h.consumed());
            });
            if (q([&] { return w->finished; }) == nc) break;
            int  wp = q([&] { return w->h.waiting_p(); }), wc = q([&] { return w->h.waiting_c(); });
            SIM_CHECK(wp + wc > 0, "hang", "clients are stuck");
            SIM_CHECK(round < 60, "hang", "clients do not finish");
            if (mode == 5) break;
            int k = sim::pick(8);
            if (k == 7 && round <= 30)
            {
                sync_wait(notify(w, *rb, wp > 0));
                sim::quiesce();
                SIM_CHECK(q([&] { int n = 0; for (auto& x : w->h.p) n += wp > 0 && x.a < w->h.note_p.back().a && x.z == INF; for (auto& x : w->h.c) n += wp == 0 && x.a < w->h.note_c.back().a && x.z == INF; return n; }) == 0,
                          "lost-waiter", "a notification did not resume every waiter");
            }
            else if (k == 6 || round > 30) sync_wait(abrupt(w, *rb));
            else if (wp > 0) sync_wait(consume(w, *rb));
            else sync_wait(produce(w, *rb));
        }
        bool all = q([&] { return w->finished; }) == nc;
        if (all)
        {
            if (q([&] { return w->h.closed_end() == INF; }))
            {
                // empty the rest in order
                while (!rb->empty()) sync_wait(consume(w, *rb));
                for (size_t i = 0; i < N; i++) sync_wait(produce(w, *rb));
                SIM_CHECK(rb->full() && rb->size() == N && rb->max_size() == N, "size", "not full after %d elements", (int)N);
                while (!rb->empty()) sync_wait(consume(w, *rb));
            }
            else
            {
                SIM_CHECK(sync_wait(produce(w, *rb)) == P_STOPPED, "after-shutdown", "produce did not report stopped after the shutdown");
                SIM_CHECK(sync_wait(consume(w, *rb)) == C_STOPPED, "after-shutdown", "consume did not report stopped after the shutdown");
            }
        }
        else
        {
            q([&] { w->cut = true; w->h.abrupt.push_back({sim::seq(), INF}); });
            sim::sync_all();
            up.reset(); // wakes up everybody who still waits
        }
        c.join();
        q([&] {
            SIM_CHECK(w->h.waiting_p() + w->h.waiting_c() == 0, "lost-waiter", "an operation never ended");
            w->h.finish(true);
        });
    }
    w->b.tp.reset();
    w->b.sch.reset();
    w->own.reset();
}
} // namespace
SIM_SCENARIO("C06", ring_buffer_clients, 1)
{
    host<world> W;
    W->b.open_any(4, 3, 1, 2);
    if (!W->b.tp && !W->b.sch) W->own = thread_pool::make_unique(bed::popt(1));
    std::vector<int> slots(256, -1);
    W->slots = slots.data();
    switch (sim::pick(5))
    {
        case 0: run<elem, 1>(W.p); break;
        case 1: run<elem, 2>(W.p); break;
        case 2: run<cell, 1>(W.p); break;
        case 3: run<cell, 2>(W.p); break;
        default: run<elem, 4>(W.p);
    }
}
