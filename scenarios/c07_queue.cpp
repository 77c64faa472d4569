// C07: queue
#include "fifo.hpp"
using namespace sc;
namespace
{
struct world
{
    bed  b;
    std::unique_ptr<thread_pool> own;
    hist h;
    int  finished = 0;
    bool cut = false;
    int* slots = nullptr;
};
template<typename E> E make(world* w, int id) { if constexpr (std::is_same_v<E, elem>) return elem(id); else return cell(w->slots, id); }
template<typename E> using Q = coro::queue<E>;
template<typename E> task<pres> push(world* w, Q<E>& qu, int how)
{
    int  i = q([&] { return w->h.p_begin(); });
    queue_produce_result r;
    if constexpr (std::is_same_v<E, elem>)
    {
        if (how == 0) r = co_await qu.push(elem(i)); else r = co_await qu.emplace(i);
    }
    else
    {
        if (how == 0) r = co_await qu.push(cell(w->slots, i));
        else if (how == 1) { const cell c(w->slots, i); r = co_await qu.push(c); }
        else r = co_await qu.emplace(w->slots, i);
    }
    pres pr = r == queue_produce_result::produced ? P_OK : P_STOPPED;
    q([&] { w->h.p_end(i, pr); });
    co_return pr;
}
template<typename E> cres popped(world* w, int i, expected<E, queue_consume_result>& r)
{
    if (r.has_value())
    {
        int id = r.value().id();
        q([&] { w->h.c_end(i, C_VAL, id); });
        return C_VAL;
    }
    cres cr = r.error() == queue_consume_result::stopped ? C_STOPPED : r.error() == queue_consume_result::empty ? C_EMPTY : C_BUSY;
    q([&] { SIM_CHECK(w->h.c[i].tr || cr == C_STOPPED, "wrong-result", "pop() returned %d", (int)r.error()); w->h.c_end(i, cr, -1); });
    return cr;
}
template<typename E> task<cres> pop(world* w, Q<E>& qu)
{
    int  i = q([&] { return w->h.c_begin(); });
    auto r = co_await qu.pop();
    co_return popped(w, i, r);
}
template<typename E> cres try_pop(world* w, Q<E>& qu)
{
    int  i = q([&] { return w->h.c_begin(true); });
    auto r = qu.try_pop();
    return popped(w, i, r);
}
template<typename E> task<void> abrupt(world* w, Q<E>& rb)
{
    int i = q([&] { w->h.abrupt.push_back({sim::seq(), INF}); return (int)w->h.abrupt.size() - 1; });
    co_await rb.shutdown();
    q([&] { w->h.abrupt[i].b = sim::seq(); });
}
template<typename E> task<void> drain(world* w, Q<E>& rb)
{
    int i = q([&] { w->h.drain.push_back({sim::seq(), INF}); return (int)w->h.drain.size() - 1; });
    if (w->b.tp) co_await rb.shutdown_drain(w->b.tp);
    else if (w->b.sch) co_await rb.shutdown_drain(w->b.sch);
    else co_await rb.shutdown_drain(w->own);
    // only the caller that started the draining waits for its end
    SIM_CHECK(rb.is_shutdown(), "is-shutdown", "is_shutdown() false after a draining shutdown");
    q([&] { if (i == 0) w->h.drain[i].b = sim::seq(); });
}
template<typename E> task<void> client(world* w, Q<E>& rb, std::vector<int> ops)
{
    for (int o : ops)
    {
        if (q([&] { return w->cut; })) break;
        jitter();
        switch (o)
        {
            case 0: case 10: case 11: co_await push(w, rb, o == 0 ? 0 : o - 9); break;
            case 1: co_await pop(w, rb); break;
            case 2: case 3: try_pop(w, rb); break;
            case 4: co_await abrupt(w, rb); break;
            case 5: co_await drain(w, rb); break;
            case 6:
            {
                u64 a = now_seq();
                i64 s = (i64)rb.size();
                q([&] { w->h.check_size(a, sim::seq(), s); });
                break;
            }
            case 7:
                if (rb.is_shutdown())
                    q([&] {
                        SIM_CHECK(w->h.stop_inv() < sim::seq(), "is-shutdown", "is_shutdown() true before any shutdown");
                        w->h.observed_shutdown = std::min(w->h.observed_shutdown, sim::seq());
                    });
                break;
            case 8: // pop until stopped
                for (int k = 0; k < 64; k++)
                {
                    cres r = co_await pop(w, rb);
                    if (r == C_STOPPED || q([&] { return w->cut; })) break;
                }
                break;
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
template<typename E> void run(world* w)
{
    int mode = sim::pick(6); // 0,1 none; 2 abrupt by a client; 3 drain; 4 drain and abrupt; 5 destroyed under waiters
    int nc   = 2 + sim::pick(4);
    bool tries = sim::chance(1, 2);
    std::vector<std::vector<int>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(7), style = sim::pick(4);
        for (int i = 0; i < n; i++)
        {
            int r = sim::pick(12);
            if (tries && (r == 0 || r > 9)) p.push_back(2);
            else if (r == 1) p.push_back(6 + sim::pick(2));
            else if (r == 2) p.push_back(9);
            else { int o = style == 0 ? 0 : style == 1 ? 1 : (int)sim::pick(2); p.push_back(o == 0 ? (sim::chance(1, 2) ? 0 : 10 + (int)sim::pick(2)) : 1); }
        }
    }
    auto put = [&](int o) { auto& p = prog[sim::pick(nc)]; p.insert(p.begin() + sim::pick((uint32_t)p.size() + 1), o); };
    if (mode == 2 || mode == 4) put(4);
    if (mode == 3 || mode == 4) { put(5); if (sim::chance(1, 4)) put(5); }
    if (mode == 3 || mode == 4)
    {
        // somebody keeps consuming until the end, otherwise draining could not finish
        prog.push_back({8});
        nc++;
    }
    {
        auto  up = std::make_unique<Q<E>>();
        auto* rb = up.get();
        crew  c;
        std::vector<std::function<task<void>()>> fs;
        for (auto& p : prog) fs.push_back([w, rb, &p] { return client(w, *rb, p); });
        c.add([&] { w->b.run(fs); });
        for (int round = 0;; round++)
        {
            sim::quiesce();
            i64 s = (i64)rb->size();
            q([&] {
                int  wp = w->h.waiting_p(), wc = w->h.waiting_c();
                bool stopped = w->h.closed_end() != INF;
                if (stopped) SIM_CHECK(wp == 0 && wc == 0, "lost-waiter", "%d producers and %d consumers still wait after the shutdown", wp, wc);
                else
                {
                    SIM_CHECK(wp == 0, "lost-waiter", "%d pushes are stuck", wp);
                    SIM_CHECK(wc == 0 || s == 0, "lost-waiter", "%d consumers wait although %lld elements are available", wc, (long long)s);
                }
                if (w->h.abrupt.empty())
                    SIM_CHECK(s == w->h.accepted() - w->h.consumed(), "conservation", "size() is %lld, %lld were accepted and %lld delivered", (long long)s,
                              (long long)w->h.accepted(), (long long)w->h.consumed());
            });
            if (q([&] { return w->finished; }) == nc) break;
            int  wp = q([&] { return w->h.waiting_p(); }), wc = q([&] { return w->h.waiting_c(); });
            SIM_CHECK(wp + wc > 0, "hang", "clients are stuck");
            SIM_CHECK(round < 60, "hang", "clients do not finish");
            if (mode == 5) break;
            if (sim::pick(8) == 7 || round > 30) sync_wait(abrupt(w, *rb));
            else sync_wait(push(w, *rb, sim::pick(3)));
        }
        bool all = q([&] { return w->finished; }) == nc;
        if (all)
        {
            if (q([&] { return w->h.closed_end() == INF; }))
            {
                // empty the rest in order
                while (!rb->empty()) sync_wait(pop(w, *rb));
                SIM_CHECK(try_pop(w, *rb) == C_EMPTY, "wrong-result", "try_pop() of an idle empty queue does not report empty");
                sync_wait(push(w, *rb, 0));
                SIM_CHECK(try_pop(w, *rb) == C_VAL, "wrong-result", "try_pop() of an idle queue does not deliver");
                SIM_CHECK(rb->empty() && rb->size() == 0, "size", "not empty");
            }
            else
            {
                SIM_CHECK(sync_wait(push(w, *rb, 1)) == P_STOPPED, "after-shutdown", "produce did not report stopped after the shutdown");
                SIM_CHECK(sync_wait(pop(w, *rb)) == C_STOPPED, "after-shutdown", "pop did not report stopped after the shutdown");
                SIM_CHECK(try_pop(w, *rb) == C_STOPPED, "after-shutdown", "try_pop() did not report stopped after the shutdown");
            }
        }
        else
        {
            q([&] { w->cut = true; w->h.abrupt.push_back({sim::seq(), INF}); });
            sim::sync_all();
            up.reset(); // wakes up everybody who still waits
        }
        c.join();
        q([&] {
            SIM_CHECK(w->h.waiting_p() + w->h.waiting_c() == 0, "lost-waiter", "an operation never ended");
            w->h.finish(true);
        });
    }
    w->b.tp.reset();
    w->b.sch.reset();
    w->own.reset();
}
} // namespace
SIM_SCENARIO("C07", queue_clients, 1)
{
    host<world> W;
    W->b.open_any(4, 3, 1, 2);
    if (!W->b.tp && !W->b.sch) W->own = thread_pool::make_unique(bed::popt(1));
    std::vector<int> slots(256, -1);
    W->slots = slots.data();
    if (sim::chance(1, 2)) run<elem>(W.p); else run<cell>(W.p);
}
