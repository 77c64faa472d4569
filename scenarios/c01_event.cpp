// C01: event
#include "sc.hpp"
using namespace sc;
namespace
{
constexpr int MAXO = 64;
struct wait_rec { u64 inv = INF, susp_inv = INF, susp_end = INF, res = INF; int tid = -1; };
struct op_rec   { u64 inv = INF, end = INF; int tid = -1; bool inl = true; };
struct world
{
    bed                   b;
    event*                e = nullptr;
    std::vector<wait_rec> waits;
    std::vector<op_rec>   sets, resets;
    bool                  init = false;
    int                   finished = 0;
    std::vector<int>*     slots = nullptr; // simulated memory: written before the set with that number
    // could set s still be in force for somebody who looked no earlier than `from` and no later than `to`?
    bool cand(const op_rec& s, u64 from, u64 to) const
    {
        if (s.inv >= to) return false;
        for (auto& r : resets) if (s.end < r.inv && r.end < from) return false;
        return true;
    }
    bool cand_init(u64 from) const
    {
        if (!init) return false;
        for (auto& r : resets) if (r.end < from) return false;
        return true;
    }
};
struct traced
{
    world*         w;
    int            i;
    event::awaiter a;
    traced(world* w, int i) : w(w), i(i), a(w->e->operator co_await()) {}
    bool await_ready() { return a.await_ready(); }
    bool await_suspend(std::coroutine_handle<> h)
    {
        world* ww = w;
        int    ii = i;
        q([&] { ww->waits[ii].susp_inv = sim::seq(); });
        bool s = a.await_suspend(h); // the frame may be gone once this returned true
        if (s) q([&] { ww->waits[ii].susp_end = sim::seq(); });
        return s;
    }
    void await_resume() { a.await_resume(); }
};
task<void> wait(world* w)
{
    int i = q([&] { w->waits.emplace_back(); w->waits.back().inv = sim::seq(); return (int)w->waits.size() - 1; });
    co_await traced(w, i);
    int  only = -1, ncand = 0, setter = -1;
    bool inl = false, suspended = false;
    q([&] {
        auto& r = w->waits[i];
        SIM_CHECK(r.res == INF, "resumed-twice", "a waiter was resumed twice");
        r.res     = sim::seq();
        r.tid     = sim::tid();
        suspended = r.susp_inv != INF;
        ncand     = w->cand_init(r.inv);
        if (ncand) only = -2;
        for (int k = 0; k < (int)w->sets.size(); k++)
            if (w->cand(w->sets[k], r.inv, r.res)) { ncand++; only = k; }
        SIM_CHECK(ncand > 0, "no-set", "a waiter passed although no set was in force");
        if (ncand == 1 && only >= 0) { setter = w->sets[only].tid; inl = w->sets[only].inl && w->sets[only].end == INF; }
        sim::mix(i);
    });
    if (ncand == 1 && only >= 0)
    {
        SIM_CHECK((*w->slots)[only] == only + 1, "visibility", "the setter's writes are not visible");
        if (inl && suspended && q([&] { return w->waits[i].susp_end; }) < q([&] { return w->sets[only].inv; }))
            SIM_CHECK(setter == sim::tid(), "wrong-thread", "set() resumed a waiter on another thread");
    }
}
void do_set(world* w, int kind, resume_order_policy pol)
{
    int k = q([&] { w->sets.emplace_back(); return (int)w->sets.size() - 1; });
    if (k >= MAXO) sim::fail("harness", "too many sets");
    (*w->slots)[k] = k + 1;
    bool inl = true;
    if (kind == 1 && (w->b.tp || w->b.sch)) inl = false;
    q([&] {
        w->sets[k].tid = sim::tid();
        w->sets[k].inl = inl;
        w->sets[k].inv = sim::seq();
    });
    if (inl) w->e->set(pol);
    else if (w->b.tp) w->e->set(w->b.tp, pol);
    else w->e->set(w->b.sch, pol);
    q([&] {
        auto& s = w->sets[k];
        s.end   = sim::seq();
        if (!s.inl) return;
        for (int j = 0; j < (int)w->sets.size(); j++)
            if (j != k && w->sets[j].inv < s.end && w->sets[j].end > s.inv) return; // another set may own the waiters
        std::vector<wait_rec*> mine;
        for (auto& x : w->waits)
            if (x.susp_end < s.inv && x.res > s.inv)
            {
                bool taken = false; // by an earlier set whose executor has not resumed it yet
                for (int j = 0; j < (int)w->sets.size(); j++) taken |= j != k && w->sets[j].end > x.susp_inv && w->sets[j].inv < s.inv;
                if (taken) continue;
                SIM_CHECK(x.res < s.end, "lost-waiter", "set() returned without resuming a waiter that was suspended before it");
                mine.push_back(&x);
            }
        for (auto* x : mine)
            for (auto* y : mine)
                if (x->susp_end < y->susp_inv)
                    SIM_CHECK(pol == resume_order_policy::fifo ? x->res < y->res : y->res < x->res, "wrong-order", "waiters not resumed in %s order",
                              pol == resume_order_policy::fifo ? "fifo" : "lifo");
    });
}
task<void> client(world* w, std::vector<int> ops)
{
    for (int o : ops)
    {
        jitter();
        switch (o)
        {
            case 0: co_await wait(w); break;
            case 1: case 2: case 3: case 4:
                do_set(w, (o - 1) & 1, o > 2 ? resume_order_policy::fifo : resume_order_policy::lifo);
                break;
            case 5:
            {
                int k = q([&] { w->resets.emplace_back(); w->resets.back().inv = sim::seq(); return (int)w->resets.size() - 1; });
                w->e->reset();
                q([&] { w->resets[k].end = sim::seq(); });
                break;
            }
            case 6:
            {
                u64  a = now_seq();
                bool r = w->e->is_set();
                q([&] {
                    u64  z   = sim::seq();
                    bool may = w->cand_init(a);
                    for (auto& s : w->sets) may |= w->cand(s, a, z);
                    if (r) { SIM_CHECK(may, "is-set", "is_set() true although no set was in force"); return; }
                    bool must = w->init;
                    if (must) for (auto& x : w->resets) if (x.inv < z) must = false;
                    for (auto& s : w->sets)
                    {
                        if (s.end >= a) continue;
                        bool m = true;
                        for (auto& x : w->resets) if (x.inv < z && x.end > s.inv) m = false;
                        must |= m;
                    }
                    SIM_CHECK(!must, "is-set", "is_set() false although a set was in force");
                });
                break;
            }
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
void run(bool resets)
{
    host<world> W;
    world*      w = W.p;
    w->b.open_any(6, 3, 2, 1);
    w->init = sim::chance(1, 8);
    std::vector<int> slots(MAXO, 0);
    w->slots = &slots;
    int nc = 2 + sim::pick(4);
    std::vector<std::vector<int>> prog(nc);
    for (auto& p : prog)
    {
        int n = 1 + sim::skew(5), bias = sim::pick(3);
        for (int i = 0; i < n; i++)
        {
            int r = sim::pick(10);
            if (bias == 0) p.push_back(r < 7 ? 0 : resets && r == 7 ? 5 : r == 8 ? 7 : 0);
            else if (bias == 1) p.push_back(r < 5 ? 1 + sim::pick(4) : resets && r < 8 ? 5 : r == 8 ? 7 : 6);
            else p.push_back(r < 4 ? 0 : r < 6 ? 1 + sim::pick(4) : resets && r < 8 ? 5 : 6);
        }
    }
    {
        event e(w->init);
        w->e = &e;
        crew                                    c;
        std::vector<std::function<task<void>()>> fs;
        for (auto& p : prog) fs.push_back([w, &p] { return client(w, p); });
        // the clients never block each other: run each on its own thread / job, main drives the event when everything is stuck
        c.add([&] { w->b.run(fs); });
        for (int round = 0;; round++)
        {
            sim::quiesce();
            if (q([&] { return w->finished; }) == nc) break;
            SIM_CHECK(round < 40, "hang", "clients do not finish");
            SIM_CHECK(!e.is_set(), "lost-waiter", "a task stays suspended on an event that is set");
            do_set(w, sim::pick(2), sim::chance(1, 2) ? resume_order_policy::fifo : resume_order_policy::lifo);
            if (sim::chance(1, 2)) continue;
        }
        c.join();
        q([&] { for (auto& x : w->waits) SIM_CHECK(x.res != INF, "lost-waiter", "a waiter was never resumed"); });
    }
    w->b.tp.reset();
    w->b.sch.reset();
}
} // namespace
SIM_SCENARIO("C01", event_set_wait, 1) { run(false); }
SIM_SCENARIO("C01", event_reset, 2) { run(true); }
namespace
{
// an executor that records what it is asked to resume
struct recorder
{
    std::unique_ptr<thread_pool>& tp;
    host<std::vector<void*>>      order;
    explicit recorder(std::unique_ptr<thread_pool>& p) : tp(p) {}
    auto schedule() { return tp->schedule(); }
    bool spawn_detached(task<void> t) { return tp->spawn_detached(std::move(t)); }
    task<void> spawn_joinable(task<void> t) { return tp->spawn_joinable(std::move(t)); }
    auto yield() { return tp->yield(); }
    bool resume(std::coroutine_handle<> h)
    {
        q([&] { order->push_back(h.address()); });
        return tp->resume(h);
    }
    std::size_t size() { return tp->size(); }
    bool empty() { return tp->empty(); }
    void shutdown() { tp->shutdown(); }
};
task<void> plain_wait(event& e, std::vector<int>* done, int i)
{
    co_await e;
    q([&] { (*done)[i]++; });
}
} // namespace
SIM_SCENARIO("C01", event_order, 1)
{
    auto tp = thread_pool::make_unique(bed::popt(1 + sim::pick(2)));
    auto r  = std::make_unique<recorder>(tp);
    event e(false);
    int   rounds = 1 + sim::pick(2);
    for (int k = 0; k < rounds; k++)
    {
        int n = sim::pick(6);
        host<std::vector<int>> done;
        q([&] { done->assign(n, 0); r->order->clear(); });
        std::vector<task<void>> ts;
        ts.reserve(n);
        host<std::vector<void*>> want;
        for (int i = 0; i < n; i++)
        {
            ts.emplace_back(plain_wait(e, done.p, i));
            ts.back().resume();
            q([&] { want->push_back(ts.back().handle().address()); });
        }
        bool fifo = sim::chance(1, 2);
        {
            std::thread t([&] { e.set(r, fifo ? resume_order_policy::fifo : resume_order_policy::lifo); });
            t.join();
        }
        for (int i = 0; !tp->empty() && i < 10000; i++) sim::yield();
        q([&] {
            if (!fifo) std::reverse(want->begin(), want->end());
            SIM_CHECK(*r->order == *want, "wrong-order", "set() gave the waiters to the executor in another order than %s", fifo ? "fifo" : "lifo");
            for (int x : *done) SIM_CHECK(x == 1, "not-exactly-once", "a waiter was resumed %d times", x);
        });
        if (sim::chance(1, 2)) e.set(r, resume_order_policy::fifo); // has nobody to resume
        q([&] { SIM_CHECK(r->order->size() == want->size(), "resumed-twice", "setting a set event resumed somebody"); });
        e.reset();
        if (k == rounds - 1) tp->shutdown(); // the frames are quiet from here on
        else { tp->shutdown(); tp = thread_pool::make_unique(bed::popt(1)); }
    }
}
