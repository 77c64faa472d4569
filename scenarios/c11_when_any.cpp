// C11: when_any
#include "sc.hpp"
#include <stdexcept>
using namespace sc;
namespace
{
struct boom : std::runtime_error { int id; boom(int i) : std::runtime_error("boom"), id(i) {} };
struct world
{
    bed  b;
    int  n = 0, done = 0, fin = 0;
    u64  first_fin = INF;
    std::vector<int>  started, finished;
    std::vector<bool> throws;
    std::vector<u64>  fin_seq;
    bool stop_seen = false, got = false;
    void init(int k) { q([&] { n = k; started.assign(k, 0); finished.assign(k, 0); throws.assign(k, false); fin_seq.assign(k, INF); }); }
};
struct data { int v[3]; };
// move-only result: losers' values must still be destroyed exactly once
struct boxed
{
    int* p;
    explicit boxed(int v) : p(new int(v)) {}
    boxed(boxed&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    boxed& operator=(boxed&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    ~boxed() { delete p; }
};
struct env
{
    world*           w;
    event*           gate;   // set once the awaiter has its result: nobody may need it to produce one
    std::stop_token  tok;
    data*            d;
};
// what every contender does before finishing; returns true if it shall throw
task<void> work(env e, int id, int how)
{
    world* w = e.w;
    q([&] { SIM_CHECK(++w->started[id] == 1, "ran-twice", "task %d ran twice", id); });
    jitter();
    for (int i = sim::skew(3); i > 0; i--)
    {
        if (w->b.tp) co_await w->b.tp->schedule();
        else if (w->b.sch) { if (sim::chance(1, 2)) co_await w->b.sch->schedule(); else co_await w->b.sch->yield_for(std::chrono::microseconds(sim::pick(1500))); }
        jitter();
        if (e.tok.stop_requested()) q([&] { SIM_CHECK(w->first_fin != INF, "early-stop", "stop requested before any task had finished"); w->stop_seen = true; });
    }
    if (how == 1) co_await *e.gate; // a loser that cannot finish before the winner's result was delivered
    for (int& v : e.d[id].v) v = id + 1;
    q([&] {
        SIM_CHECK(++w->finished[id] == 1, "ran-twice", "task %d finished twice", id);
        w->fin_seq[id] = sim::seq();
        w->first_fin = std::min(w->first_fin, w->fin_seq[id]);
        sim::mix(id);
    });
}
task<int>   t_int(env e, int id, int how) { bool t = q([&] { return (bool)e.w->throws[id]; }); co_await work(e, id, how); if (t) throw boom(id); co_return id; }
task<boxed> t_box(env e, int id, int how) { bool t = q([&] { return (bool)e.w->throws[id]; }); co_await work(e, id, how); if (t) throw boom(id); co_return boxed(id); }
task<void>  t_void(env e, int id, int how) { bool t = q([&] { return (bool)e.w->throws[id]; }); co_await work(e, id, how); if (t) throw boom(id); }

void verdict(env e, int id, bool threw)
{
    world* w = e.w;
    for (int i = 0; i < 3; i++) if (id >= 0) SIM_CHECK(e.d[id].v[i] == id + 1, "visibility", "the winner's writes are not visible");
    q([&] {
        SIM_CHECK(!w->got, "resumed-twice", "when_any delivered twice");
        w->got = true;
        SIM_CHECK(id < w->n, "wrong-value", "result %d belongs to no task", id);
        if (id >= 0)
        {
            SIM_CHECK(w->finished[id] == 1, "not-finished", "the result of task %d was delivered before it finished", id);
            SIM_CHECK(w->throws[id] == threw, "wrong-outcome", "task %d %s but the awaiter saw the opposite", id, w->throws[id] ? "threw" : "returned");
        }
        else SIM_CHECK(w->first_fin != INF, "not-finished", "delivered before any task finished");
    });
}
} // namespace

SIM_SCENARIO("C11", when_any_race, 1)
{
    host<world> W;
    world*      w = W.p;
    w->b.open_any(2, 4, 2, 2);
    int n = 1 + sim::pick(4), form = sim::pick(9);
    if (form >= 5 && form <= 8) n = std::min(n, 3);
    if (form == 5 || form == 6 || form == 7) n = 3;
    if (form == 8) n = 2;
    w->init(n);
    // exceptions: none, some, all
    int ex = sim::pick(4);
    q([&] { for (int i = 0; i < n; i++) w->throws[i] = ex == 2 ? sim::chance(1, 2) : ex == 3 ? sim::chance(3, 4) : false; });
    int gated = sim::chance(1, 2) ? sim::pick(n + 1) : n; // tasks from this one on wait for the gate, except...
    int free_ = sim::pick(n);                            // ...this one
    event gate;
    std::vector<data> d(n);
    std::stop_source  src;
    bool use_stop = sim::chance(1, 2);
    {
        env  e{w, &gate, src.get_token(), d.data()};
        auto how = [&](int i) { return i >= gated && i != free_ ? 1 : 0; };
        struct R
        {
            static task<void> go(env e, int form, int n, bool use_stop, std::stop_source& src, std::function<int(int)> how)
            {
                int  id = -1;
                bool threw = false;
                if (sim::chance(1, 2)) { if (e.w->b.tp) co_await e.w->b.tp->schedule(); else if (e.w->b.sch) co_await e.w->b.sch->schedule(); }
                try
                {
                    switch (form)
                    {
                        case 0: case 1:
                        {
                            std::vector<task<int>> v;
                            for (int i = 0; i < n; i++) v.push_back(t_int(e, i, how(i)));
                            if (use_stop) id = co_await when_any(src, std::move(v)); else id = co_await when_any(std::move(v));
                            break;
                        }
                        case 2:
                        {
                            std::vector<task<boxed>> v;
                            for (int i = 0; i < n; i++) v.push_back(t_box(e, i, how(i)));
                            std::optional<boxed> b;
                            if (use_stop) b.emplace(co_await when_any(src, std::move(v))); else b.emplace(co_await when_any(std::move(v)));
                            id = *b->p;
                            break;
                        }
                        case 3: case 4:
                        {
                            std::vector<task<void>> v;
                            for (int i = 0; i < n; i++) v.push_back(t_void(e, i, how(i)));
                            if (use_stop) co_await when_any(src, std::move(v)); else co_await when_any(std::move(v));
                            break;
                        }
                        case 5: case 6:
                        {
                            std::variant<int, std::monostate, boxed> r;
                            if (use_stop) r = co_await when_any(src, t_int(e, 0, how(0)), t_void(e, 1, how(1)), t_box(e, 2, how(2))); else r = co_await when_any(t_int(e, 0, how(0)), t_void(e, 1, how(1)), t_box(e, 2, how(2)));
                            id = (int)r.index();
                            if (id == 0) SIM_CHECK(std::get<0>(r) == 0, "wrong-value", "value of task 0 is %d", std::get<0>(r));
                            if (id == 2) SIM_CHECK(*std::get<2>(r).p == 2, "wrong-value", "value of task 2 is %d", *std::get<2>(r).p);
                            break;
                        }
                        case 7:
                        {
                            std::variant<int, int, int> r;
                            if (use_stop) r = co_await when_any(src, t_int(e, 0, how(0)), t_int(e, 1, how(1)), t_int(e, 2, how(2))); else r = co_await when_any(t_int(e, 0, how(0)), t_int(e, 1, how(1)), t_int(e, 2, how(2)));
                            id = (int)r.index();
                            int v = id == 0 ? std::get<0>(r) : id == 1 ? std::get<1>(r) : std::get<2>(r);
                            SIM_CHECK(v == id, "wrong-value", "value %d at position %d", v, id);
                            break;
                        }
                        default:
                        {
                            // nested: the inner group is itself a contender
                            std::variant<std::variant<int>, int> r;
                            if (use_stop) r = co_await when_any(src, when_any(t_int(e, 0, how(0))), t_int(e, 1, how(1))); else r = co_await when_any(when_any(t_int(e, 0, how(0))), t_int(e, 1, how(1)));
                            id = (int)r.index();
                        }
                    }
                }
                catch (const boom& b) { threw = true; id = b.id; }
                verdict(e, id, threw);
                if (use_stop) SIM_CHECK(src.stop_requested(), "no-stop", "the stop source was not asked to stop");
                if (form >= 3 && form <= 4 && !threw)
                    q([&] { bool any = false; for (int i = 0; i < e.w->n; i++) any |= e.w->finished[i] && !e.w->throws[i]; SIM_CHECK(any, "wrong-outcome", "returned although every finished task threw"); });
                e.gate->set();
            }
        };
        sync_wait(R::go(e, form, n, use_stop, src, how));
    }
    // losers run to completion
    i64 t0 = sim::now();
    while (q([&] { int f = 0; for (int x : w->finished) f += x; return f; }) < n)
    {
        SIM_CHECK(sim::now() - t0 < 1'000'000'000 + 2 * sim::stalled(), "lost-loser", "a losing task never finished");
        sim::sleep_ns(100'000);
    }
    w->b.tp.reset();
    w->b.sch.reset();
}
