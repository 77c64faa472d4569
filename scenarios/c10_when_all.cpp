// C10: when_all
#include "work.hpp"
using namespace wk;
namespace
{
struct spec { int h; bool boom; int id; };
std::vector<spec> specs(world* w, int n, bool booms)
{
    std::vector<spec> v;
    int fav = sim::pick(N_HOW);
    for (int i = 0; i < n; i++) v.push_back({sim::chance(1, 2) ? fav : (int)sim::pick(N_HOW), booms && sim::chance(1, 3), newid(w)});
    return v;
}
// the result object at position i belongs to task s
template<typename R, typename Get> void result(world* w, R&& r, const spec& s, Get get)
{
    bool threw = false;
    try { SIM_CHECK(get(r), "wrong-value", "the value at the position of task %d is not its value", s.id); }
    catch (const err& e) { threw = true; SIM_CHECK(e.id == s.id, "wrong-exception", "position of task %d holds the exception of task %d", s.id, e.id); }
    SIM_CHECK(threw == s.boom, "wrong-exception", "task %d %s but its result says otherwise", s.id, s.boom ? "threw" : "did not throw");
    sim::mix(s.id * 2 + threw);
}
struct once { int n = 0; };
void resumed(world* w, host<once>& o, const std::vector<spec>& ss)
{
    q([&] { SIM_CHECK(++o->n == 1, "resumed-twice", "the awaiter was resumed %d times", o->n); });
    for (auto& s : ss) seen(w, s.id);
}
task<void> group(world* w, int form, std::vector<spec> ss, int depth);
task<void> range_int(world* w, std::vector<spec> ss, bool lvalue)
{
    host<once> o;
    std::vector<task<int>> ts;
    for (auto& s : ss) ts.emplace_back(t_int(w, s.id, s.h, s.boom));
    if (lvalue)
    {
        auto a = when_all(std::move(ts));
        auto& rs = co_await a;
        resumed(w, o, ss);
        SIM_CHECK(rs.size() == ss.size(), "wrong-size", "%zu results for %zu tasks", rs.size(), ss.size());
        for (size_t i = 0; i < ss.size(); i++) result(w, rs[i], ss[i], [&](auto& r) { return r.return_value() == 7000 + ss[i].id; });
    }
    else
    {
        auto rs = co_await when_all(std::move(ts));
        resumed(w, o, ss);
        SIM_CHECK(rs.size() == ss.size(), "wrong-size", "%zu results for %zu tasks", rs.size(), ss.size());
        for (size_t i = 0; i < ss.size(); i++) result(w, rs[i], ss[i], [&](auto& r) { return r.return_value() == 7000 + ss[i].id; });
    }
}
task<void> list_ptr(world* w, std::vector<spec> ss)
{
    host<once> o;
    std::list<task<std::unique_ptr<int>>> ts;
    for (auto& s : ss) ts.emplace_back(t_ptr(w, s.id, s.h, s.boom));
    auto rs = co_await when_all(std::move(ts));
    resumed(w, o, ss);
    SIM_CHECK(rs.size() == ss.size(), "wrong-size", "%zu results for %zu tasks", rs.size(), ss.size());
    for (size_t i = 0; i < ss.size(); i++)
        result(w, rs[i], ss[i], [&](auto& r) { std::unique_ptr<int> p = std::move(r).return_value(); return p && *p == 7000 + ss[i].id; });
}
task<void> range_void(world* w, std::vector<spec> ss, int depth)
{
    host<once> o;
    std::vector<task<void>> ts;
    for (auto& s : ss) ts.emplace_back(t_void(w, s.id, s.h, s.boom));
    std::vector<spec> sub;
    if (depth > 0)
    {
        sub = specs(w, sim::pick(3), false);
        ts.emplace_back(group(w, sim::pick(4), sub, depth - 1));
    }
    auto rs = co_await when_all(std::move(ts));
    resumed(w, o, ss);
    for (auto& s : sub) seen(w, s.id);
    for (size_t i = 0; i < ss.size(); i++) result(w, rs[i], ss[i], [&](auto& r) { (void)r.return_value(); return true; });
}
// different types, at least four specs
task<void> tuple(world* w, std::vector<spec> ss)
{
    host<once> o;
    auto rs = co_await when_all(t_int(w, ss[0].id, ss[0].h, ss[0].boom), t_void(w, ss[1].id, ss[1].h, ss[1].boom),
                                t_ptr(w, ss[2].id, ss[2].h, ss[2].boom), t_ref(w, ss[3].id, ss[3].h, ss[3].boom));
    resumed(w, o, ss);
    result(w, std::get<0>(rs), ss[0], [&](auto& r) { return r.return_value() == 7000 + ss[0].id; });
    result(w, std::get<1>(rs), ss[1], [&](auto& r) { (void)r.return_value(); return true; });
    result(w, std::get<2>(rs), ss[2], [&](auto& r) { return *r.return_value() == 7000 + ss[2].id; });
    result(w, std::get<3>(rs), ss[3], [&](auto& r) { return &r.return_value() == &w->data[ss[3].id]; });
}
task<void> group(world* w, int form, std::vector<spec> ss, int depth)
{
    switch (form)
    {
        case 0: co_await range_int(w, ss, false); break;
        case 1: co_await range_int(w, ss, true); break;
        case 2: co_await range_void(w, ss, depth); break;
        case 3: co_await list_ptr(w, ss); break;
        default:
            if (ss.size() == 4) co_await tuple(w, ss);
            else co_await range_void(w, ss, depth);
    }
}
} // namespace
SIM_SCENARIO("C10", c10_groups, 1)
{
    host<world> w;
    auto        W = &*w;
    kicker      k;
    w->k = &k;
    auto data = std::make_unique<std::array<u64, 64>>();
    w->data   = data->data();
    k.open(1 + sim::pick(2));
    open(W);
    int  n     = 1 + sim::pick(3);
    bool booms = sim::chance(1, 2);
    std::vector<std::function<task<void>()>> fs;
    for (int i = 0; i < n; i++)
    {
        int form = sim::pick(5), c = form == 4 ? 4 : sim::pick(5), depth = sim::pick(2);
        auto ss  = specs(W, c, booms);
        fs.push_back([W, form, ss, depth] { return group(W, form, ss, depth); });
    }
    w->b.run(fs);
    close(W);
    k.close();
    q([&] { for (size_t i = 0; i < w->runs.size(); i++) SIM_CHECK(w->runs[i] == 1 && w->done[i] == 1, "not-run", "task %zu ran %d times and ended %d times", i, w->runs[i], w->done[i]); });
}
