// C12: task, sync_wait, invoke
#include "work.hpp"
using namespace wk;
namespace
{
struct spec { int h; bool boom; int id; };
spec mk(world* w, bool booms) { return {(int)sim::pick(N_HOW), booms && sim::chance(1, 3), newid(w)}; }
void check_err(const spec& s, const err& e)
{
    SIM_CHECK(s.boom && e.id == s.id, "wrong-exception", "task %d (%s) delivered the exception of task %d", s.id, s.boom ? "throws" : "does not throw", e.id);
}
void no_err(const spec& s) { SIM_CHECK(!s.boom, "lost-exception", "the exception of task %d was lost", s.id); }
void not_started(world* w, int id) { q([&] { SIM_CHECK(w->runs[id] == 0, "eager", "task %d ran before it was awaited", id); }); }

// a thread waits synchronously
void waits(world* w, int form, spec s)
{
    try
    {
        switch (form)
        {
            case 0: { auto t = t_int(w, s.id, s.h, s.boom); not_started(w, s.id); jitter(); int v = sync_wait(t); no_err(s); seen(w, s.id); SIM_CHECK(v == 7000 + s.id, "wrong-value", "got %d from task %d", v, s.id);
                      SIM_CHECK(t.is_ready(), "not-ready", "a finished task is not ready"); break; }
            case 1: { int v = sync_wait(t_int(w, s.id, s.h, s.boom)); no_err(s); seen(w, s.id); SIM_CHECK(v == 7000 + s.id, "wrong-value", "got %d from task %d", v, s.id); break; }
            case 2: { sync_wait(t_void(w, s.id, s.h, s.boom)); no_err(s); seen(w, s.id); break; }
            case 3: { auto p = sync_wait(t_ptr(w, s.id, s.h, s.boom)); no_err(s); seen(w, s.id); SIM_CHECK(p && *p == 7000 + s.id, "wrong-value", "task %d", s.id); break; }
            case 4: { u64& r = sync_wait(t_ref(w, s.id, s.h, s.boom)); no_err(s); seen(w, s.id); SIM_CHECK(&r == &w->data[s.id], "wrong-value", "not the same object"); break; }
            case 5: { auto t = t_void(w, s.id, s.h, s.boom); auto t2 = std::move(t); t = std::move(t2); not_started(w, s.id); sync_wait(t); no_err(s); seen(w, s.id); break; }
            case 6:
            {
                // arguments and captures of an invoked lambda are gone before the task is awaited
                task<int> t;
                {
                    auto cap = std::make_unique<int>(s.id);
                    int  x   = s.h;
                    auto f   = [c = *cap, w](int h, bool boom) -> task<int> { int v = co_await t_int(w, c, h, boom); co_return v + c; };
                    t        = coro::invoke(f, x, s.boom);
                }
                jitter();
                int v = sync_wait(t);
                no_err(s); seen(w, s.id);
                SIM_CHECK(v == 7000 + 2 * s.id, "wrong-value", "got %d from invoked task %d", v, s.id);
                break;
            }
            case 7:
            {
                // the result of a finished task stays there: it can be had again, from the task and from its promise
                auto t = t_ptr(w, s.id, s.h, s.boom);
                auto u = t_void(w, s.id, now_, false);
                bool threw = false;
                try { auto& p = sync_wait(t); no_err(s); SIM_CHECK(p && *p == 7000 + s.id, "wrong-value", "task %d", s.id); }
                catch (const err& e) { check_err(s, e); threw = true; }
                seen(w, s.id);
                SIM_CHECK(threw == s.boom, "lost-exception", "the exception of task %d was lost", s.id);
                const auto& c = t;
                for (int i = 0; i < 2; i++)
                {
                    threw = false;
                    try
                    {
                        if (i) { const auto& pr = c.promise(); SIM_CHECK(*pr.result() == 7000 + s.id, "wrong-value", "task %d", s.id); }
                        else SIM_CHECK(*sync_wait(t) == 7000 + s.id, "wrong-value", "task %d", s.id);
                    }
                    catch (const err& e) { check_err(s, e); threw = true; }
                    SIM_CHECK(threw == s.boom, "lost-exception", "the exception of task %d was lost the next time", s.id);
                }
                break;
            }
            default:
            {
                auto f = [w, s]() -> task<void> { co_await t_void(w, s.id, s.h, s.boom); };
                sync_wait(coro::invoke(f));
                no_err(s); seen(w, s.id);
                break;
            }
        }
    }
    catch (const err& e) { check_err(s, e); seen(w, s.id); }
    catch (const std::exception& e) { sim::fail("wrong-exception", "task %d delivered \"%s\"", s.id, e.what()); }
    sim::mix(s.id);
}
// coroutines that await coroutines
task<int> nest(world* w, std::vector<spec> ss, size_t i, int depth)
{
    if (i == ss.size())
    {
        int n = 0;
        for (int k = 0; k < depth; k++) n += co_await [](int x) -> task<int> { co_return x; }(1);
        co_return n - depth;
    }
    auto& s = ss[i];
    int   v = 0;
    try
    {
        auto t = t_int(w, s.id, s.h, s.boom);
        jitter();
        not_started(w, s.id);
        v = co_await t;
        no_err(s);
        seen(w, s.id);
        SIM_CHECK(v == 7000 + s.id, "wrong-value", "got %d from task %d", v, s.id);
        if (i % 2)
        {
            int again = co_await t; // finished: same value, no second run
            SIM_CHECK(again == v, "wrong-value", "awaiting task %d again gives %d", s.id, again);
        }
    }
    catch (const err& e) { check_err(s, e); seen(w, s.id); v = 7000 + s.id; }
    int r = co_await nest(w, ss, i + 1, depth);
    co_return r + v;
}
task<void> nested(world* w, std::vector<spec> ss, int depth)
{
    int want = 0;
    for (auto& s : ss) want += 7000 + s.id;
    int got = co_await nest(w, ss, 0, depth);
    SIM_CHECK(got == want, "wrong-value", "nested tasks returned %d, expected %d", got, want);
}
// tasks that are never awaited, or destroyed or replaced
void dropped(world* w, spec a, spec b)
{
    {
        auto t = t_ptr(w, a.id, a.h, a.boom);
        jitter();
        if (a.h & 1) { t.destroy(); SIM_CHECK(t.is_ready(), "not-ready", "a destroyed task is not ready"); }
    }
    auto u = t_void(w, b.id, now_, false);
    u      = t_void(w, b.id, now_, false);
    u      = task<void>{};
    not_started(w, a.id);
    not_started(w, b.id);
    // driven by hand
    auto m = t_void(w, b.id, now_, b.boom);
    while (m.resume()) {}
    try { m.promise().result(); no_err(b); } catch (const err& e) { check_err(b, e); }
    q([&] { w->runs[a.id] = w->done[a.id] = 1; });
}
} // namespace
SIM_SCENARIO("C12", c12_tasks, 6)
{
    host<world> w;
    auto        W = &*w;
    kicker      k;
    w->k      = &k;
    auto data = std::make_unique<std::array<u64, 64>>();
    w->data   = data->data();
    k.open(1 + sim::pick(2));
    open(W);
    bool booms = sim::chance(1, 2);
    crew c;
    int  n = 1 + sim::pick(4);
    for (int i = 0; i < n; i++)
    {
        int what = sim::pick(8);
        if (what < 5)
        {
            std::vector<std::pair<int, spec>> v;
            int m = 1 + sim::pick(3);
            for (int j = 0; j < m; j++) { int f = sim::pick(9); v.emplace_back(f, mk(W, booms)); }
            c.add([W, v] { for (auto& [f, s] : v) waits(W, f, s); });
        }
        else if (what < 7)
        {
            std::vector<spec> ss;
            int m = 1 + sim::pick(4), depth = sim::pick(20);
            for (int j = 0; j < m; j++) ss.push_back(mk(W, booms));
            c.add([W, ss, depth] { sync_wait(nested(W, ss, depth)); });
        }
        else
        {
            auto a = mk(W, booms), b = mk(W, booms);
            c.add([W, a, b] { dropped(W, a, b); });
        }
    }
    c.join();
    close(W);
    k.close();
    q([&] { for (size_t i = 0; i < w->runs.size(); i++) SIM_CHECK(w->runs[i] == 1 && w->done[i] == 1, "not-run", "task %zu ran %d times and ended %d times", i, w->runs[i], w->done[i]); });
}
// Awaiting tasks does not use up the thread's stack: neither one after another nor nested.
namespace
{
[[gnu::noinline]] uintptr_t sp() { return (uintptr_t)__builtin_frame_address(0); }
task<int> leaf(world* w, int i, int every)
{
    if (every && i % every == 0) co_await w->b.breathe();
    co_return i;
}
task<void> row(world* w, int n, int every)
{
    uintptr_t at = 0;
    for (int i = 0; i < n; i++)
    {
        if (every && i % every == 0) at = 0;
        int v = co_await leaf(w, i, every);
        SIM_CHECK(v == i, "wrong-value", "got %d, not %d", v, i);
        uintptr_t here = sp();
        if (!at) at = here;
        SIM_CHECK(at - here < 8192 || here > at, "stack-growth", "awaiting %d tasks one after another used %zu bytes of stack", i, (size_t)(at - here));
    }
}
task<int> down(int n, uintptr_t top)
{
    uintptr_t here = sp();
    SIM_CHECK(top - here < 8192 || here > top, "stack-growth", "nesting tasks %d from the end used %zu bytes of stack", n, (size_t)(top - here));
    if (!n) co_return 0;
    int r = co_await down(n - 1, top);
    uintptr_t up = sp();
    SIM_CHECK(top - up < 8192 || up > top, "stack-growth", "returning from tasks nested %d deep used %zu bytes of stack", r, (size_t)(top - up));
    co_return r + 1;
}
task<void> column(int n)
{
    int r = co_await down(n, sp());
    SIM_CHECK(r == n, "wrong-value", "got %d, not %d", r, n);
}
} // namespace
SIM_SCENARIO("C12", c12_depth, 1)
{
    host<world> w;
    auto        W = &*w;
    open(W);
    crew c;
    int  n = 200 + sim::pick(300), every = sim::chance(1, 2) ? 0 : 50 + sim::pick(100);
    c.add([&] { sync_wait(row(W, n, every)); });
    c.add([&] { sync_wait(column(n)); });
    c.join();
    close(W);
}
