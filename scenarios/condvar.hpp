// Workload and oracle for condition_variable, shared by C08 (plain and predicated waits) and C09 (timed, stoppable waits).
#pragma once
#include "sc.hpp"
#include <optional>
namespace cvw
{
using namespace sc;
constexpr int NC = 3;
enum wk { plain, pred, stoppred, tplain, tpred, tstop };
struct rec
{
    wk   kind; int c = 0; bool until = false, sys = false;
    i64  t0 = 0, dur = -1;
    u64  entered = INF, proven = INF, ret = INF;
    bool first = true, live = false;
    int  evals_false = 0;
    bool timed() const { return kind >= tplain; }
    bool has_pred() const { return kind != plain && kind != tplain; }
    bool stoppable() const { return kind == stoppred || kind == tstop; }
};
struct note { bool all; u64 inv, end; };
struct op { int what; wk kind; int c, d, how, f; };
struct shared { u64 tok[NC]{}; u64 data = 0; };
struct objs // under test: in simulated memory
{
    std::unique_ptr<condition_variable> cv = std::make_unique<condition_variable>();
    mutex                               m;
    shared                              s;
    std::stop_source                    stop;
};
struct world
{
    bed                        b;
    std::unique_ptr<scheduler> io; // executor of the timed waits when the bed has none
    objs*                      o = nullptr;
    // oracle
    int                holder = -1;
    std::vector<rec>   waits;
    std::vector<note>  notes;
    std::vector<u64>   reaches;
    u64                true_since[NC] = {INF, INF, INF}, stop_inv = INF, stop_end = INF;
    u64                tok[NC]{}; // shadow of shared::tok
    int                finished = 0;
    bool               only_one = true, homo = false, giving_up = false, owed = true;
    std::unique_ptr<scheduler>& ex() { return b.sch ? b.sch : io; }
};
inline i64 margin(world*) { return 3 * (sim::slack() + sim::stalled()) + 200'000; }
inline void acquired(world* w, int me, int self = -1)
{
    q([&] {
        SIM_CHECK(w->holder == -1, "two-holders", "client %d has the lock while client %d holds it", me, w->holder);
        w->holder = me;
        for (auto& r : w->waits)
            if (r.live && r.proven == INF && &r != w->waits.data() + self) r.proven = sim::seq();
    });
}
inline void released(world* w) { q([&] { w->holder = -1; }); }
inline bool can_end(world* w, const rec& r) { return !r.has_pred() || w->tok[r.c] > 0 || (r.stoppable() && w->stop_inv != INF); }

inline bool evaluate(world* w, int id)
{
    u64 v = w->o->s.tok[q([&] { return w->waits[id].c; })]; // plain read: races if the lock is not held
    return q([&] {
        auto& r = w->waits[id];
        SIM_CHECK(r.live, "predicate-after-return", "the predicate of a finished wait was called");
        if (r.first) r.first = false;
        else
        {
            SIM_CHECK(w->holder == -1, "predicate-unlocked", "the predicate of wait %d runs while client %d holds the lock", id, w->holder);
            for (auto& o : w->waits)
                if (&o != &r && o.live && o.proven == INF && !o.first) o.proven = sim::seq();
            if (!v) { r.evals_false++; w->reaches.push_back(sim::seq()); }
        }
        return v > 0;
    });
}
// One wait in a frame of its own, which is gone as soon as the wait ends. The caller holds the lock through lk.
inline task<void> one_wait(world* w, int me, op o, scoped_lock& lk)
{
    using ns = std::chrono::nanoseconds;
    int id   = q([&] {
        rec r;
        r.kind  = o.kind; r.c = o.c; r.until = o.how & 1; r.sys = o.how & 2;
        static const i64 durs[] = {0, 1, 40'000, 300'000, 1'000'000, 2'500'000, 5'000'000, 20'000'000, 120'000'000, 600'000'000'000};
        if (r.timed()) r.dur = durs[o.d % 10];
        w->waits.push_back(r);
        return (int)w->waits.size() - 1;
    });
    auto  p   = [w, id]() -> bool { return evaluate(w, id); };
    auto& cv  = *w->o->cv;
    auto  dur = ns{q([&] { return w->waits[id].dur; })};
    bool  until = q([&] { return w->waits[id].until; }), sys = q([&] { return w->waits[id].sys; });
    auto  tok = w->o->stop.get_token();
    bool  res = true, tout = false;
    w->o->s.data++;
    q([&] { auto& r = w->waits[id]; w->holder = -1; r.live = true; r.entered = sim::seq(); r.t0 = sim::now(); });
    switch (o.kind)
    {
        case plain: co_await cv.wait(lk); break;
        case pred: co_await cv.wait(lk, p); break;
        case stoppred: res = co_await cv.wait(lk, tok, p); break;
        case tplain:
            if (until && sys) { auto r = co_await cv.wait_until(w->ex(), lk, std::chrono::system_clock::now() + dur); tout = r == std::cv_status::timeout; }
            else if (until) { auto r = co_await cv.wait_until(w->ex(), lk, std::chrono::steady_clock::now() + dur); tout = r == std::cv_status::timeout; }
            else { auto r = co_await cv.wait_for(w->ex(), lk, dur); tout = r == std::cv_status::timeout; }
            break;
        case tpred:
            if (until) res = co_await cv.wait_until(w->ex(), lk, std::chrono::steady_clock::now() + dur, p);
            else if (dur.count() % 1000 == 0) res = co_await cv.wait_for(w->ex(), lk, std::chrono::duration_cast<std::chrono::microseconds>(dur), p);
            else res = co_await cv.wait_for(w->ex(), lk, dur, p);
            break;
        case tstop:
            if (until) res = co_await cv.wait_until(w->ex(), lk, tok, std::chrono::steady_clock::now() + dur, p);
            else res = co_await cv.wait_for(w->ex(), lk, tok, dur, p);
            break;
    }
    i64 t = sim::now();
    acquired(w, me, id);
    w->o->s.data++;
    u64 v = w->o->s.tok[o.c];
    if (sim::chance(1, 4)) SIM_CHECK(!w->o->m.try_lock(), "lock-not-held", "the mutex is free after the wait");
    q([&] {
        auto& r = w->waits[id];
        r.live = false;
        r.ret  = sim::seq();
        i64 el = t - r.t0;
        sim::mix(((u64)me << 8) | (res << 1) | tout);
        if (r.has_pred() && !r.stoppable() && !r.timed()) SIM_CHECK(v > 0, "predicate-false", "a predicated wait returned although its predicate is false");
        if (r.has_pred() && (r.stoppable() || r.timed())) SIM_CHECK(res == (v > 0), "wrong-result", "the wait returned %d but the predicate is %d", res, v > 0);
        bool notified = false; // some notification was under way during the wait
        for (auto& n : w->notes) notified |= n.end > r.entered;
        if (!r.first && r.evals_false == 0 && v > 0 && r.proven == INF) notified = true; // was ready at once
        if (r.timed() && (r.has_pred() ? !res : tout))
        {
            bool stopped = r.kind == tstop && w->stop_inv != INF && notified;
            SIM_CHECK(stopped || el >= r.dur, "early-timeout", "timed out after %lld of %lld ns", (long long)el, (long long)r.dur);
            sim::probe("timed-out");
        }
        else
        {
            bool by_time = r.timed() && r.has_pred() && el >= r.dur;
            SIM_CHECK(notified || by_time, "spurious-wakeup", "a wait of kind %d ended without any notification", r.kind);
            if (r.kind == stoppred && !res) SIM_CHECK(w->stop_inv != INF, "wrong-result", "the wait ended with a false predicate and no stop request");
        }
        if (r.timed()) SIM_CHECK(el <= r.dur + margin(w) || r.proven == INF, "late-timeout", "a timed wait of %lld ns took %lld ns", (long long)r.dur, (long long)el);
        w->reaches.push_back(r.ret);
        if (r.has_pred() && v > 0 && res) { w->tok[r.c]--; if (!w->tok[r.c]) w->true_since[r.c] = INF; }
    });
    if (o.kind != plain && o.kind != tplain && v > 0 && res) w->o->s.tok[o.c] = v - 1;
}
inline task<void> notify(world* w, int how)
{
    // 0 one, 1 all, 2 one on an executor, 3 all on an executor
    bool all = how & 1;
    int  n   = q([&] { w->notes.push_back({all, sim::seq(), INF}); if (all) w->only_one = false; return (int)w->notes.size() - 1; });
    if (how < 2)
    {
        if (all) co_await w->o->cv->notify_all();
        else co_await w->o->cv->notify_one();
        q([&] { w->notes[n].end = sim::seq(); });
    }
    else if (w->b.tp)
    {
        if (all) w->o->cv->notify_all(w->b.tp);
        else w->o->cv->notify_one(w->b.tp);
    }
    else
    {
        if (all) w->o->cv->notify_all(w->ex());
        else w->o->cv->notify_one(w->ex());
    }
}
inline task<void> put(world* w, int me, int c, int n)
{
    auto lk = co_await w->o->m.scoped_lock();
    acquired(w, me);
    w->o->s.data++;
    w->o->s.tok[c] += n;
    q([&] { if (!w->tok[c]) w->true_since[c] = sim::seq(); w->tok[c] += n; });
    released(w);
    lk.unlock();
}
inline task<void> client(world* w, int me, std::vector<op> ops)
{
    for (auto& o : ops)
    {
        jitter();
        switch (o.what)
        {
            case 0:
            {
                auto lk = co_await w->o->m.scoped_lock();
                acquired(w, me);
                co_await one_wait(w, me, o, lk);
                if (o.f & 1) co_await w->b.breathe();
                if ((o.f & 6) == 6 && !(w->homo))
                {
                    // wait again without letting go of the lock
                    co_await one_wait(w, me, o, lk);
                }
                w->o->s.data++;
                released(w);
                lk.unlock();
                break;
            }
            case 1: co_await put(w, me, o.c, q([&] { return w->homo; }) ? 1 : 1 + (o.f & 1)); co_await notify(w, o.how); break;
            case 2: co_await notify(w, o.how); break;
            case 3:
                q([&] { if (w->stop_inv == INF) w->stop_inv = sim::seq(); });
                w->o->stop.request_stop();
                q([&] { if (w->stop_end == INF) w->stop_end = sim::seq(); });
                co_await notify(w, o.how | 1);
                break;
            case 4:
                if (w->ex()) co_await w->ex()->yield_for(std::chrono::microseconds{50 + 700 * o.d});
                else co_await w->b.breathe();
                break;
            default: co_await w->b.breathe();
        }
    }
    q([&] { w->finished++; });
}
inline void check_quiet(world* w)
{
    if (w->holder != -1) return; // somebody sleeps with the lock held
    for (auto& r : w->waits)
    {
        if (!r.live || r.proven == INF) continue;
        if (r.timed())
            SIM_CHECK(sim::now() <= r.t0 + r.dur + margin(w), "lost-timeout", "a timed wait of %lld ns is still waiting after %lld ns and nothing is going on", (long long)r.dur, (long long)(sim::now() - r.t0));
        if (!can_end(w, r)) continue;
        u64 from = r.proven;
        if (r.has_pred())
        {
            u64 t = w->tok[r.c] > 0 ? w->true_since[r.c] : INF;
            if (r.stoppable() && w->stop_end < t) t = w->stop_end;
            if (t == INF) continue;
            from = std::max(from, t);
        }
        for (auto& n : w->notes)
            if (n.inv > from && n.inv != INF)
            {
                SIM_CHECK(!n.all, "lost-notification", "a wait of kind %d is still waiting although notify_all() was called while it waited and its condition held", r.kind);
                SIM_CHECK(!w->homo, "lost-notification", "a waiter with a true predicate is still waiting although every change was notified");
            }
    }
    bool preds = false; // a predicated waiter that is being looked at may absorb a notification
    for (auto& r : w->waits) preds |= r.has_pred();
    if (w->only_one && !preds)
    {
        // every notify_one() made while somebody waits throughout has to reach a waiter
        u64 p = INF;
        for (auto& r : w->waits) if (r.live && r.proven < p) p = r.proven;
        if (p == INF) return;
        for (auto& n : w->notes)
        {
            if (n.inv <= p) continue;
            int calls = 0, got = 0;
            for (auto& x : w->notes) calls += x.inv >= n.inv;
            for (auto x : w->reaches) got += x > n.inv;
            SIM_CHECK(got >= calls, "lost-notification", "%d notify_one() calls were made while a task waits, but only %d waiters were reached", calls, got);
        }
    }
}
inline void drive(const std::vector<wk>& kinds, bool timed)
{
    host<world> w;
    auto        W = &*w;
    auto        ob = std::make_unique<objs>();
    w->o           = ob.get();
    w->b.open_any(timed ? 3 : 5, timed ? 2 : 3, 2, 2);
    if (timed && !w->b.sch) w->io = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    bool can_exec = w->b.tp || w->b.sch || w->io;
    int  style    = sim::pick(4); // 0: only notify_one, 1: only notify_all, 2,3: mixed
    w->homo       = sim::chance(1, 4);
    if (w->homo) style = 0;
    int  nkinds = 1 + sim::pick(kinds.size()), nconds = w->homo ? 1 : 1 + sim::pick(NC);
    int  nc     = 2 + sim::pick(4);
    std::vector<wk> use;
    for (int i = 0; i < nkinds; i++) use.push_back(kinds[sim::pick(kinds.size())]);
    if (w->homo) for (auto& k : use) if (k == plain) k = pred; else if (k == tplain) k = tpred;
    bool stops = !w->homo && sim::chance(1, 3);
    std::vector<std::function<task<void>()>> fs;
    for (int i = 0; i < nc; i++)
    {
        std::vector<op> p;
        int n = 1 + sim::skew(5), role = sim::pick(3);
        for (int k = 0; k < n; k++)
        {
            op o{};
            int x  = sim::pick(8);
            o.what = role == 0 ? (x < 6 ? 0 : x == 6 ? 1 : 5) : role == 1 ? (x < 4 ? 1 : x == 4 ? 2 : x == 5 ? 4 : x == 6 ? 5 : 0) : x < 3 ? 0 : x < 6 ? 1 : x == 6 ? 2 : 4;
            if (stops && o.what == 2 && sim::chance(1, 2)) o.what = 3;
            o.kind = use[sim::pick(use.size())];
            o.c    = sim::pick(nconds);
            o.d    = sim::pick(10);
            o.f    = sim::pick(8);
            o.how  = style == 0 ? 0 : style == 1 ? 1 : sim::pick(2);
            if (o.what == 3) o.how = 1;
            if (o.what == 0) o.how = sim::pick(4);
            else if (can_exec && sim::chance(1, 3)) o.how |= 2;
            p.push_back(o);
        }
        fs.push_back([W, i, p] { return client(W, i, p); });
    }
    crew c;
    c.add([&] { W->b.run(fs); });
    int round = 0;
    while (true)
    {
        sim::quiesce();
        bool done = q([&] {
            check_quiet(W);
            return W->finished == nc;
        });
        if (done) break;
        SIM_CHECK(++round < 60, "stuck", "%d of %d clients finished", w->finished, nc);
        // let everybody go
        q([&] { W->homo = false; if (W->stop_inv == INF) W->stop_inv = sim::seq(); });
        w->o->stop.request_stop();
        q([&] { if (W->stop_end == INF) W->stop_end = sim::seq(); });
        auto go = [](world* w) -> task<void> {
            for (int i = 0; i < NC; i++) co_await put(w, 99, i, 3);
            co_await notify(w, 1);
        };
        sync_wait(go(W));
    }
    c.join();
    sim::sync_all();
    if (sim::chance(1, 2)) w->o->cv.reset();
    if (w->b.tp) w->b.tp->shutdown();
    if (w->b.sch) w->b.sch->shutdown();
    if (w->io) w->io->shutdown();
}
} // namespace cvw
