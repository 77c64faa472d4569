// C26: generators whose consumers move between threads, hand them over, stop early and meet failures at any point.
#include "sc.hpp"
#include <ranges>
using namespace sc;
namespace
{
struct err { int id; };
struct rec // what one body is to do and what it did; host memory
{
    int              id = 0;
    std::vector<int> plan;        // >= 0: yield id * 1000 + plan; -1: yield everything a nested generator yields
    rec*             sub  = nullptr;
    bool             boom = false;
    int              started = 0, finished = 0, step = 0, live = 0, made = 0;
    std::vector<int> want;        // flattened values
    bool             throws = false; // it or the nested one throws after the last value
    int              boomer = -1;
};
struct world
{
    bed                             b;
    std::vector<std::unique_ptr<rec>> recs;
    int                             done = 0, batons = 0;
    bool                            oom = false;
};
struct guard
{
    rec* r;
    explicit guard(rec* x) : r(x) { q([&] { r->live++; r->made++; }); }
    ~guard() { q([&] { r->live--; SIM_CHECK(r->live >= 0, "double-destroy", "a local of generator %d was destroyed twice", r->id); }); }
    guard(const guard&) = delete;
};
struct trouble
{
    explicit trouble(world* w) { if (w->oom) sim::alloc_faults(3 + sim::pick(12)); }
    ~trouble() { sim::alloc_faults(0); }
};
struct big { int v; std::unique_ptr<int[]> p; explicit big(int x) : v(x), p(new int[8]) { p[0] = x; } big(big&&) = default; big& operator=(big&&) = default; };
template<typename T> T mk(int v)
{
    if constexpr (std::is_same_v<T, int>) return v;
    else if constexpr (std::is_same_v<T, std::string>) return std::string(40, 'x') + std::to_string(v);
    else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v);
    else return T(v);
}
inline int val(const int& x) { return x; }
inline int val(const std::string& s) { SIM_CHECK(s.size() > 40, "wrong-value", "a yielded string has %zu characters", s.size()); return std::stoi(s.substr(40)); }
inline int val(const std::unique_ptr<int>& p) { SIM_CHECK(p != nullptr, "wrong-value", "a yielded pointer is null"); return *p; }
inline int val(const big& b) { SIM_CHECK(b.p && b.p[0] == b.v, "wrong-value", "a yielded object is damaged"); return b.v; }

template<typename G, typename T> G body(rec* r, int form)
{
    guard g{r};
    q([&] { r->started++; SIM_CHECK(r->started == 1, "restarted", "the body of generator %d was entered again", r->id); });
    for (size_t i = 0; i < r->plan.size(); i++)
    {
        jitter();
        int p = r->plan[i];
        if (p < 0)
        {
            auto sub = body<G, T>(r->sub, form + 1);
            for (auto&& x : sub)
            {
                q([&] { r->step++; });
                co_yield x;
            }
            continue;
        }
        q([&] { r->step++; });
        if constexpr (std::is_same_v<G, generator<const T&>>) { T v = mk<T>(r->id * 1000 + p); co_yield v; }
        else if ((form + i) % 2) { T v = mk<T>(r->id * 1000 + p); guard h{r}; co_yield v; }
        else
        {
            auto v = std::make_unique<T>(mk<T>(r->id * 1000 + p));
            co_yield *v;
        }
    }
    if (r->boom) throw err{r->id};
    q([&] { r->finished++; });
}
// a plain value is yielded as a temporary
template<typename T> generator<T> temps(rec* r)
{
    guard g{r};
    q([&] { r->started++; });
    for (int p : r->plan)
    {
        q([&] { r->step++; });
        if (p % 3 == 0) co_yield mk<T>(r->id * 1000 + p);
        else if (p % 3 == 1) { T v = mk<T>(r->id * 1000 + p); guard h{r}; co_yield std::move(v); }
        else co_yield T(mk<T>(r->id * 1000 + p));
    }
    if (r->boom) throw err{r->id};
    q([&] { r->finished++; });
}
rec* newrec(world* w, bool nest, bool booms, bool flat)
{
    return q([&] {
        w->recs.emplace_back(std::make_unique<rec>());
        rec* r = w->recs.back().get();
        r->id  = (int)w->recs.size();
        int n  = sim::skew(7);
        for (int i = 0; i < n; i++) r->plan.push_back(sim::pick(100));
        if (nest && !flat && sim::chance(1, 2))
        {
            r->plan.insert(r->plan.begin() + sim::pick(n + 1), -1);
            r->sub = newrec(w, sim::chance(1, 3), booms, false);
        }
        r->boom = booms && sim::chance(1, 3);
        for (int p : r->plan)
        {
            if (p >= 0) { r->want.push_back(r->id * 1000 + p); continue; }
            r->want.insert(r->want.end(), r->sub->want.begin(), r->sub->want.end());
            if (r->sub->throws) { r->throws = true; r->boomer = r->sub->boomer; break; }
        }
        if (!r->throws && r->boom) { r->throws = true; r->boomer = r->id; }
        return r;
    });
}
void dead(rec* r)
{
    q([&] {
        for (; r; r = r->sub)
        {
            SIM_CHECK(r->live == 0, "leak", "%d locals of generator %d outlive it", r->live, r->id);
            SIM_CHECK(r->started <= 1, "restarted", "the body of generator %d was entered %d times", r->id, r->started);
        }
    });
}
void at(rec* r, int k, int v)
{
    q([&] {
        SIM_CHECK(k < (int)r->want.size(), "extra-value", "generator %d delivered %d values, it yields %zu", r->id, k + 1, r->want.size());
        SIM_CHECK(v == r->want[k], "wrong-value", "value %d of generator %d is %d, it yielded %d", k, r->id, v, r->want[k]);
        SIM_CHECK(r->step == k + 1, "not-lazy", "the body of generator %d has yielded %d values when its consumer takes value %d", r->id, r->step, k);
        sim::mix(v);
    });
}
void ended(rec* r, int k)
{
    q([&] {
        SIM_CHECK(!r->throws, "lost-exception", "generator %d ended, its body threw", r->id);
        SIM_CHECK(k == (int)r->want.size(), "lost-value", "generator %d ended after %d values, it yields %zu", r->id, k, r->want.size());
        SIM_CHECK(r->finished == 1, "early-end", "generator %d ended, its body did not", r->id);
    });
}
// what a consumer saw of a generator that ended with an exception
void threw(rec* r, int k, const err& e)
{
    q([&] {
        SIM_CHECK(r->throws && r->boomer == e.id, "wrong-exception", "generator %d delivered the exception of generator %d", r->id, e.id);
        SIM_CHECK(k == (int)r->want.size(), "lost-value", "generator %d threw after %d values, it yields %zu first", r->id, k, r->want.size());
        SIM_CHECK(r->finished == 0, "wrong-exception", "generator %d threw, its body ended", r->id);
    });
}
template<typename G> struct baton
{
    G                    g;
    typename G::iterator it;
    int                  k = -1; // values taken; -1: not begun
    rec*                 r = nullptr;
    bool                 end = false;
};
template<typename G, typename F> bool create(world* w, G& g, F&& f)
{
    trouble t{w};
    try { g = f(); return true; }
    catch (const std::bad_alloc&) { SIM_CHECK(w->oom, "wrong-exception", "bad_alloc"); return false; }
}
// one step; the value is checked
template<typename G> void step(world* w, baton<G>& b)
{
    int k = b.k;
    try
    {
        trouble t{w};
        if (b.k < 0) { q([&] { SIM_CHECK(b.r->started == 0, "not-lazy", "the body of generator %d runs before it is asked for a value", b.r->id); }); b.it = b.g.begin(); }
        else if (sim::chance(1, 2)) ++b.it;
        else b.it++;
        b.k++;
    }
    catch (const err& e)
    {
        threw(b.r, k + 1, e);
        SIM_CHECK(k < 0 || b.it == b.g.end(), "not-ended", "generator %d threw but has not ended", b.r->id);
        b.end = true;
        return;
    }
    catch (const std::bad_alloc&)
    {
        SIM_CHECK(w->oom, "wrong-exception", "bad_alloc");
        b.end = true;
        return;
    }
    catch (const std::exception& e) { sim::fail("wrong-exception", "generator %d delivered \"%s\"", b.r->id, e.what()); }
    sim::alloc_faults(0);
    bool e = sim::chance(1, 2) ? b.it == b.g.end() : !(b.it != b.g.end());
    SIM_CHECK(e == (b.g.end() == b.it) && e != (b.g.end() != b.it), "not-ended", "comparisons with the end disagree");
    if (e) { ended(b.r, b.k); b.end = true; return; }
    at(b.r, b.k, val(*b.it));
    SIM_CHECK(std::addressof(*b.it) == b.it.operator->(), "wrong-value", "* and -> differ");
}
template<typename G, typename T> task<void> consumer(world* w, rec* r, int mode, int stop, int form)
{
    baton<G> b;
    b.r = r;
    bool made = false;
    if constexpr (!std::is_reference_v<T> && std::is_same_v<G, generator<T>>)
        if (form == 2) made = create(w, b.g, [&] { return temps<T>(r); });
    if (form != 2 || !std::is_same_v<G, generator<T>>) made = create(w, b.g, [&] { return body<G, T>(r, form); });
    if (!made) { dead(r); co_return; }
    q([&] { SIM_CHECK(r->started == 0, "not-lazy", "the body of generator %d runs before it is asked for a value", r->id); });
    if (mode == 0)
    {
        int k = 0;
        try
        {
            for (auto&& v : b.g)
            {
                at(r, k, val(v));
                if (sim::chance(1, 2)) co_await w->b.breathe();
                at(r, k, val(v)); // still there
                k++;
                if (k == stop) break;
            }
            if (k != stop) ended(r, k);
        }
        catch (const err& e) { threw(r, k, e); }
    }
    else if (mode == 1)
    {
        while (!b.end && b.k + 1 != stop)
        {
            step(w, b);
            if (sim::chance(1, 2)) co_await w->b.breathe();
            if (sim::chance(1, 4)) // moves carry the body along, iterators stay valid
            {
                G g2 = std::move(b.g);
                SIM_CHECK(b.g.begin() == b.g.end(), "moved-from", "a moved-from generator yields");
                if (sim::chance(1, 2)) b.g = std::move(g2);
                else { G g3; g3 = std::move(g2); b.g = std::move(g3); }
                auto& self = b.g;
                b.g = std::move(self);
            }
        }
    }
    else if (mode == 2)
    {
        int k = 0, n = stop < 0 ? 1000 : stop;
        try
        {
            for (auto&& v : std::move(b.g) | std::views::take(n))
            {
                at(r, k, val(v));
                k++;
                if (sim::chance(1, 2)) co_await w->b.breathe();
            }
            if (k < n) ended(r, k);
        }
        catch (const err& e) { threw(r, k, e); }
    }
    else // replaced or dropped before or while it runs
    {
        if (stop > 0) step(w, b);
        if (sim::chance(1, 2)) b.g = G{};
        else { G g2 = std::move(b.g); }
        SIM_CHECK(b.g.begin() == b.g.end(), "moved-from", "an empty generator yields");
        dead(r);
    }
    { G gone = std::move(b.g); }
    dead(r);
    sim::mix(r->id);
}
template<typename G> task<void> relay(world* w, queue<std::unique_ptr<baton<G>>>& qu, int most)
{
    while (true)
    {
        auto x = co_await qu.pop();
        if (!x) co_return;
        auto b = std::move(*x);
        int  n = 1 + sim::pick(most);
        for (int i = 0; i < n && !b->end; i++) step(w, *b);
        if (!b->end && sim::chance(1, 16)) b->end = true;
        if (!b->end) { co_await qu.push(std::move(b)); continue; }
        rec* r = b->r;
        b.reset();
        dead(r);
        bool last = q([&] { return ++w->done == w->batons; });
        if (last) { co_await qu.shutdown(); co_return; }
    }
}
template<typename G, typename T> void relays(world* w, int clients, int batons, bool booms)
{
    queue<std::unique_ptr<baton<G>>> qu;
    w->batons = batons;
    for (int i = 0; i < batons; i++)
    {
        auto b = std::make_unique<baton<G>>();
        b->r   = newrec(w, true, booms, false);
        if (!create(w, b->g, [&] { return body<G, T>(b->r, i); })) b->end = true;
        sync_wait(qu.push(std::move(b)));
    }
    std::vector<std::function<task<void>()>> fs;
    for (int i = 0; i < clients; i++) fs.push_back([w, &qu] { return relay<G>(w, qu, 3); });
    w->b.run(fs);
    SIM_CHECK(w->done == batons, "lost-generator", "%d of %d generators were consumed", w->done, batons);
}
template<typename G, typename T> std::function<task<void>()> client(world* w, bool booms, bool canflat)
{
    int form = sim::pick(3), mode = sim::pick(w->oom ? 2 : 4), stop = sim::chance(1, 3) ? (int)sim::skew(6) : -1;
    if (!canflat && form == 2) form = 0;
    if (w->oom) mode = 1;
    if (mode == 0 && stop == 0) stop = -1;
    if (mode == 1 && stop == 0) stop = -1;
    rec* r = newrec(w, form != 2, booms, form == 2);
    return [=] { return consumer<G, T>(w, r, mode, stop, form); };
}
} // namespace
SIM_SCENARIO("C26", c26_consumers, 3)
{
    host<world> wd;
    auto        w = &*wd;
    w->b.open_any(4, 4, 1, 1);
    w->oom = sim::chance(1, 4);
    if (w->oom) sim::faults_enable("alloc-fails", true);
    bool booms = sim::chance(1, 2);
    int  n     = 1 + sim::pick(4);
    {
        std::vector<std::function<task<void>()>> fs;
        for (int i = 0; i < n; i++)
            switch (sim::pick(6))
            {
                case 0: fs.push_back(client<generator<int>, int>(w, booms, true)); break;
                case 1: fs.push_back(client<generator<std::string>, std::string>(w, booms, true)); break;
                case 2: fs.push_back(client<generator<std::unique_ptr<int>>, std::unique_ptr<int>>(w, booms, true)); break;
                case 3: fs.push_back(client<generator<const std::string&>, std::string>(w, booms, false)); break;
                case 4: fs.push_back(client<generator<big&>, big>(w, booms, false)); break;
                default: fs.push_back(client<generator<big>, big>(w, booms, true)); break;
            }
        w->b.run(fs);
    }
    sim::faults_off();
    q([&] { for (auto& r : w->recs) dead(r.get()); });
}
SIM_SCENARIO("C26", c26_relay, 2)
{
    host<world> wd;
    auto        w = &*wd;
    w->b.open_any(4, 4, 1, 1);
    w->oom = sim::chance(1, 5);
    if (w->oom) sim::faults_enable("alloc-fails", true);
    bool booms   = sim::chance(1, 2);
    int  clients = 2 + sim::pick(2), n = 1 + sim::pick(4);
    if (sim::chance(1, 2)) relays<generator<std::string>, std::string>(w, clients, n, booms);
    else relays<generator<big&>, big>(w, clients, n, booms);
    q([&] { for (auto& r : w->recs) dead(r.get()); });
}
