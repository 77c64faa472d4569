// C23: histories of creating, moving, assigning, using and destroying objects, against a model of who owns which descriptor.
#include "sc.hpp"
#include <coro/detail/pipe.hpp>
using namespace sc;
using ms = std::chrono::milliseconds;
using net::io_status;
namespace
{
#define CERT SCN_DIR "/tls/cert.pem"
#define KEY SCN_DIR "/tls/key.pem"
struct env
{
    std::unique_ptr<scheduler> s;
    std::shared_ptr<net::tls::context> cctx;
    int port = 2000;
};
// ---- the kinds of objects
struct k_socket
{
    using T = net::socket;
    static constexpr const char* nm = "socket";
    static constexpr bool copy = true;
    static std::unique_ptr<T> make(env& e)
    {
        net::socket::options o{sim::chance(1, 2) ? net::socket::type_t::tcp : net::socket::type_t::udp, sim::chance(1, 2) ? net::socket::blocking_t::no : net::socket::blocking_t::yes};
        auto dom = sim::chance(1, 2) ? net::domain_t::ipv4 : net::domain_t::ipv6;
        switch (sim::pick(4))
        {
            case 0: return std::make_unique<T>(net::make_accept_socket(o, net::socket_address{dom == net::domain_t::ipv4 ? "127.0.0.1" : "::1", (uint16_t)e.port++, dom}, 16));
            case 1: return std::make_unique<T>();
            case 2: { auto t = net::make_socket(o, dom); return std::make_unique<T>(std::move(t)); }
            default: return std::make_unique<T>(net::make_socket(o, dom));
        }
    }
    static std::vector<int> fds(T& t) { SIM_CHECK(t.is_ok() == (t.native_handle() != -1) && (bool)t == t.is_ok(), "wrong-state", "socket is_ok() and its handle disagree"); return {t.native_handle()}; }
    static int per() { return 1; }
    static int extra(T& t, int k) { if (k == 0) { t.close(); return 1; } if (k == 1) t.shutdown(); return 0; }
};
struct k_client
{
    using T = net::tcp::client;
    static constexpr const char* nm = "tcp client";
    static constexpr bool copy = true;
    static std::unique_ptr<T> make(env& e) { return std::make_unique<T>(e.s, net::socket_address{"127.0.0.1", 1999}); }
    static std::vector<int> fds(T& t) { return {t.socket().native_handle()}; }
    static int per() { return 1; }
    static int extra(T&, int) { return 0; }
};
struct k_server
{
    using T = net::tcp::server;
    static constexpr const char* nm = "tcp server";
    static constexpr bool copy = false;
    static std::unique_ptr<T> make(env& e) { return std::make_unique<T>(e.s, net::socket_address{"127.0.0.1", (uint16_t)e.port++}); }
    static std::vector<int> fds(T& t) { return {t.accept_socket().native_handle()}; }
    static int per() { return 3; } // and its stop source
    static int extra(T&, int) { return 0; }
};
struct k_peer
{
    using T = net::udp::peer;
    static constexpr const char* nm = "udp peer";
    static constexpr bool copy = true;
    static std::unique_ptr<T> make(env& e) { return sim::chance(1, 2) ? std::make_unique<T>(e.s, net::socket_address{"127.0.0.1", (uint16_t)e.port++}) : std::make_unique<T>(e.s, net::domain_t::ipv4); }
    static std::vector<int> fds(T& t) { return {t.socket().native_handle()}; }
    static int per() { return 1; }
    static int extra(T&, int) { return 0; }
};
struct k_tls
{
    using T = net::tls::client;
    static constexpr const char* nm = "tls client";
    static constexpr bool copy = false;
    static std::unique_ptr<T> make(env& e) { return std::make_unique<T>(e.s, e.cctx, net::socket_address{"127.0.0.1", 1998}); }
    static std::vector<int> fds(T& t) { return {t.socket().native_handle()}; }
    static int per() { return 1; }
    static int extra(T&, int) { return 0; }
};
struct k_pipe
{
    using T = detail::pipe_t;
    static constexpr const char* nm = "pipe";
    static constexpr bool copy = true;
    static std::unique_ptr<T> make(env&) { return std::make_unique<T>(); }
    static std::vector<int> fds(T& t) { return {t.read_fd(), t.write_fd()}; }
    static int per() { return 2; }
    static int extra(T& t, int k)
    {
        if (k == 0) { t.close(); return 1; }
        if (t.read_fd() != -1) { char a = 'k', b = 0; SIM_CHECK(t.write(&a, 1) == 1 && t.read(&b, 1) == 1 && b == 'k', "wrong-state", "a pipe does not carry a byte"); }
        return 0;
    }
};
struct k_stop
{
    using T = poll_stop_source;
    static constexpr const char* nm = "stop source";
    static constexpr bool copy = false;
    static std::unique_ptr<T> make(env&) { return std::make_unique<T>(); }
    static std::vector<int> fds(T& t) { return {t.get_token().native_handle()}; }
    static int per() { return 2; }
    static int extra(T& t, int) { if (t.get_token().native_handle() != -1 && sim::chance(1, 2)) t.signal_stop(); return 0; }
};
// ---- slots: objects of one kind and what the model says about them
struct model { bool live = false; std::vector<u64> ids; int total = 0; };
struct pool_base
{
    virtual ~pool_base() = default;
    virtual void step(env&) = 0;
    virtual int  expected() = 0;
    virtual void verify() = 0;
    virtual void clear() = 0;
};
template<typename K> struct slots : pool_base
{
    using T = typename K::T;
    std::vector<std::unique_ptr<T>> o;
    std::vector<model> m;
    int  n;
    explicit slots(int k) : o(k), m(k), n(k) {}
    void adopt(int i)
    {
        auto f = K::fds(*o[i]);
        m[i]      = {};
        m[i].live = true;
        if (f[0] != -1) { for (int x : f) m[i].ids.push_back(sim::fd_id(x)); m[i].total = K::per(); }
        else if (K::per() == 3) m[i].total = 2;
    }
    void verify() override
    {
        std::set<int> seen;
        for (int i = 0; i < n; i++)
        {
            if (!m[i].live) continue;
            auto f = K::fds(*o[i]);
            for (size_t j = 0; j < f.size(); j++)
            {
                if (m[i].ids.empty()) { SIM_CHECK(f[j] == -1, "wrong-state", "a %s that gave its descriptor away or closed it still has %d", K::nm, f[j]); continue; }
                SIM_CHECK(sim::fd_id(f[j]) == m[i].ids[j], "wrong-descriptor", "a %s holds descriptor %d, which is %s", K::nm, f[j], sim::fd_open(f[j]) ? "another file" : "closed");
                SIM_CHECK(seen.insert(f[j]).second, "shared-descriptor", "two objects of kind %s own descriptor %d", K::nm, f[j]);
            }
        }
    }
    int expected() override { int k = 0; for (auto& x : m) if (x.live) k += x.total; return k; }
    void clear() override { for (int i = 0; i < n; i++) { o[i].reset(); m[i] = {}; } }
    int any(bool live) { std::vector<int> c; for (int i = 0; i < n; i++) if (m[i].live == live) c.push_back(i); return c.empty() ? -1 : c[sim::pick((uint32_t)c.size())]; }
    // what a moved-from object keeps
    void taken(int i) { m[i].ids.clear(); m[i].total = K::per() == 3 && !server_moves_stop ? 2 : 0; }
    static constexpr bool server_moves_stop = false;
    void step(env& e) override
    {
        int op = sim::pick(10), a = any(true), f = any(false);
        sim::mix(op);
        if (a < 0 || (op == 0 && f >= 0)) { if (f < 0) return; o[f] = K::make(e); adopt(f); return; }
        int b = any(true);
        switch (op)
        {
            case 1: o[a].reset(); m[a] = {}; break;
            case 2: case 3: // move construct
                if (f < 0) break;
                o[f] = std::make_unique<T>(std::move(*o[a]));
                moved(f, a, true);
                break;
            case 4: case 5: // move assign
                if constexpr (std::is_move_assignable_v<T>)
                {
                    if (a == b) { auto& r = *o[b]; *o[a] = std::move(r); break; }
                    *o[b] = std::move(*o[a]);
                    moved(b, a, false);
                }
                break;
            case 6: // copy construct
                if constexpr (K::copy) { if (f < 0) break; o[f] = std::make_unique<T>(*o[a]); m[f] = m[a]; }
                break;
            case 7: // copy assign
                if constexpr (K::copy) { if (a == b) { auto& r = *o[b]; *o[a] = r; break; } *o[b] = *o[a]; m[b] = m[a]; }
                break;
            case 8:
                if (K::extra(*o[a], sim::pick(2))) { m[a].ids.clear(); m[a].total = 0; }
                break;
            default: // through a container
            {
                if (f < 0) break;
                std::vector<T> v;
                v.push_back(std::move(*o[a]));
                taken(a);
                if (sim::chance(1, 2)) { v.reserve(8); }
                auto ids = m[a];
                o[f] = std::make_unique<T>(std::move(v.back()));
                adopt(f);
            }
        }
    }
    void moved(int to, int from, bool fresh)
    {
        // a server keeps the stop source it was made with
        int keep = K::per() == 3 ? 2 : 0;
        auto ids = m[from].ids;
        bool has = !ids.empty();
        m[to].live  = true;
        m[to].ids   = ids;
        m[to].total = keep + (has ? K::per() - keep : 0);
        m[from].ids.clear();
        m[from].total = keep;
        (void)fresh;
    }
};
// ---- frames
struct counted
{
    static inline int live = 0;
    int* p;
    counted() : p(new int(7)) { live++; }
    counted(counted&& o) noexcept : p(std::exchange(o.p, nullptr)) { live++; }
    counted(const counted&) = delete;
    counted& operator=(counted&& o) noexcept { delete p; p = std::exchange(o.p, nullptr); return *this; }
    ~counted() { live--; delete p; }
};
task<counted> produce(counted c) { co_return c; }
task<int> consume(counted c, bool fail) { if (fail) throw std::runtime_error("x"); co_return *c.p; }
generator<int> numbers(counted c) { for (int i = 0;; i++) co_yield i + *c.p; }
task<void> put(queue<counted>& qu) { co_await qu.push(counted{}); }
void frames(env& e)
{
    int which = sim::pick(9);
    sim::note("frames %d", which);
    switch (which)
    {
        case 0: { auto t = produce(counted{}); } break; // never started
        case 1: { auto t = produce(counted{}); auto u = std::move(t); auto c = sync_wait(std::move(u)); SIM_CHECK(*c.p == 7, "wrong-state", "value"); } break;
        case 2: { auto t = consume(counted{}, false); t = consume(counted{}, false); SIM_CHECK(sync_wait(std::move(t)) == 7, "wrong-state", "value"); } break;
        case 3: { bool threw = false; try { sync_wait(consume(counted{}, true)); } catch (std::runtime_error&) { threw = true; } SIM_CHECK(threw, "wrong-state", "no exception"); } break;
        case 4: { auto g = numbers(counted{}); int k = sim::pick(4); for (int x : g) if (x - 7 >= k) break; if (sim::chance(1, 2)) { auto h = std::move(g); } } break;
        case 5: { queue<counted> qu; for (int i = sim::pick(4); i >= 0; i--) sync_wait(put(qu)); if (sim::chance(1, 2)) { auto x = sync_wait(qu.pop()); } } break; // left inside
        case 6:
        {
            auto rb = std::make_unique<ring_buffer<counted, 3>>();
            for (int i = sim::pick(3); i >= 0; i--) sync_wait([](ring_buffer<counted, 3>& r) -> task<void> { co_await r.produce(counted{}); }(*rb));
        }
        break;
        case 7:
        {
            std::vector<task<int>> v;
            for (int i = sim::pick(4); i >= 0; i--) v.emplace_back(consume(counted{}, sim::chance(1, 4)));
            auto w = when_all(std::move(v));
            if (sim::chance(1, 2)) { auto r = sync_wait(std::move(w)); for (auto& x : r) try { (void)x.return_value(); } catch (std::runtime_error&) {} }
        }
        break;
        default:
        {
            // detached on a scheduler, with values in the frame
            int k = 1 + sim::pick(3);
            latch l{(i64)k};
            for (int i = 0; i < k; i++)
                e.s->spawn_detached([](scheduler& s, counted c, latch& l) -> task<void> { co_await s.yield_for(std::chrono::microseconds(sim::pick(300))); if (c.p) l.count_down(); }(*e.s, counted{}, l));
            sync_wait([](latch& l) -> task<void> { co_await l; }(l));
            while (!e.s->empty()) sim::sleep_ns(10'000); // the frames go after the last statement of the tasks
        }
    }
}
// ---- whole machines
void machines()
{
    int before = sim::fd_total(), th = sim::live_threads();
    switch (sim::pick(4))
    {
        case 0: { auto p = thread_pool::make_unique(bed::popt(1 + sim::pick(3))); if (sim::chance(1, 2)) { int n = sim::pick(4); for (int i = 0; i < n; i++) p->spawn_detached([](thread_pool& p, counted c) -> task<void> { co_await p.yield(); }(*p, counted{})); } if (sim::chance(1, 2)) p->shutdown(); } break;
        case 1: { auto s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2)); if (sim::chance(1, 2)) s->spawn_detached([](scheduler& s, counted c) -> task<void> { co_await s.yield_for(ms(1)); }(*s, counted{})); if (sim::chance(1, 2)) s->shutdown(); } break;
        case 2:
        {
            auto s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
            auto w = [](std::unique_ptr<scheduler>& s, counted c) -> task<void> {
                co_await s->schedule();
                poll_stop_source st;
                detail::pipe_t   p;
                if (sim::chance(1, 2)) { char x = 1; p.write(&x, 1); }
                else if (sim::chance(1, 2)) st.signal_stop();
                co_await s->poll(p.read_fd(), poll_op::read, ms(1 + sim::pick(3)), st.get_token());
            };
            std::vector<task<void>> v;
            for (int i = sim::pick(3); i >= 0; i--) v.emplace_back(w(s, counted{}));
            sync_wait(when_all(std::move(v)));
        }
        break;
        default:
        {
            auto s = bed::mksched(sim::chance(1, 2), 1);
            uint16_t port = 1500;
            net::tcp::server srv{s, net::socket_address{"127.0.0.1", port}};
            auto cl = [](std::unique_ptr<scheduler>& s, uint16_t port) -> task<void> {
                co_await s->schedule();
                std::vector<net::tcp::client> all;
                int k = 1 + sim::pick(3);
                for (int i = 0; i < k; i++)
                {
                    all.emplace_back(s, net::socket_address{"127.0.0.1", port});
                    auto r = co_await all.back().connect(ms(2000));
                    SIM_CHECK(r == net::connect_status::connected || sim::stalled() > 500'000'000, "wrong-state", "no connection");
                }
                std::string x = "y";
                if (sim::chance(1, 2)) co_await all.front().write_all(x);
                if (sim::chance(1, 2)) { auto first = all.front(); all.erase(all.begin()); }
            };
            auto sv = [](std::unique_ptr<scheduler>& s, net::tcp::server& srv) -> task<void> {
                co_await s->schedule();
                std::vector<net::tcp::client> got;
                while (true)
                {
                    auto c = co_await srv.accept(ms(3));
                    if (!c) break;
                    got.push_back(std::move(*c));
                }
            };
            sync_wait(when_all(cl(s, port), sv(s, srv)));
            if (sim::chance(1, 2)) { net::tcp::server other{s, net::socket_address{"127.0.0.1", 1501}}; other = std::move(srv); }
        }
    }
    SIM_CHECK(sim::fd_total() == before, "fd-leak", "%d descriptors remain of a scheduler or pool and what used it: %s", sim::fd_total() - before, sim::fd_table().c_str());
    SIM_CHECK((int)sim::live_threads() == th, "thread-leak", "threads remain of a scheduler or pool");
}
// ---- connected clients stay usable through every move
void carry(env& e)
{
    auto srv = std::make_unique<net::tcp::server>(e.s, net::socket_address{"127.0.0.1", (uint16_t)e.port});
    auto go  = [](env& e, net::tcp::server& srv) -> task<void> {
        net::tcp::client a{e.s, net::socket_address{"127.0.0.1", (uint16_t)e.port}};
        co_await a.connect();
        auto c = co_await srv.accept();
        SIM_CHECK(c.has_value(), "wrong-state", "no accepted client");
        net::tcp::client b = std::move(*c);
        net::tcp::client spare{e.s, net::socket_address{"127.0.0.1", 1997}};
        for (int i = 0; i < 4; i++)
        {
            std::string x(1, (char)('a' + i)), y(1, 0);
            co_await a.write_all(x);
            auto [st, in] = co_await b.read_some(y);
            SIM_CHECK(st.is_ok() && in.size() == 1 && y == x, "wrong-state", "a connection does not carry a byte after its client was moved or copied");
            switch (sim::pick(5))
            {
                case 0: { auto t = std::move(a); a = std::move(t); } break;
                case 1: spare = b; b = std::move(spare); spare = net::tcp::client{e.s, net::socket_address{"127.0.0.1", 1997}}; break;
                case 2: { auto t = a; a = net::tcp::client{e.s, net::socket_address{"127.0.0.1", 1997}}; a = std::move(t); } break;
                case 3: std::swap(a, spare); std::swap(a, spare); break;
                default: { auto t = b; net::tcp::client u = t; t = u; b = u; } break;
            }
        }
    };
    sync_wait(go(e, *srv));
    e.port++;
}
} // namespace
SIM_SCENARIO("C23", c23_resources, 1)
{
    sim::net.sigpipe_ignored = true;
    if (sim::chance(1, 3)) sim::faults_enable("close-eintr", true);
    int base = sim::fd_total();
    {
        host<int> dummy(0);
        env e;
        e.s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
        e.cctx = std::make_shared<net::tls::context>(net::tls::verify_peer_t::no);
        int own = sim::fd_total();
        counted::live = 0;
        std::vector<std::unique_ptr<pool_base>> ps;
        ps.emplace_back(std::make_unique<slots<k_socket>>(4));
        ps.emplace_back(std::make_unique<slots<k_client>>(4));
        ps.emplace_back(std::make_unique<slots<k_server>>(3));
        ps.emplace_back(std::make_unique<slots<k_peer>>(4));
        ps.emplace_back(std::make_unique<slots<k_tls>>(3));
        ps.emplace_back(std::make_unique<slots<k_pipe>>(4));
        ps.emplace_back(std::make_unique<slots<k_stop>>(4));
        int k = 5 + sim::pick(40), focus = sim::pick((uint32_t)ps.size() + 1);
        for (int i = 0; i < k; i++)
        {
            int w = sim::pick(16);
            if (w == 0) frames(e);
            else if (w == 1) machines();
            else if (w == 2) carry(e);
            else ps[focus < (int)ps.size() && sim::chance(1, 2) ? focus : sim::pick((uint32_t)ps.size())]->step(e);
            int exp = own;
            for (auto& p : ps) { p->verify(); exp += p->expected(); }
            SIM_CHECK(sim::fd_total() == exp, "fd-leak", "%d descriptors are open, the live objects own %d: %s", sim::fd_total(), exp, sim::fd_table().c_str());
            SIM_CHECK(counted::live == 0, "frame-leak", "%d values remain of finished or destroyed coroutines and containers", counted::live);
        }
        for (auto& p : ps) p->clear();
        SIM_CHECK(sim::fd_total() == own, "fd-leak", "%d descriptors remain after every object is gone: %s", sim::fd_total() - own, sim::fd_table().c_str());
        if (sim::chance(1, 2)) e.s->shutdown();
    }
    SIM_CHECK(sim::fd_total() == base, "fd-leak", "%d descriptors remain of the scheduler", sim::fd_total() - base);
}
