// C24: failing system calls, thread creation and allocations: errors are reported, nothing is leaked, hung or run twice.
#include "sc.hpp"
#include <cerrno>
#include <sys/socket.h>
using namespace sc;
using ms = std::chrono::milliseconds;
using kind = net::io_status::kind;
namespace
{
// what may fail in this run
void choose(int of)
{
    auto& f = sim::nf;
    static const char* em[] = {"socket-emfile", "accept-emfile", "dup-emfile", "pipe-emfile", "timerfd-emfile", "epoll-emfile"};
    static const char* sy[] = {"epoll-ctl-fails", "bind-fails", "listen-fails", "setsockopt-fails", "getsockopt-fails", "connect-eaddrnotavail"};
    uint32_t den = 1 + sim::skew(of);
    f.emfile = f.sysfail = 1 + den;
    int all = sim::pick(3);
    for (auto* k : em) if (all == 0 || sim::chance(1, 3)) sim::faults_enable(k, true);
    for (auto* k : sy) if (all == 0 || sim::chance(1, 3)) sim::faults_enable(k, true);
    if (all == 0 || sim::chance(1, 3)) sim::faults_enable("thread-create-fails", true);
    if (sim::chance(1, 3)) { f.eintr = 3 + sim::pick(10); sim::faults_enable("epoll-eintr", true); }
    sim::faults_enable("alloc-fails", true);
}
struct trouble // allocations of this thread fail within
{
    explicit trouble(uint32_t den) { sim::alloc_faults(den); }
    ~trouble() { sim::alloc_faults(0); }
};
i64 M() { return 3 * (sim::slack() + sim::stalled()) + 1'000'000; }
// an object that was created without an exception works
void works(scheduler& s)
{
    int  fd[2];
    detail::pipe_t p;
    auto go = [](scheduler& s, detail::pipe_t& p) -> task<void> {
        co_await s.schedule();
        i64 t0 = sim::now();
        co_await s.yield_for(ms(2));
        SIM_CHECK(sim::now() - t0 >= 2'000'000 && sim::now() - t0 <= 2'000'000 + M(), "dead", "a scheduler created without an error sleeps %lld ns for 2 ms", (long long)(sim::now() - t0));
        auto st = co_await s.poll(p.read_fd(), poll_op::read, ms(1));
        SIM_CHECK(st == poll_status::timeout, "dead", "polling an empty pipe ended with %d", (int)st);
        char c = 1;
        SIM_CHECK(p.write(&c, 1) == 1, "dead", "pipe");
        st = co_await s.poll(p.read_fd(), poll_op::read, ms(0));
        SIM_CHECK(st == poll_status::read, "dead", "polling a pipe with data ended with %d", (int)st);
    };
    (void)fd;
    sync_wait(go(s, p));
}
void works(thread_pool& p)
{
    std::atomic<int> n{0};
    auto go = [](thread_pool& p, std::atomic<int>& n) -> task<void> { co_await p.schedule(); co_await p.yield(); n++; };
    sync_wait(when_all(go(p, n), go(p, n), go(p, n)));
    SIM_CHECK(n == 3, "dead", "a thread pool created without an error ran %d of 3 tasks", n.load());
}
void works(std::unique_ptr<scheduler>& s, net::tcp::server& srv, uint16_t port)
{
    auto cl = [](std::unique_ptr<scheduler>& s, uint16_t port) -> task<void> {
        net::tcp::client c{s, net::socket_address{"127.0.0.1", port}};
        auto r = co_await c.connect();
        SIM_CHECK(r == net::connect_status::connected, "dead", "connecting to a server that was created without an error ended with %d", (int)r);
        std::string x = "ping", y(4, 0);
        auto [a, b] = co_await c.write_all(x);
        SIM_CHECK(a.is_ok(), "dead", "write");
        auto [st, in] = co_await c.read_exact(y);
        SIM_CHECK(st.is_ok() && y == x, "dead", "echo");
    };
    auto sv = [](net::tcp::server& srv) -> task<void> {
        auto c = co_await srv.accept();
        SIM_CHECK(c.has_value(), "dead", "accepting on a server that was created without an error failed");
        std::string y(4, 0);
        auto [st, in] = co_await c->read_exact(y);
        SIM_CHECK(st.is_ok(), "dead", "read");
        co_await c->write_all(y);
    };
    sync_wait(when_all(cl(s, port), sv(srv)));
}
struct mark { int f, t; long l; static mark now() { return {sim::fd_total(), (int)sim::live_threads(), 0}; } };
void same(mark m, const char* what)
{
    SIM_CHECK(sim::fd_total() == m.f, "fd-leak", "%d descriptors remain after %s: %s", sim::fd_total() - m.f, what, sim::fd_table().c_str());
    SIM_CHECK((int)sim::live_threads() == m.t, "thread-leak", "%d threads remain after %s", sim::live_threads() - m.t, what);
}
template<typename F> bool attempt(uint32_t alloc, const char* what, F&& f)
{
    bool ok = true;
    std::string why; 
    try
    {
        trouble t{alloc};
        f();
    }
    catch (const std::bad_alloc&) { ok = false; }
    catch (const std::system_error&) { ok = false; }
    catch (const std::runtime_error&) { ok = false; }
    sim::mix(ok);
    sim::probe(ok ? "created" : "creation failed");
    sim::log("%s: %s", what, ok ? "ok" : "exception");
    return ok;
}
} // namespace
// Objects are created while resources run out: either an exception and no trace of the attempt, or an object that works.
SIM_SCENARIO("C24", c24_create, 3)
{
    sim::net.sigpipe_ignored = true;
    auto s0 = bed::mksched(sim::chance(1, 2), 1);
    auto cctx = std::make_shared<net::tls::context>(net::tls::verify_peer_t::no);
    auto sctx = std::make_shared<net::tls::context>(SCN_DIR "/tls/cert.pem", net::tls::tls_file_type::pem, SCN_DIR "/tls/key.pem", net::tls::tls_file_type::pem, net::tls::verify_peer_t::no);
    uint16_t port = 2000;
    int k = 1 + sim::pick(6);
    for (int i = 0; i < k; i++)
    {
        int  n = 1 + sim::pick(3), what = sim::pick(10);
        bool inl = sim::chance(1, 2), manual = sim::chance(1, 5);
        uint32_t al = sim::chance(1, 2) ? 0 : 1 + sim::pick(8);
        mark m = mark::now();
        std::unique_ptr<thread_pool>          tp;
        std::unique_ptr<scheduler>            s;
        std::unique_ptr<net::tcp::server>     srv;
        std::unique_ptr<net::tls::server>     tsrv;
        std::unique_ptr<net::tcp::client>     cl;
        std::unique_ptr<net::tls::client>     tcl;
        std::unique_ptr<net::udp::peer>       pr;
        std::unique_ptr<poll_stop_source>     st;
        std::unique_ptr<net::dns::resolver<scheduler>> res;
        net::socket_address here{"127.0.0.1", port++};
        choose(4);
        if (sim::chance(1, 2)) sim::faults_enable("fcntl-setfl-fails", true);
        bool ok = false;
        switch (what)
        {
            case 0: ok = attempt(al, "thread_pool", [&] { tp = thread_pool::make_unique(bed::popt(n)); }); break;
            case 1: case 2:
                ok = attempt(al, "scheduler", [&] {
                    s = scheduler::make_unique(scheduler::options{
                        .thread_strategy            = manual ? scheduler::thread_strategy_t::manual : scheduler::thread_strategy_t::spawn,
                        .on_io_thread_start_functor = nullptr,
                        .on_io_thread_stop_functor  = nullptr,
                        .pool                       = bed::popt(n),
                        .execution_strategy         = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool});
                });
                break;
            case 3: ok = attempt(al, "tcp server", [&] { srv = std::make_unique<net::tcp::server>(s0, here); }); break;
            case 4: ok = attempt(al, "tcp client", [&] { cl = std::make_unique<net::tcp::client>(s0, here); }); break;
            case 5: ok = attempt(al, "udp peer", [&] { pr = std::make_unique<net::udp::peer>(s0, here); }); break;
            case 6: ok = attempt(al, "tls client", [&] { tcl = std::make_unique<net::tls::client>(s0, cctx, here); }); break;
            case 9: ok = attempt(al, "tls server", [&] { tsrv = std::make_unique<net::tls::server>(s0, sctx, here); }); break;
            case 7: ok = attempt(al, "stop source", [&] { st = std::make_unique<poll_stop_source>(); }); break;
            default: ok = attempt(al, "resolver", [&] { res = std::make_unique<net::dns::resolver<scheduler>>(s0, ms(100)); }); break;
        }
        sim::faults_off();
        if (!ok) same(m, "an exception out of a constructor");
        else
        {
            if (tp) works(*tp);
            if (s && !manual) works(*s);
            if (s && manual)
            {
                bool done = false;
                s->spawn_detached([](scheduler& s, bool& d) -> task<void> { co_await s.yield_for(ms(1)); d = true; }(*s, done));
                for (int j = 0; j < 50 && !s->empty(); j++) s->process_events(ms(2));
                SIM_CHECK(done && s->empty(), "dead", "a scheduler created without an error does not run a task");
            }
            if (srv || tsrv)
            {
                // it listens, and its options are set: its successor can already take over the port
                net::tcp::client c{s0, here};
                if (tsrv || sim::chance(1, 3))
                {
                    auto r = sync_wait(c.connect());
                    SIM_CHECK(r == net::connect_status::connected, "dead", "connecting to a server that was created without an error ended with %d", (int)r);
                    if (srv) { auto a = sync_wait(srv->accept()); SIM_CHECK(a.has_value(), "dead", "accepting on a server that was created without an error failed"); }
                }
                if (srv && sim::chance(1, 2)) works(s0, *srv, port - 1);
                std::unique_ptr<net::tcp::server> heir;
                std::string why;
                try { heir = std::make_unique<net::tcp::server>(s0, here); } catch (const std::runtime_error& e) { why = e.what(); }
                SIM_CHECK(heir != nullptr, "dead", "a server that was created without an error does not share its port: %s", why.c_str());
                srv.reset();
                tsrv.reset();
                works(s0, *heir, port - 1);
            }
            if (cl || pr || tcl)
            {
                int fd = cl ? cl->socket().native_handle() : pr ? pr->socket().native_handle() : tcl->socket().native_handle();
                SIM_CHECK(sim::fd_open(fd), "dead", "an object created without an error has no socket");
                // nothing has arrived for it: reading does not wait, or the event loop would wait with it
                char b;
                ssize_t g = ::recv(fd, &b, 1, 0);
                SIM_CHECK(g == -1 && (errno == EAGAIN || errno == ENOTCONN), "dead", "reading from a new socket ended with %zd, errno %d", g, errno);
            }
            if (st)
            {
                auto go = [](scheduler& s, poll_stop_source& st) -> task<void> {
                    detail::pipe_t p;
                    st.signal_stop();
                    auto r = co_await s.poll(p.read_fd(), poll_op::read, ms(0), st.get_token());
                    SIM_CHECK(r == poll_status::cancelled, "dead", "a stop source does not stop");
                };
                sync_wait(go(*s0, *st));
            }
        }
        s.reset(); tp.reset(); srv.reset(); cl.reset(); pr.reset(); tcl.reset(); st.reset(); res.reset();
        sim::faults_off(false);
        same(m, "creation and destruction");
    }
    sim::faults_off();
    works(*s0);
}
namespace
{
struct tally
{
    std::vector<int> ran; // per started task: how often it got to its end
    std::vector<int> fate; // 0 undecided, 1 reported as started, 2 reported as failed
};
task<void> tick(tally* t, int i) { q([&] { t->ran[i]++; }); co_return; }
task<void> sleepy_void(scheduler& s, int us) { co_await s.yield_for(std::chrono::microseconds(us)); }
task<int> sleepy(scheduler& s, int us) { co_await s.yield_for(std::chrono::microseconds(us)); co_return us; }
} // namespace
// Allocations of a caller's thread fail in the middle of a library call.
SIM_SCENARIO("C24", c24_alloc, 3)
{
    auto s = bed::mksched(true, 1);
    host<tally> t;
    auto T = &*t;
    q([&] { T->ran.reserve(100); T->fate.reserve(100); });
    detail::pipe_t p;
    poll_stop_source stop;
    sim::faults_enable("alloc-fails", true);
    int k = 1 + sim::pick(12);
    auto slot = [&] { return q([&] { T->ran.push_back(0); T->fate.push_back(0); return (int)T->ran.size() - 1; }); };
    auto group = std::make_unique<task_group<scheduler>>(s.get());
    uint32_t den = 1 + sim::pick(6);
    for (int i = 0; i < k; i++)
    {
        int op = sim::pick(14);
        sim::note("op %d", op);
        sim::mix(op);
        bool threw = false;
        try
        {
            switch (op)
            {
                case 0: case 1:
                {
                    int n = slot();
                    auto x = tick(T, n);
                    bool ok = false;
                    try { trouble f{den}; ok = s->spawn_detached(std::move(x)); } catch (const std::bad_alloc&) {}
                    q([&] { T->fate[n] = ok ? 1 : 2; });
                }
                break;
                case 2: case 3:
                {
                    int n = slot();
                    auto x = tick(T, n);
                    bool ok = false;
                    try { trouble f{den}; ok = group->start(std::move(x)); } catch (const std::bad_alloc&) {}
                    q([&] { T->fate[n] = ok ? 1 : 2; });
                }
                break;
                case 4: { trouble f{den}; sync_wait(s->yield_for(std::chrono::microseconds(1 + sim::pick(2000)))); } break;
                case 5: { trouble f{den}; sync_wait(s->yield_until(std::chrono::steady_clock::now() + std::chrono::microseconds(1 + sim::pick(2000)))); } break;
                case 6: case 7:
                {
                    bool data = sim::chance(1, 3), tok = sim::chance(1, 2), to = sim::chance(2, 3) || !data;
                    char c = 0;
                    if (data) SIM_CHECK(p.write(&c, 1) == 1, "dead", "pipe");
                    bool did = false;
                    poll_status st{};
                    try
                    {
                        trouble f{den};
                        st  = sync_wait(s->poll(p.read_fd(), poll_op::read, to ? ms(1 + sim::pick(3)) : ms(0), tok ? std::optional<poll_stop_token>{stop.get_token()} : std::nullopt));
                        did = true;
                    }
                    catch (const std::bad_alloc&) {}
                    if (did) SIM_CHECK(st == poll_status::read ? data : st == poll_status::timeout && to && (!data || sim::stalled() + sim::slack() > 300'000), "wrong-status", "poll ended with %d", (int)st);
                    SIM_CHECK(!sim::epoll_watches(p.read_fd()) && !sim::epoll_watches(stop.get_token().native_handle()), "left-behind", "the descriptor is still watched after poll ended");
                    if (data) SIM_CHECK(p.read(&c, 1) == 1, "dead", "pipe");
                }
                break;
                case 8:
                {
                    int a = 1 + sim::pick(500), b = 1 + sim::pick(500);
                    trouble f{den};
                    auto [x, y] = sync_wait(when_all(sleepy(*s, a), sleepy(*s, b)));
                    SIM_CHECK(x.return_value() == a && y.return_value() == b, "wrong-result", "when_all");
                }
                break;
                case 9:
                {
                    int n = slot();
                    bool ok = false;
                    try { trouble f{den}; auto j = s->spawn_joinable(tick(T, n)); sync_wait(std::move(j)); ok = true; } catch (const std::bad_alloc&) {}
                    q([&] { T->fate[n] = ok ? 1 : 3; }); // joining, not starting it, can have failed
                }
                break;
                case 10: case 11: // the first of several: one of them, or the failure; and nobody is left waiting
                {
                    int a = 1 + sim::pick(500), b = 1 + sim::pick(500), form = sim::pick(5), got = -1;
                    std::stop_source src;
                    try
                    {
                        trouble f{den};
                        if (form == 0) { auto v = sync_wait(when_any(sleepy(*s, a), sleepy(*s, b))); got = v.index() == 0 ? std::get<0>(v) : std::get<1>(v); }
                        else if (form == 1) { auto v = sync_wait(when_any(src, sleepy(*s, a), sleepy(*s, b))); got = v.index() == 0 ? std::get<0>(v) : std::get<1>(v); }
                        else if (form == 2)
                        {
                            std::vector<task<int>> v;
                            v.push_back(sleepy(*s, a)); v.push_back(sleepy(*s, b));
                            got = sync_wait(when_any(std::move(v)));
                        }
                        else
                        {
                            std::vector<task<void>> v;
                            v.push_back(sleepy_void(*s, a)); v.push_back(sleepy_void(*s, b));
                            if (form == 3) sync_wait(when_any(std::move(v))); else sync_wait(when_any(src, std::move(v)));
                            got = a;
                        }
                    }
                    catch (const std::bad_alloc&) { sim::probe("when_any failed"); }
                    SIM_CHECK(got == -1 || got == a || got == b, "wrong-result", "when_any");
                    if (got != -1 && (form == 1 || form == 4)) SIM_CHECK(src.stop_requested(), "no-stop", "the stop source was not asked to stop");
                }
                break;
                default:
                {
                    trouble f{den};
                    auto r = sync_wait(s->schedule(sleepy(*s, 100 + sim::pick(3000)), ms(1 + sim::pick(2))));
                    (void)r;
                }
            }
        }
        catch (const std::bad_alloc&) { threw = true; }
        sim::mix(threw);
        sim::probe(threw ? "bad_alloc" : "done");
    }
    sim::faults_off();
    // what was accepted runs, exactly once; what was refused does not; and nobody waits for tasks that never were
    i64 t0 = sim::now();
    while (!s->empty() && sim::now() - t0 < 100'000'000 + M()) sim::sleep_ns(1'000'000);
    SIM_CHECK(s->empty(), "size-leak", "the scheduler counts %zu tasks, nothing is running", (size_t)s->size());
    t0 = sim::now();
    while (!group->empty() && sim::now() - t0 < 100'000'000 + M()) sim::sleep_ns(1'000'000);
    SIM_CHECK(group->empty(), "size-leak", "the task group counts %zu tasks, nothing is running", (size_t)group->size());
    q([&] {
        for (size_t i = 0; i < T->ran.size(); i++)
            SIM_CHECK(T->fate[i] == 3 ? T->ran[i] <= 1 : T->ran[i] == (T->fate[i] == 1), "not-exactly-once", "a task that was %s ran %d times", T->fate[i] == 1 ? "accepted" : "refused", T->ran[i]);
    });
    group.reset();
    works(*s);
    s->shutdown();
}
namespace
{
struct world
{
    std::unique_ptr<scheduler>* s;
    bool calm = false, stopping = false; // no faults any more
    net::dns::resolver<scheduler>* dns = nullptr;
    std::shared_ptr<net::tls::context> cctx;
    int  live = 0, echoed = 0, accepted = 0, connected = 0;
};
char pat(int i, size_t j) { return (char)(i * 31 + j * 7 + (j >> 8)); }
// echoes until the peer closes; results other than closed are retried, the stream stays intact
task<void> echo(world* w, net::tcp::client c)
{
    std::vector<char> b(300);
    while (true)
    {
        auto [st, in] = co_await c.read_some(b);
        if (!st.is_ok())
        {
            if (st.type == kind::closed || st.type == kind::connection_reset) break;
            SIM_CHECK(in.empty(), "wrong-span", "a failed read has bytes");
            co_await w->s->get()->yield_for(std::chrono::microseconds(200));
            continue;
        }
        std::span<const char> rest = in;
        while (!rest.empty())
        {
            auto [ws, left] = co_await c.write_all(rest);
            rest = left;
            if (ws.is_ok()) { SIM_CHECK(rest.empty(), "wrong-span", "ok with bytes left"); break; }
            if (ws.type == kind::closed || ws.type == kind::connection_reset || (ws.type == kind::native && ws.native_code == EPIPE)) { co_return; }
            co_await w->s->get()->yield_for(std::chrono::microseconds(200));
        }
    }
}
// one exchange on an established connection
task<void> talk(world* w, net::tcp::client& c, int id, size_t total)
{
    size_t sent = 0, got = 0;
    std::vector<char> out(total), in(total);
    for (size_t i = 0; i < total; i++) out[i] = pat(id, i);
    while (got < total)
    {
        size_t room = (size_t)std::min(sim::net.sndbuf, 4000) - (sent - got); // no deadlock of full buffers
        if (sent < total && room)
        {
            std::span<const char> rest{out.data() + sent, std::min({total - sent, (size_t)1 + sim::pick(2000), room})};
            size_t n = rest.size();
            auto [st, left] = co_await c.write_some(rest);
            SIM_CHECK(left.size() <= n, "wrong-span", "span");
            sent += n - left.size();
            if (!st.is_ok())
            {
                SIM_CHECK(st.type != kind::closed && st.type != kind::connection_reset, "wrong-status", "an established connection was lost because of an unrelated failure (%s)", st.message().c_str());
                co_await w->s->get()->yield_for(std::chrono::microseconds(100));
            }
        }
        if (sent > got)
        {
            std::span<char> room{in.data() + got, total - got};
            auto [st, sp] = co_await c.read_some(room, ms(sim::chance(1, 3) ? 2 : 0));
            if (st.is_ok()) { SIM_CHECK(got + sp.size() <= sent, "invented-bytes", "more than was sent came back"); for (size_t i = 0; i < sp.size(); i++) SIM_CHECK(sp[i] == pat(id, got + i), "wrong-bytes", "byte %zu of the stream is wrong", got + i); got += sp.size(); }
            else
            {
                SIM_CHECK(st.type != kind::closed && st.type != kind::connection_reset, "wrong-status", "an established connection was lost because of an unrelated failure (%s)", st.message().c_str());
                if (!st.is_timeout()) co_await w->s->get()->yield_for(std::chrono::microseconds(100));
            }
        }
    }
    w->echoed++;
}
std::optional<net::tcp::client> mkclient(world* w, uint16_t port)
{
    try { return std::optional<net::tcp::client>{std::in_place, *w->s, net::socket_address{"127.0.0.1", port}}; }
    catch (const std::runtime_error&) { return std::nullopt; }
}
task<void> client(world* w, net::tcp::client* held, uint16_t port, int id, int steps, latch* l)
{
    co_await w->s->get()->schedule();
    for (int i = 0; i < steps; i++)
    {
        int op = sim::pick(w->dns ? 8 : 7);
        sim::log("client %d op %d", id, op);
        sim::mix(op);
        switch (op)
        {
            case 0: case 1: co_await talk(w, *held, id + i, 1 + sim::pick(sim::chance(1, 2) ? 200 : 5000)); break;
            case 2: // a new connection
            {
                if (sim::chance(1, 3)) // to where nobody listens
                {
                    bool enc = sim::chance(1, 3);
                    net::socket_address nobody{"127.0.0.1", 2999};
                    if (enc)
                    {
                        std::optional<net::tls::client> t;
                        try { t.emplace(*w->s, w->cctx, nobody); } catch (const std::runtime_error&) { break; }
                        auto r = co_await t->connect(ms(50));
                        SIM_CHECK(r != net::tls::connection_status::connected, "false-success", "connected to nobody");
                        break;
                    }
                    std::optional<net::tcp::client> t;
                    try { t.emplace(*w->s, nobody); } catch (const std::runtime_error&) { break; }
                    auto r = co_await t->connect(ms(50));
                    SIM_CHECK(r != net::connect_status::connected, "false-success", "connected to nobody");
                    break;
                }
                auto c = mkclient(w, port);
                if (!c) break;
                auto st = co_await c->connect(ms(50));
                if (st == net::connect_status::connected) { w->connected++; std::string x = "a"; co_await c->write_all(x, ms(10)); }
                else SIM_CHECK(!w->calm, "wrong-status", "connect failed");
            }
            break;
            case 3: // a copy
            {
                net::tcp::client c = *held;
                if (c.socket().is_ok()) co_await talk(w, c, id + i, 1 + sim::pick(100));
                else
                {
                    std::string x = "a";
                    auto [st, left] = co_await c.write_all(x, ms(5));
                    SIM_CHECK(!st.is_ok() && left.size() == 1, "false-success", "writing to a client without a socket succeeded");
                }
            }
            break;
            case 4: // sleep
            {
                i64 t0 = sim::now(), d = 1 + sim::pick(2000);
                co_await w->s->get()->yield_for(std::chrono::microseconds(d));
                SIM_CHECK(sim::now() - t0 >= d * 1000 && sim::now() - t0 <= d * 1000 + 1'000'000 + M(), "late", "sleeping %lld us took %lld ns", (long long)d, (long long)(sim::now() - t0));
            }
            break;
            case 5: // several polls of one descriptor
            {
                std::optional<detail::pipe_t> p;
                std::optional<poll_stop_source> st;
                try { p.emplace(); st.emplace(); } catch (const std::runtime_error&) { break; }
                auto pl = [](world* w, detail::pipe_t& p, poll_stop_source& st) -> task<poll_status> { co_return co_await w->s->get()->poll(p.read_fd(), poll_op::read, ms(1 + sim::pick(3)), sim::chance(1, 2) ? std::optional<poll_stop_token>{st.get_token()} : std::nullopt); };
                std::vector<task<poll_status>> v;
                bool data = sim::chance(1, 3), stop = sim::chance(1, 3);
                char c = 1;
                if (data) SIM_CHECK(p->write(&c, 1) == 1, "dead", "pipe");
                if (stop) st->signal_stop();
                for (int j = 1 + sim::pick(3); j > 0; j--) v.emplace_back(pl(w, *p, *st));
                auto r = co_await when_all(std::move(v));
                for (auto& x : r)
                {
                    auto ps = x.return_value();
                    SIM_CHECK(ps == poll_status::timeout || (ps == poll_status::read && data) || (ps == poll_status::cancelled && stop) || (ps == poll_status::error && !w->calm), "wrong-status", "poll of a pipe ended with %d", (int)ps);
                }
                SIM_CHECK(!sim::epoll_watches(p->read_fd()), "left-behind", "the descriptor is still watched after the polls ended");
            }
            break;
            case 7: // a name
            {
                bool calm = w->calm;
                i64  t0 = sim::now();
                auto r  = co_await w->dns->host_by_name(net::hostname{"h" + std::to_string(sim::pick(3)) + ".test"});
                bool ok = r->status() == net::dns::status::complete;
                SIM_CHECK(sim::now() - t0 <= 15'000'000'000ll + M(), "late", "a lookup took %lld ms", (long long)(sim::now() - t0) / 1'000'000);
                SIM_CHECK(ok == !r->ip_addresses().empty(), "wrong-answer", "status %d with %zu addresses", (int)r->status(), r->ip_addresses().size());
                for (auto& a : r->ip_addresses()) SIM_CHECK(a.to_string() == "10.0.0.7", "wrong-answer", "address %s", a.to_string().c_str());
                sim::probe(ok ? "lookup ok" : "lookup failed");
                SIM_CHECK(ok || !calm || sim::stalled() + sim::slack() > 1'000'000'000, "wrong-answer", "a lookup fails though resources are there again");
                sim::mix(ok);
            }
            break;
            default: // datagrams
            {
                std::optional<net::udp::peer> a;
                try { a.emplace(*w->s, net::domain_t::ipv4); } catch (const std::runtime_error&) { break; }
                std::string x = "dgram";
                co_await a->write_to(net::socket_address{"127.0.0.1", 999}, x);
            }
        }
    }
    l->count_down();
}
// the name server: 10.0.0.7 for every name, no IPv6
void serve(const std::string& d, const sim::udp_reply& reply)
{
    size_t i = 12;
    while (i < d.size() && d[i]) i += 1 + (unsigned char)d[i];
    if (i + 5 > d.size()) return;
    bool a = d[i + 2] == 1;
    reply(d.substr(0, 2) + std::string("\x81\x80\0\1\0", 5) + (char)a + std::string("\0\0\0\0", 4) + d.substr(12, i + 5 - 12) + (a ? std::string("\xc0\x0c\0\1\0\1\0\0\0\x3c\0\4\x0a\0\0\7", 16) : ""));
}
task<void> acceptor(world* w, net::tcp::server* srv, task_group<scheduler>* g, latch* l)
{
    co_await w->s->get()->schedule();
    while (true)
    {
        bool calm = w->calm;
        auto c = co_await srv->accept();
        if (c.has_value()) { w->accepted++; if (!g->start(echo(w, std::move(*c)))) break; continue; }
        auto st = c.error();
        if (st.type == kind::cancelled || st.type == kind::closed || w->stopping) break;
        SIM_CHECK(!calm || st.try_again(), "wrong-status", "accept failed (%s)", st.message().c_str());
        co_await w->s->get()->yield_for(std::chrono::microseconds(200));
    }
    l->count_down();
}
} // namespace
// A system in use while resources run out now and then.
SIM_SCENARIO("C24", c24_use, 6)
{
    host<world> w;
    auto W = &*w;
    sim::net.sigpipe_ignored = true;
    sim::set_step_limit(800'000);
    auto s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->s = &s;
    w->cctx = std::make_shared<net::tls::context>(net::tls::verify_peer_t::no);
    if (sim::chance(1, 3)) sim::net.sndbuf = sim::net.rcvbuf = 200 + sim::pick(2000);
    {
        auto srv = std::make_unique<net::tcp::server>(s, net::socket_address{"127.0.0.1", 2000});
        task_group<scheduler> g{s.get()};
        latch al{1};
        std::unique_ptr<net::dns::resolver<scheduler>> dns;
        if (sim::chance(1, 3))
        {
            q([] {
                sim::vfile("/etc/resolv.conf", "nameserver 127.0.0.1\n");
                sim::vfile("/etc/hosts", "127.0.0.1 localhost\n");
                sim::vfile("/etc/nsswitch.conf", "hosts: files dns\n");
                sim::udp_host(53, serve);
            });
            dns = std::make_unique<net::dns::resolver<scheduler>>(s, ms(500));
            w->dns = dns.get();
        }
        s->spawn_detached(acceptor(W, srv.get(), &g, &al));
        int k = 1 + sim::pick(3);
        std::vector<std::unique_ptr<net::tcp::client>> held;
        for (int i = 0; i < k; i++)
        {
            held.emplace_back(std::make_unique<net::tcp::client>(s, net::socket_address{"127.0.0.1", 2000}));
            auto r = sync_wait(held.back()->connect());
            SIM_CHECK(r == net::connect_status::connected, "dead", "connect");
        }
        while (q([&] { return W->accepted < k; })) sim::sleep_ns(100'000);
        choose(6);
        if (sim::chance(1, 3)) { sim::nf.eagain = 3 + sim::pick(8); sim::faults_enable("tcp-spurious-eagain", true); }
        if (sim::chance(1, 3)) { sim::nf.short_send = sim::nf.short_recv = 2; sim::faults_enable("tcp-short-send", true); sim::faults_enable("tcp-short-recv", true); }
        {
            latch l{k};
            for (int i = 0; i < k; i++) s->spawn_detached(client(W, held[i].get(), 2000, i * 10, 1 + sim::pick(6), &l));
            // meanwhile somebody makes and drops schedulers
            for (int i = sim::pick(3); i > 0; i--)
            {
                try { auto t = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2)); bool r = t->spawn_detached([](scheduler& s) -> task<void> { co_await s.yield_for(ms(1)); }(*t)); SIM_CHECK(r, "dead", "refused"); }
                catch (const std::runtime_error&) {}
            }
            sync_wait([](latch& l) -> task<void> { co_await l; }(l));
        }
        sim::faults_off();
        q([&] { W->calm = true; });
        // everything works again, the connections that were open all the time first
        {
            latch l{k};
            for (int i = 0; i < k; i++) s->spawn_detached(client(W, held[i].get(), 2000, i * 10 + 5, 2, &l));
            sync_wait([](latch& l) -> task<void> { co_await l; }(l));
        }
        held.clear();
        sync_wait([](task_group<scheduler>& g) -> task<void> { co_await g; }(g));
        w->dns = nullptr;
        w->cctx = nullptr;
        dns.reset();
        q([&] { W->stopping = true; });
        srv->shutdown();
        sync_wait([](latch& l) -> task<void> { co_await l; }(al));
        i64 t0 = sim::now();
        while (!s->empty() && sim::now() - t0 < 1'000'000'000 + M()) sim::sleep_ns(1'000'000);
        SIM_CHECK(s->empty(), "left-behind", "%zu tasks remain on the scheduler", (size_t)s->size());
    }
    s->shutdown();
}
