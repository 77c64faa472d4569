// C17: polling a file descriptor ends exactly once, truthfully, and leaves nothing behind.
#include "sc.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
using namespace sc;
namespace
{
enum kind { EVENT_R, EVENT_W, PIPE_R, PIPE_W, TCP_R, TCP_W };
// One pollable descriptor (fd) and the far side the actors use (far).
struct chan
{
    kind k;
    int  fd = -1, far = -1;
    i64  ready_t = INT64_MAX, hup_t = INT64_MAX;      // when the event was certainly there
    u64  ready_s = INF, hup_s = INF;                  // before the action that made it so
    i64  half_t = INT64_MAX;                          // the far side will write no more, but reads
    u64  half_s = INF;
    bool can_hup() const { return k >= PIPE_R; }
};
struct world
{
    std::vector<scheduler*> s;
    i64 drive = 0, net = 0;
    std::map<poll_stop_source*, std::pair<u64, i64>> stops; // signalled: seq before, time after
    int polls = 0;
};
i64 margin(world* w) { return 3 * (sim::slack() + sim::stalled()) + 6 * w->drive + 2 * w->net + 2'000; }

void tcp_pair(int& a, int& b)
{
    int l = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in sa{};
    sa.sin_family = AF_INET;
    sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    (void)!::bind(l, (sockaddr*)&sa, sizeof sa);
    (void)!::listen(l, 4);
    socklen_t n = sizeof sa;
    ::getsockname(l, (sockaddr*)&sa, &n);
    a = ::socket(AF_INET, SOCK_STREAM, 0);
    (void)!::connect(a, (sockaddr*)&sa, sizeof sa);
    b = ::accept(l, nullptr, nullptr);
    ::close(l);
    ::fcntl(a, F_SETFL, O_NONBLOCK);
    ::fcntl(b, F_SETFL, O_NONBLOCK);
}
void fill(int fd) { static char z[4096]; while (::write(fd, z, sizeof z) > 0) {} }
size_t drain(int fd) { static char z[4096]; size_t t = 0; ssize_t n; while ((n = ::read(fd, z, sizeof z)) > 0) { t += n; if (n < 8) break; } return t; }
void make(chan& c)
{
    c = chan{};
    c.k = (kind)sim::pick(sim::chance(1, 3) ? 6 : 4);
    if (c.k == EVENT_R || c.k == EVENT_W)
    {
        c.fd  = eventfd(0, EFD_NONBLOCK);
        c.far = ::dup(c.fd);
        if (c.k == EVENT_W) { uint64_t v = 0xfffffffffffffffeull; (void)!::write(c.fd, &v, 8); }
    }
    else if (c.k == PIPE_R || c.k == PIPE_W)
    {
        int p[2];
        (void)!::pipe2(p, O_NONBLOCK);
        c.fd = p[c.k == PIPE_W];
        c.far = p[c.k != PIPE_W];
        if (c.k == PIPE_W) fill(c.fd);
    }
    else
    {
        tcp_pair(c.fd, c.far);
        if (c.k == TCP_W)
        {
            // until both the send buffer and the peer's receive buffer are full
            for (int i = 0; i < 4; i++) { fill(c.fd); sim::sleep_ns(20'000); }
        }
    }
}
void make_ready(chan& c)
{
    q([&] { if (c.ready_s == INF) c.ready_s = sim::seq(); });
    uint64_t v = 1;
    switch (c.k)
    {
        case EVENT_R: (void)!::write(c.far, &v, 8); break;
        case EVENT_W: (void)!::read(c.far, &v, 8); break;
        case PIPE_R: case TCP_R: (void)!::write(c.far, &v, 8); break;
        case PIPE_W: drain(c.far); break;
        case TCP_W: for (int i = 0; i < 6; i++) { static char z[65536]; while (::read(c.far, z, sizeof z) > 0) {} sim::sleep_ns(50'000); } break;
    }
    q([&] { c.ready_t = std::min<i64>(c.ready_t, sim::now()); });
}
void hang_up(chan& c)
{
    q([&] { if (c.hup_s == INF) c.hup_s = sim::seq(); });
    ::close(c.far);
    q([&] { c.far = -1; c.hup_t = std::min<i64>(c.hup_t, sim::now()); });
}
void signal(world* w, poll_stop_source* src)
{
    u64 s = sim::seq();
    bool first = q([&] { return w->stops.emplace(src, std::make_pair(s, INT64_MAX)).second; });
    src->signal_stop();
    if (first) q([&] { w->stops[src].second = sim::now(); });
}
void half_close(chan& c)
{
    q([&] { if (c.half_s == INF) c.half_s = sim::seq(); });
    ::shutdown(c.far, SHUT_WR);
    q([&] { c.half_t = std::min<i64>(c.half_t, sim::now()); });
}
poll_op op_of(kind k) { return k == EVENT_W || k == PIPE_W || k == TCP_W ? poll_op::write : poll_op::read; }

// One poll and its verdict. src may be null; the channel's state is only changed by actors.
task<poll_status> polled(world* w, int si, chan* c, poll_op op, int ms, poll_stop_source* src)
{
    i64  t0 = sim::now();
    poll_status st; // GCC gets co_await in a conditional expression wrong
    auto to = ms == 0 && sim::chance(1, 4) ? ages() : std::chrono::milliseconds(ms);
    if (src) st = co_await w->s[si]->poll(c->fd, op, to, src->get_token());
    else st = co_await w->s[si]->poll(c->fd, op, to);
    u64  b  = sim::seq();
    i64  t1 = sim::now(), m = margin(w);
    q([&] {
        w->polls++;
        sim::mix((u64)st);
        std::pair<u64, i64> stop{INF, INT64_MAX};
        if (src && w->stops.count(src)) stop = w->stops[src];
        bool rw = op == poll_op::read_write;
        // the event that must end the poll at the latest
        bool rd = op != poll_op::write;
        u64  hup_s = rd ? std::min(c->hup_s, c->half_s) : c->hup_s; // that the peer writes no more ends only reading
        i64 ev = std::min({c->ready_t, c->hup_t, rd ? c->half_t : INT64_MAX, stop.second});
        i64 dl = ms > 0 ? t0 + ms * 1'000'000ll : INT64_MAX;
        i64 lim = std::min(std::max(ev, t0), dl);
        const char* name = st == poll_status::cancelled ? "cancelled" : to_string(st).c_str();
        switch (st)
        {
            case poll_status::read:
                SIM_CHECK(op != poll_op::write && (c->ready_s < b || c->k == EVENT_W || (c->k >= TCP_R && hup_s < b)), "false-ready", "poll reported read, but nothing was written (kind %d)", c->k);
                SIM_CHECK(!rw || op_of(c->k) == poll_op::read || c->k == EVENT_W || c->k >= TCP_R, "false-ready", "poll reported read for kind %d", c->k);
                break;
            case poll_status::write:
                SIM_CHECK(op != poll_op::read && (c->ready_s < b || c->hup_s < b || (rw && op_of(c->k) == poll_op::read)), "false-ready", "poll reported write, but nothing was read (kind %d)", c->k);
                break;
            case poll_status::timeout:
                SIM_CHECK(ms > 0, "false-timeout", "timeout reported although none was requested");
                SIM_CHECK(t1 >= dl, "early", "poll timed out after %ld ns instead of %d ms", (long)(t1 - t0), ms);
                SIM_CHECK(ev == INT64_MAX || std::max(ev, t0) + m >= dl, "lost-event", "poll timed out at %.6f ms although its event was there at %.6f ms", dl / 1e6, ev / 1e6);
                break;
            case poll_status::closed: case poll_status::error:
                SIM_CHECK(hup_s < b, "false-closed", "poll reported %s although nothing happened to the descriptor (kind %d)", name, c->k);
                // what was written before the end is still there to be read
                if (op == poll_op::read && (c->k == PIPE_R || c->k == TCP_R)) SIM_CHECK(c->ready_s >= hup_s, "lost-event", "poll of kind %d reported %s although there is data to read", c->k, name);
                break;
            case poll_status::cancelled:
                SIM_CHECK(stop.first < b, "false-cancel", "poll reported cancelled although its stop source was not triggered");
                break;
        }
        SIM_CHECK(lim == INT64_MAX || t1 <= lim + m, "late", "poll of kind %d ended (%s) %.6f ms after it should (margin %.6f)", c->k, name, (t1 - lim) / 1e6, m / 1e6);
    });
    co_return st;
}
enum action { A_READY, A_HUP, A_STOP, A_HALF };
struct step { action a; i64 after; };
// Decide what happens during a poll; at least one thing if nothing else would end it
std::vector<step> plan(chan& c, bool stoppable, int ms, bool must)
{
    return q([&] {
        std::vector<step> v;
        int n = sim::pick(3) + (must && ms == 0);
        for (int i = 0; i < n; i++)
        {
            action a = (action)sim::pick(c.k >= TCP_R ? 4 : 3);
            if (a == A_HALF && c.k == TCP_W && must && i == 0) a = A_READY;
            if (a == A_STOP && !stoppable) a = A_READY;
            if (a == A_HUP && !c.can_hup()) a = A_READY;
            i64 t;
            switch (sim::pick(4))
            {
                case 0: t = 0; break;
                case 1: t = sim::pick(3000); break;
                case 2: t = ms * 1'000'000ll + (i64)sim::pick(2000) - 1000; break; // around the timeout
                default: t = sim::pick(40) * 100'000ll;
            }
            v.push_back({a, std::max<i64>(t, 0)});
        }
        std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.after < y.after; });
        return v;
    });
}
void act(world* w, chan* c, poll_stop_source* src, const std::vector<step>& v)
{
    i64 t = 0;
    for (size_t i = 0; i < v.size(); i++)
    {
        auto st = v[i];
        if (st.after > t) { sim::sleep_ns(st.after - t); t = st.after; }
        if (st.a == A_READY && c->far != -1) make_ready(*c);
        if (st.a == A_HUP && c->far != -1) hang_up(*c);
        if (st.a == A_HALF && c->far != -1) half_close(*c);
        if (st.a == A_STOP) signal(w, src);
    }
}
struct actor
{
    std::thread t;
    std::vector<step>* v = nullptr;
    bool* done = nullptr;
    ~actor() { q([&] { delete done; }); }
    // without blocking the scheduler's thread
    task<void> join(scheduler* s)
    {
        if (!t.joinable()) co_return;
        while (!q([&] { return *done; })) co_await s->yield_for(200us);
        t.join();
    }
    void go(world* w, chan* c, poll_stop_source* src, std::vector<step> p)
    {
        q([&] { v = new std::vector<step>(std::move(p)); done = new bool(false); });
        t = std::thread([w, c, src, v = v, done = done] { act(w, c, src, *v); q([&] { delete v; *done = true; }); });
    }
};
int pick_ms() { return sim::pick(3) == 0 ? 0 : 1 + sim::pick(4); }

// One client: rounds of polls on descriptors of its own
task<void> client(world* w, int rounds, poll_stop_source* shared)
{
    chan c;
    int  si = sim::pick(w->s.size());
    if (sim::chance(1, 2)) co_await w->s[si]->schedule();
    make(c);
    auto own = std::make_unique<poll_stop_source>();
    for (int i = 0; i < rounds; i++)
    {
        int  ms  = pick_ms();
        auto* src = sim::pick(3) == 0 ? nullptr : (shared && sim::chance(1, 2)) ? shared : own.get();
        auto op  = op_of(c.k);
        bool over = q([&] { return c.ready_s != INF || c.hup_s != INF || (c.half_s != INF && op == poll_op::read) || (src && w->stops.count(src)); });
        auto p   = plan(c, src != nullptr, ms, !over);
        actor a;
        a.go(w, &c, src, std::move(p));
        if (sim::chance(1, 5)) co_await a.join(w->s[si]); // everything happened before the poll
        auto st = co_await polled(w, si, &c, op, ms, src);
        // what the earlier poll might have left behind acts on whatever comes next
        int next = sim::pick(4);
        bool early_close = next == 0;
        if (early_close) ::close(c.fd);
        co_await a.join(w->s[si]);
        if (next == 1 && c.far != -1 && sim::chance(1, 2)) { make_ready(c); if (sim::chance(1, 2)) co_await w->s[si]->yield_for(1ms); }
        if (next <= 2 || c.hup_s != INF || c.half_s != INF)
        {
            if (!early_close) ::close(c.fd);
            if (c.far != -1) ::close(c.far);
            make(c); // most likely the same descriptor numbers
        }
        else if (st == poll_status::read && op == poll_op::read && c.k <= PIPE_R && c.ready_s != INF)
        {
            drain(c.fd);
            q([&] { c.ready_s = INF; c.ready_t = INT64_MAX; });
        }
        if (sim::chance(1, 4)) q([&] { w->stops.erase(own.get()); }), own = std::make_unique<poll_stop_source>();
    }
    ::close(c.fd);
    if (c.far != -1) ::close(c.far);
    // give leftovers a chance to show
    if (sim::chance(1, 3)) co_await w->s[si]->yield_for(6ms);
    q([&] { w->stops.erase(own.get()); });
}
struct loops
{
    std::vector<std::unique_ptr<scheduler>> own;
    crew        dr;
    host<bool>  stop{false};
    void open(world* w)
    {
        sim::net.sigpipe_ignored = true; // the actors write to closed connections
        int n = sim::chance(1, 5) ? 2 : 1;
        for (int i = 0; i < n; i++)
        {
            if (sim::chance(1, 5))
            {
                own.push_back(scheduler::make_unique(scheduler::options{
                    .thread_strategy = scheduler::thread_strategy_t::manual, .on_io_thread_start_functor = nullptr, .on_io_thread_stop_functor = nullptr,
                    .pool = bed::popt(1), .execution_strategy = sim::chance(2, 3) ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool}));
                int nd = 1 + sim::pick(2);
                w->drive = std::max<i64>(w->drive, 2'500'000);
                for (int k = 0; k < nd; k++)
                    dr.add([s = own.back().get(), p = stop.p, nd] {
                        while (true)
                        {
                            bool st = q([&] { return *p; });
                            s->process_events(2ms);
                            if (st && s->empty()) break;
                            if (nd > 1) sim::sleep_ns(500'000);
                        }
                    });
            }
            else own.push_back(bed::mksched(sim::chance(1, 2), 1 + sim::pick(2)));
            q([&] { w->s.push_back(own.back().get()); });
        }
    }
    void close() { q([&] { *stop = true; }); dr.join(); own.clear(); }
};
} // namespace

SIM_SCENARIO("C17", poll_rounds, 3)
{
    host<world> W;
    world*      w = W.p;
    w->net = 400'000;
    loops L;
    L.open(w);
    poll_stop_source shared;
    int nc = 1 + sim::skew(3);
    crew cr;
    for (int i = 0; i < nc; i++) cr.add([&] { sync_wait(client(w, 1 + sim::skew(4), sim::chance(1, 3) ? &shared : nullptr)); });
    if (sim::chance(1, 4)) { sim::sleep_ns(sim::pick(40) * 100'000); signal(w, &shared); }
    cr.join();
    L.close();
}

// Several polls at once on the same descriptor and with the same stop source
SIM_SCENARIO("C17", poll_shared, 2)
{
    host<world> W;
    world*      w = W.p;
    w->net = 400'000;
    loops L;
    L.open(w);
    poll_stop_source src;
    chan c;
    make(c);
    int  np = 2 + sim::pick(3);
    bool nomad = false, stoppable = sim::chance(2, 3);
    crew cr;
    for (int i = 0; i < np; i++)
    {
        int  ms = pick_ms();
        auto op = sim::chance(1, 5) && c.k != PIPE_R && c.k != PIPE_W ? poll_op::read_write : op_of(c.k);
        nomad |= ms == 0;
        bool st = stoppable && (ms == 0 || sim::chance(1, 2));
        cr.add([&, ms, op, st, si = (int)sim::pick(w->s.size())] {
            struct F { static task<void> f(world* w, int si, chan* c, poll_op op, int ms, poll_stop_source* s) { if (sim::chance(1, 2)) co_await w->s[si]->schedule(); co_await polled(w, si, c, op, ms, s); } };
            sync_wait(F::f(w, si, &c, op, ms, st ? &src : nullptr));
        });
    }
    auto p = plan(c, stoppable, 2, false);
    // a poll without a time limit needs something to happen: to the descriptor, or to the stop source if all of them have it
    if (nomad) q([&] { p.push_back({stoppable && sim::chance(1, 2) ? A_STOP : A_READY, p.empty() ? 0 : p.back().after + 100'000}); });
    act(w, &c, &src, p);
    cr.join();
    if (sim::chance(1, 2)) { ::close(c.fd); c.fd = eventfd(0, EFD_NONBLOCK); }
    // nothing may be left that a later event could reach
    if (c.far != -1 && sim::chance(1, 2)) make_ready(c);
    if (sim::chance(1, 2)) signal(w, &src);
    if (sim::chance(1, 2)) sim::sleep_ns(3'000'000);
    ::close(c.fd);
    if (c.far != -1) ::close(c.far);
    L.close();
}

// Descriptors that cannot be polled: the poll ends at once
SIM_SCENARIO("C17", poll_bad, 1)
{
    host<world> W;
    world*      w = W.p;
    loops L;
    L.open(w);
    poll_stop_source src;
    crew cr;
    for (int i = 1 + sim::pick(3); i > 0; i--)
        cr.add([&, ms = pick_ms(), st = sim::chance(1, 2), bad = sim::pick(2)] {
            struct F
            {
                static task<void> f(world* w, int fd, int ms, poll_stop_source* s)
                {
                    i64  t0 = sim::now();
                    poll_status r;
                    if (s) r = co_await w->s[0]->poll(fd, poll_op::read, std::chrono::milliseconds(ms), s->get_token()); else r = co_await w->s[0]->poll(fd, poll_op::read, std::chrono::milliseconds(ms));
                    bool to = r == poll_status::timeout && ms > 0 && sim::now() - t0 >= ms * 1'000'000;
                    SIM_CHECK(r == poll_status::error || r == poll_status::closed || to, "poll-status", "polling a descriptor that is not open reported %s", to_string(r).c_str());
                }
            };
            int fd = -1;
            if (bad) { fd = eventfd(0, 0); fd += 500; ::close(fd - 500); }
            sync_wait(F::f(w, fd, ms, st ? &src : nullptr));
        });
    cr.join();
    L.close();
}
