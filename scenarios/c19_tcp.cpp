// C19: TCP clients and servers: the byte stream, and what connect, accept, read and write report.
#include "sc.hpp"
#include <netinet/in.h>
#include <sys/socket.h>
using namespace sc;
using net::io_status;
using kind = net::io_status::kind;
using ms   = std::chrono::milliseconds;
namespace
{
struct flow // one direction of a connection
{
    size_t want = 0;                    // bytes the sender means to send
    size_t maybe = 0, sent = 0, got = 0; // upper bound of / reported as / received
    std::vector<std::pair<i64, size_t>> sent_at, got_at;
    bool   fin = false; // the sender has begun to shut down or close this direction
    i64    fin_at = INT64_MAX; // ... and has finished doing so
    u64    seed = 0;
    size_t by(const std::vector<std::pair<i64, size_t>>& v, i64 t) const { size_t n = 0; for (auto& [a, b] : v) if (a <= t) n = b; return n; }
};
struct conn
{
    int  id = 0;
    flow f[2];            // 0: client to server
    bool aborted = false; // some side gave up before the end (or closed while the other was still sending)
    bool failed  = false; // some side has seen an error it was entitled to
};
struct world
{
    std::unique_ptr<scheduler>* sc[2]; // client's and server's
    std::vector<conn*> cs;
    bool  resets = false, eagain = false, syn = false, refuse = false, abrt = false;
    i64   netmax = 0, partition = 0;
    int   connected = 0, accepted = 0, connecting = 0;
    std::vector<i64> connected_at;
    bool  stopping = false; i64 stop_at = INT64_MAX;
    std::set<int> fds;
    ~world() { for (auto* c : cs) delete c; }
};
char pat(u64 seed, size_t i) { u64 x = (seed + i) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return (char)(x * 0xbf58476d1ce4e5b9ull >> 56); }
i64 M(world* w) { return 3 * (sim::slack() + sim::stalled()) + 3 * w->netmax + w->partition + 200'000; }
const char* name(kind k)
{
    static const char* n[] = {"ok", "closed", "connection_reset", "connection_refused", "timeout", "try_again", "polling_error", "cancelled", "udp_not_bound", "message_too_big", "native", "unknown"};
    return (size_t)k < 12 ? n[(size_t)k] : "?";
}
ms tmo(int of = 3) { return sim::chance(1, of) ? ms(1 + sim::pick(sim::chance(1, 2) ? 4 : 40)) : ms(0); }
bool broken(world* w, conn* c) { return w->resets || c->aborted; }

// verdict on the failure of a read or write that started at t0
bool failure(world* w, conn* c, bool rd, flow& f, const io_status& st, i64 t0, ms t)
{
    i64 now = sim::now();
    switch (st.type)
    {
        case kind::timeout:
        {
            i64 ns = t.count() * 1'000'000ll, late = ns + 1'000'000 + M(w);
            SIM_CHECK(ns && now - t0 >= ns, "early-timeout", "connection %d: %s timed out after %lld ns of %lld", c->id, rd ? "read" : "write", (long long)(now - t0), (long long)ns);
            SIM_CHECK(now - t0 <= late, "late-timeout", "connection %d: %s with a time-out of %lld ns ended after %lld", c->id, rd ? "read" : "write", (long long)ns, (long long)(now - t0));
            i64 safe = now - M(w) - 1'000'000;
            if (rd && !w->resets)
            {
                SIM_CHECK(f.by(f.sent_at, safe) <= f.got, "false-timeout", "connection %d: read timed out though %zu bytes were sent and %zu received", c->id, f.by(f.sent_at, safe), f.got);
                SIM_CHECK(f.fin_at > safe, "false-timeout", "connection %d: read timed out though the peer closed", c->id);
            }
            if (!rd && !w->resets) SIM_CHECK(!(f.sent && f.by(f.got_at, safe) >= f.sent), "false-timeout", "connection %d: write timed out though the peer took everything", c->id);
            return true;
        }
        case kind::would_block_or_try_again:
            SIM_CHECK(w->eagain, "wrong-status", "connection %d: %s ended with try_again after waiting for readiness", c->id, rd ? "read" : "write");
            return true;
        case kind::closed:
            if (rd)
            {
                if (broken(w, c)) return false;
                SIM_CHECK(f.fin, "wrong-status", "connection %d: read says closed but the peer is still sending", c->id);
                SIM_CHECK(f.got == f.sent, "lost-bytes", "connection %d: read says closed after %zu bytes, %zu were sent", c->id, f.got, f.sent);
                return false;
            }
            break;
        default: break;
    }
    SIM_CHECK(broken(w, c), "wrong-status", "connection %d: %s ended with %s (%d) though nothing happened to the connection", c->id, rd ? "read" : "write", name(st.type), st.native_code);
    SIM_CHECK(st.type == kind::closed || st.type == kind::connection_reset || st.type == kind::polling_error || (st.type == kind::native && st.native_code == EPIPE), "wrong-status", "connection %d: %s ended with %s (%d)", c->id, rd ? "read" : "write", name(st.type), st.native_code);
    c->failed = true;
    return false;
}
// operations on nothing are done at once, whatever the state of the connection
task<void> nothing(net::tcp::client* t, bool rd)
{
    std::span<char> none;
    ms  to(sim::pick(3));
    bool all = sim::chance(1, 2), ok;
    i64 t0 = sim::now(), s0 = sim::slack() + sim::stalled();
    if (rd)
    {
        std::pair<io_status, std::span<char>> r;
        if (all) r = co_await t->read_exact(none, to);
        else r = co_await t->read_some(none, to);
        ok = r.first.is_ok() && r.second.empty();
    }
    else
    {
        std::pair<io_status, std::span<const char>> r;
        std::span<const char> none;
        if (all) r = co_await t->write_all(none, to);
        else r = co_await t->write_some(none, to);
        ok = r.first.is_ok() && r.second.empty();
    }
    SIM_CHECK(ok, "wrong-status", "%s nothing failed", rd ? "reading" : "writing");
    i64 d = sim::now() - t0, s = sim::slack() + sim::stalled() - s0;
    SIM_CHECK(d <= 900'000 + s, "late", "%s nothing took %lld ns", rd ? "reading" : "writing", (long long)d);
}
// writes everything the plan says unless the connection breaks or the side gives up
task<bool> writer(world* w, conn* c, net::tcp::client* t, int dir, size_t upto, bool give_up)
{
    flow& f = c->f[dir];
    while (f.sent < upto)
    {
        size_t n = std::min(upto - f.sent, (size_t)1 + (sim::chance(1, 3) ? sim::pick(20) : sim::chance(1, 2) ? sim::pick(4000) : 1 << 20));
        std::vector<char> buf(n);
        q([&] { for (size_t i = 0; i < n; i++) buf[i] = pat(f.seed, f.sent + i); f.maybe = f.sent + n; });
        bool all = sim::chance(1, 2), dfl = sim::chance(1, 2);
        if (sim::chance(1, 12)) co_await nothing(t, false);
        auto to  = tmo();
        i64  t0  = sim::now();
        std::pair<io_status, std::span<const char>> r;
        if (all && !to.count() && dfl) r = co_await t->write_all(buf);
        else if (all) r = co_await t->write_all(buf, endless(to));
        else if (!to.count() && dfl) r = co_await t->write_some(buf);
        else r = co_await t->write_some(buf, endless(to));
        bool go = q([&] {
            auto& [st, rest] = r;
            SIM_CHECK(rest.size() <= n && (rest.empty() || rest.data() + rest.size() == buf.data() + n), "wrong-span", "write returned a span of %zu bytes that is not the end of the %zu given", rest.size(), n);
            if (st.is_ok()) SIM_CHECK(all ? rest.empty() : rest.size() < n, "wrong-span", "write says ok but %zu of %zu bytes are left", rest.size(), n);
            f.sent += n - rest.size();
            f.maybe = f.sent;
            SIM_CHECK(f.got <= f.sent, "invented-bytes", "connection %d: the peer got %zu bytes, write took only %zu", c->id, f.got, f.sent);
            f.sent_at.emplace_back(sim::now(), f.sent);
            sim::mix(n - rest.size());
            return st.is_ok() || failure(w, c, false, f, st, t0, to);
        });
        if (!go) co_return false;
        if (give_up && sim::chance(1, 3)) { c->aborted = true; co_return false; }
        if (sim::chance(1, 5)) co_await w->sc[dir]->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
    }
    co_return true;
}
// reads until upto bytes have arrived (or, with upto = INF, until the peer closes)
task<bool> reader(world* w, conn* c, net::tcp::client* t, int dir, size_t upto, bool give_up)
{
    flow& f = c->f[dir];
    while (f.got < upto)
    {
        size_t n = 1 + (sim::chance(1, 3) ? sim::pick(20) : sim::chance(1, 2) ? sim::pick(4000) : (1 << 16));
        n = std::min(n, upto - f.got);
        std::vector<char> buf(n, 'x');
        bool all = sim::chance(1, 2), dfl = sim::chance(1, 2);
        if (sim::chance(1, 12)) co_await nothing(t, true);
        auto to  = tmo();
        i64  t0  = sim::now();
        std::pair<io_status, std::span<char>> r;
        if (all && !to.count() && dfl) r = co_await t->read_exact(buf);
        else if (all) r = co_await t->read_exact(buf, endless(to));
        else if (!to.count() && dfl) r = co_await t->read_some(buf);
        else r = co_await t->read_some(buf, endless(to));
        int go = q([&] {
            auto& [st, in] = r;
            SIM_CHECK(in.size() <= n && (in.empty() || in.data() == buf.data()), "wrong-span", "read returned a span of %zu bytes that is not the start of the %zu given", in.size(), n);
            if (st.is_ok()) SIM_CHECK(all ? in.size() == n : in.size() > 0, "wrong-span", "read says ok with %zu of %zu bytes", in.size(), n);
            for (size_t i = 0; i < in.size(); i++)
                SIM_CHECK(in[i] == pat(f.seed, f.got + i), "wrong-bytes", "connection %d: byte %zu of the stream is not what was sent", c->id, f.got + i);
            f.got += in.size();
            SIM_CHECK(f.got <= f.maybe, "invented-bytes", "connection %d: %zu bytes received, %zu sent", c->id, f.got, f.maybe);
            f.got_at.emplace_back(sim::now(), f.got);
            sim::mix(in.size());
            if (st.is_ok()) return 1;
            bool on = failure(w, c, true, f, st, t0, to);
            return on ? 1 : st.is_closed() ? 0 : 2;
        });
        if (!go) co_return upto == INF;
        if (go == 2) co_return false;
        if (give_up && sim::chance(1, 3)) { c->aborted = true; co_return false; }
        if (sim::chance(1, 6)) co_await w->sc[!dir]->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
    }
    co_return true;
}
void fin(world*, conn* c, int dir, net::tcp::client& t)
{
    q([&] { c->f[dir].fin = true; });
    t.socket().shutdown(poll_op::write);
    q([&] { c->f[dir].fin_at = std::min<i64>(c->f[dir].fin_at, sim::now()); });
}
struct plan { int shape; bool give_up[2]; bool copy[2]; int rounds; size_t chunk; };
task<void> both(world* w, conn* c, net::tcp::client* a, net::tcp::client* b, int side, plan p)
{
    // full duplex: one coroutine writes while another reads
    auto wr = [](world* w, conn* c, net::tcp::client* t, int side, plan p) -> task<void> {
        bool ok = co_await writer(w, c, t, side, c->f[side].want, p.give_up[side]);
        if (ok) fin(w, c, side, *t);
        else c->aborted = true;
        // a writer that gave up must not leave the peer waiting
        if (!ok) t->socket().shutdown(poll_op::read_write);
    };
    auto rd = [](world* w, conn* c, net::tcp::client* t, int side, plan) -> task<void> { co_await reader(w, c, t, !side, INF, false); };
    co_await when_all(wr(w, c, a, side, p), rd(w, c, b, side, p));
}
// one side of a connection; the client object dies at the end
task<void> side_of(world* w, conn* c, net::tcp::client cl, int side, plan p)
{
    net::tcp::client t = std::move(cl);
    std::unique_ptr<net::tcp::client> dup;
    if (p.copy[side]) dup = std::make_unique<net::tcp::client>(t);
    net::tcp::client* a = &t;
    net::tcp::client* b = dup ? dup.get() : &t;
    bool ok = true;
    auto& out = c->f[side];
    switch (p.shape)
    {
        case 0: // request, half close, response
            if (side == 0)
            {
                ok = co_await writer(w, c, a, 0, out.want, p.give_up[0]);
                if (ok) { fin(w, c, 0, t); ok = co_await reader(w, c, b, 1, INF, p.give_up[0]); }
            }
            else
            {
                ok = co_await reader(w, c, a, 0, INF, p.give_up[1]);
                if (ok && sim::chance(1, 3)) b->socket().shutdown(poll_op::read); // nothing more to come
                if (ok) ok = co_await writer(w, c, b, 1, out.want, p.give_up[1]);
            }
            break;
        case 1: // ping pong
            for (int i = 1; i <= p.rounds && ok; i++)
            {
                size_t n = p.chunk * i;
                if (side == 0) { ok = co_await writer(w, c, a, 0, n, p.give_up[0]); if (ok) ok = co_await reader(w, c, b, 1, n, p.give_up[0]); }
                else { ok = co_await reader(w, c, a, 0, n, p.give_up[1]); if (ok) ok = co_await writer(w, c, b, 1, n, p.give_up[1]); }
            }
            if (ok && side == 0) { fin(w, c, 0, t); ok = co_await reader(w, c, b, 1, INF, false); }
            if (ok && side == 1) ok = co_await reader(w, c, b, 0, INF, false);
            break;
        default: co_await both(w, c, a, b, side, p);
    }
    q([&] { if (!ok) c->aborted = true; out.fin = true; });
    // destructors close
    t = net::tcp::client(std::move(t));
}
plan mkplan(conn* c, bool big)
{
    plan p;
    p.shape = sim::pick(3);
    bool giv = sim::chance(1, 4);
    for (int i = 0; i < 2; i++) { p.give_up[i] = giv && sim::chance(1, 2); p.copy[i] = sim::chance(1, 4); }
    p.rounds = 1 + sim::pick(4);
    p.chunk  = 1 + sim::pick(sim::chance(1, 2) ? 10 : 600);
    for (int d = 0; d < 2; d++)
    {
        auto& f = c->f[d];
        f.seed  = (u64)c->id * 1000003 + d * 7919 + 11;
        f.want  = p.shape == 1 ? p.chunk * p.rounds : (size_t)sim::pick(big ? 200'000 : sim::chance(1, 3) ? 8 : 2500);
    }
    return p;
}
struct lnk { conn* c; plan p; };
// A client connects; the server learns from the client's port which connection it serves.
using ports = std::map<int, lnk>;
int port_of(int fd, bool peer)
{
    sockaddr_storage ss{};
    socklen_t        n = sizeof ss;
    if (peer) ::getpeername(fd, (sockaddr*)&ss, &n); else ::getsockname(fd, (sockaddr*)&ss, &n);
    return ntohs(ss.ss_family == AF_INET6 ? ((sockaddr_in6*)&ss)->sin6_port : ((sockaddr_in*)&ss)->sin_port);
}
task<void> caller(world* w, net::socket_address ep, bool listening, lnk l, ports* pm)
{
    co_await w->sc[0]->get()->schedule();
    if (sim::chance(1, 2)) co_await w->sc[0]->get()->yield_for(std::chrono::microseconds(sim::pick(2000)));
    net::tcp::client t{*w->sc[0], ep};
    auto to = tmo(2);
    i64  t0 = sim::now();
    q([&] { w->connecting++; });
    auto st = co_await t.connect(endless(to));
    i64  now = sim::now();
    q([&] {
        i64 ns = to.count() * 1'000'000ll;
        sim::mix((u64)st);
        w->connecting--;
        switch (st)
        {
            case net::connect_status::connected:
                SIM_CHECK(listening, "wrong-status", "connected though nobody listens");
                w->connected++;
                w->connected_at.push_back(now);
                (*pm)[port_of(t.socket().native_handle(), false)] = l;
                break;
            case net::connect_status::timeout:
                SIM_CHECK(ns && now - t0 >= ns, "early-timeout", "connect timed out after %lld ns of %lld", (long long)(now - t0), (long long)ns);
                if (listening && !sim::syn_retries() && !w->refuse && !w->partition && w->netmax * 2 + M(w) < ns) SIM_CHECK(false, "false-timeout", "connect timed out though the server answers at once");
                break;
            case net::connect_status::error:
                SIM_CHECK(!listening || w->refuse || w->resets || w->stopping || sim::syn_retries() || now - t0 > 60'000'000'000, "wrong-status", "connect failed though the server listens");
                if (w->netmax && !sim::syn_retries() && !w->partition) SIM_CHECK(now - t0 <= 2 * w->netmax + M(w) , "late", "a refused connect took %lld ns", (long long)(now - t0));
                break;
            default: SIM_CHECK(false, "wrong-status", "connect returned %d", (int)st);
        }
        if (ns) SIM_CHECK(now - t0 <= ns + M(w), "late-timeout", "connect with a time-out of %lld ns took %lld", (long long)ns, (long long)(now - t0));
    });
    auto again = co_await t.connect(endless(to));
    SIM_CHECK(again == st, "wrong-status", "connect returned %d and then %d", (int)st, (int)again);
    // copies and moves of a client know what it knows
    std::unique_ptr<net::tcp::client> use;
    switch (sim::pick(7))
    {
        case 5: case 6: // assigned to one that belonged to another scheduler, or that was moved from
        {
            auto other = elsewhere();
            net::tcp::client u{other, ep};
            if (sim::chance(1, 2)) { net::tcp::client gone{std::move(u)}; }
            if (sim::chance(1, 2)) u = t; else u = std::move(t);
            other.reset();
            again = co_await u.connect(to);
            if (sim::chance(1, 2)) t = std::move(u); else { use = std::make_unique<net::tcp::client>(std::move(u)); net::tcp::client gone{std::move(t)}; }
            break;
        }
        case 0: { net::tcp::client u{t}; again = co_await u.connect(to); break; }
        case 1: { net::tcp::client u{std::move(t)}; again = co_await u.connect(to); t = std::move(u); break; }
        case 2: { net::tcp::client u{*w->sc[0], ep}; u = t; again = co_await u.connect(to); break; }
        case 3: { net::tcp::client u{*w->sc[0], ep}; u = std::move(t); again = co_await u.connect(to); t = u; break; }
        default: break;
    }
    SIM_CHECK(again == st, "wrong-status", "connect returned %d and %d on a copy", (int)st, (int)again);
    if (st == net::connect_status::connected) co_await side_of(w, l.c, use ? std::move(*use) : std::move(t), 0, l.p);
}
task<void> served(world* w, net::tcp::client t, ports* pm)
{
    co_await w->sc[1]->get()->schedule();
    // the client registers itself right after connecting
    int  port = port_of(t.socket().native_handle(), true);
    bool have = false;
    int  step = 1;
    while (!have)
    {
        have = q([&] { return pm->count(port) > 0; });
        if (!have) co_await w->sc[1]->get()->yield_for(ms(step = std::min(step * 2, 2000)));
        if (!have && !w->connecting && !q([&] { return pm->count(port) > 0; })) break; // its connect was given up
    }
    if (!have) { sim::probe("orphan"); co_return; }
    lnk l = q([&] { return (*pm)[port]; });
    co_await side_of(w, l.c, std::move(t), 1, l.p);
}
task<void> acceptor(world* w, net::tcp::server* s, ports* pm)
{
    co_await w->sc[1]->get()->schedule();
    std::vector<task<void>> kids;
    std::vector<std::unique_ptr<event>> ends;
    while (true)
    {
        auto to = tmo();
        i64  t0 = sim::now();
        auto r  = co_await s->accept(endless(to));
        i64  now = sim::now();
        if (r)
        {
            q([&] {
                int fd = r->socket().native_handle();
                SIM_CHECK(fd >= 0 && sim::fd_open(fd), "bad-client", "accept returned descriptor %d, which is not open", fd);
                w->accepted++;
                SIM_CHECK(w->accepted <= w->connected + w->connecting + (w->syn || w->refuse || w->partition ? 99 : 99), "invented", "more accepted than connecting");
            });
            ends.emplace_back(std::make_unique<event>());
            auto run = [](world* w, net::tcp::client t, ports* pm, event* e) -> task<void> { co_await served(w, std::move(t), pm); e->set(); };
            w->sc[1]->get()->spawn_detached(run(w, std::move(*r), pm, ends.back().get()));
            continue;
        }
        auto st  = r.error();
        bool end = q([&] {
            sim::mix((u64)st.type);
            if (st.type == kind::timeout)
            {
                i64 ns = to.count() * 1'000'000ll;
                SIM_CHECK(ns && now - t0 >= ns, "early-timeout", "accept timed out after %lld ns of %lld", (long long)(now - t0), (long long)ns);
                SIM_CHECK(now - t0 <= ns + M(w), "late-timeout", "accept with a time-out of %lld ns ended after %lld", (long long)ns, (long long)(now - t0));
                int old = 0;
                for (i64 t : w->connected_at) if (t < now - M(w) - 100'000) old++;
                if (!w->resets && !w->abrt) SIM_CHECK(old <= w->accepted, "false-timeout", "accept timed out though a connection has been waiting (%d connected, %d accepted)", old, w->accepted);
                SIM_CHECK(w->stop_at >= now - M(w), "false-timeout", "accept timed out after the server was shut down");
                return false;
            }
            if (st.type == kind::would_block_or_try_again) { SIM_CHECK(w->eagain || w->abrt || w->stopping || w->resets, "wrong-status", "accept ended with try_again after waiting for readiness"); return false; }
            if (w->stopping) { SIM_CHECK(now - std::max(t0, w->stop_at) <= M(w) || w->stop_at == INT64_MAX, "late", "accept ended %lld ns after the shutdown", (long long)(now - w->stop_at)); return true; }
            SIM_CHECK(w->abrt && st.type == kind::native && st.native_code == ECONNABORTED, "wrong-status", "accept ended with %s (%d)", name(st.type), st.native_code);
            return false;
        });
        if (end) break;
    }
    for (auto& e : ends) co_await *e;
}
void setup(world* w)
{
    auto& n = sim::net;
    static const int b[] = {64, 500, 65536};
    n.sndbuf  = b[sim::pick(3)];
    n.rcvbuf  = b[sim::pick(3)];
    static const int sg[] = {7, 100, 1 << 20};
    n.seg_max = sg[sim::pick(3)];
    if (sim::chance(1, 3)) n.jitter = 1 + sim::pick(4'000'000);
    w->netmax = n.min_delay + n.jitter;
    auto& f = sim::nf;
    auto on = [](const char* k) { sim::faults_enable(k, true); };
    if (sim::chance(1, 3)) { f.short_recv = 2 + sim::pick(6); on("tcp-short-recv"); }
    if (sim::chance(1, 3)) { f.short_send = 2 + sim::pick(6); on("tcp-short-send"); }
    if (sim::chance(1, 6)) { f.eagain = 2 + sim::pick(10); on("tcp-spurious-eagain"); w->eagain = true; }
    if (sim::chance(1, 5)) { f.reset = 3 + sim::pick(40); on("tcp-reset"); w->resets = true; }
    if (sim::chance(1, 6)) { f.syn_lost = 2; on("syn-lost"); w->syn = true; }
    if (sim::chance(1, 6)) { f.syn_refused = 2 + sim::pick(3); on("connect-refused"); w->refuse = true; }
    if (sim::chance(1, 8)) { f.accept_abort = 2 + sim::pick(3); on("accept-aborted"); w->abrt = true; w->resets = true; }
    if (sim::chance(1, 4)) { f.eintr = 5 + sim::pick(10); on("epoll-eintr"); }
}
} // namespace
SIM_SCENARIO("C19", c19_tcp, 1)
{
    host<world> w;
    host<ports> pm;
    setup(&*w);
    bool six  = sim::chance(1, 4);
    bool two  = sim::chance(1, 2);
    auto s0   = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    std::unique_ptr<scheduler> s1;
    if (two) s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->sc[0] = &s0;
    w->sc[1] = two ? &s1 : &s0;
    net::socket_address ep{six ? "::1" : "127.0.0.1", 8080, six ? net::domain_t::ipv6 : net::domain_t::ipv4};
    net::socket_address nobody{six ? "::1" : "127.0.0.1", 8081, six ? net::domain_t::ipv6 : net::domain_t::ipv4};
    bool part = sim::chance(1, 8);
    i64  plen = (1 + sim::pick(60)) * 1'000'000ll, pat_ = sim::pick(5'000'000);
    if (part) w->partition = plen + 60'000'000;
    {
        auto srv = std::make_unique<net::tcp::server>(*w->sc[1], ep, net::tcp::server::options{.backlog = sim::chance(1, 4) ? 1 : 16});
        std::unique_ptr<net::tcp::server> from; // a server moved from owns nothing
        switch (sim::pick(6))
        {
            case 0: from = std::move(srv); srv = std::make_unique<net::tcp::server>(std::move(*from)); break;
            case 1:
                from = std::move(srv);
                srv  = std::make_unique<net::tcp::server>(*w->sc[1], nobody); // listens until it is assigned to
                *srv = std::move(*from);
                break;
            case 2:
            {
                auto other = elsewhere();
                from = std::move(srv);
                srv  = std::make_unique<net::tcp::server>(other, nobody);
                if (sim::chance(1, 2)) { net::tcp::server gone{std::move(*srv)}; }
                *srv = std::move(*from);
                break;
            }
            default: break;
        }
        if (sim::chance(1, 2)) from.reset();
        int  n   = 1 + sim::pick(3);
        bool big = n == 1 && sim::net.sndbuf == 65536 && sim::net.rcvbuf == 65536 && sim::net.seg_max > 1000 && !sim::nf.short_recv && !sim::nf.short_send && sim::chance(1, 2);
        std::vector<lnk> ls;
        for (int i = 0; i < n; i++)
        {
            conn* c = q([&] { auto* c = new conn; c->id = i; w->cs.push_back(c); return c; });
            ls.push_back({c, mkplan(c, big)});
        }
        bool stray = sim::chance(1, 4);
        auto W = &*w;
        auto P = &*pm;
        crew cr;
        cr.add([&] { sync_wait(acceptor(W, srv.get(), P)); });
        if (part) cr.add([&] { sim::sleep_ns(pat_); sim::tcp_partition(true); sim::sleep_ns(plen); sim::tcp_partition(false); });
        crew cl;
        for (auto& l : ls) cl.add([&, l] { sync_wait(caller(W, ep, true, l, P)); });
        if (stray) cl.add([&] { lnk l{nullptr, {}}; sync_wait(caller(W, nobody, false, l, P)); });
        cl.join();
        if (sim::chance(1, 2)) sim::sleep_ns(sim::pick(20'000'000));
        q([&] { w->stopping = true; });
        srv->shutdown();
        q([&] { w->stop_at = sim::now(); });
        cr.join();
        if (sim::chance(1, 3))
        {
            // a server that was shut down accepts nobody
            auto late = [](world* w, net::socket_address ep, net::tcp::server* s) -> task<void> {
                co_await w->sc[1]->get()->schedule();
                if (sim::chance(1, 2))
                {
                    net::tcp::client t{*w->sc[0], ep};
                    auto st = co_await t.connect(ms(2'000));
                    SIM_CHECK(st != net::connect_status::connected, "wrong-status", "connected although the server was shut down");
                }
                i64  t0 = sim::now();
                bool queued = false; // connections that were made in time
                for (int i = 0; i < 40; i++)
                {
                    auto r = co_await s->accept(ms(0));
                    queued = r.has_value() || r.error().try_again();
                    if (!queued) break;
                }
                SIM_CHECK(!queued && sim::now() - t0 <= 40 * M(w), "wrong-status", "accept still works although the server was shut down");
            };
            sync_wait(late(W, ep, srv.get()));
        }
        srv.reset();
        if (from)
        {
            int fd = ::socket(six ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
            auto [sa, len] = ep.data();
            SIM_CHECK(::connect(fd, sa, len) != 0, "wrong-status", "somebody still listens although the server was destroyed");
            ::close(fd);
            from.reset();
        }
        q([&] {
            for (auto* c : w->cs)
                for (auto& f : c->f) if (!broken(W, c) && c->f[0].sent + c->f[1].sent) SIM_CHECK(f.got == f.sent && f.got == f.want, "lost-bytes", "connection %d ended with %zu of %zu bytes received", c->id, f.got, f.want);
        });
    }
    if (s1) s1->shutdown();
    s0->shutdown();
}

// Servers that share a port, stop and start again at it while connections of their predecessors still exist.
namespace
{
struct pworld
{
    int  clients = 0, done = 0, restarting = 0, epoch = 0; // epoch: how many servers have begun to go away
    std::vector<int> served, tries; // by number of the call: how often a server answered it
    i64  netmax = 0;
    bool over = false;
};
i64 PM(pworld* w) { return 3 * (sim::slack() + sim::stalled()) + 4 * w->netmax + 300'000; }
std::string ask(int n) { return std::string{(char)('A' + n % 26), (char)('a' + n / 26)}; }
task<void> serve(pworld* w, std::unique_ptr<scheduler>* s, net::tcp::client t, bool first)
{
    co_await (*s)->schedule();
    std::string in(2, 0), out;
    auto [st, got] = co_await t.read_exact(in);
    if (!st.is_ok()) co_return; // the caller went away
    int n = q([&] {
        int n = in[0] - 'A' + 26 * (in[1] - 'a');
        SIM_CHECK(n >= 0 && n < (int)w->served.size() && in == ask(n), "invented-bytes", "a server was asked '%s'", in.c_str());
        SIM_CHECK(++w->served[n] == 1, "duplicated", "call %d was accepted %d times", n, w->served[n]);
        out = ask(n) + "!";
        return n;
    });
    (void)n;
    auto [ws, rest] = co_await t.write_all(out);
    q([&] { SIM_CHECK(ws.is_ok(), "wrong-status", "answering call %d ended with %s (%d)", n, name(ws.type), ws.native_code); });
    if (first) co_return; // the server closes first, its address stays in use for a while
    std::string more(1, 0);
    auto [es, e] = co_await t.read_some(more);
    q([&] { SIM_CHECK(es.type == kind::closed, "wrong-status", "the end of call %d was reported as %s (%d)", n, name(es.type), es.native_code); });
}
task<void> host_of(pworld* w, std::unique_ptr<scheduler>* s, net::socket_address at, int restarts, int id)
{
    co_await (*s)->schedule();
    std::vector<std::unique_ptr<task<void>>> all;
    task_group<scheduler> g{*s};
    while (true)
    {
        std::unique_ptr<net::tcp::server> srv;
        try { srv = std::make_unique<net::tcp::server>(*s, at); }
        catch (const std::runtime_error& e) { q([&] { sim::fail("wrong-status", "server %d cannot start at its address: %s", id, e.what()); }); }
        q([&] { if (w->restarting) w->restarting--; sim::log("server %d is up", id); });
        int n = restarts ? 1 + sim::pick(3) : INT32_MAX;
        while (n)
        {
            if (q([&] { return w->over; })) break;
            ms   to(1 + sim::pick(8));
            i64  t0 = sim::now();
            auto c  = co_await srv->accept(to);
            if (c) { n--; g.start(serve(w, s, std::move(*c), sim::chance(1, 2))); continue; }
            q([&] {
                SIM_CHECK(c.error().type == kind::timeout, "wrong-status", "accept ended with %s (%d)", name(c.error().type), c.error().native_code);
                SIM_CHECK(sim::now() - t0 >= to.count() * 1'000'000ll, "early-timeout", "accept timed out early");
                SIM_CHECK(sim::now() - t0 <= (to.count() + 1) * 1'000'000ll + PM(w), "late-timeout", "accept with a time-out of %d ms ended after %lld ns", (int)to.count(), (long long)(sim::now() - t0));
            });
        }
        if (!restarts) break;
        restarts--;
        q([&] { w->restarting++; w->epoch++; sim::log("server %d goes away", id); });
        if (sim::chance(1, 2)) srv->shutdown();
        srv.reset();
        if (sim::chance(1, 2)) co_await (*s)->yield_for(std::chrono::microseconds(sim::pick(5000)));
    }
    co_await g;
}
task<void> caller_of(pworld* w, std::unique_ptr<scheduler>* s, net::socket_address at)
{
    co_await (*s)->schedule();
    for (int k = 0;; k++)
    {
        SIM_CHECK(k < 200, "lost", "a caller never gets through");
        int n = 0, ep = 0;
        bool down = q([&] { n = (int)w->served.size(); w->served.push_back(0); ep = w->epoch; return w->restarting > 0; });
        net::tcp::client t{*s, at};
        auto cs = co_await t.connect();
        bool moved = q([&] { return down || w->epoch != ep; }); // a server went away meanwhile
        if (cs != net::connect_status::connected)
        {
            q([&] { SIM_CHECK(moved && cs == net::connect_status::error, "wrong-status", "call %d: connect returned %d", n, (int)cs); });
            co_await (*s)->yield_for(ms(1 + sim::pick(3)));
            continue;
        }
        std::string out = ask(n), in(3, 0);
        auto [ws, rest] = co_await t.write_all(out);
        auto [rs, got]  = co_await t.read_exact(in);
        moved = q([&] { return down || w->epoch != ep; });
        bool ok = ws.is_ok() && rs.is_ok();
        q([&] {
            if (ok) SIM_CHECK(in == out + "!" && w->served[n] == 1, "wrong-bytes", "call %d was answered '%s'", n, in.c_str());
            else SIM_CHECK(moved && !w->served[n], "wrong-status", "call %d failed (write %s, read %s) though %s", n, name(ws.type), name(rs.type), w->served[n] ? "it was served" : "no server went away");
        });
        if (ok) { q([&] { if (++w->done == w->clients) w->over = true; }); co_return; }
        co_await (*s)->yield_for(ms(1 + sim::pick(3)));
    }
}
} // namespace
SIM_SCENARIO("C19", c19_ports, 1)
{
    host<pworld> w;
    if (sim::chance(1, 3)) sim::net.jitter = 1 + sim::pick(3'000'000);
    w->netmax = sim::net.min_delay + sim::net.jitter;
    auto s0 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    auto s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    bool six = sim::chance(1, 4);
    auto dom = six ? net::domain_t::ipv6 : net::domain_t::ipv4;
    net::socket_address at{six ? "::1" : "127.0.0.1", 8080, dom}, any{six ? "::" : "0.0.0.0", 8080, dom};
    {
        auto W = &*w;
        int  ns = 1 + sim::pick(3), nc = 1 + sim::pick(6);
        w->clients = nc;
        w->restarting = ns; // not up yet
        bool wild = sim::chance(1, 4);
        crew cr;
        for (int i = 0; i < ns; i++) { int r = sim::pick(3); cr.add([&, i, r] { sync_wait(host_of(W, &s0, wild ? any : at, r, i)); }); }
        for (int i = 0; i < nc; i++) cr.add([&] { sync_wait(caller_of(W, &s1, at)); });
        cr.join();
    }
    s1->shutdown();
    s0->shutdown();
}
