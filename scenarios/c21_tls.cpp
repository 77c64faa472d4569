// C21: TLS clients and servers over the simulated network. OpenSSL itself runs for real, with seeded randomness.
#include "sc.hpp"
#include <netinet/in.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <sys/socket.h>
using namespace sc;
using ms = std::chrono::milliseconds;
namespace tls = coro::net::tls;
namespace
{
// ---- seeded randomness for OpenSSL
u64 g_rs = 1;
int rnd(unsigned char* b, int n)
{
    for (int i = 0; i < n; i++)
    {
        g_rs ^= g_rs << 13; g_rs ^= g_rs >> 7; g_rs ^= g_rs << 17;
        b[i] = (unsigned char)(g_rs >> 24);
    }
    return 1;
}
int  rstat() { return 1; }
int  radd(const void*, int, double) { return 1; }
int  rseed(const void*, int) { return 1; }
void rclean() {}
#define CERT SCN_DIR "/tls/cert.pem"
#define KEY SCN_DIR "/tls/key.pem"
#define CERT_DER SCN_DIR "/tls/cert.der"
#define KEY_DER SCN_DIR "/tls/key.der"
#define OTHER SCN_DIR "/tls/other.pem" // the key of somebody else
// the server's identity from files in either format; files that do not fit are refused and leave nothing behind
std::shared_ptr<tls::context> identity()
{
    using ft = tls::tls_file_type;
    bool a = sim::chance(1, 3), b = sim::chance(1, 3);
    auto mk = [](const char* c, ft ct, const char* k, ft kt) { return std::make_shared<tls::context>(c, ct, k, kt, tls::verify_peer_t::no); };
    if (sim::chance(1, 6))
    {
        int how = sim::pick(4);
        bool refused = false;
        try
        {
            if (how == 0) mk(CERT, ft::pem, OTHER, ft::pem);
            else if (how == 1) mk(CERT_DER, ft::pem, KEY, ft::pem);
            else if (how == 2) mk(CERT, ft::pem, KEY, ft::asn1);
            else mk(SCN_DIR "/tls/none", ft::pem, KEY, ft::pem);
        }
        catch (const std::runtime_error&) { refused = true; }
        SIM_CHECK(refused, "wrong-identity", "a context was made from a certificate and key that do not fit (%d)", how);
    }
    return mk(a ? CERT_DER : CERT, a ? ft::asn1 : ft::pem, b ? KEY_DER : KEY, b ? ft::asn1 : ft::pem);
}
struct warm
{
    // one handshake in memory, so that OpenSSL's lazy initialisation is over before the first run
    warm()
    {
        static RAND_METHOD m{rseed, rnd, rclean, radd, rnd, rstat};
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        RAND_set_rand_method(&m);
#pragma GCC diagnostic pop
        for (int k = 0; k < 4; k++)
        {
            SSL_CTX* c = SSL_CTX_new(TLS_method());
            if (k & 1) SSL_CTX_set_max_proto_version(c, TLS1_2_VERSION);
            SSL_CTX_use_certificate_file(c, CERT, SSL_FILETYPE_PEM);
            SSL_CTX_use_PrivateKey_file(c, KEY, SSL_FILETYPE_PEM);
            SSL* a = SSL_new(c);
            SSL* b = SSL_new(c);
            BIO *x, *y;
            BIO_new_bio_pair(&x, 0, &y, 0);
            SSL_set_bio(a, x, x);
            SSL_set_bio(b, y, y);
            SSL_set_connect_state(a);
            SSL_set_accept_state(b);
            for (int i = 0; i < 10; i++) { SSL_do_handshake(a); SSL_do_handshake(b); }
            size_t n; char buf[100] = {0};
            SSL_write_ex(a, buf, 10, &n); SSL_read_ex(b, buf, 100, &n); SSL_write_ex(b, buf, 10, &n); SSL_read_ex(a, buf, 100, &n); SSL_read_ex(a, buf, 100, &n);
            if (k & 1) { SSL_renegotiate(b); for (int i = 0; i < 6; i++) { SSL_do_handshake(b); SSL_read_ex(a, buf, 100, &n); SSL_read_ex(b, buf, 100, &n); } }
            else { SSL_key_update(b, SSL_KEY_UPDATE_REQUESTED); SSL_do_handshake(b); for (int i = 0; i < 3; i++) { SSL_read_ex(a, buf, 100, &n); SSL_read_ex(b, buf, 100, &n); } }
            (void)ERR_peek_error(); ERR_clear_error();
            SSL_shutdown(a); SSL_shutdown(b);
            SSL_free(a); SSL_free(b);
            SSL_CTX_free(c);
        }
    }
} g_warm;

struct flow
{
    size_t want = 0, maybe = 0, sent = 0, got = 0;
    std::vector<std::pair<i64, size_t>> sent_at, got_at;
    bool   fin = false;
    i64    fin_at = INT64_MAX;
    u64    seed = 0;
    size_t by(const std::vector<std::pair<i64, size_t>>& v, i64 t) const { size_t n = 0; for (auto& [a, b] : v) if (a <= t) n = b; return n; }
};
struct plan { int shape = 0, rounds = 1; size_t chunk = 1; bool give_up[2] = {false, false}; bool drop[2] = {false, false}; };
struct conn { int id = 0; flow f[2]; bool aborted = false, accepted = false, clean = false; int given = 0; plan p; bool ok[2] = {false, false}; };
struct world
{
    std::unique_ptr<scheduler>* sc[2];
    std::vector<conn*> cs;
    std::map<int, conn*> ports;
    bool broken = false, corrupt = false, stop = false, tight = false, slow = false, noise = false;
    i64  netmax = 0, partition = 0;
    std::shared_ptr<tls::context> cctx;
    int  connecting = 0, handshaking = 0;
    ~world() { for (auto* c : cs) delete c; }
};
char pat(u64 seed, size_t i) { u64 x = (seed + i) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; return (char)(x * 0xbf58476d1ce4e5b9ull >> 56); }
i64 M(world* w) { return 3 * (sim::slack() + sim::stalled()) + 6 * w->netmax + w->partition + 500'000; }
std::optional<ms> tmo(world* w, int of = 3) { if (w->corrupt) return ms(1 + sim::pick(40)); if (sim::chance(1, of)) return ms(1 + sim::pick(sim::chance(1, 2) ? 4 : 40)); return std::nullopt; }
bool bad(world* w, conn* c) { return w->broken || c->aborted || (w->tight && !c->accepted) || (c->p.drop[0] && c->f[0].fin) || (c->p.drop[1] && c->f[1].fin && !c->clean); }

// was a time-out justified?
void timed(world* w, conn* c, bool rd, flow& f, i64 t0, std::optional<ms> t)
{
    i64 now = sim::now(), ns = t ? t->count() * 1'000'000ll : 0;
    SIM_CHECK(t && now - t0 >= ns, "early-timeout", "connection %d: %s timed out after %lld ns of %lld", c->id, rd ? "recv" : "send", (long long)(now - t0), (long long)ns);
    i64 safe = now - M(w) - 1'000'000;
    if (w->broken || w->slow) return;
    if (rd)
    {
        SIM_CHECK(f.by(f.sent_at, safe) <= f.got, "false-timeout", "connection %d: recv timed out though %zu bytes were sent and %zu received", c->id, f.by(f.sent_at, safe), f.got);
        SIM_CHECK(f.fin_at > safe, "false-timeout", "connection %d: recv timed out though the peer shut down", c->id);
    }
}
void within(world* w, conn* c, const char* what, i64 t0, std::optional<ms> t)
{
    if (!t) return;
    i64 now = sim::now(), ns = t->count() * 1'000'000ll;
    SIM_CHECK(now - t0 <= ns + 2'500'000 + 3 * (sim::slack() + sim::stalled()), "late-timeout", "connection %d: %s with a time-out of %lld ns ended after %lld", c ? c->id : -1, what, (long long)ns, (long long)(now - t0));
}
task<bool> writer(world* w, conn* c, tls::client* t, int dir, size_t upto, bool give_up)
{
    flow& f = c->f[dir];
    while (f.sent < upto)
    {
        size_t n = std::min(upto - f.sent, (size_t)1 + (sim::chance(1, 3) ? sim::pick(20) : sim::chance(2, 3) ? sim::pick(4000) : 40000));
        std::vector<char> buf(n);
        q([&] { for (size_t i = 0; i < n; i++) buf[i] = pat(f.seed, f.sent + i); f.maybe = f.sent + n; });
        while (true)
        {
            auto to = tmo(w);
            i64  t0 = sim::now();
            std::pair<tls::send_status, std::span<const char>> r = co_await t->send(buf, endless(to));
            int go = q([&] {
                auto& [st, rest] = r;
                sim::mix((u64)st);
                sim::note("send c%d d%d st %d n %zu rest %zu", c->id, dir, (int)st, n, rest.size());
                within(w, c, "send", t0, to);
                SIM_CHECK(rest.size() <= n && (rest.empty() || rest.data() + rest.size() == buf.data() + n), "wrong-span", "send returned a span of %zu bytes that is not the end of the %zu given", rest.size(), n);
                if (st == tls::send_status::ok)
                {
                    f.sent += n - rest.size();
                    f.maybe = f.sent;
                    SIM_CHECK(rest.size() < n, "wrong-span", "send says ok but took nothing");
                    f.sent_at.emplace_back(sim::now(), f.sent);
                    return 1;
                }
                SIM_CHECK(rest.size() == n, "wrong-span", "send failed (%d) but says only %zu of %zu bytes are unsent", (int)st, rest.size(), n);
                if (st == tls::send_status::timeout) { timed(w, c, false, f, t0, to); if (w->corrupt && ++c->given > 30) { c->aborted = true; return 0; } return 2; }
                SIM_CHECK(bad(w, c), "wrong-status", "connection %d: send ended with status %d though nothing happened to the connection", c->id, (int)st);
                c->aborted = true;
                return 0;
            });
            if (!go) co_return false;
            if (go == 1) break;
        }
        if (give_up && sim::chance(1, 3)) { c->aborted = true; co_return false; }
        if (sim::chance(1, 5)) co_await w->sc[dir]->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
    }
    co_return true;
}
task<bool> reader(world* w, conn* c, tls::client* t, int dir, size_t upto, bool give_up)
{
    flow& f = c->f[dir];
    while (f.got < upto)
    {
        size_t n = 1 + (sim::chance(1, 3) ? sim::pick(20) : sim::chance(1, 2) ? sim::pick(4000) : 40000);
        n = std::min(n, upto - f.got);
        std::vector<char> buf(n, 'x');
        auto to = tmo(w);
        i64  t0 = sim::now();
        auto [st, in] = co_await t->recv(buf, endless(to));
        if ((int)st == 1 || (int)st == 5) q([&] { char e[200]; ERR_error_string_n(ERR_peek_error(), e, 200); sim::note("ERR %s errno %d", e, errno); });
        int go = q([&] {
            sim::note("recv c%d d%d st %d n %zu", c->id, dir, (int)st, in.size());
            sim::mix((u64)st);
            within(w, c, "recv", t0, to);
            SIM_CHECK(in.size() <= n && (in.empty() || in.data() == buf.data()), "wrong-span", "recv returned a span of %zu bytes that is not the start of the %zu given", in.size(), n);
            for (size_t i = 0; i < in.size(); i++)
                SIM_CHECK(in[i] == pat(f.seed, f.got + i), "wrong-bytes", "connection %d: byte %zu of the plaintext is not what was sent", c->id, f.got + i);
            f.got += in.size();
            SIM_CHECK(f.got <= f.maybe, "invented-bytes", "connection %d: %zu bytes received, %zu sent", c->id, f.got, f.maybe);
            f.got_at.emplace_back(sim::now(), f.got);
            if (st == tls::recv_status::ok) { SIM_CHECK(in.size() > 0, "wrong-span", "recv says ok without data"); return 1; }
            SIM_CHECK(in.empty(), "wrong-span", "recv failed (%d) with %zu bytes", (int)st, in.size());
            if (st == tls::recv_status::timeout) { timed(w, c, true, f, t0, to); if (w->corrupt && ++c->given > 30) { c->aborted = true; return 2; } return 1; }
            if (bad(w, c)) { c->aborted = true; return 2; }
            SIM_CHECK(st == tls::recv_status::closed, "wrong-status", "connection %d: recv ended with status %d though nothing happened to the connection", c->id, (int)st);
            SIM_CHECK(f.fin, "wrong-status", "connection %d: recv says closed but the peer did not close", c->id);
            SIM_CHECK(f.got == f.sent, "lost-bytes", "connection %d: recv says closed after %zu bytes, %zu were sent", c->id, f.got, f.sent);
            return 0;
        });
        if (!go) co_return upto == INF;
        if (go == 2) co_return false;
        if (give_up && sim::chance(1, 3)) { c->aborted = true; co_return false; }
        if (sim::chance(1, 6)) co_await w->sc[!dir]->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
    }
    co_return true;
}
// an operation on nothing ends at once and says so
task<void> nothing(tls::client* t)
{
    std::vector<char> none;
    auto to = sim::chance(1, 2) ? std::optional<ms>(ms(sim::pick(3))) : std::nullopt;
    if (sim::chance(1, 2))
    {
        auto [st, in] = co_await t->recv(none, to);
        SIM_CHECK(st == tls::recv_status::buffer_is_empty && in.empty(), "wrong-status", "receiving into nothing ended with status %d, %zu bytes", (int)st, in.size());
    }
    else
    {
        auto [st, rest] = co_await t->send(none, to);
        SIM_CHECK(st == tls::send_status::buffer_is_empty && rest.empty(), "wrong-status", "sending nothing ended with status %d, %zu bytes left", (int)st, rest.size());
    }
}
task<void> talk(world* w, conn* c, tls::client t, int side, std::shared_ptr<tls::context> ctx)
{
    if (sim::chance(1, 6)) co_await nothing(&t);
    auto& p  = c->p;
    bool  ok = true;
    switch (p.shape)
    {
        case 0: // upload, response
            if (side == 0) { ok = co_await writer(w, c, &t, 0, c->f[0].want, p.give_up[0]); if (ok) ok = co_await reader(w, c, &t, 1, c->f[1].want, p.give_up[0]); }
            else { ok = co_await reader(w, c, &t, 0, c->f[0].want, p.give_up[1]); if (ok) ok = co_await writer(w, c, &t, 1, c->f[1].want, p.give_up[1]); }
            break;
        case 1: // ping pong
            for (int i = 1; i <= p.rounds && ok; i++)
            {
                size_t n = p.chunk * i;
                if (side == 0) { ok = co_await writer(w, c, &t, 0, n, p.give_up[0]); if (ok) ok = co_await reader(w, c, &t, 1, n, p.give_up[0]); }
                else { ok = co_await reader(w, c, &t, 0, n, p.give_up[1]); if (ok) ok = co_await writer(w, c, &t, 1, n, p.give_up[1]); }
            }
            break;
        default: // the server pushes
            if (side == 1) ok = co_await writer(w, c, &t, 1, c->f[1].want, p.give_up[1]);
    }
    // the client stays until the server has shut down, so that nothing unread is thrown away
    if (ok && side == 0)
    {
        ok = co_await reader(w, c, &t, 1, INF, p.give_up[0]);
        q([&] { if (ok && !bad(w, c)) c->ok[0] = true; });
    }
    if (ok && side == 1) q([&] { c->ok[1] = true; });
    q([&] {
        if (!ok) c->aborted = true;
        c->f[side].fin = true;
        // nothing is unread and there is room to say goodbye: even a destroyed client tells its peer
        if (side == 1 && ok && p.drop[1] && !sim::nf.eagain && !sim::nf.short_send && (int)c->f[1].sent + 5000 <= sim::net.sndbuf) { c->clean = true; sim::probe("clean drop"); }
    });
    q([&] { sim::note("conn %d side %d done ok %d drop %d shape %d sndbuf %d", c->id, side, ok, p.drop[side], p.shape, (int)sim::net.sndbuf); });
    if (!p.drop[side])
    {
        auto lim = ms(1 + sim::pick(50));
        i64  t0  = sim::now();
        co_await t.shutdown(lim);
        q([&] { within(w, c, "shutdown", t0, lim); if (sim::now() - t0 >= lim.count() * 1'000'000) p.drop[side] = true; }); // out of time: nobody was told
        if (sim::chance(1, 4)) co_await t.shutdown();
    }
    q([&] { c->f[side].fin_at = std::min<i64>(c->f[side].fin_at, sim::now()); });
    // the destructor closes, or an assignment does
    if (p.drop[side] && ctx && sim::chance(1, 2))
    {
        t = tls::client{*w->sc[side], ctx, net::socket_address{"127.0.0.1", 8443}};
        co_await w->sc[side]->get()->yield_for(ms(1 + sim::pick(20)));
    }
}
int port_of(int fd, bool peer)
{
    sockaddr_storage ss{};
    socklen_t        n = sizeof ss;
    if (peer) ::getpeername(fd, (sockaddr*)&ss, &n); else ::getsockname(fd, (sockaddr*)&ss, &n);
    return ntohs(((sockaddr_in*)&ss)->sin_port);
}
task<void> caller(world* w, net::socket_address ep, conn* c, std::shared_ptr<tls::context> ctx, bool distrust)
{
    co_await w->sc[0]->get()->schedule();
    if (sim::chance(1, 2)) co_await w->sc[0]->get()->yield_for(std::chrono::microseconds(sim::pick(2000)));
    tls::client t{*w->sc[0], ctx, ep};
    auto to = tmo(w);
    i64  t0 = sim::now();
    q([&] { w->connecting++; });
    auto st = co_await t.connect(to.value_or(ms(0)));
    q([&] { sim::note("connect %d", (int)st); });
    q([&] {
        sim::mix((u64)st);
        i64 now = sim::now(), ns = to ? to->count() * 1'000'000ll : 0;
        within(w, c, "connect", t0, to);
        if (distrust) SIM_CHECK(st != tls::connection_status::connected, "unauthenticated", "connected to a server whose certificate cannot be verified");
        if (st == tls::connection_status::timeout) SIM_CHECK(to && now - t0 >= ns, "early-timeout", "connect timed out after %lld ns of %lld", (long long)(now - t0), (long long)ns);
        else if (st != tls::connection_status::connected)
        {
            SIM_CHECK(st == tls::connection_status::handshake_failed || st == tls::connection_status::unexpected_close || st == tls::connection_status::poll_error || st == tls::connection_status::error, "wrong-status", "connect returned %d", (int)st);
            SIM_CHECK(distrust || w->broken || w->tight, "wrong-status", "connect failed with status %d though nothing happened", (int)st);
        }
        w->connecting--;
        if (st == tls::connection_status::connected) w->ports[port_of(t.socket().native_handle(), false)] = c;
    });
    auto again = co_await t.connect(to.value_or(ms(0)));
    SIM_CHECK(again == st, "wrong-status", "connect returned %d and then %d", (int)st, (int)again);
    if (st == tls::connection_status::connected)
    {
        if (sim::chance(1, 3))
        {
            tls::client u = std::move(t);
            if (sim::chance(1, 2))
            {
                auto none = co_await t.connect(ms(sim::pick(3))); // moved from: there is nothing left to connect
                SIM_CHECK(none == tls::connection_status::context_required, "wrong-status", "a client that was moved from says %d", (int)none);
            }
            co_await talk(w, c, std::move(u), 0, ctx);
        }
        else if (sim::chance(1, 4))
        {
            // assigned to one that belonged to another scheduler, or that was moved from
            auto other = elsewhere();
            tls::client u{other, w->cctx, ep};
            if (sim::chance(1, 2)) { tls::client gone = std::move(u); }
            u = std::move(t);
            other.reset();
            co_await talk(w, c, std::move(u), 0, ctx);
        }
        else co_await talk(w, c, std::move(t), 0, ctx);
    }
}
task<void> served(world* w, tls::client t)
{
    // a client whose handshake failed is of no use; whether it succeeded is known to connect()
    auto st = co_await t.connect();
    SIM_CHECK((st == tls::connection_status::connected) == t.socket().is_ok(), "wrong-status", "an accepted client says %d but its socket is %s", (int)st, t.socket().is_ok() ? "valid" : "invalid");
    if (st != tls::connection_status::connected) co_return;
    int   port = port_of(t.socket().native_handle(), true);
    conn* c    = nullptr;
    int   step = 1;
    while (!c)
    {
        c = q([&] { auto it = w->ports.find(port); return it == w->ports.end() ? nullptr : it->second; });
        if (!c && !q([&] { return w->connecting; })) { c = q([&] { auto it = w->ports.find(port); return it == w->ports.end() ? nullptr : it->second; }); if (!c) break; }
        if (!c) co_await w->sc[1]->get()->yield_for(ms(step = std::min(step * 2, 2000)));
    }
    if (!c) { sim::probe("orphan"); co_return; }
    q([&] { c->accepted = true; });
    co_await talk(w, c, std::move(t), 1, w->cctx);
}
task<void> acceptor(world* w, tls::server* s)
{
    co_await w->sc[1]->get()->schedule();
    std::vector<std::unique_ptr<event>> ends;
    while (true)
    {
        auto to = tmo(w).value_or(ms(0));
        i64  t0 = sim::now();
        auto ps = co_await s->poll(to);
        q([&] { sim::note("accept poll %d", (int)ps); });
        if (ps == poll_status::timeout)
        {
            SIM_CHECK(to.count() && sim::now() - t0 >= to.count() * 1'000'000, "early-timeout", "poll timed out early");
            continue;
        }
        if (ps != poll_status::read || w->stop) { q([&] { SIM_CHECK(w->stop, "wrong-status", "poll for connections ended with %d", (int)ps); }); break; }
        ends.emplace_back(std::make_unique<event>());
        auto hs  = w->tight ? ms(1 + sim::pick(10)) : ms(w->corrupt ? 1000 : 0);
        t0       = sim::now();
        auto cl  = co_await s->accept(hs);
        q([&] { sim::note("accepted"); });
        q([&] { within(w, nullptr, "accept", t0, hs.count() ? std::optional<ms>(hs) : std::nullopt); });
        auto run = [](world* w, tls::client t, event* e) -> task<void> { co_await w->sc[1]->get()->schedule(); co_await served(w, std::move(t)); e->set(); };
        w->sc[1]->get()->spawn_detached(run(w, std::move(cl), ends.back().get()));
    }
    for (auto& e : ends) co_await *e;
}
// somebody else's use of OpenSSL on the same threads leaves errors behind
void noise(world* w)
{
    for (int i = 2 + sim::pick(8); i--;)
    {
        sim::sleep_ns(sim::pick(3'000'000));
        auto leave = [](scheduler* s, int hops) -> task<void> {
            for (int h = 0; h <= hops; h++) { co_await s->schedule(); ERR_raise(ERR_LIB_USER, 1); }
        };
        auto* s = w->sc[sim::pick(2)]->get();
        s->spawn_detached(leave(s, sim::pick(3)));
    }
    sim::probe("foreign errors");
}
// somebody who does not speak TLS
task<void> garbage(world* w, net::socket_address ep)
{
    net::tcp::client t{*w->sc[0], ep};
    if (co_await t.connect() != net::connect_status::connected) co_return;
    std::vector<char> buf(1 + sim::pick(200));
    q([&] { for (size_t i = 0; i < buf.size(); i++) buf[i] = (char)sim::pick(256); if (sim::chance(1, 2) && buf.size() > 3) { buf[0] = 22; buf[1] = 3; buf[2] = 1; } });
    co_await t.write_all(buf);
    if (sim::chance(1, 2)) t.socket().shutdown(poll_op::write);
    co_await t.read_some(buf, ms(1 + sim::pick(20)));
}
void setup(world* w)
{
    auto& n = sim::net;
    n.sigpipe_ignored = true;
    static const int b[] = {2500, 8000, 65536}; // room for a whole flight: below that TLS itself can deadlock
    n.sndbuf  = b[sim::pick(3)];
    n.rcvbuf  = b[sim::pick(3)];
    static const int sg[] = {50, 600, 1 << 20};
    n.seg_max = sg[sim::pick(3)];
    if (sim::chance(1, 3)) n.jitter = 1 + sim::pick(2'000'000);
    if (sim::chance(1, 5)) n.min_delay = 1 + sim::pick(15'000'000);
    w->netmax = n.min_delay + n.jitter;
    if (sim::chance(1, 5)) { w->slow = true; n.seg_max = sim::chance(1, 2) ? 50 : 600; n.gap = 100'000 + sim::pick(2'000'000); }
    auto& f = sim::nf;
    auto on = [](const char* k) { sim::faults_enable(k, true); };
    if (sim::chance(1, 3)) { f.short_recv = 2 + sim::pick(6); on("tcp-short-recv"); }
    if (sim::chance(1, 3)) { f.short_send = 2 + sim::pick(6); on("tcp-short-send"); }
    if (sim::chance(1, 5)) { f.eagain = 2 + sim::pick(10); on("tcp-spurious-eagain"); }
    if (sim::chance(1, 6)) { f.reset = 3 + sim::pick(40); on("tcp-reset"); w->broken = true; }
    if (sim::chance(1, 5)) { f.corrupt = 2 + sim::pick(30); on("tcp-corrupt"); w->broken = w->corrupt = true; }
    if (sim::chance(1, 4)) { f.eintr = 5 + sim::pick(10); on("epoll-eintr"); }
}
} // namespace
SIM_SCENARIO("C21", c21_tls, 1)
{
    g_rs = 88172645463325252ull + sim::pick(1 << 20) * 7919ull;
    host<world> w;
    setup(&*w);
    auto W    = &*w;
    auto s0   = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    std::unique_ptr<scheduler> s1;
    if (sim::chance(1, 2)) s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->sc[0] = &s0;
    w->sc[1] = s1 ? &s1 : &s0;
    net::socket_address ep{"127.0.0.1", 8443};
    bool part = sim::chance(1, 10);
    i64  plen = (1 + sim::pick(60)) * 1'000'000ll, pat_ = sim::pick(5'000'000);
    if (part) w->partition = plen + 60'000'000;
    w->tight = sim::chance(1, 5);
    w->noise = sim::chance(1, 3);
    {
        auto sctx = identity();
        auto cctx = std::make_shared<tls::context>(tls::verify_peer_t::no);
        std::shared_ptr<tls::context> strict;
        w->cctx = cctx;
        auto srv  = std::make_unique<tls::server>(*w->sc[1], sctx, ep);
        std::unique_ptr<tls::server> from; // a server moved from owns nothing
        switch (sim::pick(6))
        {
            case 0: from = std::move(srv); srv = std::make_unique<tls::server>(std::move(*from)); break;
            case 1:
                from = std::move(srv);
                srv  = std::make_unique<tls::server>(*w->sc[1], sctx, net::socket_address{"127.0.0.1", 8444}); // listens until it is assigned to
                *srv = std::move(*from);
                break;
            case 2:
            {
                auto other = elsewhere();
                from = std::move(srv);
                srv  = std::make_unique<tls::server>(other, sctx, net::socket_address{"127.0.0.1", 8444});
                if (sim::chance(1, 2)) { tls::server gone = std::move(*srv); }
                *srv = std::move(*from);
                break;
            }
        }
        if (sim::chance(1, 2)) from.reset();
        int  n    = 1 + sim::pick(2);
        bool distrust = sim::chance(1, 10), junk = sim::chance(1, 6);
        if (distrust) strict = std::make_shared<tls::context>(tls::verify_peer_t::yes);
        if (distrust || junk) w->tight = true, w->broken = w->broken || false;
        std::vector<conn*> cs;
        q([&] {
            for (int i = 0; i < n; i++)
            {
                auto* c = new conn;
                c->id   = i;
                auto& p = c->p;
                p.shape = sim::pick(3);
                bool giv = sim::chance(1, 5);
                for (int k = 0; k < 2; k++) { p.give_up[k] = giv && sim::chance(1, 2); p.drop[k] = sim::chance(1, 5); }
                p.rounds = 1 + sim::pick(4);
                p.chunk  = 1 + sim::pick(sim::chance(1, 2) ? 10 : 3000);
                for (int d = 0; d < 2; d++)
                {
                    c->f[d].seed = (u64)i * 1000003 + d * 7919 + 11;
                    c->f[d].want = p.shape == 1 ? p.chunk * p.rounds : (size_t)sim::pick(sim::chance(1, 3) ? 8 : !w->slow && sim::chance(1, 4) ? 60000 : 6000);
                }
                w->cs.push_back(c);
                cs.push_back(c);
            }
        });
        crew cr, cl;
        cr.add([&] { sync_wait(acceptor(W, srv.get())); });
        if (w->noise) cl.add([&] { noise(W); });
        if (part) cr.add([&] { sim::sleep_ns(pat_); sim::tcp_partition(true); sim::sleep_ns(plen); sim::tcp_partition(false); });
        for (auto* c : cs) cl.add([&, c] { sync_wait(caller(W, ep, c, cctx, false)); });
        if (distrust) cl.add([&] { sync_wait(caller(W, ep, nullptr, strict, true)); });
        if (junk) cl.add([&] { sync_wait(garbage(W, ep)); });
        cl.join();
        q([&] { w->stop = true; });
        srv->shutdown();
        cr.join();
        srv.reset();
        w->cctx = nullptr;
        q([&] {
            for (auto* c : w->cs)
                if (c->ok[0] && c->ok[1] && !bad(W, c))
                    for (int d = 0; d < 2; d++) if (c->p.shape != 2 || d == 1) SIM_CHECK(c->f[d].got == c->f[d].want, "lost-bytes", "connection %d ended with %zu of %zu bytes received", c->id, c->f[d].got, c->f[d].want);
        });
    }
    if (s1) s1->shutdown();
    s0->shutdown();
}

// ---- the other end is plain OpenSSL on a blocking socket, and uses what the protocol allows it to: key updates,
// renegotiation, tickets, records of any size
namespace
{
struct duet
{
    size_t want = 0, sent = 0, got = 0, peer = 0;
    u64    seed = 0;
    bool   old = false, server = false; // the peer speaks TLS 1.2; the peer is the server
    int    timeouts = 0, updates = 0;
    bool   done = false, ended = false; // the peer has been told that there is no more
    bool   brief = false; // within the default time-out
    bool   may_miss() { return brief && sim::stalled() > 10'000'000'000; }
    std::string echo;
};
void raw_peer(duet* d)
{
    int fd = ::socket(AF_INET, SOCK_STREAM, 0), l = -1;
    sockaddr_in sa{};
    sa.sin_family      = AF_INET;
    sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    sa.sin_port        = htons(8443);
    if (d->server)
    {
        l = fd;
        SIM_CHECK(::bind(l, (sockaddr*)&sa, sizeof sa) == 0 && ::listen(l, 4) == 0, "harness", "raw peer");
        fd = ::accept(l, nullptr, nullptr);
    }
    else while (::connect(fd, (sockaddr*)&sa, sizeof sa) != 0) { ::close(fd); sim::sleep_ns(1'000'000); fd = ::socket(AF_INET, SOCK_STREAM, 0); }
    SIM_CHECK(fd >= 0, "harness", "raw peer has no connection");
    SSL_CTX* cx = SSL_CTX_new(TLS_method());
    if (d->old) SSL_CTX_set_max_proto_version(cx, TLS1_2_VERSION);
    SSL_CTX_use_certificate_file(cx, CERT, SSL_FILETYPE_PEM);
    SSL_CTX_use_PrivateKey_file(cx, KEY, SSL_FILETYPE_PEM);
    SSL_CTX_clear_mode(cx, SSL_MODE_AUTO_RETRY);
    SSL* s = SSL_new(cx);
    SSL_set_fd(s, fd);
    if (d->server) SSL_set_accept_state(s); else SSL_set_connect_state(s);
    int r = SSL_do_handshake(s);
    SIM_CHECK(r == 1, "wrong-status", "the handshake with a plain OpenSSL peer failed: %d", SSL_get_error(s, r));
    auto busy = [&](const char* what, int r) { int e = SSL_get_error(s, r); SIM_CHECK(e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE, "wrong-bytes", "plain OpenSSL peer: %s fails with %d", what, e); };
    char buf[4000];
    std::string out;
    while (d->peer < d->want || !out.empty())
    {
        if (!out.empty() && !SSL_renegotiate_pending(s))
        {
            if (sim::chance(1, 3)) sim::sleep_ns(sim::pick(6'000'000));
            size_t n = 0, k = sim::chance(1, 2) ? out.size() : 1 + sim::pick((u64)out.size());
            int r = SSL_write_ex(s, out.data(), k, &n);
            if (r > 0) q([&] { out.erase(0, n); }); else busy("write", r);
            continue;
        }
        if (d->peer < d->want && sim::chance(1, 4))
        {
            q([&] { d->updates++; });
            if (!d->old) { SSL_key_update(s, sim::chance(2, 3) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(s); sim::probe("key update"); }
            else if (d->server && !SSL_renegotiate_pending(s)) { SSL_renegotiate(s); SSL_do_handshake(s); sim::probe("renegotiation"); }
        }
        size_t n = 0;
        if (sim::chance(1, 4)) sim::sleep_ns(sim::pick(6'000'000));
        r = SSL_read_ex(s, buf, 1 + sim::pick(sizeof buf), &n);
        if (r > 0) q([&] {
            for (size_t i = 0; i < n; i++) SIM_CHECK(buf[i] == pat(d->seed, d->peer + i), "wrong-bytes", "byte %zu at the plain OpenSSL peer is not what was sent", d->peer + i);
            d->peer += n;
            SIM_CHECK(d->peer <= d->want, "invented-bytes", "the peer received %zu of %zu bytes", d->peer, d->want);
            out.append(buf, n);
        });
        else busy("read", r);
    }
    while (true)
    {
        size_t n = 0;
        r = SSL_read_ex(s, buf, sizeof buf, &n);
        SIM_CHECK(r <= 0, "invented-bytes", "more bytes than were sent");
        int e = SSL_get_error(s, r);
        if (e == SSL_ERROR_ZERO_RETURN) break;
        if (e != SSL_ERROR_WANT_READ && q([&] { return d->may_miss(); })) break;
        SIM_CHECK(e == SSL_ERROR_WANT_READ, "wrong-status", "the connection ended without the end of the stream being announced (%d)", e);
    }
    q([&] { d->ended = true; });
    SSL_shutdown(s);
    ERR_clear_error();
    SSL_free(s);
    SSL_CTX_free(cx);
    ::close(fd);
    if (l >= 0) ::close(l);
    q([&] { std::string().swap(out); });
}
task<void> drive(world* w, duet* d, tls::client t)
{
    co_await w->sc[0]->get()->schedule();
    std::vector<char> buf(4000);
    auto early = [&](const char* what, i64 t0, std::optional<ms> to) { SIM_CHECK(to && sim::now() - t0 >= to->count() * 1'000'000, "early-timeout", "%s timed out early", what); within(w, nullptr, what, t0, to); };
    while (d->got < d->want)
    {
        if (d->sent < d->want && (d->sent == d->got || sim::chance(1, 2)))
        {
            size_t n = std::min(d->want - d->sent, (size_t)1 + sim::pick(1000));
            std::vector<char> o(n);
            q([&] { for (size_t i = 0; i < n; i++) o[i] = pat(d->seed, d->sent + i); });
            while (true)
            {
                auto to = tmo(w, 2);
                i64  t0 = sim::now();
                std::pair<tls::send_status, std::span<const char>> r = co_await t.send(o, endless(to));
                q([&] { within(w, nullptr, "send", t0, to); sim::mix((u64)r.first); });
                if (r.first == tls::send_status::timeout) { q([&] { early("send", t0, to); SIM_CHECK(r.second.size() == n, "wrong-span", "send timed out but says only %zu of %zu bytes are unsent", r.second.size(), n); d->timeouts++; }); continue; }
                SIM_CHECK(r.first == tls::send_status::ok && r.second.size() < n, "wrong-status", "send to a plain OpenSSL peer ended with status %d", (int)r.first);
                q([&] { d->sent += n - r.second.size(); });
                break;
            }
            continue;
        }
        auto to = tmo(w, 2);
        i64  t0 = sim::now();
        q([&] { buf.resize(1 + sim::pick(4000)); });
        auto [st, in] = co_await t.recv(buf, endless(to));
        q([&] {
            sim::mix((u64)st);
            within(w, nullptr, "recv", t0, to);
            if (st == tls::recv_status::timeout) { early("recv", t0, to); d->timeouts++; return; }
            SIM_CHECK(st == tls::recv_status::ok && in.size(), "wrong-status", "recv from a plain OpenSSL peer ended with status %d", (int)st);
            for (size_t i = 0; i < in.size(); i++) SIM_CHECK(in[i] == pat(d->seed, d->got + i), "wrong-bytes", "byte %zu from the plain OpenSSL peer is not what was sent", d->got + i);
            d->got += in.size();
            SIM_CHECK(d->got <= d->sent, "invented-bytes", "received %zu, sent %zu", d->got, d->sent);
        });
        if (sim::chance(1, 6)) co_await w->sc[0]->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
    }
    if (sim::nf.eagain || sim::nf.short_send || sim::chance(1, 2)) // the destructor makes a single attempt
    {
        if (sim::chance(1, 2)) { q([&] { d->brief = true; }); co_await t.shutdown(); } else co_await t.shutdown(std::chrono::hours::max());
        i64 t0 = sim::now();
        if (sim::chance(1, 2)) while (!q([&] { return d->ended || d->may_miss(); }))
        {
            SIM_CHECK(sim::now() - t0 < 100'000'000'000 + M(w), "not-announced", "the plain OpenSSL peer never heard of the shutdown");
            co_await w->sc[0]->get()->yield_for(ms(20));
        }
    }
    q([&] { d->done = true; });
}
} // namespace
SIM_SCENARIO("C21", c21_openssl_peer, 1)
{
    g_rs = 88172645463325252ull + sim::pick(1 << 20) * 7919ull;
    host<world> w;
    host<duet>  d;
    auto        W = &*w;
    auto        D = &*d;
    setup(W);
    sim::faults_enable("tcp-reset", false);
    sim::faults_enable("tcp-corrupt", false);
    w->broken = w->corrupt = false;
    if (sim::net.sndbuf < 8000) sim::net.sndbuf = 8000;
    if (sim::net.rcvbuf < 8000) sim::net.rcvbuf = 8000;
    if (sim::chance(1, 2)) { sim::nf.eagain = 2 + sim::pick(4); sim::faults_enable("tcp-spurious-eagain", true); }
    auto s0  = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->sc[0] = w->sc[1] = &s0;
    d->want   = 1 + sim::pick(2500);
    d->seed   = 77;
    d->old    = sim::chance(1, 2);
    d->server = sim::chance(2, 3);
    net::socket_address ep{"127.0.0.1", 8443};
    {
        auto ctx = std::make_shared<tls::context>(CERT, tls::tls_file_type::pem, KEY, tls::tls_file_type::pem, tls::verify_peer_t::no);
        crew cr;
        if (sim::chance(1, 3)) cr.add([&] { noise(W); });
        cr.add([&] { raw_peer(D); });
        if (d->server)
        {
            auto go = [](world* w, duet* d, std::shared_ptr<tls::context> ctx, net::socket_address ep) -> task<void> {
                while (true)
                {
                    tls::client t{*w->sc[0], ctx, ep};
                    auto st = co_await t.connect();
                    if (st == tls::connection_status::error) { co_await w->sc[0]->get()->yield_for(ms(1)); continue; } // not listening yet
                    SIM_CHECK(st == tls::connection_status::connected, "wrong-status", "connect to a plain OpenSSL server returned %d", (int)st);
                    co_await drive(w, d, std::move(t));
                    break;
                }
            };
            sync_wait(go(W, D, ctx, ep));
        }
        else
        {
            auto go = [](world* w, duet* d, std::shared_ptr<tls::context> ctx, net::socket_address ep) -> task<void> {
                tls::server s{*w->sc[0], ctx, ep};
                auto ps = co_await s.poll();
                SIM_CHECK(ps == poll_status::read, "wrong-status", "poll for a connection returned %d", (int)ps);
                auto t = co_await s.accept(ms(0));
                auto st = co_await t.connect();
                SIM_CHECK(st == tls::connection_status::connected, "wrong-status", "the handshake with a plain OpenSSL client ended with %d", (int)st);
                co_await drive(w, d, std::move(t));
            };
            sync_wait(go(W, D, ctx, ep));
        }
        cr.join();
        q([&] { SIM_CHECK(d->done && d->got == d->want && d->peer == d->want, "lost-bytes", "%zu sent, %zu at the peer, %zu back", d->sent, d->peer, d->got); });
    }
    s0->shutdown();
}
namespace
{
// who asks for the other side to be verified, and who has a certificate; nobody here is trusted
struct gate { bool vs = false, vc = false, cc = false, in = false, known = false; };
std::shared_ptr<tls::context> person(bool cert, bool verify)
{
    auto v = verify ? tls::verify_peer_t::yes : tls::verify_peer_t::no;
    if (!cert) return std::make_shared<tls::context>(v);
    bool a = sim::chance(1, 3), b = sim::chance(1, 3);
    auto f = [](bool der) { return der ? tls::tls_file_type::asn1 : tls::tls_file_type::pem; };
    return std::make_shared<tls::context>(a ? CERT_DER : CERT, f(a), b ? KEY_DER : KEY, f(b), v);
}
task<void> keeper(world* w, gate* g, net::socket_address ep, std::shared_ptr<tls::context> cx, event* up)
{
    tls::server s{*w->sc[1], cx, ep};
    up->set();
    auto ps = co_await s.poll();
    SIM_CHECK(ps == poll_status::read, "wrong-status", "poll for a connection returned %d", (int)ps);
    auto t  = co_await s.accept(ms(0));
    bool ok = t.socket().is_ok();
    q([&] {
        bool let = !g->vc && !(g->vs && g->cc);
        SIM_CHECK(ok == let, "unauthenticated", "the server %s a client (verifying %d %d, client has a certificate %d)", ok ? "accepted" : "refused", g->vs, g->vc, g->cc);
        g->in = ok;
        sim::probe(ok ? "handshake accepted" : "stranger refused");
    });
    if (!ok) co_return;
    std::vector<char> b(20);
    auto [st, in] = co_await t.recv(b);
    SIM_CHECK(st == tls::recv_status::ok && in.size() == 5 && !memcmp(in.data(), "hello", 5), "wrong-bytes", "recv returned %d with %zu bytes", (int)st, in.size());
    auto [ss, rest] = co_await t.send(std::string_view{"there"});
    SIM_CHECK(ss == tls::send_status::ok && rest.empty(), "wrong-status", "send returned %d", (int)ss);
    co_await t.shutdown(std::chrono::hours{1});
}
task<void> visitor(world* w, gate* g, net::socket_address ep, std::shared_ptr<tls::context> cx, event* up)
{
    co_await *up;
    co_await w->sc[0]->get()->schedule();
    tls::client t{*w->sc[0], cx, ep};
    auto st = co_await t.connect();
    q([&] {
        if (g->vc) SIM_CHECK(st != tls::connection_status::connected, "unauthenticated", "connected to a server whose certificate cannot be verified");
        else if (!(g->vs && g->cc)) SIM_CHECK(st == tls::connection_status::connected, "wrong-status", "connect returned %d", (int)st);
    });
    if (st != tls::connection_status::connected) co_return;
    auto [ss, rest] = co_await t.send(std::string_view{"hello"});
    std::vector<char> b(20);
    auto [rs, in] = co_await t.recv(b);
    q([&] {
        bool let = !(g->vs && g->cc);
        if (let) SIM_CHECK(ss == tls::send_status::ok && rest.empty() && rs == tls::recv_status::ok && in.size() == 5 && !memcmp(in.data(), "there", 5), "wrong-bytes", "send %d recv %d with %zu bytes", (int)ss, (int)rs, in.size());
        else SIM_CHECK(rs != tls::recv_status::ok, "invented-bytes", "data from a server that refused the connection");
        g->known = true;
    });
}
} // namespace
SIM_SCENARIO("C21", c21_verify, 1)
{
    g_rs = 88172645463325252ull + sim::pick(1 << 20) * 7919ull;
    host<world> w;
    host<gate>  g;
    auto        W = &*w;
    auto        G = &*g;
    setup(W);
    sim::faults_enable("tcp-reset", false);
    sim::faults_enable("tcp-corrupt", false);
    w->broken = w->corrupt = false;
    if (sim::net.sndbuf < 8000) sim::net.sndbuf = 8000;
    if (sim::net.rcvbuf < 8000) sim::net.rcvbuf = 8000;
    auto s0 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    std::unique_ptr<scheduler> s1;
    if (sim::chance(1, 2)) s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->sc[0] = &s0;
    w->sc[1] = s1 ? &s1 : &s0;
    g->vs = sim::chance(1, 2);
    g->vc = sim::chance(1, 2);
    g->cc = sim::chance(1, 2);
    {
        auto sx = person(true, g->vs), cx = person(g->cc, g->vc);
        event up;
        net::socket_address ep{"127.0.0.1", 8443};
        sync_wait(when_all(keeper(W, G, ep, sx, &up), visitor(W, G, ep, cx, &up)));
        q([&] { SIM_CHECK(g->in || !g->known || (g->vs && g->cc), "wrong-status", "the client was let in by nobody"); });
    }
    s0->shutdown();
    if (s1) s1->shutdown();
}
