// C20: UDP peers on a network that loses, duplicates, reorders and delays datagrams.
#include "sc.hpp"
#include <netinet/in.h>
#include <sys/socket.h>
using namespace sc;
using net::io_status;
using kind = net::io_status::kind;
using ms   = std::chrono::milliseconds;
namespace
{
struct dg { int to, from; size_t len; u64 seed; int state = 0 /* 0 unsent, 1 being sent, 2 sent, 3 refused */; i64 t = INT64_MAX; int got = 0; std::string from_ip; };
struct world
{
    std::unique_ptr<scheduler>* s[2];
    std::vector<dg>  d;
    std::map<int, int> expect; // per port
    std::map<int, int> zero, zero_got; // datagrams without any data that somebody else sends, per port
    int zero_from = 0;
    bool loss = false, dup = false, eagain = false, nobufs = false, part = false, sharing = false, tiny = false, huge = false;
    i64  netmax = 0;
    bool done = false;
    int  active = 0;
    std::string ip;
};
char pat(u64 seed, size_t i) { u64 x = (seed + i) * 0x9e3779b97f4a7c15ull; x ^= x >> 31; return (char)(x * 0xbf58476d1ce4e5b9ull >> 56); }
i64 M(world* w) { return 3 * (sim::slack() + sim::stalled()) + 3 * w->netmax + 2'000'000; }
ms tmo(int of = 2) { return sim::chance(1, of) ? ms(1 + sim::pick(sim::chance(1, 2) ? 4 : 20)) : ms(0); }
int port_of(int fd)
{
    sockaddr_storage ss{};
    socklen_t n = sizeof ss;
    ::getsockname(fd, (sockaddr*)&ss, &n);
    return ntohs(ss.ss_family == AF_INET6 ? ((sockaddr_in6*)&ss)->sin6_port : ((sockaddr_in*)&ss)->sin_port);
}
constexpr size_t HDR = 5;
task<void> sender(world* w, net::udp::peer* p, int side, std::vector<int> ids, net::domain_t dom)
{
    co_await w->s[side]->get()->schedule();
    for (int id : ids)
    {
        dg& d = w->d[id];
        net::socket_address to{w->ip, (uint16_t)d.to, dom};
        std::vector<char> buf(d.len);
        q([&] { for (size_t i = 0; i < d.len; i++) buf[i] = pat(d.seed, i); if (d.len >= HDR) { buf[0] = (char)id; buf[1] = (char)(id >> 8); buf[2] = (char)d.len; buf[3] = (char)(d.len >> 8); buf[4] = 'D'; } });
        for (int tries = 0;; tries++)
        {
            auto to_ms = tmo(3);
            i64  t0 = sim::now();
            q([&] { if (d.state != 2) d.state = 1; });
            bool dflt = !to_ms.count() && sim::chance(1, 2);
            auto wr = dflt ? p->write_to(to, buf) : p->write_to(to, buf, to_ms);
            auto st = co_await wr;
            bool again = q([&] {
                sim::mix((u64)st.type);
                if (d.from == 0) d.from = port_of(p->socket().native_handle());
                if (d.len > 65507)
                {
                    SIM_CHECK(st.type == kind::message_too_big || (w->eagain && st.try_again()), "wrong-status", "sending %zu bytes ended with %d (%d)", d.len, (int)st.type, st.native_code);
                    d.state = 3;
                    return false;
                }
                if (st.is_ok()) { d.state = 2; d.t = sim::now(); return false; }
                d.state = 3;
                SIM_CHECK(d.got == 0, "false-failure", "datagram %d arrived though sending it failed", id);
                SIM_CHECK((st.try_again() && w->eagain) || (st.type == kind::native && st.native_code == ENOBUFS && w->nobufs) || (st.is_timeout() && to_ms.count() && sim::now() - t0 >= to_ms.count() * 1'000'000),
                          "wrong-status", "sending ended with status %d (%d)", (int)st.type, st.native_code);
                return true;
            });
            if (!again || (w->loss && tries > 2)) break;
        }
        if (sim::chance(1, 3)) co_await w->s[side]->get()->yield_for(std::chrono::microseconds(sim::pick(2500)));
    }
}
void arrived(world* w, int port, const net::socket_address& from, std::span<std::byte> in, size_t room, const std::byte* base)
{
    SIM_CHECK(in.size() <= room && (in.empty() || in.data() == base), "wrong-span", "read_from returned a span outside the buffer");
    if (in.empty())
    {
        // data of its own is not what makes a datagram
        int k = ++w->zero_got[port];
        SIM_CHECK(k <= w->zero[port] * (w->dup ? 2 : 1), "invented", "%d empty datagrams arrived at port %d, %d were sent", k, port, w->zero[port]);
        SIM_CHECK(from.port() == w->zero_from && from.ip().to_string() == w->ip, "wrong-sender", "an empty datagram from port %d is attributed to %s port %d", w->zero_from, from.ip().to_string().c_str(), from.port());
        if (k <= w->zero[port]) w->expect[port]--;
        return;
    }
    SIM_CHECK(in.size() >= HDR && (char)in[4] == 'D', "wrong-bytes", "a datagram of %zu bytes arrived that nobody sent", in.size());
    size_t id = (uint8_t)in[0] | (uint8_t)in[1] << 8, len = (uint8_t)in[2] | (uint8_t)in[3] << 8;
    SIM_CHECK(id < w->d.size(), "wrong-bytes", "a datagram arrived that nobody sent");
    dg& d = w->d[id];
    SIM_CHECK(d.len % 65536 == len, "wrong-bytes", "datagram %zu of %zu bytes says it has %zu", id, d.len, len);
    SIM_CHECK(in.size() == std::min(d.len, room), "wrong-length", "datagram %zu of %zu bytes arrived with %zu (room for %zu)", id, d.len, in.size(), room);
    for (size_t i = HDR; i < in.size(); i++) SIM_CHECK((char)in[i] == pat(d.seed, i), "wrong-bytes", "byte %zu of datagram %zu changed", i, id);
    SIM_CHECK(d.state == 1 || d.state == 2, "invented", "datagram %zu arrived but its sender was told it was not sent", id);
    SIM_CHECK(d.to == port, "wrong-receiver", "datagram %zu for port %d arrived at port %d", id, d.to, port);
    SIM_CHECK(!d.from || d.from == from.port(), "wrong-sender", "datagram %zu from port %d is attributed to port %d", id, d.from, from.port());
    SIM_CHECK(from.ip().to_string() == d.from_ip, "wrong-sender", "datagram %zu from %s is attributed to %s", id, d.from_ip.c_str(), from.ip().to_string().c_str());
    SIM_CHECK(++d.got <= (w->dup ? 2 : 1), "duplicated", "datagram %zu was received %d times", id, d.got);
    if (d.got == 1) w->expect[port]--;
}
task<void> receiver(world* w, net::udp::peer* p, int side, int port)
{
    co_await w->s[side]->get()->schedule();
    bool lossless = !w->loss;
    if (sim::chance(1, 8))
    {
        std::vector<std::byte> none; // takes nothing off the socket
        auto [st, from, in] = co_await p->read_from(none, tmo());
        SIM_CHECK(st.is_ok() && in.empty(), "wrong-status", "reading into nothing ended with status %d, %zu bytes", (int)st.type, in.size());
    }
    std::vector<std::byte> buf(w->tiny ? 8 + sim::pick(40) : w->huge ? 66000 : 2000);
    while (true)
    {
        if (lossless && q([&] { return w->expect[port] <= 0; })) break;
        auto to = lossless && !w->sharing ? tmo() : ms(1 + sim::pick(20));
        i64  t0 = sim::now();
        bool was_done = w->done;
        bool dflt = !to.count() && sim::chance(1, 2);
        auto rd = dflt ? p->read_from(buf) : p->read_from(buf, endless(to));
        auto [st, from, in] = co_await rd;
        i64  now = sim::now();
        int  r = q([&] {
            sim::mix((u64)st.type);
            if (st.is_ok()) { arrived(w, port, from, in, buf.size(), buf.data()); return 0; }
            SIM_CHECK(in.empty(), "wrong-span", "a failed read returned %zu bytes", in.size());
            if (st.try_again()) { SIM_CHECK(w->eagain || w->sharing, "wrong-status", "read_from ended with try_again"); return 0; }
            SIM_CHECK(st.is_timeout(), "wrong-status", "read_from ended with status %d (%d)", (int)st.type, st.native_code);
            i64 ns = to.count() * 1'000'000ll;
            SIM_CHECK(ns && now - t0 >= ns, "early-timeout", "read_from timed out after %lld ns of %lld", (long long)(now - t0), (long long)ns);
            SIM_CHECK(now - t0 <= ns + M(w), "late-timeout", "read_from with a time-out of %lld ns ended after %lld", (long long)ns, (long long)(now - t0));
            if (lossless && !w->sharing)
                for (size_t i = 0; i < w->d.size(); i++)
                {
                    auto& d = w->d[i];
                    SIM_CHECK(!(d.to == port && d.state == 2 && !d.got && d.t < now - M(w)), "false-timeout", "read_from timed out though datagram %zu has been there for a while", i);
                }
            return was_done && !lossless ? 1 : 0;
        });
        if (r) break;
        if (sim::chance(1, 6)) co_await w->s[side]->get()->yield_for(std::chrono::microseconds(sim::pick(2500)));
    }
}
void setup(world* w)
{
    auto& n = sim::net;
    auto& f = sim::nf;
    auto  on = [](const char* k) { sim::faults_enable(k, true); };
    if (sim::chance(1, 2)) n.jitter = 1 + sim::pick(3'000'000);
    w->netmax = n.min_delay + n.jitter + 1'000'000;
    if (sim::chance(1, 3)) { f.udp_loss = 2 + sim::pick(6); on("udp-loss"); w->loss = true; }
    if (sim::chance(1, 3)) { f.udp_dup = 2 + sim::pick(6); on("udp-dup"); w->dup = true; }
    if (sim::chance(1, 3)) { f.udp_reorder = 2 + sim::pick(4); on("udp-reorder"); w->netmax += 1'000'000; }
    if (sim::chance(1, 4)) { f.eagain = 2 + sim::pick(6); on("udp-spurious-eagain"); on("udp-send-eagain"); w->eagain = true; }
    if (sim::chance(1, 5)) { f.send_errno = 2 + sim::pick(4); on("udp-send-enobufs"); w->nobufs = true; }
    if (sim::chance(1, 4)) { f.eintr = 5 + sim::pick(10); on("epoll-eintr"); }
    if (sim::chance(1, 8)) { n.udp_queue = 1 + sim::pick(3); w->loss = true; }
}
} // namespace
SIM_SCENARIO("C20", c20_udp, 1)
{
    host<world> w;
    auto W = &*w;
    setup(W);
    bool six = sim::chance(1, 4);
    auto dom = six ? net::domain_t::ipv6 : net::domain_t::ipv4;
    q([&] { w->ip = six ? "::1" : "127.0.0.1"; });
    w->sharing = sim::chance(1, 6);
    w->tiny    = sim::chance(1, 8);
    w->huge    = sim::chance(1, 16);
    bool part  = sim::chance(1, 8);
    if (part) w->loss = w->part = true;
    auto s0 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    std::unique_ptr<scheduler> s1;
    if (sim::chance(1, 2)) s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->s[0] = &s0;
    w->s[1] = s1 ? &s1 : &s0;
    {
        int nb = 1 + sim::pick(3), nu = sim::pick(3);
        if (!nu && nb == 1) nb = 2;
        struct node { std::unique_ptr<net::udp::peer> p, copy; int port = 0, side = 0; std::vector<int> ids; };
        std::vector<node> ns(nb + nu);
        for (int i = 0; i < nb + nu; i++)
        {
            auto& x = ns[i];
            x.side  = sim::pick(2);
            if (i < nb)
            {
                x.port = 9000 + i;
                std::string at = sim::chance(1, 3) ? (six ? "::" : "0.0.0.0") : (six ? "::1" : "127.0.0.1");
                x.p = std::make_unique<net::udp::peer>(*w->s[x.side], net::socket_address{at, (uint16_t)x.port, dom});
                switch (sim::pick(8))
                {
                    case 4:
                    {
                        auto other = elsewhere();
                        auto m = std::make_unique<net::udp::peer>(other, dom);
                        if (sim::chance(1, 2)) { net::udp::peer gone{std::move(*m)}; }
                        if (sim::chance(1, 2)) *m = *x.p; else *m = std::move(*x.p);
                        x.p = std::move(m);
                        break;
                    }
                    case 0: { net::udp::peer m = std::move(*x.p); *x.p = std::move(m); break; }
                    case 1: { auto m = std::make_unique<net::udp::peer>(*w->s[x.side], dom); *m = std::move(*x.p); x.p = std::move(m); break; }
                    case 2: { auto m = std::make_unique<net::udp::peer>(*w->s[x.side], dom); *m = *x.p; x.p = std::move(m); break; }
                    case 3: x.p = std::make_unique<net::udp::peer>(*x.p); break;
                    default: break;
                }
                if (w->sharing && sim::chance(1, 2)) x.copy = std::make_unique<net::udp::peer>(*x.p);
                else if (w->sharing) x.copy = std::make_unique<net::udp::peer>(*w->s[x.side], net::socket_address{at, (uint16_t)x.port, dom}); // a socket of its own at the same port
            }
            else x.p = std::make_unique<net::udp::peer>(*w->s[x.side], dom);
        }
        int total = 1 + sim::pick(16);
        q([&] {
            for (int i = 0; i < total; i++)
            {
                int f = sim::pick(nb + nu), t = sim::pick(nb);
                dg d;
                d.to = ns[t].port;
                d.from = ns[f].port;
                d.len = HDR + (w->huge && sim::chance(1, 6) ? 65507 - HDR + sim::pick(3) - 1 : sim::chance(1, 2) ? sim::pick(20) : sim::pick(1500));
                d.seed = (i + 1) * 7777ull;
                d.from_ip = w->ip;
                w->d.push_back(d);
                ns[f].ids.push_back(i);
                if (d.len <= 65507) w->expect[d.to]++;
            }
            if (sim::chance(1, 3)) for (int k = 1 + sim::pick(3); k > 0; k--) { int t = ns[sim::pick(nb)].port; w->zero[t]++; w->expect[t]++; }
        });
        crew tx, rx, unb;
        int  raw = -1;
        if (!w->zero.empty())
        {
            raw = ::socket(six ? AF_INET6 : AF_INET, SOCK_DGRAM, 0);
            net::socket_address here{w->ip, 8999, dom};
            auto [sa, len] = here.data();
            SIM_CHECK(::bind(raw, sa, len) == 0, "harness", "bind");
            w->zero_from = 8999;
            tx.add([W, raw, dom] {
                auto z = q([&] { return new std::map<int, int>(W->zero); });
                for (auto& [port, n] : *z)
                    for (int i = 0; i < n; i++)
                    {
                        net::socket_address to{W->ip, (uint16_t)port, dom};
                        auto [sa, len] = to.data();
                        for (int k = 0; k < 50 && ::sendto(raw, "", 0, 0, sa, len) < 0; k++) sim::sleep_ns(10'000);
                        sim::sleep_ns(sim::pick(1'000'000));
                    }
                q([&] { delete z; });
            });
        }
        for (auto& x : ns)
        {
            if (!x.ids.empty()) tx.add([&] { sync_wait(sender(W, x.p.get(), x.side, x.ids, dom)); });
            if (x.port) rx.add([&] { sync_wait(receiver(W, x.p.get(), x.side, x.port)); });
            if (x.copy) rx.add([&] { sync_wait(receiver(W, x.copy.get(), x.side, x.port)); });
            if (!x.port && sim::chance(1, 2))
                unb.add([&] {
                    std::vector<std::byte> b(10);
                    auto [st, from, in] = sync_wait(x.p->read_from(b, ms(sim::pick(2))));
                    SIM_CHECK(st.type == kind::udp_not_bound && in.empty(), "wrong-status", "reading from an unbound peer ended with status %d", (int)st.type);
                });
        }
        if (part) { sim::sleep_ns(sim::pick(4'000'000)); sim::tcp_partition(true); sim::sleep_ns(sim::pick(4'000'000)); sim::tcp_partition(false); }
        tx.join();
        if (w->loss) sim::sleep_ns(w->netmax * 3 + 2'000'000);
        w->done = true;
        rx.join();
        unb.join();
        if (raw != -1) ::close(raw);
        q([&] {
            if (!w->loss)
                for (size_t i = 0; i < w->d.size(); i++) SIM_CHECK(w->d[i].state != 2 || w->d[i].got, "lost", "datagram %zu was sent over a lossless network and never received", i);
        });
    }
    if (s1) s1->shutdown();
    s0->shutdown();
}
