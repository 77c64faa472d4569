// C27: a town of UDP peers and TCP servers at addresses of both families. Everybody is called by a text taken out of a
// configuration line, and everything sent has to reach the one it names and to come back from where it was sent to.
#include "sc.hpp"
#include <arpa/inet.h>
#include <sys/socket.h>
using namespace sc;
using ms = std::chrono::milliseconds;
using kind = net::io_status::kind;
namespace
{
struct raw_addr { int fam; unsigned char a[16]; int n() const { return fam == AF_INET ? 4 : 16; } };
struct place { raw_addr ad; uint16_t port; bool tcp; int calls = 0; };
struct world
{
    std::unique_ptr<scheduler>* s[2] = {};
    std::vector<place> at;       // where somebody is; index is who
    bool               loss = false, done = false;
    int                accepted = 0;
};
net::domain_t dom(int fam) { return fam == AF_INET ? net::domain_t::ipv4 : net::domain_t::ipv6; }
// ---- the model: bytes first, texts made from them
raw_addr mkaddr(int fam)
{
    raw_addr r{fam, {}};
    if (fam == AF_INET)
    {
        static const unsigned char s[] = {0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 255};
        for (int i = 0; i < 4; i++) r.a[i] = sim::chance(1, 2) ? s[sim::pick(sizeof s)] : sim::pick(256);
        if (sim::chance(1, 8)) { r.a[0] = 127; r.a[1] = r.a[2] = 0; r.a[3] = 1; }
        if (!(r.a[0] | r.a[1] | r.a[2] | r.a[3])) r.a[3] = 1;
    }
    else
    {
        switch (sim::pick(4))
        {
            case 0: r.a[15] = 1 + sim::pick(255); break;                                                                        // ::x
            case 1: r.a[10] = r.a[11] = 0xff; for (int i = 12; i < 16; i++) r.a[i] = sim::pick(256); break;                     // ::ffff:a.b.c.d
            case 2: for (int i = 0; i < 16; i += 2) if (sim::chance(1, 2)) { r.a[i] = sim::chance(1, 2) ? 0 : sim::pick(256); r.a[i + 1] = sim::pick(256); } break; // runs of zeros
            default: for (int i = 0; i < 16; i++) r.a[i] = sim::pick(256);
        }
        bool z = true;
        for (auto c : r.a) z = z && !c;
        if (z) r.a[15] = 1;
    }
    return r;
}
std::string text(const raw_addr& r)
{
    char b[100];
    if (r.fam == AF_INET) { snprintf(b, sizeof b, "%d.%d.%d.%d", r.a[0], r.a[1], r.a[2], r.a[3]); return b; }
    int  g[8];
    for (int i = 0; i < 8; i++) g[i] = r.a[2 * i] << 8 | r.a[2 * i + 1];
    bool dotted = sim::chance(1, 4), up = sim::chance(1, 4), pad = sim::chance(1, 5);
    int  m = dotted ? 6 : 8, from = -1, len = 0;
    if (sim::chance(2, 3))
    {
        // any run of zeros may be left out
        std::vector<std::pair<int, int>> runs;
        for (int i = 0; i < m; i++) { if (g[i]) continue; int j = i; while (j < m && !g[j]) j++; runs.push_back({i, j - i}); i = j; }
        if (!runs.empty()) { auto x = runs[sim::pick(runs.size())]; from = x.first; len = x.second; }
    }
    std::string s;
    for (int i = 0; i < m; i++)
    {
        if (i == from) { s += s.empty() ? "::" : ":"; i += len - 1; if (i == m - 1 && dotted && s.back() != ':') s += ":"; continue; }
        snprintf(b, sizeof b, pad ? up ? "%04X" : "%04x" : up ? "%X" : "%x", g[i]);
        s += b;
        if (i != 7) s += ":";
    }
    if (dotted) { snprintf(b, sizeof b, "%d.%d.%d.%d", r.a[12], r.a[13], r.a[14], r.a[15]); s += b; }
    return s;
}
// what a standard parser makes of exactly these characters
bool parse(std::string_view s, int fam, raw_addr& r)
{
    r = raw_addr{fam, {}};
    std::string t{s};
    return t.find('\0') == t.npos && inet_pton(fam, t.c_str(), r.a) == 1;
}
std::string canon(const raw_addr& r) { char b[INET6_ADDRSTRLEN]; return inet_ntop(r.fam, r.a, b, sizeof b); }
// a piece of a longer line
struct line
{
    std::string all; size_t at, n;
    std::string_view sv() const { return std::string_view{all}.substr(at, n); }
};
line cut(const std::string& t)
{
    static const char* pre[]  = {"", "", "[", "udp://", "1", "::", "10.0.0.1,", "a"};
    static const char* post[] = {"", "", ":8080", "]:80", "1", "0", ".5", "::", "ff", ",1.2.3.4", " ", "%eth0", "/24"};
    line l;
    std::string p = pre[sim::pick(8)], q_ = post[sim::pick(13)];
    l.all = p + t + q_;
    l.at  = p.size();
    l.n   = t.size();
    return l;
}
bool same(const net::ip_address& ip, const raw_addr& r)
{
    auto d = ip.data();
    return ip.domain() == dom(r.fam) && d.size() == (size_t)r.n() && !memcmp(d.data(), r.a, r.n());
}
void check_ip(const net::ip_address& ip, const raw_addr& r, std::string_view from)
{
    SIM_CHECK(same(ip, r), "wrong-address", "\"%.*s\" became %s, it is %s", (int)from.size(), from.data(), ip.to_string().c_str(), canon(r).c_str());
    std::string s = ip.to_string();
    raw_addr    back;
    SIM_CHECK(parse(s, r.fam, back) && !memcmp(back.a, r.a, 16), "wrong-text", "%s is written as \"%s\"", canon(r).c_str(), s.c_str());
    SIM_CHECK(net::ip_address::from_string(s, dom(r.fam)) == ip, "round-trip", "%s does not come back from \"%s\"", canon(r).c_str(), s.c_str());
}
net::socket_address call(world* w, const place& p)
{
    std::string t = text(p.ad);
    line        l = cut(t);
    try
    {
        auto ip = net::ip_address::from_string(l.sv(), dom(p.ad.fam));
        check_ip(ip, p.ad, l.sv());
        net::socket_address a = sim::chance(1, 2) ? net::socket_address{ip, p.port} : net::socket_address{l.sv(), p.port, dom(p.ad.fam)};
        net::socket_address b{net::ip_address{std::span<const uint8_t>{p.ad.a, (size_t)p.ad.n()}, dom(p.ad.fam)}, p.port};
        SIM_CHECK(a == b && a.port() == p.port && same(a.ip(), p.ad) && a.domain() == dom(p.ad.fam), "wrong-address", "\"%s\" port %d became %s", t.c_str(), p.port, a.to_string().c_str());
        SIM_CHECK(a.to_string() == ip.to_string() + ":" + std::to_string(p.port), "wrong-text", "%s port %d is written as \"%s\"", t.c_str(), p.port, a.to_string().c_str());
        return a;
    }
    catch (const std::runtime_error& e) { sim::fail("rejected", "the address \"%s\" in \"%s\" is rejected: %s", t.c_str(), l.all.c_str(), e.what()); }
    std::abort();
}
// a text with a mistake in it, or of the other family
void mistake(world* w)
{
    int         fam = sim::chance(1, 2) ? AF_INET : AF_INET6;
    std::string t   = text(mkaddr(fam));
    static const char cs[] = "0123456789abcdefABCDEF.:.::gx% \0-+";
    for (int k = 1 + sim::skew(3); k > 0; k--)
    {
        size_t i = sim::pick(t.size() + 1);
        char   c = cs[sim::pick(sizeof cs - 1)];
        switch (sim::pick(4))
        {
            case 0: t.insert(i, 1, c); break;
            case 1: if (i < t.size()) t.erase(i, 1); break;
            case 2: if (i < t.size()) t[i] = c; break;
            default: if (sim::chance(1, 2)) fam = fam == AF_INET ? AF_INET6 : AF_INET; else t = t.substr(0, i);
        }
    }
    line     l = cut(t);
    raw_addr r;
    bool     ok = parse(l.sv(), fam, r), got = false;
    net::ip_address ip;
    try { ip = net::ip_address::from_string(l.sv(), dom(fam)); got = true; } catch (const std::runtime_error&) {}
    SIM_CHECK(ok || !got, "accepted", "\"%s\" in \"%s\" is accepted as %s", t.c_str(), l.all.c_str(), ip.to_string().c_str());
    SIM_CHECK(!ok || got, "rejected", "the address \"%s\" in \"%s\" is rejected", t.c_str(), l.all.c_str());
    if (ok) check_ip(ip, r, l.sv());
    // too many bytes
    unsigned char b[20] = {1, 2, 3};
    int           n = (fam == AF_INET ? 5 : 17) + sim::pick(3);
    bool          threw = false;
    try { net::ip_address x{std::span<const uint8_t>{b, (size_t)n}, dom(fam)}; } catch (const std::runtime_error&) { threw = true; }
    SIM_CHECK(threw, "accepted", "%d bytes are accepted as an address of family %d", n, fam);
    sim::mix(ok);
    (void)w;
}
void order(world* w)
{
    std::vector<net::ip_address> v;
    std::set<std::string>        d;
    for (auto& p : w->at) { v.push_back(net::ip_address{std::span<const uint8_t>{p.ad.a, (size_t)p.ad.n()}, dom(p.ad.fam)}); d.insert(std::to_string(p.ad.fam) + canon(p.ad)); }
    std::sort(v.begin(), v.end());
    for (size_t i = 0; i + 1 < v.size(); i++) SIM_CHECK(!(v[i + 1] < v[i]) && (v[i] < v[i + 1]) == (v[i] != v[i + 1]), "order", "addresses are not ordered");
    for (auto& x : w->at)
        for (auto& y : w->at)
        {
            bool eq = call(w, x) == call(w, y), is = x.port == y.port && x.ad.fam == y.ad.fam && !memcmp(x.ad.a, y.ad.a, 16);
            SIM_CHECK(eq == is, "wrong-address", "%s port %d and %s port %d are %s", canon(x.ad).c_str(), x.port, canon(y.ad).c_str(), y.port, eq ? "equal" : "different");
        }
    v.erase(std::unique(v.begin(), v.end()), v.end());
    SIM_CHECK(v.size() == d.size(), "wrong-address", "%zu addresses are distinct, %zu remain after sorting them", d.size(), v.size());
}
const place* who(world* w, const net::socket_address& a)
{
    for (auto& p : w->at) if (p.port == a.port() && same(a.ip(), p.ad)) return &p;
    return nullptr;
}
struct msg { uint8_t magic, to, from, seq; };
task<void> udp_house(world* w, net::udp::peer* p, int me)
{
    co_await w->s[me % 2]->get()->schedule();
    std::vector<std::byte> buf(64);
    while (!w->done)
    {
        auto [st, from, in] = co_await p->read_from(buf, ms(50));
        if (!st.is_ok()) { SIM_CHECK(st.is_timeout(), "wrong-status", "read_from ended with status %d (%d)", (int)st.type, st.native_code); continue; }
        SIM_CHECK(in.size() == sizeof(msg), "wrong-length", "a message of %zu bytes", in.size());
        msg m; memcpy(&m, in.data(), sizeof m);
        SIM_CHECK(m.magic == 1 && m.to == me, "wrong-receiver", "a message for %d arrived at %d", m.to, me);
        auto* f = who(w, from);
        SIM_CHECK(f && f == &w->at[m.from], "wrong-sender", "a message of %s port %d seems to come from %s", canon(w->at[m.from].ad).c_str(), w->at[m.from].port, from.to_string().c_str());
        net::socket_address back = from;
        if (sim::chance(1, 2)) { net::socket_address c{from.ip(), from.port()}; SIM_CHECK(c == from, "wrong-address", "an address of a datagram differs from the same address"); back = c; }
        m.magic = 2;
        std::array<std::byte, sizeof m> out;
        memcpy(out.data(), &m, sizeof m);
        auto ws = co_await p->write_to(back, out);
        SIM_CHECK(ws.is_ok(), "wrong-status", "write_to ended with status %d (%d)", (int)ws.type, ws.native_code);
    }
}
task<void> udp_caller(world* w, net::udp::peer* p, int me, std::vector<int> tos)
{
    co_await w->s[me % 2]->get()->schedule();
    int seq = 0;
    for (int to : tos)
    {
        net::socket_address a = call(w, w->at[to]);
        msg  m{1, (uint8_t)to, (uint8_t)me, (uint8_t)++seq};
        std::array<std::byte, sizeof m> out;
        memcpy(out.data(), &m, sizeof m);
        std::vector<std::byte> buf(64);
        bool ok = false;
        for (int tries = 0; tries < 80 && !ok; tries++)
        {
            auto ws = co_await p->write_to(a, out);
            SIM_CHECK(ws.is_ok(), "wrong-status", "write_to ended with status %d (%d)", (int)ws.type, ws.native_code);
            while (true)
            {
                auto [st, from, in] = co_await p->read_from(buf, ms(20 + 5 * tries * tries));
                if (!st.is_ok()) { SIM_CHECK(st.is_timeout(), "wrong-status", "read_from ended with status %d (%d)", (int)st.type, st.native_code); break; }
                msg r; memcpy(&r, in.data(), sizeof r);
                SIM_CHECK(in.size() == sizeof r && r.magic == 2 && r.from == me, "wrong-receiver", "an answer for %d arrived at %d", r.from, me);
                auto* f = who(w, from);
                SIM_CHECK(f && f == &w->at[r.to], "wrong-sender", "the answer of %s port %d seems to come from %s", canon(w->at[r.to].ad).c_str(), w->at[r.to].port, from.to_string().c_str());
                if (r.seq != m.seq) continue; // late
                SIM_CHECK(from == a, "wrong-sender", "called %s, %s answers", a.to_string().c_str(), from.to_string().c_str());
                ok = true;
                break;
            }
        }
        SIM_CHECK(ok, "not-reached", "%s never answers", a.to_string().c_str());
        w->at[to].calls++;
    }
}
task<void> tcp_house(world* w, net::tcp::server* s, int me)
{
    co_await w->s[me % 2]->get()->schedule();
    while (true)
    {
        auto c = co_await s->accept(ms(0));
        if (!c) { SIM_CHECK(w->done, "wrong-status", "accept ended with status %d (%d)", (int)c.error().type, c.error().native_code); co_return; }
        sockaddr_storage ss{};
        socklen_t        n = sizeof ss;
        ::getsockname(c->socket().native_handle(), (sockaddr*)&ss, &n);
        SIM_CHECK(ss.ss_family == w->at[me].ad.fam, "wrong-receiver", "a connection of another family");
        std::array<std::byte, 2> out{(std::byte)me, (std::byte)0x55};
        auto [st, rest] = co_await c->write_all(out, ms(0));
        SIM_CHECK(st.is_ok(), "wrong-status", "write_all ended with status %d (%d)", (int)st.type, st.native_code);
        w->accepted++;
    }
}
task<void> tcp_caller(world* w, int side, std::vector<int> tos)
{
    co_await w->s[side]->get()->schedule();
    for (int to : tos)
    {
        bool  nobody = sim::chance(1, 5);
        place p      = w->at[to];
        if (nobody)
        {
            // nearly the same
            switch (sim::pick(3))
            {
                case 0: p.port ^= 1 << sim::pick(15); break;
                case 1: p.port = p.port << 8 | p.port >> 8; break;
                default: p.ad.a[sim::pick(p.ad.n())] ^= 1 << sim::pick(8);
            }
            for (auto& x : w->at) if (x.port == p.port && x.ad.fam == p.ad.fam && !memcmp(x.ad.a, p.ad.a, 16)) nobody = false;
            if (!p.port || !nobody) { p = w->at[to]; nobody = false; }
        }
        net::socket_address a = call(w, p);
        net::tcp::client    c{*w->s[side], a};
        auto                st = co_await c.connect(ms(0));
        if (nobody) { SIM_CHECK(st == net::connect_status::error, "wrong-receiver", "connecting to %s, where nobody is, ended with %d", a.to_string().c_str(), (int)st); continue; }
        SIM_CHECK(st == net::connect_status::connected, "not-reached", "connecting to %s ended with %d", a.to_string().c_str(), (int)st);
        std::array<std::byte, 2> b{};
        auto [rs, got] = co_await c.read_exact(b, ms(0));
        SIM_CHECK(rs.is_ok() && got.size() == 2 && (int)b[0] == to && (int)b[1] == 0x55, "wrong-receiver", "called %s, which is %d, but %d answers", a.to_string().c_str(), to, (int)b[0]);
        w->at[to].calls++;
    }
}
} // namespace
SIM_SCENARIO("C27", c27_town, 1)
{
    host<world> wd;
    auto        w = &*wd;
    auto&       n = sim::net;
    if (sim::chance(1, 2)) n.jitter = 1 + sim::pick(1'000'000);
    if (sim::chance(1, 3)) { sim::nf.udp_loss = 3 + sim::pick(6); sim::faults_enable("udp-loss", true); w->loss = true; }
    if (sim::chance(1, 3)) { sim::nf.udp_dup = 2 + sim::pick(6); sim::faults_enable("udp-dup", true); }
    if (sim::chance(1, 3)) { sim::nf.udp_reorder = 2 + sim::pick(4); sim::faults_enable("udp-reorder", true); }
    if (sim::chance(1, 4)) { sim::nf.eintr = 5 + sim::pick(10); sim::faults_enable("epoll-eintr", true); }
    auto s0 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    auto s1 = bed::mksched(sim::chance(1, 2), 1 + sim::pick(2));
    w->s[0] = &s0;
    w->s[1] = &s1;
    {
        // neighbours share the port or the address, or differ in one bit
        int k = 2 + sim::pick(5);
        q([&] {
            while ((int)w->at.size() < k)
            {
                place p{};
                if (!w->at.empty() && sim::chance(2, 3))
                {
                    p = w->at[sim::pick(w->at.size())];
                    if (sim::chance(1, 2)) p.ad.a[sim::pick(p.ad.n())] ^= 1 << sim::pick(8);
                    else p.port = sim::chance(1, 2) ? (uint16_t)(p.port << 8 | p.port >> 8) : 1 + sim::pick(30000);
                    if (sim::chance(1, 3)) p.tcp = !p.tcp;
                }
                else { p.ad = mkaddr(sim::chance(1, 2) ? AF_INET : AF_INET6); p.port = 1 + sim::pick(30000); p.tcp = sim::chance(1, 2); }
                bool any = true, dup = !p.port || p.port >= 32000;
                for (auto c : p.ad.a) any = any && !c;
                for (auto& x : w->at) dup = dup || (x.port == p.port && x.ad.fam == p.ad.fam && !memcmp(x.ad.a, p.ad.a, 16));
                if (!any && !dup) w->at.push_back(p);
            }
        });
        order(w);
        for (int i = sim::pick(4); i > 0; i--) mistake(w);
        std::vector<std::unique_ptr<net::udp::peer>>   ps(k);
        std::vector<std::unique_ptr<net::tcp::server>> ss(k);
        crew houses, callers;
        std::vector<int> udps[2], tcps;
        for (int i = 0; i < k; i++)
        {
            place p = q([&] { return w->at[i]; });
            auto  a = call(w, p);
            int   fd;
            if (p.tcp) { ss[i] = std::make_unique<net::tcp::server>(*w->s[i % 2], a); tcps.push_back(i); fd = ss[i]->accept_socket().native_handle(); }
            else { ps[i] = std::make_unique<net::udp::peer>(*w->s[i % 2], a); udps[p.ad.fam == AF_INET6].push_back(i); fd = ps[i]->socket().native_handle(); }
            // what the system was told
            sockaddr_storage got{};
            socklen_t        len = sizeof got;
            SIM_CHECK(::getsockname(fd, (sockaddr*)&got, &len) == 0, "harness", "getsockname");
            bool ok = got.ss_family == p.ad.fam && (p.ad.fam == AF_INET ? ((sockaddr_in*)&got)->sin_port == htons(p.port) && !memcmp(&((sockaddr_in*)&got)->sin_addr, p.ad.a, 4)
                                                                        : ((sockaddr_in6*)&got)->sin6_port == htons(p.port) && !memcmp(&((sockaddr_in6*)&got)->sin6_addr, p.ad.a, 16));
            SIM_CHECK(ok, "wrong-address", "bound to another address than %s port %d", canon(p.ad).c_str(), p.port);
        }
        for (auto& u : udps)
            for (size_t j = 0; j < u.size(); j++)
            {
                int i = u[j];
                // half of them call the others, one side only reads at a time
                if (j % 2 == 0 || u.size() < 2) houses.add([&, i] { sync_wait(udp_house(w, ps[i].get(), i)); });
                else
                {
                    std::vector<int> tos;
                    for (int c = 1 + sim::pick(3); c > 0; c--) tos.push_back(u[2 * sim::pick((u.size() + 1) / 2)]);
                    callers.add([&, i, tos] { sync_wait(udp_caller(w, ps[i].get(), i, tos)); });
                }
            }
        for (int i : tcps) houses.add([&, i] { sync_wait(tcp_house(w, ss[i].get(), i)); });
        if (!tcps.empty())
            for (int c = 1 + sim::pick(2); c > 0; c--)
            {
                std::vector<int> tos;
                for (int j = 1 + sim::pick(3); j > 0; j--) tos.push_back(tcps[sim::pick(tcps.size())]);
                callers.add([&, c, tos] { sync_wait(tcp_caller(w, c % 2, tos)); });
            }
        callers.add([&] { for (int i = 0; i < 2; i++) mistake(w); });
        callers.join();
        q([&] { w->done = true; });
        for (auto& s : ss) if (s) s->shutdown();
        houses.join();
    }
    s0->shutdown();
    s1->shutdown();
}
