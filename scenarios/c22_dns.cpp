// C22: host name lookups over a simulated network and name server. c-ares itself runs for real.
#include "sc.hpp"
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
using namespace sc;
using ms = std::chrono::milliseconds;
namespace dns = coro::net::dns;
using resolver_t = dns::resolver<scheduler>;
namespace
{
enum how { GOOD, NX, SERVFAIL, SILENT, GARBAGE, CUT, WRONG_ID, WRONG_NAME, EMPTY, BIG };
struct name
{
    std::string              host;
    std::vector<std::string> v4, v6, alias; // raw bytes; canonical names on the way
    how                      h[2] = {GOOD, GOOD}; // for A, AAAA
    i64                      delay = 0;
    int                      asked = 0;
};
struct world
{
    std::unique_ptr<scheduler>* s;
    std::vector<name>  n;
    bool tcp = false, tcp_bad = false; // large answers are fetched over TCP; that server misbehaves
    bool lossy = false, down = false, killed = false, cut = false;
    i64  limit = 0, netmax = 0;
    int  pending = 0, done = 0;
    std::atomic<int> bystanding{0};
};
i64 M(world* w) { return 4 * (sim::slack() + sim::stalled()) + 4 * w->netmax + 2'000'000; }
std::string enc(const std::string& h)
{
    std::string o;
    for (size_t i = 0; i < h.size();)
    {
        size_t e = h.find('.', i);
        if (e == std::string::npos) e = h.size();
        o += (char)(e - i);
        o += h.substr(i, e - i);
        i = e + 1;
    }
    return o + '\0';
}
std::string u16(unsigned v) { return {(char)(v >> 8), (char)v}; }
std::string rr(const std::string& owner, int type, const std::string& data) { return enc(owner) + u16(type) + u16(1) + u16(0) + u16(60) + u16(data.size()) + data; }
std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
void serve(world* w, const std::string& d, const sim::udp_reply& reply, bool stream = false)
{
    if (d.size() < 17) return;
    std::string host;
    size_t      i = 12;
    while (i < d.size() && d[i]) { if (!host.empty()) host += '.'; host += d.substr(i + 1, (unsigned char)d[i]); i += 1 + (unsigned char)d[i]; }
    if (i + 5 > d.size()) return;
    int    type = (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2];
    std::string question = d.substr(12, i + 5 - 12), id = d.substr(0, 2);
    name*  n = nullptr;
    for (auto& x : w->n) if (x.host == lower(host)) n = &x;
    sim::log("dns query %s type %d", host.c_str(), type);
    auto head = [&](int rcode, int an) { return id + u16(0x8180 | rcode) + u16(1) + u16(an) + u16(0) + u16(0); };
    auto send = [&](std::string x) { if (n && n->delay) sim::after(n->delay, [x, reply] { reply(x); }); else reply(x); };
    if (!n || (type != 1 && type != 28)) { send(head(3, 0) + question); return; }
    n->asked++;
    auto&       v   = type == 1 ? n->v4 : n->v6;
    std::string cur = n->host, body;
    int         an  = 0;
    for (auto& a : n->alias) { body += rr(cur, 5, enc(a)); cur = a; an++; }
    for (auto& x : v) { body += rr(cur, type, x); an++; }
    std::string good = head(0, an) + question + body;
    how h = n->h[type == 28];
    if (stream && h == WRONG_ID) h = GOOD; // c-ares gives up on a connection that does this
    switch (h)
    {
        case BIG: // does not fit into a datagram
            if (stream) send(good);
            else { auto t = id + u16(0x8180 | 0x200) + u16(1) + u16(0) + u16(0) + u16(0) + question; send(t); }
            break;
        case GOOD: send(good); break;
        case EMPTY: send(head(0, 0) + question); break;
        case NX: send(head(3, 0) + question); break;
        case SERVFAIL: send(head(2, 0) + question); break;
        case SILENT: break;
        case GARBAGE: { std::string g; for (int k = sim::pick(60); k >= 0; k--) g += (char)sim::pick(256); if (sim::chance(1, 2) && g.size() > 2) { g[0] = id[0]; g[1] = id[1]; } send(g); break; }
        case CUT: send(good.substr(0, 1 + sim::pick((u64)good.size() - 1))); break;
        case WRONG_ID: { auto g = good; g[0] ^= 0x55; send(g); send(good); break; }
        case WRONG_NAME: { auto g = head(0, 1) + enc("evil.example") + u16(type) + u16(1) + rr("evil.example", type, std::string(type == 1 ? 4 : 16, '\7')); send(g); send(good); break; }
    }
}
// The name server's TCP side, a thread of the simulated system
struct tcp_server
{
    std::thread t;
    struct conn { int fd; std::string in, out; int served = 0; i64 hold = 0; };
    struct shared { bool stop = false; };
    host<shared> sh;
    void run(world* w)
    {
        int l = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in sa{};
        sa.sin_family      = AF_INET;
        sa.sin_addr.s_addr = htonl(INADDR_ANY);
        sa.sin_port        = htons(53);
        SIM_CHECK(::bind(l, (sockaddr*)&sa, sizeof sa) == 0 && ::listen(l, 16) == 0, "harness", "tcp name server");
        t = std::thread([this, w, l] {
            auto* cs = q([] { return new std::vector<conn*>; });
            while (!q([&] { return sh->stop; }))
            {
                pollfd ps[20];
                int    np = 0;
                ps[np++] = {l, POLLIN, 0};
                q([&] { for (auto c : *cs) if (np < 20) ps[np++] = {c->fd, (short)(POLLIN | (c->out.empty() || c->hold > sim::now() ? 0 : POLLOUT)), 0}; });
                bool held = q([&] { for (auto c : *cs) if (!c->out.empty() && c->hold > sim::now()) return true; return false; });
                ::poll(ps, np, held ? 1 : 50);
                for (int i = 1; i < np; i++)
                {
                    conn* c = q([&] { return (*cs)[i - 1]; });
                    bool  end = false;
                    if (ps[i].revents & (POLLIN | POLLHUP | POLLERR))
                    {
                        char b[512];
                        ssize_t k = ::recv(c->fd, b, sizeof b, MSG_DONTWAIT);
                        if (k == 0 || (k < 0 && errno != EAGAIN && errno != EINTR)) end = true;
                        if (k > 0) q([&] {
                            c->in.append(b, k);
                            while (c->in.size() >= 2)
                            {
                                size_t n = (unsigned char)c->in[0] << 8 | (unsigned char)c->in[1];
                                if (c->in.size() < n + 2) break;
                                std::string d = c->in.substr(2, n);
                                c->in.erase(0, n + 2);
                                if (++c->served == 2) sim::probe("tcp-reuse"); else sim::probe("tcp");
                                // the reply may come later, by then the connection can be gone
                                serve(w, d, [cs, c](const std::string& x) { sim::quiet g; if (std::find(cs->begin(), cs->end(), c) != cs->end()) c->out += u16(x.size()) + x; }, true);
                                if (sim::chance(1, 3)) c->hold = sim::now() + sim::pick(3'000'000); // several answers at once
                            }
                        });
                        if (w->tcp_bad && k > 0 && sim::chance(1, 4)) end = true;
                    }
                    std::string o = q([&] { return c->hold > sim::now() ? std::string() : c->out; });
                    if (!end && !o.empty())
                    {
                        size_t want = sim::chance(1, 2) ? o.size() : 1 + sim::pick((u64)o.size()); // in pieces
                        ssize_t k = ::send(c->fd, o.data(), want, MSG_DONTWAIT | MSG_NOSIGNAL);
                        if (k > 0) q([&] { c->out.erase(0, k); });
                        else if (errno != EAGAIN && errno != EINTR) end = true;
                        if (w->tcp_bad && sim::chance(1, 4)) end = true;
                    }
                    q([&] { std::string().swap(o); });
                    if (end) { ::close(c->fd); q([&] { c->fd = -1; }); }
                }
                q([&] { for (size_t i = 0; i < cs->size();) if ((*cs)[i]->fd == -1) { delete (*cs)[i]; cs->erase(cs->begin() + i); } else i++; });
                if (ps[0].revents & POLLIN)
                {
                    int fd = ::accept(l, nullptr, nullptr);
                    if (fd >= 0) q([&] { cs->push_back(new conn{fd, {}, {}}); });
                }
            }
            for (size_t i = 0; i < cs->size(); i++) { ::close((*cs)[i]->fd); q([&] { delete (*cs)[i]; }); }
            q([&] { cs->clear(); }); // kept: a late reply still looks here
            ::close(l);
        });
    }
    void stop() { if (!t.joinable()) return; q([&] { sh->stop = true; }); t.join(); }
};
std::string show(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += " " + x; return s; }
std::vector<std::string> texts(const name& n, bool four, bool six)
{
    std::vector<std::string> r;
    if (four) for (auto& x : n.v4) r.push_back(net::ip_address{std::span<const uint8_t>{(const uint8_t*)x.data(), 4}, net::domain_t::ipv4}.to_string());
    if (six) for (auto& x : n.v6) r.push_back(net::ip_address{std::span<const uint8_t>{(const uint8_t*)x.data(), 16}, net::domain_t::ipv6}.to_string());
    std::sort(r.begin(), r.end());
    return r;
}
bool answers(world* w, how h) { return h == GOOD || (h == BIG && w->tcp && !w->tcp_bad) || h == WRONG_ID || h == WRONG_NAME; }
task<void> lookup(world* w, resolver_t* r, int i, event* e, i64 own = -1)
{
    co_await w->s->get()->schedule();
    std::unique_ptr<resolver_t> mine; // gone as soon as the answer is there
    if (own >= 0) { mine = std::make_unique<resolver_t>(*w->s, ms(own)); r = mine.get(); }
    std::string host = q([&] { w->pending++; return std::string(w->n[i].host); });
    i64  t0  = sim::now();
    auto res = co_await r->host_by_name(net::hostname{host});
    mine.reset();
    std::vector<std::string> got;
    for (auto& a : res->ip_addresses()) got.push_back(a.to_string());
    auto st = res->status();
    q([&] {
        auto& n = w->n[i];
        std::sort(got.begin(), got.end());
        sim::mix((u64)st);
        i64 now = sim::now();
        SIM_CHECK(now - t0 <= w->limit + M(w), "late", "the lookup of %s took %lld ms", n.host.c_str(), (long long)(now - t0) / 1000000);
        // a server that answers at once is not waited for
        auto prompt = [&](how h) { return h == GOOD || h == EMPTY || h == NX || (h == BIG && w->tcp && !w->tcp_bad); };
        if (!w->lossy && !w->down && prompt(n.h[0]) && prompt(n.h[1]) && n.delay < 500'000'000)
            SIM_CHECK(now - t0 <= 6 * (n.delay + 3 * w->netmax) + 100'000'000 + 8 * M(w), "late", "the lookup of %s took %lld ms though the server answered", n.host.c_str(), (long long)(now - t0) / 1000000);
        bool slow = w->lossy || w->down || sim::stalled() + sim::slack() > 1'000'000'000 || n.delay > 500'000'000;
        if (st == dns::status::complete)
        {
            SIM_CHECK(!got.empty(), "wrong-answer", "the lookup of %s completed without an address", n.host.c_str());
            auto all = texts(n, true, true);
            for (auto& g : got) SIM_CHECK(std::binary_search(all.begin(), all.end(), g), "wrong-answer", "the lookup of %s returned %s; its addresses are%s", n.host.c_str(), g.c_str(), show(all).c_str());
            // a family is whole or missing
            if (answers(w, n.h[0]) && answers(w, n.h[1]) && !slow && !w->killed)
                SIM_CHECK(got == all, "wrong-answer", "the lookup of %s returned%s; its addresses are%s", n.host.c_str(), show(got).c_str(), show(all).c_str());
            else
                SIM_CHECK(got == all || got == texts(n, true, false) || got == texts(n, false, true) || n.h[0] == CUT || n.h[1] == CUT, "wrong-answer", "the lookup of %s returned%s; its addresses are%s", n.host.c_str(), show(got).c_str(), show(all).c_str());
            SIM_CHECK(n.asked, "wrong-answer", "an answer for %s without a question", n.host.c_str());
        }
        else
        {
            SIM_CHECK(got.empty(), "wrong-answer", "the failed lookup of %s has addresses", n.host.c_str());
            bool has = (answers(w, n.h[0]) && !n.v4.empty()) || (answers(w, n.h[1]) && !n.v6.empty());
            bool both = answers(w, n.h[0]) && answers(w, n.h[1]);
            SIM_CHECK(!(has && both) || slow || w->killed, "false-failure", "the lookup of %s failed though the server answers", n.host.c_str());
        }
        w->pending--;
        w->done++;
    });
    e->set();
}
task<void> bystander(world* w, int k)
{
    // somebody else's sockets on the same scheduler, whose numbers c-ares gives back and takes again
    co_await w->s->get()->schedule();
    for (int i = 0; i < k; i++)
    {
        net::socket_address here{"127.0.0.1", (uint16_t)(4000 + i)};
        net::udp::peer rx{*w->s, here};
        net::udp::peer tx{*w->s, net::domain_t::ipv4};
        std::vector<char> b(8, 'x'), in(16);
        if (sim::chance(1, 2)) co_await w->s->get()->yield_for(std::chrono::microseconds(sim::pick(3000)));
        auto task_send = [](world* w, net::udp::peer* tx, net::socket_address to, std::vector<char>* b) -> task<void> {
            co_await w->s->get()->yield_for(std::chrono::microseconds(100 + sim::pick(8000)));
            co_await tx->write_to(to, *b);
        };
        auto start = task_send(w, &tx, here, &b);
        auto recv  = [](world* w, net::udp::peer* rx, std::vector<char>* in) -> task<int> { auto [st, who, span] = co_await rx->read_from(*in); SIM_CHECK(st.is_ok() && span.size() == 8, "bystander", "another socket's read failed"); co_return 1; };
        co_await when_all(std::move(start), recv(w, &rx, &in));
    }
    w->bystanding--;
}
} // namespace
SIM_SCENARIO("C22", c22_dns, 1)
{
    host<world> w;
    auto W = &*w;
    auto s = bed::mksched(sim::chance(1, 2), 1 + sim::pick(3));
    w->s   = &s;
    auto& n = sim::net;
    if (sim::chance(1, 2)) n.jitter = 1 + sim::pick(2'000'000);
    w->netmax = n.min_delay + n.jitter;
    auto& f  = sim::nf;
    auto  on = [](const char* k) { sim::faults_enable(k, true); };
    if (sim::chance(1, 4)) { f.udp_loss = 2 + sim::pick(6); on("udp-loss"); w->lossy = true; }
    if (sim::chance(1, 4)) { f.udp_dup = 1 + sim::pick(4); on("udp-dup"); }
    if (sim::chance(1, 4)) { f.udp_reorder = 1 + sim::pick(4); on("udp-reorder"); }
    if (sim::chance(1, 5)) { f.eintr = 5 + sim::pick(10); on("epoll-eintr"); }
    w->down     = sim::chance(1, 10);
    int servers = sim::chance(1, 4) ? 2 : 1;
    ms  timeout = ms(sim::chance(1, 3) ? 30 + sim::pick(100) : sim::chance(1, 2) ? 500 : 4000);
    // c-ares: three tries per server, the time-out doubles from two seconds
    w->limit = 14'000'000'000ll * servers * 2 + (i64)timeout.count() * 1'000'000 * 2 + 1'000'000'000;
    sim::set_step_limit(1'500'000);
    q([&] {
        std::string rc;
        for (int i = 0; i < servers; i++) rc += "nameserver 127.0.0." + std::to_string(i + 1) + "\n";
        sim::vfile("/etc/resolv.conf", rc);
        sim::vfile("/etc/hosts", "127.0.0.1 localhost\n");
        sim::vfile("/etc/nsswitch.conf", "hosts: files dns\n");
        int k = 1 + sim::pick(4);
        bool odd = sim::chance(1, 2), big = sim::chance(1, 3);
        w->tcp     = big && sim::chance(4, 5);
        w->tcp_bad = w->tcp && sim::chance(1, 4);
        for (int i = 0; i < k; i++)
        {
            name x;
            x.host = "h" + std::to_string(i) + ".example.test";
            for (int j = sim::pick(4); j > 0; j--) x.v4.push_back({(char)10, (char)i, (char)j, (char)(1 + sim::pick(250))});
            for (int j = sim::pick(3); j > 0; j--) { std::string a(16, '\0'); a[0] = (char)0xfd; a[1] = (char)i; a[14] = (char)j; a[15] = (char)sim::pick(256); x.v6.push_back(a); }
            if (sim::chance(1, 5)) for (int j = 1 + sim::pick(2); j > 0; j--) x.alias.push_back("c" + std::to_string(j) + "." + x.host);
            if (odd && sim::chance(1, 2)) for (auto& h : x.h) h = (how)sim::pick(9);
            if (big && sim::chance(2, 3)) for (auto& h : x.h) if (sim::chance(3, 4)) h = BIG;
            if (sim::chance(1, 3)) x.delay = sim::chance(1, 6) ? 3'000'000'000ll * sim::pick(3) : sim::pick(20'000'000);
            w->n.push_back(std::move(x));
        }
        if (!w->down) sim::udp_host(53, [W](const std::string& d, const sim::udp_reply& r) { serve(W, d, r); });
    });
    tcp_server ts;
    if (w->tcp && !w->down) ts.run(W);
    int before = sim::fd_count("udp");
    {
        auto res = std::make_unique<resolver_t>(s, timeout);
        std::unique_ptr<resolver_t> other; // a second one shares nothing but the library
        if (sim::chance(1, 4)) other = std::make_unique<resolver_t>(s, timeout);
        std::vector<std::unique_ptr<event>> ends;
        int  k    = 1 + sim::pick(5);
        bool kill = sim::chance(1, 4);
        int  by   = !w->lossy && sim::chance(1, 3) ? 1 + sim::pick(4) : 0;
        auto go   = [&] {
            int i = sim::pick((u64)w->n.size());
            ends.emplace_back(std::make_unique<event>());
            bool own = sim::chance(1, 6);
            s->spawn_detached(lookup(W, other && sim::chance(1, 2) ? other.get() : res.get(), i, ends.back().get(), own ? (i64)timeout.count() : -1));
        };
        if (by) { w->bystanding++; s->spawn_detached(bystander(W, by)); }
        for (int i = 0; i < k; i++)
        {
            go();
            if (sim::chance(1, 4)) sim::sleep_ns(sim::pick(sim::chance(1, 2) ? 10'000'000 : 1'000'000));
        }
        if (kill)
        {
            // every lookup has started and waits
            q([&] { w->killed = true; });
            while (q([&] { return w->pending + w->done < k; })) sim::sleep_ns(100'000);
            sim::quiesce(200'000);
            if (sim::chance(1, 2)) other.reset();
            res.reset();
            other.reset();
        }
        for (auto& e : ends) sync_wait([](event& e) -> task<void> { co_await e; }(*e));
        if (!kill && sim::chance(1, 3))
        {
            // again with the same resolver
            if (other && sim::chance(1, 2)) { if (sim::chance(1, 2)) std::swap(res, other); other.reset(); }
            if (sim::chance(1, 2)) sim::sleep_ns(sim::pick(2) * 5'000'000'000ll);
            go();
            sync_wait([](event& e) -> task<void> { co_await e; }(*ends.back()));
        }
        if (sim::chance(1, 2)) other.reset();
        res.reset();
        other.reset();
        i64 t0 = sim::now();
        while (s->size() && sim::now() - t0 < M(W) + 1'000'000'000 && !w->bystanding.load()) sim::sleep_ns(10'000'000);
        while (w->bystanding.load()) sim::sleep_ns(10'000'000);
        t0 = sim::now();
        while (s->size() && sim::now() - t0 < M(W) + 1'000'000'000) sim::sleep_ns(10'000'000);
        SIM_CHECK(s->size() == 0, "left-behind", "%zu tasks remain on the scheduler after the resolver is gone", (size_t)s->size());
        SIM_CHECK(sim::fd_count("udp") == before, "left-behind", "%d sockets remain after the resolver is gone", sim::fd_count("udp") - before);
    }
    s->shutdown();
    ts.stop();
}
