// Simulated kernel: descriptors, epoll, timerfd, eventfd, pipes, TCP and UDP over a simulated network.
#include "kernel.hpp"
#include "core.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#define PC __builtin_return_address(0)

extern "C" long syscall(long n, ...) noexcept;

namespace sim
{
netcfg    net;
netfaults nf;
static constexpr int FD0 = 1000;

enum otype { O_PIPE_R, O_PIPE_W, O_EVENT, O_TIMER, O_EPOLL, O_TCP, O_UDP };
static const char* tname[] = {"pipe-read", "pipe-write", "eventfd", "timerfd", "epoll", "tcp", "udp"};

struct addr
{
    int           fam = 0;
    unsigned char a[16] = {};
    uint16_t      port = 0;
    bool any() const { for (auto c : a) if (c) return false; return true; }
    bool operator==(const addr& o) const { return fam == o.fam && port == o.port && !memcmp(a, o.a, 16); }
    bool operator<(const addr& o) const
    {
        if (fam != o.fam) return fam < o.fam;
        if (port != o.port) return port < o.port;
        return memcmp(a, o.a, 16) < 0;
    }
};
static bool get_addr(const sockaddr* sa, socklen_t n, addr& r)
{
    if (sa->sa_family == AF_INET && n >= sizeof(sockaddr_in))
    {
        auto* s = (const sockaddr_in*)sa;
        r.fam = AF_INET;
        memcpy(r.a, &s->sin_addr, 4);
        r.port = ntohs(s->sin_port);
        return true;
    }
    if (sa->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6))
    {
        auto* s = (const sockaddr_in6*)sa;
        r.fam = AF_INET6;
        memcpy(r.a, &s->sin6_addr, 16);
        r.port = ntohs(s->sin6_port);
        return true;
    }
    return false;
}
static void put_addr(const addr& r, sockaddr* sa, socklen_t* n)
{
    if (!sa || !n) return;
    sockaddr_storage ss{};
    socklen_t        len;
    if (r.fam == AF_INET6)
    {
        auto* s = (sockaddr_in6*)&ss;
        s->sin6_family = AF_INET6;
        memcpy(&s->sin6_addr, r.a, 16);
        s->sin6_port = htons(r.port);
        len = sizeof(sockaddr_in6);
    }
    else
    {
        auto* s = (sockaddr_in*)&ss;
        s->sin_family = AF_INET;
        memcpy(&s->sin_addr, r.a, 4);
        s->sin_port = htons(r.port);
        len = sizeof(sockaddr_in);
    }
    memcpy(sa, &ss, *n < len ? *n : len);
    *n = len;
}

struct ofd;
struct epitem { int fd; ofd* o; uint32_t ev; epoll_data_t data; bool pending; bool disabled; uint64_t order; };
struct pipebuf { std::deque<char> q; int readers = 0, writers = 0; ofd *r = nullptr, *w = nullptr; };
struct dgram { addr from; std::string data; };

struct tcb
{
    enum st_t { NEW, LISTEN, CONNECTING, EST, DEAD } st = NEW;
    ofd*  o    = nullptr; // null once closed by the application
    tcb*  peer = nullptr;
    addr  local, remote;
    bool  bound = false;
    std::string recvq;
    std::deque<std::string> inflight; // towards the peer
    int64_t last_delivery = 0;
    int     inflight_bytes = 0;
    bool  fin_sent = false, fin_rcvd = false, shut_rd = false;
    bool  fin_queued = false;
    bool  rst = false;
    int   so_error = 0;
    int   backlog = 0;
    std::deque<tcb*> acceptq;
    std::deque<std::string> held; // arrived, no room in recvq
    int   syn_tries = 0;
    bool  was_est = false, gone = false, cut = false;
    uint64_t total_in = 0;
    tcb*    lst = nullptr;   // server side: the listener the handshake began with
    bool    active = false;  // closed first: the address stays occupied for a minute
    int64_t ended = 0;
};

struct ofd
{
    otype t;
    int   refs = 0;
    bool  nonblock = false;
    int   id = 0;
    std::vector<ofd*> epolls;       // epoll instances with an item on this
    // epoll
    std::vector<epitem> items;
    // pipe
    pipebuf* pb = nullptr;
    // eventfd
    uint64_t cnt = 0;
    bool     sema = false;
    // timerfd
    int64_t  expiry = 0, interval = 0;
    uint64_t ticks = 0, tgen = 0;
    // sockets
    tcb*     tc = nullptr;
    addr     local, remote;
    bool     bound = false, connected = false, ushut_rd = false, ushut_wr = false;
    std::deque<dgram> dq;
    int      so_error = 0;
    int      fam = AF_INET;
    bool     reuse_addr = false, reuse_port = false;
};

static std::vector<ofd*>     g_fds;   // index = fd - FD0
static std::vector<ofd*>     g_all;   // every ofd of this run
static std::vector<tcb*>     g_tcbs;
static std::vector<pipebuf*> g_pipes;
static std::map<addr, std::vector<tcb*>> g_listen; // several only with SO_REUSEPORT
static std::vector<ofd*>     g_udps;
struct flying { addr from, to; std::string data; };
static std::vector<flying*>  g_fly;
static uint16_t              g_eph;
static uint64_t              g_order;
static std::map<uint16_t, udp_handler> g_hosts;
static bool                  g_partition;
static int                   g_syn_retries;

static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return ::syscall(n, a, b, c, d, e, f); }

static void after_reset();
void kernel_reset()
{
    after_reset();
    for (auto* o : g_all) delete o;
    for (auto* t : g_tcbs) delete t;
    for (auto* p : g_pipes) delete p;
    for (auto* f : g_fly) delete f;
    g_fly.clear();
    g_all.clear();
    g_tcbs.clear();
    g_pipes.clear();
    g_fds.clear();
    g_listen.clear();
    g_udps.clear();
    g_hosts.clear();
    g_eph   = 32768;
    g_order = 0;
    net     = netcfg{};
    nf      = netfaults{};
    g_partition = false;
    g_syn_retries = 0;
    alloc_faults(0);
    wall_jump(-(wall_offset() - 1'700'000'000ll * 1'000'000'000));
}
std::string fd_table()
{
    insim g;
    std::string s;
    for (size_t i = 0; i < g_fds.size(); i++)
        if (g_fds[i])
        {
            char b[64];
            snprintf(b, sizeof b, "%zu:%s ", i + FD0, tname[g_fds[i]->t]);
            s += b;
        }
    return s;
}
int open_fds()
{
    int n = 0;
    for (auto* o : g_fds) n += o != nullptr;
    return n;
}
int fd_count(const char* t)
{
    int n = 0;
    for (auto* o : g_fds) if (o && !strcmp(tname[o->t], t)) n++;
    return n;
}
bool fd_open(int fd) { return fd >= FD0 && fd - FD0 < (int)g_fds.size() && g_fds[fd - FD0]; }
uint64_t fd_id(int fd) { return fd_open(fd) ? (uint64_t)g_fds[fd - FD0]->id + 1 : 0; }
int fd_total() { int n = 0; for (auto* o : g_fds) n += o != nullptr; return n; }
bool epoll_watches(int fd)
{
    for (auto* o : g_fds)
        if (o && o->t == O_EPOLL)
            for (auto& it : o->items) if (it.fd == fd && !it.disabled) return true;
    return false;
}
extern scenario* g_scenarios;
uint32_t current_flags();
void kernel_finish()
{
    if (!(current_flags() & F_FDS_OK) && open_fds()) fail("fd-leak", "descriptors never closed: %s", fd_table().c_str());
}

static ofd* get(int fd)
{
    if (fd < FD0 || fd - FD0 >= (int)g_fds.size()) return nullptr;
    return g_fds[fd - FD0];
}
static ofd* mk(otype t)
{
    auto* o = new ofd;
    o->t    = t;
    o->id   = (int)g_all.size();
    g_all.push_back(o);
    return o;
}
static int install(ofd* o, int from = FD0)
{
    o->refs++;
    for (size_t i = from - FD0; i < g_fds.size(); i++)
        if (!g_fds[i]) { g_fds[i] = o; return (int)i + FD0; }
    while ((int)g_fds.size() < from - FD0) g_fds.push_back(nullptr);
    g_fds.push_back(o);
    return (int)g_fds.size() - 1 + FD0;
}

static uint32_t tcp_ready(tcb* t)
{
    uint32_t m = 0;
    switch (t->st)
    {
        case tcb::NEW: return EPOLLOUT | EPOLLHUP;
        case tcb::LISTEN: return t->acceptq.empty() ? 0 : EPOLLIN;
        case tcb::CONNECTING: return 0;
        default: break;
    }
    if (!t->recvq.empty() || t->fin_rcvd || t->shut_rd || t->rst) m |= EPOLLIN;
    if (t->fin_rcvd || t->shut_rd || t->rst) m |= EPOLLRDHUP;
    if (t->so_error) m |= EPOLLERR;
    if (t->rst || (t->fin_rcvd && t->fin_sent)) m |= EPOLLHUP;
    if (t->st == tcb::DEAD) m |= EPOLLHUP;
    if (t->rst || t->fin_sent || t->st == tcb::DEAD) m |= EPOLLOUT;
    else if ((net.sndbuf - t->inflight_bytes) * 3 >= net.sndbuf) m |= EPOLLOUT;
    return m;
}
static uint32_t ready(ofd* o)
{
    switch (o->t)
    {
        case O_PIPE_R: return (o->pb->q.empty() ? 0 : EPOLLIN) | (o->pb->writers ? 0 : EPOLLHUP);
        case O_PIPE_W: return ((int)o->pb->q.size() < net.pipe_cap ? EPOLLOUT : 0) | (o->pb->readers ? 0 : EPOLLERR);
        case O_EVENT: return (o->cnt ? EPOLLIN : 0) | (o->cnt < UINT64_MAX - 1 ? EPOLLOUT : 0);
        case O_TIMER: return o->ticks ? EPOLLIN : 0;
        case O_TCP: return tcp_ready(o->tc);
        case O_UDP: return (o->dq.empty() && !o->so_error && !o->ushut_rd ? 0 : EPOLLIN) | EPOLLOUT | (o->so_error ? EPOLLERR : 0) | (o->ushut_rd ? EPOLLRDHUP : 0) | (o->ushut_rd && o->ushut_wr ? EPOLLHUP : 0);
        case O_EPOLL:
            for (auto& it : o->items) if (it.pending && !it.disabled && (ready(it.o) & (it.ev | EPOLLERR | EPOLLHUP))) return EPOLLIN;
            return 0;
    }
    return 0;
}
// something happened on o: wake blocked callers and arm epoll items
static void notify(ofd* o)
{
    if (!o) return;
    wake_addr(B_FD, o, -1);
    for (auto* e : o->epolls)
    {
        bool any = false;
        for (auto& it : e->items)
            if (it.o == o && !it.disabled)
            {
                if (!it.pending) { it.pending = true; it.order = ++g_order; }
                any = true;
            }
        if (any)
        {
            wake_addr(B_EPOLL, e, -1);
            if (!e->epolls.empty()) notify(e);
        }
    }
}

// ------------------------------------------------------------------ TCP network
static int64_t delay()
{
    int64_t d = net.min_delay;
    if (net.jitter) d += net.jitter * pick(8, S_NET) / 8;
    return d;
}
static void tcp_deliver(void* a, uint64_t, uint64_t);
static void deliver_rst(void* a, uint64_t err, uint64_t);
static void send_rst(tcb* to, int err = ECONNRESET) { at(g_now + delay(), deliver_rst, to, err); }
static void tcp_absorb(tcb* r)
{
    // move held segments into the receive queue as far as there is room
    bool got = false;
    while (!r->held.empty() && (int)r->recvq.size() < net.rcvbuf)
    {
        auto&  s = r->held.front();
        size_t k = std::min(s.size(), (size_t)(net.rcvbuf - (int)r->recvq.size()));
        r->recvq.append(s, 0, k);
        r->total_in += k;
        if (r->peer) { r->peer->inflight_bytes -= (int)k; }
        got = true;
        if (k == s.size()) r->held.pop_front();
        else s.erase(0, k);
    }
    if (r->held.empty() && r->fin_queued && !r->fin_rcvd)
    {
        r->fin_rcvd = true; if (r->fin_sent) r->ended = g_now;
        got = true;
    }
    if (got)
    {
        if (r->o) notify(r->o);
        if (r->peer && r->peer->o) notify(r->peer->o);
    }
}
static void tcp_deliver(void* a, uint64_t kind, uint64_t)
{
    tcb* s = (tcb*)a; // sender
    tcb* r = s->peer;
    if (g_partition) { at(g_now + 50'000'000, tcp_deliver, a, kind, 0); return; }
    if (!r) return;
    if (kind == 1)
    {
        if (r->rst || r->st == tcb::DEAD || s->cut) return;
        if (!s->inflight.empty()) { at(g_now + 1'000'000, tcp_deliver, a, kind, 0); return; } // the FIN stays behind the data
        r->fin_queued = true;
        tcp_absorb(r);
        return;
    }
    if (s->inflight.empty()) return;
    std::string d = std::move(s->inflight.front());
    s->inflight.pop_front();
    if (r->rst || s->rst || s->cut) return;
    if (nf.reset && fault("tcp-reset", 1, nf.reset))
    {
        s->cut = r->cut = true; // nothing overtakes the reset
        send_rst(s);
        send_rst(r);
        return;
    }
    if (!r->o && r->gone)
    {
        // the application closed this end: data meets a closed socket
        s->inflight_bytes -= (int)d.size();
        send_rst(s);
        return;
    }
    if (nf.corrupt && !d.empty() && fault("tcp-corrupt", 1, nf.corrupt)) d[pick((uint32_t)d.size(), S_NET)] ^= (char)(1 + pick(255, S_NET));
    if (r->shut_rd) { s->inflight_bytes -= (int)d.size(); if (s->o) notify(s->o); return; }
    r->held.push_back(std::move(d));
    tcp_absorb(r);
}
static void deliver_rst(void* a, uint64_t err, uint64_t)
{
    tcb* t = (tcb*)a;
    if (t->rst || t->st == tcb::DEAD || t->st == tcb::NEW || t->st == tcb::LISTEN) return;
    t->rst = true;
    t->st  = tcb::DEAD;
    t->so_error = (int)err;
    t->inflight.clear();
    t->inflight_bytes = 0;
    if (t->o) notify(t->o);
}
static void syn_arrive(void* a, uint64_t, uint64_t);
static void synack_arrive(void* a, uint64_t err, uint64_t)
{
    tcb* t = (tcb*)a;
    if (t->st != tcb::CONNECTING) return;
    if (err)
    {
        t->st       = tcb::DEAD;
        t->rst      = true;
        t->so_error = (int)err;
    }
    else { t->st = tcb::EST; t->was_est = true; }
    if (t->o) notify(t->o);
}
static void unlisten(tcb* t)
{
    auto it = g_listen.find(t->local);
    if (it == g_listen.end()) return;
    auto& v = it->second;
    for (size_t i = 0; i < v.size(); i++) if (v[i] == t) { v.erase(v.begin() + i); break; }
    if (v.empty()) g_listen.erase(it);
}
// which of several sockets with the same address: decided by the addresses of the connection or datagram
static size_t spread(const addr& a, size_t n)
{
    if (n < 2) return 0;
    uint64_t h = a.port * 0x9e3779b97f4a7c15ull;
    for (auto c : a.a) h = (h ^ c) * 0x100000001b3ull;
    return (h >> 33) % n;
}
static tcb* find_listener(const addr& r, const addr& from)
{
    auto it = g_listen.find(r);
    if (it != g_listen.end()) return it->second[spread(from, it->second.size())];
    addr any = r;
    memset(any.a, 0, 16);
    it = g_listen.find(any);
    if (it != g_listen.end()) return it->second[spread(from, it->second.size())];
    return nullptr;
}
static void syn_retry(tcb* t)
{
    g_syn_retries++;
    if (++t->syn_tries > 6) { at(g_now + 64'000'000'000ll, synack_arrive, t, ETIMEDOUT); return; }
    at(g_now + (1'000'000'000ll << (t->syn_tries - 1)), syn_arrive, t);
}
static void syn_arrive(void* a, uint64_t, uint64_t)
{
    tcb* c = (tcb*)a;
    if (c->st != tcb::CONNECTING || !c->o) return;
    if (g_partition) { syn_retry(c); return; }
    if (nf.syn_lost && fault("syn-lost", 1, nf.syn_lost)) { syn_retry(c); return; }
    tcb* l = find_listener(c->remote, c->local);
    if (!l || (nf.syn_refused && fault("connect-refused", 1, nf.syn_refused)))
    {
        at(g_now + delay(), synack_arrive, c, ECONNREFUSED);
        return;
    }
    if ((int)l->acceptq.size() > l->backlog) { count_fault("backlog-full"); syn_retry(c); return; }
    tcb* s = new tcb;
    g_tcbs.push_back(s);
    s->st     = tcb::EST;
    s->was_est = true;
    s->local  = c->remote;
    s->remote = c->local;
    s->peer   = c;
    c->peer   = s;
    s->lst    = l;
    // the server side becomes acceptable once the handshake's last ACK arrives; the client is established earlier
    int64_t d = delay();
    at(g_now + d, synack_arrive, c, 0);
    at(g_now + d + delay(), [](void* a, uint64_t, uint64_t) {
        tcb* s = (tcb*)a;
        tcb* l = s->lst;
        if (l->st != tcb::LISTEN) l = nullptr;
        if (s->peer->gone && !s->peer->was_est) { s->st = tcb::DEAD; s->rst = true; return; } // the client gave up before the handshake ended
        if (!l) { send_rst(s->peer); s->st = tcb::DEAD; s->rst = true; return; }
        l->acceptq.push_back(s);
        if (l->o) notify(l->o);
    }, s);
}
static void tcp_push(tcb* t, const char* p, size_t n)
{
    while (n)
    {
        size_t k = std::min(n, (size_t)net.seg_max);
        t->inflight.push_back(std::string(p, k));
        t->inflight_bytes += (int)k;
        p += k;
        n -= k;
        int64_t d = std::max(g_now + delay(), t->last_delivery ? t->last_delivery + net.gap : 0);
        t->last_delivery = d;
        at(d, tcp_deliver, t, 0);
    }
}
static void tcp_fin(tcb* t)
{
    if (t->fin_sent) return;
    t->fin_sent = true;
    if (t->fin_rcvd) t->ended = g_now;
    else t->active = true;
    int64_t d = std::max(g_now + delay(), t->last_delivery ? t->last_delivery + net.gap : 0);
    t->last_delivery = d;
    at(d, tcp_deliver, t, 1);
}
void tcp_reset_all()
{
    insim g;
    for (auto* t : g_tcbs) if (t->st == tcb::EST) { count_fault("tcp-reset"); send_rst(t); }
}
int  syn_retries() { return g_syn_retries; }
void tcp_partition(bool on)
{
    insim g;
    if (on && !g_partition) count_fault("partition");
    g_partition = on;
}

static void destroy_ofd(ofd* o)
{
    for (auto* e : o->epolls)
        for (size_t i = 0; i < e->items.size();)
            if (e->items[i].o == o) e->items.erase(e->items.begin() + i);
            else ++i;
    o->epolls.clear();
    switch (o->t)
    {
        case O_PIPE_R: o->pb->readers--; if (o->pb->w) notify(o->pb->w); o->pb->r = nullptr; break;
        case O_PIPE_W: o->pb->writers--; if (o->pb->r) notify(o->pb->r); o->pb->w = nullptr; break;
        case O_TIMER: o->tgen++; break;
        case O_EPOLL:
            for (auto& it : o->items)
                for (size_t i = 0; i < it.o->epolls.size(); i++)
                    if (it.o->epolls[i] == o) { it.o->epolls.erase(it.o->epolls.begin() + i); break; }
            o->items.clear();
            break;
        case O_TCP:
        {
            tcb* t = o->tc;
            if (t->st == tcb::LISTEN)
            {
                unlisten(t);
                t->st = tcb::DEAD;
                for (auto* s : t->acceptq) { send_rst(s->peer); s->st = tcb::DEAD; s->rst = true; }
                t->acceptq.clear();
            }
            else if (t->st == tcb::EST && t->peer)
            {
                if (!t->recvq.empty() || !t->held.empty()) { send_rst(t->peer); t->rst = true; t->st = tcb::DEAD; }
                else tcp_fin(t);
            }
            t->o    = nullptr;
            t->gone = true;
            if (t->st == tcb::CONNECTING) t->st = tcb::DEAD;
            break;
        }
        case O_UDP:
            for (size_t i = 0; i < g_udps.size(); i++) if (g_udps[i] == o) { g_udps.erase(g_udps.begin() + i); break; }
            break;
        default: break;
    }
}

// ------------------------------------------------------------------ UDP network
static std::vector<std::function<void()>*> g_after;
void after(int64_t ns, std::function<void()> f)
{
    insim g;
    auto* p = new std::function<void()>(std::move(f));
    g_after.push_back(p);
    at(g_now + ns, [](void* a, uint64_t, uint64_t) { (*(std::function<void()>*)a)(); }, p);
}
static void after_reset() { for (auto* p : g_after) delete p; g_after.clear(); }
void udp_host(uint16_t port, udp_handler h)
{
    insim g;
    g_hosts[port] = std::move(h);
}
static void udp_arrive(void* a, uint64_t, uint64_t);
static void udp_launch(const addr& from, const addr& to, const std::string& d)
{
    uint32_t copies = 1;
    if (g_partition || (nf.udp_loss && fault("udp-loss", 1, nf.udp_loss))) copies = 0;
    else if (nf.udp_dup && fault("udp-dup", 1, nf.udp_dup)) copies = 2;
    for (uint32_t i = 0; i < copies; i++)
    {
        int64_t dl = delay();
        if (nf.udp_reorder && fault("udp-reorder", 1, nf.udp_reorder)) dl += net.jitter + 200'000 * (1 + pick(4, S_NET));
        auto* f = new flying{from, to, d};
        g_fly.push_back(f);
        at(g_now + dl, udp_arrive, f);
    }
}
static ofd* find_udp(const addr& to, const addr& from)
{
    std::vector<ofd*> best;
    int score = -1;
    for (auto* o : g_udps)
    {
        if (!o->bound || o->local.port != to.port || o->local.fam != to.fam) continue;
        if (!o->local.any() && memcmp(o->local.a, to.a, 16)) continue;
        if (o->connected && !(o->remote == from)) continue;
        int sc = (o->connected ? 2 : 0) + (o->local.any() ? 0 : 1);
        if (sc > score) { score = sc; best.clear(); }
        if (sc == score) best.push_back(o);
    }
    return best.empty() ? nullptr : best[spread(from, best.size())];
}
static void udp_arrive(void* a, uint64_t, uint64_t)
{
    auto* f = (flying*)a;
    if (ofd* o = find_udp(f->to, f->from))
    {
        if ((int)o->dq.size() >= net.udp_queue) count_fault("udp-queue-overflow");
        else { o->dq.push_back({f->from, f->data}); notify(o); }
    }
    else
    {
        auto it = g_hosts.find(f->to.port);
        if (it != g_hosts.end())
        {
            addr from = f->from, to = f->to;
            auto h = it->second;
            h(f->data, [from, to](const std::string& d) { udp_launch(to, from, d); });
        }
        else
        {
            // ICMP port unreachable reaches connected senders
            for (auto* s : g_udps)
                if (s->connected && s->remote == f->to && s->local.port == f->from.port) { s->so_error = ECONNREFUSED; notify(s); }
        }
    }
}
static void loopback_src(addr& l, const addr& dst)
{
    if (!l.any()) return;
    uint16_t p = l.port;
    l          = dst;
    l.port     = p;
}
static uint16_t eph() { return g_eph++; }
static void udp_autobind(ofd* o, int fam)
{
    if (o->bound) return;
    o->local.fam  = fam;
    o->local.port = eph();
    o->bound      = true;
    g_udps.push_back(o);
}

// ------------------------------------------------------------------ generic read / write
static int err(int e)
{
    errno = e;
    return -1;
}
static ssize_t do_recv(int fd, void* buf, size_t n, int flags, sockaddr* sa, socklen_t* sl, const void* pc)
{
    insim g;
    sched_point(40);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    for (;;)
    {
        switch (o->t)
        {
            case O_PIPE_R:
            {
                auto* p = o->pb;
                if (!p->q.empty())
                {
                    size_t k = std::min(n, p->q.size());
                    check_access(buf, k, true, false, pc);
                    for (size_t i = 0; i < k; i++) { ((char*)buf)[i] = p->q.front(); p->q.pop_front(); }
                    hb_acquire(p);
                    if (p->w) notify(p->w);
                    return (ssize_t)k;
                }
                if (!p->writers) return 0;
                break;
            }
            case O_EVENT:
                if (n < 8) return err(EINVAL);
                if (o->cnt)
                {
                    uint64_t v = o->sema ? 1 : o->cnt;
                    o->cnt -= v;
                    check_access(buf, 8, true, false, pc);
                    memcpy(buf, &v, 8);
                    hb_acquire(o);
                    notify(o);
                    return 8;
                }
                break;
            case O_TIMER:
                if (n < 8) return err(EINVAL);
                if (o->ticks)
                {
                    check_access(buf, 8, true, false, pc);
                    memcpy(buf, &o->ticks, 8);
                    o->ticks = 0;
                    return 8;
                }
                break;
            case O_TCP:
            {
                tcb* t = o->tc;
                if (t->st == tcb::NEW || t->st == tcb::LISTEN) return err(ENOTCONN);
                if (t->st == tcb::CONNECTING) break;
                if (n == 0) return 0;
                if (!t->recvq.empty())
                {
                    if (nb && nf.eagain && fault("tcp-spurious-eagain", 1, nf.eagain)) return err(EAGAIN);
                    size_t k = std::min(n, t->recvq.size());
                    if (k > 1 && nf.short_recv && fault("tcp-short-recv", 1, nf.short_recv)) k = 1 + pick((uint32_t)std::min<size_t>(k - 1, 1000), S_NET);
                    check_access(buf, k, true, false, pc);
                    memcpy(buf, t->recvq.data(), k);
                    if (!(flags & MSG_PEEK))
                    {
                        t->recvq.erase(0, k);
                        tcp_absorb(t);
                    }
                    hb_acquire(t);
                    return (ssize_t)k;
                }
                if (t->so_error) { int e = t->so_error; t->so_error = 0; return err(e); }
                if (t->fin_rcvd || t->shut_rd || t->rst || t->st == tcb::DEAD) return 0;
                break;
            }
            case O_UDP:
            {
                if (o->so_error) { int e = o->so_error; o->so_error = 0; return err(e); }
                if (!o->dq.empty())
                {
                    if (nb && nf.eagain && fault("udp-spurious-eagain", 1, nf.eagain)) return err(EAGAIN);
                    dgram d = o->dq.front();
                    if (!(flags & MSG_PEEK)) o->dq.pop_front();
                    size_t k = std::min(n, d.data.size());
                    check_access(buf, k, true, false, pc);
                    memcpy(buf, d.data.data(), k);
                    put_addr(d.from, sa, sl);
                    hb_acquire(o);
                    return (flags & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)k;
                }
                if (o->ushut_rd) return 0;
                break;
            }
            default: return err(EINVAL);
        }
        if (nb) return err(EAGAIN);
        block(B_FD, o, INT64_MAX);
        o = get(fd);
        if (!o) return err(EBADF);
    }
}
static ssize_t epipe(int flags)
{
    if (!(flags & MSG_NOSIGNAL) && !net.sigpipe_ignored)
        fail("sigpipe", "write to a closed connection without MSG_NOSIGNAL: the process is killed by SIGPIPE");
    return err(EPIPE);
}
static ssize_t do_send(int fd, const void* buf, size_t n, int flags, const sockaddr* sa, socklen_t sl, const void* pc)
{
    insim g;
    sched_point(41);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    for (;;)
    {
        switch (o->t)
        {
            case O_PIPE_W:
            {
                auto* p = o->pb;
                if (!p->readers) return epipe(flags);
                size_t room = net.pipe_cap - p->q.size();
                if ((n <= 4096 && room >= n) || (n > 4096 && room > 0))
                {
                    size_t k = std::min(n, room);
                    check_access(buf, k, false, false, pc);
                    p->q.insert(p->q.end(), (const char*)buf, (const char*)buf + k);
                    hb_release(p);
                    if (p->r) notify(p->r);
                    return (ssize_t)k;
                }
                break;
            }
            case O_EVENT:
            {
                if (n < 8) return err(EINVAL);
                check_access(buf, 8, false, false, pc);
                uint64_t v;
                memcpy(&v, buf, 8);
                if (v == UINT64_MAX) return err(EINVAL);
                if (UINT64_MAX - 1 - o->cnt >= v)
                {
                    o->cnt += v;
                    hb_release(o);
                    notify(o);
                    return 8;
                }
                break;
            }
            case O_TCP:
            {
                tcb* t = o->tc;
                if (t->st == tcb::NEW || t->st == tcb::LISTEN) { if (t->st == tcb::NEW) return epipe(flags); return err(ENOTCONN); }
                if (t->st == tcb::CONNECTING) { break; }
                if (t->so_error) { int e = t->so_error; t->so_error = 0; return e == ECONNRESET ? err(e) : err(e); }
                if (t->rst || t->fin_sent || t->st == tcb::DEAD) return epipe(flags);
                int room = net.sndbuf - t->inflight_bytes;
                if (n == 0) return 0;
                if (room > 0)
                {
                    if (nb && nf.eagain && fault("tcp-spurious-eagain", 1, nf.eagain)) return err(EAGAIN);
                    size_t k = std::min(n, (size_t)room);
                    if (k > 1 && nf.short_send && fault("tcp-short-send", 1, nf.short_send)) k = 1 + pick((uint32_t)std::min<size_t>(k - 1, 1000), S_NET);
                    check_access(buf, k, false, false, pc);
                    if (t->peer) hb_release(t->peer);
                    tcp_push(t, (const char*)buf, k);
                    if (tcp_ready(t) & EPOLLOUT) {} // stays writable
                    return (ssize_t)k;
                }
                break;
            }
            case O_UDP:
            {
                addr to;
                if (sa) { if (!get_addr(sa, sl, to)) return err(EINVAL); }
                else if (o->connected) to = o->remote;
                else return err(EDESTADDRREQ);
                if (o->so_error) { int e = o->so_error; o->so_error = 0; return err(e); }
                if (o->ushut_wr) return err(EPIPE);
                if (n > 65507) return err(EMSGSIZE);
                if (nb && nf.eagain && fault("udp-send-eagain", 1, nf.eagain)) return err(EAGAIN);
                if (nf.send_errno && fault("udp-send-enobufs", 1, nf.send_errno)) return err(ENOBUFS);
                udp_autobind(o, to.fam);
                check_access(buf, n, false, false, pc);
                addr from = o->local;
                loopback_src(from, to);
                for (auto* r : g_udps) if (r->local.port == to.port) hb_release(r);
                udp_launch(from, to, std::string((const char*)buf, n));
                return (ssize_t)n;
            }
            default: return err(EINVAL);
        }
        if (nb) return err(EAGAIN);
        block(B_FD, o, INT64_MAX);
        o = get(fd);
        if (!o) return err(EBADF);
    }
}
static bool emf(const char* what) { return nf.emfile && fault(what, 1, nf.emfile); }
static bool sf(const char* what) { return nf.sysfail && fault(what, 1, nf.sysfail); }
extern bool sim_running();
static inline bool mine(int fd) { return g_active && fd >= FD0; }
} // namespace sim
using namespace sim;

extern "C"
{
ssize_t read(int fd, void* b, size_t n)
{
    if (!mine(fd)) return raw(SYS_read, fd, (long)b, n);
    return do_recv(fd, b, n, 0, nullptr, nullptr, PC);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (!mine(fd)) return raw(SYS_write, fd, (long)b, n);
    return do_send(fd, b, n, 0, nullptr, 0, PC);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { return do_recv(fd, b, n, fl, nullptr, nullptr, PC); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return do_recv(fd, b, n, fl, nullptr, nullptr, PC); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* sa, socklen_t* sl) { return do_recv(fd, b, n, fl, sa, sl, PC); }
ssize_t __recvfrom_chk(int fd, void* b, size_t n, size_t, int fl, sockaddr* sa, socklen_t* sl) { return do_recv(fd, b, n, fl, sa, sl, PC); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return do_send(fd, b, n, fl, nullptr, 0, PC); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* sa, socklen_t sl) { return do_send(fd, b, n, fl, sa, sl, PC); }
ssize_t readv(int fd, const iovec* v, int c)
{
    if (!mine(fd)) return raw(SYS_readv, fd, (long)v, c);
    return c ? do_recv(fd, v[0].iov_base, v[0].iov_len, 0, nullptr, nullptr, PC) : 0;
}
static ssize_t vec_send(int fd, const iovec* v, int c, int fl, const sockaddr* sa, socklen_t sl, const void* pc)
{
    std::string* s;
    {
        insim g;
        s = new std::string;
        for (int i = 0; i < c; i++) s->append((const char*)v[i].iov_base, v[i].iov_len);
    }
    ssize_t r = do_send(fd, s->data(), s->size(), fl, sa, sl, pc);
    insim g;
    delete s;
    return r;
}
ssize_t writev(int fd, const iovec* v, int c)
{
    if (!mine(fd)) return raw(SYS_writev, fd, (long)v, c);
    return vec_send(fd, v, c, 0, nullptr, 0, PC);
}
ssize_t sendmsg(int fd, const msghdr* m, int fl)
{
    return vec_send(fd, m->msg_iov, (int)m->msg_iovlen, fl, (const sockaddr*)m->msg_name, m->msg_namelen, PC);
}
ssize_t recvmsg(int fd, msghdr* m, int fl)
{
    socklen_t l = m->msg_namelen;
    ssize_t   r = m->msg_iovlen ? do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (sockaddr*)m->msg_name, m->msg_name ? &l : nullptr, PC) : 0;
    m->msg_namelen    = l;
    m->msg_flags      = 0;
    m->msg_controllen = 0;
    return r;
}
int close(int fd)
{
    if (!mine(fd))
    {
        if (g_active && g_insim == 0 && g_cur && g_cur->id >= 0)
        {
            if (fd >= 0 && fd <= 2) { insim g; fail("foreign-close", "descriptor %d, which the library does not own, was closed", fd); }
            if (fd < 0) return err(EBADF);
        }
        return (int)raw(SYS_close, fd);
    }
    insim g;
    sched_point(42);
    ofd* o = get(fd);
    if (!o)
    {
        if (net.strict_close) fail("double-close", "close(%d): the descriptor is not open (already closed?)", fd);
        return err(EBADF);
    }
    g_fds[fd - FD0] = nullptr;
    if (--o->refs == 0) destroy_ofd(o);
    if (fault("close-eintr", 1, 16)) return err(EINTR); // Linux: the descriptor is released all the same
    return 0;
}
int dup(int fd)
{
    if (!mine(fd))
    {
        if (g_active && g_insim == 0 && fd < 0) return err(EBADF);
        return (int)raw(SYS_dup, fd);
    }
    insim g;
    sched_point(43);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (emf("dup-emfile")) return err(EMFILE);
    return install(o);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (!mine(fd)) return (int)raw(SYS_fcntl, fd, cmd, a);
    insim g;
    ofd*  o = get(fd);
    if (!o) return err(EBADF);
    switch (cmd)
    {
        case F_GETFL: return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR;
        case F_SETFL:
            if (sf("fcntl-setfl-fails")) return err(ENOLCK);
            o->nonblock = (a & O_NONBLOCK) != 0; return 0;
        case F_GETFD: case F_SETFD: return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC:
            if (emf("dup-emfile")) return err(EMFILE);
            return install(o, a > FD0 ? (int)a : FD0);
        default: return err(EINVAL);
    }
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (!mine(fd)) return (int)raw(SYS_ioctl, fd, req, (long)a);
    insim g;
    ofd*  o = get(fd);
    if (!o) return err(EBADF);
    if (req == FIONBIO) { o->nonblock = *(int*)a != 0; return 0; }
    if (req == FIONREAD) { *(int*)a = o->t == O_TCP ? (int)o->tc->recvq.size() : o->t == O_PIPE_R ? (int)o->pb->q.size() : 0; return 0; }
    return err(EINVAL);
}
int pipe2(int p[2], int fl) noexcept
{
    if (!g_active) return (int)raw(SYS_pipe2, (long)p, fl);
    insim g;
    sched_point(44);
    if (emf("pipe-emfile")) return err(EMFILE);
    auto* b = new pipebuf;
    g_pipes.push_back(b);
    b->readers = b->writers = 1;
    ofd *r = mk(O_PIPE_R), *w = mk(O_PIPE_W);
    r->pb = w->pb = b;
    b->r = r;
    b->w = w;
    r->nonblock = w->nonblock = (fl & O_NONBLOCK) != 0;
    p[0] = install(r);
    p[1] = install(w);
    return 0;
}
int pipe(int p[2]) noexcept { return pipe2(p, 0); }
int eventfd(unsigned v, int fl) noexcept
{
    if (!g_active) return (int)raw(SYS_eventfd2, v, fl);
    insim g;
    sched_point(44);
    if (emf("eventfd-emfile")) return err(EMFILE);
    ofd* o      = mk(O_EVENT);
    o->cnt      = v;
    o->nonblock = (fl & EFD_NONBLOCK) != 0;
    o->sema     = (fl & EFD_SEMAPHORE) != 0;
    return install(o);
}
// ------------------------------------------------------------------ timerfd
static void timer_fire(void* a, uint64_t gen, uint64_t)
{
    ofd* o = (ofd*)a;
    if (o->tgen != gen) return;
    o->ticks++;
    if (o->interval) { o->expiry += o->interval; at(o->expiry, timer_fire, o, gen); }
    else o->expiry = 0;
    notify(o);
}
int timerfd_create(clockid_t, int fl) noexcept
{
    if (!g_active) return err(ENOSYS);
    insim g;
    sched_point(45);
    if (emf("timerfd-emfile")) return err(EMFILE);
    ofd* o      = mk(O_TIMER);
    o->nonblock = (fl & TFD_NONBLOCK) != 0;
    return install(o);
}
int timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec* old) noexcept
{
    if (!mine(fd)) return err(EBADF);
    insim g;
    sched_point(46);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (o->t != O_TIMER) return err(EINVAL);
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec > 999999999 || n->it_value.tv_sec < 0)
        return err(EINVAL);
    if (sf("timerfd-settime-fails")) return err(ENOMEM);
    if (old)
    {
        int64_t left = o->expiry ? std::max<int64_t>(o->expiry - g_now, 1) : 0;
        old->it_value = {left / 1'000'000'000, left % 1'000'000'000};
        old->it_interval = {o->interval / 1'000'000'000, o->interval % 1'000'000'000};
    }
    o->tgen++;
    o->ticks = 0;
    int64_t v = n->it_value.tv_sec > 9'000'000'000ll ? INT64_MAX / 2 : n->it_value.tv_sec * 1'000'000'000ll + n->it_value.tv_nsec;
    o->interval = n->it_interval.tv_sec * 1'000'000'000ll + n->it_interval.tv_nsec;
    if (v == 0) { o->expiry = 0; return 0; }
    o->expiry = (fl & TFD_TIMER_ABSTIME) ? v : g_now + v;
    if (o->expiry < INT64_MAX / 4) at(o->expiry, timer_fire, o, o->tgen);
    hb_release(o);
    return 0;
}
int timerfd_gettime(int fd, itimerspec* t) noexcept
{
    insim g;
    ofd*  o = get(fd);
    if (!o) return err(EBADF);
    int64_t left = o->expiry ? std::max<int64_t>(o->expiry - g_now, 1) : 0;
    t->it_value = {left / 1'000'000'000, left % 1'000'000'000};
    t->it_interval = {o->interval / 1'000'000'000, o->interval % 1'000'000'000};
    return 0;
}
// ------------------------------------------------------------------ epoll
int epoll_create1(int) noexcept
{
    if (!g_active) return err(ENOSYS);
    insim g;
    sched_point(47);
    if (emf("epoll-emfile")) return err(EMFILE);
    return install(mk(O_EPOLL));
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept
{
    insim g;
    sched_point(48);
    ofd* e = get(ep);
    ofd* o = get(fd);
    if (!e) return err(EBADF);
    if (e->t != O_EPOLL) return err(EINVAL);
    if (!o) return err(fd >= 0 && fd <= 2 ? EPERM : EBADF);
    if (ev && op != EPOLL_CTL_DEL) check_access(ev, sizeof *ev, false, false, PC);
    epitem* it = nullptr;
    size_t  ix = 0;
    for (size_t i = 0; i < e->items.size(); i++) if (e->items[i].fd == fd && e->items[i].o == o) { it = &e->items[i]; ix = i; }
    if (op == EPOLL_CTL_ADD)
    {
        if (it) { count_fault("epoll-add-eexist"); return err(EEXIST); }
        if (sf("epoll-ctl-fails")) return err(ENOMEM);
        e->items.push_back({fd, o, ev->events, ev->data, true, false, ++g_order});
        bool have = false;
        for (auto* x : o->epolls) have |= x == e;
        if (!have) o->epolls.push_back(e);
        hb_release(e);
        if (ready(o) & (ev->events | EPOLLERR | EPOLLHUP)) wake_addr(B_EPOLL, e, -1);
        return 0;
    }
    if (!it) return err(ENOENT);
    if (op == EPOLL_CTL_MOD)
    {
        if (sf("epoll-ctl-fails")) return err(ENOMEM);
        it->ev = ev->events;
        it->data = ev->data;
        it->disabled = false;
        it->pending = true;
        it->order = ++g_order;
        hb_release(e);
        if (ready(o) & (ev->events | EPOLLERR | EPOLLHUP)) wake_addr(B_EPOLL, e, -1);
        return 0;
    }
    if (op == EPOLL_CTL_DEL)
    {
        e->items.erase(e->items.begin() + ix);
        bool have = false;
        for (auto& x : e->items) have |= x.o == o;
        if (!have)
            for (size_t i = 0; i < o->epolls.size(); i++) if (o->epolls[i] == e) { o->epolls.erase(o->epolls.begin() + i); break; }
        hb_release(e);
        return 0;
    }
    return err(EINVAL);
}
int epoll_pwait(int ep, epoll_event* evs, int max, int timeout, const sigset_t*)
{
    insim g;
    sched_point(49);
    ofd* e = get(ep);
    if (!e) return err(EBADF);
    if (e->t != O_EPOLL || max <= 0) return err(EINVAL);
    int64_t dl = timeout < 0 ? INT64_MAX : g_now + timeout * 1'000'000ll;
    if (nf.eintr && timeout != 0 && fault("epoll-eintr", 1, nf.eintr)) return err(EINTR);
    for (;;)
    {
        std::vector<size_t> idx;
        for (size_t i = 0; i < e->items.size(); i++)
        {
            auto& it = e->items[i];
            if (it.disabled || !it.pending) continue;
            if (ready(it.o) & (it.ev | EPOLLERR | EPOLLHUP)) idx.push_back(i);
            else it.pending = false;
        }
        if (!idx.empty())
        {
            std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return e->items[a].order < e->items[b].order; });
            // the order in which ready descriptors are reported is not specified
            if (idx.size() > 1) { uint32_t r = pick((uint32_t)idx.size(), S_SCHED); std::rotate(idx.begin(), idx.begin() + r, idx.end()); }
            int n = 0;
            for (size_t i : idx)
            {
                if (n >= max) break;
                auto& it = e->items[i];
                uint32_t m = ready(it.o) & (it.ev | EPOLLERR | EPOLLHUP);
                evs[n].events = m;
                evs[n].data   = it.data;
                n++;
                hb_acquire(it.o);
                it.order = ++g_order;
                if (it.ev & EPOLLONESHOT) { it.disabled = true; it.pending = false; }
                else if (it.ev & EPOLLET) it.pending = false;
            }
            check_access(evs, n * sizeof(epoll_event), true, false, PC);
            hb_acquire(e);
            return n;
        }
        if (timeout == 0 || g_now >= dl) return 0;
        if (!block(B_EPOLL, e, dl)) { if (g_now >= dl) return 0; }
        if (!get(ep)) return err(EBADF);
    }
}
int epoll_wait(int ep, epoll_event* evs, int max, int timeout) { return epoll_pwait(ep, evs, max, timeout, nullptr); }
int epoll_pwait2(int ep, epoll_event* evs, int max, const timespec* ts, const sigset_t* s)
{
    return epoll_pwait(ep, evs, max, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1, s);
}
int poll(pollfd* p, nfds_t n, int timeout)
{
    bool any = false;
    for (nfds_t i = 0; i < n; i++) any |= mine(p[i].fd);
    if (!any) return (int)raw(SYS_poll, (long)p, n, timeout);
    insim g;
    sched_point(50);
    int64_t dl = timeout < 0 ? INT64_MAX : g_now + timeout * 1'000'000ll;
    for (;;)
    {
        int c = 0;
        for (nfds_t i = 0; i < n; i++)
        {
            ofd* o = get(p[i].fd);
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (!o) { p[i].revents = POLLNVAL; c++; continue; }
            p[i].revents = (short)(ready(o) & ((unsigned)p[i].events | POLLERR | POLLHUP));
            if (p[i].revents) { hb_acquire(o); c++; }
        }
        if (c || timeout == 0 || g_now >= dl) return c;
        if (n == 1) { ofd* o = get(p[0].fd); block(B_FD, o, dl); }
        else block(B_SLEEP, nullptr, std::min(dl, g_now + 1'000'000));
    }
}
int ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t*)
{
    return poll(p, n, ts ? (int)std::min<int64_t>(INT_MAX, ts->tv_sec * 1000ll + (ts->tv_nsec + 999'999) / 1'000'000) : -1);
}
int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, sizeof *v) == (ssize_t)sizeof *v ? 0 : -1; }
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, sizeof v) == (ssize_t)sizeof v ? 0 : -1; }
int __poll_chk(pollfd* p, nfds_t n, int timeout, size_t) { return poll(p, n, timeout); }
// ------------------------------------------------------------------ sockets
int socket(int fam, int type, int) noexcept
{
    if (!g_active) return err(EMFILE);
    insim g;
    sched_point(51);
    int st = type & 0xf;
    if (fam != AF_INET && fam != AF_INET6) return err(EAFNOSUPPORT);
    if (emf("socket-emfile")) return err(EMFILE);
    ofd* o      = mk(st == SOCK_DGRAM ? O_UDP : O_TCP);
    o->fam      = fam;
    o->nonblock = (type & SOCK_NONBLOCK) != 0;
    if (o->t == O_TCP)
    {
        o->tc    = new tcb;
        o->tc->o = o;
        g_tcbs.push_back(o->tc);
    }
    return install(o);
}
int bind(int fd, const sockaddr* sa, socklen_t n) noexcept
{
    insim g;
    sched_point(52);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    addr a;
    if (!get_addr(sa, n, a)) return err(EINVAL);
    if (sf("bind-fails")) return err(EADDRINUSE);
    if (o->t == O_UDP)
    {
        if (o->bound) return err(EINVAL);
        if (!a.port) a.port = eph();
        for (auto* u : g_udps)
            if (u->local.port == a.port && u->local.fam == a.fam && (u->local == a || u->local.any() || a.any()) && !(u->reuse_port && o->reuse_port) && !(u->reuse_addr && o->reuse_addr)) return err(EADDRINUSE);
        o->local = a;
        o->bound = true;
        g_udps.push_back(o);
        return 0;
    }
    if (o->t != O_TCP) return err(ENOTSOCK);
    if (!a.port) a.port = eph();
    if (o->tc->bound) return err(EINVAL);
    for (auto& [la, v] : g_listen)
        if (la.port == a.port && la.fam == a.fam && (la == a || la.any() || a.any()))
            for (auto* l : v) if (l->o && !(l->o->reuse_port && o->reuse_port)) return err(EADDRINUSE);
    if (!o->reuse_addr && !o->reuse_port)
        for (auto* s : g_tcbs)
            if (s->lst && s->local.port == a.port && s->local.fam == a.fam && (s->local == a || a.any()) && s->st == tcb::EST && !s->rst
                && (!(s->fin_sent && s->fin_rcvd) || (s->active && g_now - s->ended < 60'000'000'000ll)))
                return err(EADDRINUSE);
    o->tc->local = a;
    o->tc->bound = true;
    return 0;
}
int listen(int fd, int backlog) noexcept
{
    insim g;
    sched_point(53);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (o->t != O_TCP) return err(EOPNOTSUPP);
    if (sf("listen-fails")) return err(EADDRINUSE);
    tcb* t = o->tc;
    if (!t->bound) { t->local.fam = o->fam; t->local.port = eph(); t->bound = true; }
    if (t->st == tcb::LISTEN) { t->backlog = backlog < 0 ? 0 : backlog; return 0; }
    if (g_listen.count(t->local)) for (auto* l : g_listen[t->local]) if (!(l->o->reuse_port && o->reuse_port)) return err(EADDRINUSE);
    t->st = tcb::LISTEN;
    t->backlog = backlog < 0 ? 0 : backlog;
    g_listen[t->local].push_back(t);
    return 0;
}
int accept4(int fd, sockaddr* sa, socklen_t* sl, int fl)
{
    insim g;
    sched_point(54);
    for (;;)
    {
        ofd* o = get(fd);
        if (!o) return err(EBADF);
        if (o->t != O_TCP || o->tc->st != tcb::LISTEN) return err(EINVAL);
        if (!o->tc->acceptq.empty())
        {
            if (emf("accept-emfile")) return err(EMFILE);
            tcb* s = o->tc->acceptq.front();
            o->tc->acceptq.pop_front();
            if (nf.accept_abort && fault("accept-aborted", 1, nf.accept_abort))
            {
                send_rst(s->peer);
                s->st = tcb::DEAD;
                s->rst = true;
                return err(ECONNABORTED);
            }
            ofd* n      = mk(O_TCP);
            n->fam      = o->fam;
            n->tc       = s;
            n->nonblock = (fl & SOCK_NONBLOCK) != 0;
            s->o        = n;
            put_addr(s->remote, sa, sl);
            hb_acquire(s);
            tcp_absorb(s);
            return install(n);
        }
        if (o->nonblock) return err(EAGAIN);
        block(B_FD, o, INT64_MAX);
    }
}
int accept(int fd, sockaddr* sa, socklen_t* sl) { return accept4(fd, sa, sl, 0); }
int connect(int fd, const sockaddr* sa, socklen_t n)
{
    insim g;
    sched_point(55);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    addr a;
    if (!get_addr(sa, n, a)) return err(sa->sa_family == AF_UNSPEC ? EINVAL : EAFNOSUPPORT);
    if (o->t == O_UDP)
    {
        o->remote    = a;
        o->connected = true;
        udp_autobind(o, a.fam);
        loopback_src(o->local, a);
        return 0;
    }
    if (o->t != O_TCP) return err(ENOTSOCK);
    tcb* t = o->tc;
    switch (t->st)
    {
        case tcb::EST: return err(EISCONN);
        case tcb::CONNECTING: return err(EALREADY);
        case tcb::LISTEN: return err(EISCONN);
        case tcb::DEAD: if (t->so_error) { int e = t->so_error; t->so_error = 0; return err(e); } return err(ECONNABORTED);
        case tcb::NEW: break;
    }
    if (sf("connect-eaddrnotavail")) return err(EADDRNOTAVAIL);
    if (!t->bound) { t->local = a; t->local.port = eph(); t->bound = true; }
    t->remote = a;
    t->st     = tcb::CONNECTING;
    at(g_now + delay(), syn_arrive, t);
    if (o->nonblock)
    {
        if (nf.eintr && fault("connect-eintr", 1, nf.eintr)) return err(EINTR); // attempt continues in the background
        return err(EINPROGRESS);
    }
    while (t->st == tcb::CONNECTING) block(B_FD, o, INT64_MAX);
    if (t->so_error) { int e = t->so_error; t->so_error = 0; return err(e); }
    return 0;
}
int shutdown(int fd, int how) noexcept
{
    if (!mine(fd)) return err(EBADF);
    insim g;
    sched_point(56);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (o->t == O_UDP)
    {
        if (!o->connected) return err(ENOTCONN);
        if (how != SHUT_WR) o->ushut_rd = true;
        if (how != SHUT_RD) o->ushut_wr = true;
        notify(o);
        return 0;
    }
    if (o->t != O_TCP) return err(ENOTSOCK);
    tcb* t = o->tc;
    if (t->st == tcb::LISTEN)
    {
        if (how == SHUT_RD || how == SHUT_RDWR)
        {
            unlisten(t);
            for (auto* s : t->acceptq) { send_rst(s->peer); s->st = tcb::DEAD; s->rst = true; }
            t->acceptq.clear();
            t->st = tcb::DEAD;
            t->fin_sent = t->shut_rd = true;
            notify(o);
        }
        return 0;
    }
    if (t->st == tcb::CONNECTING) { t->st = tcb::DEAD; notify(o); return 0; }
    if (t->st != tcb::EST) return err(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) t->shut_rd = true;
    if (how == SHUT_WR || how == SHUT_RDWR) tcp_fin(t);
    notify(o);
    return 0;
}
int getsockopt(int fd, int lvl, int name, void* v, socklen_t* n) noexcept
{
    insim g;
    sched_point(57);
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (sf("getsockopt-fails")) return err(ENOBUFS);
    int r = 0;
    if (lvl == SOL_SOCKET && name == SO_ERROR)
    {
        if (o->t == O_TCP) { r = o->tc->so_error; o->tc->so_error = 0; }
        else { r = o->so_error; o->so_error = 0; }
    }
    else if (lvl == SOL_SOCKET && name == SO_TYPE) r = o->t == O_UDP ? SOCK_DGRAM : SOCK_STREAM;
    if (v && n && *n >= 4) { check_access(v, 4, true, false, PC); memcpy(v, &r, 4); *n = 4; }
    return 0;
}
int setsockopt(int fd, int lvl, int name, const void* v, socklen_t n) noexcept
{
    insim g;
    ofd* o = get(fd);
    if (!o) return err(EBADF);
    if (sf("setsockopt-fails")) return err(ENOMEM);
    if (lvl == SOL_SOCKET && v && n >= (socklen_t)sizeof(int))
    {
        int on;
        memcpy(&on, v, sizeof on);
        if (name == SO_REUSEADDR) o->reuse_addr = on;
        if (name == SO_REUSEPORT) o->reuse_port = on;
    }
    return 0;
}
int getsockname(int fd, sockaddr* sa, socklen_t* sl) noexcept
{
    insim g;
    ofd*  o = get(fd);
    if (!o) return err(EBADF);
    put_addr(o->t == O_TCP ? o->tc->local : o->local, sa, sl);
    return 0;
}
int getpeername(int fd, sockaddr* sa, socklen_t* sl) noexcept
{
    insim g;
    ofd*  o = get(fd);
    if (!o) return err(EBADF);
    if (o->t == O_TCP) { if (!o->tc->was_est) return err(ENOTCONN); put_addr(o->tc->remote, sa, sl); }
    else { if (!o->connected) return err(ENOTCONN); put_addr(o->remote, sa, sl); }
    return 0;
}
int socketpair(int, int, int, int[2]) noexcept { return err(EOPNOTSUPP); }
}
