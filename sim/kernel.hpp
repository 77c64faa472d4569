// Scenario-facing controls of the simulated kernel and network.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sim
{
struct netcfg
{
    int64_t min_delay = 5'000;   // ns
    int64_t jitter    = 0;       // additional, chosen per segment / datagram
    int     sndbuf    = 65536;
    int     rcvbuf    = 65536;
    int     seg_max   = 1 << 20; // bytes per delivered segment
    int64_t gap       = 0;       // ns between the segments of a connection (a slow link)
    int     pipe_cap  = 65536;
    int     udp_queue = 64;      // datagrams
    bool    sigpipe_ignored = false;
    bool    strict_close    = true; // closing a descriptor that is not open is a violation
};
extern netcfg net;
// fault rates of the kernel are looked up by kind name with these denominators (0 = never)
struct netfaults
{
    uint32_t short_recv = 0, short_send = 0, eagain = 0, reset = 0, syn_refused = 0, syn_lost = 0, accept_abort = 0;
    uint32_t udp_loss = 0, udp_dup = 0, udp_reorder = 0, corrupt = 0, truncate = 0;
    uint32_t eintr = 0;    // epoll_wait
    uint32_t emfile = 0;   // descriptor creation
    uint32_t sysfail = 0;  // epoll_ctl / timerfd_settime / other resource failures
    uint32_t send_errno = 0;
};
extern netfaults nf;
// A simulated remote UDP host: called when a datagram reaches port; reply() sends one back.
using udp_reply   = std::function<void(const std::string&)>;
using udp_handler = std::function<void(const std::string& data, const udp_reply& reply)>;
void udp_host(uint16_t port, udp_handler h);
void vfile(const std::string& path, const std::string& contents); // what is read from a file below /etc
void after(int64_t ns, std::function<void()> f); // runs f inside the simulator once ns have passed
void alloc_faults(uint32_t den); // for allocations of the calling thread
void wall_jump(int64_t ns);
int64_t wall_offset();
struct knlstat { uint64_t tcp_delivered = 0, udp_delivered = 0; };
std::string fd_table();          // human readable
int  fd_count(const char* type); // open descriptors of a type
bool fd_open(int fd);
uint64_t fd_id(int fd);           // identity of the open file description, 0 if not open
int  fd_total();                 // open descriptors
bool epoll_watches(int fd);      // some epoll instance has an enabled registration for this descriptor number
void tcp_reset_all();            // every established connection is reset now
void tcp_partition(bool on);     // while on, nothing is delivered (TCP delays, UDP is lost)
int  syn_retries();               // how often a connection attempt had to be repeated in this run (lost, partitioned, or the backlog was full)
bool udp_delivered_copy(const void* p, size_t n);
} // namespace sim
