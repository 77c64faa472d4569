// History oracle shared by the ring buffer and queue scenarios: unique values, interval order.
#pragma once
#include "sc.hpp"
namespace sc
{
enum pres { P_OK, P_NOTIFIED, P_STOPPED, P_PENDING };
enum cres { C_VAL, C_NOTIFIED, C_STOPPED, C_EMPTY, C_BUSY, C_PENDING };
struct prod { u64 a = INF, z = INF; pres r = P_PENDING; int cons = -1; };
struct cons { u64 a = INF, z = INF; cres r = C_PENDING; int val = -1; bool tr = false; };
struct hist
{
    std::vector<prod> p;
    std::vector<cons> c;
    std::vector<iv>   abrupt, drain, note_p, note_c;
    int  cap = 1 << 30;
    bool discarding() const { return !abrupt.empty(); }
    u64  stop_inv() const { u64 m = INF; for (auto& x : abrupt) m = std::min(m, x.a); for (auto& x : drain) m = std::min(m, x.a); return m; }
    u64  abrupt_end() const { u64 m = INF; for (auto& x : abrupt) m = std::min(m, x.b); return m; }
    u64  closed_end() const { u64 m = abrupt_end(); for (auto& x : drain) m = std::min(m, x.b); return m; }
    u64  observed_shutdown = INF;
    int  pend(const char*) const { return 0; }
    int  waiting_p() const { int n = 0; for (auto& x : p) n += x.a != INF && x.z == INF; return n; }
    int  waiting_c() const { int n = 0; for (auto& x : c) n += x.a != INF && x.z == INF; return n; }
    i64  accepted() const { i64 n = 0; for (auto& x : p) n += x.r == P_OK; return n; }
    i64  consumed() const { i64 n = 0; for (auto& x : c) n += x.r == C_VAL; return n; }
    static bool overlaps(const std::vector<iv>& v, u64 a, u64 z) { for (auto& x : v) if (x.a < z && x.b > a) return true; return false; }

    int p_begin() { p.emplace_back(); p.back().a = sim::seq(); return (int)p.size() - 1; }
    void p_end(int i, pres r)
    {
        auto& x = p[i];
        SIM_CHECK(x.z == INF, "resumed-twice", "a produce operation ended twice");
        x.z = sim::seq();
        x.r = r;
        sim::mix(i * 4 + r);
        if (r == P_STOPPED) SIM_CHECK(stop_inv() < x.z, "wrong-result", "produce reported stopped without a shutdown");
        if (r == P_NOTIFIED) SIM_CHECK(overlaps(note_p, x.a, x.z), "wrong-result", "produce reported a notification nobody made");
        if (r != P_OK) SIM_CHECK(x.cons < 0, "wrong-result", "element %d was delivered although its produce did not report success", i);
        if (r == P_OK)
        {
            u64 shut = std::min(closed_end(), observed_shutdown);
            SIM_CHECK(x.a < shut, "after-shutdown", "an element was accepted after the shutdown");
            i64 in = 0;
            for (auto& y : p) in += y.z <= x.z && y.r == P_OK;
            for (auto& y : c) in -= y.a < x.z && y.r != C_NOTIFIED && y.r != C_STOPPED && y.r != C_EMPTY && y.r != C_BUSY;
            SIM_CHECK(in <= cap, "overfull", "at least %lld elements are in a buffer of %d", (long long)in, cap);
        }
    }
    int c_begin(bool tr = false) { c.emplace_back(); c.back().a = sim::seq(); c.back().tr = tr; return (int)c.size() - 1; }
    void c_end(int i, cres r, int val)
    {
        auto& x = c[i];
        SIM_CHECK(x.z == INF, "resumed-twice", "a consume operation ended twice");
        x.z   = sim::seq();
        x.r   = r;
        x.val = val;
        sim::mix(val * 8 + r);
        if (r == C_VAL)
        {
            SIM_CHECK(val >= 0 && val < (int)p.size() && p[val].a < x.z, "invented", "an element came out that nobody put in (%d)", val);
            SIM_CHECK(p[val].cons < 0, "duplicated", "element %d was delivered twice", val);
            SIM_CHECK(p[val].r == P_OK || p[val].r == P_PENDING, "wrong-result", "element %d was delivered although its produce reported %d", val, p[val].r);
            p[val].cons = i;
            SIM_CHECK(x.a < abrupt_end(), "after-shutdown", "an element came out after the shutdown");
        }
        if (r == C_STOPPED) SIM_CHECK(stop_inv() < x.z, "wrong-result", "consume reported stopped without a shutdown");
        if (r == C_NOTIFIED) SIM_CHECK(overlaps(note_c, x.a, x.z), "wrong-result", "consume reported a notification nobody made");
        u64 ab = INF;
        for (auto& y : abrupt) ab = std::min(ab, y.a);
        if (r == C_EMPTY || (r == C_STOPPED && ab > x.z))
        {
            // elements surely inside during the whole attempt: only an abrupt shutdown may withhold them
            i64 in = 0;
            for (auto& y : p) in += y.z < x.a && y.r == P_OK;
            for (auto& y : c) in -= &y != &x && y.a < x.z && (y.r == C_VAL || y.r == C_PENDING);
            SIM_CHECK(in <= 0, "wrong-result", "%s was reported with at least %lld elements inside", r == C_EMPTY ? "empty" : "stopped", (long long)in);
        }
    }
    void check_size(u64 a, u64 z, i64 s)
    {
        i64 lo = 0, hi = 0;
        for (auto& y : p)
        {
            lo += y.z < a && y.r == P_OK;
            hi += y.a < z && (y.r == P_OK || y.r == P_PENDING);
        }
        for (auto& y : c)
        {
            lo -= y.a < z && (y.r == C_VAL || y.r == C_PENDING);
            hi -= y.z < a && y.r == C_VAL;
        }
        SIM_CHECK(s >= lo && s <= hi && s <= cap, "size", "size() is %lld, must be in [%lld, %lld] and at most %d", (long long)s, (long long)lo, (long long)hi, cap);
    }
    // every operation has ended (or never will): ordering over the whole history, and nothing lost
    void finish(bool all_ended)
    {
        int n = (int)p.size();
        for (int i = 0; i < n; i++)
        {
            if (p[i].r != P_OK) continue;
            u64 ci_inv = p[i].cons >= 0 ? c[p[i].cons].a : INF;
            if (p[i].cons < 0 && all_ended && !discarding() && !drain.empty())
                sim::fail("lost", "element %d was accepted but never delivered although the shutdown was draining", i);
            for (int j = 0; j < n; j++)
            {
                if (p[j].cons < 0 || i == j || p[i].z >= p[j].a) continue;
                SIM_CHECK(c[p[j].cons].z > ci_inv || (!all_ended && ci_inv == INF), "order", "element %d overtook element %d", j, i);
                if (all_ended && ci_inv == INF) sim::fail("order", "element %d was delivered but %d, accepted earlier, was not", j, i);
            }
        }
    }
};
// move-only element owning memory the producer wrote before producing
struct elem
{
    int* p = nullptr;
    elem() = default;
    explicit elem(int id) : p(new int(id)) {}
    elem(elem&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    elem& operator=(elem&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    elem(const elem&) = delete;
    ~elem() { delete p; }
    int id() const { return p ? *p : -1; }
};
// copyable element pointing at memory the producer wrote
struct cell
{
    int* p = nullptr;
    cell() = default;
    cell(int* slots, int id) : p(&slots[id]) { *p = id; }
    int id() const { return p ? *p : -1; }
};
} // namespace sc
