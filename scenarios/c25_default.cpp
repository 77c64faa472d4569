// C25: first use of the default executors from several threads. Every run is a process of its own.
#include "sc.hpp"
using namespace sc;
using ms = std::chrono::milliseconds;
namespace
{
struct world
{
    std::set<void*> tp, io;              // every instance seen
    std::vector<int> ran, accepted;      // per piece of work
    int  tp_started = 0, io_started = 0, pool_started = 0, tp_stopped = 0, io_stopped = 0, pool_stopped = 0;
    std::set<int> worked;                // threads that ran work
    int  threw = 0;
};
world* W; // of this process
task<void> work(world* w, int i, bool deep)
{
    if (deep) { if (sim::chance(1, 2)) co_await default_executor::executor()->schedule(); else co_await default_executor::io_executor()->yield_for(std::chrono::microseconds(1 + sim::pick(500))); }
    q([&] { w->ran[i]++; w->worked.insert(sim::tid()); });
    co_return;
}
} // namespace
SIM_SCENARIO("C25", c25_default, 1, sim::F_FORK)
{
    host<world> wd;
    auto w = W = &*wd;
    bool     opt = sim::chance(1, 2), iopt = sim::chance(1, 2), inl = sim::chance(1, 2), fails = sim::chance(1, 4), deep = !fails && sim::chance(1, 2);
    uint32_t n = 1 + sim::pick(3), m = 1 + sim::pick(2);
    q([&] { w->ran.reserve(100); w->accepted.reserve(100); });
    int base = sim::live_threads();
    // the number of workers is what std::thread::hardware_concurrency says unless set
    if (opt)
        default_executor::set_executor_options(thread_pool::options{
            .thread_count            = n,
            .on_thread_start_functor = [](std::size_t) { q([] { W->tp_started++; }); },
            .on_thread_stop_functor  = [](std::size_t) { q([] { W->tp_stopped++; }); }});
    if (iopt)
        default_executor::set_io_executor_options(scheduler::options{
            .thread_strategy            = scheduler::thread_strategy_t::spawn,
            .on_io_thread_start_functor = [] { q([] { W->io_started++; }); },
            .on_io_thread_stop_functor  = [] { q([] { W->io_stopped++; }); },
            .pool                       = thread_pool::options{.thread_count = m, .on_thread_start_functor = [](std::size_t) { q([] { W->pool_started++; }); }, .on_thread_stop_functor = [](std::size_t) { q([] { W->pool_stopped++; }); }},
            .execution_strategy         = inl ? scheduler::execution_strategy_t::process_tasks_inline : scheduler::execution_strategy_t::process_tasks_on_thread_pool});
    if (fails)
    {
        sim::faults_enable("thread-create-fails", true);
        if (sim::chance(1, 2)) { sim::nf.emfile = 3 + sim::pick(5); for (auto* k : {"pipe-emfile", "timerfd-emfile", "epoll-emfile"}) sim::faults_enable(k, true); }
    }
    bool used_tp = false, used_io = false;
    auto one = [&](bool io) {
        for (int tries = 0;; tries++)
        {
            try
            {
                void* p;
                if (io) { auto& u = default_executor::io_executor(); p = u.get(); q([&] { used_io = true; w->io.insert(p); }); }
                else { auto& u = default_executor::executor(); p = u.get(); q([&] { used_tp = true; w->tp.insert(p); }); }
                SIM_CHECK(p != nullptr, "no-instance", "the default executor is null");
                if (sim::chance(1, 3)) { auto& u = default_executor::perfect<std::unique_ptr<scheduler>>(); q([&] { used_io = true; w->io.insert(u.get()); }); }
                return;
            }
            catch (const std::runtime_error&) { SIM_CHECK(fails, "exception", "the default executor throws"); q([&] { w->threw++; }); if (tries > 20) sim::faults_off(); }
        }
    };
    {
        int  k = 1 + sim::pick(4);
        crew c;
        std::vector<std::thread> ts;
        auto body = [&] {
            jitter();
            int j = 1 + sim::pick(3);
            for (int i = 0; i < j; i++)
            {
                bool io = sim::chance(1, 2);
                one(io);
                int  id = q([&] { w->ran.push_back(0); w->accepted.push_back(0); return (int)w->ran.size() - 1; });
                bool ok;
                if (io) ok = default_executor::io_executor()->spawn_detached(work(w, id, deep));
                else ok = default_executor::executor()->spawn_detached(work(w, id, deep));
                q([&] { w->accepted[id] = ok; });
                SIM_CHECK(ok, "refused", "the default executor refuses work");
                if (io && sim::chance(1, 3))
                {
                    i64 t0 = sim::now();
                    sync_wait(default_executor::io_executor()->yield_for(ms(1)));
                    SIM_CHECK(sim::now() - t0 >= 1'000'000, "early", "the default I/O executor's timer fires early");
                }
            }
        };
        // thread creation of the harness itself must not fail
        sim::faults_off();
        for (int i = 1; i < k; i++) c.add(body);
        sim::faults_off(false);
        body();
        c.join();
    }
    sim::faults_off();
    q([&] {
        SIM_CHECK(w->tp.size() <= 1, "two-instances", "%zu different default thread pools", w->tp.size());
        SIM_CHECK(w->io.size() <= 1, "two-instances", "%zu different default schedulers", w->io.size());
    });
    i64 t0 = sim::now();
    auto busy = [&] { return q([&] { for (size_t i = 0; i < w->ran.size(); i++) if (!w->ran[i]) return true; return false; }); };
    while (busy() && sim::now() - t0 < 100'000'000 + 3 * (sim::slack() + sim::stalled())) sim::sleep_ns(1'000'000);
    q([&] { for (size_t i = 0; i < w->ran.size(); i++) SIM_CHECK(w->ran[i] == 1, "not-exactly-once", "work given to a default executor ran %d times", w->ran[i]); });
    if (deep) { used_tp = used_io = true; default_executor::executor(); default_executor::io_executor(); }
    // an executor outlives the tasks spawned on it, wherever they are
    for (t0 = sim::now(); ((used_tp && default_executor::executor()->size()) || (used_io && default_executor::io_executor()->size())) && sim::now() - t0 < 100'000'000 + 3 * (sim::slack() + sim::stalled());) sim::sleep_ns(1'000'000);
    if (used_tp) SIM_CHECK(default_executor::executor()->empty(), "not-empty", "the default executor does not get empty");
    if (used_io) SIM_CHECK(default_executor::io_executor()->empty(), "not-empty", "the default I/O executor does not get empty");
    // what was created is what the options say
    int extra = (int)sim::live_threads() - base, want = 0;
    u64 hw = std::thread::hardware_concurrency();
    if (used_tp) want += opt ? n : hw;
    if (used_io) want += 1 + (iopt ? (inl ? 0 : m) : hw > 1 ? hw - 1 : 1); // (documented defaults)
    SIM_CHECK(extra == want, "wrong-options", "%d threads belong to the default executors, the options say %d", extra, want);
    if (used_tp) { auto& u = default_executor::executor(); u->shutdown(); u.reset(); }
    if (used_io) { auto& u = default_executor::io_executor(); u->shutdown(); u.reset(); }
    q([&] {
        if (opt && used_tp && !fails) SIM_CHECK(w->tp_started == (int)n && w->tp_stopped == (int)n, "wrong-options", "%d workers of the default pool called the start functor, %d the stop functor, %u were asked for", w->tp_started, w->tp_stopped, n);
        if (iopt && used_io && !fails) SIM_CHECK(w->io_started == 1 && w->io_stopped == 1 && w->pool_started == (inl ? 0 : (int)m) && w->pool_stopped == w->pool_started, "wrong-options", "the default scheduler called its functors %d %d %d %d times", w->io_started, w->io_stopped, w->pool_started, w->pool_stopped);
    });
    default_executor::set_executor_options({.thread_count = 1, .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr});
    default_executor::set_io_executor_options({.pool = bed::popt(1)});
}
