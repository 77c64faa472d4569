// Worker driver: explore / one / replay / minimise / hashes.
namespace sim
{
static std::string g_out;           // output prefix
static std::string g_decfile;       // where to write the decision file on violation
static int         g_pipe = -1;     // child mode: result pipe
static bool        g_quiet = false;
struct stats
{
    uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0;
    double   simtime = 0;
    std::unordered_set<uint64_t> distinct, hist;
    std::map<std::string, uint64_t> per_scn;
};
static stats ST;
static double g_t0;
static double wall()
{
    timespec ts;
    real_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
static std::string jesc(const char* s)
{
    std::string o;
    for (; *s; ++s)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) o += ' ';
        else o += c;
    }
    return o;
}
static void write_stats(const char* path)
{
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_seconds\":%.6f,\"wall\":%.3f,\"distinct_schedules\":%zu,\"distinct_histories\":%zu,",
            (unsigned long long)ST.runs, (unsigned long long)ST.nontrivial, (unsigned long long)ST.steps,
            (unsigned long long)ST.switches, ST.simtime, wall() - g_t0, ST.distinct.size(), ST.hist.size());
    auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
        fprintf(f, "\"%s\":{", n);
        bool first = true;
        for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(f, "}");
    };
    dump("faults", g_fault_counts); fputc(',', f);
    dump("probes", g_probes); fputc(',', f);
    dump("scenarios", ST.per_scn);
    fprintf(f, "}\n");
    fclose(f);
}
static void write_decisions(const char* path, const char* kind, const char* msg)
{
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "sim-replay 1\nprop %s\nscenario %s\nseed %llu\nkind %s\nhash %016llx\nsteps %llu\ntime_ms %.6f\nmsg %s\n", R.sc->prop, R.sc->name,
            (unsigned long long)R.seed, kind, (unsigned long long)R.hash, (unsigned long long)R.steps, g_now / 1e6, jesc(msg).c_str());
    for (int s = 0; s < S_N; s++)
        for (auto& r : R.recs[s]) fprintf(f, "d %d %u %u %u\n", s, r.idx, r.val, r.n);
    fclose(f);
}
static void emit_result(const char* kind, const char* msg)
{
    if (!g_decfile.empty()) write_decisions(g_decfile.c_str(), kind, msg);
    if (g_pipe >= 0)
    {
        char b[256];
        int  n = snprintf(b, sizeof b, "V %s %016llx\n", kind, (unsigned long long)R.hash);
        real_syscall(SYS_write, g_pipe, (long)b, n, 0, 0, 0);
        return;
    }
    if (!g_out.empty()) write_stats((g_out + ".stats").c_str());
    if (!g_quiet)
    {
        printf("RESULT violation kind=%s hash=%016llx scenario=%s seed=%llu msg=%s\n", kind, (unsigned long long)R.hash, R.sc->name,
               (unsigned long long)R.seed, msg);
        fflush(stdout);
    }
}
static const scenario* find_scn(const char* n)
{
    for (auto* s = g_scenarios; s; s = s->next) if (!strcmp(s->name, n)) return s;
    fprintf(stderr, "no scenario %s\n", n);
    _exit(9);
}
static std::vector<const scenario*> scns_of(const char* prop, const char* only)
{
    std::vector<const scenario*> v;
    for (auto* s = g_scenarios; s; s = s->next)
        if ((!prop || !strcmp(s->prop, prop)) && (!only || !strcmp(s->name, only))) v.push_back(s);
    std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
    return v;
}
static const scenario* choose_scn(const std::vector<const scenario*>& v, uint64_t seed)
{
    uint64_t tot = 0;
    for (auto* s : v) tot += s->weight;
    uint64_t x = seed ^ 0x5ce7a210;
    uint64_t r = splitmix(x) % tot;
    for (auto* s : v) { if (r < (uint64_t)s->weight) return s; r -= s->weight; }
    return v.back();
}
static void arm_alarm();
static void account(const scenario* sc, const outcome& o)
{
    ST.runs++;
    ST.steps += o.steps;
    ST.switches += o.switches;
    ST.simtime += o.simtime / 1e9;
    ST.per_scn[sc->name]++;
    if (!o.trivial && o.switches > 1)
    {
        ST.nontrivial++;
        if (ST.distinct.size() < 4000000) ST.distinct.insert(o.shash ^ (uintptr_t)sc->fn);
        if (ST.hist.size() < 4000000) ST.hist.insert(o.hash ^ (uintptr_t)sc->fn);
    }
}
// run in a child process; returns true if no violation
static bool forked(const scenario* sc, uint64_t seed, bool replay, outcome* o, std::string* kind, uint64_t* vhash, bool want_stats)
{
    int p[2];
    if (real_syscall(SYS_pipe2, (long)p, 0, 0, 0, 0, 0) != 0) _exit(9);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_pipe = p[1];
        arm_alarm();
        g_fault_counts.clear();
        g_probes.clear();
        outcome r = run_one(sc, seed, replay, false);
        ++g_insim;
        std::string s;
        char        b[256];
        snprintf(b, sizeof b, "O %llx %llx %llu %lld %d %llu\n", (unsigned long long)r.hash, (unsigned long long)r.shash,
                 (unsigned long long)r.steps, (long long)r.simtime, r.trivial, (unsigned long long)r.switches);
        s = b;
        if (want_stats)
        {
            for (auto& kv : g_fault_counts) s += "F " + kv.first + " " + std::to_string(kv.second) + "\n";
            for (auto& kv : g_probes) s += "P " + kv.first + " " + std::to_string(kv.second) + "\n";
        }
        real_syscall(SYS_write, p[1], (long)s.data(), s.size(), 0, 0, 0);
        if (__gcov_dump) __gcov_dump();
        _exit(0);
    }
    real_syscall(SYS_close, p[1], 0, 0, 0, 0, 0);
    std::string s;
    char        b[4096];
    long        n;
    while ((n = real_syscall(SYS_read, p[0], (long)b, sizeof b, 0, 0, 0)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, n);
    real_syscall(SYS_close, p[0], 0, 0, 0, 0, 0);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool ok = false;
    if (kind) *kind = "";
    size_t i = 0;
    while (i < s.size())
    {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) break;
        std::string l = s.substr(i, e - i);
        i = e + 1;
        char nm[128];
        unsigned long long v;
        if (l[0] == 'O')
        {
            unsigned long long h, sh, stp, sw;
            long long          t;
            int                tr;
            sscanf(l.c_str(), "O %llx %llx %llu %lld %d %llu", &h, &sh, &stp, &t, &tr, &sw);
            if (o) *o = outcome{h, sh, stp, t, tr != 0, sw};
            ok = true;
        }
        else if (l[0] == 'V')
        {
            sscanf(l.c_str(), "V %127s %llx", nm, &v);
            if (kind) *kind = nm;
            if (vhash) *vhash = v;
        }
        else if (want_stats && sscanf(l.c_str() + 2, "%127s %llu", nm, &v) == 2)
        {
            (l[0] == 'F' ? g_fault_counts : g_probes)[nm] += v;
        }
    }
    if (!ok && kind && kind->empty()) *kind = "died";
    return ok;
}
static uint64_t g_last_steps = 0;
static int      g_stuck = 0;
static void on_alarm(int)
{
    if (!g_active) return;
    if (R.steps == g_last_steps) { if (++g_stuck >= 4) fail("spin", "T%d loops without reaching any scheduling point", g_cur->id); }
    else g_stuck = 0;
    g_last_steps = R.steps;
}
// CPU time, so that an overloaded machine never looks like a spinning fiber; not inherited by children
static void arm_alarm()
{
    itimerval it{{3, 0}, {3, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
}
static bool load_replay(const char* path, std::string& scn, std::string& kind, uint64_t& hash, uint64_t& seed)
{
    FILE* f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path); return false; }
    char line[8192];
    for (auto& v : R.in) v.clear();
    while (fgets(line, sizeof line, f))
    {
        char nm[256];
        unsigned long long x;
        int s;
        unsigned i, v, n;
        if (sscanf(line, "scenario %255s", nm) == 1) scn = nm;
        else if (sscanf(line, "kind %255s", nm) == 1) kind = nm;
        else if (sscanf(line, "hash %llx", &x) == 1) hash = x;
        else if (sscanf(line, "seed %llu", &x) == 1) seed = x;
        else if (sscanf(line, "d %d %u %u %u", &s, &i, &v, &n) == 4) R.in[s].push_back({i, v, n});
    }
    fclose(f);
    return true;
}
static bool minimise(const char* file, const char* outf, double secs)
{
    std::string scn, kind;
    uint64_t    hash = 0, seed = 0;
    if (!load_replay(file, scn, kind, hash, seed)) return false;
    const scenario* sc = find_scn(scn.c_str());
    struct D { int s; rec r; };
    std::vector<D> cur;
    for (int s = 0; s < S_N; s++) for (auto& r : R.in[s]) cur.push_back({s, r});
    double t0 = wall();
    int    tries = 0;
    auto test = [&](const std::vector<D>& c) {
        for (auto& v : R.in) v.clear();
        for (auto& d : c) R.in[d.s].push_back(d.r);
        std::string k;
        uint64_t    h;
        outcome     o;
        ++tries;
        g_decfile.clear();
        forked(sc, seed, true, &o, &k, &h, false);
        return k == kind;
    };
    if (!test(cur)) { fprintf(stderr, "minimise: original does not reproduce\n"); return false; }
    size_t orig = cur.size();
    // drop whole streams, then suffixes, then chunks
    for (int s = S_N - 1; s >= 0 && wall() - t0 < secs; s--)
    {
        std::vector<D> c;
        for (auto& d : cur) if (d.s != s) c.push_back(d);
        if (c.size() < cur.size() && test(c)) cur = c;
    }
    bool changed = true;
    while (changed && wall() - t0 < secs)
    {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1 && wall() - t0 < secs; chunk /= 2)
        {
            for (size_t i = 0; i < cur.size() && wall() - t0 < secs;)
            {
                std::vector<D> c;
                for (size_t j = 0; j < cur.size(); j++) if (j < i || j >= i + chunk) c.push_back(cur[j]);
                if (c.size() < cur.size() && test(c)) { cur = c; changed = true; }
                else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < cur.size() && wall() - t0 < secs; i++)
            while (cur[i].r.val > 1)
            {
                auto c = cur;
                c[i].r.val = c[i].r.val / 2;
                if (!test(c)) { c[i].r.val = cur[i].r.val - 1; if (!test(c)) break; }
                cur = c;
                changed = true;
                if (wall() - t0 >= secs) break;
            }
    }
    for (auto& v : R.in) v.clear();
    for (auto& d : cur) R.in[d.s].push_back(d.r);
    // final run writes the file itself
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        arm_alarm();
        g_decfile = outf;
        g_quiet = true;
        g_out.clear();
        run_one(sc, seed, true, false);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    printf("MINIMISED %zu -> %zu decisions in %d runs\n", orig, cur.size(), tries);
    return WIFEXITED(st) && WEXITSTATUS(st) == 77;
}
void warmup() __attribute__((weak));
} // namespace sim

int main(int argc, char** argv)
{
    ++g_insim;
    __libc_single_threaded = 0;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    dl_iterate_phdr(find_tls, nullptr);
    if (g_tls_size) g_tls_init.assign(g_tls_base, g_tls_base + g_tls_size);
    map_regions();
    static char    alt[65536];
    stack_t        ss{};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction al{};
    al.sa_handler = on_alarm;
    al.sa_flags   = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &al, nullptr);
    struct rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);

    auto opt = [&](const char* n, const char* d) -> const char* {
        for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1];
        return d;
    };
    auto has = [&](const char* n) { for (int i = 1; i < argc; i++) if (!strcmp(argv[i], n)) return true; return false; };
    std::string mode = argc > 1 ? argv[1] : "";
    g_t0 = wall();
    { void* bt[2]; backtrace(bt, 2); try { --g_insim; throw 1; } catch (int) { ++g_insim; } }
    if (warmup) { warmup(); }
    arm_alarm();

    const char* prop = opt("--prop", nullptr);
    const char* only = opt("--scenario", nullptr);
    if (mode == "list")
    {
        for (auto* s : scns_of(prop, only)) printf("%s %s %d\n", s->prop, s->name, s->weight);
        return 0;
    }
    if (mode == "explore" || mode == "hashes")
    {
        uint64_t S = strtoull(opt("--seed", "1"), nullptr, 10);
        uint64_t w = strtoull(opt("--worker", "0"), nullptr, 10), nw = strtoull(opt("--nworkers", "1"), nullptr, 10);
        double   secs = atof(opt("--secs", "10"));
        uint64_t maxr = strtoull(opt("--runs", "1000000000"), nullptr, 10);
        g_out = opt("--out", "");
        if (!g_out.empty()) g_decfile = g_out + ".viol";
        auto v = scns_of(prop, only);
        if (v.empty()) { fprintf(stderr, "no scenarios\n"); return 9; }
        for (uint64_t i = 0; i < maxr && wall() - g_t0 < secs; i++)
        {
            uint64_t x    = S * 0x9e3779b97f4a7c15ull ^ ((w + nw * i) + 1) * 0xd1342543de82ef95ull;
            uint64_t seed = splitmix(x) >> 1;
            const scenario* sc = choose_scn(v, seed);
            outcome o{};
            if (sc->flags & F_FORK)
            {
                std::string k;
                uint64_t    h;
                if (!forked(sc, seed, false, &o, &k, &h, true))
                {
                    // rerun here, recording everything
                    run_one(sc, seed, false, false);
                    fprintf(stderr, "nondeterministic: violation %s did not reproduce\n", k.c_str());
                    _exit(5);
                }
            }
            else o = run_one(sc, seed, false, false);
            account(sc, o);
            if (mode == "hashes") printf("%llu %s %016llx %016llx\n", (unsigned long long)seed, sc->name, (unsigned long long)o.hash, (unsigned long long)o.shash);
        }
        if (!g_out.empty()) write_stats((g_out + ".stats").c_str());
        return 0;
    }
    if (mode == "one")
    {
        g_decfile = opt("--dec", "");
        bool tr = has("--trace");
        if (tr) g_tracef = stdout;
        const scenario* sc = find_scn(only);
        uint64_t seed = strtoull(opt("--seed", "1"), nullptr, 10);
        outcome o = run_one(sc, seed, false, tr);
        printf("RESULT ok hash=%016llx steps=%llu simtime=%.6f trivial=%d switches=%llu\n", (unsigned long long)o.hash, (unsigned long long)o.steps,
               o.simtime / 1e9, o.trivial, (unsigned long long)o.switches);
        return 0;
    }
    if (mode == "replay")
    {
        std::string scn, kind;
        uint64_t    hash = 0, seed = 0;
        if (argc < 3 || !load_replay(argv[2], scn, kind, hash, seed)) return 9;
        bool tr = has("--trace");
        if (tr) g_tracef = stdout;
        outcome o = run_one(find_scn(scn.c_str()), seed, true, tr);
        printf("RESULT ok hash=%016llx (recorded violation %s did not occur)\n", (unsigned long long)o.hash, kind.c_str());
        return 0;
    }
    if (mode == "minimise")
    {
        if (argc < 4) return 9;
        return minimise(argv[2], argv[3], atof(opt("--secs", "30"))) ? 0 : 4;
    }
    fprintf(stderr, "usage: explore|hashes|one|replay|minimise|list\n");
    return 9;
}
