#include "core.hpp"
#include "alloc.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=16:malloc_context_size=8:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
#endif

namespace sim {

Shm* g = nullptr;
uint64_t g_step_budget = UINT64_MAX;
const char* g_step_what = "";

void count(const char* name, uint64_t n) {
    for (size_t i = 0; i < Shm::kCounters; ++i) {
        auto& c = g->ctr[i];
        if (!c.name[0]) { std::strncpy(c.name, name, sizeof c.name - 1); }
        if (!std::strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
    }
}

void state(uint64_t h) {
    h = mix(h); if (!h) { h = 1; }
    if (g->nstates > Shm::kStates / 2) { ++g->states_dropped; return; }
    for (size_t i = h & (Shm::kStates - 1);; i = (i + 1) & (Shm::kStates - 1)) {
        if (g->states[i] == h) { return; }
        if (!g->states[i]) { g->states[i] = h; ++g->nstates; return; }
    }
}

static void record(const char* cls, const char* msg) {
    if (!g->violated) {
        std::strncpy(g->cls, cls, sizeof g->cls - 1);
        std::strncpy(g->msg, msg, sizeof g->msg - 1);
        g->violated = 1;
    }
}

void violation(const std::string& cls, const std::string& msg) {
    alloc::bypass_guard _;
    record(cls.c_str(), msg.c_str());
    _exit(42);
}

void scope(const std::string& s) {
    alloc::bypass_guard _;
    std::memset(g->scope, 0, sizeof g->scope);
    std::strncpy(g->scope, s.c_str(), sizeof g->scope - 1);
}

void step_slow() {
    alloc::bypass_guard _; const auto budget = g_step_budget; g_step_budget = UINT64_MAX;
    record("no-progress", (std::string("no result within ") + std::to_string(budget) + " simulated steps: " + g_step_what).c_str());
    _exit(42);
}

static void on_cpu_limit(int) {
    record("no-progress", "no result within the CPU limit of one run, although no seam was reached");
    g->hash = 0xC90; g->steps = 0;                                // where it was interrupted is not reproducible
    _exit(42);
}

// ---------------------------------------------------------------------------------------------------------- Runs --

namespace {

struct Outcome {
    bool violated = false;
    std::string cls, scope, msg;
    uint64_t hash = 0, steps = 0;
    std::vector<std::pair<uint64_t, uint64_t>> sched;
};

std::string slurp(int fd) {
    std::string s; char buf[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, buf, sizeof buf)) > 0 && s.size() < 200000) { s.append(buf, static_cast<size_t>(n)); }
    return s;
}

// Turns what a dead child left on stderr into a class: what kind of failure, without addresses and line numbers.
std::string classify(int status, const std::string& err) {
    auto squash = [](std::string s) {
        std::string o; bool digit = false;
        for (char c : s) {
            if (std::isdigit(static_cast<unsigned char>(c))) { if (!digit) { o += 'N'; } digit = true; }
            else { digit = false; o += std::isspace(static_cast<unsigned char>(c)) ? ' ' : c; }
        }
        return o.substr(0, 110);
    };
    size_t p;
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        auto s = err.substr(p + 25); return "asan:" + s.substr(0, s.find_first_of(" \n"));
    }
    if ((p = err.find("runtime error: ")) != std::string::npos) {
        auto s = err.substr(p + 15); s = s.substr(0, s.find('\n'));
        size_t q; while ((q = s.find("0x")) != std::string::npos) { size_t e = q + 2; while (e < s.size() && std::isxdigit(static_cast<unsigned char>(s[e]))) { ++e; } s.replace(q, e - q, "PTR"); }
        return "ubsan:" + squash(s);
    }
    if ((p = err.find("Assertion `")) != std::string::npos) {
        auto s = err.substr(p + 11); return "assert:" + squash(s.substr(0, s.find('\'')));
    }
    if (err.find("Assertion '") != std::string::npos) {
        p = err.find("Assertion '"); auto s = err.substr(p + 11); return "libassert:" + squash(s.substr(0, s.find('\'')));
    }
    if ((p = err.find("terminate called")) != std::string::npos) { return "terminate"; }
    if (WIFSIGNALED(status)) { return "signal:" + std::to_string(WTERMSIG(status)); }
    return "exit:" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}

Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::exit(2); }
    return static_cast<Shm*>(p);
}

void begin_run(uint64_t index) {
    g->current = index; g->hash = 0x1234; g->events = 0; g->steps = 0; g->nontrivial = 0; g->nsched = 0;
    g->violated = 0; g->cls[0] = g->msg[0] = 0; std::memset(g->scope, 0, sizeof g->scope);
    g_step_budget = UINT64_MAX; g_step_what = "";
    g->in_run = 1;
}

void run_one(const Harness& h, const Scenario& s, uint64_t index) {
    begin_run(index); const auto cpu0 = clock();
    itimerval it{}; it.it_value.tv_sec = static_cast<time_t>(h.cpu_seconds) * (s.get("vast") >= 2 ? 3 : 1); setitimer(ITIMER_PROF, &it, nullptr);
    h.exec(s);
    it.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &it, nullptr); g->max_cpu_ms = std::max<uint64_t>(g->max_cpu_ms, static_cast<uint64_t>(clock() - cpu0) * 1000 / CLOCKS_PER_SEC);
    g->in_run = 0;
    g->total_steps += g->steps; g->total_events += g->events;
}

void child_setup(int errfd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(errfd, 2);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_cpu_limit);
}

int memfile() { int fd = memfd_create("err", MFD_CLOEXEC); if (fd < 0) { perror("memfd"); std::exit(2); } return fd; }

Outcome outcome_of(int status, int errfd) {
    Outcome o; o.hash = g->hash; o.steps = g->steps;
    if (g->violated) { o.violated = true; o.cls = g->cls; o.msg = g->msg; }
    else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        o.violated = true; auto err = slurp(errfd); o.cls = classify(status, err); o.msg = err.substr(0, 3000);
    }
    o.scope = g->scope;
    for (uint64_t i = 0; i < std::min<uint64_t>(g->nsched, Shm::kSched); ++i) { o.sched.emplace_back(g->sched[i][0], g->sched[i][1]); }
    return o;
}

// One scenario in a child of its own, which has already been through those before it.
Outcome isolated(const Harness& h, const Scenario& s, const std::vector<Scenario>& before = {}) {
    Shm* saved = g; static Shm* mine = new_shm(); g = mine; g->nruns = 0;
    int err = memfile(); begin_run(0);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (!pid) { child_setup(err); for (auto& b : before) { run_one(h, b, 0); } run_one(h, s, 0); _exit(0); }
    int st = 0; waitpid(pid, &st, 0);
    auto o = outcome_of(st, err); close(err); g = saved; return o;
}

Scenario scenario_for(const Harness& h, uint64_t seed, uint64_t index, bool thorough) {
    Rng r(mix(seed * 0x100000001b3ULL + 17) ^ mix(index)); return h.gen(r, thorough);
}

// A scenario whose schedule came from a seed, rewritten with the schedule spelled out.
Scenario with_schedule(Scenario s, const Outcome& o) {
    if (s.get("sched_seed", -1) >= 0) {
        s.cfg["sched_seed"] = -1;
        for (auto& [st, c] : o.sched) { s.ops.push_back({ "pre", { static_cast<int64_t>(st), static_cast<int64_t>(c) } }); }
    }
    return s;
}

bool same(const Outcome& a, const Outcome& b) { return a.violated && b.violated && a.cls == b.cls && a.scope == b.scope; }

Scenario minimise(const Harness& h, Scenario s, const Outcome& want, double seconds, uint64_t& tried, const std::vector<Scenario>& before) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return seconds - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0; };
    auto fails = [&](const Scenario& c) { ++tried; return same(isolated(h, c, before), want); };
    bool changed = true;
    while (changed && left()) {
        changed = false;
        for (size_t chunk = std::max<size_t>(s.ops.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
            for (size_t at = 0; at < s.ops.size() && left();) {
                Scenario c = s; auto e = std::min(at + chunk, c.ops.size());
                c.ops.erase(c.ops.begin() + static_cast<long>(at), c.ops.begin() + static_cast<long>(e));
                if (fails(c)) { s = c; changed = true; } else { at += chunk; }
            }
            if (chunk == 1) { break; }
        }
        for (size_t i = 0; i < s.ops.size() && left(); ++i) {
            for (size_t k = 0; k < s.ops[i].a.size() && left(); ++k) {
                for (int64_t v : { int64_t(0), int64_t(1), s.ops[i].a[k] / 2, s.ops[i].a[k] - 1 }) {
                    if (v < 0 || v >= s.ops[i].a[k]) { continue; }
                    Scenario c = s; c.ops[i].a[k] = v;
                    if (fails(c)) { s = c; changed = true; break; }
                }
            }
        }
        for (auto& [key, val] : std::map<std::string, int64_t>(s.cfg)) {
            if (std::find(h.frozen.begin(), h.frozen.end(), key) != h.frozen.end() || key == "sched_seed") { continue; }
            for (int64_t v : { int64_t(0), int64_t(1), val / 2, val - 1 }) {
                if (v < 0 || v >= val || !left()) { continue; }
                Scenario c = s; c.cfg[key] = v;
                if (fails(c)) { s = c; changed = true; break; }
            }
        }
    }
    return s;
}

// Which of the runs that a worker did before are needed for the violation: the last few, of those as few as possible.
std::vector<Scenario> prelude(const Harness& h, const Scenario& s, const Outcome& want, const std::function<Scenario(uint64_t)>& earlier, uint64_t n, double seconds) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return seconds - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0; };
    std::vector<Scenario> v; bool fails = false;
    for (uint64_t k = 1; !fails && left(); k *= 4) {
        v.clear(); for (uint64_t i = std::min(k, n); i > 0; --i) { v.push_back(earlier(i)); }
        fails = same(isolated(h, s, v), want); if (k >= n) { break; }
    }
    if (!fails) { return {}; }
    for (size_t chunk = std::max<size_t>(v.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
        for (size_t at = 0; at < v.size() && left();) {
            auto c = v; c.erase(c.begin() + static_cast<long>(at), c.begin() + static_cast<long>(std::min(at + chunk, v.size())));
            if (!c.empty() && same(isolated(h, s, c), want)) { v = c; } else { at += chunk; }
        }
        if (chunk == 1) { break; }
    }
    return v;
}

std::string json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') { o += "\\n"; } else if (c == '\t') { o += "\\t"; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += static_cast<char>(c); }
    }
    return o + "\"";
}

std::string key_of(const Harness& h, const Outcome& o) { std::string k = std::string(h.property) + "/" + o.scope + "/" + o.cls; for (auto& c : k) { if (c == ' ') { c = '_'; } } return k; }

struct Worker {
    Shm* shm = nullptr; pid_t pid = 0; int err = -1; uint64_t next = 0; bool done = false;
};

std::set<std::string> load_known(const char* file) {
    std::set<std::string> keys; std::ifstream in(file); std::string line;
    while (std::getline(in, line)) {
        auto p = line.find(" key="); if (line.compare(0, 6, "known:") || p == std::string::npos) { continue; }
        auto k = line.substr(p + 5); keys.insert(k.substr(0, k.find(' ')));
    }
    return keys;
}

const char* opt(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 1; i + 1 < argc; ++i) { if (!std::strcmp(argv[i], name)) { return argv[i + 1]; } }
    return dflt;
}

} // namespace

int main_for(const std::vector<Harness>& hs, int argc, char** argv) {
    // Usage: <binary> <property> run|replay|gen|hash ...
    const Harness* hp = nullptr;
    for (auto& x : hs) { if (argc > 1 && !std::strcmp(argv[1], x.property)) { hp = &x; } }
    if (!hp) { std::fprintf(stderr, "unknown property\n"); return 2; }
    const Harness& h = *hp;
    const std::string self = argv[0]; --argc; ++argv;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const std::string mode = argc > 1 ? argv[1] : "run";
    const uint64_t seed = std::strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10);
    const bool thorough = !std::strcmp(opt(argc, argv, "--tier", "quick"), "thorough");
    g = new_shm();

    if (mode == "gen") {
        std::fputs(scenario_for(h, seed, std::strtoull(opt(argc, argv, "--index", "0"), nullptr, 10), thorough).text().c_str(), stdout);
        return 0;
    }
    if (mode == "replay") {
        std::ifstream in(argc > 2 ? argv[2] : "/dev/stdin");
        if (!in) { std::fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
        std::vector<Scenario> before; auto s = Scenario::parse(in); while (in) { before.push_back(s); s = Scenario::parse(in); } auto o = isolated(h, s, before);
        if (!o.violated) { std::printf("REPLAY ok hash=%016" PRIx64 "\n", o.hash); return 0; }
        std::printf("REPLAY violation key=%s hash=%016" PRIx64 "\n%s\n", key_of(h, o).c_str(), o.hash, o.msg.c_str());
        return 1;
    }
    if (mode == "hash") {
        auto from = std::strtoull(opt(argc, argv, "--from", "0"), nullptr, 10), to = std::strtoull(opt(argc, argv, "--to", "100"), nullptr, 10);
        for (auto i = from; i < to; ++i) { auto o = isolated(h, scenario_for(h, seed, i, thorough)); std::printf("%" PRIu64 " %016" PRIx64 " %s\n", i, o.hash, o.violated ? key_of(h, o).c_str() : "ok"); }
        return 0;
    }

    // ---- run ----
    const auto t0 = std::chrono::steady_clock::now();
    const auto secs = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    const uint64_t runs   = std::strtoull(opt(argc, argv, "--runs", std::to_string(thorough ? h.runs_thorough : h.runs_quick).c_str()), nullptr, 10);
    const double   wall   = std::atof(opt(argc, argv, "--wall", thorough ? "780" : "240"));
    const size_t   nw     = std::max<size_t>(1, std::strtoull(opt(argc, argv, "--workers", "8"), nullptr, 10));
    const char*    outdir = opt(argc, argv, "--out", ".");
    const char*    evid   = opt(argc, argv, "--evidence", "");
    const auto     known  = load_known(opt(argc, argv, "--known", ""));
    const bool     keep   = !std::strcmp(opt(argc, argv, "--keep-going", "0"), "1");
    const double   build_s = std::atof(opt(argc, argv, "--build-seconds", "0"));
    std::printf("SIM property=%s seed=%" PRIu64 " tier=%s runs=%" PRIu64 " workers=%zu\n", h.property, seed, thorough ? "thorough" : "quick", runs, nw);

    std::vector<Worker> ws(nw);
    for (size_t w = 0; w < nw; ++w) { ws[w].shm = new_shm(); ws[w].next = w; ws[w].err = memfile(); }
    auto start = [&](Worker& w) {
        if (w.next >= runs) { w.done = true; return; }
        (void)!ftruncate(w.err, 0); lseek(w.err, 0, SEEK_SET);
        w.shm->violated = 0; w.shm->in_run = 0;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (!pid) {
            g = w.shm; child_setup(w.err);
            for (uint64_t i = w.next; i < runs; i += nw) {
                if (secs() > wall) { _exit(7); }
                auto s = scenario_for(h, seed, i, thorough);
                run_one(h, s, i);
                auto k = g->nfinished++;
                if (k < Shm::kRuns) { g->runs[k].hash = g->hash; g->runs[k].nontrivial = g->nontrivial; }
            }
            g->current = runs; _exit(0);
        }
        w.pid = pid;
    };
    for (auto& w : ws) { start(w); }

    struct Found { uint64_t index; Outcome o; uint64_t first; };
    std::map<std::string, Found> found; std::map<std::string, uint64_t> hits; std::map<std::string, uint64_t> known_hits;
    uint64_t nviol = 0; bool stop = false, out_of_time = false;
    while (true) {
        bool any = false; for (auto& w : ws) { any |= !w.done; }
        if (!any) { break; }
        int st; pid_t pid = waitpid(-1, &st, 0); if (pid < 0) { break; }
        for (auto& w : ws) {
            if (w.pid != pid || w.done) { continue; }
            g = w.shm;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.done = true; break; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 7 && !w.shm->in_run) { out_of_time = true; w.done = true; break; }
            if (!w.shm->in_run && !w.shm->violated) {
                std::printf("ERROR: worker died outside a run (status %d): %s\n", st, slurp(w.err).substr(0, 2000).c_str()); return 2;
            }
            auto o = outcome_of(st, w.err); auto k = key_of(h, o); uint64_t idx = w.shm->current;
            w.shm->total_steps += w.shm->steps; w.shm->total_events += w.shm->events;
            { auto n = w.shm->nfinished++; if (n < Shm::kRuns) { w.shm->runs[n].hash = w.shm->hash; w.shm->runs[n].nontrivial = w.shm->nontrivial; } }
            if (known.count(k)) { ++known_hits[k]; }
            else {
                ++hits[k]; ++nviol;
                auto it = found.find(k); if (it == found.end() || idx < it->second.index) { found[k] = { idx, o, w.next }; }
                if (!keep && nviol >= 24) { stop = true; }
            }
            w.next = idx + nw;
            if (stop || secs() > wall) { w.done = true; } else { start(w); }
            break;
        }
        if (stop) { for (auto& w : ws) { if (!w.done && w.pid) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); w.done = true; } } }
    }
    const double run_s = secs();

    // ---- totals ----
    std::map<std::string, uint64_t> ctr; std::unordered_set<uint64_t> distinct, states; uint64_t evals = 0, dropped = 0, steps = 0, events = 0, slowest = 0;
    for (auto& w : ws) {
        for (auto& c : w.shm->ctr) { if (c.name[0]) { ctr[c.name] += c.n; } }
        slowest = std::max<uint64_t>(slowest, w.shm->max_cpu_ms); evals += w.shm->nfinished; dropped += w.shm->states_dropped; steps += w.shm->total_steps; events += w.shm->total_events;
        for (uint64_t i = 0; i < std::min<uint64_t>(w.shm->nfinished, Shm::kRuns); ++i) { if (w.shm->runs[i].nontrivial) { distinct.insert(w.shm->runs[i].hash); } }
        for (auto v : w.shm->states) { if (v) { states.insert(v); } }
    }

    if (opt(argc, argv, "--survey", nullptr)) {                    // for development: every violation key, how often, one example
        for (auto& [k, f] : found) { std::printf("%6" PRIu64 " %s [run %" PRIu64 "]\n        %s\n", hits[k], k.c_str(), f.index, f.o.msg.substr(0, 500).c_str()); }
        for (auto& [k, n] : ctr) { std::printf("counter %s %" PRIu64 "\n", k.c_str(), n); }
        std::printf("%" PRIu64 " runs in %.1f s\n", evals, run_s); return 0;
    }

    // ---- determinism: a sample of the runs again, each in two processes of its own ----
    uint64_t det = 0, det_bad = 0; std::string det_msg;
    if (found.empty()) {
        const uint64_t n = thorough ? 64 : 16;
        for (uint64_t i = 0; i < n && i < runs; ++i) {
            auto s = scenario_for(h, seed, i * std::max<uint64_t>(1, runs / n), thorough);
            auto a = isolated(h, s), b = isolated(h, s); ++det;
            if (a.hash != b.hash || a.violated != b.violated || a.cls != b.cls) { ++det_bad; det_msg = s.text(); }
        }
    }

    // ---- violations: gate, minimise, write the replay file, replay it in a fresh process ----
    std::vector<std::string> lines, errors; size_t reported = 0;
    for (auto& [k, f] : found) {
        if (reported >= (keep ? 1000u : 3u)) { break; }
        auto s = scenario_for(h, seed, f.index, thorough);
        auto a = isolated(h, s), b = isolated(h, s);
        std::vector<Scenario> before;
        if (!a.violated && !b.violated) {                        // it needs what an earlier run left behind in the process
            before = prelude(h, s, f.o, [&](uint64_t back) { return scenario_for(h, seed, f.index - back * nw, thorough); }, (f.index - f.first) / nw, 40);
            if (!before.empty()) { a = isolated(h, s, before); b = isolated(h, s, before); }
        }
        if (!a.violated || !same(a, b) || a.hash != b.hash) { errors.push_back("run " + std::to_string(f.index) + " (" + k + ") did not repeat: " + a.cls + " / " + b.cls); continue; }
        auto ex = with_schedule(s, a);
        auto c = isolated(h, ex, before);
        if (!same(a, c)) { ex = s; c = a; }
        uint64_t tried = 0; auto m = minimise(h, ex, c, reported == 0 ? 40 : 10, tried, before);
        auto fin = isolated(h, m, before), fin2 = isolated(h, m, before);
        std::string safe = k; for (auto& ch : safe) { if (!std::isalnum(static_cast<unsigned char>(ch)) && ch != '-' && ch != '_') { ch = '_'; } }
        std::string path = std::string(outdir) + "/" + safe.substr(0, 120) + ".replay";
        {
            std::ofstream o(path);
            o << "# property " << h.property << "\n# key " << k << "\n# seed " << seed << " run " << f.index << " (" << s.ops.size() << " operations, minimised to " << m.ops.size() << " in " << tried << " tries)\n";
            std::istringstream ms(fin.msg); std::string l; int nl = 0; while (std::getline(ms, l) && nl++ < 30) { o << "# " << l << "\n"; }
            for (auto& b : before) { o << b.text() << "next\n"; }
            o << m.text();
        }
        std::string cmd = std::string("'") + self + "' " + h.property + " replay '" + path + "'";
        FILE* p = popen(cmd.c_str(), "r"); std::string out; char buf[512]; while (p && fgets(buf, sizeof buf, p)) { out += buf; }
        int rc = p ? pclose(p) : -1;
        char hx[32]; std::snprintf(hx, sizeof hx, "%016" PRIx64, fin.hash);
        if (fin.hash != fin2.hash || !WIFEXITED(rc) || WEXITSTATUS(rc) != 1 || out.find("key=" + k + " ") == std::string::npos || out.find(hx) == std::string::npos) {
            errors.push_back("the replay of " + path + " did not reproduce " + k + ": " + out.substr(0, 300)); continue;
        }
        ++reported;
        std::printf("violation key: %s (%" PRIu64 " runs)\n  %s\n", k.c_str(), hits[k], fin.msg.substr(0, 600).c_str());
        lines.push_back(std::string("VIOLATION property=") + h.property + " replay=" + path);
    }

    if (*evid) {
        std::ofstream o(evid);
        const double rs = std::max(run_s, 0.001);
        o << "{\n  \"property\": " << json(h.property) << ",\n  \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n  \"seed\": " << seed
          << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << evals << ",\n    \"distinct_nontrivial\": " << distinct.size()
          << ",\n    \"rule\": " << json(h.rule) << ",\n    \"samples\": [";
        for (uint64_t i = 0; i < 2; ++i) { o << (i ? ", " : "") << json(scenario_for(h, seed, i, thorough).text().substr(0, 1500)); }
        o << "],\n    \"runs_planned\": " << runs << ",\n    \"stopped_by_wall_clock\": " << (out_of_time ? "true" : "false")
          << ",\n    \"runs_per_hour\": " << static_cast<uint64_t>(static_cast<double>(evals) / rs * 3600) << ",\n    \"seeds_per_hour\": " << static_cast<uint64_t>(static_cast<double>(evals) / rs * 3600)
          << ",\n    \"simulated_steps\": " << steps << ",\n    \"simulated_time\": \"the code under test reads no clock; simulated time is counted in steps (seam crossings)\""
          << ",\n    \"logged_events\": " << events << ",\n    \"distinct_states\": " << states.size() << ",\n    \"states_not_recorded\": " << dropped
          << ",\n    \"slowest_run_cpu_ms\": " << slowest << ",\n    \"determinism_reruns\": " << det << ",\n    \"determinism_mismatches\": " << det_bad
          << ",\n    \"components\": " << json(h.components) << ",\n    \"known_finding_hits\": " ;
        uint64_t kh = 0; for (auto& [k, n] : known_hits) { kh += n; } o << kh;
        o << ",\n    \"faults_injected\": {";
        bool first = true; for (auto& [k, n] : ctr) { if (!k.compare(0, 6, "fault.")) { o << (first ? "" : ", ") << json(k.substr(6)) << ": " << n; first = false; } }
        o << "},\n    \"probes\": {";
        first = true; for (auto& [k, n] : ctr) { if (k.compare(0, 6, "fault.")) { o << (first ? "" : ", ") << json(k) << ": " << n; first = false; } }
        o << "}\n  },\n  \"assumptions\": [\"sampled search: a clean batch is evidence, not proof\", \"components: see coverage.components\"],\n  \"wall_s\": " << secs() + build_s << ",\n  \"violations\": " << lines.size() << "\n}\n";
    }
    std::printf("SIM done: %" PRIu64 " runs in %.1f s, %zu distinct non-trivial, %zu states, %" PRIu64 " steps, at most %" PRIu64 " ms of CPU for one run, determinism %" PRIu64 "/%" PRIu64 " ok\n", evals, run_s, distinct.size(), states.size(), steps, slowest, det - det_bad, det);
    for (auto& [k, n] : known_hits) { std::printf("known finding met in %" PRIu64 " runs: %s\n", n, k.c_str()); }
    for (auto& e : errors) { std::printf("ERROR: %s\n", e.c_str()); }
    for (auto& l : lines) { std::printf("%s\n", l.c_str()); }
    if (!lines.empty()) { return 1; }
    if (!errors.empty()) { return 2; }
    if (det_bad) { std::printf("ERROR: %" PRIu64 " of %" PRIu64 " runs did not repeat, for example:\n%s\n", det_bad, det, det_msg.c_str()); return 2; }
    if (evals < runs / 20) { std::printf("ERROR: only %" PRIu64 " of %" PRIu64 " runs done in time\n", evals, runs); return 2; }
    return 0;
}

} // namespace sim
