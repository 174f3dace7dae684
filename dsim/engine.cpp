// Driver of the simulator: batches of seeded runs, replay, minimisation.
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/single_threaded.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <regex>
#include <set>
#include <sstream>

#include "rt.hpp"

namespace sim {
void RunLoop(std::function<void()> main_fn);
json CollectResult();
json CollectTrace();
}  // namespace sim
using namespace sim;

namespace {
int g_out_fd = -1;
bool g_want_trace = false;

void PutResult(std::string const& s);

void CrashHandler(int sig) {
    static volatile sig_atomic_t in = 0;
    if (in != 0) {
        _exit(99);
    }
    in = 1;
    auto* cur = g_cur;
    g_cur = nullptr;
    g_active = false;
    void* bt[24];
    int const n = backtrace(bt, 24);
    char** names = backtrace_symbols(bt, n);
    std::string msg = "signal " + std::to_string(sig) + " in thread f" +
                      std::to_string(cur != nullptr ? cur->id : -1) + ":";
    for (int i = 2; i < n and i < 16; ++i) {
        std::string s = names != nullptr ? names[i] : "?";
        auto p = s.rfind('/');
        msg += " | " + (p == std::string::npos ? s : s.substr(p + 1));
    }
    g_result.status = sig == SIGALRM ? "timeout" : "crash";
    g_result.prop = Ctx().prop;
    g_result.msg = msg;
    json r = CollectResult();
    if (g_want_trace or true) {
        r["trace"] = CollectTrace();
    }
    PutResult(r.dump(-1, ' ', false, json::error_handler_t::replace));
    _exit(0);
}

json SchedToJson(SchedCfg const& s) {
    return {{"mode", s.mode},
            {"p_sync", s.p_sync},
            {"p_mem", s.p_mem},
            {"p_sys", s.p_sys},
            {"pct_d", s.pct_d},
            {"pct_len", s.pct_len},
            {"spurious", s.spurious},
            {"trace", s.trace}};
}
json FaultsToJson(FaultCfg const& f) {
    json r = json::object();
    for (int i = 1; i < kNumFaults; ++i) {
        if (f.rate[i] > 0) {
            r[kFaultNames[i]] = f.rate[i];
        }
    }
    return {{"rates", r},
            {"max", f.max_faults},
            {"skip", f.skip},
            {"use_trace", f.use_trace},
            {"trace", f.trace}};
}
json CtxToJson(RunCtx const& c) {
    return {{"harness", c.harness},
            {"prop", c.prop},
            {"seed", c.seed},
            {"workload", c.workload},
            {"sched", SchedToJson(c.sched)},
            {"faults", FaultsToJson(c.faults)},
            {"max_steps", c.max_steps}};
}
void CtxFromJson(json const& j, RunCtx* c) {
    c->harness = j.at("harness");
    c->prop = j.at("prop");
    c->seed = j.at("seed");
    c->workload = j.at("workload");
    c->max_steps = j.at("max_steps");
    auto const& s = j.at("sched");
    c->sched.mode = s.at("mode");
    c->sched.p_sync = s.at("p_sync");
    c->sched.p_mem = s.at("p_mem");
    c->sched.p_sys = s.at("p_sys");
    c->sched.pct_d = s.at("pct_d");
    c->sched.pct_len = s.at("pct_len");
    c->sched.spurious = s.at("spurious");
    c->sched.trace =
        s.at("trace").get<std::vector<std::pair<std::uint64_t, int>>>();
    auto const& f = j.at("faults");
    for (int i = 1; i < kNumFaults; ++i) {
        c->faults.rate[i] = f.at("rates").value(kFaultNames[i], 0.0);
    }
    c->faults.max_faults = f.at("max");
    c->faults.skip = f.value("skip", std::uint64_t{0});
    c->faults.use_trace = f.at("use_trace");
    c->faults.trace =
        f.at("trace").get<std::vector<std::array<std::int64_t, 3>>>();
}

// Execute one run in this process (does not return)
[[noreturn]] void ChildRun(RunCtx const& ctx, int out, bool want_trace) {
    g_out_fd = out;
    g_want_trace = want_trace;
    stack_t ss{};
    ss.ss_size = 256 * 1024;
    ss.ss_sp = mmap(nullptr,
                    ss.ss_size,
                    PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS,
                    -1,
                    0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = CrashHandler;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) {
        sigaction(s, &sa, nullptr);
    }
    alarm(120);
    Ctx() = ctx;
    auto const& h = GetHarness();
    RunLoop([&h]() { h.run(Ctx()); });
    alarm(0);
    json r = CollectResult();
    bool const bad = g_result.status != "ok";
    if (want_trace or bad) {
        r["trace"] = CollectTrace();
    }
    PutResult(r.dump(-1, ' ', false, json::error_handler_t::replace));
    _exit(0);
}

// A zygote process, forked right after set-up, forks one child per run, so
// that every run starts from the same process image, independent of the runs
// before it and of the mode of the engine.
struct Shared {
    std::uint64_t want_trace;
    std::uint64_t req_len;
    std::uint64_t res_len;
    char data[1];
};
constexpr std::size_t kShmSize = 256UL << 20U;
Shared* g_shm = nullptr;
int g_to_z = -1;
int g_from_z = -1;

void CtxFromJson(json const& j, RunCtx* c);

void StartZygote() {
    g_shm = static_cast<Shared*>(mmap(nullptr,
                                      kShmSize,
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                      -1,
                                      0));
    int a[2];
    int b[2];
    if (pipe(a) != 0 or pipe(b) != 0) {
        _exit(2);
    }
    std::cout.flush();
    pid_t const pid = fork();
    if (pid != 0) {
        close(a[0]);
        close(b[1]);
        g_to_z = a[1];
        g_from_z = b[0];
        return;
    }
    close(a[1]);
    close(b[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    while (true) {
        char c = 0;
        if (read(a[0], &c, 1) != 1) {
            _exit(0);
        }
        pid_t const k = fork();
        if (k == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(a[0]);
            close(b[1]);
            RunCtx ctx;
            CtxFromJson(json::parse(g_shm->data, g_shm->data + g_shm->req_len),
                        &ctx);
            ChildRun(ctx, -1, g_shm->want_trace != 0);
        }
        int st = 0;
        while (waitpid(k, &st, 0) < 0 and errno == EINTR) {
        }
        if (write(b[1], &st, sizeof st) != sizeof st) {
            _exit(0);
        }
    }
}

json CtxToJson(RunCtx const& c);

json RunForked(RunCtx const& ctx, bool want_trace) {
    auto const req = CtxToJson(ctx).dump();
    g_shm->want_trace = want_trace ? 1 : 0;
    g_shm->req_len = req.size();
    g_shm->res_len = 0;
    std::memcpy(g_shm->data, req.data(), req.size());
    int st = 0;
    if (write(g_to_z, "r", 1) != 1 or
        read(g_from_z, &st, sizeof st) != sizeof st) {
        return {{"status", "engine_error"}, {"msg", "zygote died"}};
    }
    auto j = json::parse(g_shm->data, g_shm->data + g_shm->res_len, nullptr, false);
    if (g_shm->res_len == 0 or j.is_discarded()) {
        return {{"status", "engine_error"},
                {"seed", ctx.seed},
                {"msg", "no result, wait status " + std::to_string(st)}};
    }
    return j;
}

void PutResult(std::string const& s) {
    if (s.size() + sizeof(Shared) < kShmSize) {
        std::memcpy(g_shm->data, s.data(), s.size());
        g_shm->res_len = s.size();
    }
}

RunCtx MakeCtx(std::string const& prop, std::uint64_t seed) {
    RunCtx c;
    c.harness = GetHarness().name;
    c.prop = prop;
    c.seed = seed;
    Rng rng{seed ^ 0xabcdef12345ULL};
    SwarmSched(c, rng);
    GetHarness().gen(c, rng);
    return c;
}

RunCtx TraceCtx(RunCtx c, json const& trace) {
    c.sched.mode = 2;
    c.sched.trace = trace.at("switches")
                        .get<std::vector<std::pair<std::uint64_t, int>>>();
    c.faults.use_trace = true;
    c.faults.trace = trace.at("faults")
                         .get<std::vector<std::array<std::int64_t, 3>>>();
    return c;
}

double WallNow() {
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

// classification of a failing result
std::string ClassOf(json const& r) {
    auto const st = r.value("status", "");
    if (st == "ok" or st == "inconclusive" or st == "engine_error" or
        st == "timeout") {
        return "";
    }
    auto msg = r.value("msg", std::string{});
    // the violation kind is the text up to the first ':'
    auto k = msg.substr(0, msg.find(':'));
    if (st == "crash") {
        k = "crash";
    }
    if (st == "deadlock" or st == "steplimit") {
        k = "liveness";
    }
    return r.value("prop", std::string{}) + "/" + k;
}

struct Minimiser {
    double deadline;
    std::string cls;
    std::uint64_t tests = 0;
    json last;

    bool Test(RunCtx const& c) {
        if (WallNow() > deadline) {
            return false;
        }
        ++tests;
        auto r = RunForked(c, true);
        if (ClassOf(r) == cls) {
            last = r;
            return true;
        }
        return false;
    }
    // ddmin-like removal over vector v with setter
    template <class V, class F>
    void Shrink(V v, F&& apply) {
        std::size_t chunk = std::max<std::size_t>(1, v.size() / 2);
        while (not v.empty()) {
            bool any = false;
            for (std::size_t i = 0; i < v.size();) {
                V w;
                for (std::size_t k = 0; k < v.size(); ++k) {
                    if (k < i or k >= i + chunk) {
                        w.push_back(v[k]);
                    }
                }
                if (WallNow() > deadline) {
                    return;
                }
                if (apply(w)) {
                    v = w;
                    any = true;
                }
                else {
                    i += chunk;
                }
            }
            if (chunk == 1 and not any) {
                break;
            }
            if (chunk > 1) {
                chunk = (chunk + 1) / 2;
            }
        }
    }
    static void Arrays(json const& j,
                       json::json_pointer const& at,
                       std::vector<json::json_pointer>* out) {
        if (j.is_object()) {
            for (auto const& [k, v] : j.items()) {
                bool const ops = k.size() >= 3 and
                                 k.compare(k.size() - 3, 3, "ops") == 0;
                if (v.is_array() and ops) {
                    out->push_back(at / k);
                }
                Arrays(v, at / k, out);
            }
        }
        else if (j.is_array()) {
            for (std::size_t i = 0; i < j.size(); ++i) {
                Arrays(j[i], at / i, out);
            }
        }
    }
    // try fewer schedule switches, faults and workload steps
    RunCtx Minimise(RunCtx c) {
        for (int round = 0; round < 3; ++round) {
            auto const before = CtxToJson(c).dump().size();
            Shrink(c.faults.trace, [&](auto const& w) {
                auto d = c;
                d.faults.trace = w;
                if (Test(d)) {
                    c = d;
                    return true;
                }
                return false;
            });
            std::vector<json::json_pointer> ptrs;
            Arrays(c.workload, json::json_pointer{}, &ptrs);
            for (auto const& p : ptrs) {
                if (not c.workload.contains(p)) {
                    continue;
                }
                std::vector<json> v = c.workload.at(p);
                Shrink(v, [&](auto const& w) {
                    auto d = c;
                    d.workload.at(p) = w;
                    if (Test(d)) {
                        c = d;
                        return true;
                    }
                    return false;
                });
            }
            Shrink(c.sched.trace, [&](auto const& w) {
                auto d = c;
                d.sched.trace = w;
                if (Test(d)) {
                    c = d;
                    return true;
                }
                return false;
            });
            if (CtxToJson(c).dump().size() == before) {
                break;
            }
        }
        return c;
    }
};

std::string Arg(int argc, char** argv, char const* name, char const* def) {
    for (int i = 1; i + 1 < argc; ++i) {
        if (std::strcmp(argv[i], name) == 0) {
            return argv[i + 1];
        }
    }
    return def;
}
bool Flag(int argc, char** argv, char const* name) {
    for (int i = 1; i < argc; ++i) {
        if (std::strcmp(argv[i], name) == 0) {
            return true;
        }
    }
    return false;
}
}  // namespace

int main(int argc, char** argv) {
    // fixed address layout, fixed environment: the state every run starts from
    // is the same in every process
    if (getenv("DSIM_READY") == nullptr) {
        personality(ADDR_NO_RANDOMIZE | personality(0xffffffffUL));
        char ready[] = "DSIM_READY=1";
        char home[] = "HOME=/home/sim";
        char path[] = "PATH=/bin";
        char lang[] = "LANG=C.UTF-8";
        char* env[] = {ready, home, path, lang, nullptr};
        syscall(SYS_execve, "/proc/self/exe", argv, env);
        std::perror("execve");
        return 2;
    }
    __libc_single_threaded = 0;  // fibers are threads
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 28);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    if (argc < 2) {
        return 2;
    }
    std::string const mode = argv[1];
    std::string const prop = Arg(argc, argv, "--prop", "");
    // the same amount of set-up in every mode, so that heaps agree
    auto const& h = GetHarness();
    if (h.init != nullptr) {
        h.init();
    }
    g_trace_verbose = Flag(argc, argv, "--verbose");
    StartZygote();
    if (mode == "info") {
        json j;
        j["name"] = h.name;
        j["props"] = h.props;
        std::cout << j.dump() << "\n";
        return 0;
    }
    if (mode == "gen") {
        auto c = MakeCtx(prop, std::stoull(Arg(argc, argv, "--seed", "1")));
        std::cout << CtxToJson(c).dump() << "\n";
        return 0;
    }
    if (mode == "seed") {  // run one seed
        auto c = MakeCtx(prop, std::stoull(Arg(argc, argv, "--seed", "1")));
        auto r = RunForked(c, Flag(argc, argv, "--trace"));
        std::cout << r.dump() << "\n";
        return ClassOf(r).empty() ? 0 : 1;
    }
    if (mode == "replay") {
        std::ifstream in(Arg(argc, argv, "--file", ""));
        json j = json::parse(in);
        RunCtx c;
        CtxFromJson(j.contains("run") ? j["run"] : j, &c);
        auto r = RunForked(c, true);
        r["class"] = ClassOf(r);
        std::cout << r.dump() << "\n";
        return ClassOf(r).empty() ? 0 : 1;
    }
    if (mode == "minimise") {
        // from seed to minimised replay file
        auto const seed = std::stoull(Arg(argc, argv, "--seed", "1"));
        auto const budget = std::stod(Arg(argc, argv, "--budget", "60"));
        auto const out = Arg(argc, argv, "--out", "replay.json");
        auto c = MakeCtx(prop, seed);
        auto r1 = RunForked(c, true);
        auto r2 = RunForked(c, true);
        json rep;
        if (r1["hash"] != r2["hash"] or ClassOf(r1) != ClassOf(r2)) {
            rep["error"] = "run of the seed not repeatable";
            std::cout << rep.dump() << "\n";
            return 3;
        }
        if (ClassOf(r1).empty()) {
            rep["error"] = "seed does not fail";
            std::cout << rep.dump() << "\n";
            return 3;
        }
        Minimiser m;
        m.deadline = WallNow() + budget;
        m.cls = ClassOf(r1);
        auto t = TraceCtx(c, r1["trace"]);
        bool const faithful = m.Test(t);
        if (not faithful) {
            rep["error"] = "recorded trace does not replay";
            rep["cls"] = m.cls;
            rep["r1"] = r1;
            rep["got"] = RunForked(t, true);
            std::cout << rep.dump() << "\n";
            return 3;
        }
        rep["trace_hash_match"] = m.last["hash"] == r1["hash"];
        auto d = m.Minimise(t);
        auto fin = RunForked(d, true);
        rep["run"] = CtxToJson(d);
        rep["class"] = ClassOf(fin);
        rep["status"] = fin["status"];
        rep["msg"] = fin["msg"];
        rep["prop"] = fin["prop"];
        rep["hash"] = fin["hash"];
        rep["log"] = fin["trace"]["log"];
        rep["original"] = {{"seed", seed},
                           {"hash", r1["hash"]},
                           {"msg", r1["msg"]},
                           {"switches", r1["trace"]["switches"].size()},
                           {"faults", r1["trace"]["faults"].size()}};
        rep["minimised"] = {{"switches", d.sched.trace.size()},
                            {"faults", d.faults.trace.size()},
                            {"tests", m.tests}};
        std::ofstream o(out);
        o << rep.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
        json s = rep;
        s.erase("run");
        s.erase("log");
        std::cout << s.dump() << "\n";
        return 0;
    }
    if (mode == "batch") {
        auto const from = std::stoull(Arg(argc, argv, "--from", "1"));
        auto const stride = std::stoull(Arg(argc, argv, "--stride", "1"));
        auto const count = std::stoull(Arg(argc, argv, "--count", "1000000000"));
        auto const limit = std::stod(Arg(argc, argv, "--time", "30"));
        auto const dup = std::stoull(Arg(argc, argv, "--dup", "0"));
        auto const maxv = std::stoull(Arg(argc, argv, "--max-violations", "3"));
        // listed findings: counted, but not a reason to stop
        std::vector<std::string> known_re;
        for (int a = 0; a + 1 < argc; ++a) {
            if (std::string{argv[a]} == "--known") {
                known_re.emplace_back(argv[a + 1]);
            }
        }
        std::map<std::string, std::uint64_t> known_seen;
        double const t0 = WallNow();
        std::map<std::string, std::uint64_t> statuses;
        std::map<std::string, std::uint64_t> faults;
        std::map<std::string, std::uint64_t> probes;
        std::map<std::string, std::uint64_t> runs_with_fault;
        std::set<std::uint64_t> scheds;
        std::set<std::uint64_t> states;
        std::set<std::uint64_t> hashes;
        std::uint64_t runs = 0;
        std::uint64_t steps = 0;
        std::uint64_t switches = 0;
        std::uint64_t preempt = 0;
        std::uint64_t sysops = 0;
        std::uint64_t dups = 0;
        std::uint64_t dup_bad = 0;
        std::uint64_t nontriv = 0;
        long double simns = 0;
        json viol = json::array();
        json samples = json::array();
        json inconcl = json::array();
        json others = json::array();
        std::string hash_log;
        for (std::uint64_t i = 0; i < count; ++i) {
            if (WallNow() - t0 > limit) {
                break;
            }
            auto const seed = from + i * stride;
            auto c = MakeCtx(prop, seed);
            auto r = RunForked(c, false);
            ++runs;
            auto const st = r.value("status", std::string{"?"});
            ++statuses[st];
            steps += r.value("steps", 0ULL);
            switches += r.value("switches", 0ULL);
            preempt += r.value("preempt", 0ULL);
            sysops += r.value("sysops", 0ULL);
            simns += static_cast<long double>(r.value("simns", 0ULL));
            json const jf = r.value("faults", json::object());
            json const jp = r.value("probes", json::object());
            for (auto const& [k, v] : jf.items()) {
                faults[k] += v.get<std::uint64_t>();
                ++runs_with_fault[k];
            }
            for (auto const& [k, v] : jp.items()) {
                probes[k] += v.get<std::uint64_t>();
                if (k.starts_with("other_violation:") and others.size() < 5) {
                    others.push_back({{"seed", seed}, {"what", k}});
                }
            }
            bool const newsched = scheds.insert(r.value("sched", 0ULL)).second;
            bool const newhash = hashes.insert(r.value("hash", 0ULL)).second;
            if (newhash and
                (r.value("preempt", 0ULL) > 0 or
                 not r.value("faults", json::object()).empty())) {
                ++nontriv;
            }
            (void)newsched;
            for (auto const& s : r.value("states", json::array())) {
                if (states.size() < 200000) {
                    states.insert(s.get<std::uint64_t>());
                }
            }
            if (Flag(argc, argv, "--hashes")) {
                hash_log += std::to_string(seed) + " " +
                            std::to_string(r.value("hash", 0ULL)) + " " + st +
                            "\n";
            }
            if (samples.size() < 2 and st == "ok") {
                json s{{"seed", seed},
                       {"workload", c.workload},
                       {"sched", SchedToJson(c.sched)},
                       {"faults_injected", r["faults"]},
                       {"steps", r["steps"]},
                       {"switches", r["switches"]},
                       {"hash", r["hash"]}};
                if (s.dump().size() < 6000) {
                    samples.push_back(s);
                }
            }
            if (st == "inconclusive" or st == "engine_error" or
                st == "timeout") {
                if (inconcl.size() < 5) {
                    inconcl.push_back({{"seed", seed},
                                       {"status", st},
                                       {"msg", r.value("msg", "")}});
                }
            }
            if (dup != 0 and i % dup == 0) {
                auto r2 = RunForked(c, false);
                ++dups;
                if (r2.value("hash", 0ULL) != r.value("hash", 0ULL)) {
                    ++dup_bad;
                }
            }
            auto const cls = ClassOf(r);
            if (not cls.empty()) {
                bool const mine = r.value("prop", std::string{}) == prop;
                auto const k = std::find_if(
                    known_re.begin(), known_re.end(), [&r](auto const& x) {
                        return std::regex_search(r.value("msg", std::string{}),
                                                 std::regex{x});
                    });
                if (mine and st == "violation" and k != known_re.end()) {
                    ++known_seen[*k];
                    continue;
                }
                if (mine or st == "crash") {
                    viol.push_back({{"seed", seed},
                                    {"status", st},
                                    {"prop", r.value("prop", "")},
                                    {"msg", r.value("msg", "")},
                                    {"class", cls},
                                    {"hash", r["hash"]}});
                    if (viol.size() >= maxv) {
                        break;
                    }
                }
            }
        }
        json o;
        o["runs"] = runs;
        o["wall"] = WallNow() - t0;
        o["statuses"] = statuses;
        o["faults"] = faults;
        o["runs_with_fault"] = runs_with_fault;
        o["probes"] = probes;
        o["steps"] = steps;
        o["switches"] = switches;
        o["preempt"] = preempt;
        o["sysops"] = sysops;
        o["sim_seconds"] = static_cast<double>(simns / 1e9L);
        o["dups"] = dups;
        o["dup_mismatch"] = dup_bad;
        o["nontrivial"] = nontriv;
        o["scheds"] = std::vector<std::uint64_t>(scheds.begin(), scheds.end());
        o["states"] = std::vector<std::uint64_t>(states.begin(), states.end());
        o["violations"] = viol;
        o["samples"] = samples;
        o["inconclusive"] = inconcl;
        o["others"] = others;
        o["known"] = known_seen;
        if (not hash_log.empty()) {
            o["hashes"] = hash_log;
        }
        std::cout << o.dump(-1, ' ', false, json::error_handler_t::replace)
                  << "\n";
        return 0;
    }
    return 2;
}
