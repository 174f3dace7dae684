// Multithreading core: task system, async map, cycle detection, traverser,
// lazily created values, retries (C01-C06). All threads are simulated.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <map>
#include <mutex>
#include <set>
#include <thread>

#include <grpcpp/grpcpp.h>

#include "dsim/sim.hpp"
#include "src/buildtool/common/action_description.hpp"
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/remote/retry.hpp"
#include "src/buildtool/common/remote/retry_config.hpp"
#include "src/buildtool/execution_engine/dag/dag.hpp"
#include "src/buildtool/execution_engine/traverser/traverser.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/multithreading/async_map_consumer.hpp"
#include "src/buildtool/multithreading/async_map_utils.hpp"
#include "src/buildtool/multithreading/atomic_value.hpp"
#include "src/buildtool/multithreading/task_system.hpp"
#include "src/utils/cpp/atomic.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;

namespace {
std::uint64_t MixHash(std::uint64_t a, std::uint64_t b) {
    a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6U) + (a >> 2U);
    a *= 0xff51afd7ed558ccdULL;
    return a ^ (a >> 33U);
}

void MaybeWork(json const& w) {
    int const k = w.is_number() ? w.get<int>() : 0;
    if (k == 1) {
        std::this_thread::yield();
    }
    else if (k > 1) {
        std::this_thread::sleep_for(std::chrono::milliseconds(k));
    }
}

// ------------------------------------------------------------------ C01
// workload: threads, rounds: [{ops: [task...], ext: [{ops:[task...]}],
//   waiters: n}], shutdown: task id or -1
// task: {id, w: work, w2, kids: [task...]}
json GenTask(Rng& r, int* id, int depth) {
    json t{{"id", (*id)++},
           {"w", r.Chance(0.3) ? r.Range(1, 20) : 0},
           {"w2", r.Chance(0.15) ? r.Range(1, 20) : 0}};
    json kids = json::array();
    if (depth < 4) {
        auto n = r.Chance(0.5) ? r.Range(0, 3) : 0;
        for (int i = 0; i < n; ++i) {
            kids.push_back(GenTask(r, id, depth + 1));
        }
    }
    t["kops"] = kids;
    return t;
}
void Gen01(RunCtx& c, Rng& r) {
    json w;
    w["threads"] = r.Chance(0.5) ? r.Range(1, 3) : r.Range(1, 8);
    int id = 0;
    json rounds = json::array();
    auto nr = r.Range(1, 3);
    for (int k = 0; k < nr; ++k) {
        json rd;
        json ops = json::array();
        auto n = r.Chance(0.1) ? 0 : r.Range(1, r.Chance(0.2) ? 25 : 6);
        for (int i = 0; i < n; ++i) {
            ops.push_back(GenTask(r, &id, r.Chance(0.5) ? 4 : 0));
        }
        rd["ops"] = ops;
        json ext = json::array();
        auto ne = r.Chance(0.6) ? 0 : r.Range(1, 3);
        for (int e = 0; e < ne; ++e) {
            json eo = json::array();
            auto m = r.Range(1, 4);
            for (int i = 0; i < m; ++i) {
                eo.push_back(GenTask(r, &id, 3));
            }
            ext.push_back({{"ops", eo}});
        }
        rd["ext"] = ext;
        rd["early_wait"] = r.Chance(0.3);
        rd["waiters"] = r.Chance(0.7) ? 0 : r.Range(1, 2);
        rd["pause"] = r.Chance(0.3) ? r.Range(1, 30) : 0;
        rounds.push_back(rd);
    }
    w["rounds"] = rounds;
    w["final_finish"] = r.Chance(0.6);
    w["shutdown"] = r.Chance(0.2) ? r.Range(0, std::max(0, id - 1)) : -1;
    c.workload = w;
}

struct T01 {
    std::map<int, int> started;
    std::map<int, int> finished;
    std::set<int> queued;
    std::atomic<bool> shut{false};
    int running = 0;
    TaskSystem* ts = nullptr;
    int shutdown_at = -1;

    void Queue(json const& t) {
        int const id = t["id"];
        {
            sim::Quiet q;
            queued.insert(id);
        }
        ts->QueueTask([this, &t]() { Run(t); });
    }
    void Run(json const& t) {
        int const id = t["id"];
        {
            sim::Quiet q;
            ++running;
            if (++started[id] > 1) {
                Violation("C01",
                          "task run twice: task " + std::to_string(id));
            }
            if (not queued.contains(id)) {
                Violation("C01", "unknown task run: " + std::to_string(id));
            }
        }
        MaybeWork(t["w"]);
        for (auto const& k : t["kops"]) {
            Queue(k);
        }
        if (id == shutdown_at) {
            shut = true;
            ts->Shutdown();
        }
        MaybeWork(t["w2"]);
        sim::Quiet q;
        --running;
        ++finished[id];
    }
    void CheckDone(std::string const& where) {
        sim::Quiet q;
        if (shut) {
            return;
        }
        if (running != 0) {
            Violation("C01",
                      "wait returned while tasks run: " + where + ", " +
                          std::to_string(running) + " running");
        }
        for (auto id : queued) {
            if (finished[id] != 1) {
                Violation("C01",
                          "wait returned before all tasks ran: " + where +
                              ", task " + std::to_string(id) + " finished " +
                              std::to_string(finished[id]) + " times");
            }
        }
    }
};
void Run01(json const& w) {
    T01 t;
    t.shutdown_at = w["shutdown"];
    {
        TaskSystem ts{w["threads"].get<std::size_t>()};
        t.ts = &ts;
        if (ts.NumberOfThreads() != w["threads"].get<std::size_t>()) {
            Violation("C01", "number of threads wrong");
        }
        int round = 0;
        for (auto const& rd : w["rounds"]) {
            std::vector<std::thread> ext;
            for (auto const& e : rd["ext"]) {
                ext.emplace_back([&t, &e]() {
                    for (auto const& k : e["ops"]) {
                        t.Queue(k);
                    }
                });
            }
            for (auto const& k : rd["ops"]) {
                t.Queue(k);
            }
            MaybeWork(rd["pause"]);
            if (rd["early_wait"].get<bool>()) {
                // others may still be queueing: only has to return
                ts.Finish();
            }
            for (auto& e : ext) {
                e.join();
            }
            std::vector<std::thread> waiters;
            for (int i = 0; i < rd["waiters"].get<int>(); ++i) {
                waiters.emplace_back([&t, &ts]() {
                    ts.Finish();
                    t.CheckDone("second waiter");
                });
            }
            if (round + 1 < static_cast<int>(w["rounds"].size()) or
                w["final_finish"].get<bool>()) {
                ts.Finish();
                t.CheckDone("round " + std::to_string(round));
            }
            for (auto& e : waiters) {
                e.join();
            }
            ++round;
        }
    }
    t.CheckDone("destructor");
    sim::Quiet q;
    if (t.running != 0) {
        Violation("C01", "task system destroyed while a task runs:");
    }
    sim::Probe("tasks_run", t.finished.size());
    if (t.shut) {
        sim::Probe("shutdown_runs");
    }
}

// ------------------------------------------------------------------ C02/C03
// workload: threads, keys: [{deps: [[..],[..]], mode}], reqs: [[keys]..] per
// round
void GenMap(RunCtx& c, Rng& r, bool cyc) {
    json w;
    w["threads"] = r.Chance(0.5) ? r.Range(1, 3) : r.Range(2, 6);
    w["jobs"] = r.Range(0, 3);
    int const n = static_cast<int>(r.Range(1, r.Chance(0.3) ? 30 : 9));
    bool const with_fail = not cyc and r.Chance(0.5);
    bool const cyclic = cyc and r.Chance(0.7);
    json keys = json::array();
    std::vector<int> perm(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) {
        perm[static_cast<std::size_t>(i)] = i;
    }
    double const dens = r.Chance(0.5) ? 0.25 : 0.6;
    for (int k = 0; k < n; ++k) {
        json groups = json::array();
        int const ng = r.Chance(0.25) ? 2 : 1;
        for (int g = 0; g < ng; ++g) {
            json deps = json::array();
            if (not r.Chance(0.15)) {
                for (int d = 0; d < k; ++d) {
                    if (r.Chance(std::min(0.9, dens * 4.0 / (k + 1)))) {
                        deps.push_back(d);
                    }
                }
                if (r.Chance(0.1) and k > 0) {  // duplicate request
                    deps.push_back(r.Below(static_cast<std::uint64_t>(k)));
                }
                if (deps.size() > 1 and r.Chance(0.5)) {
                    std::swap(deps[0], deps[r.Below(deps.size())]);
                }
            }
            groups.push_back(deps);
        }
        int mode = 0;
        if (with_fail and r.Chance(0.2)) {
            mode = static_cast<int>(r.Range(1, 3));
        }
        keys.push_back({{"deps", groups},
                        {"mode", mode},
                        {"async", r.Chance(0.2)},
                        {"w", r.Chance(0.3) ? r.Range(1, 12) : 0}});
    }
    if (cyclic) {
        auto nb = r.Range(1, 3);
        for (int i = 0; i < nb; ++i) {
            auto a = r.Below(static_cast<std::uint64_t>(n));
            auto b = r.Below(static_cast<std::uint64_t>(n));
            if (a > b) {
                std::swap(a, b);
            }
            auto& grp = keys[a]["deps"][r.Below(keys[a]["deps"].size())];
            grp.insert(grp.begin() + static_cast<long>(r.Below(grp.size() + 1)),
                       b);
        }
    }
    w["keys"] = keys;
    json rounds = json::array();
    auto nr = r.Range(1, 2);
    for (int i = 0; i < nr; ++i) {
        json reqs = json::array();
        auto m = r.Range(1, 5);
        for (int k = 0; k < m; ++k) {
            json rq = json::array();
            auto s = r.Chance(0.05) ? 0 : r.Range(1, 5);
            for (int j = 0; j < s; ++j) {
                rq.push_back(r.Chance(0.4)
                                 ? n - 1
                                 : static_cast<int>(r.Below(
                                       static_cast<std::uint64_t>(n))));
            }
            reqs.push_back({{"kops", rq}, {"ext", r.Chance(0.4)}});
        }
        rounds.push_back({{"ops", reqs}, {"newts", r.Chance(0.5)}});
    }
    w["rounds"] = rounds;
    w["clear"] = r.Chance(0.3);
    c.workload = w;
}
struct MapRef {
    json keys;
    std::vector<int> st;  // 0 unknown 1 busy 2 ok 3 fail 4 cyclic
    std::vector<std::uint64_t> val;
    explicit MapRef(json const& k)
        : keys(k), st(k.size(), 0), val(k.size(), 0) {}
    // value and success of key (acyclic part)
    int Eval(std::size_t k) {
        if (st[k] == 1) {
            return 4;
        }
        if (st[k] != 0) {
            return st[k];
        }
        st[k] = 1;
        std::uint64_t h = k * 77 + 5;
        int res = 2;
        int const mode = keys[k]["mode"];
        if (mode == 1) {
            res = 3;
        }
        else {
            for (auto const& g : keys[k]["deps"]) {
                for (auto const& d : g) {
                    int const s = Eval(d.get<std::size_t>());
                    if (s == 4) {
                        res = 4;
                    }
                    if (s == 3 and res == 2) {
                        res = 3;
                    }
                    h = MixHash(h, val[d.get<std::size_t>()]);
                }
            }
            if (mode >= 2 and res == 2) {
                res = 3;
            }
        }
        st[k] = res;
        val[k] = h;
        return res;
    }
    // all keys (transitively) on or leading to a cycle
    bool ReachesCycle(std::size_t k) {
        std::vector<int> col(keys.size(), 0);
        std::function<bool(std::size_t)> dfs = [&](std::size_t x) {
            if (col[x] == 1) {
                return true;
            }
            if (col[x] == 2) {
                return false;
            }
            col[x] = 1;
            for (auto const& g : keys[x]["deps"]) {
                for (auto const& d : g) {
                    if (dfs(d.get<std::size_t>())) {
                        return true;
                    }
                }
            }
            col[x] = 2;
            return false;
        };
        return dfs(k);
    }
};
void RunMap(json const& w, std::string const& prop) {
    using Map = AsyncMapConsumer<int, std::uint64_t>;
    json const keys = w["keys"];
    MapRef ref{keys};
    std::map<int, int> created;
    std::map<int, std::set<int>> dep_of;
    auto creator = [&](auto ts, auto setter, auto logger, auto sub, int k) {
        json const* e = nullptr;
        int mode = 0;
        {
            sim::Quiet q;
            if (++created[k] > 1) {
                Violation(prop == "C03" ? "C02" : prop,
                          "key computed twice: key " + std::to_string(k));
            }
            e = &keys[static_cast<std::size_t>(k)];
            mode = (*e)["mode"];
        }
        MaybeWork((*e)["w"]);
        if (mode == 1) {
            (*logger)("fail " + std::to_string(k), true);
            return;
        }
        auto h = std::make_shared<std::uint64_t>(
            static_cast<std::uint64_t>(k) * 77 + 5);
        auto finish = [=]() {
            if (mode >= 2) {
                if (mode == 3) {
                    (*logger)("warn " + std::to_string(k), false);
                }
                (*logger)("fail " + std::to_string(k), true);
                return;
            }
            if ((*e)["async"].template get<bool>()) {
                ts->QueueTask([=]() { (*setter)(std::uint64_t{*h}); });
            }
            else {
                (*setter)(std::uint64_t{*h});
            }
        };
        auto first = (*e)["deps"][0].template get<std::vector<int>>();
        auto take = [h, e, prop](std::size_t g, auto const& values) {
            sim::Quiet q;
            auto const& d = (*e)["deps"][g];
            if (values.size() != d.size()) {
                Violation(prop, "wrong number of values delivered:");
                return;
            }
            for (auto const* v : values) {
                *h = MixHash(*h, *v);
            }
        };
        (*sub)(
            first,
            [=](auto const& values) {
                take(0, values);
                if ((*e)["deps"].size() > 1) {
                    auto second = (*e)["deps"][1].template get<std::vector<int>>();
                    (*sub)(
                        second,
                        [=](auto const& v2) {
                            take(1, v2);
                            finish();
                        },
                        logger);
                }
                else {
                    finish();
                }
            },
            logger);
    };
    Map map{creator, w["jobs"].get<std::size_t>()};
    struct Req {
        std::vector<int> ks;
        int consumed = 0;
        int failed = 0;
        int fatal = 0;
        std::vector<std::uint64_t> got;
    };
    std::deque<Req> all;
    auto ts = std::make_unique<TaskSystem>(w["threads"].get<std::size_t>());
    for (auto const& rd : w["rounds"]) {
        if (rd["newts"].get<bool>()) {
            ts = nullptr;
            ts = std::make_unique<TaskSystem>(w["threads"].get<std::size_t>());
        }
        std::vector<std::thread> ext;
        for (auto const& rq : rd["ops"]) {
            auto* req = &all.emplace_back();
            req->ks = rq["kops"].get<std::vector<int>>();
            auto issue = [&map, req, &prop, t = ts.get()]() {
                map.ConsumeAfterKeysReady(
                    t,
                    req->ks,
                    [req, &prop](auto const& values) {
                        sim::Quiet q;
                        if (++req->consumed > 1) {
                            Violation(prop, "consumer called twice:");
                        }
                        for (auto const* v : values) {
                            req->got.push_back(*v);
                        }
                    },
                    [req](auto const& msg, bool fatal) {
                        sim::Quiet q;
                        if (fatal) {
                            ++req->fatal;
                        }
                    },
                    [req]() {
                        sim::Quiet q;
                        ++req->failed;
                    });
            };
            if (rq["ext"].get<bool>()) {
                ext.emplace_back(issue);
            }
            else {
                issue();
            }
        }
        for (auto& e : ext) {
            e.join();
        }
        ts->Finish();
        // judgement
        std::set<int> pending;
        std::optional<std::vector<int>> cycle;
        {
            sim::Quiet q;
            for (auto k : map.GetPendingKeys()) {
                pending.insert(k);
            }
            cycle = map.DetectCycle();
        }
        sim::Quiet q;
        bool any_cycle = false;
        std::set<int> needed;
        std::function<void(int)> need = [&](int k) {
            if (not needed.insert(k).second) {
                return;
            }
            if (keys[static_cast<std::size_t>(k)]["mode"] == 1) {
                return;
            }
            // a later group is only requested once the earlier ones succeeded
            for (auto const& g : keys[static_cast<std::size_t>(k)]["deps"]) {
                bool ok = true;
                for (auto const& d : g) {
                    need(d);
                    ok = ok and ref.Eval(d.get<std::size_t>()) == 2;
                }
                if (not ok) {
                    break;
                }
            }
        };
        for (auto const& rq : all) {
            for (auto k : rq.ks) {
                need(k);
                any_cycle = any_cycle or
                            ref.ReachesCycle(static_cast<std::size_t>(k));
            }
        }
        if (cycle.has_value() != any_cycle) {
            Violation("C03",
                      std::string{any_cycle ? "cycle not reported:"
                                            : "cycle reported for acyclic "
                                              "requests:"});
        }
        if (cycle) {
            auto const& c = *cycle;
            bool ok = c.size() >= 2;
            std::size_t start = c.size();
            for (std::size_t i = 0; ok and i + 1 < c.size(); ++i) {
                bool edge = false;
                for (auto const& g :
                     keys[static_cast<std::size_t>(c[i])]["deps"]) {
                    for (auto const& d : g) {
                        edge = edge or d.get<int>() == c[i + 1];
                    }
                }
                ok = ok and edge;
                if (c[i] == c.back() and start == c.size()) {
                    start = i;
                }
            }
            if (not ok or start == c.size()) {
                std::string s;
                for (auto k : c) {
                    s += " " + std::to_string(k);
                }
                Violation("C03", "reported keys form no cycle:" + s);
            }
            sim::Probe("cycles");
            auto txt = DetectAndReportCycle<int, std::uint64_t>(
                "test", map, [](int k) { return "<" + std::to_string(k) + ">"; });
            if (not txt or txt->find("`-- ") == std::string::npos or
                txt->find(".-> ") == std::string::npos) {
                Violation("C03", "cycle report incomplete:");
            }
        }
        if (any_cycle) {
            // requests not touching a cycle must still be delivered
            for (auto const& rq : all) {
                bool clean = true;
                for (auto k : rq.ks) {
                    clean = clean and
                            not ref.ReachesCycle(static_cast<std::size_t>(k));
                }
                if (not clean and rq.consumed != 0) {
                    Violation("C03", "value delivered for a cyclic request:");
                }
                if (clean and rq.consumed != 1) {
                    Violation("C02", "independent request not delivered:");
                }
            }
            break;
        }
        for (auto k : needed) {
            auto const s = ref.Eval(static_cast<std::size_t>(k));
            if (s == 2 and created[k] != 1) {
                Violation("C02",
                          "needed key not computed: key " + std::to_string(k));
            }
            if (s == 2 and pending.contains(k)) {
                Violation("C02",
                          "satisfiable key left pending: key " +
                              std::to_string(k));
            }
            if (s == 3 and not pending.contains(k) and created[k] > 0) {
                Violation("C02",
                          "failed key got a value: key " + std::to_string(k));
            }
        }
        for (auto const& [k, n] : created) {
            if (not needed.contains(k)) {
                Violation("C02",
                          "key not asked for was computed: key " +
                              std::to_string(k));
            }
        }
        int idx = 0;
        for (auto const& rq : all) {
            bool ok = true;
            std::vector<std::uint64_t> want;
            for (auto k : rq.ks) {
                ok = ok and ref.Eval(static_cast<std::size_t>(k)) == 2;
                want.push_back(ref.val[static_cast<std::size_t>(k)]);
            }
            auto const n = "request " + std::to_string(idx++);
            if (ok) {
                if (rq.consumed != 1) {
                    Violation("C02",
                              "consumer not called: " + n + " called " +
                                  std::to_string(rq.consumed));
                }
                if (rq.failed != 0) {
                    Violation("C02", "failure reported for success: " + n);
                }
                if (rq.got != want) {
                    Violation("C02", "wrong values delivered: " + n);
                }
            }
            else {
                sim::Probe("failed_requests");
                if (rq.consumed != 0) {
                    Violation("C02", "consumer called despite failure: " + n);
                }
                if (rq.failed == 0) {
                    Violation("C02", "failure not reported: " + n);
                }
            }
        }
    }
    if (w["clear"].get<bool>()) {
        TaskSystem t2{2};
        map.Clear(&t2);
        t2.Finish();
        sim::Quiet q;
        if (not map.GetPendingKeys().empty()) {
            Violation("C02", "keys left after clear:");
        }
    }
}

// ------------------------------------------------------------------ C04
void Gen04(RunCtx& c, Rng& r) {
    json w;
    int const n = static_cast<int>(r.Range(1, r.Chance(0.3) ? 25 : 8));
    json acts = json::array();
    std::vector<std::pair<int, int>> outs;  // (action, output)
    int const nsrc = static_cast<int>(r.Range(0, 4));
    for (int i = 0; i < n; ++i) {
        json in = json::array();
        int const k = static_cast<int>(r.Range(0, 4));
        for (int j = 0; j < k; ++j) {
            if (not outs.empty() and r.Chance(0.7)) {
                auto const& o = r.Pick(outs);
                in.push_back({o.first, o.second});
            }
            else if (nsrc > 0) {
                in.push_back(
                    {-1,
                     static_cast<int>(
                         r.Below(static_cast<std::uint64_t>(nsrc)))});
            }
        }
        int const no = static_cast<int>(r.Range(1, 3));
        for (int o = 0; o < no; ++o) {
            outs.emplace_back(i, o);
        }
        acts.push_back({{"inops", in},
                        {"outs", no},
                        {"dir", r.Chance(0.3)},
                        {"kind", r.Chance(0.2) ? 1 : 0},
                        {"w", r.Chance(0.4) ? r.Range(1, 15) : 0}});
    }
    w["acts"] = acts;
    w["srcs"] = nsrc;
    json req = json::array();
    bool const whole = r.Chance(0.2);
    auto m = r.Range(1, 4);
    for (int i = 0; i < m; ++i) {
        auto const& o = r.Pick(outs);
        req.push_back({o.first, o.second});
    }
    w["ops"] = req;
    w["whole"] = whole;
    w["missing"] = r.Chance(0.05);
    w["fail"] = r.Chance(0.3)
                    ? static_cast<int>(r.Below(static_cast<std::uint64_t>(n)))
                    : -1;
    w["failsrc"] = r.Chance(0.1) and nsrc > 0 ? 0 : -1;
    w["jobs"] = r.Chance(0.4) ? r.Range(1, 2) : r.Range(2, 6);
    w["again"] = r.Chance(0.2);
    c.workload = w;
}
struct Log04 {
    std::map<std::string, int> art_start, art_end, act_start, act_end;
    std::map<std::string, std::set<std::string>> act_inputs;
    std::map<std::string, std::vector<std::string>> act_outputs;
    std::set<std::string> avail;  // artifacts whose producing step completed
    std::map<std::string, int> work;
    std::set<std::string> fail_act, fail_art;
    bool any_fail = false;
};
class Runner04 {
  public:
    explicit Runner04(Log04* l) : l_{l} {}
    [[nodiscard]] auto Process(DependencyGraph::ActionNode const* a) const
        -> bool {
        auto const id = a->Content().Id();
        {
            sim::Quiet q;
            if (++l_->act_start[id] > 1) {
                Violation("C04", "action processed twice: " + id);
            }
            for (auto const& i : l_->act_inputs[id]) {
                if (not l_->avail.contains(i)) {
                    Violation("C04",
                              "action processed before its inputs: " + id);
                }
            }
        }
        MaybeWork(json(l_->work[id]));
        sim::Quiet q;
        if (l_->fail_act.contains(id)) {
            l_->any_fail = true;
            return false;
        }
        ++l_->act_end[id];
        for (auto const& o : l_->act_outputs[id]) {
            l_->avail.insert(o);
        }
        return true;
    }
    [[nodiscard]] auto Process(DependencyGraph::ArtifactNode const* a) const
        -> bool {
        auto const id = a->Content().Id();
        {
            sim::Quiet q;
            if (++l_->art_start[id] > 1) {
                Violation("C04", "artifact processed twice: " + id);
            }
        }
        sim::Point();
        sim::Quiet q;
        if (l_->fail_art.contains(id)) {
            l_->any_fail = true;
            return false;
        }
        ++l_->art_end[id];
        l_->avail.insert(id);
        return true;
    }

  private:
    Log04* l_;
};
void Run04(json const& w) {
    auto g = std::make_unique<DependencyGraph>();
    Log04 l;
    std::vector<ActionDescription> descs;
    auto aid = [](int i) { return "action" + std::to_string(i); };
    auto opath = [](int i, int o) {
        return "out" + std::to_string(i) + "_" + std::to_string(o);
    };
    auto art = [&](json const& j) {
        int const a = j[0];
        int const o = j[1];
        return a < 0 ? ArtifactDescription::CreateLocal(
                           "src" + std::to_string(o), "repo")
                     : ArtifactDescription::CreateAction(aid(a), opath(a, o));
    };
    // may have been removed by minimisation: ignore dangling references
    auto valid = [&](json const& j) {
        return j[0].get<int>() < 0 or
               (j[0].get<std::size_t>() < w["acts"].size() and
                j[1].get<int>() < w["acts"][j[0].get<std::size_t>()]["outs"]
                                     .get<int>());
    };
    std::map<std::string, std::string> builder;
    int i = 0;
    for (auto const& a : w["acts"]) {
        std::vector<std::string> files;
        std::vector<std::string> dirs;
        for (int o = 0; o < a["outs"].get<int>(); ++o) {
            (o > 0 and a["dir"].get<bool>() ? dirs : files)
                .push_back(opath(i, o));
            auto id = ArtifactDescription::CreateAction(aid(i), opath(i, o)).Id();
            l.act_outputs[aid(i)].push_back(id);
            builder[id] = aid(i);
        }
        ActionDescription::inputs_t in;
        int k = 0;
        for (auto const& x : a["inops"]) {
            if (valid(x)) {
                auto d = art(x);
                l.act_inputs[aid(i)].insert(d.Id());
                in.emplace("in" + std::to_string(k++), d);
            }
        }
        l.work[aid(i)] = a["w"];
        descs.emplace_back(files,
                           dirs,
                           Action{aid(i),
                                  std::vector<std::string>{"cmd"},
                                  std::map<std::string, std::string>{}},
                           in);
        ++i;
    }
    if (not g->Add(descs)) {
        Violation("C04", "graph refused:");
        return;
    }
    int const fa = w["fail"];
    if (fa >= 0) {
        l.fail_act.insert(aid(fa));
    }
    if (w["failsrc"].get<int>() >= 0) {
        l.fail_art.insert(
            ArtifactDescription::CreateLocal("src0", "repo").Id());
    }
    std::unordered_set<ArtifactIdentifier> ids;
    if (w["whole"].get<bool>()) {
        ids = g->ArtifactIdentifiers();
    }
    else {
        for (auto const& x : w["ops"]) {
            if (valid(x)) {
                ids.insert(art(x).Id());
            }
        }
    }
    // reference closure
    std::set<std::string> need_art;
    std::set<std::string> need_act;
    std::function<void(std::string const&)> need = [&](std::string const& x) {
        if (not need_art.insert(x).second) {
            return;
        }
        auto b = builder.find(x);
        if (b != builder.end() and need_act.insert(b->second).second) {
            for (auto const& d : l.act_inputs[b->second]) {
                need(d);
            }
        }
    };
    for (auto const& x : ids) {
        need(x);
    }
    bool const missing = w["missing"].get<bool>();
    if (missing) {
        ids.insert("no such artifact");
    }
    std::atomic<bool> failed{false};
    bool ret = false;
    {
        Runner04 runner{&l};
        Traverser<Runner04> t{
            runner, *g, w["jobs"].get<std::size_t>(), &failed};
        ret = t.Traverse(ids);
        if (w["again"].get<bool>() and ret) {
            ret = t.Traverse(ids);
        }
    }
    sim::Quiet q;
    bool const ok = ret and not failed;
    bool should_fail = missing;
    for (auto const& a : need_act) {
        should_fail = should_fail or l.fail_act.contains(a);
    }
    for (auto const& a : need_art) {
        should_fail = should_fail or
                      (l.fail_art.contains(a) and not builder.contains(a));
    }
    if (should_fail) {
        sim::Probe("failing_builds");
    }
    if (ok and should_fail) {
        Violation("C04", "success reported despite failed step:");
    }
    if (not ok and not should_fail) {
        Violation("C04", "failure reported though every step succeeded:");
    }
    for (auto const& [a, n] : l.act_start) {
        if (not need_act.contains(a)) {
            Violation("C04", "unneeded action processed: " + a);
        }
    }
    for (auto const& [a, n] : l.art_start) {
        if (not need_art.contains(a)) {
            Violation("C04", "unneeded artifact processed:");
        }
        if (builder.contains(a)) {
            Violation("C04", "built artifact processed as source:");
        }
    }
    if (ok) {
        for (auto const& a : need_act) {
            if (l.act_end[a] != 1) {
                Violation("C04", "needed action not processed: " + a);
            }
        }
        for (auto const& a : need_art) {
            if (not l.avail.contains(a)) {
                Violation("C04", "needed artifact not available:");
            }
        }
    }
}

// ------------------------------------------------------------------ C05
void Gen05(RunCtx& c, Rng& r) {
    json w;
    w["kind"] = r.Range(0, 3);
    w["threads"] = r.Range(2, 6);
    w["rounds"] = r.Range(1, 3);
    w["w"] = r.Chance(0.5) ? r.Range(1, 20) : 0;
    w["calls"] = r.Range(1, 3);
    json pre = json::array();
    for (int i = 0; i < 8; ++i) {
        pre.push_back(r.Chance(0.3) ? r.Range(1, 25) : 0);
    }
    w["pre"] = pre;
    json vals = json::array();
    auto n = r.Range(1, 5);
    for (int i = 0; i < n; ++i) {
        vals.push_back(r.Range(1, 9));
    }
    w["ops"] = vals;
    c.workload = w;
}
struct Big {
    std::uint64_t a[6];
    bool Ok() const {
        for (int i = 1; i < 6; ++i) {
            if (a[i] != a[0] + static_cast<std::uint64_t>(i)) {
                return false;
            }
        }
        return true;
    }
};
void Run05(json const& w) {
    int const kind = w["kind"];
    int const nt = w["threads"];
    if (kind <= 1) {
        AtomicValue<Big> val;
        for (int rd = 0; rd < w["rounds"].get<int>(); ++rd) {
            int made = 0;
            int in = 0;
            std::set<Big const*> ptrs;
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t) {
                ts.emplace_back([&, t]() {
                    MaybeWork(w["pre"][static_cast<std::size_t>(t)]);
                    for (int k = 0; k < w["calls"].get<int>(); ++k) {
                        auto const& v = val.SetOnceAndGet([&, t]() {
                            {
                                sim::Quiet q;
                                ++made;
                                if (++in > 1) {
                                    Violation("C05",
                                              "creator runs twice at a time:");
                                }
                            }
                            MaybeWork(w["w"]);
                            Big b{};
                            auto const base = static_cast<std::uint64_t>(
                                rd * 1000 + t * 10);
                            for (int i = 0; i < 6; ++i) {
                                b.a[i] = base + static_cast<std::uint64_t>(i);
                                sim::Point();
                            }
                            sim::Quiet q;
                            --in;
                            return b;
                        });
                        sim::Quiet q;
                        if (not v.Ok()) {
                            Violation("C05", "unfinished value handed out:");
                        }
                        ptrs.insert(&v);
                    }
                });
            }
            for (auto& t : ts) {
                t.join();
            }
            sim::Quiet q;
            if (made != 1) {
                Violation("C05",
                          "creator called " + std::to_string(made) +
                              " times:");
            }
            if (ptrs.size() != 1) {
                Violation("C05", "callers got different objects:");
            }
            if (not(*ptrs.begin())->Ok() or
                (*ptrs.begin())->a[0] / 1000 != static_cast<unsigned>(rd)) {
                Violation("C05", "value stale or damaged:");
            }
            val.Reset();
        }
        return;
    }
    // blocking waits return after the change
    if (kind == 2) {
        atomic<int> a{0};
        std::vector<std::thread> ts;
        int const last = static_cast<int>(w["ops"].size());
        for (int t = 0; t < nt; ++t) {
            ts.emplace_back([&, t]() {
                MaybeWork(w["pre"][static_cast<std::size_t>(t)]);
                int seen = 0;
                while (seen != last) {
                    a.wait(seen);
                    int const now = a.load();
                    sim::Quiet q;
                    if (now < seen or now == 0) {
                        Violation("C05", "wait returned without a change:");
                        return;
                    }
                    seen = now;
                }
            });
        }
        for (auto const& v : w["ops"]) {
            MaybeWork(v);
            if (v.get<int>() % 2 == 0) {
                ++a;
            }
            else {
                a.store(a.load() + 1);
            }
            a.notify_all();
        }
        for (auto& t : ts) {
            t.join();
        }
        return;
    }
    atomic_shared_ptr<Big> p;
    std::vector<std::thread> ts;
    auto const last = static_cast<std::uint64_t>(w["ops"].size());
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t]() {
            MaybeWork(w["pre"][static_cast<std::size_t>(t)]);
            std::shared_ptr<Big> seen;
            while (not seen or seen->a[0] != last) {
                p.wait(seen);
                auto now = p.load();
                sim::Quiet q;
                if (now == nullptr or now == seen or not now->Ok()) {
                    Violation("C05", "wait returned a wrong object:");
                    return;
                }
                seen = now;
            }
        });
    }
    for (std::uint64_t k = 1; k <= last; ++k) {
        MaybeWork(w["ops"][k - 1]);
        auto b = std::make_shared<Big>();
        for (int i = 0; i < 6; ++i) {
            b->a[i] = k + static_cast<std::uint64_t>(i);
        }
        if (k % 2 == 0) {
            p = b;
        }
        else {
            p.store(b);
        }
        p.notify_all();
    }
    for (auto& t : ts) {
        t.join();
    }
}

// ------------------------------------------------------------------ C06
void Gen06(RunCtx& c, Rng& r) {
    json w;
    w["threads"] = r.Range(1, 3);
    w["init"] = r.Chance(0.2) ? r.Range(1, 4294967295) : r.Range(1, 20);
    w["max"] = r.Chance(0.2) ? r.Range(1, 4294967295) : r.Range(1, 100);
    w["attempts"] = r.Chance(0.2) ? r.Range(1, 40) : r.Range(1, 8);
    if (w["init"].get<long>() > 1000000 or w["max"].get<long>() > 1000000) {
        // keep the simulated clock in its range (about 580 years)
        w["attempts"] = r.Range(1, 4);
        w["threads"] = 1;
    }
    w["grpc"] = r.Chance(0.5);
    json outs = json::array();
    bool const never = r.Chance(0.3);
    auto n = r.Range(1, 50);
    for (int i = 0; i < n; ++i) {
        // 0 retryable failure, 1 ok, 2 fatal, 3 other retryable, 4 throw
        outs.push_back(never or r.Chance(0.75) ? (r.Chance(0.5) ? 0 : 3)
                                               : r.Range(1, 2));
    }
    w["oops"] = outs;
    w["dur"] = r.Chance(0.5) ? r.Range(1, 3000) : 0;
    c.workload = w;
}
void Run06(json const& w) {
    auto cfg = RetryConfig::Builder{}
                   .SetInitialBackoffSeconds(w["init"].get<unsigned>())
                   .SetMaxBackoffSeconds(w["max"].get<unsigned>())
                   .SetMaxAttempts(w["attempts"].get<unsigned>())
                   .Build();
    if (not cfg) {
        Violation("C06", "valid configuration refused:");
        return;
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < w["threads"].get<int>(); ++t) {
        ts.emplace_back([&, t]() {
            Logger logger{"retry", std::vector<LogSinkFactory>{}};
            auto const attempts = w["attempts"].get<unsigned>();
            unsigned calls = 0;
            bool last_final = false;
            bool success = false;
            std::uint64_t prev_end = 0;
            std::uint64_t last_call_end = 0;
            std::uint64_t want_base = 0;
            auto outcome = [&]() -> int {
                std::uint64_t const now = sim::NowNs();
                sim::Quiet q;
                ++calls;
                if (last_final) {
                    Violation("C06", "attempt after a final answer:");
                }
                if (calls > attempts) {
                    Violation("C06", "more attempts than configured:");
                }
                if (calls > 1) {
                    // back-off before attempt `calls`
                    std::uint64_t base = w["init"].get<unsigned>();
                    for (unsigned k = 1; k + 1 < calls; ++k) {
                        base *= 2;
                        if (base >= w["max"].get<unsigned>()) {
                            base = w["max"].get<unsigned>();
                            break;
                        }
                    }
                    want_base = base;
                    auto const waited = now - prev_end;
                    if (waited < base * 1000000000ULL) {
                        Violation("C06",
                                  "waited less than the back-off: attempt " +
                                      std::to_string(calls) + " waited " +
                                      std::to_string(waited / 1000000) +
                                      " ms, back-off " + std::to_string(base));
                    }
                    if (w["threads"].get<int>() == 1 and
                        waited > (4 * base + 5) * 1000000000ULL) {
                        Violation("C06",
                                  "waited longer than back-off and jitter: " +
                                      std::to_string(waited / 1000000) +
                                      " ms, back-off " + std::to_string(base));
                    }
                }
                auto const& o = w["oops"];
                auto k = o.empty() ? 0
                                   : o[(calls - 1 +
                                        static_cast<unsigned>(t) * 3) %
                                       o.size()]
                                         .get<int>();
                return k;
            };
            auto done = [&](int k) {
                if (w["dur"].get<int>() > 0) {
                    std::this_thread::sleep_for(
                        std::chrono::milliseconds(w["dur"].get<int>()));
                }
                last_final = k == 1 or k == 2;
                success = k == 1;
                prev_end = sim::NowNs();
                last_call_end = prev_end;
            };
            bool res = false;
            if (w["grpc"].get<bool>()) {
                grpc::StatusCode last{};
                auto [ok, st] = WithRetry(
                    [&]() -> grpc::Status {
                        int const k = outcome();
                        auto const code = k == 1 ? grpc::StatusCode::OK
                                          : k == 2
                                              ? grpc::StatusCode::INTERNAL
                                          : k == 0
                                              ? grpc::StatusCode::UNAVAILABLE
                                              : grpc::StatusCode::
                                                    DEADLINE_EXCEEDED;
                        last = code;
                        done(k);
                        return grpc::Status{code, "x"};
                    },
                    *cfg,
                    logger);
                res = ok;
                if (st.error_code() != last) {
                    Violation("C06", "status is not that of last attempt:");
                }
            }
            else {
                res = WithRetry(
                    [&]() -> RetryResponse {
                        int const k = outcome();
                        done(k);
                        return RetryResponse{k == 1,
                                             k == 2,
                                             k == 1 ? std::nullopt
                                                    : std::optional{
                                                          std::string{"e"}}};
                    },
                    *cfg,
                    logger);
            }
            auto const end = sim::NowNs();
            sim::Quiet q;
            if (res != success) {
                Violation("C06", "reported result differs from last attempt:");
            }
            if (not last_final and calls != attempts) {
                Violation("C06",
                          "gave up early: after " + std::to_string(calls));
            }
            if (w["threads"].get<int>() == 1 and
                end - last_call_end > 900000000ULL) {
                Violation("C06", "waited after the last attempt:");
            }
            sim::Probe("attempts", calls);
        });
    }
    for (auto& t : ts) {
        t.join();
    }
}

void Gen(RunCtx& c, Rng& r) {
    if (c.prop == "C01") {
        Gen01(c, r);
    }
    else if (c.prop == "C02") {
        GenMap(c, r, false);
    }
    else if (c.prop == "C03") {
        GenMap(c, r, true);
    }
    else if (c.prop == "C04") {
        Gen04(c, r);
    }
    else if (c.prop == "C05") {
        Gen05(c, r);
    }
    else {
        Gen06(c, r);
    }
    c.sched.spurious = r.Chance(0.3);
    c.faults.rate[sim::kStall] = r.Chance(0.3) ? 0.02 : 0.0;
    c.faults.max_faults = 4;
}
void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness(c.prop, "threads of the program under test");
    sim::SetFaultsAll(true);
    if (c.prop == "C01") {
        Run01(c.workload);
    }
    else if (c.prop == "C02" or c.prop == "C03") {
        RunMap(c.workload, c.prop);
    }
    else if (c.prop == "C04") {
        Run04(c.workload);
    }
    else if (c.prop == "C05") {
        Run05(c.workload);
    }
    else {
        Run06(c.workload);
    }
}
sim::HarnessDef const kDef{"conc",
                           {"C01", "C02", "C03", "C04", "C05", "C06"},
                           Gen,
                           Run};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
