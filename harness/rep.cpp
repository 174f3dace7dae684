// Log files (C70), progress reporting (C71) and the record of operations of
// the execution service (C72).
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <map>
#include <set>
#include <stdexcept>
#include <thread>

#include "dsim/sim.hpp"
#include "google/longrunning/operations.pb.h"
#include "google/protobuf/timestamp.pb.h"
#include "src/buildtool/common/statistics.hpp"
#include "src/buildtool/computed_roots/roots_progress.hpp"
#include "src/buildtool/execution_api/execution_service/operation_cache.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/log_sink_cmdline.hpp"
#include "src/buildtool/logging/log_sink_file.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/progress_reporting/base_progress_reporter.hpp"
#include "src/buildtool/progress_reporting/exports_progress_reporter.hpp"
#include "src/buildtool/progress_reporting/progress.hpp"
#include "src/buildtool/progress_reporting/progress_reporter.hpp"
#include "src/buildtool/progress_reporting/task_tracker.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;

namespace {
// ------------------------------------------------------------------- C70
// Every message has an identifier and numbered lines; what a message has to
// look like in a log is known when it is emitted.
struct Msg {
    std::vector<std::string> lines;
    std::string level;
    std::string name;  // of the logger, "" if none
    int limit = 0;     // level
    bool returned = false;
};
std::map<int, Msg>* g_msgs;
std::string* g_err;  // what was written to stderr
int g_id = 0;
bool g_lossy = false;

std::string LineText(int id, int k, std::size_t len, bool last) {
    std::string s = "<" + std::to_string(id) + ":" + std::to_string(k) +
                    (last ? "$" : "") + ">";
    while (s.size() < len) {
        s += static_cast<char>('a' + (s.size() * 7 + static_cast<std::size_t>(
                                                         id)) % 26);
    }
    return s;
}
ssize_t ErrWrite(void* /*c*/, char const* b, std::size_t n) {
    sim::Quiet q;
    g_err->append(b, n);
    return static_cast<ssize_t>(n);
}

std::vector<std::string> SplitLines(std::string const& s) {
    std::vector<std::string> r;
    std::size_t i = 0;
    while (i < s.size()) {
        auto j = s.find('\n', i);
        if (j == std::string::npos) {
            r.push_back(s.substr(i) + "\\");  // torn
            break;
        }
        r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return r;
}
// identifier and number of line as found in a line of the log
bool Parse(std::string const& line, std::size_t* pos, int* id, int* k) {
    *pos = line.find('<');
    if (*pos == std::string::npos) {
        return false;
    }
    return std::sscanf(line.c_str() + *pos, "<%d:%d", id, k) == 2;
}

// the log must be a sequence of complete messages; returns number of
// occurrences per message
std::map<int, int> ParseLog(std::string const& what,
                            std::string const& content,
                            bool file) {
    std::map<int, int> n;
    auto const lines = SplitLines(content);
    for (std::size_t i = 0; i < lines.size();) {
        std::size_t pos = 0;
        int id = 0;
        int k = 0;
        bool head_only = false;
        auto first = i;
        if (not file and not Parse(lines[i], &pos, &id, &k) and
            i + 1 < lines.size()) {
            // prefix in a line on its own
            head_only = true;
            ++i;
        }
        if (not Parse(lines[i], &pos, &id, &k) or k != 0 or
            not g_msgs->contains(id)) {
            Violation("C70",
                      what + ": line that starts no message: " +
                          lines[i].substr(0, 200));
            return n;
        }
        auto const& m = g_msgs->at(id);
        auto const& head = lines[first];
        auto want = m.level +
                    (m.name.empty() ? std::string{} : " (" + m.name + ")") +
                    ":";
        std::string prefix = head_only ? head : head.substr(0, pos);
        bool const ok = file ? prefix.starts_with("thread:") and
                                   prefix.ends_with("] " + want + " ")
                             : prefix == want + (head_only ? "" : " ");
        if (not ok) {
            Violation("C70",
                      what + ": wrong prefix '" + prefix + "' of message " +
                          std::to_string(id));
            return n;
        }
        for (std::size_t l = 0; l < m.lines.size(); ++l, ++i) {
            if (i >= lines.size()) {
                Violation("C70",
                          what + ": message " + std::to_string(id) +
                              " is not complete");
                return n;
            }
            auto const& s = lines[i];
            bool good = s.size() >= m.lines[l].size() and
                        s.ends_with(m.lines[l]);
            if (good and l > 0) {
                // only white space before
                good = s.substr(0, s.size() - m.lines[l].size())
                           .find_first_not_of(' ') == std::string::npos;
            }
            else if (good) {
                good = s.size() - m.lines[l].size() == pos;
            }
            if (not good) {
                Violation("C70",
                          what + ": message " + std::to_string(id) +
                              " is torn at line " + std::to_string(l) + ": " +
                              s.substr(0, 200));
                return n;
            }
        }
        ++n[id];
    }
    return n;
}

struct LogSetup {
    int limit = 0;
    bool cmdline = false;
    int restrict_level = -1;
    bool file = true;
};
void CheckLogs(LogSetup const& s, int only) {
    auto check = [&](std::string const& what,
                     std::string const& content,
                     bool file,
                     int limit) {
        auto const n = ParseLog(what, content, file);
        for (auto const& [id, m] : *g_msgs) {
            if (only >= 0 and id != only) {
                continue;
            }
            auto it = n.find(id);
            int const c = it == n.end() ? 0 : it->second;
            int const want = m.limit <= limit ? 1 : 0;
            if (c > want or (c < want and m.returned)) {
                Violation("C70",
                          what + ": message " + std::to_string(id) +
                              " at level " + m.level + " appears " +
                              std::to_string(c) + " times, expected " +
                              std::to_string(want));
                return;
            }
        }
    };
    if (s.file) {
        check("log file",
              sim::vfs::Read("/w/log/a.log").value_or(""),
              true,
              s.limit);
    }
    if (s.cmdline) {
        check("standard error",
              *g_err,
              false,
              s.restrict_level >= 0 ? std::min(s.limit, s.restrict_level)
                                    : s.limit);
    }
}
LogSetup g_setup;

void OpLog(json const& o, Logger const* logger, std::string const& name) {
    auto const how = o[1].get<int>();
    auto const level = static_cast<LogLevel>(o[2].get<int>());
    int id = 0;
    std::string text;
    {
        sim::Quiet q;
        id = g_id++;
        auto& m = (*g_msgs)[id];
        auto const n = o[3].get<int>();
        for (int i = 0; i < n; ++i) {
            bool const empty = i > 0 and i + 1 < n and o[5].get<bool>();
            m.lines.push_back(empty ? std::string{}
                                    : LineText(id, i, o[4], i + 1 == n));
            text += m.lines.back() + (i + 1 < n ? "\n" : "");
        }
        m.level = LogLevelToString(level);
        m.limit = static_cast<int>(level);
        m.name = logger != nullptr ? name : "";
    }
    switch (how) {
        case 0:
            if (logger != nullptr) {
                logger->Emit(level, text);
            }
            else {
                Logger::Log(level, text);
            }
            break;
        case 1:
            if (logger != nullptr) {
                logger->Emit(level, "{}", text);
            }
            else {
                Logger::Log(level, "{}", text);
            }
            break;
        case 2:
            if (logger != nullptr) {
                logger->Emit(level, [&]() { return text; });
            }
            else {
                Logger::Log(level, [&]() { return text; });
            }
            break;
        default:
            Logger::Log(logger, level, "{}{}", text.substr(0, 1), text.substr(1));
            break;
    }
    sim::Quiet q;
    (*g_msgs)[id].returned = true;
    // complete once the call has returned
    auto const& m = g_msgs->at(id);
    auto there = [&](std::string const& content) {
        return content.find(m.lines.front() + "\n") != std::string::npos and
               content.find(m.lines.back() + "\n") != std::string::npos;
    };
    if (m.limit <= g_setup.limit) {
        if (not there(sim::vfs::Read("/w/log/a.log").value_or(""))) {
            Violation("C70",
                      "message " + std::to_string(id) +
                          " not in the log file after it was logged");
        }
        if (g_setup.cmdline and
            (g_setup.restrict_level < 0 or
             m.limit <= g_setup.restrict_level) and
            not there(*g_err)) {
            Violation("C70",
                      "message " + std::to_string(id) +
                          " not on standard error after it was logged");
        }
    }
}

void RunC70(json const& w) {
    std::vector<LogSinkFactory> sinks;
    FILE* const err = stderr;
    {
        sim::Quiet q;
        g_msgs = new std::map<int, Msg>();
        g_err = new std::string();
        sim::vfs::MkDirs("/w/log/sub", 0777);
        sim::vfs::Symlink("log", "/w/alias");
        g_setup.limit = w["limit"];
        g_setup.cmdline = w["cmdline"];
        g_setup.restrict_level = w["restrict"];
        if (g_setup.cmdline) {
            cookie_io_functions_t fns{nullptr, ErrWrite, nullptr, nullptr};
            stderr = fopencookie(nullptr, "w", fns);
            setvbuf(stderr, nullptr, w["buffered"] ? _IOFBF : _IONBF, 0);
        }
        if (w["old"]) {
            sim::vfs::Write("/w/log/a.log", "old content\n", 0666);
        }
    }
    bool const overwrite = w["old"];
    auto mode =
        overwrite ? LogSinkFile::Mode::Overwrite : LogSinkFile::Mode::Append;
    sinks.push_back(LogSinkFile::CreateFactory("/w/log/a.log", mode));
    if (g_setup.cmdline) {
        sinks.push_back(LogSinkCmdLine::CreateFactory(
            false,
            g_setup.restrict_level >= 0
                ? std::make_optional(
                      static_cast<LogLevel>(g_setup.restrict_level))
                : std::nullopt));
    }
    LogConfig::SetLogLimit(static_cast<LogLevel>(g_setup.limit));
    LogConfig::SetSinks(std::move(sinks));
    std::vector<std::thread> ts;
    int k = 0;
    for (auto const& t : w["tops"]) {
        auto const name = "log " + std::to_string(++k);
        ts.emplace_back([&t, mode, name]() {
            // some threads use a logger of their own that writes to the same
            // file, found by a different name
            auto const own = t["own"].get<int>();
            std::unique_ptr<Logger> l;
            if (own == 1) {
                l = std::make_unique<Logger>(name);
            }
            else if (own >= 2) {
                std::vector<LogSinkFactory> fs{LogSinkFile::CreateFactory(
                    own == 2 ? "/w/alias/a.log" : "/w/log/sub/../a.log",
                    mode)};
                if (g_setup.cmdline) {
                    fs.push_back(LogSinkCmdLine::CreateFactory(
                        false,
                        g_setup.restrict_level >= 0
                            ? std::make_optional(static_cast<LogLevel>(
                                  g_setup.restrict_level))
                            : std::nullopt));
                }
                l = std::make_unique<Logger>(name, fs);
            }
            for (auto const& o : t["ops"]) {
                OpLog(o, l.get(), name);
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    sim::Quiet q;
    CheckLogs(g_setup, -1);
    stderr = err;
    sim::MixStr(*g_err);
    sim::State(sim::vfs::HashTree("/w"));
}

// ------------------------------------------------------------------- C71
struct Prog {
    // what really happened; a counter is incremented before (hi) and after
    // (lo) the operation
    int lo_q = 0, hi_q = 0, lo_x = 0, hi_x = 0, lo_c = 0, hi_c = 0;
    // tasks: id -> number of start / stop
    struct Span {
        std::uint64_t sb, se = 0, pb = 0, pe = 0;  // start/stop begin/end
    };
    std::map<std::string, Span> spans;
    std::uint64_t done_at = 0;      // simulated time at which done was set
    std::uint64_t done_seq = 0;
    bool ended = false;
    std::vector<std::uint64_t> reports;
    std::uint64_t last_end = 0;
};
Prog* G;
constexpr std::uint64_t kMs = 1000000;

// was id possibly running at some time in [a, b]?
bool MaybeRunning(std::string const& id, std::uint64_t a) {
    auto it = G->spans.find(id);
    if (it == G->spans.end()) {
        return false;
    }
    auto const& s = it->second;
    return s.pe == 0 or s.pe > a;
}
// was something certainly running throughout [a, now]?
bool SomethingRunning(std::uint64_t a) {
    for (auto const& [id, s] : G->spans) {
        if (s.se != 0 and s.se < a and s.pb == 0) {
            return true;
        }
    }
    return false;
}
// some task that certainly started before s did and was running all along
std::string Older(std::string const& id, std::uint64_t a) {
    auto const& s = G->spans.at(id);
    for (auto const& [k, t] : G->spans) {
        if (k != id and t.se != 0 and t.se < s.sb and t.se < a and
            t.pb == 0) {
            return k;
        }
    }
    return "";
}
void CheckSample(std::string const& id, std::uint64_t a, char const* what) {
    if (id.empty()) {
        if (SomethingRunning(a)) {
            Violation("C71",
                      std::string{what} + ": none although a task is running");
        }
        return;
    }
    if (not MaybeRunning(id, a)) {
        Violation("C71", std::string{what} + ": task not running: " + id);
        return;
    }
    if (auto const o = Older(id, a); not o.empty()) {
        Violation("C71",
                  std::string{what} + ": " + id + " although " + o +
                      " is running for longer");
    }
}

// sink that looks at the reports
class ReportSink final : public ILogSink {
  public:
    explicit ReportSink(int kind) : kind_{kind} {}
    void Emit(Logger const* /*logger*/,
              LogLevel level,
              std::string const& msg) const noexcept final {
        sim::Quiet q;
        if (level != LogLevel::Progress) {
            return;
        }
        sim::Note("report: " + msg);
        if (G->ended) {
            Violation("C71", "report after the reporter has ended");
        }
        G->reports.push_back(sim::NowNs());
        int pct = 0;
        int c = 0;
        int x = 0;
        int p = 0;
        int f = 0;
        if (kind_ == 0) {
            if (std::sscanf(msg.c_str(),
                            "[%d%%] %d cached, %d run, %d processing",
                            &pct,
                            &c,
                            &x,
                            &p) != 4) {
                Violation("C71", "unexpected report: " + msg);
                return;
            }
            if (pct < 0 or pct > 100) {
                Violation("C71", "impossible percentage: " + msg);
            }
        }
        else if (kind_ == 1) {
            int served = 0;
            if (std::sscanf(
                    msg.c_str(),
                    "Computed Roots: %d cached, %d served, %d run, %d "
                    "processing",
                    &c,
                    &served,
                    &x,
                    &p) != 4) {
                Violation("C71", "unexpected report: " + msg);
                return;
            }
        }
        else {
            if (std::sscanf(
                    msg.c_str(),
                    "Export targets: %d found [%d cached, %d analysed locally]",
                    &f,
                    &c,
                    &x) != 3) {
                Violation("C71", "unexpected report: " + msg);
                return;
            }
            p = f - c - x;
        }
        if (p < 0) {
            Violation("C71", "more work done than there was: " + msg);
        }
        if (c > G->hi_c or x > G->hi_x or p + c + x > G->hi_q) {
            Violation("C71",
                      "report exceeds what happened: " + msg + " cached " +
                          std::to_string(G->hi_c) + " run " +
                          std::to_string(G->hi_x) + " queued " +
                          std::to_string(G->hi_q));
        }
        auto const b = msg.rfind('(');
        if (b != std::string::npos) {
            // name of a task: t<number>
            auto const t = msg.find("task-", b);
            auto e = t;
            while (e < msg.size() and (std::isalnum(msg[e]) or msg[e] == '-')) {
                ++e;
            }
            std::string const id =
                t == std::string::npos ? "?" : msg.substr(t, e - t);
            if (not G->spans.contains(id)) {
                Violation("C71", "report names unknown task: " + msg);
            }
        }
    }

  private:
    int kind_;
};

void RunC71(json const& w) {
    auto const kind = w["kind"].get<int>();
    {
        sim::Quiet q;
        G = new Prog();
    }
    Statistics stats{};
    Progress progress{};
    std::vector<LogSinkFactory> fs{
        [kind]() { return std::make_shared<ReportSink>(kind); }};
    LogConfig::SetLogLimit(LogLevel::Progress);
    Logger logger{"progress", fs};
    int total = 0;
    {
        sim::Quiet q;
        for (auto const& t : w["tops"]) {
            total += static_cast<int>(t["ops"].size());
        }
        auto k = 0;
        for (auto const& t : w["tops"]) {
            for (auto const& o : t["ops"]) {
                auto const id = "task-" + std::to_string(o[0].get<int>());
                progress.OriginMap()[id];
                if (o[1].get<bool>()) {
                    progress.OutputMap()[id] = "out/" + id + "-o";
                }
                ++k;
            }
        }
    }
    bool const custom = w["custom"];
    auto const throws = w["throws"].get<int>();
    auto const slow = w["slow"].get<std::uint64_t>();
    int calls = 0;
    auto reporter =
        custom ? BaseProgressReporter::Reporter([&]() {
            std::uint64_t a = 0;
            {
                sim::Quiet q;
                if (G->ended) {
                    Violation("C71", "report after the reporter has ended");
                }
                G->reports.push_back(sim::NowNs());
                ++calls;
                a = sim::Seq();
            }
            auto const s = progress.TaskTracker().Sample();
            {
                sim::Quiet q;
                CheckSample(s, a, "sample in a report");
            }
            if (slow != 0) {
                sim::SleepNs(slow * kMs);
            }
            if (throws > 0 and calls % throws == 0) {
                throw std::runtime_error("report failed");
            }
        })
        : kind == 0 ? ProgressReporter::Reporter(&stats, &progress, &logger)
        : kind == 1
            ? RootsProgress::Reporter(
                  &stats, &progress.TaskTracker(), &logger)
            : ExportsProgressReporter::Reporter(
                  &stats, &progress, /*has_serve=*/false, &logger);
    std::atomic<bool> done{false};
    std::condition_variable cv{};
    auto const start = sim::NowNs();
    std::thread observer([&]() {
        reporter(&done, &cv);
        sim::Quiet q;
        G->last_end = sim::NowNs();
    });
    // the build
    std::vector<std::thread> ts;
    for (auto const& t : w["tops"]) {
        ts.emplace_back([&]() {
            for (auto const& o : t["ops"]) {
                std::string id;
                {
                    sim::Quiet q;
                    id = "task-" + std::to_string(o[0].get<int>());
                    G->spans[id].sb = sim::Seq();
                    ++G->hi_q;
                }
                // exports count a target first, actions are tracked first
                if (kind == 2) {
                    stats.IncrementExportsFoundCounter();
                }
                progress.TaskTracker().Start(id);
                if (kind != 2) {
                    stats.IncrementActionsQueuedCounter();
                }
                {
                    sim::Quiet q;
                    G->spans[id].se = sim::Seq();
                }
                if (o[3].get<int>() > 0) {
                    std::uint64_t a = 0;
                    {
                        sim::Quiet q;
                        a = sim::Seq();
                    }
                    auto const s = progress.TaskTracker().Sample();
                    sim::Quiet q;
                    CheckSample(s, a, "sample");
                }
                if (o[2].get<std::uint64_t>() > 0) {
                    sim::SleepNs(o[2].get<std::uint64_t>() * kMs);
                }
                bool const cached = o[4].get<bool>();
                {
                    sim::Quiet q;
                    ++(cached ? G->hi_c : G->hi_x);
                }
                if (kind == 2) {
                    if (cached) {
                        stats.IncrementExportsCachedCounter();
                    }
                    else if (o[1].get<bool>()) {
                        stats.IncrementExportsUncachedCounter();
                    }
                    else {
                        stats.IncrementExportsNotEligibleCounter();
                    }
                }
                else if (cached) {
                    stats.IncrementActionsCachedCounter();
                }
                else {
                    stats.IncrementActionsExecutedCounter();
                }
                {
                    sim::Quiet q;
                    G->spans[id].pb = sim::Seq();
                }
                progress.TaskTracker().Stop(id);
                {
                    sim::Quiet q;
                    G->spans[id].pe = sim::Seq();
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    {
        sim::Quiet q;
        G->done_at = sim::NowNs();
    }
    done = true;
    cv.notify_all();
    observer.join();
    sim::Quiet q;
    G->ended = true;
    if (progress.TaskTracker().Active() != 0 or
        not progress.TaskTracker().Sample().empty()) {
        Violation("C71", "tasks active after all have stopped");
    }
    // the intervals: 3 s, growing by 99/70
    bool const undisturbed = not w["spurious"].get<bool>() and
                             sim::FaultsInjected() == 0;
    std::uint64_t due = start;
    std::int64_t delay = 3000;
    std::uint64_t limit = 0;  // latest time the reporter may end
    auto const built = G->done_at;
    std::size_t i = 0;
    while (true) {
        auto const next = due + static_cast<std::uint64_t>(delay) * kMs;
        if (i < G->reports.size()) {
            if (undisturbed and G->reports[i] + kMs < next) {
                Violation("C71",
                          "report " + std::to_string(i) + " too early: after " +
                              std::to_string((G->reports[i] - start) / kMs) +
                              " ms");
                break;
            }
            // the next interval starts when the report was made
            due = std::max(next, G->reports[i]) + (custom ? slow * kMs : 0);
        }
        else {
            limit = std::max(next, built);
            if (built > due + 5 * kMs) {
                // it was waiting when the build was done
                limit = std::min(limit, built);
            }
            if (undisturbed and next + 200 * kMs < built) {
                Violation("C71",
                          "no report although the build has been going on "
                          "for " +
                              std::to_string((built - start) / kMs) + " ms");
            }
            break;
        }
        delay = delay * 99 / 70;
        ++i;
    }
    if (undisturbed and G->last_end > limit + 200 * kMs) {
        Violation("C71",
                  "reporter ended " +
                      std::to_string((G->last_end - built) / kMs) +
                      " ms after the build");
    }
    sim::Probe("reports", G->reports.size());
    sim::State(G->reports.size() * 1000 + static_cast<std::size_t>(total));
}

// ------------------------------------------------------------------- C72
using Op = ::google::longrunning::Operation;
struct OpState {
    std::vector<std::string> set;  // serialised, in order of begin
    bool running = true;
    std::uint64_t begin = 0, end = 0;  // of last update
    bool busy = false;                 // update in progress
    std::int64_t time = 0;             // of the last update
    int updates = 0;
};
std::map<std::string, OpState>* g_ops;

Op MakeOp(std::string const& name, bool done, std::int64_t t, int n) {
    Op op{};
    op.set_name(name);
    op.set_done(done);
    google::protobuf::Timestamp ts;
    ts.set_seconds(t);
    ts.set_nanos(n % 1000);
    op.mutable_metadata()->PackFrom(ts);
    return op;
}

void RunC72(json const& w) {
    {
        sim::Quiet q;
        g_ops = new std::map<std::string, OpState>();
    }
    static OperationCache cache;
    auto const ex = w["exponent"].get<std::uint8_t>();
    cache.SetExponent(ex);
    std::size_t const limit = 1ULL << ex;
    std::vector<std::thread> ts;
    auto size_now = [&](std::size_t* finished) {
        std::size_t n = 0;
        *finished = 0;
        for (auto const& [k, s] : *g_ops) {
            auto const o = cache.Query(k);
            if (o) {
                ++n;
                *finished += o->done() ? 1 : 0;
            }
        }
        return n;
    };
    int th = 0;
    for (auto const& t : w["tops"]) {
        ++th;
        ts.emplace_back([&cache = cache, &t, th]() {
            // every operation is updated by the thread running it
            for (auto const& o : t["ops"]) {
                auto const what = o[0].get<std::string>();
                if (what == "query") {
                    std::string key;
                    std::vector<std::string> before;
                    bool must = false;
                    {
                        sim::Quiet q;
                        if (g_ops->empty()) {
                            continue;
                        }
                        auto it = g_ops->begin();
                        std::advance(
                            it,
                            static_cast<long>(o[1].get<std::size_t>() %
                                              g_ops->size()));
                        key = it->first;
                        auto const& s = it->second;
                        must = s.running and not s.busy and not s.set.empty();
                        before = s.set;
                    }
                    auto const r = cache.Query(key);
                    sim::Quiet q;
                    auto const& s = g_ops->at(key);
                    if (not r) {
                        if (must and s.running) {
                            Violation("C72",
                                      "running operation forgotten: " + key);
                        }
                        continue;
                    }
                    auto const str = r->SerializeAsString();
                    // the latest state at the time of the call, or a later
                    bool ok = false;
                    auto const from =
                        before.empty() ? 0 : before.size() - 1;
                    for (std::size_t i = from; i < s.set.size(); ++i) {
                        ok = ok or s.set[i] == str;
                    }
                    // an update in progress when the query began
                    if (not ok and from > 0) {
                        ok = s.set[from - 1] == str and s.begin != 0 and
                             (s.busy or before.size() < s.set.size() or
                              not must);
                    }
                    if (not ok) {
                        Violation("C72",
                                  "not the latest state of " + key + ": " +
                                      r->name());
                    }
                    continue;
                }
                // set: start (running), update (running), finish
                std::string key;
                Op op;
                {
                    sim::Quiet q;
                    key = "t" + std::to_string(th) + "-" +
                          std::to_string(o[1].get<int>());
                    auto& s = (*g_ops)[key];
                    bool const done = what == "finish";
                    auto const n = ++s.updates;
                    s.time = o[2].get<std::int64_t>();
                    op = MakeOp(key + "/" + std::to_string(n) +
                                    (done ? " finished" : " running"),
                                done,
                                s.time,
                                n);
                    if (done) {
                        s.running = false;
                    }
                    else if (s.set.empty() or s.running) {
                        s.running = true;
                    }
                    else {
                        s.running = true;  // started again
                    }
                    s.busy = true;
                    s.begin = sim::Seq();
                    s.set.push_back(op.SerializeAsString());
                }
                cache.Set(key, op);
                sim::Quiet q;
                auto& s = g_ops->at(key);
                s.busy = false;
                s.end = sim::Seq();
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    sim::Quiet q;
    auto const check = [&](char const* when) {
        std::size_t finished = 0;
        auto const n = size_now(&finished);
        if (finished > 2 * limit + 1) {
            Violation("C72",
                      std::string{when} + ": " + std::to_string(finished) +
                          " finished operations kept, limit " +
                          std::to_string(limit));
        }
        for (auto const& [k, s] : *g_ops) {
            auto const o = cache.Query(k);
            if (o) {
                if (o->SerializeAsString() != s.set.back()) {
                    Violation("C72", "not the latest state at the end: " + k);
                }
            }
            else if (s.running) {
                Violation("C72",
                          std::string{when} +
                              ": running operation forgotten: " + k);
            }
        }
        return n;
    };
    check("at the end");
    // one more operation: what a collection removes
    std::map<std::string, std::int64_t> before;
    for (auto const& [k, s] : *g_ops) {
        if (cache.Query(k)) {
            before[k] = s.time;
        }
    }
    auto& s = (*g_ops)["last"];
    auto const op = MakeOp("last", false, 1000, 1);
    s.set.push_back(op.SerializeAsString());
    s.time = 1000;
    cache.Set("last", op);
    check("after the last one");
    std::size_t removed = 0;
    std::int64_t newest_removed = -1;
    std::int64_t oldest_kept = 1LL << 40;
    for (auto const& [k, time] : before) {
        bool const there = cache.Query(k).has_value();
        if (not there) {
            ++removed;
            newest_removed = std::max(newest_removed, time);
        }
        else if (not g_ops->at(k).running) {
            oldest_kept = std::min(oldest_kept, time);
        }
    }
    sim::Probe("collections", removed > 0 ? 1 : 0);
    if (removed > 0 and before.size() < 2 * limit) {
        Violation("C72",
                  "operations removed although there are only " +
                      std::to_string(before.size()));
    }
    if (removed > limit) {
        Violation("C72",
                  std::to_string(removed) +
                      " operations removed at once, limit " +
                      std::to_string(limit));
    }
    if (removed > 0 and newest_removed > oldest_kept) {
        Violation("C72", "newer operation removed, older one kept");
    }
    sim::State(before.size() * 100 + removed);
}

// ------------------------------------------------------------------ common
void Gen(RunCtx& c, Rng& r) {
    sim::SwarmSched(c, r);
    auto const& P = c.prop;
    json w;
    json tops = json::array();
    auto& f = c.faults;
    f.max_faults = 3;
    if (P == "C70") {
        w["limit"] = r.Chance(0.3) ? 6 : r.Below(7);
        w["cmdline"] = r.Chance(0.6);
        w["buffered"] = r.Chance(0.5);
        w["restrict"] = r.Chance(0.6) ? -1 : static_cast<int>(r.Below(7));
        w["old"] = r.Chance(0.4);
        auto const nt = r.Range(1, 5);
        for (int t = 0; t < nt; ++t) {
            json ops = json::array();
            auto const no = r.Range(1, 6);
            for (int o = 0; o < no; ++o) {
                static int const lens[]{0, 10, 80, 80, 600, 5000, 9000};
                ops.push_back({"log",
                               r.Below(4),
                               r.Below(7),
                               r.Chance(0.5) ? 1 : r.Range(2, 6),
                               lens[r.Below(7)],
                               r.Chance(0.3)});
            }
            tops.push_back(
                {{"own", r.Chance(0.4) ? 0 : r.Range(1, 3)}, {"ops", ops}});
        }
        f.rate[sim::kShortWrite] = r.Chance(0.5) ? 0.2 : 0;
        f.rate[sim::kStall] = r.Chance(0.3) ? 0.02 : 0;
    }
    else if (P == "C71") {
        w["kind"] = r.Below(3);
        w["custom"] = r.Chance(0.5);
        w["throws"] = r.Chance(0.6) ? 0 : r.Range(1, 3);
        w["slow"] = r.Chance(0.6) ? 0 : r.Range(1, 5000);
        w["spurious"] = c.sched.spurious;
        bool const distinct = true;
        auto const nt = r.Range(1, 4);
        bool const aligned = r.Chance(0.4);  // with the reports
        int id = 0;
        for (int t = 0; t < nt; ++t) {
            json ops = json::array();
            auto const no = r.Range(0, 6);
            for (int o = 0; o < no; ++o) {
                (void)distinct;
                ops.push_back({id++,
                               r.Chance(0.5),
                               aligned and r.Chance(0.6)
                                   ? (o == 0 ? 3000 : r.Chance(0.5) ? 4242 : 0)
                               : r.Chance(0.3) ? 0
                               : r.Chance(0.5)
                                   ? r.Range(1, 3000)
                                   : r.Range(1000, 20000),
                               r.Below(2),
                               r.Chance(0.4)});
            }
            tops.push_back({{"ops", ops}});
        }
        f.rate[sim::kStall] = r.Chance(0.2) ? 0.02 : 0;
    }
    else {
        w["exponent"] = r.Below(4);
        auto const nt = r.Range(1, 4);
        for (int t = 0; t < nt; ++t) {
            json ops = json::array();
            auto const no = r.Range(1, 30);
            std::vector<int> running;
            int next = 0;
            int clock = static_cast<int>(r.Below(5));
            for (int o = 0; o < no; ++o) {
                clock += static_cast<int>(r.Below(3));
                if (r.Chance(0.25)) {
                    ops.push_back({"query", r.Below(100)});
                }
                else if (running.empty() or r.Chance(0.4)) {
                    running.push_back(next);
                    ops.push_back({"start", next++, clock});
                }
                else {
                    auto const i = r.Below(running.size());
                    if (r.Chance(0.7)) {
                        ops.push_back({"finish", running[i], clock});
                        running.erase(running.begin() + static_cast<long>(i));
                    }
                    else {
                        ops.push_back({"update", running[i], clock});
                    }
                }
            }
            tops.push_back({{"ops", ops}});
        }
        f.rate[sim::kStall] = r.Chance(0.2) ? 0.02 : 0;
    }
    w["tops"] = tops;
    c.workload = w;
}

void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness(c.prop, "reporting");
    auto const& w = c.workload;
    int const pid = sim::Spawn("just", [&]() {
        if (c.prop == "C70") {
            RunC70(w);
        }
        else if (c.prop == "C71") {
            RunC71(w);
        }
        else {
            RunC72(w);
        }
        return 0;
    });
    sim::SetFaults(pid, true);
    int const st = sim::Wait(pid);
    if (st != 0) {
        Violation(c.prop, "process ended with status " + std::to_string(st));
    }
}
sim::HarnessDef const kDef{"rep", {"C70", "C71", "C72"}, Gen, Run};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
