// Deterministic simulator: public interface for harnesses.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "nlohmann/json.hpp"

namespace sim {
using json = nlohmann::json;

// ---------------------------------------------------------------- random
struct Rng {
    std::uint64_t s[2]{1, 2};
    explicit Rng(std::uint64_t seed = 1);
    std::uint64_t Next();
    std::uint64_t Below(std::uint64_t n) { return n == 0 ? 0 : Next() % n; }
    std::int64_t Range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(
                        Below(static_cast<std::uint64_t>(hi - lo + 1)));
    }
    bool Chance(double p) {
        return static_cast<double>(Next() >> 11U) * (1.0 / 9007199254740992.0) <
               p;
    }
    template <class V>
    auto const& Pick(V const& v) {
        return v[Below(v.size())];
    }
};

// ---------------------------------------------------------------- faults
// The kinds of faults the simulator can inject at a system call.
enum Fault : int {
    kNone = 0,
    kEnospc,      // write/create fails, disk full
    kEio,         // read/write/metadata operation fails with EIO
    kShortRead,   // read returns fewer bytes than requested
    kShortWrite,  // write writes fewer bytes than requested
    kEintr,       // blocking call (flock, waitpid) interrupted
    kEmlink,      // link fails: too many links
    kEmfile,      // open fails: too many descriptors
    kForkFail,    // fork fails: EAGAIN
    kKillChild,   // forked helper is killed by a signal at this call
    kCrash,       // the whole (simulated) process dies at this call
    kTornCrash,   // ... after writing only a prefix
    kSpurious,    // spurious wake-up of a condition variable
    kEacces,      // transient permission failure on open
    kStall,       // the calling thread is stalled for a long simulated time
    kNetDrop,     // message lost
    kNetDelay,    // message delayed
    kNetDup,      // message duplicated
    kNetCut,      // connection cut in mid-stream
    kClockJump,   // wall clock jumps
    kAllocFail,   // memory allocation fails
    kNumFaults
};
extern char const* const kFaultNames[kNumFaults];

// ------------------------------------------------------------ run control
struct SchedCfg {
    int mode = 0;          // 0 = random walk, 1 = PCT, 2 = trace, 3 = RR/none
    double p_sync = 0.2;   // preemption probability at a synchronisation point
    double p_mem = 0.001;  // preemption probability at a plain memory access
    double p_sys = 0.2;    // ... at a system call
    int pct_d = 3;         // number of PCT change points
    std::uint64_t pct_len = 2000;
    bool spurious = false;
    std::vector<std::pair<std::uint64_t, int>> trace;  // (decision, fiber)
};
struct FaultCfg {
    double rate[kNumFaults]{};
    int max_faults = 3;
    std::uint64_t skip = 0;  // no faults before that many opportunities
    bool use_trace = false;
    std::vector<std::array<std::int64_t, 3>> trace;  // (fault index, kind, arg)
};

struct RunCtx {
    std::string harness;
    std::string prop;
    std::uint64_t seed = 0;
    json workload;
    SchedCfg sched;
    FaultCfg faults;
    std::uint64_t max_steps = 3000000;
};
RunCtx& Ctx();

// Report a violation of property `prop`. Ends the run if `prop` is the
// property being checked; otherwise it is only counted.
void Violation(std::string const& prop, std::string const& msg);
// Unexpected harness condition: ends the run, counted as inconclusive.
[[noreturn]] void Inconclusive(std::string const& msg);
inline bool Checking(std::string const& p) { return Ctx().prop == p; }

// property to which hangs (deadlock / livelock) are attributed; "" = none
void SetLiveness(std::string const& prop, std::string const& what);
// count a probe (reachability of rare situations)
void Probe(std::string const& name, std::uint64_t n = 1);
// append to the human-readable event trace (kept for violations/replay)
void Note(std::string const& msg);
// mix a value into the event-log hash
void Mix(std::uint64_t v);
void MixStr(std::string const& s);
// state coverage: register a state hash
void State(std::uint64_t h);

// --------------------------------------------------------------- scheduling
bool InSim();
std::uint64_t NowNs();                 // simulated clock
void AdvanceNs(std::uint64_t ns);      // let time pass without blocking
void SleepNs(std::uint64_t ns);        // block current thread
void Point(int kind = 0);              // explicit scheduling point
int FiberId();
std::uint64_t Seq();                   // global event sequence number

// Deactivate scheduling points and faults for the current scope (oracle code
// that calls real code or the VFS).
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(Quiet const&) = delete;
};

// ---------------------------------------------------------------- processes
using ProgramFn = std::function<int(std::vector<std::string> const& argv)>;
// Start a simulated process running fn in a new thread; returns pid
int Spawn(std::string const& name, std::function<int()> fn);
// Wait for process; returns wait status (as waitpid)
int Wait(int pid);
bool Alive(int pid);
void Kill(int pid);  // SIGKILL
int CurPid();
bool Crashed(int pid);  // was ended by crash fault / Kill
int NumCrashes();
// enable fault injection (of the configured kinds) in process pid
void SetFaults(int pid, bool on);
void SetFaultsAll(bool on);
int FaultsInjected();
// faults injected so far into process pid and its descendants
int FaultsIn(int pid);
// enable only for paths containing one of these substrings (empty = all)
void SetFaultPaths(std::vector<std::string> subs);
// register a program reachable by exec
void RegisterProgram(std::string const& path, ProgramFn fn);
// environment of the current process as passed to exec
std::map<std::string, std::string> const& ProcEnv();

// Give every simulated process its own copy of the static data of the shared
// library whose file name contains `name` (call once, before any run and before
// the library is initialised).
void IsolateLibrary(std::string const& name);

// Probability helper for harness-level fault points (e.g. fake network):
// consults the fault configuration for the given kinds, returns chosen or
// kNone
Fault AskFault(std::initializer_list<Fault> kinds, std::string const& what);
// A choice of the environment that is not a fault: value in [0,n)
std::uint64_t Choice(std::uint64_t n);

// ---------------------------------------------------------------------- vfs
namespace vfs {
enum class Kind { None, File, Dir, Link };
struct Entry {
    std::string path;
    Kind kind{};
    int mode{};
    std::uint64_t ino{};
    int nlink{};
};
void MkDirs(std::string const& path, int mode = 0755);
void Write(std::string const& path, std::string const& data, int mode = 0644);
void Symlink(std::string const& target, std::string const& path);
void RemoveAll(std::string const& path);
std::optional<std::string> Read(std::string const& path);     // follows links
std::string const* Peek(std::string const& path);             // no copy
Entry Lstat(std::string const& path);
std::optional<std::string> Readlink(std::string const& path);
std::vector<Entry> List(std::string const& path);             // one level
std::vector<Entry> Walk(std::string const& path);             // recursive
void SetMtime(std::string const& path, std::int64_t sec);
std::uint64_t HashTree(std::string const& path);              // state hash
int OpenForWrite(std::string const& path);                    // # of writers
// called after every change below `prefix` with kind of change and path
using Hook = std::function<void(char const* op, std::string const& path)>;
void OnMutation(std::string const& prefix, Hook h);
void ClearHooks();
// load a real host file or directory into the vfs (before the run)
void LoadReal(std::string const& real, std::string const& path);
// give directory subtree its own device id (rename/link across -> EXDEV)
void SetDevice(std::string const& path, int dev);
std::uint64_t NumOps();
int FailedUnlinks();  // number of unlink/rmdir calls failed by a fault
// limit on number of hard links per inode (0 = none)
void SetLinkMax(int n);
std::uint64_t OpenFdCount(int pid);
}  // namespace vfs

// ------------------------------------------------------------------ harness
struct HarnessDef {
    char const* name;
    std::vector<std::string> props;
    // generate workload and run configuration (ctx.seed, ctx.prop set)
    void (*gen)(RunCtx& ctx, Rng& rng);
    // executed in the main simulated process
    void (*run)(RunCtx const& ctx);
    // once per engine process, before any run (optional)
    void (*init)() = nullptr;
};
HarnessDef const& GetHarness();  // defined by the harness TU

// default swarm configuration of schedule parameters
void SwarmSched(RunCtx& ctx, Rng& rng);
}  // namespace sim
