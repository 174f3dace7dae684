// internal runtime structures of the simulator
#pragma once
#include <sys/types.h>

#include <array>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "sim.hpp"

namespace sim {
struct Proc;
struct Fiber;
struct OpenFile;

enum class FState { Runnable, Blocked, Done, Dead };

struct ForkRec {
    std::vector<char> stack;
    void* sp = nullptr;
    Proc* parent = nullptr;
    int child = 0;
};

struct Fiber {
    int id = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    char* stack_top = nullptr;
    FState st = FState::Runnable;
    Proc* proc = nullptr;
    std::function<void()> entry;
    void const* wait_obj = nullptr;
    std::uint64_t deadline = 0;  // 0 = none
    bool timed_out = false;
    void* retval = nullptr;
    bool detached = false;
    int saved_errno = 0;
    void* eh[2]{nullptr, nullptr};
    std::int64_t prio = 0;
    std::vector<void*> tls;
    std::vector<char> tls_image;  // thread_local variables of the executable
    std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
    std::vector<ForkRec> forks;
    int fork_ret = 0;
    std::vector<void*> held;
    // initialisations in progress (statics, once flags)
    std::vector<std::pair<void*, int>> inits;
    int quiet = 0;
    std::uint64_t wake_seq = 0;
    std::vector<void*> bt;  // where it blocked (debugging aid)
};

struct MxState {
    long words[8]{};
};
struct ModImage {
    std::vector<char> bytes;  // static data of the isolated libraries
};
struct Proc {
    int pid = 0;
    std::shared_ptr<ModImage> mod;
    int ppid = 0;
    std::string name;
    bool alive = true;
    bool crashed = false;
    bool reaped = false;
    int status = 0;
    bool faults = false;
    int nfaults = 0;
    std::map<int, std::shared_ptr<OpenFile>> fds;
    std::map<int, bool> cloexec;
    std::string cwd = "/";
    unsigned umask = 022;
    std::map<std::string, std::string> env;
    std::set<Fiber*> fibers;
    std::string exe;
    std::map<void*, std::shared_ptr<MxState>> static_mutex;
};

extern Fiber* g_cur;
extern std::uint64_t g_step;
extern std::uint64_t g_next;  // next step at which a memory access is a point
extern bool g_active;         // run in progress and not quiet

void SlowPoint(int kind);
inline void MemPoint() {
    if (g_active && ++g_step >= g_next) {
        SlowPoint(1);
    }
}
inline void SyncPoint() {
    if (g_active) {
        ++g_step;
        SlowPoint(0);
    }
}
inline void SysPoint() {
    if (g_active) {
        ++g_step;
        SlowPoint(2);
    }
}

// block current fiber on obj until woken or deadline; true if woken
bool Block(void const* obj, std::uint64_t deadline = 0);
void Wake(void const* obj, int n = 1 << 30);
Fiber* NewFiber(Proc* p, std::function<void()> entry);
Proc* NewProc(std::string const& name, int ppid);
Proc* FindProc(int pid);
std::map<int, Proc*>& Procs();
void ProcExit(Proc* p, int status, bool crashed);
[[noreturn]] void ExitCurrent(int code);    // _exit in the simulation
[[noreturn]] void DieCurrent(int sig);      // killed by signal
[[noreturn]] void ExecCurrent(std::function<int()> prog, std::string const& exe);
int ForkCurrent();
void YieldPoint();
extern std::uint64_t g_now;
Rng& EnvRng();
std::uint64_t RunSalt();
void VfsReset();
void VfsCloseAll(Proc* p);
// a fault hit process p: counted there and in its ancestors
void CountFaultIn(Proc* p);
Fault NextFault(std::initializer_list<Fault> kinds,
                std::string const& what,
                std::int64_t* arg = nullptr);
extern std::uint64_t g_hash;
extern std::uint64_t g_sched_hash;
extern bool g_trace_verbose;
void TraceLine(std::string const& s);

struct RunResult {
    std::string status = "ok";
    std::string prop;
    std::string msg;
};
extern RunResult g_result;
[[noreturn]] void EndRun(std::string const& status,
                         std::string const& prop,
                         std::string const& msg);
}  // namespace sim
