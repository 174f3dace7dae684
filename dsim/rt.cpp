// Scheduler: fibers standing in for threads; simulated time; pthread API.
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace sim {

char const* const kFaultNames[kNumFaults] = {
    "none",       "enospc",   "eio",        "short_read", "short_write",
    "eintr",      "emlink",   "emfile",     "fork_fail",  "kill_child",
    "crash",      "torn_crash", "spurious_wakeup", "eacces", "stall",
    "net_drop",   "net_delay", "net_dup",   "net_cut",    "clock_jump",
    "alloc_fail"};

Rng::Rng(std::uint64_t seed) {
    auto mix = [](std::uint64_t& z) {
        z += 0x9e3779b97f4a7c15ULL;
        std::uint64_t x = z;
        x = (x ^ (x >> 30U)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27U)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31U);
    };
    std::uint64_t z = seed;
    s[0] = mix(z);
    s[1] = mix(z) | 1U;
}
std::uint64_t Rng::Next() {
    std::uint64_t a = s[0];
    std::uint64_t const b = s[1];
    s[0] = b;
    a ^= a << 23U;
    s[1] = a ^ b ^ (a >> 18U) ^ (b >> 5U);
    return s[1] + b;
}

Fiber* g_cur = nullptr;
std::uint64_t g_step = 0;
std::uint64_t g_next = ~0ULL;
bool g_active = false;
std::uint64_t g_now = 0;
std::uint64_t g_hash = 0xcbf29ce484222325ULL;
std::uint64_t g_sched_hash = 0xcbf29ce484222325ULL;
bool g_trace_verbose = false;
RunResult g_result;

namespace {
RunCtx g_ctx;
Rng g_rs{1};   // scheduling choices
Rng g_rf{2};   // fault choices
Rng g_re{3};   // environment choices (names, values, orders)
std::vector<Fiber*> g_fibers;
std::map<int, Proc*> g_procs;
int g_next_pid = 4000;
Fiber* g_last = nullptr;
void* g_main_sp = nullptr;
bool g_end = false;
std::vector<char*> g_stack_pool;
constexpr std::size_t kStack = 1024UL * 1024UL;

// requests from fiber to scheduler
enum class Req { None, Yield, Fork, Unfork, Exit };
Req g_req = Req::None;
bool g_forced_other = false;  // choose a fiber other than current
int g_yield_kind = 0;

std::vector<std::pair<std::uint64_t, int>> g_rec;        // recorded switches
std::size_t g_ti = 0;                                    // trace index
std::vector<std::array<std::int64_t, 3>> g_frec;         // recorded faults
std::size_t g_fi = 0;
std::uint64_t g_fault_idx = 0;
std::uint64_t g_fault_counts[kNumFaults]{};
int g_faults_total = 0;
std::uint64_t g_switches = 0;
std::uint64_t g_preempt = 0;
std::vector<std::uint64_t> g_pct;  // change points
std::int64_t g_low_prio = 0;
std::map<std::string, std::uint64_t> g_probes;
std::vector<std::string> g_trace_lines;
std::string g_live_prop;
std::string g_live_what;
std::set<std::uint64_t> g_states;
std::vector<std::string> g_fault_paths;
std::map<std::string, ProgramFn> g_programs;
int g_crashes = 0;
std::uint64_t g_seq = 0;

extern "C" {
void sim_switch(void** from, void* to);
void sim_boot();
}
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_boot
.type sim_boot,@function
sim_boot:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_boot,.-sim_boot
)");

void DrawNextMem() {
    if (g_ctx.sched.mode == 0) {
        double const p = g_ctx.sched.p_mem;
        if (p <= 0) {
            g_next = ~0ULL;
            return;
        }
        // geometric skip
        double const u =
            (static_cast<double>(g_rs.Next() >> 11U) + 1.0) / 9007199254740993.0;
        double const k = __builtin_log(u) / __builtin_log(1.0 - p);
        g_next = g_step + 1 +
                 static_cast<std::uint64_t>(std::min(k, 1.0e12));
    }
    else if (g_ctx.sched.mode == 1) {
        g_next = g_pct.empty() ? ~0ULL : g_pct.back();
    }
    else if (g_ctx.sched.mode == 2) {
        while (g_ti < g_ctx.sched.trace.size() and
               g_ctx.sched.trace[g_ti].first < g_step) {
            ++g_ti;
        }
        g_next = g_ti < g_ctx.sched.trace.size()
                     ? g_ctx.sched.trace[g_ti].first
                     : ~0ULL;
    }
    else {
        g_next = ~0ULL;
    }
}

void SwitchToMain() {
    Fiber* f = g_cur;
    f->saved_errno = errno;
    auto* eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
    f->eh[0] = eh[0];
    f->eh[1] = eh[1];
    sim_switch(&f->sp, g_main_sp);
    // resumed
    eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
    eh[0] = g_cur->eh[0];
    eh[1] = g_cur->eh[1];
    errno = g_cur->saved_errno;
}

// Variables with thread storage duration of the executable (the code under
// test): all fibers run in one thread of the host, so their block is swapped
// with the fiber.
struct TlsBlock {
    char* data = nullptr;
    std::size_t size = 0;
    std::size_t file = 0;
    char const* init = nullptr;
};
TlsBlock const& Tls() {
    static TlsBlock const b = [] {
        TlsBlock r{};
        dl_iterate_phdr(
            [](dl_phdr_info* i, std::size_t, void* p) -> int {
                auto* r = static_cast<TlsBlock*>(p);
                for (int k = 0; k < i->dlpi_phnum; ++k) {
                    auto const& h = i->dlpi_phdr[k];
                    if (h.p_type == PT_TLS and i->dlpi_tls_data != nullptr) {
                        r->data = static_cast<char*>(i->dlpi_tls_data);
                        r->size = h.p_memsz;
                        r->file = h.p_filesz;
                        r->init = reinterpret_cast<char const*>(i->dlpi_addr +
                                                                h.p_vaddr);
                    }
                }
                return 1;  // the first object is the executable
            },
            &r);
        return r;
    }();
    return b;
}
void LoadTls(Fiber* f) {
    auto const& b = Tls();
    if (b.size == 0) {
        return;
    }
    if (f->tls_image.empty()) {
        f->tls_image.assign(b.size, 0);
        memcpy(f->tls_image.data(), b.init, b.file);
    }
    memcpy(b.data, f->tls_image.data(), b.size);
}
void SaveTls(Fiber* f) {
    auto const& b = Tls();
    if (b.size != 0) {
        memcpy(f->tls_image.data(), b.data, b.size);
    }
}

// Static data of isolated shared libraries: one copy per simulated process.
struct ModRange {
    char* data;
    std::size_t size;
};
std::vector<ModRange> g_mods;
std::vector<char> g_mod_pristine;
std::shared_ptr<ModImage> g_mod_cur;
bool InMod(void const* p) {
    for (auto const& m : g_mods) {
        if (p >= m.data and p < m.data + m.size) {
            return true;
        }
    }
    return false;
}
void LoadMod(Proc* p) {
    if (g_mods.empty()) {
        return;
    }
    if (p->mod == nullptr) {
        p->mod = std::make_shared<ModImage>();
        p->mod->bytes = g_mod_pristine;
    }
    if (p->mod == g_mod_cur) {
        return;
    }
    std::size_t o = 0;
    for (auto const& m : g_mods) {
        if (g_mod_cur != nullptr) {
            memcpy(g_mod_cur->bytes.data() + o, m.data, m.size);
        }
        memcpy(m.data, p->mod->bytes.data() + o, m.size);
        o += m.size;
    }
    g_mod_cur = p->mod;
}

[[noreturn]] void FiberExit() {
    g_req = Req::Exit;
    SwitchToMain();
    __builtin_unreachable();
}

void WakeExpired() {
    for (auto* f : g_fibers) {
        if (f->st == FState::Blocked and f->deadline != 0 and
            f->deadline <= g_now) {
            f->st = FState::Runnable;
            f->timed_out = true;
            f->deadline = 0;
        }
    }
}
std::uint64_t g_min_deadline = ~0ULL;

void RecomputeMinDeadline() {
    g_min_deadline = ~0ULL;
    for (auto* f : g_fibers) {
        if (f->st == FState::Blocked and f->deadline != 0) {
            g_min_deadline = std::min(g_min_deadline, f->deadline);
        }
    }
}

Fiber* ById(int id) {
    return id >= 0 and static_cast<std::size_t>(id) < g_fibers.size()
               ? g_fibers[static_cast<std::size_t>(id)]
               : nullptr;
}

// choose the next fiber to run; `stay` if the current one may continue
Fiber* PickNext() {
    if (g_min_deadline <= g_now) {
        WakeExpired();
        RecomputeMinDeadline();
    }
    static std::vector<Fiber*> cand;
    cand.clear();
    for (auto* f : g_fibers) {
        if (f->st == FState::Runnable) {
            cand.push_back(f);
        }
    }
    if (cand.empty()) {
        if (g_min_deadline != ~0ULL) {
            g_now = std::max(g_now, g_min_deadline);
            WakeExpired();
            RecomputeMinDeadline();
            return PickNext();
        }
        return nullptr;
    }
    bool const last_ok = g_last != nullptr and g_last->st == FState::Runnable;
    // default choice
    Fiber* def = nullptr;
    if (last_ok and g_yield_kind == 0) {
        def = g_last;
    }
    else if (last_ok) {
        // yield: next in cyclic order
        for (auto* f : cand) {
            if (f->id > g_last->id) {
                def = f;
                break;
            }
        }
        if (def == nullptr) {
            def = cand.front();
        }
    }
    else {
        def = cand.front();
    }
    Fiber* pick = def;
    switch (g_ctx.sched.mode) {
        case 0: {
            if (cand.size() > 1) {
                if (last_ok and (g_forced_other or g_yield_kind != 0)) {
                    std::size_t i = g_rs.Below(cand.size() - 1);
                    for (auto* f : cand) {
                        if (f == g_last) {
                            continue;
                        }
                        if (i-- == 0) {
                            pick = f;
                            break;
                        }
                    }
                }
                else if (not last_ok) {
                    pick = cand[g_rs.Below(cand.size())];
                }
            }
        } break;
        case 1: {
            if (last_ok and g_yield_kind != 0) {
                g_last->prio = --g_low_prio;
            }
            for (auto* f : cand) {
                if (pick->st != FState::Runnable or f->prio > pick->prio) {
                    pick = f;
                }
            }
        } break;
        case 2: {
            while (g_ti < g_ctx.sched.trace.size() and
                   g_ctx.sched.trace[g_ti].first < g_step) {
                ++g_ti;
            }
            if (g_ti < g_ctx.sched.trace.size() and
                g_ctx.sched.trace[g_ti].first == g_step) {
                auto* f = ById(g_ctx.sched.trace[g_ti].second);
                if (f != nullptr and f->st == FState::Runnable) {
                    pick = f;
                }
                ++g_ti;
            }
        } break;
        default:
            break;
    }
    if (pick != def) {
        g_rec.emplace_back(g_step, pick->id);
    }
    if (pick != g_last) {
        ++g_switches;
        g_sched_hash = (g_sched_hash ^ static_cast<std::uint64_t>(pick->id)) *
                       0x100000001b3ULL;
        Mix(g_step * 1315423911ULL + static_cast<std::uint64_t>(pick->id));
    }
    return pick;
}

void RemoveFiber(Fiber* f) {
    if (f->stack != nullptr) {
        g_stack_pool.push_back(f->stack);
        f->stack = nullptr;
    }
}

}  // namespace

void TraceLine(std::string const& s) {
    if (g_trace_verbose) {
        ::fprintf(stderr,
                  "[%llu t=%.6f p%d f%d] %s\n",
                  static_cast<unsigned long long>(g_step),
                  static_cast<double>(g_now) / 1e9,
                  g_cur != nullptr and g_cur->proc != nullptr ? g_cur->proc->pid
                                                              : 0,
                  g_cur != nullptr ? g_cur->id : -1,
                  s.c_str());
    }
}
void Note(std::string const& msg) {
    ++g_seq;
    MixStr(msg);
    char buf[64];
    snprintf(buf,
             sizeof buf,
             "#%llu p%d.f%d ",
             static_cast<unsigned long long>(g_seq),
             g_cur != nullptr ? g_cur->proc->pid : 0,
             g_cur != nullptr ? g_cur->id : -1);
    if (g_trace_lines.size() < 4000) {
        g_trace_lines.push_back(buf + msg);
    }
    TraceLine("NOTE " + msg);
}
void Mix(std::uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001b3ULL + (g_hash >> 29U); }
void MixStr(std::string const& s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (char c : s) {
        h = (h ^ static_cast<unsigned char>(c)) * 0x100000001b3ULL;
    }
    Mix(h);
}
void State(std::uint64_t h) { g_states.insert(h); }
std::uint64_t Seq() { return ++g_seq; }
RunCtx& Ctx() { return g_ctx; }
bool InSim() { return g_cur != nullptr; }
std::uint64_t NowNs() { return g_now; }
void AdvanceNs(std::uint64_t ns) { g_now += ns; }
int FiberId() { return g_cur != nullptr ? g_cur->id : -1; }
void Probe(std::string const& name, std::uint64_t n) { g_probes[name] += n; }
Rng& EnvRng() { return g_re; }
std::uint64_t RunSalt() { return g_ctx.seed * 0x9e3779b97f4a7c15ULL + 77; }
std::uint64_t Choice(std::uint64_t n) { return g_re.Below(n); }
void SetLiveness(std::string const& prop, std::string const& what) {
    g_live_prop = prop;
    g_live_what = what;
}
std::map<int, Proc*>& Procs() { return g_procs; }
int NumCrashes() { return g_crashes; }

Quiet::Quiet() {
    if (g_cur != nullptr) {
        ++g_cur->quiet;
    }
    g_active = false;
}
Quiet::~Quiet() {
    if (g_cur != nullptr) {
        if (--g_cur->quiet == 0) {
            g_active = true;
        }
    }
}

void EndRun(std::string const& status,
            std::string const& prop,
            std::string const& msg) {
    g_result.status = status;
    g_result.prop = prop;
    g_result.msg = msg;
    g_end = true;
    if (g_cur != nullptr) {
        g_req = Req::None;
        SwitchToMain();
    }
    __builtin_trap();
}

void Violation(std::string const& prop, std::string const& msg) {
    Note("VIOLATION " + prop + ": " + msg);
    if (prop == g_ctx.prop) {
        EndRun("violation", prop, msg);
    }
    Probe("other_violation:" + prop);
}
void Inconclusive(std::string const& msg) {
    EndRun("inconclusive", "", msg);
}

void SlowPoint(int kind) {
    // called on a fiber with g_active
    if (g_step > g_ctx.max_steps) {
        EndRun("steplimit", g_live_prop, "step limit reached: " + g_live_what);
    }
    g_now += kind == 2 ? 700 : kind == 0 ? 20 : 0;
    bool sw = false;
    switch (g_ctx.sched.mode) {
        case 0:
            if (kind == 1) {
                sw = true;
            }
            else {
                double const p =
                    kind == 2 ? g_ctx.sched.p_sys : g_ctx.sched.p_sync;
                sw = g_rs.Chance(p);
            }
            if (g_step >= g_next) {
                DrawNextMem();
            }
            break;
        case 1:
            if (not g_pct.empty() and g_pct.back() <= g_step) {
                while (not g_pct.empty() and g_pct.back() <= g_step) {
                    g_pct.pop_back();
                }
                g_cur->prio = --g_low_prio;
                DrawNextMem();
                sw = true;
            }
            else if (kind != 1) {
                sw = true;
            }
            break;
        case 2:
            DrawNextMem();
            sw = g_next == g_step;
            break;
        default:
            break;
    }
    if (not sw and g_min_deadline <= g_now) {
        WakeExpired();
        RecomputeMinDeadline();
    }
    if (sw) {
        g_forced_other = true;
        g_yield_kind = 0;
        // quick exit: nobody else runnable
        g_last = g_cur;
        Fiber* n = PickNext();
        g_forced_other = false;
        if (n == g_cur) {
            if (g_ctx.sched.mode == 2) {
                DrawNextMem();
            }
            return;
        }
        ++g_preempt;
        g_req = Req::Yield;
        // hand the decision to the loop
        extern Fiber* g_handoff;
        g_handoff = n;
        SwitchToMain();
    }
}
Fiber* g_handoff = nullptr;

void YieldPoint() {
    if (not g_active) {
        return;
    }
    ++g_step;
    if (g_step > g_ctx.max_steps) {
        EndRun("steplimit", g_live_prop, "step limit reached: " + g_live_what);
    }
    g_now += 200;
    g_yield_kind = 1;
    g_last = g_cur;
    Fiber* n = PickNext();
    g_yield_kind = 0;
    if (g_ctx.sched.mode == 2 or g_step >= g_next) {
        DrawNextMem();
    }
    if (n == g_cur) {
        return;
    }
    g_req = Req::Yield;
    g_handoff = n;
    SwitchToMain();
}

void Point(int kind) {
    if (kind == 2) {
        SysPoint();
    }
    else {
        SyncPoint();
    }
}

bool Block(void const* obj, std::uint64_t deadline) {
    Fiber* f = g_cur;
    if (f->quiet > 0) {
        // oracle code must never block
        EndRun("inconclusive", "", "blocking operation in quiet section");
    }
    ++g_step;
    if (g_step > g_ctx.max_steps) {
        EndRun("steplimit", g_live_prop, "step limit reached: " + g_live_what);
    }
    if (g_trace_verbose) {
        f->bt.resize(40);
        f->bt.resize(static_cast<std::size_t>(backtrace(f->bt.data(), 40)));
    }
    f->st = FState::Blocked;
    f->wait_obj = obj;
    f->deadline = deadline == 0 ? 0 : std::max<std::uint64_t>(deadline, 1);
    f->timed_out = false;
    if (deadline != 0) {
        g_min_deadline = std::min(g_min_deadline, f->deadline);
    }
    g_req = Req::Yield;
    SwitchToMain();
    f->wait_obj = nullptr;
    f->deadline = 0;
    return not f->timed_out;
}

void Wake(void const* obj, int n) {
    if (n >= (1 << 20)) {
        for (auto* f : g_fibers) {
            if (f->st == FState::Blocked and f->wait_obj == obj) {
                f->st = FState::Runnable;
                f->timed_out = false;
                f->deadline = 0;
            }
        }
        return;
    }
    while (n-- > 0) {
        std::vector<Fiber*> w;
        for (auto* f : g_fibers) {
            if (f->st == FState::Blocked and f->wait_obj == obj) {
                w.push_back(f);
            }
        }
        if (w.empty()) {
            return;
        }
        auto* f = w[g_re.Below(w.size())];
        f->st = FState::Runnable;
        f->timed_out = false;
        f->deadline = 0;
    }
}

void SleepNs(std::uint64_t ns) {
    if (g_cur == nullptr) {
        return;
    }
    Block(&g_cur->deadline, g_now + ns + 1);
}

extern "C" void sim_fiber_main() {
    auto* eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
    eh[0] = nullptr;
    eh[1] = nullptr;
    errno = 0;
    g_cur->entry();
    FiberExit();
}

Fiber* NewFiber(Proc* p, std::function<void()> entry) {
    auto* f = new Fiber;
    f->id = static_cast<int>(g_fibers.size());
    f->proc = p;
    f->entry = std::move(entry);
    if (not g_stack_pool.empty()) {
        f->stack = g_stack_pool.back();
        g_stack_pool.pop_back();
    }
    else {
        void* m = mmap(nullptr,
                       kStack + 4096,
                       PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                       -1,
                       0);
        if (m == MAP_FAILED) {
            __builtin_trap();
        }
        mprotect(m, 4096, PROT_NONE);
        f->stack = static_cast<char*>(m);
    }
    f->stack_top = f->stack + kStack + 4096;
    auto* sp = reinterpret_cast<std::uint64_t*>(f->stack_top);
    *--sp = 0;
    *--sp = 0;  // alignment
    *--sp = reinterpret_cast<std::uint64_t>(&sim_boot);  // return address
    for (int i = 0; i < 6; ++i) {
        *--sp = 0;
    }
    --sp;
    auto* w = reinterpret_cast<std::uint32_t*>(sp);
    w[0] = 0x1f80;
    w[1] = 0x037f;
    f->sp = sp;
    f->prio = static_cast<std::int64_t>(g_rs.Next() >> 20U) + 1;
    g_fibers.push_back(f);
    p->fibers.insert(f);
    return f;
}

Proc* NewProc(std::string const& name, int ppid) {
    auto* p = new Proc;
    p->pid = g_next_pid++;
    p->ppid = ppid;
    p->name = name;
    g_procs[p->pid] = p;
    return p;
}
Proc* FindProc(int pid) {
    auto it = g_procs.find(pid);
    return it == g_procs.end() ? nullptr : it->second;
}

void ReleaseHeld(Fiber* f);

void ProcExit(Proc* p, int status, bool crashed) {
    if (not p->alive) {
        return;
    }
    p->alive = false;
    p->crashed = crashed;
    p->status = status;
    if (crashed) {
        ++g_crashes;
    }
    TraceLine("process " + std::to_string(p->pid) + " (" + p->name +
              ") ended, status " + std::to_string(status) +
              (crashed ? " CRASH" : ""));
    VfsCloseAll(p);
    for (auto* f : p->fibers) {
        if (f->st != FState::Done and f->proc == p) {
            f->st = FState::Dead;
            ReleaseHeld(f);
        }
        // a fiber currently executing a forked child (f->proc != p) goes on
        // as an orphan; it ends when the child part ends
    }
    Wake(p);
    Wake(&g_procs);
}

int ForkCurrent() {
    Fiber* f = g_cur;
    Proc* parent = f->proc;
    auto* c = NewProc(parent->name + "+", parent->pid);
    c->fds = parent->fds;
    c->cloexec = parent->cloexec;
    c->cwd = parent->cwd;
    c->umask = parent->umask;
    c->env = parent->env;
    c->faults = parent->faults;
    c->exe = parent->exe;
    c->mod = parent->mod;
    f->forks.emplace_back();
    f->forks.back().parent = parent;
    f->forks.back().child = c->pid;
    g_req = Req::Fork;
    SwitchToMain();
    return g_cur->fork_ret;
}

// end of the child part of a simulated fork: go back to the parent
[[noreturn]] static void Unfork() {
    g_req = Req::Unfork;
    SwitchToMain();
    __builtin_unreachable();
}

void ExitCurrent(int code) {
    Fiber* f = g_cur;
    if (not f->forks.empty() and f->forks.back().child == f->proc->pid) {
        Proc* c = f->proc;
        c->fibers.clear();
        ProcExit(c, (code & 0xff) << 8, false);
        Unfork();
    }
    Proc* p = f->proc;
    ProcExit(p, (code & 0xff) << 8, false);
    f->st = FState::Dead;
    g_req = Req::None;
    SwitchToMain();
    __builtin_unreachable();
}

void DieCurrent(int sig) {
    Fiber* f = g_cur;
    if (not f->forks.empty() and f->forks.back().child == f->proc->pid) {
        Proc* c = f->proc;
        c->fibers.clear();
        ProcExit(c, sig & 0x7f, false);
        Unfork();
    }
    Proc* p = f->proc;
    ProcExit(p, sig & 0x7f, true);
    f->st = FState::Dead;
    g_req = Req::None;
    SwitchToMain();
    __builtin_unreachable();
}

void ExecCurrent(std::function<int()> prog, std::string const& exe) {
    Fiber* f = g_cur;
    Proc* p = f->proc;
    p->exe = exe;
    std::vector<int> cl;
    for (auto const& [fd, ce] : p->cloexec) {
        if (ce) {
            cl.push_back(fd);
        }
    }
    for (int fd : cl) {
        p->fds.erase(fd);
        p->cloexec.erase(fd);
    }
    if (not f->forks.empty() and f->forks.back().child == p->pid) {
        p->fibers.clear();
        p->mod = nullptr;
        NewFiber(p, [p, prog = std::move(prog)]() {
            int const rc = prog();
            (void)p;
            ExitCurrent(rc);
        });
        Unfork();
    }
    // exec without fork: run in place
    int const rc = prog();
    ExitCurrent(rc);
}

void IsolateLibrary(std::string const& name) {
    struct Arg {
        std::string name;
    } arg{name};
    dl_iterate_phdr(
        [](dl_phdr_info* i, std::size_t, void* a) -> int {
            if (std::string{i->dlpi_name}.find(static_cast<Arg*>(a)->name) ==
                std::string::npos) {
                return 0;
            }
            std::uintptr_t relro = 0;
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                auto const& h = i->dlpi_phdr[k];
                if (h.p_type == PT_GNU_RELRO) {
                    relro = i->dlpi_addr + h.p_vaddr + h.p_memsz;
                }
            }
            relro = (relro + 4095) & ~std::uintptr_t{4095};
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                auto const& h = i->dlpi_phdr[k];
                if (h.p_type != PT_LOAD or (h.p_flags & PF_W) == 0) {
                    continue;
                }
                auto lo = i->dlpi_addr + h.p_vaddr;
                auto const hi = lo + h.p_memsz;
                if (relro > lo and relro <= hi) {
                    lo = relro;
                }
                g_mods.push_back({reinterpret_cast<char*>(lo), hi - lo});
                g_mod_pristine.insert(g_mod_pristine.end(),
                                      reinterpret_cast<char*>(lo),
                                      reinterpret_cast<char*>(hi));
            }
            return 1;
        },
        &arg);
}

int Spawn(std::string const& name, std::function<int()> fn) {
    auto* p = NewProc(name, g_cur != nullptr ? g_cur->proc->pid : 1);
    if (g_cur != nullptr) {
        p->env = g_cur->proc->env;
        p->cwd = g_cur->proc->cwd;
    }
    NewFiber(p, [fn = std::move(fn)]() {
        int const rc = fn();
        ExitCurrent(rc);
    });
    return p->pid;
}
int Wait(int pid) {
    auto* p = FindProc(pid);
    if (p == nullptr) {
        return -1;
    }
    while (p->alive) {
        Block(p);
    }
    p->reaped = true;
    return p->status;
}
bool Alive(int pid) {
    auto* p = FindProc(pid);
    return p != nullptr and p->alive;
}
void Kill(int pid) {
    auto* p = FindProc(pid);
    if (p == nullptr or not p->alive) {
        return;
    }
    if (g_cur != nullptr and g_cur->proc == p) {
        DieCurrent(9);
    }
    ProcExit(p, 9, true);
}
bool Crashed(int pid) {
    auto* p = FindProc(pid);
    return p != nullptr and p->crashed;
}
int CurPid() { return g_cur != nullptr ? g_cur->proc->pid : 0; }
void SetFaults(int pid, bool on) {
    if (auto* p = FindProc(pid)) {
        p->faults = on;
    }
}
void SetFaultsAll(bool on) {
    for (auto& [pid, p] : g_procs) {
        p->faults = on;
    }
}
int FaultsIn(int pid) {
    auto* p = FindProc(pid);
    return p != nullptr ? p->nfaults : 0;
}
int FaultsInjected() { return g_faults_total; }
void SetFaultPaths(std::vector<std::string> subs) {
    g_fault_paths = std::move(subs);
}
void RegisterProgram(std::string const& path, ProgramFn fn) {
    g_programs[path] = std::move(fn);
}
ProgramFn const* FindProgram(std::string const& path) {
    auto it = g_programs.find(path);
    return it == g_programs.end() ? nullptr : &it->second;
}
std::map<std::string, std::string> const& ProcEnv() { return g_cur->proc->env; }

void CountFaultIn(Proc* p) {
    for (; p != nullptr; p = FindProc(p->ppid)) {
        ++p->nfaults;
        if (p->ppid == p->pid) {
            break;
        }
    }
}
Fault NextFault(std::initializer_list<Fault> kinds,
                std::string const& what,
                std::int64_t* arg) {
    if (not g_active or g_cur == nullptr or not g_cur->proc->faults) {
        return kNone;
    }
    if (not g_fault_paths.empty()) {
        bool ok = false;
        for (auto const& s : g_fault_paths) {
            ok = ok or what.find(s) != std::string::npos;
        }
        if (not ok) {
            return kNone;
        }
    }
    ++g_fault_idx;
    Fault r = kNone;
    std::int64_t a = 0;
    if (g_ctx.faults.use_trace) {
        auto const& tr = g_ctx.faults.trace;
        while (g_fi < tr.size() and
               static_cast<std::uint64_t>(tr[g_fi][0]) < g_fault_idx) {
            ++g_fi;
        }
        if (g_fi < tr.size() and
            static_cast<std::uint64_t>(tr[g_fi][0]) == g_fault_idx) {
            auto const k = static_cast<Fault>(tr[g_fi][1]);
            for (auto x : kinds) {
                if (x == k) {
                    r = k;
                    a = tr[g_fi][2];
                }
            }
            ++g_fi;
        }
    }
    else {
        bool const spent = g_faults_total >= g_ctx.faults.max_faults or
                           g_fault_idx <= g_ctx.faults.skip;
        for (auto k : kinds) {
            if ((not spent or k == kSpurious) and
                g_ctx.faults.rate[k] > 0 and
                g_rf.Chance(g_ctx.faults.rate[k])) {
                r = k;
                a = static_cast<std::int64_t>(g_rf.Next() & 0xffff);
                break;
            }
        }
    }
    if (r != kNone) {
        // spurious wake-ups and slow threads excuse nothing
        if (r != kSpurious) {
            ++g_faults_total;
            if (r != kStall) {
                CountFaultIn(g_cur->proc);
            }
        }
        ++g_fault_counts[r];
        g_frec.push_back({static_cast<std::int64_t>(g_fault_idx),
                          static_cast<std::int64_t>(r),
                          a});
        Note(std::string{"FAULT "} + kFaultNames[r] + " at " + what);
        if (arg != nullptr) {
            *arg = a;
        }
    }
    return r;
}
Fault AskFault(std::initializer_list<Fault> kinds, std::string const& what) {
    return NextFault(kinds, what);
}

void SwarmSched(RunCtx& ctx, Rng& rng) {
    auto& s = ctx.sched;
    switch (rng.Below(10)) {
        case 0:
        case 1:
        case 2:
            s.mode = 1;
            s.pct_d = static_cast<int>(rng.Range(1, 6));
            s.pct_len = 200ULL << rng.Below(10);
            break;
        case 3:  // mostly sequential
            s.mode = 0;
            s.p_sync = 0.01;
            s.p_sys = 0.02;
            s.p_mem = 0.0001;
            break;
        default: {
            s.mode = 0;
            static double const ps[] = {0.02, 0.05, 0.1, 0.2, 0.4, 0.6};
            static double const pm[] = {
                0.0, 0.0002, 0.001, 0.005, 0.02, 0.1};
            s.p_sync = ps[rng.Below(6)];
            s.p_sys = ps[rng.Below(6)];
            s.p_mem = pm[rng.Below(6)];
        }
    }
    s.spurious = rng.Chance(0.2);
    if (s.spurious) {
        ctx.faults.rate[kSpurious] = 0.1;
    }
}

// ------------------------------------------------------------- main loop
void RunLoop(std::function<void()> main_fn) {
    g_rs = Rng{g_ctx.seed * 3 + 1};
    g_rf = Rng{g_ctx.seed * 3 + 2};
    g_re = Rng{g_ctx.seed * 3 + 3};
    g_now = 1700000000ULL * 1000000000ULL + (g_ctx.seed % 1000) * 1000003ULL;
    if (g_ctx.sched.mode == 1) {
        for (int i = 0; i < g_ctx.sched.pct_d; ++i) {
            g_pct.push_back(1 + g_rs.Below(g_ctx.sched.pct_len));
        }
        std::sort(g_pct.rbegin(), g_pct.rend());
    }
    VfsReset();
    auto* p = NewProc("main", 1);
    NewFiber(p, [main_fn = std::move(main_fn)]() {
        main_fn();
        g_result.status = "ok";
        g_end = true;
    });
    DrawNextMem();
    std::uint64_t const t0 = g_now;
    (void)t0;
    while (not g_end) {
        Fiber* n = g_handoff;
        g_handoff = nullptr;
        if (n == nullptr or n->st != FState::Runnable) {
            ++g_step;
            n = PickNext();
            if (g_ctx.sched.mode == 2 or g_step >= g_next) {
                DrawNextMem();
            }
        }
        if (n == nullptr) {
            // deadlock
            for (auto* f : g_fibers) {
                if (f->st == FState::Blocked and not f->bt.empty()) {
                    auto t = "BT fiber " + std::to_string(f->id) + "\n";
                    for (auto* a : f->bt) {
                        Dl_info di{};
                        if (dladdr(a, &di) != 0) {
                            char buf[400];
                            snprintf(buf, sizeof buf, "BT %s +%#lx\n",
                                     di.dli_fname,
                                     static_cast<unsigned long>(
                                         static_cast<char*>(a) -
                                         static_cast<char*>(di.dli_fbase)));
                            t += buf;
                        }
                    }
                    syscall(SYS_write, 2, t.data(), t.size());
                }
            }
            std::string what = g_live_what + " [blocked:";
            for (auto* f : g_fibers) {
                if (f->st == FState::Blocked) {
                    what += " p" + std::to_string(f->proc->pid) + ".f" +
                            std::to_string(f->id);
                }
            }
            g_result.status = "deadlock";
            g_result.prop = g_live_prop;
            g_result.msg = "deadlock: no thread can run, " + what + "]";
            break;
        }
        g_cur = n;
        g_last = n;
        g_active = n->quiet == 0;
        LoadMod(n->proc);
        LoadTls(n);
        sim_switch(&g_main_sp, n->sp);
        Fiber* f = g_cur;
        SaveTls(f);
        g_active = false;
        auto const req = g_req;
        g_req = Req::None;
        switch (req) {
            case Req::Fork: {
                auto& r = f->forks.back();
                auto* sp = static_cast<char*>(f->sp);
                r.sp = f->sp;
                r.stack.assign(sp, f->stack_top);
                f->proc = FindProc(r.child);
                r.parent->fibers.insert(f);  // still accounted to parent
                f->proc->fibers.insert(f);
                f->fork_ret = 0;
                g_handoff = f;
            } break;
            case Req::Unfork: {
                auto r = std::move(f->forks.back());
                f->forks.pop_back();
                if (not r.parent->alive) {
                    f->st = FState::Dead;
                    break;
                }
                f->sp = r.sp;
                memcpy(r.sp, r.stack.data(), r.stack.size());
                f->proc = r.parent;
                f->fork_ret = r.child;
                f->st = FState::Runnable;
                g_handoff = f;
            } break;
            case Req::Exit: {
                f->st = FState::Done;
                f->proc->fibers.erase(f);
                Wake(f);
                RemoveFiber(f);
            } break;
            default:
                break;
        }
        g_cur = nullptr;
    }
    g_cur = nullptr;
    g_active = false;
}

json CollectResult() {
    json j;
    j["seed"] = g_ctx.seed;
    j["status"] = g_result.status;
    if (not g_result.prop.empty()) {
        j["prop"] = g_result.prop;
    }
    if (not g_result.msg.empty()) {
        j["msg"] = g_result.msg;
    }
    j["hash"] = g_hash;
    j["sched"] = g_sched_hash;
    j["steps"] = g_step;
    j["switches"] = g_switches;
    j["preempt"] = g_preempt;
    j["simns"] = g_now - 1700000000ULL * 1000000000ULL;
    j["threads"] = g_fibers.size();
    j["procs"] = g_procs.size();
    j["sysops"] = vfs::NumOps();
    json fc = json::object();
    for (int i = 1; i < kNumFaults; ++i) {
        if (g_fault_counts[i] != 0) {
            fc[kFaultNames[i]] = g_fault_counts[i];
        }
    }
    j["faults"] = fc;
    j["fault_points"] = g_fault_idx;
    j["probes"] = g_probes;
    j["states"] = std::vector<std::uint64_t>(g_states.begin(), g_states.end());
    return j;
}
json CollectTrace() {
    json j;
    json s = json::array();
    for (auto const& [st, f] : g_rec) {
        s.push_back({st, f});
    }
    j["switches"] = s;
    json f = json::array();
    for (auto const& a : g_frec) {
        f.push_back({a[0], a[1], a[2]});
    }
    j["faults"] = f;
    j["log"] = g_trace_lines;
    return j;
}

// ------------------------------------------------------------- pthread API
static void Held(void* m) {
    if (g_cur != nullptr) {
        g_cur->held.push_back(m);
    }
}
static void Unheld(void* m) {
    if (g_cur == nullptr) {
        return;
    }
    auto& h = g_cur->held;
    for (auto it = h.rbegin(); it != h.rend(); ++it) {
        if (*it == m) {
            h.erase(std::next(it).base());
            return;
        }
    }
}
struct MX {  // overlay of pthread_mutex_t
    int lock;
    unsigned count;
    int owner;
    unsigned nusers;
    int kind;
};
struct RW {  // overlay of pthread_rwlock_t
    unsigned readers;
    unsigned writer;  // fiber id + 1
};
static void InitEnd(void* o) {
    if (g_cur != nullptr) {
        auto& v = g_cur->inits;
        v.erase(std::remove_if(v.begin(),
                               v.end(),
                               [&](auto const& e) { return e.first == o; }),
                v.end());
    }
}
void ReleaseHeld(Fiber* f) {
    // simulated processes share static storage: an initialisation that dies
    // with its process is left to the next one
    for (auto const& [o, kind] : f->inits) {
        if (kind == 0) {
            static_cast<unsigned char*>(o)[1] = 0;
        }
        else {
            *static_cast<int*>(o) = 0;
        }
        Wake(o);
    }
    f->inits.clear();
    for (auto* m : f->held) {
        auto* x = static_cast<MX*>(m);
        if (InMod(reinterpret_cast<void*>(reinterpret_cast<std::uintptr_t>(m) &
                                          ~std::uintptr_t{1}))) {
            continue;  // part of the memory that ends with the process
        }
        if ((reinterpret_cast<std::uintptr_t>(m) & 1U) != 0) {
            auto* r = reinterpret_cast<RW*>(
                reinterpret_cast<std::uintptr_t>(m) & ~std::uintptr_t{1});
            if (r->writer == static_cast<unsigned>(f->id) + 1) {
                r->writer = 0;
            }
            else if (r->readers > 0) {
                --r->readers;
            }
            Wake(r);
            continue;
        }
        x->lock = 0;
        x->count = 0;
        x->owner = 0;
        Wake(m);
    }
    f->held.clear();
}
static int CurId() { return g_cur != nullptr ? g_cur->id + 1 : 0; }
// Simulated processes share the static storage of this program. A mutex in
// static storage would be one mutex per process in reality, so its state is
// kept per simulated process.
static std::uintptr_t g_data_lo = 1;
static std::uintptr_t g_data_hi = 0;
static void FindDataSegment() {
    g_data_lo = 0;
    dl_iterate_phdr(
        [](struct dl_phdr_info* i, size_t /*unused*/, void* /*unused*/) {
            for (int k = 0; k < i->dlpi_phnum; ++k) {
                auto const& ph = i->dlpi_phdr[k];
                if (ph.p_type == PT_LOAD and (ph.p_flags & PF_W) != 0) {
                    g_data_lo = i->dlpi_addr + ph.p_vaddr;
                    g_data_hi = g_data_lo + ph.p_memsz;
                }
            }
            return 1;  // only the first object, the program itself
        },
        nullptr);
}
static MX* PerProc(MX* m) {
    auto const a = reinterpret_cast<std::uintptr_t>(m);
    if (g_data_lo == 1) {
        FindDataSegment();
    }
    if (g_cur == nullptr or a < g_data_lo or a >= g_data_hi) {
        return m;
    }
    auto& slot = g_cur->proc->static_mutex[m];
    if (slot == nullptr) {
        slot = std::make_shared<MxState>();
        static_assert(sizeof(MxState) >= sizeof(MX));
        reinterpret_cast<MX*>(slot.get())->kind = m->kind;
    }
    return reinterpret_cast<MX*>(slot.get());
}

static int MutexLock(MX* m, bool try_only, std::uint64_t deadline) {
    if (g_cur == nullptr) {
        m->lock = 1;
        return 0;
    }
    m = PerProc(m);
    SyncPoint();
    while (m->lock != 0) {
        if (m->owner == CurId()) {
            if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
                ++m->count;
                return 0;
            }
            if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) {
                return EDEADLK;
            }
        }
        if (try_only) {
            return EBUSY;
        }
        if (not Block(m, deadline)) {
            return ETIMEDOUT;
        }
    }
    m->lock = 1;
    m->owner = CurId();
    m->count = 1;
    Held(m);
    return 0;
}
static int MutexUnlock(MX* m) {
    if (g_cur == nullptr) {
        m->lock = 0;
        return 0;
    }
    m = PerProc(m);
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE and m->count > 1) {
        --m->count;
        return 0;
    }
    m->lock = 0;
    m->owner = 0;
    m->count = 0;
    Unheld(m);
    Wake(m);
    SyncPoint();
    return 0;
}
static int CondWait(void* c, MX* m, std::uint64_t deadline) {
    if (g_cur == nullptr) {
        return 0;
    }
    m = PerProc(m);
    SyncPoint();
    // release without a scheduling point: wait is atomic with unlock
    unsigned const cnt = m->count;
    m->lock = 0;
    m->owner = 0;
    m->count = 0;
    Unheld(m);
    Wake(m);
    bool ok = true;
    bool spurious = false;
    if (g_ctx.sched.spurious) {
        bool const save = g_cur->proc->faults;
        g_cur->proc->faults = true;
        spurious = NextFault({kSpurious}, "condvar") == kSpurious;
        g_cur->proc->faults = save;
    }
    if (spurious) {
        YieldPoint();
    }
    else {
        ok = Block(c, deadline);
    }
    while (m->lock != 0) {
        Block(m);
    }
    m->lock = 1;
    m->owner = CurId();
    m->count = cnt;
    Held(m);
    return ok ? 0 : ETIMEDOUT;
}
static std::uint64_t AbsNs(struct timespec const* ts) {
    auto v = static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ULL +
             static_cast<std::uint64_t>(ts->tv_nsec);
    return v == 0 ? 1 : v;
}

struct KeyRec {
    bool used = false;
    void (*dtor)(void*) = nullptr;
};
static std::vector<KeyRec>& Keys() {
    static auto* k = new std::vector<KeyRec>();
    return *k;
}
static std::vector<void*>& MainTls() {
    static auto* k = new std::vector<void*>();
    return *k;
}
static std::vector<void*>& CurTls() {
    return g_cur != nullptr ? g_cur->tls : MainTls();
}
static void RunTlsDtors() {
    while (not g_cur->tls_dtors.empty()) {
        auto d = g_cur->tls_dtors.back();
        g_cur->tls_dtors.pop_back();
        d.first(d.second);
    }
    for (int round = 0; round < 3; ++round) {
        for (std::size_t i = 0; i < g_cur->tls.size(); ++i) {
            void* v = g_cur->tls[i];
            if (v != nullptr) {
                g_cur->tls[i] = nullptr;
                if (i < Keys().size() and Keys()[i].used and
                    Keys()[i].dtor != nullptr) {
                    Keys()[i].dtor(v);
                }
            }
        }
    }
}

}  // namespace sim

using namespace sim;

#define REAL(ret, name, ...)                                         \
    using name##_rfn = ret (*)(__VA_ARGS__);                           \
    static name##_rfn real_##name() {                                  \
        static name##_rfn f =                                          \
            reinterpret_cast<name##_rfn>(dlsym(RTLD_NEXT, #name));     \
        return f;                                                    \
    }

extern "C" {

// C++ function-local statics
int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    if (g_cur != nullptr) {
        SyncPoint();
        while (b[0] == 0 and b[1] != 0) {
            Block(g);
        }
    }
    if (b[0] != 0) {
        return 0;
    }
    b[1] = 1;
    if (g_cur != nullptr) {
        g_cur->inits.emplace_back(g, 0);
    }
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    b[0] = 1;
    b[1] = 0;
    InitEnd(g);
    if (g_cur != nullptr) {
        Wake(g);
        SyncPoint();
    }
}
void __cxa_guard_abort(long long* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    b[1] = 0;
    InitEnd(g);
    if (g_cur != nullptr) {
        Wake(g);
    }
}

int pthread_create(pthread_t* t,
                   pthread_attr_t const* attr,
                   void* (*fn)(void*),
                   void* arg) noexcept {
    if (g_cur == nullptr) {
        fprintf(stderr, "dsim: pthread_create outside simulation\n");
        __builtin_trap();
    }
    int det = PTHREAD_CREATE_JOINABLE;
    if (attr != nullptr) {
        pthread_attr_getdetachstate(attr, &det);
    }
    Fiber* f = NewFiber(g_cur->proc, [fn, arg]() {
        void* r = fn(arg);
        RunTlsDtors();
        g_cur->retval = r;
    });
    f->detached = det == PTHREAD_CREATE_DETACHED;
    *t = static_cast<pthread_t>(f->id) + 1;
    SyncPoint();
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (g_cur == nullptr) {
        return EINVAL;
    }
    SyncPoint();
    Fiber* f = g_fibers.at(t - 1);
    if (f == g_cur) {
        return EDEADLK;
    }
    while (f->st != FState::Done and f->st != FState::Dead) {
        Block(f);
    }
    if (ret != nullptr) {
        *ret = f->retval;
    }
    return 0;
}
int pthread_detach(pthread_t t) noexcept {
    if (g_cur != nullptr) {
        g_fibers.at(t - 1)->detached = true;
    }
    return 0;
}
pthread_t pthread_self() noexcept {
    return g_cur != nullptr ? static_cast<pthread_t>(g_cur->id) + 1
                            : static_cast<pthread_t>(1000000);
}
int pthread_setname_np(pthread_t, char const*) noexcept { return 0; }

int pthread_mutex_init(pthread_mutex_t* m,
                       pthread_mutexattr_t const* a) noexcept {
    memset(m, 0, sizeof *m);
    if (a != nullptr) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        reinterpret_cast<MX*>(m)->kind = t;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    return MutexLock(reinterpret_cast<MX*>(m), false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    return MutexLock(reinterpret_cast<MX*>(m), true, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t* m,
                            struct timespec const* ts) noexcept {
    return MutexLock(reinterpret_cast<MX*>(m), false, AbsNs(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m,
                            clockid_t,
                            struct timespec const* ts) noexcept {
    return MutexLock(reinterpret_cast<MX*>(m), false, AbsNs(ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    return MutexUnlock(reinterpret_cast<MX*>(m));
}

int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) noexcept {
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    return CondWait(c, reinterpret_cast<MX*>(m), 0);
}
int pthread_cond_timedwait(pthread_cond_t* c,
                           pthread_mutex_t* m,
                           struct timespec const* ts) {
    return CondWait(c, reinterpret_cast<MX*>(m), AbsNs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c,
                           pthread_mutex_t* m,
                           clockid_t,
                           struct timespec const* ts) {
    return CondWait(c, reinterpret_cast<MX*>(m), AbsNs(ts));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (g_cur != nullptr) {
        SyncPoint();
        Wake(c, 1);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (g_cur != nullptr) {
        SyncPoint();
        Wake(c);
    }
    return 0;
}

static void* RwTag(void* m) {
    return reinterpret_cast<void*>(reinterpret_cast<std::uintptr_t>(m) | 1U);
}
int pthread_rwlock_init(pthread_rwlock_t* l,
                        pthread_rwlockattr_t const*) noexcept {
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static int RwRd(RW* r, bool try_only, std::uint64_t dl) {
    if (g_cur == nullptr) {
        return 0;
    }
    SyncPoint();
    while (r->writer != 0) {
        if (try_only) {
            return EBUSY;
        }
        if (not Block(r, dl)) {
            return ETIMEDOUT;
        }
    }
    ++r->readers;
    Held(RwTag(r));
    return 0;
}
static int RwWr(RW* r, bool try_only, std::uint64_t dl) {
    if (g_cur == nullptr) {
        return 0;
    }
    SyncPoint();
    while (r->writer != 0 or r->readers != 0) {
        if (try_only) {
            return EBUSY;
        }
        if (not Block(r, dl)) {
            return ETIMEDOUT;
        }
    }
    r->writer = static_cast<unsigned>(CurId());
    Held(RwTag(r));
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
    return RwRd(reinterpret_cast<RW*>(l), false, 0);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
    return RwRd(reinterpret_cast<RW*>(l), true, 0);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l,
                               struct timespec const* ts) noexcept {
    return RwRd(reinterpret_cast<RW*>(l), false, AbsNs(ts));
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l,
                               clockid_t,
                               struct timespec const* ts) noexcept {
    return RwRd(reinterpret_cast<RW*>(l), false, AbsNs(ts));
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
    return RwWr(reinterpret_cast<RW*>(l), false, 0);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
    return RwWr(reinterpret_cast<RW*>(l), true, 0);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l,
                               struct timespec const* ts) noexcept {
    return RwWr(reinterpret_cast<RW*>(l), false, AbsNs(ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l,
                               clockid_t,
                               struct timespec const* ts) noexcept {
    return RwWr(reinterpret_cast<RW*>(l), false, AbsNs(ts));
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    auto* r = reinterpret_cast<RW*>(l);
    if (g_cur == nullptr) {
        return 0;
    }
    if (r->writer != 0) {
        r->writer = 0;
    }
    else if (r->readers > 0) {
        --r->readers;
    }
    Unheld(RwTag(r));
    Wake(r);
    SyncPoint();
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    auto* s = reinterpret_cast<int*>(o);
    if (g_cur == nullptr) {
        if (*s != 2) {
            *s = 2;
            fn();
        }
        return 0;
    }
    while (true) {
        if (*s == 2) {
            return 0;
        }
        if (*s == 0) {
            *s = 1;
            g_cur->inits.emplace_back(s, 1);
            try {
                fn();
            } catch (...) {
                *s = 0;
                InitEnd(s);
                Wake(s);
                throw;
            }
            *s = 2;
            InitEnd(s);
            Wake(s);
            return 0;
        }
        Block(s);
    }
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
    Keys().push_back({true, d});
    *k = static_cast<pthread_key_t>(Keys().size() - 1);
    return 0;
}
int pthread_key_delete(pthread_key_t k) noexcept {
    if (k < Keys().size()) {
        Keys()[k].used = false;
    }
    return 0;
}
void* pthread_getspecific(pthread_key_t k) noexcept {
    auto& t = CurTls();
    return k < t.size() ? t[k] : nullptr;
}
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*d)(void*), void* o, void* dso) noexcept {
    if (g_cur == nullptr) {
        return __cxa_thread_atexit_impl(d, o, dso);
    }
    g_cur->tls_dtors.emplace_back(d, o);
    return 0;
}
int pthread_setspecific(pthread_key_t k, void const* v) noexcept {
    auto& t = CurTls();
    if (k >= t.size()) {
        t.resize(k + 1, nullptr);
    }
    t[k] = const_cast<void*>(v);
    return 0;
}
int pthread_sigmask(int, sigset_t const*, sigset_t* old) noexcept {
    if (old != nullptr) {
        sigemptyset(old);
    }
    return 0;
}

REAL(long, sysconf, int)
long sysconf(int n) noexcept {
    if (g_cur != nullptr and
        (n == _SC_NPROCESSORS_ONLN or n == _SC_NPROCESSORS_CONF)) {
        return 2;
    }
    return real_sysconf()(n);
}

int sched_yield() noexcept {
    if (g_cur != nullptr) {
        YieldPoint();
    }
    return 0;
}
REAL(int, nanosleep, struct timespec const*, struct timespec*)
int nanosleep(struct timespec const* ts, struct timespec* rem) {
    if (g_cur == nullptr) {
        return real_nanosleep()(ts, rem);
    }
    Note("sleep " + std::to_string(ts->tv_sec) + "." +
         std::to_string(ts->tv_nsec));
    SleepNs(static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ULL +
            static_cast<std::uint64_t>(ts->tv_nsec));
    return 0;
}
REAL(int, clock_nanosleep, clockid_t, int, struct timespec const*, struct timespec*)
int clock_nanosleep(clockid_t c,
                    int flags,
                    struct timespec const* ts,
                    struct timespec* rem) {
    if (g_cur == nullptr) {
        return real_clock_nanosleep()(c, flags, ts, rem);
    }
    std::uint64_t const v = AbsNs(ts);
    if ((flags & TIMER_ABSTIME) != 0) {
        if (v > g_now) {
            SleepNs(v - g_now);
        }
    }
    else {
        SleepNs(v);
    }
    return 0;
}
int usleep(useconds_t us) {
    if (g_cur == nullptr) {
        struct timespec ts {
            us / 1000000, static_cast<long>(us % 1000000) * 1000
        };
        return real_nanosleep()(&ts, nullptr);
    }
    SleepNs(static_cast<std::uint64_t>(us) * 1000);
    return 0;
}
unsigned sleep(unsigned s) {
    if (g_cur != nullptr) {
        SleepNs(static_cast<std::uint64_t>(s) * 1000000000ULL);
    }
    return 0;
}
REAL(int, clock_gettime, clockid_t, struct timespec*)
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (g_cur == nullptr) {
        return real_clock_gettime()(c, ts);
    }
    g_now += 50;
    ts->tv_sec = static_cast<time_t>(g_now / 1000000000ULL);
    ts->tv_nsec = static_cast<long>(g_now % 1000000000ULL);
    return 0;
}
REAL(int, gettimeofday, struct timeval*, void*)
int gettimeofday(struct timeval* tv, void* tz) noexcept {
    if (g_cur == nullptr) {
        return real_gettimeofday()(tv, tz);
    }
    g_now += 50;
    tv->tv_sec = static_cast<time_t>(g_now / 1000000000ULL);
    tv->tv_usec = static_cast<long>(g_now % 1000000000ULL / 1000);
    return 0;
}
REAL(time_t, time, time_t*)
time_t time(time_t* t) noexcept {
    if (g_cur == nullptr) {
        return real_time()(t);
    }
    auto v = static_cast<time_t>(g_now / 1000000000ULL);
    if (t != nullptr) {
        *t = v;
    }
    return v;
}

// randomness

static void FillRandom(void* b, size_t n) {
    auto* p = static_cast<unsigned char*>(b);
    for (size_t i = 0; i < n; ++i) {
        p[i] = static_cast<unsigned char>(g_re.Next() >> 13U);
    }
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
    if (g_cur == nullptr) {
        memset(b, 0x5a, n);  // deterministic also during set-up
        return static_cast<ssize_t>(n);
    }
    (void)f;
    FillRandom(b, n);
    return static_cast<ssize_t>(n);
}
int getentropy(void* b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}
unsigned arc4random() {
    unsigned v = 0;
    getrandom(&v, sizeof v, 0);
    return v;
}
void arc4random_buf(void* b, size_t n) { getrandom(b, n, 0); }

int get_nprocs() noexcept { return 4; }

REAL(long, syscall, long, long, long, long, long, long, long)
long syscall(long nr, ...) noexcept {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto& x : a) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (nr == SYS_getrandom) {
        return getrandom(reinterpret_cast<void*>(a[0]),
                         static_cast<size_t>(a[1]),
                         static_cast<unsigned>(a[2]));
    }
    if (g_cur == nullptr) {
        return real_syscall()(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    if (nr == SYS_futex) {
        auto* addr = reinterpret_cast<int*>(a[0]);
        int const op = static_cast<int>(a[1]) & 0x7f;
        if (op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET) {
            SyncPoint();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) !=
                static_cast<int>(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            std::uint64_t dl = 0;
            if (a[3] != 0) {
                auto v = AbsNs(reinterpret_cast<struct timespec*>(a[3]));
                dl = op == FUTEX_WAIT ? g_now + v : v;
            }
            if (not Block(addr, dl)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET) {
            SyncPoint();
            Wake(addr, static_cast<int>(a[2]) > (1 << 20)
                           ? 1 << 30
                           : static_cast<int>(a[2]));
            return 1;
        }
    }
    if (nr == SYS_gettid) {
        return 5000 + g_cur->id;
    }
    errno = ENOSYS;
    return -1;
}
pid_t gettid() noexcept {
    return g_cur != nullptr ? 5000 + g_cur->id
                            : static_cast<pid_t>(real_syscall()(
                                  SYS_gettid, 0, 0, 0, 0, 0, 0));
}
}  // extern "C"

// std::random_device is implemented in libstdc++ with CPU instructions
#include <random>
namespace std {
void random_device::_M_init(std::string const&) {}
void random_device::_M_init_pretr1(std::string const&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    return static_cast<unsigned>(sim::InSim() ? sim::EnvRng().Next() >> 7U
                                              : 0x12345678U);
}
random_device::result_type random_device::_M_getval_pretr1() {
    return _M_getval();
}
double random_device::_M_getentropy() const noexcept { return 32.0; }
}  // namespace std
