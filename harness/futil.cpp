// File-level utilities: atomic writes (C21), temporary directories (C22), file
// locks (C23), subprocesses (C24) and executables (C25). Several simulated
// processes with threads on a simulated file system, with crashes and faults.
#include <unistd.h>

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>

#include "dsim/sim.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/crypto/hash_function.hpp"
#include "src/buildtool/file_system/atomic.hpp"
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/fs_utils.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/buildtool/system/system_command.hpp"
#include "src/utils/cpp/file_locking.hpp"
#include "src/utils/cpp/tmp_dir.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;
namespace fs = std::filesystem;

namespace {
std::string Str(json const& j) { return j.get<std::string>(); }
std::string Fill(std::string const& head, std::size_t n) {
    std::string s = head;
    s.reserve(n + head.size() + 8);
    while (s.size() < n) {
        s += head;
    }
    return s + "#end";
}

struct Installed {
    std::string content;
    std::uint64_t seq;
};
struct Held {
    int pid;
    bool shared;
    int id;
};
struct Cmd {
    bool started = false, ended = false;
    int code = -1;  // exit code, or 128+signal
    std::string out, err, cwd;
    bool bad_env = false;
    int pid = 0;
};
struct World {
    // C21
    std::map<std::string, std::vector<Installed>> hist;
    std::set<std::string> known;  // contents whose write has begun
    // C22: path -> owner handle id; state 1 live, 2 being released
    struct Tmp {
        int pid;
        int state;
        int refs;
    };
    std::map<std::string, Tmp> tmp;
    std::map<std::string, std::string> within;  // contents -> directory
    std::map<std::string, int> outside;  // files that nobody may touch
    // C23
    std::map<std::string, std::vector<Held>> held;
    // C24/25
    std::map<std::string, Cmd> cmds;
    std::map<std::string, std::string> ready;  // executable -> content
    std::unique_ptr<StorageConfig> cfg;
    std::map<std::string, std::pair<std::string, bool>> wrote;
};
World* W = nullptr;
int g_next = 0;
int NextId() {
    sim::Quiet const q;
    return ++g_next;
}

bool Clean(int f0) { return sim::FaultsIn(sim::CurPid()) == f0; }
int F() { return sim::FaultsIn(sim::CurPid()); }

// ------------------------------------------------------------------- C21
std::string FilePath(int k) {
    return k < 2 ? "/w/d/f" + std::to_string(k)
                 : "/w/m/ids/f" + std::to_string(k);
}
void HookAtomic(char const* op, std::string const& path) {
    for (int k = 0; k < 4; ++k) {
        if (path != FilePath(k)) {
            continue;
        }
        auto const* c = sim::vfs::Peek(path);
        if (c == nullptr) {
            if (not W->hist[path].empty()) {
                Violation("C21",
                          std::string{"file disappeared by "} + op + ": " +
                              path);
            }
            return;
        }
        if (not W->known.contains(*c)) {
            Violation("C21",
                      std::string{"partial content visible after "} + op +
                          " of " + path + ": " + std::to_string(c->size()) +
                          " bytes");
            return;
        }
        auto& h = W->hist[path];
        if (h.empty() or h.back().content != *c) {
            h.push_back({*c, sim::Seq()});
        }
        else {
            h.back().seq = sim::Seq();
        }
    }
}
void OpWrite(json const& o) {
    int const k = o[1].get<int>();
    auto const path = FilePath(k);
    std::string content;
    std::uint64_t s0 = 0;
    {
        sim::Quiet q;
        content = o[2].get<std::size_t>() == 0
                      ? std::string{}
                      : Fill(std::to_string(NextId()) + ":", o[2]);
        W->known.insert(content);
        s0 = sim::Seq();
    }
    auto const f0 = F();
    bool const tree_id = o[3].get<bool>();
    bool const ok = tree_id ? StorageUtils::WriteTreeIDFile(path, content)
                            : FileSystemAtomic::WriteFile(path, content);
    sim::Quiet q;
    if (not ok) {
        if (Clean(f0)) {
            Violation("C21", "write failed without any fault: " + path);
        }
        sim::Probe("write_failed");
        return;
    }
    bool found = false;
    for (auto const& i : W->hist[path]) {
        found = found or (i.content == content and i.seq >= s0);
    }
    if (not found) {
        Violation("C21",
                  "success reported but the content was never in place: " +
                      path);
    }
    sim::Probe("written");
}
void OpRead(json const& o) {
    auto const path = FilePath(o[1].get<int>());
    std::size_t h0 = 0;
    {
        sim::Quiet q;
        h0 = W->hist[path].size();
    }
    auto const f0 = F();
    auto c = FileSystemManager::ReadFile(path);
    sim::Quiet q;
    auto const& h = W->hist[path];
    if (not c) {
        if (h0 > 0 and Clean(f0)) {
            Violation("C21", "existing file not readable: " + path);
        }
        return;
    }
    bool found = false;
    for (std::size_t i = h0 > 0 ? h0 - 1 : 0; i < h.size(); ++i) {
        found = found or h[i].content == *c;
    }
    if (not found) {
        // a read error may be reported as such, but not as other content
        Violation("C21",
                  "read a content never in place (" +
                      std::to_string(c->size()) + " bytes): " + path);
    }
    sim::Probe("read");
}

// ------------------------------------------------------------------- C22
void HookTmp(char const* op, std::string const& path) {
    std::string const o{op};
    if (o == "rmdir" or o == "unlink") {
        // a handed-out path, or something its user has put there
        auto const u = W->within.find(path);
        auto const t = W->tmp.find(u == W->within.end() ? path : u->second);
        if (t != W->tmp.end() and t->second.state == 1 and
            sim::Alive(t->second.pid)) {
            Violation("C22", "in use, but removed: " + path);
            return;
        }
        if (W->outside.contains(path)) {
            Violation("C22", "removed outside of temporary dir: " + path);
        }
    }
}
struct TmpUser {
    int pid{};
    std::vector<TmpDir::Ptr> dirs;
    std::vector<TmpFile::Ptr> files;

    void Add(std::string const& p) {
        auto it = W->tmp.find(p);
        if (it != W->tmp.end() and sim::Alive(it->second.pid) and
            it->second.state != 0) {
            Violation("C22", "handed out twice: " + p);
        }
        W->tmp[p] = {pid, 1, 1};
    }
    static bool Under(std::string const& p, std::string const& d) {
        return p == d or p.compare(0, d.size() + 1, d + "/") == 0;
    }
    // drop handle h (already removed from the list)
    template <class H>
    void Release(H h, std::string const& dir) {
        // released for good only if nothing nested keeps it
        {
            sim::Quiet q;
            W->tmp[dir].refs = 0;
            Refresh();
        }
        auto const f0 = sim::vfs::FailedUnlinks();
        auto const c0 = F();
        h.reset();
        sim::Quiet q;
        std::vector<std::string> gone;
        for (auto& [p, t] : W->tmp) {
            if (t.pid == pid and t.state == 2 and Under(dir, p)) {
                gone.push_back(p);
            }
        }
        for (auto const& p : gone) {
            W->tmp[p].state = 0;
            if (sim::vfs::Lstat(p).kind != sim::vfs::Kind::None and
                sim::vfs::FailedUnlinks() == f0 and Clean(c0)) {
                Violation("C22", "not removed after its release: " + p);
            }
        }
        sim::Probe("released");
    }
    // a directory is being released if its handle and those of all nested
    // ones are dropped
    void Refresh() {
        for (auto& [p, t] : W->tmp) {
            if (t.pid != pid or t.state != 1 or t.refs != 0) {
                continue;
            }
            bool kept = false;
            for (auto const& [p2, t2] : W->tmp) {
                kept = kept or (t2.pid == pid and t2.refs != 0 and
                                t2.state == 1 and p2 != p and Under(p2, p));
            }
            if (not kept) {
                t.state = 2;
            }
        }
    }
    void Op(json const& o) {
        auto const what = Str(o[0]);
        auto const n = o[1].get<std::size_t>();
        auto const f0 = F();
        if (what == "create") {
            auto d = TmpDir::Create(n % 2 == 0 ? "/w/tmp" : "/w/tmp/sub");
            sim::Quiet q;
            if (not d) {
                if (Clean(f0)) {
                    Violation("C22", "creation failed without any fault");
                }
                return;
            }
            Add(d->GetPath().string());
            CheckThere(d->GetPath().string(), f0);
            dirs.push_back(d);
            sim::Probe("tmpdir");
        }
        else if (what == "nested" and not dirs.empty()) {
            auto const& parent = dirs[n % dirs.size()];
            auto d = TmpDir::CreateNestedDirectory(parent);
            sim::Quiet q;
            if (not d) {
                if (Clean(f0)) {
                    Violation("C22", "creation failed without any fault");
                }
                return;
            }
            if (not Under(d->GetPath().string(), parent->GetPath().string())) {
                Violation("C22", "nested directory outside of its parent");
            }
            Add(d->GetPath().string());
            CheckThere(d->GetPath().string(), f0);
            dirs.push_back(d);
            sim::Probe("nested");
        }
        else if (what == "file" and not dirs.empty()) {
            auto const& parent = dirs[n % dirs.size()];
            auto f = TmpDir::CreateFile(parent, "name");
            sim::Quiet q;
            if (not f) {
                if (Clean(f0)) {
                    Violation("C22", "creation failed without any fault");
                }
                return;
            }
            auto const p = f->GetPath();
            Add(p.parent_path().string());
            W->within[p.string()] = p.parent_path().string();
            auto const e = sim::vfs::Lstat(p.string());
            if (e.kind != sim::vfs::Kind::File or
                not sim::vfs::Peek(p.string())->empty()) {
                Violation("C22", "file handed out is not an empty file");
            }
            files.push_back(f);
            sim::Probe("tmpfile");
        }
        else if (what == "use" and not dirs.empty()) {
            auto const p = dirs[n % dirs.size()]->GetPath();
            auto const text = std::to_string(NextId());
            auto const name =
                p / ("x" + std::to_string(n % 3)) / ("y" + text);
            if (FileSystemManager::CreateDirectory(name.parent_path()) and
                FileSystemManager::WriteFile(text, name)) {
                {
                    sim::Quiet q;
                    W->within[name.string()] = p.string();
                    W->within[name.parent_path().string()] = p.string();
                }
                auto c = FileSystemManager::ReadFile(name);
                sim::Quiet q;
                if ((not c or *c != text) and Clean(f0)) {
                    Violation("C22", "content changed: " + name.string());
                }
            }
            else {
                sim::Quiet q;
                if (Clean(f0)) {
                    Violation("C22", "not usable: " + name.string());
                }
            }
            if (n % 4 == 0) {
                std::ignore =
                    FileSystemManager::CreateSymlink("/w/keep", p / ("l" + text));
            }
        }
        else if (what == "dup" and not dirs.empty()) {
            // a second handle: released only with the last one
            auto h = dirs[n % dirs.size()];
            auto const dir = h->GetPath().string();
            sim::Point();
            h.reset();
            sim::Quiet q;
            CheckThere(dir, f0);
        }
        else if (what == "drop" and not dirs.empty()) {
            auto const i = n % dirs.size();
            auto h = std::move(dirs[i]);
            dirs.erase(dirs.begin() + static_cast<long>(i));
            auto const p = h->GetPath().string();
            Release(std::move(h), p);
        }
        else if (what == "dropf" and not files.empty()) {
            auto const i = n % files.size();
            auto h = std::move(files[i]);
            files.erase(files.begin() + static_cast<long>(i));
            auto const p = h->GetPath().parent_path().string();
            Release(std::move(h), p);
        }
        sim::Quiet q;
        for (auto const& d : dirs) {
            CheckThere(d->GetPath().string(), f0);
        }
        for (auto const& f : files) {
            if (sim::vfs::Lstat(f->GetPath().string()).kind !=
                sim::vfs::Kind::File) {
                Violation("C22", "missing: " + f->GetPath().string());
            }
        }
    }
    static void CheckThere(std::string const& p, int) {
        if (sim::vfs::Lstat(p).kind != sim::vfs::Kind::Dir) {
            Violation("C22", "missing: " + p);
        }
    }
    void Finish() {
        while (not files.empty()) {
            auto h = std::move(files.back());
            files.pop_back();
            auto const p = h->GetPath().parent_path().string();
            Release(std::move(h), p);
        }
        while (not dirs.empty()) {
            auto h = std::move(dirs.back());
            dirs.pop_back();
            auto const p = h->GetPath().string();
            Release(std::move(h), p);
        }
    }
};

// ------------------------------------------------------------------- C23
struct LockUser {
    int pid{};
    struct Mine {
        LockFile lock;
        std::string path;
        int id;
    };
    std::vector<Mine> mine;

    void Register(std::string const& path, bool shared, int id) {
        auto& hs = W->held[path];
        for (auto const& h : hs) {
            if (sim::Alive(h.pid) and (not shared or not h.shared)) {
                Violation("C23",
                          "two locks at once on " + path + " (" +
                              (shared ? "shared" : "exclusive") + " and " +
                              (h.shared ? "shared)" : "exclusive)"));
                return;
            }
            if (sim::Alive(h.pid)) {
                sim::Probe("shared_together");
            }
        }
        hs.push_back({pid, shared, id});
    }
    static void Unregister(std::string const& path, int id) {
        auto& hs = W->held[path];
        std::erase_if(hs, [id](auto const& h) { return h.id == id; });
    }
    void Op(json const& o) {
        auto const what = Str(o[0]);
        auto const n = o[1].get<std::size_t>();
        if (what == "lock" or what == "assign") {
            // locks are taken in increasing order of their path
            auto const k = n % 4;
            bool const assign = what == "assign" and not mine.empty();
            std::string const path = "/w/locks/l" + std::to_string(k);
            for (auto const& m : mine) {
                if (m.path >= path) {
                    return;
                }
            }
            bool const shared = o[2].get<bool>();
            auto const f0 = F();
            auto l = LockFile::Acquire(
                k == 3 ? "/w/locks/../locks/./l3" : path, shared);
            int id = 0;
            {
                sim::Quiet q;
                if (not l) {
                    if (Clean(f0)) {
                        Violation("C23", "refused without any fault: " + path);
                    }
                    return;
                }
                id = NextId();
                Register(path, shared, id);
                sim::Probe(shared ? "got_shared" : "got_exclusive");
            }
            if (assign) {
                // the handle assigned to gives up its lock
                {
                    sim::Quiet q;
                    Unregister(mine.back().path, mine.back().id);
                }
                mine.back().lock = std::move(*l);
                mine.back().path = path;
                mine.back().id = id;
            }
            else {
                mine.push_back({std::move(*l), path, id});
            }
        }
        else if (what == "unlock" and not mine.empty()) {
            {
                sim::Quiet q;
                Unregister(mine.back().path, mine.back().id);
            }
            mine.pop_back();
        }
        else if (what == "move" and not mine.empty()) {
            LockFile a{std::move(mine.back().lock)};
            sim::Point();
            LockFile b{std::move(a)};
            sim::Point();
            mine.back().lock = std::move(b);
        }
        else if (what == "wait") {
            sim::SleepNs(n * 1000000);
        }
    }
    void Finish() {
        while (not mine.empty()) {
            {
                sim::Quiet q;
                Unregister(mine.back().path, mine.back().id);
            }
            mine.pop_back();
        }
    }
};

// ------------------------------------------------------------------- C24
// prog ID CODE SIG OUT ERR SLEEP_MS
int Prog(std::vector<std::string> const& a) {
    Cmd* cmd = nullptr;
    {
        sim::Quiet q;
        cmd = &W->cmds[a.at(1)];
    }
    auto& c = *cmd;
    {
        sim::Quiet q;
        c.started = true;
        c.pid = sim::CurPid();
        char buf[4096];
        c.cwd = ::getcwd(buf, sizeof buf) != nullptr ? buf : "?";
        auto const& e = sim::ProcEnv();
        c.bad_env = e.size() != 2 or not e.contains("ID") or
                    e.at("ID") != a[1] or not e.contains("EMPTY") or
                    not e.at("EMPTY").empty();
        sim::Probe("program_started");
    }
    auto put = [](int fd, std::string const& s) {
        std::size_t p = 0;
        while (p < s.size()) {
            auto const n = ::write(fd,
                                   s.data() + p,
                                   std::min<std::size_t>(s.size() - p, 4096));
            if (n < 0 and errno == EINTR) {
                continue;
            }
            if (n <= 0) {
                return p;
            }
            p += static_cast<std::size_t>(n);
        }
        return p;
    };
    auto end = [&c](int code) {
        sim::Quiet q;
        c.ended = true;
        c.code = code;
        return code;
    };
    auto const n_out = std::stoul(a[4]);
    auto const n_err = std::stoul(a[5]);
    auto const out =
        n_out == 0 ? std::string{} : Fill("out" + a[1] + " ", n_out);
    auto const err =
        n_err == 0 ? std::string{} : Fill("err" + a[1] + " ", n_err);
    auto const w1 = put(1, out);
    c.out = out.substr(0, w1);
    if (auto ms = std::stoul(a[6]); ms != 0) {
        sim::SleepNs(ms * 1000000);
    }
    auto const w2 = put(2, err);
    c.err = err.substr(0, w2);
    if (w1 != out.size() or w2 != err.size()) {
        return end(77);
    }
    if (int const sig = std::stoi(a[3]); sig != 0) {
        end(128 + sig);
        ::kill(::getpid(), sig);
        return 0;
    }
    return end(std::stoi(a[2]));
}
void RunCmd(json const& o, std::string const& exe, char const* prop) {
    std::string id;
    std::string out;
    std::string cwd = "/w/cwd" + std::to_string(o[7].get<int>() % 2);
    {
        sim::Quiet q;
        id = std::to_string(NextId());
        out = "/w/out/" + id;
        sim::vfs::MkDirs(out, 0777);
        if (o[7].get<int>() == 5) {
            cwd = "/w/nowhere";
        }
        if (o[7].get<int>() == 6) {
            sim::vfs::Write(out + "/stderr", "old", 0644);
        }
        if (o[7].get<int>() == 7) {
            sim::vfs::RemoveAll(out);
        }
    }
    auto const f0 = F();
    SystemCommand cmd{"test"};
    auto const r = cmd.Execute({exe,
                                id,
                                std::to_string(o[2].get<int>()),
                                std::to_string(o[3].get<int>()),
                                std::to_string(o[4].get<int>()),
                                std::to_string(o[5].get<int>()),
                                std::to_string(o[6].get<int>())},
                               {{"ID", id}, {"EMPTY", ""}},
                               cwd,
                               out);
    sim::Quiet q;
    auto const& c = W->cmds[id];
    std::string const what =
        "command " + id + " (result " + (r ? std::to_string(*r) : "none") +
        "): ";
    bool const normal = o[7].get<int>() < 5 and Str(o[1]) != "missing";
    if (r and *r == 0) {
        sim::Probe("cmd_ok");
        if (not c.started) {
            Violation(prop, what + "success, but never started");
            return;
        }
        if (not c.ended or c.code != 0) {
            Violation(prop,
                      what + "success, but it ended with " +
                          std::to_string(c.code));
            return;
        }
    }
    if (r and c.ended and *r != c.code and *r != 128 + 9) {
        Violation("C24",
                  what + "but it ended with " + std::to_string(c.code));
        return;
    }
    if (r and c.started and not c.ended and *r != 128 + 9) {
        Violation("C24", what + "but it was killed");
        return;
    }
    if (c.started and sim::Alive(c.pid)) {
        Violation("C24", what + "but it is still running");
        return;
    }
    if (r and c.started and c.ended) {
        auto const so = sim::vfs::Read(out + "/stdout").value_or("<none>");
        auto const se = sim::vfs::Read(out + "/stderr").value_or("<none>");
        if (so != c.out or se != c.err) {
            Violation("C24",
                      what + "captured output differs: " +
                          std::to_string(so.size()) + "/" +
                          std::to_string(se.size()) + " instead of " +
                          std::to_string(c.out.size()) + "/" +
                          std::to_string(c.err.size()));
            return;
        }
        if (c.cwd != cwd) {
            Violation("C24",
                      what + "was run in " + c.cwd + " instead of " + cwd);
            return;
        }
        if (c.bad_env) {
            Violation("C24", what + "wrong environment");
            return;
        }
    }
    if (Clean(f0) and normal) {
        int const want = o[3].get<int>() != 0 ? 128 + o[3].get<int>()
                                              : o[2].get<int>();
        // the program and its helpers may be hit by faults of their own
        if (not r or *r != want) {
            Violation(prop, what + "without any fault");
        }
    }
    if (not normal and r and *r == 0) {
        Violation("C24", what + "could not be run as requested");
    }
    sim::Probe("cmd");
    if (not r) {
        sim::Probe("cmd_none");
    }
}
// EINTR alone must not change a result: such runs inject nothing else
// ------------------------------------------------------------------- C25
void CheckExe(std::string const& path,
              std::string const& content,
              std::string const& when) {
    auto const* c = sim::vfs::Peek(path);
    if (c == nullptr or *c != content) {
        Violation("C25",
                  "executable reported available is incomplete " + when +
                      ": " + path);
        return;
    }
    if ((sim::vfs::Lstat(path).mode & 0111) == 0) {
        Violation("C25", "not executable " + when + ": " + path);
    }
    if (sim::vfs::OpenForWrite(path) > 0) {
        Violation("C25", "open for writing " + when + ": " + path);
    }
}
std::string ExeContent(int k, std::size_t n) {
    return "#!sim /bin/prog\n" + Fill("exe" + std::to_string(k) + " ", n);
}
void OpExe(json const& o, LocalCAS<true> const& cas) {
    auto const how = o[1].get<int>();
    auto const k = o[2].get<int>();
    auto const content = ExeContent(k, o[3].get<std::size_t>());
    auto const f0 = F();
    auto const tgt = "/w/install/e" + std::to_string(k);
    std::optional<std::string> path;
    bool ok = false;
    if (how <= 1) {
        // install: the target is private to this operation
        auto const p = tgt + "-" + std::to_string(NextId());
        std::string src = "/w/src/e" + std::to_string(k) + "-" +
                          std::to_string(content.size());
        {
            sim::Quiet q;
            if (sim::vfs::Lstat(src).kind == sim::vfs::Kind::None) {
                sim::vfs::Write(src, content, 0444);
            }
            if (o[4].get<bool>()) {
                sim::vfs::Write(p, "old content", 0755);
            }
        }
        ok = how == 0
                 ? FileSystemManager::WriteFileAs<true, true>(
                       content, p, ObjectType::Executable, /*fd_less=*/true)
                 : FileSystemManager::CopyFileAs<true, true>(
                       src, p, ObjectType::Executable, /*fd_less=*/true);
        if (ok) {
            path = p;
        }
    }
    else {
        std::optional<ArtifactDigest> d;
        HashFunction const hf{HashFunction::Type::GitSHA1};
        if (how == 2) {
            d = cas.StoreBlob(content, /*is_executable=*/true);
        }
        else if (how == 3) {
            std::string src = "/w/src/e" + std::to_string(k) + "-" +
                          std::to_string(content.size());
            {
                sim::Quiet q;
                if (sim::vfs::Lstat(src).kind == sim::vfs::Kind::None) {
                    sim::vfs::Write(src, content, 0444);
                }
            }
            d = cas.StoreBlob</*kOwner=*/false>(fs::path{src},
                                                /*is_executable=*/true);
        }
        else if (how == 4) {
            // found as file first
            d = cas.StoreBlob(content, /*is_executable=*/false);
        }
        else {
            // spliced from two parts
            auto const h = content.size() / 2;
            auto a = cas.StoreBlob(content.substr(0, h), false);
            auto b = cas.StoreBlob(content.substr(h), false);
            auto whole = ArtifactDigestFactory::HashDataAs<ObjectType::File>(
                hf, content);
            if (a and b) {
                auto r = cas.SpliceBlob(whole, {*a, *b}, true);
                if (r) {
                    d = *r;
                }
            }
        }
        if (d) {
            auto p = cas.BlobPath(*d, /*is_executable=*/true);
            if (p) {
                ok = true;
                path = p->string();
            }
        }
    }
    {
        sim::Quiet q;
        if (not ok) {
            if (Clean(f0) and sim::vfs::FailedUnlinks() == 0) {
                Violation("C25", "storing failed without any fault");
            }
            sim::Probe("exe_failed");
            return;
        }
        CheckExe(*path, content, "once stored");
        W->ready[*path] = content;
        sim::Probe("exe_ready" + std::to_string(how));
    }
    if (o[5].get<bool>()) {
        json cmd{"cmd", "exe", 0, 0, 10, 0, 0, 0};
        RunCmd(cmd, *path, "C25");
    }
}
// nothing that is ready is ever opened for writing again
void HookExe(char const* op, std::string const& path) {
    auto it = W->ready.find(path);
    if (it == W->ready.end()) {
        return;
    }
    CheckExe(path, it->second, std::string{"after "} + op);
}

// ------------------------------------------------------------------- runs
int Proc(json const& p) {
    auto const& P = sim::Ctx().prop;
    int const pid = sim::CurPid();
    std::optional<Storage> storage;
    if (P == "C25") {
        storage.emplace(Storage::Create(W->cfg.get()));
    }
    if (p.value("start", 0) > 0) {
        sim::SleepNs(p["start"].get<std::uint64_t>() * 100000);
    }
    std::vector<std::thread> ts;
    for (auto const& t : p["tops"]) {
        ts.emplace_back([&]() {
            if (P == "C22") {
                TmpUser u{};
                u.pid = pid;
                for (auto const& o : t["ops"]) {
                    u.Op(o);
                }
                u.Finish();
                return;
            }
            if (P == "C23") {
                LockUser u{};
                u.pid = pid;
                for (auto const& o : t["ops"]) {
                    if (o[0] == "fork") {
                        json cmd{"cmd", "/bin/prog", 0, 0, 0, 0, o[1], 0};
                        RunCmd(cmd, "/bin/prog", "C24");
                    }
                    else {
                        u.Op(o);
                    }
                }
                u.Finish();
                return;
            }
            for (auto const& o : t["ops"]) {
                auto const what = Str(o[0]);
                if (what == "write") {
                    OpWrite(o);
                }
                else if (what == "read") {
                    OpRead(o);
                }
                else if (what == "cmd") {
                    RunCmd(o, Str(o[1]), "C24");
                }
                else if (what == "exe") {
                    OpExe(o, storage->CAS());
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    return 0;
}

json GenOp(std::string const& P, Rng& r, bool eintr_only) {
    if (P == "C21") {
        if (r.Chance(0.55)) {
            static std::size_t const sizes[]{0, 1, 40, 40, 4000, 70000, 300000};
            int const k = static_cast<int>(r.Below(4));
            // a map of identifiers is not written by the other facility
            return {"write", k, sizes[r.Below(7)], k >= 2};
        }
        return {"read", r.Below(4)};
    }
    if (P == "C22") {
        static char const* const k[]{"create", "create", "nested", "nested",
                                     "file",   "file",   "use",    "use",
                                     "drop",   "drop",   "dropf",  "dup"};
        return {k[r.Below(12)], r.Below(60)};
    }
    if (P == "C23") {
        auto const m = r.Below(20);
        if (m < 8) {
            return {"lock", r.Below(4), r.Chance(0.5)};
        }
        if (m < 10) {
            return {"assign", r.Below(4), r.Chance(0.5)};
        }
        if (m < 15) {
            return {"unlock", 0};
        }
        if (m < 17) {
            return {"move", 0};
        }
        if (m < 18) {
            return {"fork", r.Below(3)};
        }
        return {"wait", r.Below(5)};
    }
    auto gencmd = [&]() -> json {
        bool const missing = r.Chance(0.08);
        bool const sig = r.Chance(0.1);
        int env = static_cast<int>(r.Below(2));
        if (r.Chance(0.1) and not eintr_only) {
            env = static_cast<int>(r.Range(5, 7));
        }
        return {"cmd",
                missing ? "missing" : "/bin/prog",
                r.Chance(0.6) ? 0 : r.Range(0, 255),
                sig ? (r.Chance(0.5) ? 9 : 15) : 0,
                r.Chance(0.3) ? 0 : r.Range(1, 9000),
                r.Chance(0.5) ? 0 : r.Range(1, 3000),
                r.Chance(0.5) ? 0 : r.Range(1, 20),
                env};
    };
    if (P == "C24") {
        return gencmd();
    }
    if (r.Chance(0.3)) {
        return {"cmd", "/bin/prog", 0, 0, 10, 0, r.Range(0, 20), 0};
    }
    return {"exe",
            r.Below(6),
            r.Below(3),
            r.Chance(0.7) ? 50 : 40000,
            r.Chance(0.3),
            r.Chance(0.4)};
}

void Gen(RunCtx& c, Rng& r) {
    sim::SwarmSched(c, r);
    auto const& P = c.prop;
    json w;
    json procs = json::array();
    bool const eintr_only = P == "C24" and r.Chance(0.2);
    auto const np = r.Chance(0.4) ? 1 : r.Range(2, 4);
    for (int i = 0; i < np; ++i) {
        json tops = json::array();
        auto const nt = r.Range(1, np == 1 ? 4 : 3);
        for (int t = 0; t < nt; ++t) {
            json ops = json::array();
            auto const no = r.Range(1, P == "C22" or P == "C23" ? 14 : 6);
            for (int o = 0; o < no; ++o) {
                ops.push_back(GenOp(P, r, eintr_only));
            }
            tops.push_back({{"ops", ops}});
        }
        procs.push_back({{"tops", tops},
                         {"faults", r.Chance(0.7)},
                         {"start", r.Chance(0.6) ? 0 : r.Below(50)}});
    }
    w["pops"] = procs;
    c.workload = w;
    c.max_steps = 8000000;
    auto& f = c.faults;
    f.max_faults = static_cast<int>(r.Range(0, 4));
    if (r.Chance(0.5)) {
        f.skip = r.Below(1ULL << r.Range(2, 10));
    }
    auto on = [&](sim::Fault k, double p, double rate) {
        f.rate[k] = r.Chance(p) ? rate : 0;
    };
    if (eintr_only) {
        f.rate[sim::kEintr] = 0.3;
        on(sim::kStall, 0.3, 0.01);
        return;
    }
    double const lo = r.Chance(0.5) ? 0.005 : 0.02;
    on(sim::kCrash, 0.6, lo);
    on(sim::kTornCrash, 0.4, 0.1);
    on(sim::kStall, 0.3, 0.01);
    on(sim::kEnospc, 0.4, 0.05);
    on(sim::kEio, 0.4, lo * 2);
    on(sim::kShortWrite, 0.4, 0.2);
    on(sim::kShortRead, 0.3, 0.2);
    on(sim::kEintr, 0.4, 0.1);
    on(sim::kEmfile, 0.3, 0.03);
    on(sim::kEmlink, 0.2, 0.05);
    on(sim::kForkFail, 0.2, 0.2);
    on(sim::kKillChild, 0.3, 0.03);
}

void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness(c.prop, "file utilities");
    {
        sim::Quiet q;
        W = new World();
        g_next = 0;
        for (auto const* d : {"/w/d",
                              "/w/m/ids",
                              "/w/tmp",
                              "/w/keep/sub",
                              "/w/locks",
                              "/w/out",
                              "/w/cwd0",
                              "/w/cwd1",
                              "/w/src",
                              "/w/install",
                              "/r",
                              "/tmp",
                              "/bin"}) {
            sim::vfs::MkDirs(d, 0777);
        }
        sim::vfs::Write("/bin/prog", "program", 0755);
        sim::RegisterProgram("/bin/prog", Prog);
        if (c.prop == "C21") {
            sim::vfs::OnMutation("/w", HookAtomic);
        }
        if (c.prop == "C22") {
            for (auto const* f : {"/w/keep/a", "/w/keep/sub/b", "/w/tmp/mine"}) {
                sim::vfs::Write(f, "mine");
                W->outside[f] = 1;
            }
            sim::vfs::OnMutation("/w", HookTmp);
        }
        if (c.prop == "C25") {
            W->cfg = std::make_unique<StorageConfig>(
                *StorageConfig::Builder{}
                     .SetBuildRoot("/r")
                     .SetNumGenerations(2)
                     .SetHashType(HashFunction::Type::GitSHA1)
                     .Build());
            sim::vfs::OnMutation("/", HookExe);
        }
    }
    std::vector<int> pids;
    for (auto const& p : c.workload["pops"]) {
        int const pid = sim::Spawn("user", [&p]() { return Proc(p); });
        sim::SetFaults(pid, p["faults"].get<bool>());
        pids.push_back(pid);
    }
    for (auto pid : pids) {
        int const st = sim::Wait(pid);
        sim::Quiet q;
        if (st != 0 and not sim::Crashed(pid) and (st & 0x7f) != 9) {
            Violation(c.prop, "process ended with status " + std::to_string(st));
        }
    }
    if (c.prop == "C23") {
        // everything left is unused, new users succeed at once
        int const pid = sim::Spawn("last", []() {
            for (int k = 0; k < 4; ++k) {
                auto const p = "/w/locks/l" + std::to_string(k);
                auto l = LockFile::Acquire(p, /*is_shared=*/false);
                if (not l) {
                    Violation("C23", "refused at the end: " + p);
                }
            }
            // any number of shared locks coexist
            auto const p = std::string{"/w/locks/l0"};
            auto first = LockFile::Acquire(p, /*is_shared=*/true);
            std::thread other{[&p]() {
                auto second = LockFile::Acquire(p, /*is_shared=*/true);
            }};
            other.join();
            int const peer = sim::Spawn("peer", [p]() {
                auto third = LockFile::Acquire(p, /*is_shared=*/true);
                return third ? 0 : 1;
            });
            sim::SetFaults(peer, false);
            if (sim::Wait(peer) != 0 or not first) {
                Violation("C23", "shared lock refused at the end: " + p);
            }
            return 0;
        });
        sim::SetFaults(pid, false);
        sim::Wait(pid);
    }
    sim::Quiet q;
    if (c.prop == "C25") {
        for (auto const& [p, t] : W->ready) {
            CheckExe(p, t, "at the end");
        }
    }
    if (c.prop == "C22") {
        if (sim::vfs::Lstat("/w/keep/a").kind != sim::vfs::Kind::File or
            sim::vfs::Lstat("/w/tmp/mine").kind != sim::vfs::Kind::File) {
            Violation("C22", "file outside of temporary directories lost");
        }
    }
    sim::State(sim::vfs::HashTree("/w"));
}
sim::HarnessDef const kDef{"futil",
                           {"C21", "C22", "C23", "C24", "C25"},
                           Gen,
                           Run};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
