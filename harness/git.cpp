// The shared Git repository of a build root: importing, tagging and fetching
// trees (C40), reading objects (C41) and repository collections (C20).
// Invocations of just-mr are simulated processes with threads on a simulated
// file system; libgit2 runs as shipped with its own static data per process.
#include <curl/curl.h>
#include <fcntl.h>
#include <git2.h>
#include <openssl/evp.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>

#include "dsim/sim.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/repository_config.hpp"
#include "src/buildtool/crypto/hash_function.hpp"
#include "src/buildtool/crypto/hash_info.hpp"
#include "src/buildtool/execution_api/local/config.hpp"
#include "src/buildtool/execution_api/local/context.hpp"
#include "src/buildtool/execution_api/local/local_api.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/file_system/git_cas.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/file_system/git_repo.hpp"
#include "src/buildtool/file_system/git_tree.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/multithreading/task_system.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/repository_garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/other_tools/git_operations/git_ops_types.hpp"
#include "src/other_tools/just_mr/mirrors.hpp"
#include "src/other_tools/just_mr/progress_reporting/progress.hpp"
#include "src/other_tools/ops_maps/critical_git_op_map.hpp"
#include "src/other_tools/ops_maps/git_tree_fetch_map.hpp"
#include "src/other_tools/ops_maps/import_to_git_map.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;
namespace fs = std::filesystem;

namespace {
// ---------------------------------------------------------------- universe
std::string Hex(unsigned char const* d, unsigned n) {
    static char const* const k = "0123456789abcdef";
    std::string s;
    for (unsigned i = 0; i < n; ++i) {
        s += k[d[i] >> 4U];
        s += k[d[i] & 15U];
    }
    return s;
}
std::string Raw(std::string const& hex) {
    std::string r;
    for (std::size_t i = 0; i + 1 < hex.size(); i += 2) {
        r += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
    }
    return r;
}
std::string Sha1(std::string const& type, std::string const& c) {
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    auto* x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, EVP_sha1(), nullptr);
    std::string h = type + " " + std::to_string(c.size());
    h += '\0';
    EVP_DigestUpdate(x, h.data(), h.size());
    EVP_DigestUpdate(x, c.data(), c.size());
    EVP_DigestFinal_ex(x, md, &n);
    EVP_MD_CTX_free(x);
    return Hex(md, n);
}

struct Kid {
    std::string name;
    char type;  // f x l t
    std::string id;
};
struct Node {
    bool tree = false;
    std::string bytes;      // content of the Git object
    std::vector<Kid> kids;  // of trees
    bool upward = false;    // link whose target leaves its directory
};
struct World {
    std::map<std::string, Node> obj;
    std::vector<std::string> trees;  // ids of the root trees
    std::map<std::string, std::set<std::string>> closure;
    std::unique_ptr<StorageConfig> cfg;
    std::size_t gens = 2;
    int epoch = 0;  // repository collections that may have rotated
    int rotated = 0;  // collections that certainly have
    // trees reported as available: tree id -> epoch of the report
    std::map<std::string, int> promised;
    // last epoch in which the tree may have been used
    std::map<std::string, int> maybe;
    std::map<std::string, int> maybe_rot;
    std::set<std::string> in_cas;  // trees in the local CAS
    std::map<std::string, int> runs;  // of the command providing a tree
    // root tree and message -> tags seen
    std::map<int, int> holders;  // pid -> locks held
    std::map<int, bool> gc_pid;  // pid of a collection -> has rotated
    std::map<int, bool> gc_drop;  // ... only drops old generations
    std::map<int, int> gc_no;    // pid of a collection -> its number
    std::vector<std::pair<int, std::string>> excl;
    int ngc = 0;
    std::map<std::string, int> ref_locks;  // lock file of a tag -> creator
};
World* W = nullptr;

std::string Words(Rng& r, std::size_t n) {
    std::string s;
    while (s.size() < n) {
        s += static_cast<char>('a' + r.Below(26));
        if (r.Chance(0.1)) {
            s += '\n';
        }
    }
    s.resize(n);
    return s;
}
std::string Put(Node n) {
    auto id = Sha1(n.tree ? "tree" : "blob", n.bytes);
    W->obj[id] = std::move(n);
    return id;
}
std::string PutTree(std::vector<Kid> kids) {
    std::sort(kids.begin(), kids.end(), [](Kid const& a, Kid const& b) {
        return a.name + (a.type == 't' ? "/" : "") <
               b.name + (b.type == 't' ? "/" : "");
    });
    Node n;
    n.tree = true;
    for (auto const& k : kids) {
        n.bytes += k.type == 'f'   ? "100644 "
                   : k.type == 'x' ? "100755 "
                   : k.type == 'l' ? "120000 "
                                   : "40000 ";
        n.bytes += k.name;
        n.bytes += '\0';
        n.bytes += Raw(k.id);
    }
    n.kids = std::move(kids);
    return Put(std::move(n));
}
std::string GenTree(Rng& r, int depth, bool links, std::size_t big) {
    static std::vector<std::string> const kNames = {
        "a", "a.b", "a-b", "ab", "b", "b0", "lib", "lib.c", "src", ".hidden",
        "x y", "z", "0", "Makefile", "tree", "\xc3\xa9"};
    std::vector<Kid> kids;
    std::set<std::string> used;
    auto n = depth == 0 ? r.Range(1, 6) : r.Range(0, 4);
    for (int i = 0; i < n; ++i) {
        auto name = r.Pick(kNames);
        if (not used.insert(name).second) {
            continue;
        }
        auto d = r.Below(10);
        if (d < 3 and depth < 3) {
            kids.push_back({name, 't', GenTree(r, depth + 1, links, big)});
        }
        else if (d < 5 and links) {
            Node l;
            l.upward = r.Chance(0.15);
            l.bytes = l.upward ? "../" + Words(r, 3)
                               : r.Pick(kNames) + "/" + r.Pick(kNames);
            kids.push_back({name, 'l', Put(std::move(l))});
        }
        else {
            Node f;
            auto const z = r.Below(10);
            f.bytes = z == 0   ? std::string{}
                      : z == 1 ? Words(r, 1 + r.Below(big))
                      : z < 5  ? "c" + std::to_string(r.Below(4))
                               : Words(r, 1 + r.Below(40));
            kids.push_back({name, r.Chance(0.3) ? 'x' : 'f', Put(std::move(f))});
        }
    }
    return PutTree(std::move(kids));
}
std::set<std::string> const& Closure(std::string const& id) {
    auto it = W->closure.find(id);
    if (it != W->closure.end()) {
        return it->second;
    }
    std::set<std::string> s{id};
    for (auto const& k : W->obj[id].kids) {
        auto const& c = Closure(k.id);
        s.insert(c.begin(), c.end());
    }
    return W->closure[id] = std::move(s);
}
void BuildWorld(json const& w) {
    for (auto const& t : w["trees"]) {
        Rng r(t["seed"].get<std::uint64_t>());
        auto const id = GenTree(
            r, 0, t.value("links", true), t.value("big", 200U));
        W->trees.push_back(id);
        (void)Closure(id);
    }
    W->gens = w.value("gens", 2U);
}
std::string const& T(json const& i) {
    return W->trees[i.get<std::size_t>() % W->trees.size()];
}

// ------------------------------------------------- writing trees to the disk
bool WriteAll(int fd, std::string const& s) {
    std::size_t o = 0;
    while (o < s.size()) {
        auto n = write(fd, s.data() + o, s.size() - o);
        if (n < 0) {
            return false;
        }
        o += static_cast<std::size_t>(n);
    }
    return true;
}
bool Materialise(std::string const& id, std::string const& dir) {
    for (auto const& k : W->obj.at(id).kids) {
        auto const p = dir + "/" + k.name;
        auto const& n = W->obj.at(k.id);
        if (k.type == 't') {
            if (mkdir(p.c_str(), 0755) != 0 or not Materialise(k.id, p)) {
                return false;
            }
        }
        else if (k.type == 'l') {
            if (symlink(n.bytes.c_str(), p.c_str()) != 0) {
                return false;
            }
        }
        else {
            int fd = open(p.c_str(),
                          O_WRONLY | O_CREAT | O_EXCL,
                          k.type == 'x' ? 0755 : 0644);
            if (fd < 0) {
                return false;
            }
            bool const ok = WriteAll(fd, n.bytes);
            if (close(fd) != 0 or not ok) {
                return false;
            }
        }
    }
    return true;
}
// fetch <tree> <how>
int FetchProgram(std::vector<std::string> const& argv) {
    auto const& id = W->trees.at(std::stoul(argv.at(1)));
    auto const how = std::stoi(argv.at(2));
    {
        sim::Quiet q;
        ++W->runs[id];
    }
    if (how == 2) {  // something else
        int fd = open("junk", O_WRONLY | O_CREAT | O_EXCL, 0644);
        (void)WriteAll(fd, "junk");
        close(fd);
        return 0;
    }
    if (how == 3) {
        return 1;
    }
    std::string dir = ".";
    if (how == 1) {
        dir = "deep/er";
        mkdir("deep", 0755);
        mkdir("deep/er", 0755);
        int fd = open("deep/other", O_WRONLY | O_CREAT | O_EXCL, 0644);
        (void)WriteAll(fd, "other");
        close(fd);
    }
    return Materialise(id, dir) ? 0 : 1;
}

// ------------------------------------------------------------------ oracles
// the objects of the repository, read with a new handle while nothing else of
// this process runs
std::optional<std::string> RawRead(git_odb* odb,
                                   std::string const& id,
                                   bool* tree) {
    git_oid oid;
    git_odb_object* o = nullptr;
    if (git_oid_fromstr(&oid, id.c_str()) != 0 or
        git_odb_read(&o, odb, &oid) != 0) {
        return std::nullopt;
    }
    std::string s{static_cast<char const*>(git_odb_object_data(o)),
                  git_odb_object_size(o)};
    *tree = git_odb_object_type(o) == GIT_OBJECT_TREE;
    git_odb_object_free(o);
    return s;
}
struct Repo {
    git_repository* r = nullptr;
    git_odb* odb = nullptr;
    explicit Repo(std::string const& path) {
        if (git_repository_open_ext(&r,
                                    path.c_str(),
                                    GIT_REPOSITORY_OPEN_NO_SEARCH,
                                    nullptr) != 0) {
            r = nullptr;
            return;
        }
        if (git_repository_odb(&odb, r) != 0) {
            odb = nullptr;
        }
    }
    ~Repo() {
        git_odb_free(odb);
        git_repository_free(r);
    }
    Repo(Repo const&) = delete;
    // everything below the tree is there
    std::string Missing(std::string const& id) const {
        if (odb == nullptr) {
            return "the repository";
        }
        for (auto const& i : Closure(id)) {
            bool tree = false;
            auto c = RawRead(odb, i, &tree);
            auto const& n = W->obj.at(i);
            if (not c) {
                return (n.tree ? "tree " : "blob ") + i;
            }
            if (*c != n.bytes or tree != n.tree) {
                return "content of " + i;
            }
        }
        return "";
    }
    // ids of trees reachable from tags, and the tags of each commit tree
    void Tagged(std::set<std::string>* trees,
                std::map<std::string, std::set<std::string>>* roots) const {
        git_strarray names{};
        if (r == nullptr or git_tag_list(&names, r) != 0) {
            return;
        }
        for (std::size_t i = 0; i < names.count; ++i) {
            std::string const name = names.strings[i];
            git_object* o = nullptr;
            git_object* t = nullptr;
            if (git_revparse_single(&o, r, ("refs/tags/" + name).c_str()) !=
                    0 or
                git_object_peel(&t, o, GIT_OBJECT_TREE) != 0) {
                Violation("C40", "tag " + name + " leads nowhere");
                git_object_free(o);
                continue;
            }
            std::string const id = git_oid_tostr_s(git_object_id(t));
            git_object* c = nullptr;
            if (git_object_peel(&c, o, GIT_OBJECT_COMMIT) == 0) {
                auto* cm = reinterpret_cast<git_commit*>(c);
                (*roots)[id + " " + git_commit_message(cm)].insert(name);
                std::string const want =
                    std::string{"keep-"} + git_oid_tostr_s(git_object_id(c));
                if (name != want) {
                    Violation("C40", "tag " + name + " points to " + want);
                }
                git_object_free(c);
            }
            else if (name != "keep-" + id) {
                Violation("C40", "tag " + name + " points to tree " + id);
            }
            trees->insert(id);
            git_tree_walk(
                reinterpret_cast<git_tree*>(t),
                GIT_TREEWALK_PRE,
                [](char const*, git_tree_entry const* e, void* p) -> int {
                    static_cast<std::set<std::string>*>(p)->insert(
                        git_oid_tostr_s(git_tree_entry_id(e)));
                    return 0;
                },
                trees);
            git_object_free(t);
            git_object_free(o);
        }
        git_strarray_dispose(&names);
    }
};
void Report(std::string const& id, std::string const& how, bool tag);

struct Done {
    std::string id;
    std::string how;
    bool tag = true;
};
// checks the reports of a process before its locks are released
void CheckDone(std::vector<Done> const& done) {
    if (done.empty()) {
        return;
    }
    Repo repo(W->cfg->GitRoot());
    std::set<std::string> trees;
    std::map<std::string, std::set<std::string>> roots;
    repo.Tagged(&trees, &roots);
    for (auto const& d : done) {
        auto const m = repo.Missing(d.id);
        if (not m.empty()) {
            Violation("C40", d.how + " reported, but missing: " + m);
            Violation("C20", d.how + " reported, but missing: " + m);
        }
        if (d.tag and not trees.contains(d.id)) {
            Violation("C40", d.how + " reported, but not kept by any tag");
        }
    }
    for (auto const& [k, v] : roots) {
        if (v.size() > 1) {
            Violation("C40",
                      "the same content imported as different commits: " + k);
        }
    }
}
void Used(std::string const& id) {
    for (auto const& i : Closure(id)) {
        if (W->obj.at(i).tree) {
            W->maybe[i] = W->epoch;
            W->maybe_rot[i] = W->rotated;
        }
    }
}
void Report(std::string const& id) { W->promised[id] = W->epoch; }
// generations in which a promised tree may be
void CheckRetention(std::string const& when) {
    for (auto const& [id, e] : W->promised) {
        auto const age = static_cast<std::size_t>(W->epoch - e);
        if (age >= W->gens) {
            continue;
        }
        std::string m;
        bool ok = false;
        for (std::size_t g = 0; g <= age and not ok; ++g) {
            auto const p = W->cfg->GitGenerationRoot(g);
            if (sim::vfs::Lstat(p).kind == sim::vfs::Kind::None) {
                continue;
            }
            Repo repo(p);
            m = repo.Missing(id);
            ok = m.empty();
        }
        if (not ok) {
            auto const msg = "tree used " + std::to_string(age) +
                             " collections ago is lost " + when + ": " + m;
            Violation("C20", msg);
            Violation("C40", msg);
        }
    }
}
void CheckGone() {
    for (auto const& [id, e] : W->maybe_rot) {
        if (W->rotated - e < static_cast<int>(W->gens)) {
            continue;
        }
        for (std::size_t g = 0; g < W->gens; ++g) {
            auto const p = W->cfg->GitGenerationRoot(g);
            if (sim::vfs::Lstat(p).kind == sim::vfs::Kind::None) {
                continue;
            }
            Repo repo(p);
            // (the objects themselves may have come along with others, as
            // libgit2 packs all of a local remote)
            std::set<std::string> trees;
            std::map<std::string, std::set<std::string>> roots;
            repo.Tagged(&trees, &roots);
            if (trees.contains(id)) {
                Violation("C20",
                          "tree not used since " +
                              std::to_string(W->rotated - e) +
                              " collections still kept in generation " +
                              std::to_string(g));
            }
        }
    }
}

// ------------------------------------------------------------- file changes
std::string const kRepos = "/r/repositories";
void Hook(char const* op_, std::string const& path) {
    std::string const op = op_;
    auto const pid = sim::CurPid();
    auto const n = kRepos.size() + 1;
    if (path.compare(0, n, kRepos + "/") != 0) {
        return;
    }
    auto const top = path.find('/', n) == std::string::npos;
    bool const gen = path.compare(n, 11, "generation-") == 0;
    if (path.ends_with(".lock") and
        path.find("/refs/tags/") != std::string::npos) {
        if (op == "create") {
            W->ref_locks[path] = pid;
        }
        else if (op == "unlink") {
            W->ref_locks.erase(path);
        }
    }
    auto g = W->gc_pid.find(pid);
    if (gen and top and op == "rename_from") {
        if (g == W->gc_pid.end()) {
            Violation("C20", "generation moved by " + std::to_string(pid));
            return;
        }
        if (not g->second) {
            g->second = true;
            if (W->gc_drop[pid]) {
                std::erase_if(W->promised, [](auto const& x) {
                    return x.second < W->epoch;
                });
            }
            else {
                ++W->epoch;
            }
        }
        for (auto const& [h, k] : W->holders) {
            if (not sim::Alive(h)) {
                continue;
            }
            Violation("C20",
                      path + " moved while process " + std::to_string(h) +
                          " uses the repositories");
        }
        W->excl.emplace_back(W->gc_no[pid], path);
        return;
    }
    if (gen and g != W->gc_pid.end() and op != "utime" and
        op != "rename_to" and not top) {
        Violation("C20", "collection changes " + path + " in place: " + op);
    }
}

// ---------------------------------------------------------------- processes
struct Held {
    std::optional<LockFile> repo;
    std::optional<LockFile> cas;
};
// as just-mr does
std::optional<Held> TakeLocks() {
    Held h;
    h.repo = RepositoryGarbageCollector::SharedLock(*W->cfg);
    if (not h.repo) {
        return std::nullopt;
    }
    {
        sim::Quiet q;
        W->holders[sim::CurPid()] = 1;
    }
    h.cas = GarbageCollector::SharedLock(*W->cfg);
    if (not h.cas) {
        sim::Quiet q;
        W->holders.erase(sim::CurPid());
        return std::nullopt;
    }
    return h;
}
void Drop(Held& h) {
    {
        sim::Quiet q;
        W->holders.erase(sim::CurPid());
    }
    h.cas.reset();
    h.repo.reset();
}
std::string PidStr() { return "process " + std::to_string(sim::CurPid()); }

bool AnyUpward(std::string const& t) {
    auto const& c = Closure(t);
    return std::any_of(c.begin(), c.end(), [](auto const& i) {
        return W->obj.at(i).upward;
    });
}

int MrProc(json const& p) {
    git_libgit2_init();
    auto locks = TakeLocks();
    if (not locks) {
        return 1;
    }
    auto const pid = sim::CurPid();
    auto const storage = Storage::Create(&*W->cfg);
    auto lb = LocalExecutionConfig::Builder{}.Build();
    LocalExecutionConfig const exec{*lb};
    LocalContext const local{&exec, &*W->cfg, &storage};
    RepositoryConfig repo_config;
    LocalApi const api{&local, &repo_config};
    JustMRProgress progress{p["ops"].size()};
    std::vector<Done> done;
    std::mutex static_lock;
    auto const jobs = p["jobs"].get<std::size_t>();
    struct Exp {
        std::string what;
        std::string id;
        bool must = false;
        bool ran = false;  // may run the command
        bool ok = false;
        bool answered = false;
        int runs = 0;
    };
    std::vector<Exp> exps(p["ops"].size());
    std::map<std::string, bool> first_kept;
    auto success = [&](std::size_t i, std::string const& id, bool tag) {
        sim::Quiet q;
        exps[i].ok = true;
        exps[i].answered = true;
        Report(id);
        Used(id);
        done.push_back({id, PidStr() + ": " + exps[i].what, tag});
    };
    int fatal_seen = 0;
    auto failure = [&](std::size_t i) {
        sim::Quiet q;
        ++fatal_seen;
        exps[i].answered = true;
    };
    {
        auto crit = CreateCriticalGitOpMap(
            std::make_shared<CriticalGitOpGuard>());
        std::vector<std::string> const launcher{};
        auto import = CreateImportToGitMap(
            &crit, "git", launcher, &*W->cfg, jobs);
        auto fetch =
            CreateGitTreeFetchMap(&crit,
                                  &import,
                                  "git",
                                  launcher,
                                  std::make_shared<Mirrors>(),
                                  nullptr,
                                  &*W->cfg,
                                  nullptr,
                                  &api,
                                  nullptr,
                                  false,
                                  &progress,
                                  jobs);
        TaskSystem ts{jobs};
        for (std::size_t i = 0; i < p["ops"].size(); ++i) {
            auto const& o = p["ops"][i];
            auto const kind = o[0].get<std::string>();
            auto const& id = T(o[1]);
            auto& e = exps[i];
            {
                sim::Quiet q;
                e.id = id;
                e.what = kind + " of tree " + id;
                Used(id);
                auto it = W->promised.find(id);
                bool const kept =
                    it != W->promised.end() and
                    W->epoch - it->second < static_cast<int>(W->gens);
                // (the answer of the first operation counts for all)
                e.must = first_kept.emplace(kind + id, kept).first->second;
                e.runs = W->runs[id];
            }
            if (kind == "fetch") {
                auto const how = o[2].get<int>();
                // (the first of several operations for a tree counts)
                e.must = e.must or
                         std::all_of(p["ops"].begin(),
                                     p["ops"].end(),
                                     [&](auto const& x) {
                                         return x[0] != "fetch" or
                                                T(x[1]) != id or
                                                x[2].template get<int>() < 2;
                                     });
                GitTreeInfo key{
                    .tree_hash = *HashInfo::Create(
                        HashFunction::Type::GitSHA1, id, /*is_tree=*/true),
                    .env_vars = {},
                    .inherit_env = {},
                    .command = {"/bin/fetch",
                                std::to_string(o[1].get<std::size_t>() %
                                               W->trees.size()),
                                std::to_string(how)},
                    .origin = "repo" + std::to_string(i)};
                ts.QueueTask([&, key, i]() {
                    fetch.ConsumeAfterKeysReady(
                        &ts,
                        {key},
                        [&, i](auto const& v) {
                            success(i, exps[i].id, not *v[0]);
                        },
                        [&, i](auto const& msg, bool fatal) {
                            sim::Note((fatal ? "fatal: " : "note: ") + std::string{msg});
                            if (fatal) {
                                failure(i);
                            }
                        },
                        [&, i]() { failure(i); });
                });
            }
            else if (kind == "import" or kind == "static") {
                // content brought to a directory of its own
                e.must = true;
                auto dir = "/w/p" + std::to_string(pid) + "-" +
                           std::to_string(i);
                {
                    sim::Quiet q;
                    sim::vfs::MkDirs(dir);
                    (void)Materialise(id, dir);
                }
                if (kind == "import") {
                    ts.QueueTask([&, dir, i]() {
                        import.ConsumeAfterKeysReady(
                            &ts,
                            {CommitInfo{dir, "test", exps[i].id}},
                            [&, i](auto const& v) {
                                auto const& [tree, cas] = *v[0];
                                if (tree != exps[i].id) {
                                    Violation("C40",
                                              exps[i].what + " gave " + tree);
                                }
                                if (cas == nullptr) {
                                    Violation("C40", "no repository returned");
                                }
                                success(i, exps[i].id, true);
                            },
                            [&, i](auto const& msg, bool fatal) {
                            sim::Note((fatal ? "fatal: " : "note: ") + std::string{msg});
                                if (fatal) {
                                    failure(i);
                                }
                            },
                            [&, i]() { failure(i); });
                    });
                }
                else {
                    ts.QueueTask([&, dir, i]() {
                        if (not GitRepo::InitAndOpen(W->cfg->GitRoot(),
                                                     /*is_bare=*/true)) {
                            failure(i);
                            return;
                        }
                        auto r = GitRepo::ImportToGit(
                            *W->cfg,
                            dir,
                            "Content of test " + exps[i].id,
                            &static_lock);
                        if (not r) {
                            sim::Note("import failed: " + r.error());
                            failure(i);
                            return;
                        }
                        if (*r != exps[i].id) {
                            Violation("C40", exps[i].what + " gave " + *r);
                        }
                        success(i, exps[i].id, true);
                    });
                }
            }
            else if (kind == "keep") {
                // tag a tree known to be there
                {
                    sim::Quiet q;
                    auto it = W->promised.find(id);
                    if (it == W->promised.end() or it->second != W->epoch) {
                        e.must = false;
                        e.answered = true;
                        continue;
                    }
                }
                GitOpKey key{.params = {W->cfg->GitRoot(),
                                        id,
                                        "Keep referenced tree alive"},
                             .op_type = GitOpType::KEEP_TREE};
                ts.QueueTask([&, key, i]() {
                    crit.ConsumeAfterKeysReady(
                        &ts,
                        {key},
                        [&, i](auto const& v) {
                            if (v[0]->result) {
                                if (*v[0]->result != "keep-" + exps[i].id) {
                                    Violation("C40",
                                              "tag named " + *v[0]->result);
                                }
                                success(i, exps[i].id, true);
                            }
                            else {
                                failure(i);
                            }
                        },
                        [&, i](auto const& msg, bool fatal) {
                            sim::Note((fatal ? "fatal: " : "note: ") + std::string{msg});
                            if (fatal) {
                                failure(i);
                            }
                        },
                        [&, i]() { failure(i); });
                });
            }
            else if (kind == "cas") {
                // leave the tree in the local CAS; trees with links out of
                // their directory are not valid there
                e.must = false;
                if (AnyUpward(id)) {
                    e.answered = true;
                    continue;
                }
                ts.QueueTask([&, i]() {
                    bool ok = true;
                    std::function<bool(std::string const&)> store =
                        [&](std::string const& t) {
                            for (auto const& k : W->obj.at(t).kids) {
                                if (k.type == 't') {
                                    if (not store(k.id)) {
                                        return false;
                                    }
                                }
                                else if (not storage.CAS().StoreBlob(
                                             W->obj.at(k.id).bytes,
                                             k.type == 'x')) {
                                    return false;
                                }
                            }
                            return storage.CAS()
                                .StoreTree(W->obj.at(t).bytes)
                                .has_value();
                        };
                    ok = store(exps[i].id);
                    sim::Quiet q;
                    exps[i].answered = true;
                    exps[i].ok = ok;
                    if (ok) {
                        W->in_cas.insert(exps[i].id);
                    }
                });
            }
        }
    }
    bool const faulty = sim::FaultsIn(pid) > 0;
    sim::Quiet q;
    for (auto const& e : exps) {
        // a failed operation may leave others that wait for it without an
        // answer, the invocation fails as a whole then
        if (not e.answered and fatal_seen == 0) {
            Violation("C40", PidStr() + ": no answer for " + e.what);
            continue;
        }
        if (e.must and not e.ok and not faulty) {
            auto msg = PidStr() + ": " + e.what + " failed without cause";
            for (auto const& [path, creator] : W->ref_locks) {
                if (sim::Crashed(creator) and
                    (e.what.compare(0, 4, "keep") != 0 or
                     path.find("/keep-" + e.id) != std::string::npos) and
                    sim::vfs::Lstat(path).kind != sim::vfs::Kind::None) {
                    msg = "tag locked by a process that is gone: " + msg;
                    break;
                }
            }
            Violation("C40", msg);
            Violation("C20", msg);
        }
    }
    CheckDone(done);
    Drop(*locks);
    return 0;
}

// --------------------------------------------------------------- collections
int GcProc(json const& p, bool alone) {
    git_libgit2_init();
    auto const pid = sim::CurPid();
    bool const drop = p.value("drop", false);
    {
        sim::Quiet q;
        W->gc_pid[pid] = false;
        W->gc_no[pid] = ++W->ngc;
        W->gc_drop[pid] = drop;
    }
    bool ok = RepositoryGarbageCollector::TriggerGarbageCollection(*W->cfg,
                                                                    drop);
    bool const faulty = sim::FaultsIn(pid) > 0;
    sim::Quiet q;
    if (not ok) {
        if (not faulty) {
            Violation("C20", PidStr() + ": collection failed without cause");
        }
        return 1;
    }
    if (not drop) {
        ++W->rotated;
    }
    if (alone) {
        // what is older than the oldest generation is removed
        for (auto const& e : sim::vfs::List(kRepos)) {
            auto const name = e.path.substr(kRepos.size() + 1);
            if (name == "gc.lock") {
                continue;
            }
            bool known = false;
            for (std::size_t g = drop ? 0 : 1; g < (drop ? 1 : W->gens); ++g) {
                known = known or name == "generation-" + std::to_string(g);
            }
            if (not known and not faulty) {
                Violation("C20", e.path + " left after a collection");
            }
        }
        CheckGone();
    }
    return 0;
}

// ------------------------------------------------------------------- reading
char TypeOf(ObjectType t) {
    switch (t) {
        case ObjectType::File:
            return 'f';
        case ObjectType::Executable:
            return 'x';
        case ObjectType::Symlink:
            return 'l';
        case ObjectType::Tree:
            return 't';
    }
    return '?';
}
struct Reader {
    GitCASPtr cas;
    std::optional<GitRepo> repo;
    std::map<std::string, std::optional<GitTree>> trees;
    std::map<std::string, std::optional<FileRoot>> roots;
    int pid = 0;

    void Fail(std::string const& what) const {
        // only an injected failure excuses
        if (sim::FaultsIn(pid) == 0) {
            Violation("C41", what + " failed without cause");
        }
        else {
            sim::Probe("read failed after a fault");
        }
    }
    static void Bad(std::string const& what) { Violation("C41", what); }
    static bool HasUpward(std::string const& t) {
        auto const& k = W->obj.at(t).kids;
        return std::any_of(k.begin(), k.end(), [](Kid const& x) {
            return x.type == 'l' and W->obj.at(x.id).upward;
        });
    }

    // ... or a tree below
    static bool DeepUpward(std::string const& t) {
        auto const& c = Closure(t);
        return std::any_of(c.begin(), c.end(), HasUpward);
    }

    void CheckEntry(std::string const& where,
                    Kid const& k,
                    GitTreeEntryPtr const& e,
                    Rng& r,
                    bool special,
                    int depth) const {
        if (e == nullptr) {
            Bad(where + ": entry not found");
            return;
        }
        if (e->Hash() != k.id or TypeOf(e->Type()) != k.type) {
            Bad(where + ": entry has id " + e->Hash() + " type " +
                TypeOf(e->Type()) + " instead of " + k.id + " type " + k.type);
            return;
        }
        auto const& n = W->obj.at(k.id);
        if (r.Chance(0.3)) {
            auto s = e->Size();
            if (not s) {
                Fail("size of " + where);
            }
            else if (*s != n.bytes.size()) {
                Bad("size of " + where + " is " + std::to_string(*s));
            }
        }
        if (r.Chance(0.3)) {
            auto s = e->RawData();
            if (not s) {
                Fail("data of " + where);
            }
            else if (*s != n.bytes) {
                Bad("data of " + where + " differs");
            }
        }
        if (k.type != 't') {
            auto b = e->Blob();
            if (not b) {
                if (not n.upward) {
                    Fail("content of " + where);
                }
            }
            else if (*b != n.bytes) {
                Bad("content of " + where + " differs");
            }
            return;
        }
        if (e->Blob()) {
            Bad("tree " + where + " read as blob");
        }
        auto const& t = e->Tree(special);
        auto const& t2 = e->Tree(special);
        if (&t != &t2) {
            Bad("tree " + where + " computed twice");
        }
        if (not t) {
            if (special or not HasUpward(k.id)) {
                Fail("tree " + where);
            }
            return;
        }
        if (depth < 4) {
            CheckTree(where, k.id, *t, r, special, depth + 1);
        }
    }
    void CheckTree(std::string const& where,
                   std::string const& id,
                   GitTree const& t,
                   Rng& r,
                   bool special,
                   int depth = 0) const {
        auto const& n = W->obj.at(id);
        std::map<std::string, Kid const*> want;
        for (auto const& k : n.kids) {
            if (not(special and k.type == 'l')) {
                want[k.name] = &k;
            }
        }
        std::size_t have = 0;
        for (auto const& [name, e] : t) {
            ++have;
            if (not want.contains(name)) {
                Bad("tree " + where + " has unknown entry " + name);
                return;
            }
        }
        if (have != want.size()) {
            Bad("tree " + where + " has " + std::to_string(have) +
                " entries instead of " + std::to_string(want.size()));
            return;
        }
        if (t.FileRootHash() != id) {
            Bad("tree " + where + " has id " + t.FileRootHash());
        }
        if (not special and r.Chance(0.2)) {
            auto s = t.RawData();
            if (not s) {
                Fail("data of tree " + where);
            }
            else if (*s != n.bytes) {
                Bad("data of tree " + where + " differs");
            }
        }
        for (auto const& [name, k] : want) {
            if (r.Chance(0.6)) {
                CheckEntry(where + "/" + name,
                           *k,
                           t.LookupEntryByName(name),
                           r,
                           special,
                           depth);
            }
        }
        if (t.LookupEntryByName("no such entry") != nullptr) {
            Bad("entry found that does not exist");
        }
    }
    // a random path below the tree
    static Kid const* Walk(std::string const& id,
                           Rng& r,
                           std::string* path,
                           bool* upward) {
        auto const* n = &W->obj.at(id);
        auto cur = id;
        Kid const* k = nullptr;
        for (int i = 0; i < 4 and not n->kids.empty(); ++i) {
            if (k != nullptr and k->type != 't') {
                break;
            }
            *upward = *upward or HasUpward(cur);
            k = &n->kids[r.Below(n->kids.size())];
            *path += (path->empty() ? "" : "/") + k->name;
            n = &W->obj.at(k->id);
            cur = k->id;
            if (r.Chance(0.3)) {
                break;
            }
        }
        return k;
    }

    void Step(Rng& r, std::vector<std::string> const& ids) {
        auto const& root = r.Pick(ids);
        auto const& cl = Closure(root);
        auto const id = *std::next(cl.begin(),
                                   static_cast<long>(r.Below(cl.size())));
        auto const& n = W->obj.at(id);
        auto const logger = std::make_shared<GitRepo::anon_logger_t>(
            [](auto const&, bool) {});
        switch (r.Below(13)) {
            case 0: {
                bool const hex = r.Chance(0.5);
                auto c = cas->ReadObject(
                    hex ? id : Raw(id), hex, false, LogLevel::Trace);
                if (not c) {
                    Fail("reading " + id);
                }
                else if (*c != n.bytes) {
                    Bad("content of " + id + " differs");
                }
                break;
            }
            case 1: {
                auto h = cas->ReadHeader(id, true);
                if (not h) {
                    Fail("reading header of " + id);
                }
                else if (h->first != n.bytes.size() or
                         (h->second == ObjectType::Tree) != n.tree) {
                    Bad("header of " + id + " is wrong");
                }
                break;
            }
            case 2: {
                // an own tree object
                if (not n.tree) {
                    break;
                }
                bool const special = r.Chance(0.3);
                bool const skip = r.Chance(0.3);
                auto t = GitTree::Read(cas, id, special, skip);
                if (not t) {
                    if (special or skip or not HasUpward(id)) {
                        Fail("tree " + id);
                    }
                }
                else {
                    if (not special and not skip and HasUpward(id)) {
                        Bad("tree " + id + " read despite upwards symlinks");
                    }
                    CheckTree(id, id, *t, r, special);
                }
                break;
            }
            case 3:
            case 4:
            case 5: {
                // the tree shared by all threads
                auto const& t = trees.at(root);
                if (t) {
                    CheckTree(root, root, *t, r, false);
                }
                break;
            }
            case 6: {
                auto const& t = trees.at(root);
                std::string path;
                bool up = false;
                auto const* k = Walk(root, r, &path, &up);
                if (not t or k == nullptr) {
                    break;
                }
                auto e = t->LookupEntryByPath(path);
                if (e == nullptr) {
                    if (not up) {
                        Fail("path " + path);
                    }
                }
                else {
                    CheckEntry(root + ":" + path, *k, e, r, false, 3);
                }
                break;
            }
            case 7: {
                std::string path;
                bool up = false;
                auto const* k = Walk(root, r, &path, &up);
                if (k == nullptr) {
                    break;
                }
                auto x = repo->GetObjectByPathFromTree(root, path);
                if (not x) {
                    Fail("path " + path);
                }
                else if (x->id != k->id or TypeOf(x->type) != k->type) {
                    Bad("path " + path + " gives " + x->id);
                }
                else if (k->type == 'l' and x->symlink_content and
                         *x->symlink_content != W->obj.at(k->id).bytes) {
                    Bad("link " + path + " differs");
                }
                break;
            }
            case 8: {
                std::string path;
                bool up = false;
                auto const* k = Walk(root, r, &path, &up);
                if (k == nullptr or k->type != 't') {
                    break;
                }
                auto x = repo->GetSubtreeFromTree(root, path, logger);
                if (not x) {
                    Fail("subtree " + path);
                }
                else if (*x != k->id) {
                    Bad("subtree " + path + " gives " + *x);
                }
                break;
            }
            case 9: {
                if (n.tree) {
                    auto x = repo->CheckTreeExists(id, logger);
                    if (not x or not *x) {
                        Fail("existence of tree " + id);
                    }
                }
                else {
                    auto x = repo->CheckBlobExists(id, logger);
                    if (not x or not *x) {
                        Fail("existence of blob " + id);
                    }
                }
                break;
            }
            case 10: {
                if (n.tree) {
                    break;
                }
                auto [ok, data] = repo->TryReadBlob(id, logger);
                if (not ok or not data) {
                    Fail("blob " + id);
                }
                else if (*data != n.bytes) {
                    Bad("blob " + id + " differs");
                }
                break;
            }
            case 11: {
                if (not n.tree) {
                    break;
                }
                auto x = repo->ReadDirectTree(id, true, false);
                if (not x) {
                    Fail("entries of " + id);
                    break;
                }
                std::map<std::string, std::pair<std::string, char>> got;
                for (auto const& [raw, es] : *x) {
                    for (auto const& e : es) {
                        got[e.name] = {raw, TypeOf(e.type)};
                    }
                }
                bool same = got.size() == n.kids.size();
                for (auto const& k : n.kids) {
                    auto it = got.find(k.name);
                    same = same and it != got.end() and
                           it->second.first == Raw(k.id) and
                           it->second.second == k.type;
                }
                if (not same) {
                    Bad("entries of " + id + " differ");
                }
                break;
            }
            default: {
                // the view rules have of a repository
                auto const& f = roots.at(root);
                std::string path;
                bool up = HasUpward(root);
                auto const* k = Walk(root, r, &path, &up);
                if (not f or k == nullptr) {
                    break;
                }
                if (f->Exists(path) == up and not up) {
                    Fail("existence of " + path);
                }
                if (k->type == 't') {
                    auto d = f->ReadDirectory(path);
                    if (not d) {
                        if (not up and not DeepUpward(k->id)) {
                            Fail("directory " + path);
                        }
                        break;
                    }
                    std::map<std::string, char> got;
                    // links are listed as such, executables as files
                    for (auto const& f_ : d->FilesIterator()) {
                        got[f_] = 'f';
                    }
                    for (auto const& d_ : d->DirectoriesIterator()) {
                        got[d_] = 't';
                    }
                    for (auto const& l_ : d->SymlinksIterator()) {
                        got[l_] = 'l';
                    }
                    for (auto const& [name, type] : got) {
                        auto const& kids = W->obj.at(k->id).kids;
                        if (std::none_of(
                                kids.begin(),
                                kids.end(),
                                [&](Kid const& x) {
                                    return x.name == name and
                                           (x.type == 'x' ? 'f' : x.type) ==
                                               type;
                                })) {
                            Bad("directory " + path + " lists " + name);
                        }
                    }
                    if (got.size() != W->obj.at(k->id).kids.size() and
                        not up and not DeepUpward(k->id)) {
                        Fail("directory " + path);
                    }
                }
                else if (not up) {
                    auto c = f->ReadContent(path);
                    if (not c) {
                        Fail("content of " + path);
                    }
                    else if (*c != W->obj.at(k->id).bytes) {
                        Bad("content of " + path + " differs");
                    }
                }
            }
        }
    }
};

int ReadProc(json const& p) {
    git_libgit2_init();
    auto locks = TakeLocks();
    if (not locks) {
        return 1;
    }
    auto const pid = sim::CurPid();
    std::vector<std::string> ids;
    {
        sim::Quiet q;
        for (auto const& [id, e] : W->promised) {
            Repo repo(W->cfg->GitRoot());
            if (e == W->epoch and repo.Missing(id).empty()) {
                ids.push_back(id);
            }
        }
    }
    Reader rd;
    rd.pid = pid;
    rd.cas = GitCAS::Open(W->cfg->GitRoot());
    if (ids.empty() or rd.cas == nullptr) {
        if (not ids.empty()) {
            rd.Fail("opening the repository");
        }
        Drop(*locks);
        return 0;
    }
    rd.repo = GitRepo::Open(rd.cas);
    if (not rd.repo) {
        rd.Fail("opening the repository");
        Drop(*locks);
        return 0;
    }
    for (auto const& id : ids) {
        rd.trees[id] = GitTree::Read(rd.cas, id);
        if (not rd.trees[id] and not Reader::HasUpward(id)) {
            rd.Fail("tree " + id);
        }
        rd.roots[id] =
            FileRoot::FromGit(&*W->cfg, W->cfg->GitRoot(), id);
        if (not rd.roots[id]) {
            rd.Fail("root " + id);
        }
    }
    std::vector<std::thread> ts;
    for (auto const& t : p["tops"]) {
        ts.emplace_back([&rd, &ids, &t]() {
            for (auto const& s : t["ops"]) {
                Rng r(s.get<std::uint64_t>());
                rd.Step(r, ids);
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    Drop(*locks);
    return 0;
}

// ----------------------------------------------------------------------- run
void Gen(RunCtx& c, Rng& r) {
    sim::SwarmSched(c, r);
    auto const& P = c.prop;
    json w;
    w["gens"] = P == "C20" ? r.Range(2, 3) : 2;
    auto const nt = r.Range(1, 4);
    json trees = json::array();
    for (int i = 0; i < nt; ++i) {
        trees.push_back({{"seed", r.Below(1000000)},
                         {"links", r.Chance(0.6)},
                         {"big", r.Chance(0.2) ? 20000 : 200}});
    }
    w["trees"] = trees;
    auto mr = [&](int nops, bool faults, bool sure) {
        json ops = json::array();
        for (auto n = r.Range(1, nops); n > 0; --n) {
            auto const t = r.Below(static_cast<std::uint64_t>(nt));
            auto const d = r.Below(20);
            if (d < (P == "C20" ? 13 : 9)) {
                ops.push_back(
                    {"fetch",
                     t,
                     sure ? static_cast<int>(r.Below(2))
                          : static_cast<int>(r.Chance(0.7) ? r.Below(2)
                                                           : r.Range(2, 3))});
            }
            else if (d < 14) {
                ops.push_back({"import", t});
            }
            else if (d < 17) {
                ops.push_back({"static", t});
            }
            else if (d < 19) {
                ops.push_back({"keep", t});
            }
            else {
                ops.push_back({"cas", t});
            }
        }
        return json{{"kind", "mr"},
                    {"ops", ops},
                    {"jobs", r.Range(1, 3)},
                    {"faults", faults}};
    };
    auto gc = [&](bool faults) {
        return json{{"kind", "gc"},
                    {"ops", json::array()},
                    {"drop", r.Chance(0.15)},
                    {"faults", faults}};
    };
    auto rd = [&](int n, bool faults) {
        json tops = json::array();
        for (auto k = r.Range(1, 3); k > 0; --k) {
            json ops = json::array();
            for (auto m = r.Range(1, n); m > 0; --m) {
                ops.push_back(r.Below(1000000000));
            }
            tops.push_back({{"ops", ops}});
        }
        return json{{"kind", "read"}, {"tops", tops}, {"faults", faults}};
    };
    json phases = json::array();
    auto phase = [&](std::vector<json> v) {
        json ops = json::array();
        for (auto& x : v) {
            ops.push_back(std::move(x));
        }
        phases.push_back({{"ops", ops}});
    };
    if (P == "C41") {
        for (auto n = r.Range(1, 2); n > 0; --n) {
            phase({mr(3, false, true)});
        }
        std::vector<json> v;
        v.push_back(rd(12, r.Chance(0.5)));
        if (r.Chance(0.3)) {
            v.push_back(rd(8, r.Chance(0.5)));
        }
        if (r.Chance(0.3)) {
            v.push_back(mr(2, r.Chance(0.3), false));
        }
        phase(std::move(v));
    }
    else if (P == "C20") {
        for (auto n = r.Range(2, 5); n > 0; --n) {
            auto const d = r.Below(10);
            if (d < 5) {
                std::vector<json> v;
                for (auto k = r.Chance(0.7) ? 1 : 2; k > 0; --k) {
                    v.push_back(mr(2, r.Chance(0.3), false));
                }
                if (r.Chance(0.3)) {
                    v.push_back(gc(r.Chance(0.4)));
                }
                phase(std::move(v));
            }
            if (r.Chance(0.7)) {
                std::vector<json> v;
                for (auto k = r.Chance(0.85) ? 1 : 2; k > 0; --k) {
                    v.push_back(gc(r.Chance(0.4)));
                }
                phase(std::move(v));
            }
        }
        phase({mr(3, false, false)});
        if (r.Chance(0.4)) {
            for (auto n = r.Range(1, 4); n > 0; --n) {
                phase({gc(false)});
            }
        }
    }
    else {
        for (auto n = r.Range(1, 2); n > 0; --n) {
            std::vector<json> v;
            for (auto k = r.Range(1, 3); k > 0; --k) {
                v.push_back(mr(3, r.Chance(0.6), false));
            }
            phase(std::move(v));
        }
        phase({mr(2, false, true)});
    }
    w["pops"] = phases;
    c.workload = w;
    c.max_steps = 60000000;
    auto& f = c.faults;
    f.max_faults = static_cast<int>(r.Range(P == "C41" ? 1 : 0, 3));
    if (r.Chance(0.5)) {
        f.skip = r.Below(1ULL << r.Range(4, 12));
    }
    double const lo = r.Chance(0.5) ? 0.001 : 0.005;
    auto on = [&](sim::Fault k, double p, double rate) {
        f.rate[k] = r.Chance(p) ? rate : 0;
    };
    if (P != "C41") {
        on(sim::kCrash, 0.6, lo);
        on(sim::kTornCrash, 0.4, 0.05);
        on(sim::kKillChild, 0.3, 0.02);
        on(sim::kEnospc, 0.4, 0.02);
        on(sim::kShortWrite, 0.3, 0.1);
        on(sim::kForkFail, 0.2, 0.1);
    }
    on(sim::kStall, 0.2, 0.005);
    on(sim::kEio, P == "C41" ? 0.7 : 0.4, lo * 2);
    on(sim::kShortRead, 0.3, 0.1);
    on(sim::kEintr, 0.3, 0.05);
    on(sim::kEmfile, 0.3, 0.01);
}

void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness(c.prop, "processes using the Git cache");
    auto const& w = c.workload;
    git_libgit2_init();
    {
        sim::Quiet q;
        W = new World();
        BuildWorld(w);
        sim::vfs::MkDirs("/w");
        sim::vfs::MkDirs("/r");
        sim::vfs::MkDirs("/tmp");
        sim::vfs::MkDirs("/bin");
        sim::vfs::Write("/bin/fetch", "program", 0755);
        sim::RegisterProgram("/bin/fetch", FetchProgram);
        W->cfg = std::make_unique<StorageConfig>(
            *StorageConfig::Builder{}
                 .SetBuildRoot("/r")
                 .SetNumGenerations(W->gens)
                 .SetHashType(HashFunction::Type::GitSHA1)
                 .Build());
        sim::vfs::OnMutation("/r", Hook);
    }
    int nph = 0;
    for (auto const& ph : w["pops"]) {
        std::vector<int> pids;
        for (auto const& p : ph["ops"]) {
            auto const kind = p["kind"].get<std::string>();
            bool const alone = ph["ops"].size() == 1;
            int const pid = sim::Spawn(kind, [&p, kind, alone]() {
                if (kind == "mr") {
                    return MrProc(p);
                }
                return kind == "gc" ? GcProc(p, alone) : ReadProc(p);
            });
            sim::SetFaults(pid, p["faults"].get<bool>());
            pids.push_back(pid);
        }
        for (auto pid : pids) {
            int const st = sim::Wait(pid);
            sim::Quiet q;
            if (st != 0 and not sim::Crashed(pid) and (st & 0x7f) != 0 and
                (st & 0x7f) != 9) {
                Violation(c.prop,
                          "process ended by signal " +
                              std::to_string(st & 0x7f));
            }
            W->holders.erase(pid);
            W->gc_pid.erase(pid);
        }
        sim::Quiet q;
        CheckRetention("after phase " + std::to_string(nph++));
        sim::State(sim::vfs::HashTree("/r"));
    }
}

void Init() {
    // (its lock spins)
    curl_global_init(CURL_GLOBAL_DEFAULT);
    sim::IsolateLibrary("libgit2.so");
}
sim::HarnessDef const kDef{"git", {"C20", "C40", "C41"}, Gen, Run, Init};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
