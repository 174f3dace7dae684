// Resolving the symbolic links of Git trees (C51): arbitrary link structures,
// several trees and modes in one map, worker threads under the scheduler, the
// objects in libgit2 repositories on the simulated file system.
#include <git2.h>
#include <openssl/evp.h>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "dsim/sim.hpp"
#include "src/buildtool/file_system/git_cas.hpp"
#include "src/buildtool/file_system/symlinks/resolve_symlinks_map.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/multithreading/async_map_utils.hpp"
#include "src/buildtool/multithreading/task_system.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;

namespace {
std::string Hex(unsigned char const* d, unsigned n) {
    static char const* const k = "0123456789abcdef";
    std::string s;
    for (unsigned i = 0; i < n; ++i) {
        s += k[d[i] >> 4U];
        s += k[d[i] & 15U];
    }
    return s;
}
std::string Raw(std::string const& hex) {
    std::string r;
    for (std::size_t i = 0; i + 1 < hex.size(); i += 2) {
        r += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
    }
    return r;
}
std::string Sha1(std::string const& type, std::string const& c) {
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    auto* x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, EVP_sha1(), nullptr);
    std::string h = type + " " + std::to_string(c.size());
    h += '\0';
    EVP_DigestUpdate(x, h.data(), h.size());
    EVP_DigestUpdate(x, c.data(), c.size());
    EVP_DigestFinal_ex(x, md, &n);
    EVP_MD_CTX_free(x);
    return Hex(md, n);
}

// ------------------------------------------------------------------- model
using Comps = std::vector<std::string>;
struct Ent {
    char type = 'f';  // f x l d
    std::string data;
    std::map<std::string, Ent> kids;
    Comps path;
};
enum Mode { kIgnore, kPartial, kComplete };

Comps Split(std::string const& s) {
    Comps c;
    std::string cur;
    for (char ch : s + "/") {
        if (ch == '/') {
            if (not cur.empty() and cur != ".") {
                c.push_back(cur);
            }
            cur.clear();
        }
        else {
            cur += ch;
        }
    }
    return c;
}
// the path after removing ".."; nullopt if it leaves the top
std::optional<Comps> Norm(Comps const& base, std::string const& s) {
    if (not s.empty() and s[0] == '/') {
        return std::nullopt;
    }
    Comps out = base;
    // leaving the top and coming back is leaving the top
    for (auto const& c : Split(s)) {
        if (c == "..") {
            if (out.empty()) {
                return std::nullopt;
            }
            out.pop_back();
        }
        else {
            out.push_back(c);
        }
    }
    return out;
}
bool NonUpwards(std::string const& s) { return Norm({}, s).has_value(); }

using Objects = std::map<std::string, std::pair<bool, std::string>>;

struct Model {
    Ent const* root = nullptr;
    Mode mode = kComplete;
    std::set<Ent const*> links;  // being followed
    std::set<Ent const*> dirs;   // being resolved
    std::set<std::string> keys;
    std::map<std::string, std::string> memo;
    Objects* out = nullptr;

    Ent const* Literal(Comps const& p) const {
        Ent const* e = root;
        for (auto const& c : p) {
            if (e->type != 'd') {
                return nullptr;
            }
            auto it = e->kids.find(c);
            if (it == e->kids.end()) {
                return nullptr;
            }
            e = &it->second;
        }
        return e;
    }
    // where a path leads to; nullptr: nowhere
    Ent const* Follow(Comps const& p) {
        Ent const* e = Literal(p);
        if (e == nullptr) {
            if (p.empty()) {
                return nullptr;
            }
            Comps up{p.begin(), p.end() - 1};
            auto const* d = Follow(up);
            if (d == nullptr or d->type != 'd') {
                return nullptr;
            }
            auto it = d->kids.find(p.back());
            if (it == d->kids.end()) {
                return nullptr;
            }
            e = &it->second;
        }
        if (e->type != 'l') {
            return e;
        }
        if (not links.insert(e).second) {
            return nullptr;  // never leads anywhere
        }
        Comps base{e->path.begin(), e->path.end() - 1};
        auto const t = Norm(base, e->data);
        auto const* r = t ? Follow(*t) : nullptr;
        links.erase(e);
        return r;
    }
    std::string Emit(bool tree, std::string const& bytes) const {
        auto id = Sha1(tree ? "tree" : "blob", bytes);
        if (out != nullptr) {
            (*out)[id] = {tree, bytes};
        }
        return id;
    }
    // the tree with links replaced by what they lead to
    std::optional<std::string> Tree(Ent const* d) {
        if (not dirs.insert(d).second) {
            return std::nullopt;
        }
        struct Line {
            std::string name;
            std::string mode;
            std::string id;
            [[nodiscard]] std::string Key() const {
                return mode == "40000" ? name + "/" : name;
            }
        };
        std::vector<Line> lines;
        for (auto const& [name, k] : d->kids) {
            Ent const* e = &k;
            if (k.type == 'l') {
                if (mode == kIgnore) {
                    continue;
                }
                Comps base{k.path.begin(), k.path.end() - 1};
                if (not Norm(base, k.data)) {
                    return std::nullopt;
                }
                if (mode == kPartial and NonUpwards(k.data)) {
                    lines.push_back({name, "120000", Emit(false, k.data)});
                    continue;
                }
                e = Follow(k.path);
                if (e == nullptr) {
                    return std::nullopt;
                }
            }
            if (e->type == 'd') {
                auto t = Tree(e);
                if (not t) {
                    return std::nullopt;
                }
                lines.push_back({name, "40000", *t});
            }
            else {
                lines.push_back({name,
                                 e->type == 'x' ? "100755" : "100644",
                                 Emit(false, e->data)});
            }
        }
        dirs.erase(d);
        std::sort(lines.begin(), lines.end(), [](auto const& a, auto const& b) {
            return a.Key() < b.Key();
        });
        std::string bytes;
        for (auto const& l : lines) {
            bytes += l.mode + " " + l.name;
            bytes += '\0';
            bytes += Raw(l.id);
        }
        return Emit(true, bytes);
    }
    // Whether the tree can be resolved from its directories on upwards, i.e.
    // no directory has to be complete before one of its own links is.
    // Returns the kind of object: "" if not possible
    std::string Need(Comps const& p) {
        std::string key;
        for (auto const& c : p) {
            key += "/" + c;
        }
        if (auto it = memo.find(key); it != memo.end()) {
            return it->second;
        }
        if (not keys.insert(key).second) {
            return "";
        }
        std::string r = Need2(p);
        keys.erase(key);
        memo[key] = r;
        return r;
    }
    std::string Need2(Comps const& p) {
        auto const* e = Literal(p);
        if (e == nullptr) {
            if (p.empty()) {
                return "";
            }
            Comps up{p.begin(), p.end() - 1};
            if (Need(up) != "d") {
                return "";
            }
            auto const* d = Follow(up);
            auto it = d->kids.find(p.back());
            if (it == d->kids.end()) {
                return "";
            }
            if (it->second.type == 'l') {
                return Need(it->second.path);
            }
            return it->second.type == 'd' ? "d" : "f";
        }
        if (e->type == 'd') {
            for (auto const& [name, k] : e->kids) {
                if (mode == kIgnore and k.type == 'l') {
                    continue;
                }
                if (Need(k.path).empty()) {
                    return "";
                }
            }
            return "d";
        }
        if (e->type != 'l') {
            return "f";
        }
        Comps base{e->path.begin(), e->path.end() - 1};
        auto const t = Norm(base, e->data);
        if (not t) {
            return "";
        }
        if (mode == kPartial and NonUpwards(e->data)) {
            return "l";
        }
        return Need(*t);
    }
};

// ------------------------------------------------------------------- world
struct Src {
    Ent root;
    std::string id;
};
struct Want {
    std::optional<std::string> id;  // nullopt: must not resolve
    bool must = false;              // must resolve
    Objects objs;
};
struct World {
    std::vector<std::unique_ptr<Src>> src;
    std::map<std::pair<std::size_t, int>, Want> want;
    std::map<std::pair<std::size_t, int>, int> verdict;  // of fault free runs
    bool split = false;
};
World* W = nullptr;
char const* const kSrc = "/s/repo";
char const* const kDst = "/t/repo";

void SetPaths(Ent& e, Comps const& p) {
    e.path = p;
    for (auto& [n, k] : e.kids) {
        auto q = p;
        q.push_back(n);
        SetPaths(k, q);
    }
}
// all paths of the tree; to aim links at
void Paths(Ent const& e, std::vector<Comps>& out) {
    out.push_back(e.path);
    for (auto const& [n, k] : e.kids) {
        Paths(k, out);
    }
}
void Links(Ent& e, std::vector<Ent*>& out) {
    if (e.type == 'l') {
        out.push_back(&e);
    }
    for (auto& [n, k] : e.kids) {
        Links(k, out);
    }
}
std::vector<std::string> const& Names() {
    static std::vector<std::string> const n = {
        "a", "b", "c", "d", "a.b", "a-b", "e", "f", "lib", "z"};
    return n;
}
Ent GenDir(Rng& r, int depth, double links) {
    Ent e;
    e.type = 'd';
    for (auto n = depth == 0 ? r.Range(2, 6) : r.Range(0, 4); n > 0; --n) {
        auto const name = r.Pick(Names());
        if (e.kids.count(name) != 0) {
            continue;
        }
        auto& k = e.kids[name];
        if (r.Chance(links)) {
            k.type = 'l';
        }
        else if (depth < 3 and r.Chance(0.45)) {
            k = GenDir(r, depth + 1, links);
        }
        else {
            k.type = r.Chance(0.3) ? 'x' : 'f';
            k.data = "c" + std::to_string(r.Below(5));
        }
    }
    return e;
}
std::string GenTarget(Rng& r, Ent const& l, std::vector<Comps> const& paths) {
    auto const d = r.Below(40);
    if (d == 0) {
        return "/" + r.Pick(Names());
    }
    if (d == 1) {
        return r.Chance(0.5) ? "." : "..";
    }
    Comps to;
    if (d < 5) {  // anywhere
        for (auto n = r.Range(0, 3); n > 0; --n) {
            to.push_back(r.Pick(Names()));
        }
    }
    else {
        to = r.Pick(paths);
        if (r.Chance(0.35)) {  // below something else
            to.push_back(r.Pick(Names()));
            if (r.Chance(0.3)) {
                to.push_back(r.Pick(Names()));
            }
        }
    }
    // relative to the directory of the link
    Comps from{l.path.begin(), l.path.end() - 1};
    std::size_t common = 0;
    if (r.Chance(0.9)) {
        while (common < from.size() and common < to.size() and
               from[common] == to[common]) {
            ++common;
        }
    }
    std::string s;
    auto add = [&](std::string const& c) { s += (s.empty() ? "" : "/") + c; };
    auto ups = from.size() - common;
    if (r.Chance(0.03)) {
        ++ups;  // leaves the tree
    }
    for (std::size_t i = 0; i < ups; ++i) {
        add("..");
        if (r.Chance(0.05)) {
            add(".");
        }
    }
    for (auto i = common; i < to.size(); ++i) {
        if (r.Chance(0.04)) {
            add(r.Pick(Names()));
            add("..");
        }
        add(to[i]);
    }
    if (s.empty()) {
        s = ".";
    }
    if (r.Chance(0.03)) {
        s += "/";
    }
    return s;
}
std::string Write(git_odb* odb, Ent const& e) {
    git_oid oid;
    auto put = [&](std::string const& s, git_object_t t) {
        if (git_odb_write(&oid, odb, s.data(), s.size(), t) != 0) {
            sim::Note("could not set up the repository");
        }
        return std::string{git_oid_tostr_s(&oid)};
    };
    if (e.type != 'd') {
        return put(e.data, GIT_OBJECT_BLOB);
    }
    std::vector<std::pair<std::string, std::string>> lines;
    for (auto const& [n, k] : e.kids) {
        std::string s = (k.type == 'd'   ? "40000 "
                         : k.type == 'x' ? "100755 "
                         : k.type == 'l' ? "120000 "
                                         : "100644 ") +
                        n;
        s += '\0';
        s += Raw(Write(odb, k));
        lines.emplace_back(n + (k.type == 'd' ? "/" : ""), s);
    }
    std::sort(lines.begin(), lines.end());
    std::string bytes;
    for (auto const& [k, s] : lines) {
        bytes += s;
    }
    return put(bytes, GIT_OBJECT_TREE);
}

// ------------------------------------------------------------------ process
char const* const kModeName[] = {"ignore", "partially", "completely"};
PragmaSpecial const kPragma[] = {PragmaSpecial::Ignore,
                                 PragmaSpecial::ResolvePartially,
                                 PragmaSpecial::ResolveCompletely};

std::string Broken(Want const& w) {
    git_repository* repo = nullptr;
    git_odb* odb = nullptr;
    std::string bad;
    if (git_repository_open_bare(&repo, W->split ? kDst : kSrc) != 0 or
        git_repository_odb(&odb, repo) != 0) {
        git_repository_free(repo);
        return "the repository";
    }
    for (auto const& [id, o] : w.objs) {
        git_oid oid;
        git_odb_object* obj = nullptr;
        if (git_oid_fromstr(&oid, id.c_str()) != 0 or
            git_odb_read(&obj, odb, &oid) != 0) {
            bad = (o.first ? "tree " : "blob ") + id;
            break;
        }
        std::string s{static_cast<char const*>(git_odb_object_data(obj)),
                      git_odb_object_size(obj)};
        git_odb_object_free(obj);
        if (s != o.second) {
            bad = "content of " + id;
            break;
        }
    }
    git_odb_free(odb);
    git_repository_free(repo);
    return bad;
}

int Proc(json const& p) {
    git_libgit2_init();
    auto const src = GitCAS::Open(kSrc);
    auto const dst = W->split ? GitCAS::Open(kDst) : src;
    auto const pid = sim::CurPid();
    if (src == nullptr or dst == nullptr) {
        if (sim::FaultsIn(pid) == 0) {
            Violation("C51", "could not open the repository");
        }
        return 0;
    }
    auto map = CreateResolveSymlinksMap();
    struct Req {
        std::size_t tree = 0;
        int mode = 0;
        int ok = 0;
        int failed = 0;
        std::string id;
        std::string msg;
    };
    std::vector<Req> reqs;
    for (auto const& o : p["ops"]) {
        reqs.push_back({o[0].get<std::size_t>() % W->src.size(),
                        o[1].get<int>(), 0, 0, "", ""});
    }
    {
        TaskSystem ts{p["jobs"].get<std::size_t>()};
        for (auto& q : reqs) {
            map.ConsumeAfterKeysReady(
                &ts,
                {GitObjectToResolve{W->src[q.tree]->id,
                                    ".",
                                    kPragma[q.mode],
                                    std::nullopt,
                                    src,
                                    dst}},
                [&q](auto const& v) {
                    sim::Quiet z;
                    ++q.ok;
                    q.id = v[0]->id;
                    if (not IsTreeObject(v[0]->type)) {
                        q.id += " (not a tree)";
                    }
                },
                [&q](auto const& msg, bool fatal) {
                    sim::Quiet z;
                    if (fatal) {
                        ++q.failed;
                        q.msg = msg;
                    }
                },
                [&q]() {
                    sim::Quiet z;
                    ++q.failed;
                });
        }
    }
    auto const cycle = DetectAndReportCycle(
        "resolving symlinks", map, kGitObjectToResolvePrinter);
    sim::Quiet z;
    bool all_ok = true;
    auto const faults = sim::FaultsIn(pid);
    for (auto const& q : reqs) {
        auto const what = std::string{"tree "} + W->src[q.tree]->id + " " +
                          kModeName[q.mode];
        auto const& w = W->want.at({q.tree, q.mode});
        if (q.ok > 1 or (q.ok == 1 and q.failed != 0)) {
            Violation("C51", "resolved more than once: " + what);
        }
        if (q.ok == 0 and q.failed == 0 and not cycle) {
            Violation("C51",
                      "neither resolved nor reported to fail: " + what);
        }
        if (q.ok != 0) {
            if (not w.id) {
                Violation("C51",
                          "resolved in spite of an invalid link: " + what +
                              " to " + q.id);
            }
            else if (q.id != *w.id) {
                Violation("C51",
                          "wrong tree: " + what + " resolved to " + q.id +
                              " instead of " + *w.id);
            }
            else if (auto b = Broken(w); not b.empty()) {
                Violation("C51",
                          "incomplete result: " + what + " without " + b);
            }
            sim::Probe("resolved");
            continue;
        }
        all_ok = false;
        sim::Probe(q.failed != 0 ? "failed" : "cycles");
        if (faults == 0) {
            if (w.must) {
                Violation("C51",
                          "could not resolve: " + what + ": " +
                              (q.failed != 0 ? q.msg : "cycle"));
            }
            if (not w.must and w.id) {
                sim::Probe("may_fail");
            }
        }
    }
    if (all_ok and cycle) {
        Violation("C51", "cycle reported for resolved trees: " + *cycle);
    }
    if (faults == 0) {
        for (auto const& q : reqs) {
            auto const [it, fresh] = W->verdict.insert(
                {{q.tree, q.mode}, q.ok});
            if (not fresh and it->second != q.ok) {
                Violation("C51",
                          std::string{"depends on the schedule: tree "} +
                              W->src[q.tree]->id + " " + kModeName[q.mode]);
            }
        }
    }
    return 0;
}

void Gen(RunCtx& c, Rng& r) {
    sim::SwarmSched(c, r);
    json w;
    json trees = json::array();
    for (auto n = r.Range(1, 3); n > 0; --n) {
        trees.push_back({{"seed", r.Below(1000000000)},
                         {"links", r.Pick(std::vector<double>{
                                       0.1, 0.2, 0.35, 0.6})},
                         {"good", r.Chance(0.75)}});
    }
    w["trees"] = trees;
    w["split"] = r.Chance(0.5);
    json procs = json::array();
    auto const np = r.Range(1, 3);
    json ops = json::array();
    for (auto n = r.Range(1, 4); n > 0; --n) {
        ops.push_back({r.Below(3), r.Chance(0.15) ? 0 : r.Range(1, 2)});
    }
    for (int i = 0; i < np; ++i) {
        auto o = ops;
        if (r.Chance(0.5)) {
            std::reverse(o.begin(), o.end());
        }
        procs.push_back({{"ops", o},
                         {"jobs", r.Range(1, 4)},
                         {"par", r.Chance(0.3)},
                         {"faults", r.Chance(0.4)}});
    }
    w["pops"] = procs;
    c.workload = w;
    c.max_steps = 40000000;
    auto& f = c.faults;
    f.max_faults = static_cast<int>(r.Range(0, 3));
    if (r.Chance(0.5)) {
        f.skip = r.Below(1ULL << r.Range(4, 11));
    }
    double const lo = r.Chance(0.5) ? 0.002 : 0.01;
    auto on = [&](sim::Fault k, double p, double rate) {
        f.rate[k] = r.Chance(p) ? rate : 0;
    };
    on(sim::kCrash, 0.4, lo);
    on(sim::kTornCrash, 0.3, 0.05);
    on(sim::kEnospc, 0.4, 0.02);
    on(sim::kShortWrite, 0.3, 0.1);
    on(sim::kStall, 0.2, 0.005);
    on(sim::kEio, 0.5, lo * 2);
    on(sim::kShortRead, 0.3, 0.1);
    on(sim::kEmfile, 0.3, 0.01);
}

void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness("C51", "processes resolving links");
    auto const& w = c.workload;
    git_libgit2_init();
    {
        sim::Quiet q;
        W = new World();
        W->split = w["split"].get<bool>();
        sim::vfs::MkDirs("/s");
        sim::vfs::MkDirs("/t");
        sim::vfs::MkDirs("/tmp");
        git_repository* repo = nullptr;
        git_odb* odb = nullptr;
        if (W->split) {
            git_repository_init(&repo, kDst, 1);
            git_repository_free(repo);
        }
        git_repository_init(&repo, kSrc, 1);
        git_repository_odb(&odb, repo);
        for (auto const& t : w["trees"]) {
            auto s = std::make_unique<Src>();
            Rng r(t["seed"].get<std::uint64_t>());
            s->root = GenDir(r, 0, t["links"].get<double>());
            SetPaths(s->root, {});
            std::vector<Comps> paths;
            std::vector<Ent*> links;
            Paths(s->root, paths);
            Links(s->root, links);
            Model m;
            m.root = &s->root;
            for (auto* l : links) {
                // mostly links that lead somewhere
                for (int i = 0; i < 4; ++i) {
                    l->data = GenTarget(r, *l, paths);
                    if (not t["good"].get<bool>()) {
                        break;
                    }
                    auto const* to = m.Follow(l->path);
                    if (to != nullptr and
                        not(to->path.size() <= l->path.size() and
                            std::equal(to->path.begin(),
                                       to->path.end(),
                                       l->path.begin()))) {
                        break;
                    }
                }
            }
            s->id = Write(odb, s->root);
            W->src.push_back(std::move(s));
        }
        git_odb_free(odb);
        git_repository_free(repo);
        for (std::size_t i = 0; i < W->src.size(); ++i) {
            for (int mode = 0; mode < 3; ++mode) {
                auto& x = W->want[{i, mode}];
                Model m;
                m.root = &W->src[i]->root;
                m.mode = static_cast<Mode>(mode);
                m.out = &x.objs;
                x.id = m.Tree(m.root);
                x.must = x.id and m.Need({}) == "d";
            }
        }
    }
    std::vector<int> pids;
    auto join = [&]() {
        for (auto pid : pids) {
            int const st = sim::Wait(pid);
            sim::Quiet q;
            if (st != 0 and not sim::Crashed(pid)) {
                Violation("C51",
                          "process ended with status " + std::to_string(st));
            }
        }
        pids.clear();
    };
    for (auto const& p : w["pops"]) {
        if (not p["par"].get<bool>()) {
            join();
        }
        int const pid = sim::Spawn("resolve", [&p]() { return Proc(p); });
        sim::SetFaults(pid, p["faults"].get<bool>());
        pids.push_back(pid);
    }
    join();
    sim::Quiet q;
    sim::State(sim::vfs::HashTree("/t") ^ sim::vfs::HashTree("/s"));
}

void Init() { sim::IsolateLibrary("libgit2.so"); }
sim::HarnessDef const kDef{"sym", {"C51"}, Gen, Run, Init};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
