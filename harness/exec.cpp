// Local and remote execution: actions run by LocalAction (C30, C31), builds of
// action graphs through GraphTraverser, executor and traverser (C32), and the
// same over the remote-execution protocol with the real services at the other
// end of a simulated network (C80). Builds, servers and the commands they run
// are simulated processes on a simulated file system.
#include <fcntl.h>
#include <openssl/evp.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>

#include "dsim/sim.hpp"
#include "harness/net_fake.hpp"
#include "build/bazel/remote/execution/v2/remote_execution.pb.h"
#include "google/bytestream/bytestream.pb.h"
#include "google/longrunning/operations.pb.h"
#include "google/rpc/status.pb.h"
#include "src/buildtool/auth/authentication.hpp"
#include "src/buildtool/common/artifact_blob.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/remote/retry_config.hpp"
#include "src/buildtool/common/repository_config.hpp"
#include "src/buildtool/common/statistics.hpp"
#include "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.hpp"
#include "src/buildtool/execution_api/common/api_bundle.hpp"
#include "src/buildtool/execution_api/execution_service/server_implementation.hpp"
#include "src/buildtool/execution_api/local/config.hpp"
#include "src/buildtool/execution_api/local/context.hpp"
#include "src/buildtool/execution_api/local/local_api.hpp"
#include "src/buildtool/execution_api/remote/config.hpp"
#include "src/buildtool/execution_api/remote/context.hpp"
#include "src/buildtool/execution_engine/executor/context.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/graph_traverser/graph_traverser.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/log_sink.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/progress_reporting/progress.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/storage.hpp"

namespace {
bool g_verbose = false;
class NoteSink final : public ILogSink {
    void Emit(Logger const* /*logger*/,
              LogLevel level,
              std::string const& msg) const noexcept final {
        sim::Quiet const q;
        sim::Note("log " + std::to_string(static_cast<int>(level)) + " " +
                  msg.substr(0, g_verbose ? 2000 : 300));
    }
};
}  // namespace
using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;
namespace fs = std::filesystem;
namespace vfs = sim::vfs;

namespace {
bool g_native = true;

std::string Hex(unsigned char const* d, unsigned n) {
    static char const* const k = "0123456789abcdef";
    std::string s;
    for (unsigned i = 0; i < n; ++i) {
        s += k[d[i] >> 4U];
        s += k[d[i] & 15U];
    }
    return s;
}
std::string RefHash(std::string const& c, bool tree) {
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    auto* x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, g_native ? EVP_sha1() : EVP_sha256(), nullptr);
    if (g_native) {
        std::string h = (tree ? "tree " : "blob ") + std::to_string(c.size());
        h += '\0';
        EVP_DigestUpdate(x, h.data(), h.size());
    }
    EVP_DigestUpdate(x, c.data(), c.size());
    EVP_DigestFinal_ex(x, md, &n);
    EVP_MD_CTX_free(x);
    return Hex(md, n);
}
std::string Raw(std::string const& hex) {
    std::string r;
    for (std::size_t i = 0; i + 1 < hex.size(); i += 2) {
        r += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
    }
    return r;
}
std::string Filler(std::uint64_t seed, std::size_t n) {
    std::string s;
    s.resize(n);
    std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 12345;
    for (std::size_t i = 0; i < n; ++i) {
        x ^= x << 13U;
        x ^= x >> 7U;
        x ^= x << 17U;
        s[i] = static_cast<char>('a' + static_cast<int>(x % 26));
    }
    return s;
}
std::string Fnv(std::string const& s) {
    std::uint64_t h = 1469598103934665603ULL;
    for (char c : s) {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
    std::string r;
    for (int i = 0; i < 16; ++i) {
        r += "0123456789abcdef"[(h >> (4 * i)) & 15];
    }
    return r;
}
std::string Str(json const& j) { return j.get<std::string>(); }

// ------------------------------------------------------- model of file trees
struct Node {
    char t = 'd';  // f x l d
    std::string c;
    std::map<std::string, Node> k;
    bool operator==(Node const& o) const {
        return t == o.t and c == o.c and k == o.k;
    }
};
Node File(std::string c, bool x = false) { return {x ? 'x' : 'f', c, {}}; }
Node Link(std::string t) { return {'l', std::move(t), {}}; }

Node* At(Node* n, std::string const& path) {
    std::size_t i = 0;
    while (i < path.size()) {
        auto j = path.find('/', i);
        if (j == std::string::npos) {
            j = path.size();
        }
        auto const seg = path.substr(i, j - i);
        if (not seg.empty() and seg != ".") {
            n = &n->k[seg];
        }
        i = j + 1;
    }
    return n;
}
void Put(Node* root, std::string const& path, Node const& v) {
    *At(root, path) = v;
}
// content seen by a command: files and links with their paths
void Canon(Node const& n, std::string const& p, std::string* out) {
    if (n.t == 'd') {
        for (auto const& [s, k] : n.k) {
            Canon(k, p.empty() ? s : p + "/" + s, out);
        }
        return;
    }
    *out += p + "|" + n.t + "|" + Fnv(n.c) + "\n";
}
std::string Show(Node const& n, std::string const& p = "") {
    std::string s;
    if (n.t == 'd') {
        s = p + "/ ";
        for (auto const& [a, k] : n.k) {
            s += Show(k, p.empty() ? a : p + "/" + a);
        }
        return s;
    }
    return p + ":" + n.t + "(" + n.c.substr(0, 24) + ") ";
}
std::string Diff(Node const& want, Node const& got, std::string const& p) {
    if (want.t != got.t) {
        return p + ": type " + std::string(1, got.t) + " instead of " +
               std::string(1, want.t);
    }
    if (want.c != got.c) {
        return p + ": content '" + got.c.substr(0, 60) + "' instead of '" +
               want.c.substr(0, 60) + "'";
    }
    for (auto const& [s, k] : want.k) {
        auto it = got.k.find(s);
        if (it == got.k.end()) {
            return p + "/" + s + ": missing";
        }
        if (auto d = Diff(k, it->second, p + "/" + s); not d.empty()) {
            return d;
        }
    }
    for (auto const& [s, k] : got.k) {
        if (want.k.count(s) == 0) {
            return p + "/" + s + ": unexpected";
        }
    }
    return "";
}
// without empty directories, which are not part of what is installed
Node Prune(Node const& n) {
    if (n.t != 'd' and n.t != '?') {
        return n;
    }
    Node r;
    for (auto const& [s, k] : n.k) {
        auto x = Prune(k);
        if (x.t != 'd' or not x.k.empty()) {
            r.k[s] = x;
        }
    }
    return r;
}
// read from the simulated disk, quietly
Node ReadFs(std::string const& path) {
    auto const e = vfs::Lstat(path);
    if (e.kind == vfs::Kind::Link) {
        return Link(*vfs::Readlink(path));
    }
    if (e.kind == vfs::Kind::File) {
        return File(*vfs::Read(path), (e.mode & 0100) != 0);
    }
    Node n;
    if (e.kind == vfs::Kind::None) {
        n.t = '?';
        return n;
    }
    for (auto const& x : vfs::List(path)) {
        n.k[fs::path{x.path}.filename().string()] = ReadFs(x.path);
    }
    return n;
}
void WriteFs(std::string const& path, Node const& n) {
    switch (n.t) {
        case 'd':
            vfs::MkDirs(path);
            for (auto const& [s, k] : n.k) {
                WriteFs(path + "/" + s, k);
            }
            return;
        case 'l': vfs::Symlink(n.c, path); return;
        default: vfs::Write(path, n.c, n.t == 'x' ? 0755 : 0644);
    }
}
// object as stored
struct Obj {
    std::string hash;
    std::string data;
    bool tree;
};
Obj Object(Node const& n, std::vector<Obj>* all = nullptr) {
    Obj o;
    o.tree = n.t == 'd';
    if (not o.tree) {
        o.data = n.c;
    }
    else if (g_native) {
        std::map<std::string, std::string> sorted;
        for (auto const& [s, k] : n.k) {
            auto const x = Object(k, all);
            std::string const mode = k.t == 'd'   ? "40000"
                                     : k.t == 'x' ? "100755"
                                     : k.t == 'l' ? "120000"
                                                  : "100644";
            std::string line = mode + " " + s;
            line += '\0';
            line += Raw(x.hash);
            sorted[s + (k.t == 'd' ? "/" : "")] = line;
        }
        for (auto const& [s, l] : sorted) {
            o.data += l;
        }
    }
    else {
        bazel_re::Directory d;
        for (auto const& [s, k] : n.k) {
            if (k.t == 'l') {
                auto* x = d.add_symlinks();
                x->set_name(s);
                x->set_target(k.c);
                continue;
            }
            auto const y = Object(k, all);
            auto set = [&](auto* x) {
                x->set_name(s);
                x->mutable_digest()->set_hash(y.hash);
                x->mutable_digest()->set_size_bytes(
                    static_cast<std::int64_t>(y.data.size()));
            };
            if (k.t == 'd') {
                set(d.add_directories());
            }
            else {
                auto* x = d.add_files();
                set(x);
                x->set_is_executable(k.t == 'x');
            }
        }
        o.data = d.SerializeAsString();
    }
    o.hash = RefHash(o.data, o.tree);
    if (all != nullptr) {
        all->push_back(o);
    }
    return o;
}
ObjectType TypeOf(char t) {
    switch (t) {
        case 'x': return ObjectType::Executable;
        case 'l': return ObjectType::Symlink;
        case 'd': return ObjectType::Tree;
        default: return ObjectType::File;
    }
}
HashFunction Hf() {
    return HashFunction{g_native ? HashFunction::Type::GitSHA1
                                 : HashFunction::Type::PlainSHA256};
}
ArtifactDigest DigestOf(Obj const& o) {
    return *ArtifactDigestFactory::Create(
        Hf().GetType(), o.hash, o.data.size(), o.tree and g_native);
}
Artifact::ObjectInfo InfoOf(Node const& n) {
    return {DigestOf(Object(n)), TypeOf(n.t), false};
}

// does the tree contain a link leaving it?
bool Upwards(std::string const& t) {
    return t.rfind("..", 0) == 0 or t.rfind("/", 0) == 0;
}
bool HasUpwards(Node const& n) {
    if (n.t == 'l') {
        return Upwards(n.c);
    }
    return std::any_of(n.k.begin(), n.k.end(), [](auto const& x) {
        return HasUpwards(x.second);
    });
}

// ---------------------------------------------------------------- actions
struct Out {
    std::string path;
    std::string kind;
    bool dir = false;
    std::size_t size = 0;
};
struct Act {
    int idx = 0;
    int rep = 0;
    std::string salt, cwd;
    std::vector<Out> outs;
    int exit = 0;
    std::size_t out = 0, err = 0;
    std::uint64_t sleep = 0;
    bool junk = false, poke = false;
    bool no_cache = false, may_fail = false;
    std::map<std::string, std::string> env;
    std::optional<Node> in;  // expected build root
    bool nondet = false;

    [[nodiscard]] std::vector<std::string> Cmd() const {
        return {"/bin/tool", std::to_string(rep), salt};
    }
    [[nodiscard]] std::vector<std::string> Paths(bool dir) const {
        std::vector<std::string> r;
        for (auto const& o : outs) {
            if (o.dir == dir) {
                r.push_back(o.path);
            }
        }
        return r;
    }
    [[nodiscard]] std::vector<std::string> AllPaths() const {
        std::vector<std::string> r;
        for (auto const& o : outs) {
            r.push_back(o.path);
        }
        return r;
    }
};
// one execution of a command
struct Rec {
    int pid = 0;  // parent
    std::string root;
    std::map<std::string, Node> outs;
    int exit = 0;
    std::string out, err;
    bool finished = false;
    bool consumed = false;
    int flag = -1;
    int mode = 0;  // output directories created: 1 yes, 2 no, 3 no difference
};
// what a command produces
struct Prod {
    std::map<std::string, Node> outs;  // by path relative to cwd
    std::vector<std::string> moved;    // inputs taken away
    std::string out, err;
};
std::pair<std::string, Node const*> FirstFile(Node const& n,
                                              std::string const& p = "") {
    for (auto const& [s, k] : n.k) {
        auto const q = p.empty() ? s : p + "/" + s;
        if (k.t == 'f' or k.t == 'x') {
            return {q, &k};
        }
        if (k.t == 'd') {
            if (auto r = FirstFile(k, q); r.second != nullptr) {
                return r;
            }
        }
    }
    return {"", nullptr};
}
Prod Produce(Act const& a, Node const& in, int* counter) {
    Prod r;
    std::string cn;
    Canon(in, "", &cn);
    auto const h = Fnv(cn + a.salt);
    auto const [ip, inode] = FirstFile(in);
    for (auto const& o : a.outs) {
        auto const& k = o.kind;
        auto c = "out:" + a.salt + ":" + o.path + ":" + h;
        if (o.size > 0) {
            c += Filler(std::stoull(h.substr(0, 6), nullptr, 16), o.size);
        }
        Node n;
        if (k == "f" or k == "x") {
            n = File(c, k == "x");
        }
        else if (k == "e") {
            n = File("");
        }
        else if (k == "s" or k == "S") {
            n = File("same", k == "S");
        }
        else if (k == "l") {
            n = Link("tgt/" + h.substr(0, 4));
        }
        else if (k == "L") {
            n = Link("same");
        }
        else if (k == "u") {
            n = Link("../../up");
        }
        else if (k == "d" or k == "U") {
            Put(&n, "a", File(c));
            Put(&n, "b/c", File("same", true));
            Put(&n, "b/d", File("same"));
            Put(&n, "b/l", Link("same"));
            Put(&n, "e", Node{});
            Put(&n, "ln", Link(k == "U" ? "../../../up" : "b/c"));
        }
        else if (k == "E") {
        }
        else if (k == "D") {  // flat directory with shared names
            Put(&n, "a", File("same", h[0] < '8'));
            Put(&n, "a2", File("same", h[1] < '8'));
            Put(&n, h.substr(0, 2), File(c));
            Put(&n, "s/" + h.substr(0, 1), h[2] < '8' ? File("same")
                                                      : Link("same"));
        }
        else if (k == "c" or k == "h") {
            n = inode != nullptr ? *inode : File("");
        }
        else if (k == "m") {
            n = inode != nullptr ? *inode : File("");
            r.moved.push_back(ip);
        }
        else if (k == "n") {
            n = File("nd" +
                     std::to_string(counter != nullptr ? (*counter)++ : 0));
        }
        else if (k == "w") {
            n = o.dir ? File("no directory") : Node{};
        }
        else {
            continue;  // "-": not produced
        }
        r.outs[o.path] = n;
    }
    if (a.out > 0) {
        r.out = "stdout " + a.salt + h + Filler(7, a.out);
    }
    if (a.err > 0) {
        r.err = "stderr " + a.salt + h + Filler(8, a.err);
    }
    return r;
}
// outputs a result may contain; false if some output cannot be collected
bool Collectable(Act const& a, Prod const& p, bool paths, bool native) {
    return std::all_of(a.outs.begin(), a.outs.end(), [&](Out const& o) {
        auto it = p.outs.find(o.path);
        if (it == p.outs.end()) {
            // a directory is created for the command
            return o.dir and not paths and o.kind == "-";
        }
        auto const& n = it->second;
        if (native and HasUpwards(n)) {
            return false;
        }
        if (paths) {
            return true;
        }
        return o.dir ? n.t == 'd' or n.t == 'l' : n.t != 'd';
    });
}

// ------------------------------------------------------------------- world
struct Bad {
    std::uint64_t seq;
    int kind;
};
struct Hist {
    std::vector<std::unique_ptr<Rec>> recs;
    std::map<int, int> enabled, starts;  // by pid
    std::uint64_t good = 0;   // last success returned to a caller
    std::uint64_t bad = 0;    // last time the cache was made bad
    int bad_busy = 0;
    std::string good_arts;
};
struct Val {  // value of an artifact in the model
    Node n;
    bool failed = false;
};
struct World {
    json w;
    bool remote = false;
    std::map<int, Act> acts;
    std::map<int, Hist> hist;
    std::vector<Node> blobs;
    int counter = 1;
    std::set<std::string> live;  // live private directories
    std::map<std::string, std::string> proto;
    // graph
    std::map<std::pair<int, int>, std::optional<Val>> memo;
    int builds_in_progress = 0;
    std::set<std::string> crashed_roots;
    std::unique_ptr<netfake::Net> net;
    int server = 0;
    bool done = false;
    int stage_no = 0;
    int restarts = 0;
    std::map<std::string, std::string> acked;  // hash -> data at the server
    bool any_crash = false;
};
World* W = nullptr;
constexpr char const* kAddr = "rbe:8980";

std::string ProtoDir(std::string const& root) {
    return root + "/protocol-dependent/generation-0/" +
           (g_native ? "git-sha1" : "compatible-sha256");
}
std::string const* Get(std::string const& base,
                       std::string const& store,
                       std::string const& hash) {
    return vfs::Peek(base + "/" + store + "/" + hash.substr(0, 2) + "/" +
                     hash.substr(2));
}
std::optional<std::string> Stored(std::string const& root, Obj const& o) {
    auto const b = ProtoDir(root);
    std::string const* c = nullptr;
    if (o.tree and g_native) {
        c = Get(b, "cast", o.hash);
    }
    else {
        c = Get(b, "casf", o.hash);
        if (c == nullptr) {
            c = Get(b, "casx", o.hash);
        }
    }
    if (c != nullptr) {
        return *c;
    }
    auto const* l =
        Get(b, o.tree and g_native ? "cas-large-t" : "cas-large-f", o.hash);
    if (l == nullptr) {
        return std::nullopt;
    }
    std::string s;
    try {
        for (auto const& p : json::parse(*l)) {
            auto x = Stored(root, {Str(p.at(0)), "", false});
            if (not x) {
                return std::nullopt;
            }
            s += *x;
        }
    } catch (...) {
        return std::nullopt;
    }
    return s;
}
// "" if the artifact with everything below it is in the store
std::string MissingIn(std::string const& root, Node const& n) {
    std::vector<Obj> all;
    Object(n, &all);
    if (n.t != 'd' and all.empty()) {
        all.push_back(Object(n));
    }
    for (auto const& o : all) {
        auto const c = Stored(root, o);
        if (not c) {
            return "object " + o.hash + " is not in the store";
        }
        if (*c != o.data) {
            return "object " + o.hash + " has wrong content in the store";
        }
    }
    return "";
}
void CheckStore(std::string const& root, std::string const& prop) {
    auto const b = ProtoDir(root);
    for (char const* st : {"casf", "casx", "cast"}) {
        for (auto const& e : vfs::Walk(b + "/" + st)) {
            if (e.kind != vfs::Kind::File) {
                continue;
            }
            fs::path const p{e.path};
            auto const h = p.parent_path().filename().string() +
                           p.filename().string();
            if (h.find('.') != std::string::npos) {
                continue;  // temporary file of a crashed process
            }
            auto const* c = vfs::Peek(e.path);
            if (RefHash(*c, std::string{st} == "cast") != h) {
                Violation(prop,
                          "stored object " + e.path +
                              " has been modified: content '" +
                              c->substr(0, 60) + "'");
            }
        }
    }
}

// -------------------------------------------------------- simulated command
// what the private directory of an action must look like
Node ExpectedRoot(Act const& a, bool paths) {
    Node n = *a.in;
    for (auto const& o : a.outs) {
        auto const p =
            a.cwd.empty() ? o.path : a.cwd + "/" + o.path;
        if (o.dir and not paths) {
            At(&n, p);
        }
        else {
            auto const par = fs::path{p}.parent_path().string();
            At(&n, par);
        }
    }
    return n;
}
int Tool(std::vector<std::string> const& argv) {
    Act* a = nullptr;
    Rec* rec = nullptr;
    std::string root;
    Node expect;
    Prod prod;
    int pid = 0;
    {
        sim::Quiet q;
        auto const cwd = fs::current_path().string();
        auto const pos = cwd.find("/build_root");
        if (argv.size() < 3 or pos == std::string::npos) {
            Violation("C30", "command started in " + cwd);
            return 99;
        }
        root = cwd.substr(0, pos + 11);
        a = &W->acts.at(std::stoi(argv[1]));
        pid = getppid();
        auto& h = W->hist[a->idx];
        h.recs.push_back(std::make_unique<Rec>());
        rec = h.recs.back().get();
        rec->pid = pid;
        rec->root = root;
        sim::Note("tool " + argv[1] + " starts in " + root);
        auto const want_cwd = a->cwd.empty() ? root : root + "/" + a->cwd;
        if (cwd != want_cwd) {
            Violation("C30",
                      "command of action " + argv[1] + " started in " + cwd +
                          " instead of " + want_cwd);
        }
        if (argv[2] != a->salt) {
            Violation("C30", "command started with wrong arguments");
        }
        if (not W->live.insert(root).second) {
            Violation("C30",
                      "private directory " + root +
                          " is used by two commands at the same time");
        }
        if (not W->remote and not W->w.contains("arts")) {
            ++h.starts[pid];
            if (h.starts[pid] > h.enabled[pid]) {
                Violation("C31",
                          "action " + argv[1] +
                              " was executed although only its cached result "
                              "was asked for, or more often than requested");
            }
        }
        auto const got = ReadFs(root);
        if (a->in) {
            auto const d1 = Diff(ExpectedRoot(*a, false), got, "");
            auto const d2 = Diff(ExpectedRoot(*a, true), got, "");
            if (not d1.empty() and not d2.empty()) {
                Violation("C30",
                          "command of action " + argv[1] +
                              " sees wrong inputs: " + d1 + " (or: " + d2 +
                              ")");
            }
            rec->mode = (d1.empty() ? 1 : 0) + (d2.empty() ? 2 : 0);
        }
        if (sim::ProcEnv() != a->env) {
            std::string s;
            for (auto const& [k, v] : sim::ProcEnv()) {
                s += k + "=" + v + " ";
            }
            Violation("C30",
                      "command of action " + argv[1] +
                          " has wrong environment: " + s);
        }
        expect = got;
        prod = Produce(*a, a->in ? *a->in : got, &W->counter);
    }
    if (a->poke) {
        // try to write to an input; stored objects must be protected
        std::string target;
        {
            sim::Quiet q;
            auto const f = FirstFile(*a->in).first;
            target = f.empty() ? "" : root + "/" + f;
        }
        if (not target.empty()) {
            sim::Quiet q;
            int const fd = ::open(target.c_str(), O_WRONLY | O_TRUNC);
            if (fd >= 0) {
                sim::Probe("poked an input");
                (void)!::write(fd, "poked", 5);
                ::close(fd);
            }
        }
    }
    if (a->sleep > 0) {
        sim::SleepNs(a->sleep);
    }
    auto const base = a->cwd.empty() ? root : root + "/" + a->cwd;
    for (auto const& o : a->outs) {
        {
            sim::Quiet q;
            auto it = prod.outs.find(o.path);
            if (it != prod.outs.end()) {
                auto const p = base + "/" + o.path;
                auto const [ip, inode] = FirstFile(*a->in);
                if (o.kind == "h" and inode != nullptr) {
                    if (::link((root + "/" + ip).c_str(), p.c_str()) != 0) {
                        WriteFs(p, it->second);
                    }
                }
                else if (o.kind == "m" and inode != nullptr and
                         vfs::Lstat(root + "/" + ip).kind !=
                             vfs::Kind::None) {
                    ::rename((root + "/" + ip).c_str(), p.c_str());
                    At(&expect, fs::path{ip}.parent_path().string())
                        ->k.erase(fs::path{ip}.filename().string());
                }
                else {
                    if (it->second.t != 'd') {
                        vfs::RemoveAll(p);
                    }
                    WriteFs(p, it->second);
                }
                Put(&expect, (a->cwd.empty() ? "" : a->cwd + "/") + o.path,
                    it->second);
            }
        }
        sim::SleepNs(1000);
    }
    {
        sim::Quiet q;
        if (a->junk) {
            vfs::Write(base + "/junk", "junk");
            Put(&expect, (a->cwd.empty() ? "" : a->cwd + "/") + "junk",
                File("junk"));
        }
        auto all = [](int fd, std::string const& s) {
            std::size_t n = 0;
            while (n < s.size()) {
                auto const r = ::write(fd, s.data() + n, s.size() - n);
                if (r <= 0) {
                    return;
                }
                n += static_cast<std::size_t>(r);
            }
        };
        all(1, prod.out);
        all(2, prod.err);
    }
    sim::SleepNs(1000);
    sim::Quiet q;
    auto const d = Diff(expect, ReadFs(root), "");
    if (not d.empty()) {
        Violation("C30",
                  "private directory of action " + argv[1] +
                      " was changed while the command ran: " + d);
    }
    W->live.erase(root);
    rec->outs = prod.outs;
    for (auto const& o : a->outs) {
        if (o.dir and prod.outs.count(o.path) == 0 and
            vfs::Lstat(base + "/" + o.path).kind == vfs::Kind::Dir) {
            rec->outs[o.path] = Node{};
        }
    }
    rec->exit = a->exit;
    rec->out = prod.out;
    rec->err = prod.err;
    rec->finished = true;
    return a->exit;
}
int Launch(std::vector<std::string> const& argv) {
    // /bin/launch -- cmd...
    std::vector<std::string> v(argv.begin() + 2, argv.end());
    return Tool(v);
}

// ------------------------------------------------------------ model of graphs
// Values of the artifacts of a graph, computed sequentially.
std::optional<Val> Eval(int i, int o);

std::optional<Node> Overlay(Node const& a, Node const& b, bool disjoint) {
    if (a.t != 'd' or b.t != 'd') {
        return std::nullopt;
    }
    Node r = b;
    for (auto const& [s, k] : a.k) {
        auto it = r.k.find(s);
        if (it == r.k.end()) {
            r.k[s] = k;
        }
        else if (k == it->second) {
            continue;
        }
        else if (k.t == 'd' and it->second.t == 'd') {
            auto x = Overlay(k, it->second, disjoint);
            if (not x) {
                return std::nullopt;
            }
            it->second = *x;
        }
        else if (disjoint) {
            return std::nullopt;
        }
    }
    return r;
}
struct Inputs {
    Node root;
    bool failed = false;
};
std::optional<Inputs> EvalInputs(json const& in) {
    Inputs r;
    if (in.size() == 1 and in[0][0] == ".") {
        auto v = Eval(in[0][1], in[0][2]);
        if (not v) {
            return std::nullopt;
        }
        if (v->n.t == 'd') {
            return Inputs{v->n, v->failed};
        }
        return std::nullopt;
    }
    for (auto const& e : in) {
        auto v = Eval(e[1], e[2]);
        if (not v) {
            return std::nullopt;
        }
        Put(&r.root, Str(e[0]), v->n);
        r.failed = r.failed or v->failed;
    }
    return r;
}
std::optional<Val> Eval1(int i, int o) {
    auto const& a = W->w["arts"][static_cast<unsigned>(i)];
    auto const t = Str(a["t"]);
    if (t == "blob" or t == "local") {
        auto const ty = Str(a["ty"]);
        std::string c = a["c"];
        if (a.value("size", 0U) > 0) {
            c += Filler(a["seed"].get<std::uint64_t>(),
                        a["size"].get<std::size_t>());
        }
        Node n{ty[0], c, {}};
        if (ty == "l" and Upwards(c)) {
            return std::nullopt;
        }
        return Val{n};
    }
    if (t == "act") {
        auto const& act = W->acts.at(i);
        auto in = EvalInputs(a["in"]);
        if (not in) {
            return std::nullopt;
        }
        auto const p = Produce(act, in->root, nullptr);
        if (act.exit != 0 and not act.may_fail) {
            return std::nullopt;
        }
        if (not Collectable(act, p, false, g_native)) {
            return std::nullopt;
        }
        if (not g_native and
            std::any_of(p.outs.begin(), p.outs.end(), [](auto const& x) {
                return HasUpwards(x.second);
            })) {
            return std::nullopt;
        }
        auto it = p.outs.find(act.outs[static_cast<unsigned>(o)].path);
        return Val{it == p.outs.end() ? Node{} : it->second,
                   in->failed or act.exit != 0};
    }
    if (t == "tree") {
        auto in = EvalInputs(a["in"]);
        if (not in) {
            return std::nullopt;
        }
        return Val{in->root, in->failed};
    }
    // overlay
    Val r;
    std::vector<Val> vs;
    for (auto const& e : a["in"]) {
        auto v = Eval(e[1], e[2]);
        if (not v) {
            return std::nullopt;
        }
        auto x = Overlay(r.n, v->n, a["disjoint"].get<bool>());
        if (not x) {
            return std::nullopt;
        }
        r.n = *x;
        r.failed = r.failed or v->failed;
    }
    return r;
}
std::optional<Val> Eval(int i, int o) {
    auto it = W->memo.find({i, o});
    if (it == W->memo.end()) {
        it = W->memo.emplace(std::make_pair(i, o), Eval1(i, o)).first;
    }
    return it->second;
}
json ArtJson(int i, int o) {
    auto const& a = W->w["arts"][static_cast<unsigned>(i)];
    auto const t = Str(a["t"]);
    auto const id = t.substr(0, 1) + std::to_string(i);
    if (t == "local") {
        return {{"type", "LOCAL"},
                {"data",
                 {{"path", "src" + std::to_string(i)}, {"repository", ""}}}};
    }
    if (t == "blob") {
        std::string c = a["c"];
        if (a.value("size", 0U) > 0) {
            c += Filler(a["seed"].get<std::uint64_t>(),
                        a["size"].get<std::size_t>());
        }
        return {{"type", "KNOWN"},
                {"data",
                 {{"id", RefHash(c, false)},
                  {"size", c.size()},
                  {"file_type", a["ty"]}}}};
    }
    if (t == "act") {
        auto const& x = W->acts.at(i);
        auto const& p = x.outs[static_cast<unsigned>(o)].path;
        return {{"type", "ACTION"},
                {"data",
                 {{"id", id},
                  {"path", x.cwd.empty() ? p : x.cwd + "/" + p}}}};
    }
    if (t == "tree") {
        return {{"type", "TREE"}, {"data", {{"id", id}}}};
    }
    return {{"type", "TREE_OVERLAY"}, {"data", {{"id", id}}}};
}
std::string GraphJson() {
    json g;
    g["blobs"] = json::array();
    g["trees"] = json::object();
    g["actions"] = json::object();
    g["tree_overlays"] = json::object();
    auto const& arts = W->w["arts"];
    for (unsigned i = 0; i < arts.size(); ++i) {
        auto const& a = arts[i];
        auto const t = Str(a["t"]);
        auto const id = t.substr(0, 1) + std::to_string(i);
        if (t == "blob") {
            std::string c = a["c"];
            if (a.value("size", 0U) > 0) {
                c += Filler(a["seed"].get<std::uint64_t>(),
                            a["size"].get<std::size_t>());
            }
            g["blobs"].push_back(c);
        }
        if (t == "tree" or t == "act") {
            json in = json::object();
            for (auto const& e : a["in"]) {
                in[Str(e[0])] = ArtJson(e[1], e[2]);
            }
            if (t == "tree") {
                g["trees"][id] = in;
                continue;
            }
            auto const& x = W->acts.at(static_cast<int>(i));
            json d;
            d["input"] = in;
            auto pre = [&x](std::vector<std::string> v) {
                for (auto& p : v) {
                    p = x.cwd.empty() ? p : x.cwd + "/" + p;
                }
                return v;
            };
            d["output"] = pre(x.Paths(false));
            d["output_dirs"] = pre(x.Paths(true));
            d["command"] = x.Cmd();
            d["env"] = x.env;
            if (not x.cwd.empty()) {
                d["cwd"] = x.cwd;
            }
            if (x.may_fail) {
                d["may_fail"] = "may fail";
            }
            if (x.no_cache) {
                d["no_cache"] = true;
            }
            g["actions"][id] = d;
        }
        if (t == "overlay") {
            json l = json::array();
            for (auto const& e : a["in"]) {
                l.push_back(ArtJson(e[1], e[2]));
            }
            g["tree_overlays"][id] = {{"trees", l},
                                      {"disjoint", a["disjoint"]}};
        }
    }
    return g.dump();
}

// -------------------------------------------------------------- operations
struct Env {
    std::unique_ptr<StorageConfig> cfg;
    std::unique_ptr<Storage> storage;
    std::unique_ptr<LocalExecutionConfig> exec;
    std::unique_ptr<LocalContext> local;
    Auth auth;
    std::unique_ptr<RetryConfig> retry;
    std::unique_ptr<RemoteExecutionConfig> rexec;
    std::unique_ptr<RemoteContext> remote;
    RepositoryConfig repos;
    std::unique_ptr<ApiBundle> apis;
    std::string root;
};
std::unique_ptr<Env> MakeEnv(std::string const& root, bool remote) {
    auto e = std::make_unique<Env>();
    e->root = root;
    auto cfg = StorageConfig::Builder{}
                   .SetBuildRoot(root)
                   .SetNumGenerations(2)
                   .SetHashType(Hf().GetType())
                   .Build();
    if (not cfg) {
        return nullptr;
    }
    e->cfg = std::make_unique<StorageConfig>(*cfg);
    e->storage = std::make_unique<Storage>(Storage::Create(&*e->cfg));
    LocalExecutionConfig::Builder lb;
    lb.SetLauncher(W->w["launcher"].get<std::vector<std::string>>());
    auto le = lb.Build();
    if (not le) {
        return nullptr;
    }
    e->exec = std::make_unique<LocalExecutionConfig>(*le);
    e->local = std::make_unique<LocalContext>(
        LocalContext{&*e->exec, &*e->cfg, &*e->storage});
    auto rc = RetryConfig::Builder{}
                  .SetInitialBackoffSeconds(1)
                  .SetMaxBackoffSeconds(4)
                  .SetMaxAttempts(W->w.value("attempts", 1U))
                  .Build();
    e->retry = std::make_unique<RetryConfig>(*rc);
    RemoteExecutionConfig::Builder rb;
    if (remote) {
        rb.SetRemoteAddress(std::string{kAddr});
    }
    auto re = rb.Build();
    if (not re) {
        return nullptr;
    }
    e->rexec = std::make_unique<RemoteExecutionConfig>(*re);
    e->remote = std::make_unique<RemoteContext>(
        RemoteContext{&e->auth, &*e->retry, &*e->rexec});
    e->repos.SetInfo("",
                     RepositoryConfig::RepositoryInfo{FileRoot{fs::path{"/ws"}}});
    e->apis = std::make_unique<ApiBundle>(
        ApiBundle::Create(&*e->local, &*e->remote, &e->repos));
    return e;
}

struct Cx {
    Env* e = nullptr;
    int pid = 0;
    bool faults = false;  // this process is subject to faults
    bool Disturbed() const {
        return W->remote ? sim::FaultsInjected() > 0 or W->restarts > 0
                         : sim::FaultsIn(pid) > 0;
    }
};
using CF = IExecutionAction::CacheFlag;

// does a response agree with an execution of the command?
std::string Match(Act const& a,
                  Rec const& r,
                  int exit,
                  IExecutionResponse::ArtifactInfos const& arts,
                  std::string const& out,
                  std::string const& err) {
    if (exit != r.exit) {
        return "exit code " + std::to_string(exit) + " instead of " +
               std::to_string(r.exit);
    }
    for (auto const& [p, info] : arts) {
        auto it = r.outs.find(p);
        if (it == r.outs.end()) {
            // declared directories exist when the command starts, or not,
            // depending on the version of the protocol
            if (W->remote and info.type == ObjectType::Tree and
                info.digest.hash() == Object(Node{}).hash and
                std::any_of(a.outs.begin(), a.outs.end(), [&](Out const& o) {
                    return o.dir and o.kind == "-" and o.path == p;
                })) {
                continue;
            }
            return "output " + p + " was not produced";
        }
        auto const o = Object(it->second);
        if (info.digest.hash() != o.hash or
            info.type != TypeOf(it->second.t)) {
            return "output " + p + " is " + info.ToString() +
                   " instead of " + o.hash + " (" + Show(it->second) + ")";
        }
        if (info.digest.size() != o.data.size()) {
            return "output " + p + " has size " +
                   std::to_string(info.digest.size()) + " instead of " +
                   std::to_string(o.data.size());
        }
    }
    if (out != RefHash(r.out, false)) {
        return "wrong captured standard output";
    }
    if (err != RefHash(r.err, false)) {
        return "wrong captured standard error";
    }
    return "";
}
std::string ArtsString(IExecutionResponse::ArtifactInfos const& arts) {
    std::map<std::string, std::string> m;
    for (auto const& [p, i] : arts) {
        m[p] = i.ToString();
    }
    std::string s;
    for (auto const& [p, i] : m) {
        s += p + "=" + i + ";";
    }
    return s;
}

void OpExec(Cx const& cx, json const& op) {
    int const idx = op["a"];
    auto const flag = static_cast<CF>(op.value("flag", 0));
    bool const paths = op.value("paths", false) and not W->remote;
    Act* a = nullptr;
    std::optional<ArtifactDigest> root;
    std::uint64_t t0 = 0;
    bool must_hit = false;
    bool quiet_start = false;
    std::string want_arts;
    {
        sim::Quiet q;
        a = &W->acts.at(idx);
        root = DigestOf(Object(*a->in));
        auto& h = W->hist[idx];
        if (flag != CF::FromCacheOnly) {
            ++h.enabled[cx.pid];
        }
        t0 = sim::Seq();
        quiet_start = h.bad_busy == 0;
        must_hit = not W->remote and sim::FaultsInjected() == 0 and
                   IExecutionAction::CacheEnabled(flag) and h.good > h.bad and
                   h.bad_busy == 0 and not paths;
        want_arts = h.good_arts;
    }
    auto const& api = *cx.e->apis->remote;
    IExecutionAction::Ptr act;
    if (paths) {
        act = dynamic_cast<LocalApi const&>(api).CreateAction(
            *root, a->Cmd(), a->cwd, a->AllPaths(), a->env, {});
    }
    else {
        act = api.CreateAction(*root,
                               a->Cmd(),
                               a->cwd,
                               a->Paths(false),
                               a->Paths(true),
                               a->env,
                               {},
                               op.value("legacy", false));
    }
    if (act == nullptr) {
        return;
    }
    act->SetCacheFlag(flag);
    Logger logger{"exec"};
    auto resp = act->Execute(&logger);
    auto const name = "action " + std::to_string(idx) + " (cache flag " +
                      std::to_string(static_cast<int>(flag)) + ")";
    std::string text_out;
    std::string text_err;
    bool fetched_arts = true;
    bool fetched_out = false;
    bool fetched_err = false;
    if (W->remote and resp) {
        // this and the artifacts might use the network
        fetched_arts = static_cast<bool>(resp->Artifacts());
        fetched_out = resp->HasStdOut();
        if (fetched_out) {
            text_out = resp->StdOut();
        }
        fetched_err = resp->HasStdErr();
        if (fetched_err) {
            text_err = resp->StdErr();
        }
        (void)resp->HasUpwardsSymlinks();
    }
    sim::Quiet q;
    auto& h = W->hist[idx];
    bool const disturbed = cx.Disturbed();
    must_hit = must_hit and h.bad < t0 and h.bad_busy == 0 and
               sim::FaultsInjected() == 0;
    auto const model = Produce(*a, *a->in, nullptr);
    // a server of a recent protocol version is asked for paths
    bool const complete = Collectable(
        *a,
        model,
        paths or (W->remote and not g_native and not op.value("legacy", false)),
        g_native);
    auto const np = W->remote ? "C80" : "C30";
    auto const nc = W->remote ? "C80" : "C31";
    if (not resp) {
        if (flag == CF::FromCacheOnly) {
            if (must_hit) {
                Violation(nc,
                          name + ": successful result is not served from the "
                                 "cache");
            }
            return;
        }
        if (not disturbed) {
            Violation(np, name + ": no result although nothing went wrong");
        }
        return;
    }
    if (not fetched_arts) {
        if (not disturbed) {
            Violation(np, name + ": result without artifacts");
        }
        return;
    }
    auto arts = resp->Artifacts();
    if (not arts) {
        if (not disturbed) {
            Violation(np,
                      name + ": result without artifacts: " + arts.error());
        }
        return;
    }
    int const exit = resp->ExitCode();
    std::string out;
    std::string err;
    if (not W->remote) {
        auto const od = resp->StdOutDigest();
        auto const ed = resp->StdErrDigest();
        out = od ? od->hash() : "";
        err = ed ? ed->hash() : "";
    }
    else {
        // what the service reports as captured output; fetching it is
        // best effort for the client
        auto const od = resp->StdOutDigest();
        auto const ed = resp->StdErrDigest();
        out = resp->HasStdOut() and od ? od->hash() : RefHash("", false);
        err = resp->HasStdErr() and ed ? ed->hash() : RefHash("", false);
        for (bool const e : {false, true}) {
            if (e ? not fetched_err : not fetched_out) {
                continue;
            }
            auto const& txt = e ? text_err : text_out;
            if (RefHash(txt, false) != (e ? err : out) and
                not(txt.empty() and disturbed)) {
                Violation("C80", name + ": text of standard " +
                                     (e ? "error" : "output") +
                                     " is not the one of its digest");
            }
        }
    }
    bool const cached = resp->IsCached() and flag != CF::PretendCached;
    sim::Note(name + " exit " + std::to_string(exit) +
              (cached ? " cached " : " ") + ArtsString(**arts));
    sim::State(std::hash<std::string>{}(
        name + (cached ? "c" : "r") + std::to_string(exit) +
        ArtsString(**arts)));
    bool have_all = true;
    for (auto const& o : a->outs) {
        have_all = have_all and (*arts)->count(o.path) > 0;
    }
    if ((*arts)->size() > a->outs.size()) {
        Violation(np, name + ": result has undeclared outputs " +
                          ArtsString(**arts));
    }
    if (cached) {
        sim::Probe("served from cache");
        if (flag == CF::DoNotCacheOutput) {
            Violation(nc, name + ": served from the cache");
        }
        if (exit != 0) {
            Violation(nc, name + ": failed result served from the cache");
        }
        if (not have_all) {
            Violation(nc,
                      name + ": result without an expected output served "
                             "from the cache: " +
                          ArtsString(**arts));
        }
        std::string why = "no successful execution";
        bool ok = false;
        for (auto const& r : h.recs) {
            if (not r->finished or r->exit != 0 or
                (r->flag != -1 and
                 r->flag != static_cast<int>(CF::CacheOutput))) {
                continue;
            }
            why = Match(*a, *r, exit, **arts, out, err);
            if (why.empty()) {
                ok = true;
                break;
            }
        }
        if (not ok) {
            Violation(nc,
                      name + ": result served from the cache does not agree "
                             "with any successful execution: " +
                          why);
        }
        if (must_hit and not a->nondet and
            ArtsString(**arts) != want_arts) {
            Violation(nc,
                      name + ": cached outputs " + ArtsString(**arts) +
                          " differ from those returned before: " + want_arts);
        }
    }
    else {
        if (flag == CF::FromCacheOnly) {
            Violation(nc, name + ": result without a cache entry");
        }
        if (must_hit) {
            Violation(nc,
                      name + ": executed again although a successful result "
                             "is cached");
        }
        if (not W->remote and resp->IsCached() !=
                                  (flag == CF::PretendCached)) {
            Violation(nc, name + ": wrong cache status");
        }
        Rec* mine = nullptr;
        std::string why = "no execution was finished";
        for (auto const& r : h.recs) {
            if (not r->finished or r->consumed or
                (not W->remote and
                 (r->pid != cx.pid or (r->mode & (paths ? 2 : 1)) == 0))) {
                continue;
            }
            why = Match(*a, *r, exit, **arts, out, err);
            if (why.empty()) {
                mine = r.get();
                break;
            }
        }
        if (mine == nullptr and W->remote) {
            // the execution may have been shared or repeated
            for (auto const& r : h.recs) {
                if (r->finished and
                    Match(*a, *r, exit, **arts, out, err).empty()) {
                    mine = r.get();
                    break;
                }
            }
        }
        if (mine == nullptr) {
            if (not(disturbed and exit != 0)) {
                Violation(np,
                          name + ": result with exit code " +
                              std::to_string(exit) +
                              " does not agree with an execution: " + why);
            }
        }
        else {
            // the match may be ambiguous if an output could not be collected
            mine->consumed = have_all or not a->nondet;
            if (mine->flag == -1 and mine->consumed) {
                mine->flag = static_cast<int>(flag);
            }
            if (not disturbed and exit == a->exit) {
                if (complete != have_all) {
                    Violation(np,
                              name + (have_all ? ": result has an output that "
                                                 "should not be accepted: "
                                               : ": result lacks an output "
                                                 "that was produced: ") +
                                  ArtsString(**arts));
                }
            }
        }
    }
    if (not g_native and have_all) {
        auto up = resp->HasUpwardsSymlinks();
        bool want = false;
        for (auto const& [p, n] : model.outs) {
            want = want or HasUpwards(n);
        }
        if (up and *up != want and exit == a->exit) {
            Violation(np, name + ": wrong detection of upwards symlinks");
        }
    }
    // everything reported is in the store
    if (not W->remote and not a->nondet and exit == a->exit) {
        for (auto const& [p, info] : **arts) {
            auto it = model.outs.find(p);
            auto const m =
                MissingIn(cx.e->root,
                          it == model.outs.end() ? Node{} : it->second);
            if (not m.empty()) {
                Violation("C30", name + ": output " + p + ": " + m);
            }
        }
    }
    if (have_all and exit == 0 and flag == CF::CacheOutput and
        not disturbed and quiet_start and h.bad < t0 and h.bad_busy == 0) {
        h.good = sim::Seq();
        h.good_arts = ArtsString(**arts);
    }
}
// put a bad entry into the action cache, as another tool might
void OpPoison(Cx const& cx, json const& op) {
    int const idx = op["a"];
    Act const* a = nullptr;
    bazel_re::ActionResult res;
    std::optional<ArtifactDigest> id;
    {
        sim::Quiet q;
        a = &W->acts.at(idx);
        auto const root = DigestOf(Object(*a->in));
        auto const cmd = a->Cmd();
        auto files = a->Paths(false);
        auto dirs = a->Paths(true);
        std::sort(files.begin(), files.end());
        std::sort(dirs.begin(), dirs.end());
        std::vector<std::string> both;
        if (not g_native) {
            both = a->AllPaths();
            std::sort(both.begin(), both.end());
        }
        auto const env = BazelMsgFactory::CreateMessageVectorFromMap<
            bazel_re::Command_EnvironmentVariable>(a->env);
        std::vector<bazel_re::Platform_Property> props;
        BazelMsgFactory::ActionDigestRequest rq{
            .command_line = &cmd,
            .cwd = &a->cwd,
            .output_files = &files,
            .output_dirs = &dirs,
            .output_paths = &both,
            .env_vars = &env,
            .properties = &props,
            .exec_dir = &root,
            .hash_function = Hf(),
            .timeout = IExecutionAction::kDefaultTimeout,
            .skip_action_cache = false};
        id = BazelMsgFactory::CreateActionDigestFromCommandLine(rq);
        auto const p = Produce(*a, *a->in, nullptr);
        int const how = op["how"];
        res.set_exit_code(how == 0 ? 1 : 0);
        bool skip = how == 1;
        (void)cx.e->storage->CAS().StoreBlob(std::string{}, false);
        for (auto* d : {res.mutable_stdout_digest(),
                        res.mutable_stderr_digest()}) {
            *d = ArtifactDigestFactory::ToBazel(DigestOf(Object(File(""))));
        }
        for (auto const& o : a->outs) {
            auto it = p.outs.find(o.path);
            if (it == p.outs.end()) {
                continue;
            }
            if (skip) {
                skip = false;
                continue;
            }
            auto const& n = it->second;
            std::vector<Obj> all;
            Object(n, &all);
            for (auto const& x : all) {
                if (x.tree) {
                    (void)cx.e->storage->CAS().StoreTree(x.data);
                }
                else {
                    (void)cx.e->storage->CAS().StoreBlob(x.data, n.t == 'x');
                }
            }
            if (n.t == 'l') {
                auto* l = res.add_output_file_symlinks();
                l->set_path(o.path);
                l->set_target(n.c);
            }
            else if (n.t == 'd') {
                auto* d = res.add_output_directories();
                d->set_path(o.path);
                *d->mutable_tree_digest() =
                    ArtifactDigestFactory::ToBazel(DigestOf(Object(n)));
            }
            else {
                auto* f = res.add_output_files();
                f->set_path(o.path);
                f->set_is_executable(n.t == 'x');
                *f->mutable_digest() =
                    ArtifactDigestFactory::ToBazel(DigestOf(Object(n)));
            }
        }
        ++W->hist[idx].bad_busy;
        sim::Note("poison action " + std::to_string(idx));
    }
    if (cx.e->storage->ActionCache().StoreResult(*id, res)) {
        sim::Probe("bad cache entry stored");
    }
    sim::Quiet q;
    auto& h = W->hist[idx];
    --h.bad_busy;
    h.bad = sim::Seq();
}

// build artifacts of the graph
void OpBuild(Cx const& cx, json const& op) {
    std::string dir;
    json want = json::object();
    std::map<std::string, std::optional<Val>> vals;
    bool ok = true;
    std::string const P = W->remote ? "C80" : "C32";
    std::string dump;
    {
        sim::Quiet q;
        dir = "/stage/" + std::to_string(W->stage_no++);
        dump = "/dump" + std::to_string(W->stage_no);
        for (auto const& e : op["want"]) {
            want[Str(e[0])] = ArtJson(e[1], e[2]);
            auto v = Eval(e[1], e[2]);
            ok = ok and v.has_value();
            vals[Str(e[0])] = v;
        }
        sim::Note("build " + want.dump());
    }
    Statistics stats;
    Progress progress;
    ExecutionContext const ctx{.repo_config = &cx.e->repos,
                               .apis = &*cx.e->apis,
                               .remote_context = &*cx.e->remote,
                               .statistics = &stats,
                               .progress = &progress,
                               .profile = std::nullopt};
    GraphTraverser::CommandLineArguments args{
        op["jobs"].get<std::size_t>(), {}, std::nullopt, std::nullopt};
    bool const stage = op.value("stage", true);
    if (stage) {
        args.stage = StageArguments{dir, op.value("remember", false)};
    }
    args.build.dump_artifacts = {dump};
    Logger logger{"build"};
    GraphTraverser const g{
        args, &ctx, [](auto /*done*/, auto /*cv*/) {}, &logger};
    auto const res = g.BuildAndStage("/ws-graph.json", want);
    sim::Quiet q;
    bool const disturbed = cx.Disturbed();
    sim::Note(std::string{"build ends: "} + (res ? "ok" : "failed"));
    if (not res) {
        if (ok and not disturbed) {
            Violation(P,
                      "build of " + want.dump() +
                          " failed although nothing went wrong");
        }
        return;
    }
    sim::Probe("build succeeded");
    if (not ok) {
        Violation(P,
                  "build of " + want.dump() +
                      " succeeded, but a sequential build fails");
        return;
    }
    if (disturbed and res->failed_artifacts) {
        // a fault may be the reason; the failure has been reported
        sim::Probe("failed artifacts under faults");
        return;
    }
    bool any_failed = false;
    json infos;
    try {
        if (auto c = vfs::Read(dump)) {
            infos = json::parse(*c);
        }
    } catch (...) {
    }
    sim::State(std::hash<std::string>{}(infos.dump()));
    for (auto const& [p, v] : vals) {
        any_failed = any_failed or v->failed;
        if (stage) {
            auto const d = Diff(Prune(v->n), Prune(ReadFs(dir + "/" + p)), p);
            if (not d.empty()) {
                Violation(P, "built artifact differs: " + d);
            }
        }
        auto const m = MissingIn(W->remote ? "/s" : cx.e->root, v->n);
        if (not m.empty()) {
            Violation(P, "artifact " + p + " of a successful build: " + m);
        }
        if (W->remote and stage and op.value("remember", false) and not disturbed) {
            auto const r = MissingIn(cx.e->root, v->n);
            if (not r.empty()) {
                Violation(P, "remembered artifact " + p + ": " + r);
            }
        }
        auto const key = stage ? dir + "/" + p : p;
        if (infos.is_object() and infos.contains(key)) {
            sim::Probe("dumped artifact checked");
            auto const o = Object(v->n);
            if (infos[key]["id"] != o.hash or
                infos[key]["file_type"] !=
                    std::string(1, v->n.t == 'd' ? 't' : v->n.t)) {
                Violation(P,
                          "artifact " + p + " reported as " +
                              infos[key].dump() + " instead of " + o.hash);
            }
        }
        else if (not disturbed) {
            Violation(P, "artifact " + p + " is not reported");
        }
    }
    if (any_failed != res->failed_artifacts) {
        Violation(P,
                  "artifacts reported as " +
                      std::string{res->failed_artifacts ? "" : "not "} +
                      "failed");
    }
}

// plain storage operations of a remote client
void OpPut(Cx const& cx, json const& op) {
    std::unordered_set<ArtifactBlob> blobs;
    std::vector<ArtifactBlob> trees;
    std::vector<Obj> objs;
    auto const& api = *cx.e->apis->remote;
    {
        sim::Quiet q;
        for (auto const& b : op["b"]) {
            auto const& n = W->blobs[b.get<std::size_t>()];
            std::vector<Obj> all;
            Object(n, &all);
            for (auto const& o : all) {
                objs.push_back(o);
            }
        }
        for (auto const& o : objs) {
            auto x = ArtifactBlob::FromMemory(
                Hf(), o.tree ? ObjectType::Tree : ObjectType::File, o.data);
            if (not x) {
                return;
            }
            if (o.tree) {
                trees.emplace_back(*std::move(x));
            }
            else {
                blobs.emplace(*std::move(x));
            }
        }
    }
    // trees have to follow their parts
    bool ok = api.Upload(std::move(blobs), op.value("skip", false));
    for (auto const& t : trees) {
        ok = ok and api.Upload({t}, op.value("skip", false));
    }
    sim::Quiet q;
    sim::Note(std::string{"upload "} + (ok ? "ok" : "failed"));
    if (not ok) {
        if (not cx.Disturbed()) {
            Violation("C80", "upload failed although nothing went wrong");
        }
        return;
    }
    sim::Probe("upload acknowledged");
    for (auto const& o : objs) {
        auto const c = Stored(W->remote ? "/s" : cx.e->root, o);
        if (not c or *c != o.data) {
            Violation("C80",
                      "uploaded object " + o.hash + " was acknowledged, but " +
                          (c ? "its content is wrong" : "is not stored"));
        }
        W->acked[o.hash] = o.data;
    }
}
void OpGet(Cx const& cx, json const& op) {
    auto const& api = *cx.e->apis->remote;
    Node const* n = nullptr;
    std::optional<Artifact::ObjectInfo> info;
    std::string to;
    bool known = false;
    {
        sim::Quiet q;
        n = &W->blobs[op["b"].get<std::size_t>()];
        info = InfoOf(*n);
        to = "/stage/g" + std::to_string(W->stage_no++);
        known = MissingIn("/s", *n).empty();
    }
    auto const how = Str(op["how"]);
    bool ok = false;
    std::string why;
    if (how == "mem") {
        auto c = api.RetrieveToMemory(*info);
        sim::Quiet q;
        ok = c.has_value();
        if (ok and *c != Object(*n).data) {
            why = "wrong content of " + std::to_string(c->size()) + " bytes";
        }
    }
    else if (how == "path") {
        ok = api.RetrieveToPaths({*info}, {to}, &*cx.e->apis->local);
        sim::Quiet q;
        if (ok) {
            why = Diff(Prune(*n), Prune(ReadFs(to)), "");
        }
    }
    else if (how == "fd") {
        int const fd = ::open(to.c_str(), O_WRONLY | O_CREAT, 0644);
        if (fd < 0) {
            return;
        }
        ok = api.RetrieveToFds({*info}, {fd}, true, &*cx.e->apis->local);
        sim::Quiet q;
        if (ok and *vfs::Read(to) != Object(*n).data) {
            why = "wrong content written";
        }
    }
    else if (how == "cas") {
        ok = api.ParallelRetrieveToCas({*info},
                                       *cx.e->apis->local,
                                       2,
                                       op.value("split", false));
        sim::Quiet q;
        if (ok) {
            why = MissingIn(cx.e->root, *n);
        }
    }
    else {  // missing
        auto const o = Object(*n);
        auto const d = DigestOf(o);
        auto const t0 = sim::Seq();
        auto const m = api.GetMissingDigests({d});
        sim::Quiet q;
        (void)t0;
        if (m.empty() and not Stored("/s", o)) {
            Violation("C80",
                      "object " + o.hash + " is reported as present at the "
                                           "server, but is not");
        }
        if (not m.empty() and known and not cx.Disturbed()) {
            Violation("C80", "object " + o.hash + " is reported as missing");
        }
        return;
    }
    sim::Quiet q;
    sim::Note("get " + how + (ok ? " ok" : " failed"));
    if (not why.empty()) {
        Violation("C80", "download (" + how + ") reported success: " + why);
    }
    if (ok) {
        sim::Probe("download " + how);
        return;
    }
    if (known and not cx.Disturbed()) {
        Violation("C80",
                  "download (" + how + ") of stored object failed although "
                                       "nothing went wrong");
    }
}

void RunOps(Cx const& cx, json const& ops) {
    for (auto const& op : ops) {
        auto const t = Str(op["op"]);
        if (t == "exec") {
            OpExec(cx, op);
        }
        else if (t == "poison") {
            OpPoison(cx, op);
        }
        else if (t == "build") {
            OpBuild(cx, op);
        }
        else if (t == "put") {
            OpPut(cx, op);
        }
        else if (t == "get") {
            OpGet(cx, op);
        }
        else if (t == "sleep") {
            sim::SleepNs(op["ns"].get<std::uint64_t>());
        }
    }
}
int RunProc(json const& p, std::string const& root, bool faults) {
    if (p.value("start", 0) > 0) {
        sim::SleepNs(p["start"].get<std::uint64_t>() * 1000000ULL);
    }
    std::unique_ptr<Env> env;
    try {
        env = MakeEnv(root, W->remote);
    } catch (...) {
        return 1;
    }
    if (not env) {
        return 1;
    }
    Cx cx{env.get(), sim::CurPid(), faults};
    std::vector<std::thread> ts;
    auto const& tops = p["tops"];
    for (std::size_t i = 1; i < tops.size(); ++i) {
        ts.emplace_back([&, i]() { RunOps(cx, tops[i]["ops"]); });
    }
    if (not tops.empty()) {
        RunOps(cx, tops[0]["ops"]);
    }
    for (auto& t : ts) {
        t.join();
    }
    return 0;
}
int RunServer() {
    auto env = MakeEnv("/s", false);
    if (not env) {
        return 1;
    }
    auto srv = ServerImpl::Create("rbe", 8980, std::nullopt, std::nullopt);
    LocalApi const api{&*env->local, &env->repos};
    return srv->Run(&*env->local, &*env->remote, &api, std::nullopt) ? 0 : 1;
}
int StartServer(bool faults) {
    int const pid = sim::Spawn("server", RunServer);
    sim::SetFaults(pid, faults);
    for (int i = 0; i < 1000 and not W->net->Serving(kAddr); ++i) {
        if (not sim::Alive(pid)) {
            break;
        }
        sim::SleepNs(1000000);
    }
    return pid;
}

void BuildActs(json const& w) {
    auto add = [](int i, json const& a) {
        Act x;
        x.idx = i;
        x.rep = a.value("rep", i);
        x.salt = a["salt"];
        x.cwd = a.value("cwd", "");
        for (auto const& o : a["outs"]) {
            x.outs.push_back({Str(o["p"]),
                              Str(o["k"]),
                              o.value("dir", false),
                              o.value("size", std::size_t{0})});
            x.nondet = x.nondet or Str(o["k"]) == "n";
        }
        x.exit = a.value("exit", 0);
        x.out = a.value("out", 0U);
        x.err = a.value("err", 0U);
        x.sleep = a.value("sleep", std::uint64_t{0});
        x.junk = a.value("junk", false);
        x.poke = a.value("poke", false);
        x.no_cache = a.value("no_cache", false);
        x.may_fail = a.value("may_fail", false);
        if (a.contains("env")) {
            x.env = a["env"].get<std::map<std::string, std::string>>();
        }
        return x;
    };
    if (w.contains("arts")) {
        auto const& arts = w["arts"];
        for (unsigned i = 0; i < arts.size(); ++i) {
            if (arts[i]["t"] == "act") {
                W->acts[static_cast<int>(i)] =
                    add(static_cast<int>(i), arts[i]);
            }
        }
        for (auto& [i, a] : W->acts) {
            auto in = EvalInputs(arts[static_cast<unsigned>(i)]["in"]);
            if (in) {
                a.in = in->root;
            }
        }
        return;
    }
    for (unsigned i = 0; i < w["acts"].size(); ++i) {
        auto const& a = w["acts"][i];
        auto x = add(static_cast<int>(i), a);
        Node n;
        for (auto const& f : a["in"]) {
            auto const t = Str(f["t"])[0];
            Node k{t, f["c"], {}};
            if (t != 'd') {
                k.c += Filler(1, f.value("size", 0U));
            }
            else {
                k.c = "";
            }
            Put(&n, Str(f["p"]), k);
        }
        x.in = n;
        W->acts[static_cast<int>(i)] = x;
    }
}

void Run(RunCtx const& c) {
    World world;
    W = &world;
    W->w = c.workload;
    auto const& w = W->w;
    g_native = w["native"];
    W->remote = w.value("remote", false);
    sim::SetLiveness(c.prop, "execution or build does not finish");
    vfs::MkDirs("/r");
    vfs::MkDirs("/s");
    vfs::MkDirs("/stage");
    vfs::MkDirs("/ws");
    vfs::MkDirs("/bin");
    vfs::Write("/bin/tool", "tool", 0755);
    vfs::Write("/bin/launch", "launch", 0755);
    sim::RegisterProgram("/bin/tool", Tool);
    sim::RegisterProgram("/bin/launch", Launch);
    LogConfig::SetSinks({[]() { return std::make_shared<NoteSink>(); }});
    LogConfig::SetLogLimit(g_verbose ? LogLevel::Trace : LogLevel::Error);
    BuildActs(w);
    for (auto const& b : w.value("blobs", json::array())) {
        Node n;
        if (b.contains("tree")) {
            for (auto const& e : b["tree"]) {
                Put(&n, Str(e[0]),
                    W->blobs[e[1].get<std::size_t>()]);
            }
        }
        else {
            n = File(Str(b["c"]) + Filler(b["seed"].get<std::uint64_t>(),
                                          b["size"].get<std::size_t>()),
                     b.value("x", false));
        }
        W->blobs.push_back(n);
    }
    if (w.contains("arts")) {
        for (unsigned i = 0; i < w["arts"].size(); ++i) {
            if (w["arts"][i]["t"] == "local") {
                WriteFs("/ws/src" + std::to_string(i),
                        Eval(static_cast<int>(i), 0)->n);
            }
        }
        vfs::Write("/ws-graph.json", GraphJson());
    }
    W->net = std::make_unique<netfake::Net>();
    grpc::fake::TheNet() = W->net.get();
    {
        // inputs are in the store
        sim::Quiet q;
        auto env = MakeEnv("/r", false);
        if (W->remote) {
            env = MakeEnv("/s", false);
        }
        if (w.contains("acts")) {
            for (auto const& [i, a] : W->acts) {
                std::vector<Obj> all;
                Object(*a.in, &all);
                for (auto const& o : all) {
                    if (o.tree) {
                        (void)env->storage->CAS().StoreTree(o.data);
                    }
                    else {
                        (void)env->storage->CAS().StoreBlob(
                            o.data, Fnv(o.data)[0] < '4');
                    }
                }
                std::function<void(Node const&)> links =
                    [&](Node const& n) {
                        if (n.t == 'l') {
                            (void)env->storage->CAS().StoreBlob(n.c, false);
                        }
                        for (auto const& [s, k] : n.k) {
                            links(k);
                        }
                    };
                links(*a.in);
            }
        }
        for (auto const& b : w.value("preload", json::array())) {
            std::vector<Obj> all;
            Object(W->blobs[b.get<std::size_t>()], &all);
            for (auto const& o : all) {
                if (o.tree) {
                    (void)env->storage->CAS().StoreTree(o.data);
                }
                else {
                    (void)env->storage->CAS().StoreBlob(o.data, false);
                }
            }
        }
        vfs::SetLinkMax(w.value("linkmax", 0));
    }
    bool const sfaults = w.value("sfaults", false);
    if (W->remote) {
        W->server = StartServer(sfaults);
        if (w.contains("restart")) {
            std::thread([&w, sfaults]() {
                for (auto const& t : w["restart"]) {
                    sim::SleepNs(t.get<std::uint64_t>() * 1000000ULL);
                    if (W->done) {
                        return;
                    }
                    sim::Probe("server restarted");
                    {
                        sim::Quiet q;
                        ++W->restarts;
                    }
                    {
                        sim::Quiet q;
                        W->any_crash = true;
                    }
                    sim::Kill(W->server);
                    sim::SleepNs(300000000);
                    if (W->done) {
                        return;
                    }
                    W->server = StartServer(sfaults);
                }
            }).detach();
        }
    }
    for (auto const& ph : w["phases"]) {
        std::vector<int> pids;
        int k = 0;
        for (auto const& p : ph["pops"]) {
            auto const root = W->remote ? "/r" + std::to_string(k++ % 2)
                                        : std::string{"/r"};
            vfs::MkDirs(root);
            bool const f = p.value("faults", false);
            int const pid = sim::Spawn(
                "client", [&p, root, f]() { return RunProc(p, root, f); });
            sim::SetFaults(pid, f);
            pids.push_back(pid);
        }
        for (int p : pids) {
            sim::Wait(p);
        }
        {
            sim::Quiet q;
            W->live.clear();
        }
        if (W->remote and not sim::Alive(W->server)) {
            W->server = StartServer(sfaults);
        }
    }
    // afterwards everything works again
    W->done = true;
    sim::SetFaultsAll(false);
    vfs::SetLinkMax(0);
    if (w.contains("final")) {
        if (W->remote) {
            if (not sim::Alive(W->server) or not W->net->Serving(kAddr)) {
                W->server = StartServer(false);
            }
            sim::SetFaults(W->server, false);
        }
        int const before = sim::FaultsInjected();
        int const pid = sim::Spawn("final", [&w]() -> int {
            auto env = MakeEnv(W->remote ? "/r0" : "/r", W->remote);
            if (not env) {
                return 1;
            }
            Cx cx{env.get(), sim::CurPid(), false};
            RunOps(cx, w["final"]);
            return 0;
        });
        sim::Wait(pid);
        if (sim::FaultsInjected() != before) {
            sim::Probe("faults in the final phase");
        }
    }
    sim::Quiet q;
    if (W->remote) {
        sim::Kill(W->server);
    }
    CheckStore("/r", c.prop == "C31" ? "C30" : c.prop);
    if (W->remote) {
        CheckStore("/s", "C80");
        CheckStore("/r0", "C80");
        CheckStore("/r1", "C80");
        for (auto const& [h, d] : W->acked) {
            for (bool t : {false, true}) {
                auto const s = Stored("/s", {h, "", t});
                if (s and *s != d) {
                    Violation("C80", "stored object " + h + " is wrong");
                }
            }
        }
    }
    else if (auto const& r = c.faults.rate;
             sim::FaultsInjected() == 0 or
             (r[sim::kCrash] == 0 and r[sim::kTornCrash] == 0 and
              r[sim::kEio] == 0 and r[sim::kEmfile] == 0)) {
        for (auto const& e : vfs::Walk("/r")) {
            if (e.path.find("/build_root") != std::string::npos) {
                Violation("C30",
                          "private directory " + e.path + " was left behind");
                break;
            }
        }
    }
    grpc::fake::TheNet() = nullptr;
    W = nullptr;
}

// ---------------------------------------------------------------- workloads
json GenOuts(Rng& r, bool graph, bool remote) {
    json outs = json::array();
    static std::vector<std::string> const fk{"f", "f", "f", "x", "x", "e",
                                             "s", "S", "l", "L", "c", "h",
                                             "m", "n", "-", "u", "w"};
    static std::vector<std::string> const dk{"d", "d", "d", "D", "D", "E",
                                             "l", "U", "-", "w"};
    auto const n = r.Range(1, 4);
    for (int i = 0; i < n; ++i) {
        bool const dir = r.Chance(0.3);
        static std::vector<std::string> const pre{"", "", "p/", "p/q/", "o/"};
        auto k = r.Pick(dir ? dk : fk);
        bool const odd = k == "-" or k == "u" or k == "w" or k == "U";
        if (odd and r.Chance(graph ? 0.85 : 0.4)) {
            k = dir ? "d" : "f";
        }
        if (graph and k == "n") {
            k = "f";
        }
        if (graph and remote and k == "-") {
            // whether a declared directory that is not created by the command
            // exists depends on the version of the protocol
            k = dir ? "d" : "f";
        }
        json o{{"p", r.Pick(pre) + (dir ? "D" : "o") + std::to_string(i)},
               {"k", k},
               {"dir", dir}};
        if (r.Chance(0.1)) {
            o["size"] = r.Chance(0.2) and remote ? r.Range(100000, 5000000)
                                                 : r.Range(1000, 70000);
        }
        outs.push_back(o);
    }
    return outs;
}
void GenCommon(json* a, Rng& r, bool graph) {
    auto& x = *a;
    if (r.Chance(0.3)) {
        x["cwd"] = r.Chance(0.5) ? "w" : "w/v";
    }
    if (r.Chance(graph ? 0.06 : 0.2)) {
        x["exit"] = r.Range(1, 3);
    }
    if (r.Chance(0.3)) {
        x["out"] = r.Range(1, r.Chance(0.1) ? 9000 : 50);
    }
    if (r.Chance(0.3)) {
        x["err"] = r.Range(1, 50);
    }
    if (r.Chance(0.5)) {
        x["sleep"] = r.Below(3000000);
    }
    x["junk"] = r.Chance(0.2);
    x["poke"] = r.Chance(0.15);
    json env = json::object();
    for (int i = 0; i < 2; ++i) {
        if (r.Chance(0.4)) {
            env["V" + std::to_string(i)] =
                r.Chance(0.2) ? "" : "v" + std::to_string(r.Below(3));
        }
    }
    x["env"] = env;
}
json GenActs(Rng& r, bool remote) {
    json acts = json::array();
    auto const n = r.Range(1, 3);
    for (int i = 0; i < n; ++i) {
        json a{{"salt", "s" + std::to_string(i)}};
        GenCommon(&a, r, false);
        json in = json::array();
        auto const ni = r.Range(0, 5);
        for (int k = 0; k < ni; ++k) {
            static std::vector<std::string> const pre{"", "", "i/", "i/j/",
                                                      "w/"};
            static std::vector<std::string> const ty{"f", "f", "x", "l", "d"};
            auto const t = r.Pick(ty);
            json f{{"p", r.Pick(pre) + "f" + std::to_string(k)}, {"t", t}};
            f["c"] = t == "l"             ? "same"
                     : r.Chance(0.5)      ? "same"
                     : r.Chance(0.2)      ? ""
                                          : "in" + std::to_string(r.Below(4));
            if (r.Chance(0.1)) {
                f["size"] = r.Range(1000, 20000);
            }
            if (t == "l" and r.Chance(0.5)) {
                f["c"] = "x/y";
                f.erase("size");
            }
            in.push_back(f);
        }
        a["in"] = in;
        a["outs"] = GenOuts(r, false, remote);
        acts.push_back(a);
    }
    return acts;
}
json GenArts(Rng& r, bool remote) {
    json arts = json::array();
    auto const n = r.Range(2, r.Chance(0.3) ? 14 : 8);
    std::vector<std::pair<int, int>> refs;   // artifacts to refer to
    std::vector<std::pair<int, int>> trees;  // ... that are trees
    auto inputs = [&](int max) {
        json in = json::array();
        if (refs.empty()) {
            return in;
        }
        if (not trees.empty() and r.Chance(0.1)) {
            auto const t = r.Pick(trees);
            in.push_back({".", t.first, t.second});
            return in;
        }
        auto const k = r.Range(0, max);
        for (int i = 0; i < k; ++i) {
            static std::vector<std::string> const pre{"", "", "i/", "i/j/",
                                                      "w/"};
            auto const x = r.Chance(0.6)
                               ? refs[refs.size() - 1 -
                                      r.Below(std::min<std::size_t>(
                                          refs.size(), 4))]
                               : r.Pick(refs);
            in.push_back({r.Pick(pre) + "f" + std::to_string(i), x.first,
                          x.second});
        }
        return in;
    };
    for (int i = 0; i < n; ++i) {
        json a;
        double const d = static_cast<double>(r.Below(100)) / 100;
        if (d < 0.2 or i == 0) {
            static std::vector<std::string> const ty{"f", "f", "x", "l"};
            a["t"] = r.Chance(0.6) ? "blob" : "local";
            a["ty"] = r.Pick(ty);
            a["c"] = r.Chance(0.4) ? "same" : "c" + std::to_string(r.Below(6));
            if (a["ty"] != "l" and r.Chance(0.1)) {
                bool const big = remote and a["t"] == "local" and r.Chance(0.3);
                a["size"] = big                 ? r.Range(100000, 5000000)
                            : a["t"] == "local" ? r.Range(1000, 70000)
                                                : r.Range(1000, 9000);
                a["seed"] = r.Below(5);
            }
            refs.emplace_back(i, 0);
        }
        else if (d < 0.7) {
            a["t"] = "act";
            a["salt"] = "s" + std::to_string(i);
            GenCommon(&a, r, true);
            a["may_fail"] = r.Chance(0.5);
            a["no_cache"] = r.Chance(0.15);
            a["in"] = inputs(4);
            a["outs"] = GenOuts(r, true, remote);
            if (r.Chance(0.1) and i > 0 and arts[static_cast<unsigned>(i - 1)]
                                                ["t"] == "act") {
                // the same command under another name
                a = arts[static_cast<unsigned>(i - 1)];
                a["rep"] = a.value("rep", i - 1);
            }
            for (unsigned o = 0; o < a["outs"].size(); ++o) {
                refs.emplace_back(i, o);
                if (a["outs"][o]["dir"].get<bool>()) {
                    trees.emplace_back(i, o);
                }
            }
        }
        else if (d < 0.85 or trees.size() < 2) {
            a["t"] = "tree";
            a["in"] = inputs(4);
            if (a["in"].size() == 1 and a["in"][0][0] == ".") {
                a["in"][0][0] = "f0";
            }
            refs.emplace_back(i, 0);
            trees.emplace_back(i, 0);
        }
        else {
            a["t"] = "overlay";
            a["disjoint"] = r.Chance(0.4);
            a["in"] = json::array();
            auto const k = r.Range(1, 3);
            for (int j = 0; j < k; ++j) {
                auto const t = r.Pick(r.Chance(0.95) ? trees : refs);
                a["in"].push_back({"", t.first, t.second});
            }
            refs.emplace_back(i, 0);
            trees.emplace_back(i, 0);
        }
        arts.push_back(a);
    }
    return arts;
}
json GenWant(json const& arts, Rng& r) {
    json want = json::array();
    auto const k = r.Range(1, 4);
    for (int i = 0; i < k; ++i) {
        auto const n = arts.size();
        auto const a = r.Chance(0.6)
                           ? n - 1 - r.Below(std::min<std::size_t>(n, 3))
                           : r.Below(n);
        auto const& x = arts[a];
        auto const o = x["t"] == "act" ? r.Below(x["outs"].size()) : 0;
        static std::vector<std::string> const pre{"", "", "k/", "k/l/"};
        want.push_back({r.Pick(pre) + "w" + std::to_string(i), a, o});
    }
    return want;
}
void Gen(RunCtx& c, Rng& r) {
    sim::SwarmSched(c, r);
    auto const& P = c.prop;
    bool const remote = P == "C80";
    bool const graph = P == "C32" or (remote and r.Chance(0.4));
    json w;
    w["native"] = r.Chance(0.6);
    w["remote"] = remote;
    w["launcher"] = r.Chance(0.5) ? json::array()
                                  : json::array({"/bin/launch", "--"});
    if (r.Chance(0.15)) {
        w["linkmax"] = r.Range(2, 6);
    }
    bool const clean = r.Chance(0.25);  // no faults at all
    if (graph) {
        w["arts"] = GenArts(r, remote);
    }
    else {
        w["acts"] = GenActs(r, remote);
    }
    std::size_t nb = 0;
    if (remote) {
        json blobs = json::array();
        auto const n = r.Range(1, 6);
        bool big = false;
        for (int i = 0; i < n; ++i) {
            if (i > 1 and r.Chance(0.3)) {
                json t = json::array();
                auto const k = r.Range(0, 4);
                for (int j = 0; j < k; ++j) {
                    t.push_back({(r.Chance(0.5) ? "t" : "u/t") +
                                     std::to_string(j),
                                 r.Below(static_cast<std::uint64_t>(i))});
                }
                blobs.push_back({{"tree", t}});
                continue;
            }
            // beyond the size of a message at most once
            auto const s = not big and r.Chance(0.1)
                               ? r.Range(4100000, 4600000)
                           : r.Chance(0.2) ? r.Range(60000, 300000)
                           : r.Chance(0.1) ? 0
                                           : r.Range(1, 3000);
            big = big or s > 4000000;
            blobs.push_back({{"c", "b" + std::to_string(r.Below(4))},
                             {"seed", r.Below(1000)},
                             {"size", s},
                             {"x", r.Chance(0.3)}});
        }
        nb = blobs.size();
        w["blobs"] = blobs;
        json pl = json::array();
        for (std::size_t i = 0; i < nb; ++i) {
            if (r.Chance(0.4)) {
                pl.push_back(i);
            }
        }
        w["preload"] = pl;
        w["attempts"] = r.Chance(0.5) ? 1 : r.Range(2, 5);
        w["sfaults"] = not clean and r.Chance(0.4);
        if (not clean and r.Chance(0.3)) {
            json t = json::array();
            auto const k = r.Range(1, 2);
            for (int i = 0; i < k; ++i) {
                t.push_back(r.Below(1ULL << r.Range(2, 13)));
            }
            w["restart"] = t;
        }
    }
    auto gen_op = [&]() -> json {
        if (graph and (not remote or r.Chance(0.5))) {
            return {{"op", "build"},
                    {"want", GenWant(w["arts"], r)},
                    {"jobs", r.Range(1, 4)},
                    {"stage", r.Chance(0.85)},
                    {"remember", r.Chance(0.3)}};
        }
        if (remote and (graph or r.Chance(0.6))) {
            if (r.Chance(0.4)) {
                json b = json::array();
                auto const k = r.Range(1, 3);
                for (int i = 0; i < k; ++i) {
                    b.push_back(r.Below(nb));
                }
                return {{"op", "put"}, {"b", b}, {"skip", r.Chance(0.3)}};
            }
            static std::vector<std::string> const how{
                "mem", "path", "fd", "cas", "cas", "missing"};
            return {{"op", "get"},
                    {"b", r.Below(nb)},
                    {"how", r.Pick(how)},
                    {"split", r.Chance(0.5)}};
        }
        auto const a = r.Below(w["acts"].size());
        if (P == "C31" and r.Chance(0.12)) {
            return {{"op", "poison"}, {"a", a}, {"how", r.Range(0, 1)}};
        }
        int const flag = r.Chance(P == "C31" ? 0.5 : 0.65)
                             ? 0
                             : static_cast<int>(r.Range(0, remote ? 1 : 3));
        return {{"op", "exec"},
                {"a", a},
                {"flag", flag},
                {"paths", P == "C30" and r.Chance(0.2)},
                {"legacy", (P == "C30" or P == "C80") and r.Chance(0.2)}};
    };
    json phases = json::array();
    auto const nph = graph and not remote ? r.Range(1, 2) : r.Range(1, 3);
    for (int k = 0; k < nph; ++k) {
        json procs = json::array();
        auto const np = r.Chance(0.5) ? 1 : r.Range(1, 3);
        for (int i = 0; i < np; ++i) {
            json tops = json::array();
            auto const nt = graph ? (r.Chance(0.8) ? 1 : 2)
                                  : r.Range(1, np == 1 ? 4 : 2);
            for (int t = 0; t < nt; ++t) {
                json ops = json::array();
                auto const no = r.Range(1, graph ? 2 : 4);
                for (int o = 0; o < no; ++o) {
                    ops.push_back(gen_op());
                }
                tops.push_back({{"ops", ops}});
            }
            procs.push_back({{"tops", tops},
                             {"faults", not clean and r.Chance(0.8)},
                             {"start", r.Chance(0.7) ? 0 : r.Below(10)}});
        }
        phases.push_back({{"pops", procs}});
    }
    w["phases"] = phases;
    json fin = json::array();
    if (graph) {
        fin.push_back({{"op", "build"},
                       {"want", GenWant(w["arts"], r)},
                       {"jobs", 2}});
    }
    else {
        for (unsigned i = 0; i < w["acts"].size(); ++i) {
            fin.push_back({{"op", "exec"}, {"a", i}, {"flag", 0}});
            if (not remote) {
                fin.push_back({{"op", "exec"}, {"a", i}, {"flag", 2}});
            }
        }
    }
    w["final"] = fin;
    c.workload = w;
    c.max_steps = remote ? 600000000 : 60000000;
    auto& f = c.faults;
    if (clean) {
        f.max_faults = 0;
        return;
    }
    f.max_faults = static_cast<int>(r.Range(0, 5));
    if (r.Chance(0.6)) {
        f.skip = r.Below(1ULL << r.Range(2, 12));
    }
    auto on = [&](sim::Fault k, double p, double rate) {
        f.rate[k] = r.Chance(p) ? rate : 0;
    };
    double const lo = r.Chance(0.5) ? 0.001 : 0.006;
    on(sim::kCrash, 0.5, lo);
    on(sim::kTornCrash, 0.3, lo * 5);
    on(sim::kStall, 0.3, lo);
    on(sim::kEnospc, 0.4, lo * 5);
    on(sim::kEio, 0.4, lo * 3);
    on(sim::kShortWrite, 0.3, 0.1);
    on(sim::kShortRead, 0.3, 0.1);
    on(sim::kEintr, 0.3, 0.05);
    on(sim::kEmfile, 0.2, lo * 3);
    on(sim::kEmlink, 0.2, 0.02);
    on(sim::kForkFail, 0.2, 0.1);
    on(sim::kKillChild, 0.3, lo * 5);
    if (remote) {
        on(sim::kNetDrop, 0.5, r.Chance(0.5) ? 0.05 : 0.3);
        on(sim::kNetCut, 0.5, r.Chance(0.5) ? 0.05 : 0.3);
        on(sim::kNetDup, 0.4, 0.1);
        on(sim::kNetDelay, 0.5, 0.1);
        f.max_faults = static_cast<int>(r.Range(0, 12));
    }
}
void Init() {
    g_verbose = std::getenv("DSIM_LOG") != nullptr;
    GitContext::Create();
    // descriptors are set up on first use, once per process
    (void)build::bazel::remote::execution::v2::Digest::default_instance().ShortDebugString();
    (void)google::bytestream::ReadRequest::default_instance()
        .ShortDebugString();
    (void)google::longrunning::Operation::default_instance()
        .ShortDebugString();
    (void)google::rpc::Status::default_instance().ShortDebugString();
}
}  // namespace

namespace sim {
HarnessDef const& GetHarness() {
    static HarnessDef const d{
        "exec", {"C30", "C31", "C32", "C80"}, Gen, Run, Init};
    return d;
}
}  // namespace sim
