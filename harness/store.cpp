// The local object store, action cache, target cache, garbage collection and
// compactification (C10-C19). Builds and collections are simulated processes
// with threads on a simulated file system.
#include <openssl/evp.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <thread>

#include "dsim/sim.hpp"
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/common/artifact.hpp"
#include "src/buildtool/common/artifact_digest.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/bazel_types.hpp"
#include "src/buildtool/crypto/hash_function.hpp"
#include "src/buildtool/execution_api/common/message_limits.hpp"
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/logger.hpp"
#include "src/buildtool/storage/backend_description.hpp"
#include "src/buildtool/storage/compactifier.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/file_chunker.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/buildtool/storage/target_cache_entry.hpp"
#include "src/buildtool/storage/target_cache_key.hpp"

using sim::json;
using sim::Rng;
using sim::RunCtx;
using sim::Violation;

namespace {
std::string const kRoot = "/r/protocol-dependent";
std::string g_mark;  // 64 characters that end a chunk

std::string Hex(unsigned char const* d, unsigned n) {
    static char const* const k = "0123456789abcdef";
    std::string s;
    for (unsigned i = 0; i < n; ++i) {
        s += k[d[i] >> 4U];
        s += k[d[i] & 15U];
    }
    return s;
}
bool g_native = true;
std::string RefHash(std::string const& c, bool tree) {
    unsigned char md[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    auto* x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, g_native ? EVP_sha1() : EVP_sha256(), nullptr);
    if (g_native) {
        std::string h = (tree ? "tree " : "blob ") + std::to_string(c.size());
        h += '\0';
        EVP_DigestUpdate(x, h.data(), h.size());
    }
    EVP_DigestUpdate(x, c.data(), c.size());
    EVP_DigestFinal_ex(x, md, &n);
    EVP_MD_CTX_free(x);
    return Hex(md, n);
}
std::string Raw(std::string const& hex) {
    std::string r;
    for (std::size_t i = 0; i + 1 < hex.size(); i += 2) {
        r += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
    }
    return r;
}

// deterministic text without zero bytes or slashes
std::string Filler(std::uint64_t seed, std::size_t n) {
    std::string s;
    s.resize(n);
    std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 12345;
    for (std::size_t i = 0; i < n; ++i) {
        x ^= x << 13U;
        x ^= x >> 7U;
        x ^= x << 17U;
        s[i] = static_cast<char>('a' + static_cast<int>(x % 26));
    }
    return s;
}

// ------------------------------------------------------------- universe
struct Obj {
    std::string content;
    std::string hash;
    bool tree = false;  // stored as tree object
    struct Kid {
        char type;  // f x l t
        int idx;    // index of blob or tree
    };
    std::vector<Kid> kids;
};
struct Variant {
    bazel_re::ActionResult res;
    std::string bytes;
    std::vector<std::pair<int, bool>> files;
    std::vector<std::string> links;
    std::vector<int> dirs;
};
struct Act {
    ArtifactDigest id;
    std::vector<Variant> vars;
};
struct Tc {
    std::vector<std::pair<char, int>> arts;
    std::vector<int> implied;
};
struct Promise {
    int epoch = 0;
};

struct World {
    std::vector<Obj> blobs;
    std::vector<Obj> trees;
    std::map<std::string, int> tree_of;  // hash -> index
    std::vector<Act> acts;
    std::vector<Tc> tcs;
    std::map<std::pair<int, int>, std::set<std::string>> tc_json;
    std::map<int, std::string> tc_key;
    std::unique_ptr<StorageConfig> cfg;
    std::size_t gens = 2;
    int epoch = 0;
    // availability: key -> epoch of last certain / possible use
    std::map<std::string, int> promised;
    std::map<std::string, int> maybe;
    std::map<int, int> holders;  // pid -> process holds shared lock
    std::map<int, int> gc_call;  // pid -> number of collection
    std::map<int, bool> gc_moved;
    std::vector<std::pair<int, std::string>> excl;  // exclusive events
    std::set<int> gc_pids;
    std::set<int> compact_pids;
    std::map<std::string, std::vector<std::string>> ref_chunks;
    bool io_faults = false;
    std::set<std::string> tmp_live;
    int src_no = 0;
};
World* W = nullptr;

HashFunction Hf() {
    return HashFunction{g_native ? HashFunction::Type::GitSHA1
                                 : HashFunction::Type::PlainSHA256};
}
ArtifactDigest BlobDigest(Obj const& o) {
    return *ArtifactDigestFactory::Create(
        Hf().GetType(), o.hash, o.content.size(), /*is_tree=*/false);
}
ArtifactDigest TreeDigest(Obj const& o) {
    return *ArtifactDigestFactory::Create(
        Hf().GetType(), o.hash, o.content.size(), /*is_tree=*/g_native);
}

std::string BlobContent(json const& b) {
    std::string c = "b" + std::to_string(b["id"].get<int>()) + ":";
    if (b.value("huge", false)) {
        for (int i = 0; i < 88; ++i) {
            c += Filler(static_cast<std::uint64_t>(i) % 7, 36000);
            c += g_mark;
        }
        return c;
    }
    if (b.contains("segs")) {
        for (auto const& s : b["segs"]) {
            c += Filler(s.get<std::uint64_t>(),
                        33000 + 500 * (s.get<std::uint64_t>() % 5));
            c += g_mark;
        }
        return c;
    }
    auto const n = b["size"].get<std::size_t>();
    if (n == 0) {
        return "";
    }
    return c + Filler(b["id"].get<std::uint64_t>(), n);
}

void BuildWorld(json const& w) {
    auto& s = *W;
    g_native = w["native"];
    s.gens = w["gens"];
    for (auto const& b : w["blobs"]) {
        Obj o;
        o.content = BlobContent(b);
        o.hash = RefHash(o.content, false);
        s.blobs.push_back(std::move(o));
    }
    for (auto const& t : w["trees"]) {
        Obj o;
        o.tree = true;
        // name -> (type, idx)
        std::map<std::string, std::pair<char, int>> ents;
        for (auto const& e : t["ents"]) {
            ents[e[0].get<std::string>()] = {e[1].get<std::string>()[0],
                                             e[2].get<int>()};
        }
        if (t.value("large", false)) {
            auto const b0 = t["ents"].empty()
                                ? 0
                                : static_cast<int>(t["lb"].get<int>());
            for (int part = 0; part < 2; ++part) {
                std::string const pre = part == 0 ? "m" : "q";
                for (int i = 0; i < 160; ++i) {
                    ents[pre + std::to_string(1000 + i) +
                         Filler(static_cast<std::uint64_t>(t["seed"]) + i,
                                220)] = {'f', b0};
                }
            }
            ents["p" + g_mark] = {'f', b0};
        }
        if (g_native) {
            std::map<std::string, std::string> sorted;
            for (auto const& [n, e] : ents) {
                auto const& k = e.first == 't'
                                    ? s.trees[static_cast<unsigned>(e.second)]
                                    : s.blobs[static_cast<unsigned>(e.second)];
                std::string const mode = e.first == 't'   ? "40000"
                                         : e.first == 'x' ? "100755"
                                         : e.first == 'l' ? "120000"
                                                          : "100644";
                std::string line = mode + " " + n;
                line += '\0';
                line += Raw(k.hash);
                sorted[n + (e.first == 't' ? "/" : "")] = line;
                o.kids.push_back({e.first, e.second});
            }
            for (auto const& [n, l] : sorted) {
                o.content += l;
            }
        }
        else {
            bazel_re::Directory d;
            for (auto const& [n, e] : ents) {
                auto const& k = e.first == 't'
                                    ? s.trees[static_cast<unsigned>(e.second)]
                                    : s.blobs[static_cast<unsigned>(e.second)];
                if (e.first == 't') {
                    auto* x = d.add_directories();
                    x->set_name(n);
                    x->mutable_digest()->set_hash(k.hash);
                    x->mutable_digest()->set_size_bytes(
                        static_cast<std::int64_t>(k.content.size()));
                }
                else if (e.first == 'l') {
                    auto* x = d.add_symlinks();
                    x->set_name(n);
                    x->set_target("some/target");
                    continue;
                }
                else {
                    auto* x = d.add_files();
                    x->set_name(n);
                    x->set_is_executable(e.first == 'x');
                    x->mutable_digest()->set_hash(k.hash);
                    x->mutable_digest()->set_size_bytes(
                        static_cast<std::int64_t>(k.content.size()));
                }
                o.kids.push_back({e.first, e.second});
            }
            o.content = d.SerializeAsString();
        }
        o.hash = RefHash(o.content, true);
        s.tree_of[o.hash] = static_cast<int>(s.trees.size());
        s.trees.push_back(std::move(o));
    }
    int k = 0;
    for (auto const& a : w["acts"]) {
        std::string const idc = "action " + std::to_string(k++);
        Act x{*ArtifactDigestFactory::Create(
                  Hf().GetType(), RefHash(idc, false), idc.size(), false),
              {}};
        int vn = 0;
        for (auto const& v : a["vars"]) {
            Variant r;
            r.res.set_exit_code(vn);
            r.res.set_stdout_raw("variant " + std::to_string(vn++));
            int fn = 0;
            for (auto const& f : v["files"]) {
                auto const bi = f[0].get<int>();
                bool const xb = f[1].get<bool>();
                auto* of = r.res.add_output_files();
                of->set_path("out" + std::to_string(fn++));
                *of->mutable_digest() = ArtifactDigestFactory::ToBazel(
                    BlobDigest(s.blobs[static_cast<unsigned>(bi)]));
                of->set_is_executable(xb);
                r.files.emplace_back(bi, xb);
            }
            for (auto const& l : v["links"]) {
                auto const t = "target-" + std::to_string(l.get<int>());
                auto* ol = l.get<int>() % 2 == 0
                               ? r.res.add_output_file_symlinks()
                               : r.res.add_output_directory_symlinks();
                ol->set_path("link" + std::to_string(fn++));
                ol->set_target(t);
                r.links.push_back(t);
            }
            for (auto const& d : v["dirs"]) {
                auto const ti = d.get<int>();
                auto* od = r.res.add_output_directories();
                od->set_path("dir" + std::to_string(fn++));
                *od->mutable_tree_digest() = ArtifactDigestFactory::ToBazel(
                    TreeDigest(s.trees[static_cast<unsigned>(ti)]));
                r.dirs.push_back(ti);
            }
            r.bytes = r.res.SerializeAsString();
            x.vars.push_back(std::move(r));
        }
        s.acts.push_back(std::move(x));
    }
    for (auto const& t : w["tcs"]) {
        Tc x;
        for (auto const& a : t["arts"]) {
            x.arts.emplace_back(a[0].get<std::string>()[0], a[1].get<int>());
        }
        for (auto const& i : t["implied"]) {
            x.implied.push_back(i.get<int>());
        }
        s.tcs.push_back(std::move(x));
    }
}

// ------------------------------------------------- reading the store, quietly
std::string GenDir(int g) {
    return kRoot + "/generation-" + std::to_string(g);
}
std::string ProtoDir(int g) {
    return GenDir(g) + (g_native ? "/git-sha1" : "/compatible-sha256");
}
std::string const* Get(std::string const& base,
                       std::string const& store,
                       std::string const& hash) {
    return sim::vfs::Peek(base + "/" + store + "/" + hash.substr(0, 2) + "/" +
                          hash.substr(2));
}
std::optional<std::vector<std::string>> LargeParts(std::string const* c) {
    if (c == nullptr) {
        return std::nullopt;
    }
    try {
        std::vector<std::string> r;
        for (auto const& p : json::parse(*c)) {
            r.push_back(p.at(0).get<std::string>());
        }
        return r;
    } catch (...) {
        return std::nullopt;
    }
}
std::string const* PlainBlob(std::string const& base, std::string const& h) {
    auto const* c = Get(base, "casf", h);
    return c != nullptr ? c : Get(base, "casx", h);
}
char const* TreeStore() { return g_native ? "cast" : "casf"; }
char const* LargeStore(bool tree) {
    return tree and g_native ? "cas-large-t" : "cas-large-f";
}
// is the object obtainable in this generation alone?
bool PresentIn(std::string const& base, std::string const& h, bool tree) {
    if (tree and g_native) {
        if (Get(base, "cast", h) != nullptr) {
            return true;
        }
    }
    else if (PlainBlob(base, h) != nullptr) {
        return true;
    }
    auto parts = LargeParts(Get(base, LargeStore(tree), h));
    if (not parts or parts->empty()) {
        return false;
    }
    return std::all_of(parts->begin(), parts->end(), [&](auto const& p) {
        return PlainBlob(base, p) != nullptr;
    });
}
bool Present(int g, std::string const& h, bool tree) {
    return PresentIn(ProtoDir(g), h, tree);
}
bool PresentAny(std::string const& h, bool tree) {
    for (std::size_t g = 0; g < W->gens; ++g) {
        if (Present(static_cast<int>(g), h, tree)) {
            return true;
        }
    }
    return false;
}
std::optional<std::string> ContentIn(std::string const& base,
                                     std::string const& h,
                                     bool tree) {
    auto const* c =
        tree and g_native ? Get(base, "cast", h) : PlainBlob(base, h);
    if (c != nullptr) {
        return *c;
    }
    auto parts = LargeParts(Get(base, LargeStore(tree), h));
    if (not parts or parts->empty()) {
        return std::nullopt;
    }
    std::string s;
    for (auto const& p : *parts) {
        auto const* x = PlainBlob(base, p);
        if (x == nullptr) {
            return std::nullopt;
        }
        s += *x;
    }
    return s;
}
// first missing object of a tree in the generation ("" = complete)
std::string MissingOfTree(std::string const& base,
                          int idx,
                          std::set<int>* seen = nullptr) {
    std::set<int> mine;
    auto& sn = seen != nullptr ? *seen : mine;
    if (not sn.insert(idx).second) {
        return "";
    }
    auto const& t = W->trees[static_cast<unsigned>(idx)];
    for (auto const& k : t.kids) {
        if (k.type == 't') {
            auto const& o = W->trees[static_cast<unsigned>(k.idx)];
            if (not PresentIn(base, o.hash, true)) {
                return "tree " + o.hash;
            }
            auto m = MissingOfTree(base, k.idx, &sn);
            if (not m.empty()) {
                return m;
            }
        }
        else {
            auto const& o = W->blobs[static_cast<unsigned>(k.idx)];
            if (not PresentIn(base, o.hash, false)) {
                return "blob " + o.hash;
            }
        }
    }
    return "";
}
std::string Untag(std::string const& h) {
    return g_native and h.size() > 40 ? h.substr(h.size() - 40) : h;
}
std::string MissingOfDir(std::string const& base, std::string const& hash) {
    if (not PresentIn(base, hash, true)) {
        return "tree " + hash;
    }
    auto it = W->tree_of.find(hash);
    return it == W->tree_of.end() ? "" : MissingOfTree(base, it->second);
}
std::string MissingOfResult(std::string const& base,
                            bazel_re::ActionResult const& r) {
    for (auto const& f : r.output_files()) {
        auto const h = Untag(f.digest().hash());
        if (not PresentIn(base, h, false)) {
            return "output file " + h;
        }
    }
    auto link = [&](std::string const& t) -> std::string {
        auto const h = RefHash(t, false);
        return PresentIn(base, h, false) ? "" : "symlink target " + h;
    };
    for (auto const& l : r.output_file_symlinks()) {
        if (auto m = link(l.target()); not m.empty()) {
            return m;
        }
    }
    for (auto const& l : r.output_directory_symlinks()) {
        if (auto m = link(l.target()); not m.empty()) {
            return m;
        }
    }
    for (auto const& d : r.output_directories()) {
        auto m = MissingOfDir(base, Untag(d.tree_digest().hash()));
        if (not m.empty()) {
            return "of output directory: " + m;
        }
    }
    return "";
}
// "" if the action-cache entry with this content is complete
std::string MissingOfAc(std::string const& base, std::string const& entry) {
    try {
        auto const j = json::parse(entry);
        auto const h = j.at(0).get<std::string>();
        auto c = ContentIn(base, h, false);
        if (not c) {
            return "action result " + h;
        }
        bazel_re::ActionResult r;
        if (not r.ParseFromString(*c)) {
            return "readable action result " + h;
        }
        return MissingOfResult(base, r);
    } catch (...) {
        return "readable entry";
    }
}
std::string MissingOfTcJson(std::string const& base,
                            std::string const& shard,
                            std::string const& key,
                            json const& desc);
std::string MissingOfTc(std::string const& base,
                        std::string const& shard,
                        std::string const& key,
                        std::string const& entry) {
    // [hash:size:f]
    auto const a = entry.find(':');
    if (entry.empty() or entry[0] != '[' or a == std::string::npos) {
        return "readable entry";
    }
    auto const h = entry.substr(1, a - 1);
    auto c = ContentIn(base, h, false);
    if (not c) {
        return "entry value " + h;
    }
    try {
        return MissingOfTcJson(base, shard, key, json::parse(*c));
    } catch (...) {
        return "readable entry value";
    }
}
std::string MissingOfTcJson(std::string const& base,
                            std::string const& shard,
                            std::string const& key,
                            json const& desc) {
    auto art = [&](json const& d) -> std::string {
        auto const h = d.at("data").at("id").get<std::string>();
        auto const t = d.at("data").at("file_type").get<std::string>();
        if (t == "t") {
            return MissingOfDir(base, h);
        }
        return PresentIn(base, h, false) ? "" : "artifact " + h;
    };
    for (auto const* k : {"artifacts", "runfiles"}) {
        for (auto const& [n, d] : desc.at(k).items()) {
            if (auto m = art(d); not m.empty()) {
                return m;
            }
        }
    }
    for (auto const& n : desc.at("provides").at("provided_artifacts")) {
        auto m = art(desc["provides"]["nodes"][n.get<std::string>()]);
        if (not m.empty()) {
            return m;
        }
    }
    if (desc.contains("implied export targets")) {
        for (auto const& i : desc["implied export targets"]) {
            auto const k = i.get<std::string>();
            if (k == key) {
                continue;
            }
            auto const* e = Get(base, "tc/" + shard, k);
            if (e == nullptr) {
                return "implied target " + k;
            }
        }
    }
    return "";
}

struct PathInfo {
    bool valid = false;  // validly named entry
    int gen = -1;
    std::string base;
    std::string store;  // casf ... or ac or tc/<shard>
    std::string hash;
};
bool IsHex(std::string const& s) {
    return s.find_first_not_of("0123456789abcdef") == std::string::npos;
}
PathInfo Parse(std::string const& path) {
    PathInfo r;
    if (path.compare(0, kRoot.size() + 1, kRoot + "/") != 0) {
        return r;
    }
    std::vector<std::string> c;
    std::size_t i = kRoot.size() + 1;
    while (i <= path.size()) {
        auto e = path.find('/', i);
        if (e == std::string::npos) {
            e = path.size();
        }
        c.push_back(path.substr(i, e - i));
        i = e + 1;
    }
    if (c.empty() or c[0].compare(0, 11, "generation-") != 0) {
        return r;
    }
    r.gen = std::atoi(c[0].c_str() + 11);
    if (c.size() < 5 or
        c[1] != (g_native ? "git-sha1" : "compatible-sha256")) {
        return r;
    }
    std::size_t const k = c[2] == "tc" ? 4 : 3;
    if (c.size() != k + 2) {
        return r;
    }
    r.store = k == 4 ? "tc/" + c[3] : c[2];
    r.base = kRoot + "/" + c[0] + "/" + c[1];
    r.hash = c[k] + c[k + 1];
    r.valid = c[k].size() == 2 and IsHex(r.hash) and
              r.hash.size() == (g_native ? 40U : 64U);
    return r;
}
bool IsCas(std::string const& s) {
    return s == "casf" or s == "casx" or s == "cast";
}

void CheckObject(PathInfo const& p, std::string const& path, char const* op) {
    auto const* c = sim::vfs::Peek(path);
    if (c == nullptr) {
        return;
    }
    if (RefHash(*c, p.store == "cast") != p.hash) {
        Violation("C10",
                  std::string{"wrong content stored: "} + p.store + " after " +
                      op + " of " + path + " (" + std::to_string(c->size()) +
                      " bytes)");
    }
    auto const m = sim::vfs::Lstat(path).mode;
    bool const x = (m & 0111) != 0;
    if (p.store == "casx" and (m & 0111) != 0111) {
        Violation("C10", "executable without x-bit stored: " + path);
    }
    if (p.store != "casx" and x) {
        Violation("C10", "non-executable with x-bit stored: " + path);
    }
}

// completeness of everything in a generation
void ScanGen(int g) {
    auto const base = ProtoDir(g);
    if (g_native and sim::Checking("C12")) {
        for (auto const& t : W->trees) {
            if (PresentIn(base, t.hash, true)) {
                auto m = MissingOfTree(base, W->tree_of[t.hash]);
                if (not m.empty()) {
                    Violation("C12",
                              "tree without its contents: generation " +
                                  std::to_string(g) + " tree " + t.hash +
                                  " lacks " + m);
                }
            }
        }
    }
    auto scan = [&](std::string const& store, auto const& f) {
        for (auto const& d : sim::vfs::List(base + "/" + store)) {
            for (auto const& e : sim::vfs::List(d.path)) {
                auto p = Parse(e.path);
                if (p.valid) {
                    auto const* c = sim::vfs::Peek(e.path);
                    if (c != nullptr) {
                        f(p, *c);
                    }
                }
            }
        }
    };
    if (sim::Checking("C13")) {
        scan("ac", [&](PathInfo const& p, std::string const& c) {
            auto m = MissingOfAc(base, c);
            if (not m.empty()) {
                Violation("C13",
                          "cached result without its outputs: generation " +
                              std::to_string(g) + " action " + p.hash +
                              " lacks " + m);
            }
        });
    }
    if (sim::Checking("C14")) {
        for (auto const& s : sim::vfs::List(base + "/tc")) {
            auto const shard = s.path.substr(s.path.rfind('/') + 1);
            scan("tc/" + shard, [&](PathInfo const& p, std::string const& c) {
                auto m = MissingOfTc(base, shard, p.hash, c);
                if (not m.empty()) {
                    Violation("C14",
                              "cached target without its artifacts: "
                              "generation " +
                                  std::to_string(g) + " target " + p.hash +
                                  " lacks " + m);
                }
            });
        }
    }
}

void NoteExclusive(std::string const& path, std::string const& what) {
    int const pid = sim::CurPid();
    for (auto const& [h, n] : W->holders) {
        if (n > 0 and h != pid and sim::Alive(h)) {
            Violation("C16",
                      "generation changed by a collection during a build: " +
                          what + " " + path + " while process " +
                          std::to_string(h) + " uses the store");
        }
    }
    W->excl.emplace_back(W->gc_call[pid], what);
}

void Hook(char const* op_, std::string const& path) {
    std::string const op = op_;
    int pid = sim::CurPid();
    if (path.compare(0, kRoot.size(), kRoot) != 0) {
        return;
    }
    bool const in_gen = path.compare(0, kRoot.size() + 12,
                                     kRoot + "/generation-") == 0;
    if (op == "rename_from" and in_gen and
        path.find('/', kRoot.size() + 12) == std::string::npos) {
        if (W->gc_call.contains(pid)) {
            if (not W->gc_moved[W->gc_call[pid]]) {
                W->gc_moved[W->gc_call[pid]] = true;
                ++W->epoch;
            }
            NoteExclusive(path, "renamed");
        }
        else {
            Violation("C16", "generation renamed by a build: " + path);
        }
        return;
    }
    auto p = Parse(path);
    if (not p.valid) {
        return;
    }
    bool const gone = op == "unlink" or op == "rename_from" or op == "rmdir";
    if (W->gc_call.contains(pid)) {
        NoteExclusive(path, gone ? "removed" : "changed");
    }
    if (gone) {
        if (not IsCas(p.store) and p.store.compare(0, 3, "cas") != 0) {
            if (W->gc_call.contains(pid) or W->compact_pids.contains(pid)) {
                Violation("C18", "cache entry removed: " + path);
            }
            return;
        }
        bool const tree = p.store == "cast" or p.store == "cas-large-t";
        if (sim::vfs::Peek(path) == nullptr and
            not PresentIn(p.base, p.hash, tree)) {
            bool const comp =
                W->gc_call.contains(pid) or W->compact_pids.contains(pid);
            Violation(comp ? "C18" : "C11",
                      std::string{"object removed while in use: "} + path);
            if (comp) {
                Violation("C15", "object removed by collection: " + path);
                Violation("C17", "object removed by collection: " + path);
            }
            ScanGen(p.gen);
        }
        return;
    }
    if (op == "utime") {
        return;
    }
    if (IsCas(p.store)) {
        CheckObject(p, path, op_);
    }
    if (p.store.compare(0, 9, "cas-large") == 0) {
        auto const tree = p.store == "cas-large-t";
        auto parts = LargeParts(sim::vfs::Peek(path));
        if (not parts) {
            Violation("C10", "unreadable large entry: " + path);
            return;
        }
        std::string s;
        bool all = true;
        for (auto const& x : *parts) {
            auto const* c = PlainBlob(p.base, x);
            if (c == nullptr) {
                all = false;
                break;
            }
            s += *c;
        }
        if (all and RefHash(s, tree) != p.hash) {
            Violation("C10", "large entry with wrong parts: " + path);
            Violation("C19", "large entry with wrong parts: " + path);
        }
        if (not all) {
            Violation("C18", "large entry without its parts: " + path);
            Violation("C19", "large entry without its parts: " + path);
            Violation("C12", "large entry without its parts: " + path);
        }
    }
    if (p.store == "cast" or p.store == "cas-large-t") {
        auto it = W->tree_of.find(p.hash);
        if (it != W->tree_of.end()) {
            auto m = MissingOfTree(p.base, it->second);
            if (not m.empty()) {
                Violation("C12",
                          "tree without its contents: " + op + " of " + path +
                              ", missing " + m);
            }
        }
    }
    else if (p.store == "ac") {
        auto const* c = sim::vfs::Peek(path);
        auto m = c == nullptr ? "" : MissingOfAc(p.base, *c);
        if (not m.empty()) {
            Violation("C13",
                      "cached result without its outputs: " + op + " of " +
                          path + ", missing " + m);
        }
    }
    else if (p.store.compare(0, 3, "tc/") == 0) {
        auto const* c = sim::vfs::Peek(path);
        auto m = c == nullptr
                     ? ""
                     : MissingOfTc(p.base, p.store.substr(3), p.hash, *c);
        if (not m.empty()) {
            Violation("C14",
                      "cached target without its artifacts: " + op + " of " +
                          path + ", missing " + m);
        }
    }
}

// ---------------------------------------------------------- usage tracking
void CloseTree(int idx, std::set<std::string>* out) {
    auto const& t = W->trees[static_cast<unsigned>(idx)];
    if (not out->insert("t:" + t.hash).second) {
        return;
    }
    for (auto const& k : t.kids) {
        if (k.type == 't') {
            CloseTree(k.idx, out);
        }
        else {
            out->insert("b:" + W->blobs[static_cast<unsigned>(k.idx)].hash);
        }
    }
}
void CloseVariant(Variant const& v, std::set<std::string>* out) {
    for (auto const& [b, x] : v.files) {
        out->insert("b:" + W->blobs[static_cast<unsigned>(b)].hash);
    }
    for (auto const& l : v.links) {
        out->insert("b:" + RefHash(l, false));
    }
    for (auto d : v.dirs) {
        CloseTree(d, out);
    }
}
void CloseTc(int idx, int shard, std::set<std::string>* out) {
    auto const& t = W->tcs[static_cast<unsigned>(idx)];
    for (auto const& [ty, i] : t.arts) {
        if (ty == 't') {
            CloseTree(i, out);
        }
        else {
            out->insert("b:" + W->blobs[static_cast<unsigned>(i)].hash);
        }
    }
    for (auto i : t.implied) {
        out->insert("tc:" + std::to_string(i) + ":" + std::to_string(shard));
        CloseTc(i, shard, out);
    }
}
void Maybe(std::set<std::string> const& s) {
    for (auto const& k : s) {
        W->maybe[k] = std::max(W->maybe[k], W->epoch);
    }
}
void Promised(std::set<std::string> const& s) {
    for (auto const& k : s) {
        W->promised[k] = W->epoch;
    }
}
std::string ShardName(int shard);

bool KeyAvailable(std::string const& k, std::string* why) {
    if (k[0] == 'b' or (k[0] == 't' and k[1] == ':')) {
        bool const tree = k[0] == 't';
        auto const h = k.substr(2);
        *why = (tree ? "tree " : "blob ") + h;
        for (std::size_t g = 0; g < W->gens; ++g) {
            auto const base = ProtoDir(static_cast<int>(g));
            if (PresentIn(base, h, tree)) {
                if (not tree or not g_native) {
                    return true;
                }
                auto m = MissingOfTree(base, W->tree_of[h]);
                if (m.empty()) {
                    return true;
                }
                *why = "tree " + h + " lacks " + m;
            }
        }
        return false;
    }
    if (k.compare(0, 3, "ac:") == 0) {
        auto const h = W->acts[static_cast<unsigned>(std::stoi(k.substr(3)))]
                           .id.hash();
        *why = "cached action " + h;
        for (std::size_t g = 0; g < W->gens; ++g) {
            auto const base = ProtoDir(static_cast<int>(g));
            auto const* c = Get(base, "ac", h);
            if (c != nullptr) {
                auto m = MissingOfAc(base, *c);
                if (m.empty()) {
                    return true;
                }
                *why = "cached action " + h + " lacks " + m;
            }
        }
        return false;
    }
    // tc:<idx>:<shard>
    auto const rest = k.substr(3);
    auto const c = rest.find(':');
    int const idx = std::stoi(rest.substr(0, c));
    int const shard = std::stoi(rest.substr(c + 1));
    auto it = W->tc_key.find(idx);
    if (it == W->tc_key.end()) {
        return true;
    }
    *why = "cached target " + it->second;
    auto const sn = ShardName(shard);
    for (std::size_t g = 0; g < W->gens; ++g) {
        auto const base = ProtoDir(static_cast<int>(g));
        auto const* e = Get(base, "tc/" + sn, it->second);
        if (e != nullptr) {
            auto m = MissingOfTc(base, sn, it->second, *e);
            if (m.empty()) {
                return true;
            }
            *why = "cached target " + it->second + " lacks " + m;
        }
    }
    return false;
}
void CheckRetention(std::string const& when) {
    char const* const prop = sim::Checking("C17")   ? "C17"
                             : sim::Checking("C11") ? "C11"
                             : sim::Checking("C18") ? "C18"
                                                    : "C15";
    for (auto const& [k, e] : W->promised) {
        if (W->epoch - e > static_cast<int>(W->gens) - 1) {
            continue;
        }
        std::string why;
        if (not KeyAvailable(k, &why)) {
            Violation(prop,
                      std::string{"object in recent use not available: "} +
                          why + " " + when + " (used " +
                          std::to_string(W->epoch - e) +
                          " collections ago, generations " +
                          std::to_string(W->gens) + ")");
        }
    }
}
void CheckGone() {
    for (auto const& [k, e] : W->maybe) {
        if (W->epoch - e < static_cast<int>(W->gens)) {
            continue;
        }
        bool found = false;
        if (k[0] == 'b') {
            found = PresentAny(k.substr(2), false);
        }
        else if (k[1] == ':') {
            found = PresentAny(k.substr(2), true);
        }
        else {
            std::string why;
            auto const gens = W->gens;
            found = (k.compare(0, 3, "ac:") == 0 or
                     W->tc_key.contains(std::stoi(k.substr(3)))) and
                    KeyAvailable(k, &why);
            W->gens = gens;
        }
        if (found) {
            Violation("C15",
                      "unused object survives: " + k + " unused for " +
                          std::to_string(W->epoch - e) + " collections");
        }
    }
}

// --------------------------------------------------------------- operations
BackendDescription const& Shard(int k) {
    static std::vector<BackendDescription>* v = nullptr;
    if (v == nullptr) {
        v = new std::vector<BackendDescription>();
        v->push_back(BackendDescription{});
        for (int i = 1; i < 3; ++i) {
            auto d = BackendDescription::Describe(
                std::nullopt, {{"prop", std::to_string(i)}}, {});
            v->push_back(*d);
        }
    }
    return (*v)[static_cast<unsigned>(k)];
}
std::string ShardName(int shard) {
    return RefHash(Shard(shard).GetDescription(), false);
}

struct Builder {
    Storage const& st;
    int pid;
    std::vector<std::pair<std::string, std::string>>* found;

    int Faults() const { return sim::FaultsIn(pid); }
    // nothing excuses a failure (a temporary file that could not be removed
    // after a failed attempt can make the next one fail)
    bool Clean(int f0) const {
        return Faults() == f0 and sim::vfs::FailedUnlinks() == 0;
    }

    bool StoreBlob(int idx, bool x, int how) {
        std::string src;
        Obj const* o = nullptr;
        int f0 = 0;
        bool was = false;
        {
            sim::Quiet q;
            o = &W->blobs[static_cast<unsigned>(idx)];
            f0 = Faults();
            was = PresentAny(o->hash, false);
            Maybe({"b:" + o->hash});
            if (how != 0) {
                src = "/w/src-" + std::to_string(W->src_no++);
                sim::vfs::Write(src, o->content, x ? 0755 : 0644);
            }
        }
        std::optional<ArtifactDigest> d;
        if (how == 0) {
            d = st.CAS().StoreBlob(o->content, x);
        }
        else if (how == 1) {
            d = st.CAS().StoreBlob(std::filesystem::path{src}, x);
        }
        else {
            d = st.CAS().StoreBlob</*kOwner=*/true>(
                std::filesystem::path{src}, x);
        }
        sim::Quiet q;
        Maybe({"b:" + o->hash});
        if (d) {
            if (d->hash() != o->hash or d->size() != o->content.size() or
                d->IsTree()) {
                Violation("C10", "store returned a wrong digest: " + d->hash());
            }
            if (Get(ProtoDir(0), x ? "casx" : "casf", o->hash) == nullptr) {
                Violation("C11",
                          "store succeeded but object is not there: blob " +
                              o->hash);
            }
            Promised({"b:" + o->hash});
            sim::Probe("store_blob_ok");
        }
        else if (Clean(f0)) {
            Violation("C11",
                      "store failed without any fault: blob " + o->hash);
        }
        else {
            sim::Probe("store_blob_failed");
            if (was and not PresentAny(o->hash, false)) {
                Violation("C11", "failed store removed blob " + o->hash);
            }
        }
        return d.has_value();
    }
    bool StoreRaw(std::string const& content) {
        int f0 = 0;
        {
            sim::Quiet q;
            f0 = Faults();
            Maybe({"b:" + RefHash(content, false)});
        }
        auto d = st.CAS().StoreBlob(content, false);
        sim::Quiet q;
        if (d) {
            Promised({"b:" + d->hash()});
        }
        return d.has_value();
    }
    void CheckRead(std::filesystem::path const& path,
                   Obj const& o,
                   bool x,
                   bool tree) {
        std::string store;
        {
            sim::Quiet q;
            auto const* c = sim::vfs::Peek(path.string());
            if (c == nullptr) {
                Violation(sim::Checking("C16") ? "C16" : "C11",
                          "looked-up object is not there: " + path.string());
                return;
            }
            if (*c != o.content) {
                Violation("C10", "looked-up content wrong: " + path.string());
                if (sim::Checking("C19")) {
                    Violation("C19",
                              "looked-up content wrong: " + path.string());
                }
            }
            if (x and (sim::vfs::Lstat(path.string()).mode & 0111) != 0111) {
                Violation("C10",
                          "looked-up executable without x-bit: " +
                              path.string());
            }
            found->emplace_back(path.string(), o.hash);
            (void)tree;
        }
        auto c = FileSystemManager::ReadFile(path);
        sim::Quiet q;
        if (c and *c != o.content) {
            Violation("C10", "read yields wrong content: " + path.string());
        }
        if (not c) {
            sim::Probe("read_failed");
        }
    }
    void LookupBlob(int idx, bool x, bool nosync) {
        Obj const* o = nullptr;
        bool was = false;
        int f0 = 0;
        {
            sim::Quiet q;
            o = &W->blobs[static_cast<unsigned>(idx)];
            f0 = Faults();
            Maybe({"b:" + o->hash});
            if (nosync) {
                for (std::size_t g = 0; g < W->gens; ++g) {
                    was = was or Get(ProtoDir(static_cast<int>(g)),
                                     x ? "casx" : "casf",
                                     o->hash) != nullptr;
                }
            }
            else {
                was = PresentAny(o->hash, false);
            }
        }
        auto d = BlobDigest(*o);
        auto p = nosync ? st.CAS().BlobPathNoSync(d, x)
                        : st.CAS().BlobPath(d, x);
        {
            sim::Quiet q;
            Maybe({"b:" + o->hash});
            if (not p) {
                if (was and Clean(f0)) {
                    Violation("C11", "stored blob not found: " + o->hash);
                }
                sim::Probe("lookup_miss");
                return;
            }
            Promised({"b:" + o->hash});
            sim::Probe("lookup_blob_ok");
        }
        CheckRead(*p, *o, x, false);
    }
    bool StoreTree(int idx, int how, bool deep) {
        Obj const* o = nullptr;
        bool complete = false;
        int f0 = 0;
        std::string src;
        {
            sim::Quiet q;
            o = &W->trees[static_cast<unsigned>(idx)];
        }
        if (deep) {
            for (auto const& k : o->kids) {
                if (k.type == 't' ? not StoreTree(k.idx, how, true)
                                  : not StoreBlob(k.idx, k.type == 'x', how)) {
                    return false;
                }
            }
        }
        std::set<std::string> cl;
        {
            sim::Quiet q;
            f0 = Faults();
            CloseTree(idx, &cl);
            Maybe(cl);
            complete = true;
            for (auto const& k : o->kids) {
                auto const& h =
                    k.type == 't'
                        ? W->trees[static_cast<unsigned>(k.idx)].hash
                        : W->blobs[static_cast<unsigned>(k.idx)].hash;
                complete = complete and PresentAny(h, k.type == 't');
            }
            if (how != 0) {
                src = "/w/src-" + std::to_string(W->src_no++);
                sim::vfs::Write(src, o->content, 0644);
            }
        }
        if (g_native) {
            auto err = st.CAS().CheckTreeInvariant(TreeDigest(*o), o->content);
            sim::Quiet q;
            if (not err and not complete) {
                // the children may have been stored meanwhile by others
                bool now = true;
                for (auto const& k : o->kids) {
                    auto const& h =
                        k.type == 't'
                            ? W->trees[static_cast<unsigned>(k.idx)].hash
                            : W->blobs[static_cast<unsigned>(k.idx)].hash;
                    now = now and PresentAny(h, k.type == 't');
                }
                if (not now) {
                    Violation("C12", "incomplete tree accepted: " + o->hash);
                }
            }
            if (err and complete and Clean(f0)) {
                Violation("C12", "complete tree refused: " + o->hash);
            }
            if (err) {
                sim::Probe("tree_refused");
                return false;
            }
        }
        std::optional<ArtifactDigest> d;
        if (how == 0) {
            d = st.CAS().StoreTree(o->content);
        }
        else if (how == 1) {
            d = st.CAS().StoreTree(std::filesystem::path{src});
        }
        else {
            d = st.CAS().StoreTree</*kOwner=*/true>(
                std::filesystem::path{src});
        }
        sim::Quiet q;
        Maybe(cl);
        if (d) {
            if (d->hash() != o->hash or d->IsTree() != g_native) {
                Violation("C10", "store returned a wrong digest: " + d->hash());
            }
            if (Get(ProtoDir(0), TreeStore(), o->hash) == nullptr) {
                Violation("C11",
                          "store succeeded but object is not there: tree " +
                              o->hash);
            }
            if (g_native) {
                Promised(cl);
            }
            else {
                Promised({"t:" + o->hash});
            }
            sim::Probe("store_tree_ok");
        }
        else if (Clean(f0)) {
            Violation("C11",
                      "store failed without any fault: tree " + o->hash);
        }
        return d.has_value();
    }
    void LookupTree(int idx) {
        Obj const* o = nullptr;
        bool was = false;
        int f0 = 0;
        std::set<std::string> cl;
        {
            sim::Quiet q;
            o = &W->trees[static_cast<unsigned>(idx)];
            f0 = Faults();
            CloseTree(idx, &cl);
            Maybe(cl);
            was = PresentAny(o->hash, true);
        }
        auto p = st.CAS().TreePath(TreeDigest(*o));
        {
            sim::Quiet q;
            Maybe(cl);
            if (not p) {
                if (was and Clean(f0)) {
                    Violation("C11", "stored tree not found: " + o->hash);
                }
                return;
            }
            if (g_native) {
                auto m = MissingOfTree(ProtoDir(0), idx);
                if (not m.empty()) {
                    Violation("C12",
                              "found tree lacks contents: " + o->hash +
                                  " lacks " + m);
                }
                Promised(cl);
            }
            else {
                Promised({"t:" + o->hash});
            }
            sim::Probe("lookup_tree_ok");
        }
        CheckRead(*p, *o, false, true);
    }
    std::vector<std::string> const& RefChunks(Obj const& o) {
        // quiet: chunks of the content as read without faults
        auto& r = W->ref_chunks[o.hash];
        if (r.empty() and not o.content.empty()) {
            sim::vfs::Write("/w/ref", o.content);
            FileChunker ch{"/w/ref"};
            while (auto c = ch.NextChunk()) {
                r.push_back(*c);
            }
            if (not ch.Finished()) {
                Violation("C19", "chunking failed without any fault:");
            }
            std::string s;
            for (auto const& c : r) {
                s += c;
            }
            if (s != o.content) {
                Violation("C19", "chunks do not add up to the object:");
            }
        }
        return r;
    }
    // chunking of contents larger than the chunker's buffer
    void Chunk(std::uint64_t seed, std::size_t size) {
        std::string content;
        std::string path;
        int f0 = 0;
        {
            sim::Quiet q;
            sim::Rng r{seed};
            f0 = Faults();
            while (content.size() < size) {
                auto const n = 1 + r.Below(1ULL << r.Range(4, 18));
                switch (r.Below(3)) {
                    case 0: content.append(n, 'x'); break;
                    case 1: content += g_mark; break;
                    default: content += Filler(r.Next() % 50, n);
                }
            }
            path = "/w/chunk-" + std::to_string(W->src_no++);
            sim::vfs::Write(path, content);
        }
        std::vector<std::string> got;
        FileChunker ch{path};
        while (auto c = ch.NextChunk()) {
            got.push_back(*c);
        }
        bool const fin = ch.Finished();
        sim::Quiet q;
        if (not fin) {
            if (Clean(f0)) {
                Violation("C19", "chunking failed without any fault:");
            }
            return;
        }
        std::string all;
        for (auto const& c : got) {
            all += c;
        }
        if (all != content) {
            Violation("C19", "chunks do not add up to the file:");
        }
        // boundaries depend on nothing but the content: every chunk is the
        // first one of the rest of the file
        std::size_t off = 0;
        for (auto const& c : got) {
            if (off != 0) {
                sim::vfs::Write(path, content.substr(off));
                FileChunker rest{path};
                auto first = rest.NextChunk();
                if (not first or first->size() != c.size()) {
                    Violation("C19",
                              "chunk boundaries depend on more than the "
                              "content:");
                }
            }
            off += c.size();
        }
        sim::Probe("chunked_large", got.size());
        sim::vfs::RemoveAll(path);
    }
    void Split(int idx, bool tree) {
        Obj const* o = nullptr;
        bool was = false;
        int f0 = 0;
        std::set<std::string> cl;
        {
            sim::Quiet q;
            o = tree ? &W->trees[static_cast<unsigned>(idx)]
                     : &W->blobs[static_cast<unsigned>(idx)];
            f0 = Faults();
            if (tree) {
                CloseTree(idx, &cl);
            }
            else {
                cl.insert("b:" + o->hash);
            }
            Maybe(cl);
            was = PresentAny(o->hash, tree);
        }
        auto r = tree ? st.CAS().SplitTree(TreeDigest(*o))
                      : st.CAS().SplitBlob(BlobDigest(*o));
        sim::Quiet q;
        Maybe(cl);
        if (not r) {
            if (was and Clean(f0)) {
                Violation("C19", "splitting failed without any fault:");
            }
            return;
        }
        sim::Probe(r->size() > 1 ? "split_ok" : "split_single");
        std::string s;
        for (auto const& d : *r) {
            auto c = ContentIn(ProtoDir(0), d.hash(), false);
            if (not c) {
                Violation("C19", "chunk not available: " + d.hash());
                return;
            }
            if (c->size() != d.size()) {
                Violation("C19", "chunk of wrong size: " + d.hash());
            }
            s += *c;
        }
        if (s != o->content) {
            Violation("C19",
                      "chunks differ from the object: " + o->hash + " (" +
                          std::to_string(s.size()) + " of " +
                          std::to_string(o->content.size()) + " bytes)");
        }
        auto const& ref = RefChunks(*o);
        bool same = ref.size() == r->size();
        for (std::size_t i = 0; same and i < ref.size(); ++i) {
            same = RefHash(ref[i], false) == (*r)[i].hash();
        }
        if (not same) {
            Violation("C19",
                      "chunk boundaries depend on more than the content: " +
                          o->hash);
        }
    }
    void Splice(int idx, bool tree, bool x, int variant) {
        Obj const* o = nullptr;
        std::vector<ArtifactDigest> parts;
        std::vector<std::string> ref;
        std::set<std::string> cl;
        bool right = variant == 0;
        {
            sim::Quiet q;
            o = tree ? &W->trees[static_cast<unsigned>(idx)]
                     : &W->blobs[static_cast<unsigned>(idx)];
            ref = RefChunks(*o);
            if (tree) {
                CloseTree(idx, &cl);
            }
            else {
                cl.insert("b:" + o->hash);
            }
            Maybe(cl);
            if (ref.empty()) {
                return;
            }
        }
        std::size_t const miss = variant == 1 ? ref.size() / 2 : ref.size();
        for (std::size_t i = 0; i < ref.size(); ++i) {
            if (i == miss) {
                parts.push_back(*ArtifactDigestFactory::Create(
                    Hf().GetType(),
                    RefHash("never stored", false),
                    ref[i].size(),
                    false));
                continue;
            }
            auto d = st.CAS().StoreBlob(ref[i], false);
            if (not d) {
                return;
            }
            parts.push_back(*d);
        }
        bool was = false;
        int f0 = 0;
        bool kids = true;
        {
            sim::Quiet q;
            if (variant == 2) {
                std::reverse(parts.begin(), parts.end());
                right = std::equal(ref.begin(), ref.end(), ref.rbegin());
            }
            else if (variant == 3) {
                parts.pop_back();
                right = ref.back().empty();
            }
            else if (variant == 4) {
                parts.push_back(parts.front());
                right = false;
            }
            was = PresentAny(o->hash, tree);
            f0 = Faults();
            if (tree and g_native) {
                for (auto const& k : o->kids) {
                    auto const& h =
                        k.type == 't'
                            ? W->trees[static_cast<unsigned>(k.idx)].hash
                            : W->blobs[static_cast<unsigned>(k.idx)].hash;
                    kids = kids and PresentAny(h, k.type == 't');
                }
            }
        }
        auto r = tree ? st.CAS().SpliceTree(TreeDigest(*o), parts)
                      : st.CAS().SpliceBlob(BlobDigest(*o), parts, x);
        sim::Quiet q;
        Maybe(cl);
        if (not r) {
            if (Clean(f0) and (was or (right and kids))) {
                Violation("C19",
                          "splicing failed without any fault: " + o->hash);
            }
            sim::Probe("splice_failed");
            return;
        }
        sim::Probe("splice_ok");
        auto const store =
            tree ? TreeStore() : (x ? "casx" : "casf");
        auto const* c = Get(ProtoDir(0), store, o->hash);
        if (c == nullptr) {
            if (right or was) {
                Violation("C19", "spliced object not available: " + o->hash);
            }
            else {
                Violation("C19",
                          "splicing from wrong parts succeeded: " + o->hash);
            }
            return;
        }
        if (*c != o->content) {
            Violation("C19", "spliced content is wrong: " + o->hash);
        }
        if (tree and g_native) {
            auto m = MissingOfTree(ProtoDir(0), idx);
            if (not m.empty()) {
                Violation("C12",
                          "spliced tree lacks contents: " + o->hash +
                              " lacks " + m);
            }
            Promised(cl);
        }
        else {
            Promised({(tree ? "t:" : "b:") + o->hash});
        }
    }
    void StoreResult(int a, int v) {
        Act const* act = nullptr;
        Variant const* var = nullptr;
        {
            sim::Quiet q;
            act = &W->acts[static_cast<unsigned>(a)];
            var = &act->vars[static_cast<unsigned>(v) % act->vars.size()];
        }
        for (auto const& [b, x] : var->files) {
            if (not StoreBlob(b, x, 2)) {
                return;
            }
        }
        for (auto const& l : var->links) {
            if (not StoreRaw(l)) {
                return;
            }
        }
        for (auto d : var->dirs) {
            if (not StoreTree(d, 0, true)) {
                return;
            }
        }
        std::set<std::string> cl;
        int f0 = 0;
        {
            sim::Quiet q;
            f0 = Faults();
            cl.insert("ac:" + std::to_string(a));
            CloseVariant(*var, &cl);
            Maybe(cl);
        }
        bool const ok = st.ActionCache().StoreResult(act->id, var->res);
        sim::Quiet q;
        if (ok) {
            Promised(cl);
            sim::Probe("ac_store_ok");
            if (Get(ProtoDir(0), "ac", act->id.hash()) == nullptr) {
                Violation("C11",
                          "stored action result is not there: " +
                              act->id.hash());
            }
        }
        else if (Clean(f0)) {
            Violation("C13", "result not stored without any fault:");
        }
    }
    void LookupResult(int a) {
        Act const* act = nullptr;
        bool was = false;
        int f0 = 0;
        std::set<std::string> all;
        {
            sim::Quiet q;
            act = &W->acts[static_cast<unsigned>(a)];
            f0 = Faults();
            all.insert("ac:" + std::to_string(a));
            for (auto const& v : act->vars) {
                CloseVariant(v, &all);
            }
            Maybe(all);
            std::string why;
            was = KeyAvailable("ac:" + std::to_string(a), &why);
        }
        auto r = st.ActionCache().CachedResult(act->id);
        sim::Quiet q;
        Maybe(all);
        if (not r) {
            if (was and Clean(f0)) {
                Violation("C11",
                          "stored action result not found: " +
                              act->id.hash());
            }
            return;
        }
        sim::Probe("ac_lookup_ok");
        auto const bytes = r->SerializeAsString();
        bool known = false;
        for (auto const& v : act->vars) {
            if (v.bytes == bytes) {
                known = true;
                std::set<std::string> cl;
                cl.insert("ac:" + std::to_string(a));
                CloseVariant(v, &cl);
                Promised(cl);
            }
        }
        if (not known) {
            Violation("C13",
                      "lookup returned a result never stored: " +
                          act->id.hash());
        }
        auto m = MissingOfResult(ProtoDir(0), *r);
        if (not m.empty()) {
            Violation("C13",
                      "result found lacks " + m + " (action " +
                          act->id.hash() + ")");
        }
    }
    json TcJson(int t, int shard) {
        auto art = [&](char ty, int i) {
            auto const& o = ty == 't' ? W->trees[static_cast<unsigned>(i)]
                                      : W->blobs[static_cast<unsigned>(i)];
            return json{{"type", "KNOWN"},
                        {"data",
                         {{"id", o.hash},
                          {"size", o.content.size()},
                          {"file_type", std::string(1, ty)}}}};
        };
        json j{{"artifacts", json::object()},
               {"runfiles", json::object()},
               {"provides",
                {{"nodes", json::object()},
                 {"provided_artifacts", json::array()},
                 {"note", shard}}}};
        int n = 0;
        for (auto const& [ty, i] : W->tcs[static_cast<unsigned>(t)].arts) {
            auto const name =
                "n" + std::to_string(n) + "-" + std::to_string(shard);
            if (n % 3 == 0) {
                j["artifacts"][name] = art(ty, i);
            }
            else if (n % 3 == 1) {
                j["runfiles"][name] = art(ty, i);
            }
            else {
                j["provides"]["nodes"][name] = art(ty, i);
                j["provides"]["provided_artifacts"].push_back(name);
            }
            ++n;
        }
        return j;
    }
    std::optional<TargetCacheKey> TcKey(int t) {
        auto key = st.TargetCache().ComputeKey(
            *ArtifactDigestFactory::Create(
                Hf().GetType(), RefHash("repo", false), 4, false),
            BuildMaps::Base::NamedTarget{"r", "mod", "t" + std::to_string(t)},
            Configuration{Expression::FromJson(R"({"A":"1"})"_json)});
        sim::Quiet q;
        if (key) {
            auto const h = key->Id().digest.hash();
            auto it = W->tc_key.find(t);
            if (it != W->tc_key.end() and it->second != h) {
                Violation("C14", "key of the same target differs:");
            }
            for (auto const& [o, oh] : W->tc_key) {
                if (o != t and oh == h) {
                    Violation("C14", "different targets with the same key:");
                }
            }
            W->tc_key[t] = h;
        }
        return key;
    }
    bool StoreTarget(int t, int shard, bool bad) {
        Tc const* tc = nullptr;
        {
            sim::Quiet q;
            tc = &W->tcs[static_cast<unsigned>(t)];
        }
        json desc;
        {
            sim::Quiet q;
            desc = TcJson(t, shard);
        }
        std::vector<std::string> implied;
        for (auto i : tc->implied) {
            if (not StoreTarget(i, shard, false)) {
                return false;
            }
            auto k = TcKey(i);
            if (not k) {
                return false;
            }
            implied.push_back(k->Id().digest.hash());
        }
        auto key = TcKey(t);
        if (not key) {
            return false;
        }
        std::set<std::string> cl;
        int f0 = 0;
        {
            sim::Quiet q;
            if (not implied.empty()) {
                implied.push_back(key->Id().digest.hash());
                desc["implied export targets"] = implied;
            }
            W->tc_json[{t, shard}].insert(desc.dump());
            cl.insert("tc:" + std::to_string(t) + ":" +
                      std::to_string(shard));
            CloseTc(t, shard, &cl);
            Maybe(cl);
            f0 = Faults();
        }
        int stored = 0;
        bool dl_ok = false;
        auto entry = TargetCacheEntry::FromJson(Hf().GetType(), desc);
        auto ok =
            st.TargetCache().WithShard(Shard(shard)).Store(
                *key,
                entry,
                [&](std::vector<Artifact::ObjectInfo> const& infos) {
                    for (auto const& info : infos) {
                        if (bad and stored > 0) {
                            return false;
                        }
                        if (IsTreeObject(info.type)) {
                            int idx = 0;
                            {
                                sim::Quiet q;
                                auto it =
                                    W->tree_of.find(info.digest.hash());
                                if (it == W->tree_of.end()) {
                                    Violation("C14",
                                              "unknown artifact requested:");
                                    return false;
                                }
                                idx = it->second;
                            }
                            if (not StoreTree(idx, 0, true)) {
                                return false;
                            }
                        }
                        else {
                            int idx = -1;
                            {
                                sim::Quiet q;
                                for (std::size_t b = 0; b < W->blobs.size();
                                     ++b) {
                                    if (W->blobs[b].hash ==
                                        info.digest.hash()) {
                                        idx = static_cast<int>(b);
                                    }
                                }
                            }
                            if (idx < 0 or
                                not StoreBlob(idx,
                                              IsExecutableObject(info.type),
                                              0)) {
                                return false;
                            }
                        }
                        ++stored;
                    }
                    dl_ok = not bad or infos.empty();
                    return dl_ok;
                });
        sim::Quiet q;
        if (ok and not dl_ok) {
            Violation("C14", "entry stored although download failed:");
        }
        if (ok) {
            Promised(cl);
            sim::Probe("tc_store_ok");
            if (Get(ProtoDir(0),
                    "tc/" + ShardName(shard),
                    key->Id().digest.hash()) == nullptr) {
                Violation("C14", "stored target is not there:");
            }
        }
        else if (Clean(f0) and dl_ok) {
            Violation("C14", "target not stored without any fault:");
        }
        return ok;
    }
    void LookupTarget(int t, int shard) {
        auto key = TcKey(t);
        if (not key) {
            return;
        }
        std::set<std::string> cl;
        bool was = false;
        int f0 = 0;
        auto const name =
            "tc:" + std::to_string(t) + ":" + std::to_string(shard);
        {
            sim::Quiet q;
            cl.insert(name);
            CloseTc(t, shard, &cl);
            Maybe(cl);
            f0 = Faults();
            std::string why;
            was = KeyAvailable(name, &why);
        }
        auto r = st.TargetCache().WithShard(Shard(shard)).Read(*key);
        sim::Quiet q;
        Maybe(cl);
        if (not r) {
            if (was and Clean(f0)) {
                Violation("C11", "stored target not found: " + name);
            }
            return;
        }
        sim::Probe("tc_lookup_ok");
        auto const dump = r->first.ToJson().dump();
        if (not W->tc_json[{t, shard}].contains(dump)) {
            Violation("C14", "entry of another target or back end: " + name);
        }
        auto m = MissingOfTcJson(ProtoDir(0),
                                 ShardName(shard),
                                 key->Id().digest.hash(),
                                 r->first.ToJson());
        if (not m.empty()) {
            Violation("C14", "target found lacks " + m);
        }
        Promised(cl);
    }
    void Tmp(int ms) {
        auto d = W->cfg->CreateTypedTmpDir("x");
        if (d == nullptr) {
            return;
        }
        auto const p = d->GetPath().string();
        {
            sim::Quiet q;
            if (not W->tmp_live.insert(p).second) {
                Violation("C15", "temporary directory handed out twice: " + p);
            }
            sim::vfs::Write(p + "/mine", "x");
        }
        sim::SleepNs(static_cast<std::uint64_t>(ms) * 1000000ULL);
        sim::Quiet q;
        if (sim::vfs::Peek(p + "/mine") == nullptr) {
            Violation("C15", "temporary directory removed in use: " + p);
        }
        W->tmp_live.erase(p);
    }

    void Op(json const& o) {
        auto const& k = o[0].get_ref<std::string const&>();
        if (k == "sb") {
            StoreBlob(o[1], o[2], o[3]);
        }
        else if (k == "lb") {
            LookupBlob(o[1], o[2], o[3]);
        }
        else if (k == "st") {
            StoreTree(o[1], o[2], o[3]);
        }
        else if (k == "lt") {
            LookupTree(o[1]);
        }
        else if (k == "split") {
            Split(o[1], o[2]);
        }
        else if (k == "splice") {
            Splice(o[1], o[2], o[3], o[4]);
        }
        else if (k == "sa") {
            StoreResult(o[1], o[2]);
        }
        else if (k == "la") {
            LookupResult(o[1]);
        }
        else if (k == "stc") {
            StoreTarget(o[1], o[2], o[3]);
        }
        else if (k == "ltc") {
            LookupTarget(o[1], o[2]);
        }
        else if (k == "tmp") {
            Tmp(o[1]);
        }
        else if (k == "chunk") {
            Chunk(o[1].get<std::uint64_t>(), o[2].get<std::size_t>());
        }
        else if (k == "sleep") {
            sim::SleepNs(o[1].get<std::uint64_t>() * 1000000ULL);
        }
    }
};

int BuildProc(json const& p) {
    int const pid = sim::CurPid();
    auto lock = GarbageCollector::SharedLock(*W->cfg);
    if (not lock) {
        sim::Quiet q;
        if (sim::FaultsIn(pid) == 0) {
            Violation("C16", "shared lock refused without any fault:");
        }
        return 1;
    }
    {
        sim::Quiet q;
        W->holders[pid] = 1;
    }
    std::vector<std::pair<std::string, std::string>> found;
    {
        auto storage = Storage::Create(W->cfg.get());
        std::vector<std::thread> ts;
        for (auto const& t : p["tops"]) {
            ts.emplace_back([&]() {
                Builder b{storage, pid, &found};
                for (auto const& o : t["ops"]) {
                    b.Op(o);
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    {
        sim::Quiet q;
        for (auto const& [f, h] : found) {
            auto i = Parse(f);
            if (sim::vfs::Peek(f) == nullptr and
                (not i.valid or
                 not PresentIn(i.base, h, i.store == "cast"))) {
                Violation("C16", "object moved during a build: " + f);
            }
        }
        W->holders[pid] = 0;
    }
    return 0;
}

int GcProc(json const& p, bool alone) {
    int const pid = sim::CurPid();
    int const mode = p["mode"];
    int call = 0;
    int f0 = 0;
    {
        sim::Quiet q;
        static int calls = 0;
        call = ++calls;
        W->gc_call[pid] = call;
        f0 = sim::FaultsIn(pid);
        if (mode == 2) {
            // everything may be dropped from now on
            W->promised.clear();
        }
    }
    bool const ok = GarbageCollector::TriggerGarbageCollection(
        *W->cfg, /*no_rotation=*/mode == 1, /*gc_all=*/mode == 2);
    sim::Quiet q;
    sim::Probe(ok ? "gc_ok" : "gc_failed");
    bool const clean = sim::FaultsIn(pid) == f0;
    char const* const prop = sim::Checking("C17")   ? "C17"
                             : sim::Checking("C16") ? "C16"
                             : sim::Checking("C18") ? "C18"
                                                    : "C15";
    if (not ok and clean) {
        Violation(prop, "collection failed without any fault:");
    }
    if (ok and alone and clean) {
        for (auto const& e : sim::vfs::List(kRoot)) {
            auto const n = e.path.substr(e.path.rfind('/') + 1);
            if (n != "gc.lock" and n.compare(0, 11, "generation-") != 0) {
                Violation(prop, "collection left behind: " + e.path);
            }
            if (mode == 2 and n != "gc.lock") {
                Violation(prop, "full collection left behind: " + e.path);
            }
        }
        // leftovers of killed builds
        if (sim::vfs::Lstat(GenDir(0) + "/ephemeral").kind !=
            sim::vfs::Kind::None) {
            Violation(prop, "ephemeral data left behind:");
        }
    }
    return ok ? 0 : 1;
}

std::map<std::string, std::string> Snapshot() {
    // everything obtainable in the youngest generation
    std::map<std::string, std::string> r;
    auto const base = ProtoDir(0);
    for (auto const* s :
         {"casf", "casx", "cast", "cas-large-f", "cas-large-t"}) {
        for (auto const& d : sim::vfs::List(base + "/" + s)) {
            for (auto const& e : sim::vfs::List(d.path)) {
                auto p = Parse(e.path);
                if (not p.valid) {
                    continue;
                }
                bool const tree = std::strcmp(s, "cast") == 0 or
                                  std::strcmp(s, "cas-large-t") == 0;
                auto c = ContentIn(base, p.hash, tree);
                if (c) {
                    r[(tree ? "t:" : "b:") + p.hash] =
                        RefHash(*c, tree) == p.hash ? "" : "bad";
                }
            }
        }
    }
    return r;
}
void CheckCompacted(std::size_t threshold) {
    auto const base = ProtoDir(0);
    Obj tmp;
    for (auto const* s : {"casf", "casx", "cast"}) {
        for (auto const& d : sim::vfs::List(base + "/" + s)) {
            auto const dn = d.path.substr(d.path.rfind('/') + 1);
            if (dn.size() != 2 or not IsHex(dn)) {
                Violation("C18", "invalid directory left: " + d.path);
            }
            for (auto const& e : sim::vfs::List(d.path)) {
                auto p = Parse(e.path);
                if (not p.valid) {
                    Violation("C18", "invalid entry left: " + e.path);
                    continue;
                }
                bool const tree = std::strcmp(s, "cast") == 0;
                if (Get(base, LargeStore(tree), p.hash) != nullptr) {
                    Violation("C18", "spliced object left: " + e.path);
                }
                auto const* c = sim::vfs::Peek(e.path);
                if (c != nullptr and c->size() >= threshold) {
                    sim::vfs::Write("/w/cmp", *c);
                    FileChunker ch{"/w/cmp"};
                    auto first = ch.NextChunk();
                    if (first and first->size() < c->size()) {
                        Violation("C18", "large object left: " + e.path);
                    }
                }
            }
        }
    }
}
void CheckObtainable(std::map<std::string, std::string> const& before,
                     std::string const& when) {
    auto const after = Snapshot();
    for (auto const& [k, v] : before) {
        auto it = after.find(k);
        if (it == after.end()) {
            Violation("C18", "object lost " + when + ": " + k);
        }
        else if (it->second != v) {
            Violation("C18", "object changed " + when + ": " + k);
        }
    }
}
int CompactProc(json const& p) {
    int const pid = sim::CurPid();
    std::size_t const thr = p["thr"];
    std::map<std::string, std::string> before;
    int f0 = 0;
    {
        sim::Quiet q;
        W->compact_pids.insert(pid);
        before = Snapshot();
        f0 = sim::FaultsIn(pid);
    }
    auto const st = ::Generation::Create(W->cfg.get());
    bool const ok = Compactifier::RemoveInvalid(st.CAS()) and
                    Compactifier::RemoveSpliced(st.CAS()) and
                    Compactifier::SplitLarge(st.CAS(), thr);
    sim::Quiet q;
    sim::Probe(ok ? "compact_ok" : "compact_failed");
    if (ok) {
        CheckCompacted(thr);
    }
    else if (sim::FaultsIn(pid) == f0) {
        Violation("C18", "compactification failed without any fault:");
    }
    CheckObtainable(before, "by compactification");
    return ok ? 0 : 1;
}

// ------------------------------------------------------------------ generator
void Gen(RunCtx& c, Rng& r) {
    auto const& P = c.prop;
    json w;
    bool const native = r.Chance(P == "C12" ? 1.0 : 0.7);
    w["native"] = native;
    w["gens"] = P == "C17"                  ? r.Range(2, 3)
                : P == "C15"                ? r.Range(1, 3)
                : P == "C18" or P == "C19" ? r.Range(1, 2)
                                            : r.Range(2, 3);
    bool const large_focus = P == "C18" or P == "C19";
    bool const uplink = P != "C15" and P != "C16" and P != "C17" and
                        P != "C18" and r.Chance(0.35);
    json blobs = json::array();
    auto nb = r.Range(2, 5);
    int big = 0;
    for (int i = 0; i < nb; ++i) {
        json b{{"id", i}};
        if (big < 2 and r.Chance(large_focus ? 0.5 : uplink ? 0.35 : 0.12)) {
            json segs = json::array();
            auto ns = r.Range(2, 3);
            for (int k = 0; k < ns; ++k) {
                segs.push_back(r.Range(0, 3));
            }
            b["segs"] = segs;
            ++big;
        }
        else {
            b["size"] = r.Chance(0.15) ? 0
                        : r.Chance(0.7) ? r.Range(1, 60)
                                        : r.Range(100, 20000);
        }
        blobs.push_back(b);
    }
    if (P == "C18" and r.Chance(0.04)) {
        blobs.push_back({{"id", nb}, {"huge", true}});
        ++nb;
    }
    w["blobs"] = blobs;
    json trees = json::array();
    auto nt = r.Range(P == "C12" ? 2 : 0, P == "C12" ? 5 : 3);
    bool large_tree = false;
    for (int i = 0; i < nt; ++i) {
        json t;
        json ents = json::array();
        // (without entries, the compatible tree would be the empty blob)
        auto ne = r.Range(i == 0 or not native ? 1 : 0, 4);
        for (int k = 0; k < ne; ++k) {
            bool const sub = i > 0 and r.Chance(0.5);
            char const* const ty[] = {"f", "x", "l"};
            ents.push_back({"e" + std::to_string(r.Range(0, 9)),
                            sub ? "t" : ty[r.Below(3)],
                            sub ? r.Range(0, i - 1) : r.Range(0, nb - 1)});
        }
        t["ents"] = ents;
        if (not large_tree and ne > 0 and
            r.Chance(large_focus  ? 0.3 : P == "C12" ? 0.12 : 0.01)) {
            // entries are checked one by one: do not splice for each of them
            std::vector<int> small{};
            for (int b = 0; b < nb; ++b) {
                if (not w["blobs"][static_cast<unsigned>(b)].contains("segs")) {
                    small.push_back(b);
                }
            }
            if (not small.empty()) {
                t["large"] = true;
                t["lb"] = small[r.Below(small.size())];
                t["seed"] = r.Range(0, 1000);
            }
            large_tree = true;
        }
        trees.push_back(t);
    }
    w["trees"] = trees;
    json acts = json::array();
    auto na = P == "C13"                  ? r.Range(1, 3)
              : P == "C12" or P == "C19" ? 0
                                          : r.Range(0, 2);
    for (int i = 0; i < na; ++i) {
        json vars = json::array();
        auto nv = r.Range(1, 2);
        for (int v = 0; v < nv; ++v) {
            json files = json::array();
            json links = json::array();
            json dirs = json::array();
            for (int k = r.Range(0, 3); k > 0; --k) {
                files.push_back({r.Range(0, nb - 1), r.Chance(0.4)});
            }
            for (int k = r.Range(0, 2); k > 0; --k) {
                links.push_back(r.Range(0, 5));
            }
            for (int k = nt > 0 ? r.Range(0, 2) : 0; k > 0; --k) {
                dirs.push_back(r.Range(0, nt - 1));
            }
            vars.push_back(
                {{"files", files}, {"links", links}, {"dirs", dirs}});
        }
        acts.push_back({{"vars", vars}});
    }
    w["acts"] = acts;
    json tcs = json::array();
    auto nc = P == "C14"                              ? r.Range(1, 4)
              : P == "C15" or P == "C17" or P == "C11" ? r.Range(0, 2)
                                                        : 0;
    for (int i = 0; i < nc; ++i) {
        json arts = json::array();
        for (int k = r.Range(0, 4); k > 0; --k) {
            if (nt > 0 and r.Chance(0.4)) {
                arts.push_back({"t", r.Range(0, nt - 1)});
            }
            else {
                arts.push_back({r.Chance(0.3) ? "x" : "f",
                                r.Range(0, nb - 1)});
            }
        }
        json impl = json::array();
        for (int k = 0; k < i; ++k) {
            if (r.Chance(0.4)) {
                impl.push_back(k);
            }
        }
        tcs.push_back({{"arts", arts}, {"implied", impl}});
    }
    w["tcs"] = tcs;

    auto op = [&](bool lookups) -> json {
        for (;;) {
            auto const k = r.Below(100);
            if (k < 22 and not lookups) {
                return {"sb", r.Range(0, nb - 1), r.Chance(0.35),
                        r.Range(0, 2)};
            }
            if (k < 40) {
                return {"lb", r.Range(0, nb - 1), r.Chance(0.35),
                        r.Chance(0.15)};
            }
            if (k < 55 and nt > 0 and not lookups) {
                return {"st", r.Range(0, nt - 1), r.Range(0, 2),
                        r.Chance(0.75)};
            }
            if (k < 63 and nt > 0) {
                return {"lt", r.Range(0, nt - 1)};
            }
            if (k < 72 and na > 0 and not lookups) {
                return {"sa", r.Range(0, na - 1), r.Range(0, 1)};
            }
            if (k < 80 and na > 0) {
                return {"la", r.Range(0, na - 1)};
            }
            if (k < 86 and nc > 0 and not lookups) {
                return {"stc", r.Range(0, nc - 1), r.Range(0, 2),
                        r.Chance(0.15)};
            }
            if (k < 90 and nc > 0) {
                return {"ltc", r.Range(0, nc - 1), r.Range(0, 2)};
            }
            if (k < 93 and not lookups) {
                bool const t = nt > 0 and r.Chance(0.4);
                return {"split", r.Range(0, (t ? nt : nb) - 1), t};
            }
            if (k < 97 and not lookups) {
                bool const t = nt > 0 and r.Chance(0.4);
                return {"splice", r.Range(0, (t ? nt : nb) - 1), t,
                        r.Chance(0.3), r.Chance(0.5) ? 0 : r.Range(1, 4)};
            }
            if (k < 98) {
                return {"tmp", r.Range(1, 50)};
            }
            return {"sleep", r.Range(1, 50)};
        }
    };
    auto focus_op = [&](bool lookups) -> json {
        if (large_focus and r.Chance(0.5) and not lookups) {
            bool const t = nt > 0 and r.Chance(0.3);
            auto const i = r.Range(0, (t ? nt : nb) - 1);
            if (r.Chance(0.6)) {
                return {"split", i, t};
            }
            return {"splice", i, t, r.Chance(0.3),
                    r.Chance(0.5) ? 0 : r.Range(1, 4)};
        }
        if (P == "C13" and r.Chance(0.4)) {
            if (lookups or r.Chance(0.6)) {
                return {"la", r.Range(0, na - 1)};
            }
            return {"sa", r.Range(0, na - 1), r.Range(0, 1)};
        }
        if (P == "C14" and r.Chance(0.5)) {
            if (lookups or r.Chance(0.5)) {
                return {"ltc", r.Range(0, nc - 1), r.Range(0, 2)};
            }
            return {"stc", r.Range(0, nc - 1), r.Range(0, 2), r.Chance(0.15)};
        }
        if (P == "C12" and r.Chance(0.4)) {
            if (lookups or r.Chance(0.5)) {
                return {"lt", r.Range(0, nt - 1)};
            }
            return {"st", r.Range(0, nt - 1), r.Range(0, 2), r.Chance(0.6)};
        }
        return op(lookups);
    };
    auto build = [&](int maxt, int maxo, bool lookups, bool faults) -> json {
        json ts = json::array();
        auto n = r.Range(1, maxt);
        for (int t = 0; t < n; ++t) {
            json ops = json::array();
            auto m = r.Range(1, maxo);
            for (int i = 0; i < m; ++i) {
                ops.push_back(focus_op(lookups));
            }
            ts.push_back({{"ops", ops}});
        }
        return {{"kind", "build"}, {"tops", ts}, {"faults", faults}};
    };
    auto gc = [&](int mode, bool faults) -> json {
        return {{"kind", "gc"}, {"mode", mode}, {"faults", faults}};
    };
    auto compact = [&](bool faults) -> json {
        return {{"kind", "compact"},
                {"thr", r.Chance(0.7) ? r.Range(1, 70000) : r.Range(1, 300)},
                {"faults", faults}};
    };
    json phases = json::array();
    auto phase = [&](std::vector<json> v) {
        json ops = json::array();
        for (auto& x : v) {
            ops.push_back(std::move(x));
        }
        phases.push_back({{"ops", ops}});
    };
    if (P == "C15") {
        auto n = r.Range(2, 5);
        for (int i = 0; i < n; ++i) {
            phase({build(2, 6, i > 0 and r.Chance(0.5), false)});
            if (r.Chance(0.2)) {
                phase({build(2, 4, true, false), gc(0, false)});
            }
            else {
                auto k = r.Chance(0.2) ? 2 : 1;
                for (int j = 0; j < k; ++j) {
                    auto const m = r.Below(20);
                    phase({gc(m == 0 ? 2 : m < 4 ? 1 : 0, false)});
                }
            }
        }
        phase({build(1, 5, true, false)});
    }
    else if (P == "C16") {
        phase({build(2, 4, false, false)});
        auto n = r.Range(1, 2);
        for (int i = 0; i < n; ++i) {
            std::vector<json> v;
            for (int k = r.Range(1, 3); k > 0; --k) {
                v.push_back(build(2, 4, r.Chance(0.5), true));
            }
            for (int k = r.Range(1, 2); k > 0; --k) {
                auto const m = r.Below(8);
                v.push_back(gc(m == 0 ? 2 : m < 2 ? 1 : 0, r.Chance(0.5)));
            }
            phase(std::move(v));
        }
        phase({gc(0, false)});
    }
    else if (P == "C17") {
        auto n = r.Range(1, 3);
        for (int i = 0; i < n; ++i) {
            phase({build(1, 6, i > 0 and r.Chance(0.5), false)});
            auto k = r.Chance(0.25) ? 2 : 1;
            for (int j = 0; j < k; ++j) {
                phase({gc(r.Chance(0.2) ? 1 : 0, true)});
            }
            if (r.Chance(0.4)) {
                phase({build(1, 4, true, false)});
            }
        }
        phase({gc(0, false)});
        phase({build(1, 4, true, false)});
    }
    else if (P == "C18") {
        phase({build(2, 6, false, false)});
        if (r.Chance(0.3)) {
            phase({gc(0, false)});
            phase({build(1, 5, r.Chance(0.5), false)});
        }
        w["junk"] = r.Range(0, 3);
        auto n = r.Range(1, 3);
        for (int i = 0; i < n; ++i) {
            phase({r.Chance(0.8) ? compact(r.Chance(0.6))
                                 : gc(1, r.Chance(0.5))});
            if (r.Chance(0.5)) {
                phase({build(1, 4, r.Chance(0.7), false)});
            }
        }
        phase({compact(false)});
        phase({build(1, 5, true, false)});
    }
    else if (uplink) {
        // carrying objects over under faults
        phase({build(2, 6, false, false)});
        if (r.Chance(0.5)) {
            phase({compact(false)});
        }
        phase({gc(0, false)});
        std::vector<json> v;
        for (int k = r.Chance(0.8) ? 1 : 2; k > 0; --k) {
            v.push_back(build(2, 4, r.Chance(0.7), true));
        }
        phase(std::move(v));
        phase({build(1, 5, true, false)});
    }
    else {
        // concurrent builds with faults, collections in between
        auto n = r.Range(1, 3);
        for (int i = 0; i < n; ++i) {
            std::vector<json> v;
            for (int k = r.Chance(0.5) ? 1 : r.Range(1, 3); k > 0; --k) {
                v.push_back(build(3, 6, false, r.Chance(0.75)));
            }
            phase(std::move(v));
            if (i + 1 < n or r.Chance(0.3)) {
                if (r.Chance(0.8)) {
                    phase({gc(0, false)});
                }
                else {
                    phase({compact(r.Chance(0.5))});
                }
            }
        }
        phase({build(1, 5, true, false)});
    }
    if (P == "C19" and r.Chance(0.03)) {
        json o{"chunk", r.Below(1000), r.Range(1000000, 5000000)};
        json ts{{{"ops", json::array({o})}}};
        phase({json{{"kind", "build"},
                    {"tops", ts},
                    {"faults", r.Chance(0.3)}}});
    }
    w["pops"] = phases;
    c.workload = w;
    c.max_steps = large_tree ? 400000000 : 60000000;
    auto& f = c.faults;
    if (P == "C15") {
        f.max_faults = 0;
        return;
    }
    f.max_faults = static_cast<int>(r.Range(uplink ? 1 : 0, 3));
    // faults early, in the middle or late
    if (r.Chance(0.5)) {
        f.skip = r.Below(1ULL << r.Range(4, 12));
    }
    double const lo = r.Chance(0.5) ? 0.002 : 0.01;
    auto on = [&](sim::Fault k, double p, double rate) {
        f.rate[k] = r.Chance(p) ? rate : 0;
    };
    on(sim::kCrash, 0.6, lo);
    on(sim::kTornCrash, 0.4, 0.05);
    on(sim::kKillChild, 0.3, 0.02);
    on(sim::kStall, 0.2, 0.005);
    if (P == "C16") {
        f.rate[sim::kEintr] = r.Chance(0.3) ? 0.1 : 0;
        return;
    }
    on(sim::kEnospc, 0.4, r.Chance(0.3) ? 0.2 : 0.03);
    on(sim::kEio, 0.4, lo * 2);
    on(sim::kShortWrite, 0.3, 0.1);
    on(sim::kShortRead, 0.3, 0.1);
    on(sim::kEintr, 0.3, 0.05);
    on(sim::kForkFail, 0.2, 0.1);
    on(sim::kEmlink, 0.2, 0.05);
    on(sim::kEmfile, 0.2, 0.01);
}

void Run(RunCtx const& c) {
    LogConfig::SetSinks({});
    sim::SetLiveness(c.prop, "processes using the store");
    auto const& w = c.workload;
    {
        sim::Quiet q;
        W = new World();
        BuildWorld(w);
        sim::vfs::MkDirs("/w");
        sim::vfs::MkDirs("/r");
        sim::vfs::MkDirs("/tmp");
        W->cfg = std::make_unique<StorageConfig>(
            *StorageConfig::Builder{}
                 .SetBuildRoot("/r")
                 .SetNumGenerations(W->gens)
                 .SetHashType(Hf().GetType())
                 .Build());
        for (int i = 0; i < 3; ++i) {
            (void)Shard(i);
        }
        sim::vfs::OnMutation("/r", Hook);
    }
    bool junked = false;
    int nph = 0;
    for (auto const& ph : w["pops"]) {
        std::vector<int> pids;
        bool compacting = false;
        std::map<std::string, std::string> before;
        for (auto const& p : ph["ops"]) {
            auto const kind = p["kind"].get<std::string>();
            bool const alone = ph["ops"].size() == 1;
            if (kind != "build") {
                sim::Quiet q;
                compacting = alone and (kind == "compact" or
                                        p.value("mode", 0) == 1);
                if (compacting) {
                    if (not junked and w.value("junk", 0) > 0) {
                        junked = true;
                        // entries with invalid names, as left by crashes
                        auto const d = ProtoDir(0) + "/casf/";
                        auto const es = sim::vfs::List(ProtoDir(0) + "/casf");
                        if (not es.empty()) {
                            sim::vfs::Write(es[0].path + "/abc.12-34", "x");
                        }
                        if (w["junk"].get<int>() > 1) {
                            sim::vfs::MkDirs(d + "zz");
                        }
                        if (w["junk"].get<int>() > 2) {
                            sim::vfs::Write(d + "xyz/k", "x");
                        }
                    }
                    before = Snapshot();
                }
            }
            int const pid = sim::Spawn(kind, [&p, kind, alone]() {
                if (kind == "build") {
                    return BuildProc(p);
                }
                return kind == "gc" ? GcProc(p, alone) : CompactProc(p);
            });
            sim::SetFaults(pid, p["faults"].get<bool>());
            pids.push_back(pid);
        }
        for (auto pid : pids) {
            int const st = sim::Wait(pid);
            sim::Quiet q;
            if (st != 0 and not sim::Crashed(pid) and (st & 0x7f) != 0 and
                (st & 0x7f) != 9) {
                Violation(c.prop,
                          "process ended by signal " +
                              std::to_string(st & 0x7f));
            }
            W->holders.erase(pid);
            W->gc_call.erase(pid);
            W->compact_pids.erase(pid);
        }
        sim::Quiet q;
        auto const when = "after phase " + std::to_string(nph++);
        if (compacting) {
            CheckObtainable(before, "by interrupted compactification");
        }
        for (std::size_t g = 0; g < W->gens; ++g) {
            ScanGen(static_cast<int>(g));
        }
        if (sim::Checking("C10")) {
            for (auto const& e : sim::vfs::Walk(kRoot)) {
                auto p = Parse(e.path);
                if (p.valid and IsCas(p.store)) {
                    CheckObject(p, e.path, "scan");
                }
            }
        }
        CheckRetention(when);
        if (c.prop == "C15") {
            CheckGone();
        }
        sim::State(sim::vfs::HashTree("/r"));
    }
    // the exclusive parts of two collections never overlap
    sim::Quiet q;
    std::map<int, int> last;
    for (int i = 0; i < static_cast<int>(W->excl.size()); ++i) {
        auto const call = W->excl[static_cast<unsigned>(i)].first;
        auto it = last.find(call);
        if (it != last.end() and it->second != i - 1) {
            Violation("C16", "two collections at once:");
        }
        last[call] = i;
    }
}

void Init() {
    // 64 characters after which the chunker ends a chunk
    FileChunker::Initialize();
    std::mt19937_64 gen(0);
    std::uint64_t gear[256];
    for (auto& g : gear) {
        g = gen();
    }
    auto const text = Filler(99, 4000000);
    std::uint64_t fp = 0;
    for (std::size_t i = 0; i < text.size(); ++i) {
        fp = (fp << 1U) + gear[static_cast<unsigned char>(text[i])];
        if (i > 64 and (fp & 0x4444d9f003530000ULL) == 0) {
            g_mark = text.substr(i - 63, 64);
            break;
        }
    }
    (void)GitContext::Create();
}
sim::HarnessDef const kDef{"store",
                           {"C10",
                            "C11",
                            "C12",
                            "C13",
                            "C14",
                            "C15",
                            "C16",
                            "C17",
                            "C18",
                            "C19"},
                           Gen,
                           Run,
                           Init};
}  // namespace
sim::HarnessDef const& sim::GetHarness() { return kDef; }
