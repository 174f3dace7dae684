#!/usr/bin/env python3
"""Builds the simulator and the harness binaries from /repo's current working
tree. Incremental by content hash (no time stamps): an object is reused iff the
command line and the contents of every file the compiler read are unchanged.

usage: build.py [harness...]   (default: all)
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSIM_REPO", "/repo")
OUT = os.environ.get("DSIM_OUT", VERIF + "/build")
JOBS = int(os.environ.get("JOBS", "8"))

_hash = {}
_hlock = threading.Lock()


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "absent"
        with _hlock:
            _hash[path] = h
    return h


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def read(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return f.read()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or read(path) != text:
        with open(path, "w") as f:
            f.write(text)


PKG = {}


def pkg(kind, names):
    k = (kind, tuple(names))
    if k not in PKG:
        r = subprocess.run(["pkg-config", kind] + list(names), text=True,
                           stdout=subprocess.PIPE)
        PKG[k] = r.stdout.split()
    return PKG[k]


def base_flags():
    return ["-std=c++20", "-O1", "-g1", "-w", "-pthread", "-fPIC",
            "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
            "-fno-stack-protector", "-fcf-protection=none",
            f"-I{REPO}", f"-I{VERIF}", f"-I{OUT}/gen", f"-I{VERIF}/stubs"
            ] + pkg("--cflags", ["libgit2", "libarchive", "libcurl"])


INSTR = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1",
         "--param", "tsan-instrument-func-entry-exit=0",
         # protobuf lays out maps differently when it sees the sanitizer
         "-U__SANITIZE_THREAD__", "-D_GLIBCXX_TSAN=1"]


def compile_one(src, obj, flags):
    """returns (ok, message, rebuilt)"""
    cmd = ["g++"] + flags + ["-c", src, "-o", obj]
    man = obj + ".man"
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["key"] == key and all(
                    fhash(p) == h for p, h in m["deps"].items()):
                return True, "", False
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    rc, out = sh(cmd + ["-MD", "-MF", dep])
    if rc != 0:
        if os.path.exists(man):
            os.unlink(man)
        return False, " ".join(cmd) + "\n" + out[-6000:], True
    txt = read(dep).replace("\\\n", " ")
    names = txt.split(":", 1)[1].split()
    deps = {}
    for n in names:
        n = os.path.normpath(os.path.join(os.getcwd(), n))
        # the toolchain does not change between runs
        if n.startswith(("/usr/include/c++", "/usr/lib/gcc")):
            continue
        deps[n] = fhash(n)
    with open(man, "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    os.unlink(dep)
    return True, "", True


INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*"(src/[^"]+)"', re.M)
_inc = {}


def includes(path):
    if path not in _inc:
        try:
            _inc[path] = INC.findall(read(path))
        except OSError:
            _inc[path] = []
    return _inc[path]


def closure(src, skip):
    """source files of /repo needed by src: every header reached that has an
    implementation file beside it brings that file in"""
    todo = [src]
    seen = set()
    cpps = []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for i in includes(p):
            if any(i.startswith(s) for s in skip):
                continue
            todo.append(os.path.join(REPO, i))
        if p.startswith(REPO) and p.endswith(".hpp"):
            c = p[:-4] + ".cpp"
            rel = os.path.relpath(c, REPO)
            if os.path.exists(c) and not any(rel.startswith(s) for s in skip):
                if rel not in cpps:
                    cpps.append(rel)
                todo.append(c)
        for e in (".tpp",):
            pass
    return sorted(cpps)


PROTO_DIR = VERIF + "/proto"


def gen_protos():
    """message classes from the hand-written subset of the REAPI protocol"""
    protos = []
    for root, _, files in os.walk(PROTO_DIR):
        for f in sorted(files):
            if f.endswith(".proto"):
                protos.append(os.path.relpath(os.path.join(root, f),
                                              PROTO_DIR))
    protos.sort()
    # the protocol of `just serve` as it is in the repository
    own = REPO + "/src/buildtool/serve_api/serve_service/just_serve.proto"
    if os.path.exists(own):
        protos.append("justbuild/just_serve/just_serve.proto")

    def where(p):
        return own if p.startswith("justbuild/") else PROTO_DIR + "/" + p
    if not protos:
        return []
    stamp = OUT + "/gen/.stamp"
    want = json.dumps([3, {p: fhash(where(p)) for p in protos}])
    outs = [OUT + "/gen/" + p[:-6] + ".pb.cc" for p in protos]
    if not (os.path.exists(stamp) and read(stamp) == want
            and all(os.path.exists(o) for o in outs)):
        os.makedirs(OUT + "/gen", exist_ok=True)
        for p in protos:
            d = OUT + "/protosrc/" + p
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "w") as f:
                f.write(read(where(p)))
        rc, out = sh(["protoc", "-I" + OUT + "/protosrc",
                      "--cpp_out=" + OUT + "/gen"] + protos)
        if rc != 0:
            raise SystemExit("protoc failed:\n" + out)
        for p in protos:
            grpc_header(p)
        with open(stamp, "w") as f:
            f.write(want)
    return outs


def grpc_header(p):
    """service classes over the simulated network (stubs/grpcpp)"""
    t = re.sub(r"//[^\n]*", "", read(OUT + "/protosrc/" + p))
    t = re.sub(r"(rpc[^;{}]*)\{\s*\}", r"\1;", t)
    svcs = re.findall(r"service\s+(\w+)\s*\{(.*?)\}", t, re.S)
    if not svcs:
        return
    ns = re.search(r"package\s+([\w.]+)", t).group(1).replace(".", "::")

    def ty(x):
        return "::" + x.replace(".", "::") if "." in x else "::" + ns + "::" + x
    o = ["#pragma once", "#include <grpcpp/grpcpp.h>",
         '#include "' + p[:-6] + '.pb.h"', "namespace " + ns + " {"]
    for name, body in svcs:
        rpcs = re.findall(r"rpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*"
                          r"returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)", body)
        st, sv, hd = [], [], []
        for m, cs, rq, ss, rs in rpcs:
            rq, rs = ty(rq), ty(rs)
            full = f"{name}.{m}"
            if cs:
                st.append(f"""    std::unique_ptr<grpc::ClientWriter<{rq}>> {m}(grpc::ClientContext*, {rs}* rs) {{
        return std::make_unique<grpc::ClientWriter<{rq}>>(grpc::fake::TheNet()->Start(a_, "{full}", true),
            [rs](std::string const& s) {{ return rs->ParseFromString(s); }});
    }}""")
                sv.append(f"virtual grpc::Status {m}(grpc::ServerContext*, grpc::ServerReader<{rq}>*, {rs}*) {{ return {{grpc::StatusCode::UNIMPLEMENTED, \"\"}}; }}")
                hd.append(f"""(*h)["{full}"] = [this](grpc::fake::Call& c) {{
            grpc::ServerContext ctx; grpc::ServerReader<{rq}> r{{&c}}; {rs} rs;
            auto st = {m}(&ctx, &r, &rs);
            if (st.ok()) {{ grpc::fake::TheNet()->ServerSend(c, rs.SerializeAsString()); }}
            return st; }};""")
            elif ss:
                st.append(f"""    std::unique_ptr<grpc::ClientReader<{rs}>> {m}(grpc::ClientContext*, {rq} const& rq) {{
        auto c = grpc::fake::TheNet()->Start(a_, "{full}", true);
        grpc::fake::TheNet()->ClientSend(*c, rq.SerializeAsString());
        grpc::fake::TheNet()->ClientDone(*c);
        return std::make_unique<grpc::ClientReader<{rs}>>(c);
    }}""")
                sv.append(f"virtual grpc::Status {m}(grpc::ServerContext*, {rq} const*, grpc::ServerWriter<{rs}>*) {{ return {{grpc::StatusCode::UNIMPLEMENTED, \"\"}}; }}")
                hd.append(f"""(*h)["{full}"] = [this](grpc::fake::Call& c) {{
            grpc::ServerContext ctx; grpc::ServerWriter<{rs}> w{{&c}}; {rq} rq; std::string s;
            if (not grpc::fake::TheNet()->ServerRecv(c, &s) or not rq.ParseFromString(s)) {{
                return grpc::Status{{grpc::StatusCode::INTERNAL, "bad request"}}; }}
            return {m}(&ctx, &rq, &w); }};""")
            else:
                st.append(f"""    grpc::Status {m}(grpc::ClientContext*, {rq} const& rq, {rs}* rs) {{
        return grpc::fake::UnaryCall(a_, "{full}", rq, rs);
    }}""")
                sv.append(f"virtual grpc::Status {m}(grpc::ServerContext*, {rq} const*, {rs}*) {{ return {{grpc::StatusCode::UNIMPLEMENTED, \"\"}}; }}")
                hd.append(f"""(*h)["{full}"] = [this](grpc::fake::Call& c) {{
            grpc::ServerContext ctx; {rq} rq; {rs} rs; std::string s;
            if (not grpc::fake::TheNet()->ServerRecv(c, &s) or not rq.ParseFromString(s)) {{
                return grpc::Status{{grpc::StatusCode::INTERNAL, "bad request"}}; }}
            auto st = {m}(&ctx, &rq, &rs);
            if (st.ok()) {{ grpc::fake::TheNet()->ServerSend(c, rs.SerializeAsString()); }}
            return st; }};""")
        o.append(f"class {name} {{ public:")
        o.append("  class StubInterface {};\n  class Stub { public:\n    explicit Stub("
                 "std::string a) : a_{std::move(a)} {}")
        o += st
        o.append("   private: std::string a_;\n  };")
        o.append("  static std::unique_ptr<Stub> NewStub(std::shared_ptr<"
                 "grpc::ChannelInterface> const& c) { return "
                 "std::make_unique<Stub>(c->addr); }")
        o.append("  class Service : public grpc::fake::Service { public:")
        o += ["    " + x for x in sv]
        o.append("    void AddHandlers(std::map<std::string, grpc::fake::"
                 "Handler>* h) override {")
        o += ["        " + x for x in hd]
        o.append("    }\n  };\n};")
    o.append("}  // namespace " + ns)
    with open(OUT + "/gen/" + p[:-6] + ".grpc.pb.h", "w") as f:
        f.write("\n".join(o) + "\n")


def load_config():
    return json.load(open(VERIF + "/harness/config.json"))


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(OUT + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(names, verbose=False):
    """returns (ok, message, info per harness)"""
    with Lock():
        return _build(names, verbose)


def _build(names, verbose):
    cfg = load_config()
    base = base_flags()
    jobs = {}  # obj -> (src, flags)

    dsim_objs = []
    for f in sorted(os.listdir(VERIF + "/dsim")):
        if f.endswith(".cpp"):
            o = f"{OUT}/dsim/{f[:-4]}.o"
            jobs[o] = (f"{VERIF}/dsim/{f}",
                       ["-std=c++20", "-O2", "-g1", "-w", "-fPIC", "-pthread",
                        "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                        f"-I{VERIF}"])
            dsim_objs.append(o)

    proto_objs = []
    gen = gen_protos()
    if any(cfg[n].get("proto") for n in names):
        for c in gen:
            o = c[:-3] + ".o"
            jobs[o] = (c, ["-std=c++20", "-O1", "-g1", "-w", "-fPIC",
                           "-U_FORTIFY_SOURCE", f"-I{OUT}/gen"])
            proto_objs.append(o)

    info = {}
    links = {}
    for n in names:
        c = cfg[n]
        defs = ["-D" + d for d in c.get("defines", [])]
        tag = c.get("variant", "full")
        hsrc = f"{VERIF}/harness/{c['src']}"
        skip = c.get("skip", [])
        cpps = closure(hsrc, skip)
        for e in c.get("extra", []):
            if e not in cpps and os.path.exists(f"{REPO}/{e}"):
                cpps.append(e)
                _inc.pop(e, None)
                for x in closure(f"{REPO}/{e}", skip):
                    if x not in cpps:
                        cpps.append(x)
        objs = []
        plain = c.get("plain", [])
        for s in cpps:
            instr = [] if any(s.startswith(p) for p in plain) else INSTR
            o = f"{OUT}/obj/{tag}{'' if instr else '-plain'}/{s[:-4]}.o"
            jobs[o] = (f"{REPO}/{s}", base + instr + defs)
            objs.append(o)
        ho = f"{OUT}/obj/harness/{n}.o"
        jobs[ho] = (hsrc, base + INSTR + defs)
        if c.get("proto"):
            objs += proto_objs
        links[n] = ([ho] + objs, c.get("libs", []))
        info[n] = {"repo_sources": cpps, "bin": f"{OUT}/bin/{n}"}

    fails = []
    rebuilt = 0
    # long compilations first
    order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][0])
                   if os.path.exists(kv[1][0]) else 0)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, o, f): o for o, (s, f) in order}
        for fu in concurrent.futures.as_completed(futs):
            ok, msg, re_ = fu.result()
            rebuilt += 1 if re_ else 0
            if not ok:
                fails.append(msg)
            elif re_ and verbose:
                print("compiled", futs[fu], flush=True)
    if fails:
        return False, "\n".join(fails[:3]), info

    os.makedirs(OUT + "/bin", exist_ok=True)
    so = OUT + "/bin/libdsim.so"
    map_ = VERIF + "/dsim/exports.map"

    def link(target, cmd, deps):
        key = hashlib.sha1(("\0".join(cmd) + "".join(
            fhash(d) for d in deps)).encode()).hexdigest()
        if os.path.exists(target) and os.path.exists(target + ".key") and \
                read(target + ".key") == key:
            return True, ""
        rc, out = sh(cmd)
        if rc != 0:
            return False, " ".join(cmd)[:2000] + "\n" + out[-6000:]
        with open(target + ".key", "w") as f:
            f.write(key)
        return True, ""

    for o in jobs:
        _hash.pop(o, None)
    ok, msg = link(so, ["g++", "-shared", "-o", so] + dsim_objs +
                   ["-Wl,--version-script=" + map_, "-ldl",
                    "-Wl,--unresolved-symbols=ignore-all"], dsim_objs + [map_])
    if not ok:
        return False, msg, info
    _hash.pop(so, None)

    def link_h(n):
        objs, libs = links[n]
        b = info[n]["bin"]
        return link(b, ["g++", "-o", b, "-rdynamic", "-Wl,--no-as-needed",
                        "-L" + OUT + "/bin", "-ldsim", "-Wl,--as-needed",
                        "-Wl,-rpath,$ORIGIN", "-Wl,-z,now"] + objs + libs +
                    ["-pthread"], objs + [so])

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for n, (ok, msg) in zip(names, ex.map(link_h, names)):
            if not ok:
                return False, f"link of {n} failed:\n{msg}", info
    return True, f"{rebuilt} of {len(jobs)} objects compiled", info


def main():
    names = sys.argv[1:] or sorted(load_config())
    ok, msg, _ = build(names, verbose=True)
    print(msg)
    sys.exit(0 if ok else 1)


if __name__ == "__main__":
    main()
