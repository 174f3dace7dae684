// In-memory file system, file descriptors, and the libc file API on top of it.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utime.h>

#include <algorithm>
#include <cstdlib>
#include <memory>
#include <unordered_map>

#include "rt.hpp"

namespace sim {

struct Inode;
using InodeP = std::shared_ptr<Inode>;
struct Inode {
    std::uint64_t ino = 0;
    unsigned mode = 0;  // including S_IF*
    int nlink = 0;
    int dev = 1;
    std::shared_ptr<std::string> data;  // file content (copy-on-write)
    std::string target;                 // symlink
    std::map<std::string, InodeP> kids;
    Inode* parent = nullptr;
    struct timespec mtime {};
    struct timespec ctime {};
    int writers = 0;
    bool special_null = false;
    // flock: holders
    std::vector<OpenFile*> lk_shared;
    OpenFile* lk_excl = nullptr;
    bool IsDir() const { return S_ISDIR(mode); }
    bool IsReg() const { return S_ISREG(mode); }
    bool IsLnk() const { return S_ISLNK(mode); }
};

struct Pipe {
    std::string buf;
    int readers = 0;
    int writers = 0;
};

struct OpenFile {
    InodeP ino;
    std::shared_ptr<Pipe> pipe;
    bool pipe_w = false;
    std::uint64_t off = 0;
    int flags = 0;
    std::string path;
    bool Writable() const {
        return (flags & O_ACCMODE) == O_WRONLY or (flags & O_ACCMODE) == O_RDWR;
    }
    OpenFile(InodeP i, int fl, std::string p)
        : ino{std::move(i)}, flags{fl}, path{std::move(p)} {
        if (ino and ino->IsReg() and Writable()) {
            ++ino->writers;
        }
    }
    OpenFile(OpenFile const&) = delete;
    void DropLock() {
        if (not ino) {
            return;
        }
        if (ino->lk_excl == this) {
            ino->lk_excl = nullptr;
        }
        auto& v = ino->lk_shared;
        v.erase(std::remove(v.begin(), v.end(), this), v.end());
        Wake(&ino->lk_excl);
    }
    ~OpenFile() {
        if (ino) {
            if (ino->IsReg() and Writable()) {
                --ino->writers;
            }
            DropLock();
        }
        if (pipe) {
            --(pipe_w ? pipe->writers : pipe->readers);
            Wake(pipe.get());
        }
    }
};

ProgramFn const* FindProgram(std::string const& path);

namespace {
InodeP g_root;
std::uint64_t g_ino = 100;
std::uint64_t g_ops = 0;
constexpr int kFdBase = 3000;
int g_link_max = 0;
std::vector<std::pair<std::string, vfs::Hook>> g_hooks;
int g_hook_depth = 0;
constexpr unsigned kUid = 1000;
bool g_full = false;  // persistent disk-full window
std::uint64_t g_full_until = 0;

struct timespec NowTs() {
    struct timespec t {};
    t.tv_sec = static_cast<time_t>(g_now / 1000000000ULL);
    t.tv_nsec = static_cast<long>(g_now % 1000000000ULL);
    return t;
}

InodeP MkInode(unsigned mode) {
    auto i = std::make_shared<Inode>();
    i->ino = ++g_ino;
    i->mode = mode;
    i->mtime = NowTs();
    i->ctime = i->mtime;
    if (S_ISREG(mode)) {
        i->data = std::make_shared<std::string>();
    }
    return i;
}
void Attach(Inode* dir, std::string const& name, InodeP const& n) {
    dir->kids[name] = n;
    ++n->nlink;
    if (n->IsDir()) {
        n->parent = dir;
    }
    dir->mtime = NowTs();
}
void Detach(Inode* dir, std::string const& name) {
    auto it = dir->kids.find(name);
    if (it != dir->kids.end()) {
        --it->second->nlink;
        it->second->ctime = NowTs();
        dir->kids.erase(it);
        dir->mtime = NowTs();
    }
}

std::vector<std::string> Split(std::string const& p) {
    std::vector<std::string> r;
    std::size_t i = 0;
    while (i < p.size()) {
        auto j = p.find('/', i);
        if (j == std::string::npos) {
            j = p.size();
        }
        if (j > i) {
            r.push_back(p.substr(i, j - i));
        }
        i = j + 1;
    }
    return r;
}
std::string Cwd() { return g_cur != nullptr ? g_cur->proc->cwd : "/"; }

struct Res {
    int err = 0;
    Inode* dir = nullptr;   // parent directory
    std::string name;       // last component ("" if root or dot)
    InodeP node;            // may be null if not existing
    std::string path;       // canonical absolute path
};

bool MayAccess(Inode const* i, int want) {  // want: r=4 w=2 x=1
    return ((i->mode >> 6U) & static_cast<unsigned>(want)) ==
           static_cast<unsigned>(want);
}

Res Resolve(std::string const& p,
            bool follow,
            std::string const& base = "",
            int depth = 0) {
    Res r;
    if (p.empty()) {
        r.err = ENOENT;
        return r;
    }
    if (depth > 40) {
        r.err = ELOOP;
        return r;
    }
    std::string full =
        p[0] == '/' ? p : (base.empty() ? Cwd() : base) + "/" + p;
    bool const want_dir = p.back() == '/';
    auto comps = Split(full);
    std::vector<std::pair<Inode*, std::string>> st;  // ancestors
    InodeP cur = g_root;
    std::string path;
    Inode* dir = g_root.get();
    std::string name;
    for (std::size_t k = 0; k < comps.size(); ++k) {
        auto const& c = comps[k];
        bool const last = k + 1 == comps.size();
        if (not cur) {
            r.err = ENOENT;
            return r;
        }
        if (not cur->IsDir()) {
            r.err = ENOTDIR;
            return r;
        }
        if (c == ".") {
            if (last) {
                name = "";
            }
            continue;
        }
        if (c == "..") {
            if (not st.empty()) {
                path.resize(path.rfind('/'));
                st.pop_back();
                Inode* d = g_root.get();
                InodeP n = g_root;
                for (auto const& x : Split(path)) {
                    d = n.get();
                    n = n->kids[x];
                }
                dir = d;
                cur = n;
                name = path.empty() ? "" : path.substr(path.rfind('/') + 1);
            }
            continue;
        }
        if (c.size() > 255) {
            r.err = ENAMETOOLONG;
            return r;
        }
        if (not MayAccess(cur.get(), 1)) {
            r.err = EACCES;
            return r;
        }
        dir = cur.get();
        auto it = dir->kids.find(c);
        InodeP n = it == dir->kids.end() ? nullptr : it->second;
        if (n and n->IsLnk() and (not last or follow or want_dir)) {
            std::string rest;
            for (std::size_t m = k + 1; m < comps.size(); ++m) {
                rest += "/" + comps[m];
            }
            return Resolve(n->target + rest,
                           follow,
                           path.empty() ? "/" : path,
                           depth + 1);
        }
        st.emplace_back(dir, c);
        path += "/" + c;
        name = c;
        cur = n;
        if (not n and not last) {
            r.err = ENOENT;
            return r;
        }
    }
    if (want_dir and cur and not cur->IsDir()) {
        r.err = ENOTDIR;
        return r;
    }
    r.dir = dir;
    r.name = name;
    r.node = cur;
    r.path = path.empty() ? "/" : path;
    return r;
}

void Mutated(char const* op, std::string const& path) {
    if (g_hooks.empty() or g_hook_depth > 0) {
        return;
    }
    ++g_hook_depth;
    {
        Quiet q;
        for (auto const& [pre, h] : g_hooks) {
            if (path.compare(0, pre.size(), pre) == 0) {
                h(op, path);
            }
        }
    }
    --g_hook_depth;
}

void LogOp(char const* op, std::string const& path, long res) {
    std::uint64_t h = 1469598103934665603ULL;
    for (char const* c = op; *c != 0; ++c) {
        h = (h ^ static_cast<unsigned char>(*c)) * 0x100000001b3ULL;
    }
    for (char c : path) {
        h = (h ^ static_cast<unsigned char>(c)) * 0x100000001b3ULL;
    }
    Mix(h ^ (static_cast<std::uint64_t>(res) * 0x9e3779b97f4a7c15ULL));
    if (g_trace_verbose) {
        TraceLine(std::string{op} + " " + path + " = " + std::to_string(res) +
                  (res < 0 ? std::string{" "} + strerror(errno) : ""));
    }
}

// Entry to every simulated system call: scheduling point, crash faults.
void Enter(char const* op, std::string const& path) {
    ++g_ops;
    SysPoint();
    if (g_active and g_cur->proc->faults) {
        std::string const what = std::string{op} + " " + path;
        switch (NextFault({kCrash, kKillChild, kStall}, what)) {
            case kCrash:
                DieCurrent(9);
            case kKillChild:
                if (not g_cur->forks.empty() and
                    g_cur->forks.back().child == g_cur->proc->pid) {
                    DieCurrent(9);
                }
                break;
            case kStall:
                SleepNs(30ULL * 1000000000ULL);
                break;
            default:
                break;
        }
    }
}
int Fail(int e) {
    errno = e;
    return -1;
}
int FaultErr(std::initializer_list<Fault> kinds,
             char const* op,
             std::string const& path) {
    std::int64_t arg = 0;
    Fault const f =
        NextFault(kinds, std::string{op} + " " + path, &arg);
    switch (f) {
        case kEnospc:
            // with probability 1/2 the disk stays full for a while
            if ((arg & 1) != 0) {
                g_full_until = g_ops + 1 + static_cast<std::uint64_t>(arg % 30);
            }
            return ENOSPC;
        case kEio:
            return EIO;
        case kEmlink:
            return EMLINK;
        case kEmfile:
            return EMFILE;
        case kEacces:
            return EACCES;
        default:
            return 0;
    }
}
bool DiskFull() {
    if (not g_active or g_ops >= g_full_until or not g_cur->proc->faults) {
        return false;
    }
    CountFaultIn(g_cur->proc);
    return true;
}

int AllocFd(std::shared_ptr<OpenFile> of, bool cloexec, int min = kFdBase) {
    auto* p = g_cur->proc;
    int fd = min;
    for (auto it = p->fds.lower_bound(min); it != p->fds.end() and it->first == fd;
         ++it) {
        ++fd;
    }
    p->fds[fd] = std::move(of);
    p->cloexec[fd] = cloexec;
    return fd;
}
OpenFile* Fd(int fd) {
    auto& m = g_cur->proc->fds;
    auto it = m.find(fd);
    return it == m.end() ? nullptr : it->second.get();
}
bool SimFd(int fd) {
    return g_cur != nullptr and (fd >= kFdBase or Fd(fd) != nullptr);
}
std::string BaseOf(int dirfd) {
    if (dirfd == AT_FDCWD) {
        return "";
    }
    auto* of = Fd(dirfd);
    return of != nullptr ? of->path : "/nonexistent-dirfd";
}

void FillStat(Inode const* i, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_dev = static_cast<dev_t>(i->dev);
    st->st_ino = i->ino;
    st->st_mode = i->mode;
    st->st_nlink = static_cast<nlink_t>(
        i->IsDir() ? 2 : std::max(0, i->nlink));
    st->st_uid = kUid;
    st->st_gid = kUid;
    st->st_size = i->IsReg() ? static_cast<off_t>(i->data->size())
                  : i->IsLnk() ? static_cast<off_t>(i->target.size())
                               : 4096;
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim = i->mtime;
    st->st_atim = i->mtime;
    st->st_ctim = i->ctime;
}

int DevOf(Inode const* dir) { return dir->dev; }

// ------------------------------------------------------------ operations
int DoOpen(std::string const& path,
           int flags,
           mode_t mode,
           std::string const& base) {
    Enter("open", path);
    auto r = Resolve(path, (flags & O_NOFOLLOW) == 0 and
                               not((flags & O_CREAT) != 0 and
                                   (flags & O_EXCL) != 0),
                     base);
    if (r.err != 0) {
        int const rc = Fail(r.err);
        LogOp("open", path, rc);
        return rc;
    }
    if (int e = FaultErr({kEmfile, kEacces}, "open", r.path)) {
        return Fail(e);
    }
    if (not r.node) {
        if ((flags & O_CREAT) == 0) {
            int const rc = Fail(ENOENT);
            LogOp("open", r.path, rc);
            return rc;
        }
        if (not MayAccess(r.dir, 3)) {
            return Fail(EACCES);
        }
        if (r.dir->nlink == 0 and r.dir != g_root.get()) {
            return Fail(ENOENT);
        }
        if (DiskFull()) {
            return Fail(ENOSPC);
        }
        if (int e = FaultErr({kEnospc, kEio}, "create", r.path)) {
            return Fail(e);
        }
        auto n = MkInode(S_IFREG | (mode & 07777U & ~g_cur->proc->umask));
        n->dev = DevOf(r.dir);
        Attach(r.dir, r.name, n);
        r.node = n;
        auto of = std::make_shared<OpenFile>(n, flags, r.path);
        int const fd = AllocFd(of, (flags & O_CLOEXEC) != 0);
        LogOp("create", r.path, fd);
        Mutated("create", r.path);
        return fd;
    }
    if ((flags & O_CREAT) != 0 and (flags & O_EXCL) != 0) {
        int const rc = Fail(EEXIST);
        LogOp("open", r.path, rc);
        return rc;
    }
    if (r.node->IsLnk()) {
        return Fail(ELOOP);
    }
    int const acc = flags & O_ACCMODE;
    if (r.node->IsDir()) {
        if (acc != O_RDONLY) {
            return Fail(EISDIR);
        }
    }
    else if ((flags & O_DIRECTORY) != 0) {
        return Fail(ENOTDIR);
    }
    int const want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
    if (not MayAccess(r.node.get(), want)) {
        int const rc = Fail(EACCES);
        LogOp("open", r.path, rc);
        return rc;
    }
    if (int e = FaultErr({kEio}, "open", r.path)) {
        return Fail(e);
    }
    auto of = std::make_shared<OpenFile>(r.node, flags, r.path);
    int const fd = AllocFd(of, (flags & O_CLOEXEC) != 0);
    bool mut = false;
    if ((flags & O_TRUNC) != 0 and acc != O_RDONLY and r.node->IsReg() and
        not r.node->special_null) {
        r.node->data = std::make_shared<std::string>();
        r.node->mtime = NowTs();
        mut = true;
    }
    LogOp(acc == O_RDONLY ? "open" : "openw", r.path, fd);
    if (mut) {
        Mutated("trunc", r.path);
    }
    return fd;
}

ssize_t DoRead(OpenFile* of, void* buf, size_t n, std::uint64_t off, bool adv) {
    if (of->ino->IsDir()) {
        return Fail(EISDIR);
    }
    if ((of->flags & O_ACCMODE) == O_WRONLY) {
        return Fail(EBADF);
    }
    if (of->ino->special_null) {
        return 0;
    }
    std::int64_t arg = 0;
    switch (NextFault({kEio, kShortRead}, "read " + of->path, &arg)) {
        case kEio:
            return Fail(EIO);
        case kShortRead:
            if (n > 1) {
                n = 1 + static_cast<size_t>(arg) % (n - 1);
            }
            break;
        default:
            break;
    }
    auto const& d = *of->ino->data;
    size_t k = off >= d.size() ? 0 : std::min(n, d.size() - off);
    memcpy(buf, d.data() + (k != 0 ? off : 0), k);
    if (adv) {
        of->off = off + k;
    }
    LogOp("read", of->path, static_cast<long>(k));
    return static_cast<ssize_t>(k);
}

ssize_t DoWrite(OpenFile* of,
                char const* buf,
                size_t n,
                std::uint64_t off,
                bool adv) {
    if (not of->Writable()) {
        return Fail(EBADF);
    }
    if (of->ino->special_null) {
        return static_cast<ssize_t>(n);
    }
    bool torn = false;
    std::int64_t arg = 0;
    if (n > 0) {
        if (DiskFull()) {
            return Fail(ENOSPC);
        }
        switch (NextFault({kEnospc, kEio, kShortWrite, kTornCrash},
                          "write " + of->path,
                          &arg)) {
            case kEnospc:
                if ((arg & 1) != 0) {
                    g_full_until =
                        g_ops + 1 + static_cast<std::uint64_t>((arg >> 1) % 30);
                }
                // a full disk may take a prefix first
                if ((arg & 2) != 0 and n > 1) {
                    n = 1 + static_cast<size_t>(arg >> 2) % (n - 1);
                    g_full_until = std::max(g_full_until, g_ops + 2);
                    break;
                }
                return Fail(ENOSPC);
            case kEio:
                return Fail(EIO);
            case kShortWrite:
                if (n > 1) {
                    n = 1 + static_cast<size_t>(arg) % (n - 1);
                }
                break;
            case kTornCrash:
                n = static_cast<size_t>(arg) % (n + 1);
                torn = true;
                break;
            default:
                break;
        }
    }
    if ((of->flags & O_APPEND) != 0) {
        off = of->ino->data->size();
    }
    if (of->ino->data.use_count() > 1) {
        of->ino->data = std::make_shared<std::string>(*of->ino->data);
    }
    auto& d = *of->ino->data;
    if (off > d.size()) {
        d.resize(off, '\0');
    }
    if (off + n > d.size()) {
        d.resize(off + n);
    }
    memcpy(d.data() + off, buf, n);
    of->ino->mtime = NowTs();
    if (adv) {
        of->off = off + n;
    }
    LogOp("write", of->path, static_cast<long>(n));
    Mutated("write", of->path);
    if (torn) {
        DieCurrent(9);
    }
    return static_cast<ssize_t>(n);
}

int DoStat(std::string const& path,
           bool follow,
           struct stat* st,
           std::string const& base = "") {
    Enter("stat", path);
    auto r = Resolve(path, follow, base);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        int const rc = Fail(r.err);
        LogOp("stat", path, rc);
        return rc;
    }
    FillStat(r.node.get(), st);
    LogOp("stat", r.path, st->st_mode);
    return 0;
}

int DoMkdir(std::string const& path, mode_t mode, std::string const& base = "") {
    Enter("mkdir", path);
    auto r = Resolve(path, false, base);
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (r.node) {
        int const rc = Fail(EEXIST);
        LogOp("mkdir", r.path, rc);
        return rc;
    }
    if (not MayAccess(r.dir, 3)) {
        return Fail(EACCES);
    }
    if (DiskFull()) {
        return Fail(ENOSPC);
    }
    if (int e = FaultErr({kEnospc, kEio}, "mkdir", r.path)) {
        return Fail(e);
    }
    auto n = MkInode(S_IFDIR | (mode & 07777U & ~g_cur->proc->umask));
    n->dev = DevOf(r.dir);
    Attach(r.dir, r.name, n);
    LogOp("mkdir", r.path, 0);
    Mutated("mkdir", r.path);
    return 0;
}

int g_failed_unlinks = 0;
int DoUnlink(std::string const& path, bool dir, std::string const& base = "") {
    char const* op = dir ? "rmdir" : "unlink";
    Enter(op, path);
    auto r = Resolve(path, false, base);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        int const rc = Fail(r.err);
        LogOp(op, path, rc);
        return rc;
    }
    if (dir) {
        if (not r.node->IsDir()) {
            return Fail(ENOTDIR);
        }
        if (not r.node->kids.empty()) {
            return Fail(ENOTEMPTY);
        }
        if (r.name.empty()) {
            return Fail(EBUSY);
        }
    }
    else if (r.node->IsDir()) {
        return Fail(EISDIR);
    }
    if (not MayAccess(r.dir, 3)) {
        int const rc = Fail(EACCES);
        LogOp(op, r.path, rc);
        return rc;
    }
    if (int e = FaultErr({kEio}, op, r.path)) {
        ++g_failed_unlinks;
        return Fail(e);
    }
    Detach(r.dir, r.name);
    LogOp(op, r.path, 0);
    Mutated(op, r.path);
    return 0;
}

int DoRename(std::string const& a,
             std::string const& b,
             std::string const& ba,
             std::string const& bb,
             unsigned flags) {
    Enter("rename", a);
    auto ra = Resolve(a, false, ba);
    if (ra.err == 0 and not ra.node) {
        ra.err = ENOENT;
    }
    if (ra.err != 0) {
        int const rc = Fail(ra.err);
        LogOp("rename", a, rc);
        return rc;
    }
    auto rb = Resolve(b, false, bb);
    if (rb.err != 0) {
        return Fail(rb.err);
    }
    if (rb.dir->nlink == 0 and rb.dir != g_root.get()) {
        return Fail(ENOENT);
    }
    if (ra.node->dev != rb.dir->dev) {
        return Fail(EXDEV);
    }
    if (not MayAccess(ra.dir, 3) or not MayAccess(rb.dir, 3)) {
        return Fail(EACCES);
    }
    if ((flags & 1U) != 0 and rb.node) {  // RENAME_NOREPLACE
        return Fail(EEXIST);
    }
    if (int e = FaultErr({kEio, kEnospc}, "rename", rb.path)) {
        return Fail(e);
    }
    if (rb.node == ra.node) {
        LogOp("rename", rb.path, 0);
        return 0;
    }
    if (rb.node) {
        if (ra.node->IsDir()) {
            if (not rb.node->IsDir()) {
                return Fail(ENOTDIR);
            }
            if (not rb.node->kids.empty()) {
                return Fail(ENOTEMPTY);
            }
        }
        else if (rb.node->IsDir()) {
            return Fail(EISDIR);
        }
        Detach(rb.dir, rb.name);
    }
    if (ra.node->IsDir()) {
        // not into itself
        for (Inode* x = rb.dir; x != nullptr; x = x->parent) {
            if (x == ra.node.get()) {
                return Fail(EINVAL);
            }
        }
    }
    InodeP n = ra.node;
    Detach(ra.dir, ra.name);
    Attach(rb.dir, rb.name, n);
    LogOp("rename", ra.path + " -> " + rb.path, 0);
    Mutated("rename_from", ra.path);
    Mutated("rename_to", rb.path);
    return 0;
}

int DoLink(std::string const& a,
           std::string const& b,
           std::string const& ba,
           std::string const& bb,
           bool follow) {
    Enter("link", b);
    auto ra = Resolve(a, follow, ba);
    if (ra.err == 0 and not ra.node) {
        ra.err = ENOENT;
    }
    if (ra.err != 0) {
        int const rc = Fail(ra.err);
        LogOp("link", a, rc);
        return rc;
    }
    auto rb = Resolve(b, false, bb);
    if (rb.err != 0) {
        return Fail(rb.err);
    }
    if (rb.node) {
        int const rc = Fail(EEXIST);
        LogOp("link", rb.path, rc);
        return rc;
    }
    if (ra.node->IsDir()) {
        return Fail(EPERM);
    }
    if (ra.node->dev != rb.dir->dev) {
        return Fail(EXDEV);
    }
    if (not MayAccess(rb.dir, 3)) {
        return Fail(EACCES);
    }
    if (rb.dir->nlink == 0 and rb.dir != g_root.get()) {
        return Fail(ENOENT);
    }
    if (g_link_max > 0 and ra.node->nlink >= g_link_max) {
        Probe("emlink_natural");
        return Fail(EMLINK);
    }
    if (DiskFull()) {
        return Fail(ENOSPC);
    }
    if (int e = FaultErr({kEmlink, kEnospc, kEio}, "link", rb.path)) {
        return Fail(e);
    }
    Attach(rb.dir, rb.name, ra.node);
    ra.node->ctime = NowTs();
    LogOp("link", ra.path + " -> " + rb.path, 0);
    Mutated("link", rb.path);
    return 0;
}

int DoSymlink(std::string const& target,
              std::string const& path,
              std::string const& base) {
    Enter("symlink", path);
    auto r = Resolve(path, false, base);
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (r.node) {
        return Fail(EEXIST);
    }
    if (target.empty()) {
        return Fail(ENOENT);
    }
    if (not MayAccess(r.dir, 3)) {
        return Fail(EACCES);
    }
    if (DiskFull()) {
        return Fail(ENOSPC);
    }
    if (int e = FaultErr({kEnospc, kEio}, "symlink", r.path)) {
        return Fail(e);
    }
    auto n = MkInode(S_IFLNK | 0777U);
    n->target = target;
    n->dev = DevOf(r.dir);
    Attach(r.dir, r.name, n);
    LogOp("symlink", r.path, 0);
    Mutated("symlink", r.path);
    return 0;
}

ssize_t DoReadlink(std::string const& path,
                   char* buf,
                   size_t n,
                   std::string const& base) {
    Enter("readlink", path);
    auto r = Resolve(path, false, base);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (not r.node->IsLnk()) {
        return Fail(EINVAL);
    }
    if (int e = FaultErr({kEio}, "readlink", r.path)) {
        return Fail(e);
    }
    size_t const k = std::min(n, r.node->target.size());
    memcpy(buf, r.node->target.data(), k);
    return static_cast<ssize_t>(k);
}

int DoChmodNode(Inode* i, mode_t m, std::string const& path) {
    if (int e = FaultErr({kEio}, "chmod", path)) {
        return Fail(e);
    }
    i->mode = (i->mode & S_IFMT) | (m & 07777U);
    i->ctime = NowTs();
    LogOp("chmod", path, m);
    Mutated("chmod", path);
    return 0;
}

int DoUtime(Inode* i, struct timespec const* ts, std::string const& path) {
    if (ts == nullptr or ts[1].tv_nsec == UTIME_NOW) {
        i->mtime = NowTs();
    }
    else if (ts[1].tv_nsec != UTIME_OMIT) {
        i->mtime = ts[1];
    }
    LogOp("utime", path, 0);
    Mutated("utime", path);
    return 0;
}

int DoTruncate(Inode* i, off_t len, std::string const& path) {
    if (int e = FaultErr({kEnospc, kEio}, "truncate", path)) {
        return Fail(e);
    }
    i->data = std::make_shared<std::string>(*i->data);
    i->data->resize(static_cast<size_t>(len), '\0');
    i->mtime = NowTs();
    LogOp("truncate", path, len);
    Mutated("write", path);
    return 0;
}

// directory streams
struct SimDir {
    std::uint64_t magic = 0x51d15e5e5ULL;
    int fd = -1;
    Inode* dir = nullptr;
    InodeP hold;
    std::vector<std::string> names;
    std::size_t pos = 0;
    struct dirent64 ent {};
    std::string path;
};
std::set<void*> g_dirs;

void FillNames(SimDir* d) {
    d->names.clear();
    for (auto const& [n, i] : d->dir->kids) {
        d->names.push_back(n);
    }
    // deterministic, but arbitrary order
    std::uint64_t const salt = RunSalt() ^ d->dir->ino;
    auto key = [salt](std::string const& s) {
        std::uint64_t h = salt;
        for (char c : s) {
            h = (h ^ static_cast<unsigned char>(c)) * 0x100000001b3ULL;
        }
        return h ^ (h >> 31U);
    };
    std::sort(d->names.begin(), d->names.end(), [&](auto const& a, auto const& b) {
        auto const ka = key(a);
        auto const kb = key(b);
        return ka != kb ? ka < kb : a < b;
    });
    d->names.insert(d->names.begin(), {".", ".."});
}

DIR* DoOpendirFd(int fd) {
    auto* of = Fd(fd);
    if (of == nullptr or not of->ino or not of->ino->IsDir()) {
        errno = of == nullptr ? EBADF : ENOTDIR;
        return nullptr;
    }
    if (int e = FaultErr({kEio, kEmfile}, "opendir", of->path)) {
        errno = e;
        return nullptr;
    }
    auto* d = new SimDir;
    d->fd = fd;
    d->hold = of->ino;
    d->dir = of->ino.get();
    d->path = of->path;
    FillNames(d);
    g_dirs.insert(d);
    LogOp("opendir", of->path, 0);
    return reinterpret_cast<DIR*>(d);
}
bool IsSimDir(DIR* d) { return g_dirs.count(d) != 0; }

// stdio
std::map<FILE*, int> g_files;
std::vector<FILE*> g_leaked_files;

ssize_t CkRead(void* c, char* b, size_t n) {
    return ::read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n);
}
ssize_t CkWrite(void* c, char const* b, size_t n) {
    // like the C library: continue after a partial write
    size_t done = 0;
    while (done < n) {
        ssize_t const k = ::write(
            static_cast<int>(reinterpret_cast<intptr_t>(c)), b + done, n - done);
        if (k < 0) {
            break;
        }
        done += static_cast<size_t>(k);
    }
    return static_cast<ssize_t>(done);
}
int CkSeek(void* c, off64_t* off, int wh) {
    off64_t const r =
        ::lseek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, wh);
    if (r < 0) {
        return -1;
    }
    *off = r;
    return 0;
}
int CkClose(void* c) {
    return ::close(static_cast<int>(reinterpret_cast<intptr_t>(c)));
}
FILE* MakeFile(int fd, char const* mode) {
    cookie_io_functions_t fns{CkRead, CkWrite, CkSeek, CkClose};
    FILE* f = fopencookie(
        reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, fns);
    g_files[f] = fd;
    return f;
}
int ModeFlags(char const* m) {
    int fl = 0;
    bool const plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
        case 'r':
            fl = plus ? O_RDWR : O_RDONLY;
            break;
        case 'w':
            fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
            break;
        default:
            fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
            break;
    }
    if (strchr(m, 'x') != nullptr) {
        fl |= O_EXCL;
    }
    if (strchr(m, 'e') != nullptr) {
        fl |= O_CLOEXEC;
    }
    return fl;
}
std::map<void*, size_t> g_maps;

}  // namespace

void VfsReset() {
    g_root = MkInode(S_IFDIR | 0755U);
    g_root->nlink = 1;
    vfs::MkDirs("/tmp", 0777);
    vfs::MkDirs("/dev");
    vfs::MkDirs("/home/sim");
    vfs::MkDirs("/bin");
    vfs::Write("/dev/null", "", 0666);
    Resolve("/dev/null", true).node->special_null = true;
}
struct SharedMap {
    Proc* proc;
    char* addr;
    size_t len;
    InodeP ino;
    size_t off;
    std::string path;
};
static std::vector<SharedMap> g_shared_maps;
static void WriteBack(SharedMap const& s) {
    auto const& old = *s.ino->data;
    if (s.off >= old.size()) {
        return;
    }
    size_t const n = std::min(s.len, old.size() - s.off);
    if (memcmp(old.data() + s.off, s.addr, n) == 0) {
        return;
    }
    if (s.ino->data.use_count() > 1) {
        s.ino->data = std::make_shared<std::string>(*s.ino->data);
    }
    memcpy(s.ino->data->data() + s.off, s.addr, n);
    s.ino->mtime = NowTs();
    Mutated("write", s.path);
}
void VfsCloseAll(Proc* p) {
    for (size_t i = g_shared_maps.size(); i-- > 0;) {
        if (g_shared_maps[i].proc == p) {
            WriteBack(g_shared_maps[i]);
            g_shared_maps.erase(g_shared_maps.begin() + static_cast<long>(i));
        }
    }
    auto fds = std::move(p->fds);
    p->fds.clear();
    p->cloexec.clear();
    fds.clear();
}

namespace vfs {
void MkDirs(std::string const& path, int mode) {
    Inode* d = g_root.get();
    for (auto const& c : Split(path)) {
        auto it = d->kids.find(c);
        if (it == d->kids.end()) {
            auto n = MkInode(S_IFDIR | static_cast<unsigned>(mode));
            n->dev = d->dev;
            Attach(d, c, n);
            d = n.get();
        }
        else {
            d = it->second.get();
        }
    }
}
static std::string Dirname(std::string const& p) {
    auto i = p.rfind('/');
    return i == 0 or i == std::string::npos ? "/" : p.substr(0, i);
}
void Write(std::string const& path, std::string const& data, int mode) {
    MkDirs(Dirname(path));
    auto r = Resolve(path, true);
    if (not r.node) {
        auto n = MkInode(S_IFREG | static_cast<unsigned>(mode));
        n->dev = r.dir->dev;
        Attach(r.dir, r.name, n);
        r.node = n;
    }
    r.node->mode = S_IFREG | static_cast<unsigned>(mode);
    r.node->data = std::make_shared<std::string>(data);
    r.node->mtime = NowTs();
}
void Symlink(std::string const& target, std::string const& path) {
    MkDirs(Dirname(path));
    auto r = Resolve(path, false);
    if (not r.node) {
        auto n = MkInode(S_IFLNK | 0777U);
        n->target = target;
        n->dev = r.dir->dev;
        Attach(r.dir, r.name, n);
    }
}
static void RmRec(Inode* d) {
    for (auto& [n, k] : d->kids) {
        if (k->IsDir()) {
            RmRec(k.get());
        }
        --k->nlink;
    }
    d->kids.clear();
}
void RemoveAll(std::string const& path) {
    auto r = Resolve(path, false);
    if (r.node and not r.name.empty()) {
        if (r.node->IsDir()) {
            RmRec(r.node.get());
        }
        Detach(r.dir, r.name);
    }
}
std::optional<std::string> Read(std::string const& path) {
    auto const* p = Peek(path);
    return p != nullptr ? std::make_optional(*p) : std::nullopt;
}
std::string const* Peek(std::string const& path) {
    auto r = Resolve(path, true);
    return r.err == 0 and r.node and r.node->IsReg() ? r.node->data.get()
                                                     : nullptr;
}
static Entry MkEntry(std::string const& path, Inode const* i) {
    Entry e;
    e.path = path;
    e.kind = i->IsDir() ? Kind::Dir : i->IsLnk() ? Kind::Link : Kind::File;
    e.mode = static_cast<int>(i->mode & 07777U);
    e.ino = i->ino;
    e.nlink = i->nlink;
    return e;
}
Entry Lstat(std::string const& path) {
    auto r = Resolve(path, false);
    if (r.err != 0 or not r.node) {
        return {};
    }
    return MkEntry(r.path, r.node.get());
}
std::optional<std::string> Readlink(std::string const& path) {
    auto r = Resolve(path, false);
    if (r.err != 0 or not r.node or not r.node->IsLnk()) {
        return std::nullopt;
    }
    return r.node->target;
}
std::vector<Entry> List(std::string const& path) {
    std::vector<Entry> v;
    auto r = Resolve(path, true);
    if (r.err == 0 and r.node and r.node->IsDir()) {
        for (auto const& [n, k] : r.node->kids) {
            v.push_back(MkEntry((path == "/" ? "" : path) + "/" + n, k.get()));
        }
    }
    return v;
}
std::vector<Entry> Walk(std::string const& path) {
    std::vector<Entry> v;
    for (auto const& e : List(path)) {
        v.push_back(e);
        if (e.kind == Kind::Dir) {
            auto w = Walk(e.path);
            v.insert(v.end(), w.begin(), w.end());
        }
    }
    return v;
}
void SetMtime(std::string const& path, std::int64_t sec) {
    auto r = Resolve(path, false);
    if (r.node) {
        r.node->mtime.tv_sec = sec;
        r.node->mtime.tv_nsec = 0;
    }
}
std::uint64_t HashTree(std::string const& path) {
    std::uint64_t h = 1469598103934665603ULL;
    auto add = [&h](std::string const& s) {
        for (char c : s) {
            h = (h ^ static_cast<unsigned char>(c)) * 0x100000001b3ULL;
        }
        h = (h ^ 0xff) * 0x100000001b3ULL;
    };
    for (auto const& e : Walk(path)) {
        add(e.path);
        h ^= static_cast<std::uint64_t>(e.mode);
        if (auto const* d = e.kind == Kind::File ? Peek(e.path) : nullptr) {
            add(*d);
        }
    }
    return h;
}
int OpenForWrite(std::string const& path) {
    auto r = Resolve(path, true);
    return r.node ? r.node->writers : 0;
}
void OnMutation(std::string const& prefix, Hook h) {
    g_hooks.emplace_back(prefix, std::move(h));
}
void ClearHooks() { g_hooks.clear(); }
void SetDevice(std::string const& path, int dev) {
    auto r = Resolve(path, true);
    if (r.node) {
        r.node->dev = dev;
    }
}
std::uint64_t NumOps() { return g_ops; }
int FailedUnlinks() { return g_failed_unlinks; }
void SetLinkMax(int n) { g_link_max = n; }
std::uint64_t OpenFdCount(int pid) {
    auto* p = FindProc(pid);
    return p != nullptr ? p->fds.size() : 0;
}
}  // namespace vfs
}  // namespace sim

using namespace sim;

#define REAL(ret, name, ...)                                 \
    using name##_rfn = ret (*)(__VA_ARGS__);                   \
    static name##_rfn real_##name() {                          \
        static name##_rfn f =                                  \
            reinterpret_cast<name##_rfn>(dlsym(RTLD_NEXT, #name)); \
        return f;                                            \
    }

REAL(int, open, char const*, int, ...)
REAL(int, openat, int, char const*, int, ...)
REAL(int, close, int)
REAL(ssize_t, read, int, void*, size_t)
REAL(ssize_t, pread, int, void*, size_t, off_t)
REAL(ssize_t, write, int, void const*, size_t)
REAL(ssize_t, pwrite, int, void const*, size_t, off_t)
REAL(ssize_t, writev, int, struct iovec const*, int)
REAL(ssize_t, readv, int, struct iovec const*, int)
REAL(off_t, lseek, int, off_t, int)
REAL(int, ftruncate, int, off_t)
REAL(int, truncate, char const*, off_t)
REAL(int, fsync, int)
REAL(int, stat, char const*, struct stat*)
REAL(int, lstat, char const*, struct stat*)
REAL(int, fstat, int, struct stat*)
REAL(int, fstatat, int, char const*, struct stat*, int)
REAL(int, access, char const*, int)
REAL(int, faccessat, int, char const*, int, int)
REAL(int, mkdir, char const*, mode_t)
REAL(int, mkdirat, int, char const*, mode_t)
REAL(int, rmdir, char const*)
REAL(int, unlink, char const*)
REAL(int, unlinkat, int, char const*, int)
REAL(int, remove, char const*)
REAL(int, rename, char const*, char const*)
REAL(int, renameat, int, char const*, int, char const*)
REAL(int, link, char const*, char const*)
REAL(int, linkat, int, char const*, int, char const*, int)
REAL(int, symlink, char const*, char const*)
REAL(ssize_t, readlink, char const*, char*, size_t)
REAL(ssize_t, readlinkat, int, char const*, char*, size_t)
REAL(int, chmod, char const*, mode_t)
REAL(int, fchmod, int, mode_t)
REAL(int, fchmodat, int, char const*, mode_t, int)
REAL(int, utimensat, int, char const*, struct timespec const*, int)
REAL(int, futimens, int, struct timespec const*)
REAL(int, utimes, char const*, struct timeval const*)
REAL(DIR*, opendir, char const*)
REAL(DIR*, fdopendir, int)
REAL(struct dirent*, readdir, DIR*)
REAL(int, closedir, DIR*)
REAL(int, dirfd, DIR*)
REAL(void, rewinddir, DIR*)
REAL(char*, getcwd, char*, size_t)
REAL(int, chdir, char const*)
REAL(int, fchdir, int)
REAL(char*, realpath, char const*, char*)
REAL(int, flock, int, int)
REAL(int, fcntl, int, int, ...)
REAL(int, ioctl, int, unsigned long, ...)
REAL(int, poll, struct pollfd*, nfds_t, int)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(int, pipe, int*)
REAL(int, pipe2, int*, int)
REAL(void*, mmap, void*, size_t, int, int, int, off_t)
REAL(int, munmap, void*, size_t)
REAL(char*, mkdtemp, char*)
REAL(int, mkstemp, char*)
REAL(FILE*, tmpfile, void)
REAL(FILE*, fopen, char const*, char const*)
REAL(FILE*, fdopen, int, char const*)
REAL(int, fclose, FILE*)
REAL(int, fileno, FILE*)
REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned)
REAL(ssize_t, sendfile, int, int, off_t*, size_t)
REAL(int, statvfs, char const*, struct statvfs*)
REAL(int, isatty, int)
REAL(pid_t, getpid, void)
REAL(pid_t, getppid, void)
REAL(pid_t, fork, void)
REAL(pid_t, waitpid, pid_t, int*, int)
REAL(int, execvp, char const*, char* const*)
REAL(int, execvpe, char const*, char* const*, char* const*)
REAL(int, kill, pid_t, int)
REAL(mode_t, umask, mode_t)
REAL(uid_t, getuid, void)
REAL(uid_t, geteuid, void)

#define SIMP (g_cur != nullptr)

extern "C" {

static int OpenVa(int dirfd, char const* p, int flags, mode_t m) {
    return DoOpen(p, flags, m, BaseOf(dirfd));
}
int open(char const* p, int flags, ...) {
    mode_t m = 0;
    if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return SIMP ? OpenVa(AT_FDCWD, p, flags, m) : real_open()(p, flags, m);
}
int open64(char const* p, int flags, ...) {
    mode_t m = 0;
    if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return SIMP ? OpenVa(AT_FDCWD, p, flags, m) : real_open()(p, flags, m);
}
int openat(int d, char const* p, int flags, ...) {
    mode_t m = 0;
    if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return SIMP ? OpenVa(d, p, flags, m) : real_openat()(d, p, flags, m);
}
int openat64(int d, char const* p, int flags, ...) {
    mode_t m = 0;
    if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return SIMP ? OpenVa(d, p, flags, m) : real_openat()(d, p, flags, m);
}
int __open_2(char const* p, int flags) { return open(p, flags); }
int __open64_2(char const* p, int flags) { return open(p, flags); }
int __openat_2(int d, char const* p, int flags) { return openat(d, p, flags); }
int __openat64_2(int d, char const* p, int flags) {
    return openat(d, p, flags);
}
int creat(char const* p, mode_t m) {
    return open(p, O_CREAT | O_WRONLY | O_TRUNC, m);
}

int close(int fd) {
    if (not SimFd(fd)) {
        return SIMP and fd > 2 ? Fail(EBADF)
               : SIMP          ? 0
                               : real_close()(fd);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    std::string const p = of->path;
    if (of->Writable()) {
        Enter("close", p);
    }
    g_cur->proc->fds.erase(fd);
    g_cur->proc->cloexec.erase(fd);
    LogOp("close", p, fd);
    return 0;
}

static ssize_t PipeRead(OpenFile* of, void* b, size_t n) {
    auto pp = of->pipe;
    while (pp->buf.empty()) {
        if (pp->writers == 0) {
            return 0;
        }
        Block(pp.get());
    }
    size_t const k = std::min(n, pp->buf.size());
    memcpy(b, pp->buf.data(), k);
    pp->buf.erase(0, k);
    Wake(pp.get());
    return static_cast<ssize_t>(k);
}
static ssize_t PipeWrite(OpenFile* of, void const* b, size_t n) {
    auto pp = of->pipe;
    if (pp->readers == 0) {
        return Fail(EPIPE);
    }
    pp->buf.append(static_cast<char const*>(b), n);
    Wake(pp.get());
    return static_cast<ssize_t>(n);
}

ssize_t read(int fd, void* b, size_t n) {
    if (not SIMP) {
        return real_read()(fd, b, n);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    Enter("read", of->path);
    of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    if (of->pipe) {
        return PipeRead(of, b, n);
    }
    return DoRead(of, b, n, of->off, true);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
    if (not SIMP) {
        return real_pread()(fd, b, n, o);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    Enter("pread", of->path);
    of = Fd(fd);
    return of == nullptr
               ? Fail(EBADF)
               : DoRead(of, b, n, static_cast<std::uint64_t>(o), false);
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) {
    return pread(fd, b, n, o);
}
ssize_t write(int fd, void const* b, size_t n) {
    if (not SIMP) {
        return real_write()(fd, b, n);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        if (fd == 1 or fd == 2) {  // console of the simulated process
            if (g_trace_verbose) {
                real_write()(2, b, n);
            }
            return static_cast<ssize_t>(n);
        }
        return Fail(EBADF);
    }
    Enter("write", of->path);
    of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    if (of->pipe) {
        return PipeWrite(of, b, n);
    }
    return DoWrite(of, static_cast<char const*>(b), n, of->off, true);
}
ssize_t pwrite(int fd, void const* b, size_t n, off_t o) {
    if (not SIMP) {
        return real_pwrite()(fd, b, n, o);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    Enter("pwrite", of->path);
    of = Fd(fd);
    return of == nullptr ? Fail(EBADF)
                         : DoWrite(of,
                                   static_cast<char const*>(b),
                                   n,
                                   static_cast<std::uint64_t>(o),
                                   false);
}
ssize_t pwrite64(int fd, void const* b, size_t n, off_t o) {
    return pwrite(fd, b, n, o);
}
ssize_t writev(int fd, struct iovec const* iov, int cnt) {
    if (not SIMP) {
        return real_writev()(fd, iov, cnt);
    }
    std::string s;
    for (int i = 0; i < cnt; ++i) {
        s.append(static_cast<char const*>(iov[i].iov_base), iov[i].iov_len);
    }
    return write(fd, s.data(), s.size());
}
ssize_t readv(int fd, struct iovec const* iov, int cnt) {
    if (not SIMP) {
        return real_readv()(fd, iov, cnt);
    }
    ssize_t t = 0;
    for (int i = 0; i < cnt; ++i) {
        ssize_t const k = read(fd, iov[i].iov_base, iov[i].iov_len);
        if (k < 0) {
            return t > 0 ? t : k;
        }
        t += k;
        if (static_cast<size_t>(k) < iov[i].iov_len) {
            break;
        }
    }
    return t;
}
off_t lseek(int fd, off_t o, int wh) noexcept {
    if (not SIMP) {
        return real_lseek()(fd, o, wh);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    if (of->pipe) {
        return Fail(ESPIPE);
    }
    std::int64_t base = 0;
    if (wh == SEEK_CUR) {
        base = static_cast<std::int64_t>(of->off);
    }
    else if (wh == SEEK_END) {
        base = of->ino->IsReg()
                   ? static_cast<std::int64_t>(of->ino->data->size())
                   : 0;
    }
    if (base + o < 0) {
        return Fail(EINVAL);
    }
    of->off = static_cast<std::uint64_t>(base + o);
    return static_cast<off_t>(of->off);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t len) noexcept {
    if (not SIMP) {
        return real_ftruncate()(fd, len);
    }
    auto* of = Fd(fd);
    if (of == nullptr or not of->ino->IsReg()) {
        return Fail(EBADF);
    }
    Enter("ftruncate", of->path);
    return DoTruncate(of->ino.get(), len, of->path);
}
int ftruncate64(int fd, off_t len) noexcept { return ftruncate(fd, len); }
int truncate(char const* p, off_t len) noexcept {
    if (not SIMP) {
        return real_truncate()(p, len);
    }
    Enter("truncate", p);
    auto r = Resolve(p, true);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    return DoTruncate(r.node.get(), len, r.path);
}
int truncate64(char const* p, off_t len) noexcept { return truncate(p, len); }
int fsync(int fd) {
    if (not SIMP) {
        return real_fsync()(fd);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    Enter("fsync", of->path);
    if (int e = FaultErr({kEio}, "fsync", of->path)) {
        return Fail(e);
    }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
int posix_fallocate(int, off_t, off_t) { return 0; }

int stat(char const* p, struct stat* st) noexcept {
    return SIMP ? DoStat(p, true, st) : real_stat()(p, st);
}
int lstat(char const* p, struct stat* st) noexcept {
    return SIMP ? DoStat(p, false, st) : real_lstat()(p, st);
}
int fstat(int fd, struct stat* st) noexcept {
    if (not SIMP) {
        return real_fstat()(fd, st);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    if (of->pipe) {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFIFO | 0600;
        return 0;
    }
    FillStat(of->ino.get(), st);
    return 0;
}
int fstatat(int d, char const* p, struct stat* st, int fl) noexcept {
    if (not SIMP) {
        return real_fstatat()(d, p, st, fl);
    }
    if ((fl & AT_EMPTY_PATH) != 0 and p[0] == 0) {
        return fstat(d, st);
    }
    return DoStat(p, (fl & AT_SYMLINK_NOFOLLOW) == 0, st, BaseOf(d));
}
int stat64(char const* p, struct stat64* st) noexcept {
    return stat(p, reinterpret_cast<struct stat*>(st));
}
int lstat64(char const* p, struct stat64* st) noexcept {
    return lstat(p, reinterpret_cast<struct stat*>(st));
}
int fstat64(int fd, struct stat64* st) noexcept {
    return fstat(fd, reinterpret_cast<struct stat*>(st));
}
int fstatat64(int d, char const* p, struct stat64* st, int fl) noexcept {
    return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl);
}
static int DoAccess(std::string const& p, int mode, std::string const& base) {
    Enter("access", p);
    auto r = Resolve(p, true, base);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (mode != F_OK and not MayAccess(r.node.get(), mode)) {
        return Fail(EACCES);
    }
    return 0;
}
int access(char const* p, int m) noexcept {
    return SIMP ? DoAccess(p, m, "") : real_access()(p, m);
}
int faccessat(int d, char const* p, int m, int fl) noexcept {
    return SIMP ? DoAccess(p, m, BaseOf(d)) : real_faccessat()(d, p, m, fl);
}
int mkdir(char const* p, mode_t m) noexcept {
    return SIMP ? DoMkdir(p, m) : real_mkdir()(p, m);
}
int mkdirat(int d, char const* p, mode_t m) noexcept {
    return SIMP ? DoMkdir(p, m, BaseOf(d)) : real_mkdirat()(d, p, m);
}
int rmdir(char const* p) noexcept {
    return SIMP ? DoUnlink(p, true) : real_rmdir()(p);
}
int unlink(char const* p) noexcept {
    return SIMP ? DoUnlink(p, false) : real_unlink()(p);
}
int unlinkat(int d, char const* p, int fl) noexcept {
    return SIMP ? DoUnlink(p, (fl & AT_REMOVEDIR) != 0, BaseOf(d))
                : real_unlinkat()(d, p, fl);
}
int remove(char const* p) noexcept {
    if (not SIMP) {
        return real_remove()(p);
    }
    auto r = Resolve(p, false);
    return DoUnlink(p, r.node and r.node->IsDir());
}
int rename(char const* a, char const* b) noexcept {
    return SIMP ? DoRename(a, b, "", "", 0) : real_rename()(a, b);
}
int renameat(int da, char const* a, int db, char const* b) noexcept {
    return SIMP ? DoRename(a, b, BaseOf(da), BaseOf(db), 0)
                : real_renameat()(da, a, db, b);
}
int renameat2(int da, char const* a, int db, char const* b, unsigned f) noexcept {
    return SIMP ? DoRename(a, b, BaseOf(da), BaseOf(db), f)
                : real_renameat()(da, a, db, b);
}
int link(char const* a, char const* b) noexcept {
    return SIMP ? DoLink(a, b, "", "", false) : real_link()(a, b);
}
int linkat(int da, char const* a, int db, char const* b, int fl) noexcept {
    return SIMP ? DoLink(a,
                         b,
                         BaseOf(da),
                         BaseOf(db),
                         (fl & AT_SYMLINK_FOLLOW) != 0)
                : real_linkat()(da, a, db, b, fl);
}
int symlink(char const* t, char const* p) noexcept {
    return SIMP ? DoSymlink(t, p, "") : real_symlink()(t, p);
}
int symlinkat(char const* t, int d, char const* p) noexcept {
    return SIMP ? DoSymlink(t, p, BaseOf(d)) : Fail(ENOSYS);
}
ssize_t readlink(char const* p, char* b, size_t n) noexcept {
    return SIMP ? DoReadlink(p, b, n, "") : real_readlink()(p, b, n);
}
ssize_t readlinkat(int d, char const* p, char* b, size_t n) noexcept {
    return SIMP ? DoReadlink(p, b, n, BaseOf(d))
                : real_readlinkat()(d, p, b, n);
}
ssize_t __readlink_chk(char const* p, char* b, size_t n, size_t) {
    return readlink(p, b, n);
}
ssize_t __readlinkat_chk(int d, char const* p, char* b, size_t n, size_t) {
    return readlinkat(d, p, b, n);
}
static int ChmodAt(std::string const& p, mode_t m, std::string const& base) {
    Enter("chmod", p);
    auto r = Resolve(p, true, base);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    return DoChmodNode(r.node.get(), m, r.path);
}
int chmod(char const* p, mode_t m) noexcept {
    return SIMP ? ChmodAt(p, m, "") : real_chmod()(p, m);
}
int fchmodat(int d, char const* p, mode_t m, int fl) noexcept {
    return SIMP ? ChmodAt(p, m, BaseOf(d)) : real_fchmodat()(d, p, m, fl);
}
int fchmod(int fd, mode_t m) noexcept {
    if (not SIMP) {
        return real_fchmod()(fd, m);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    Enter("fchmod", of->path);
    return DoChmodNode(of->ino.get(), m, of->path);
}
int fchown(int fd, uid_t, gid_t) noexcept { return SIMP and Fd(fd) != nullptr ? 0 : Fail(EPERM); }
int lchown(char const*, uid_t, gid_t) noexcept { return 0; }
int chown(char const*, uid_t, gid_t) noexcept { return 0; }
int utimensat(int d, char const* p, struct timespec const* ts, int fl) noexcept {
    if (not SIMP) {
        return real_utimensat()(d, p, ts, fl);
    }
    Enter("utimens", p);
    auto r = Resolve(p, (fl & AT_SYMLINK_NOFOLLOW) == 0, BaseOf(d));
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (int e = FaultErr({kEio}, "utimens", r.path)) {
        return Fail(e);
    }
    return DoUtime(r.node.get(), ts, r.path);
}
int futimens(int fd, struct timespec const* ts) noexcept {
    if (not SIMP) {
        return real_futimens()(fd, ts);
    }
    auto* of = Fd(fd);
    return of == nullptr ? Fail(EBADF) : DoUtime(of->ino.get(), ts, of->path);
}
int utimes(char const* p, struct timeval const* tv) noexcept {
    if (not SIMP) {
        return real_utimes()(p, tv);
    }
    struct timespec ts[2];
    if (tv != nullptr) {
        for (int i = 0; i < 2; ++i) {
            ts[i].tv_sec = tv[i].tv_sec;
            ts[i].tv_nsec = tv[i].tv_usec * 1000;
        }
    }
    return utimensat(AT_FDCWD, p, tv != nullptr ? ts : nullptr, 0);
}
int futimesat(int d, char const* p, struct timeval const*) noexcept {
    return utimensat(d, p, nullptr, 0);
}
int lutimes(char const* p, struct timeval const*) noexcept {
    return utimensat(AT_FDCWD, p, nullptr, AT_SYMLINK_NOFOLLOW);
}

DIR* opendir(char const* p) {
    if (not SIMP) {
        return real_opendir()(p);
    }
    int const fd = DoOpen(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0, "");
    if (fd < 0) {
        return nullptr;
    }
    DIR* d = DoOpendirFd(fd);
    if (d == nullptr) {
        int const e = errno;
        close(fd);
        errno = e;
    }
    return d;
}
DIR* fdopendir(int fd) {
    return SIMP ? DoOpendirFd(fd) : real_fdopendir()(fd);
}
struct dirent64* readdir64(DIR* dd) {
    if (not SIMP or not IsSimDir(dd)) {
        return reinterpret_cast<struct dirent64*>(real_readdir()(dd));
    }
    auto* d = reinterpret_cast<SimDir*>(dd);
    Enter("readdir", d->path);
    if (int e = FaultErr({kEio}, "readdir", d->path)) {
        errno = e;
        return nullptr;
    }
    while (d->pos < d->names.size()) {
        auto const& n = d->names[d->pos++];
        std::uint64_t ino = 1;
        unsigned char t = DT_DIR;
        if (n != "." and n != "..") {
            auto it = d->dir->kids.find(n);
            if (it == d->dir->kids.end()) {
                continue;  // removed meanwhile
            }
            ino = it->second->ino;
            t = it->second->IsDir()   ? DT_DIR
                : it->second->IsLnk() ? DT_LNK
                                      : DT_REG;
        }
        memset(&d->ent, 0, sizeof d->ent);
        d->ent.d_ino = ino;
        d->ent.d_type = t;
        d->ent.d_reclen = sizeof d->ent;
        strncpy(d->ent.d_name, n.c_str(), sizeof d->ent.d_name - 1);
        return &d->ent;
    }
    return nullptr;
}
struct dirent* readdir(DIR* d) {
    return reinterpret_cast<struct dirent*>(readdir64(d));
}
int closedir(DIR* dd) {
    if (not SIMP or not IsSimDir(dd)) {
        return real_closedir()(dd);
    }
    auto* d = reinterpret_cast<SimDir*>(dd);
    g_dirs.erase(d);
    g_cur->proc->fds.erase(d->fd);
    g_cur->proc->cloexec.erase(d->fd);
    delete d;
    return 0;
}
int dirfd(DIR* dd) noexcept {
    if (not SIMP or not IsSimDir(dd)) {
        return real_dirfd()(dd);
    }
    return reinterpret_cast<SimDir*>(dd)->fd;
}
void rewinddir(DIR* dd) noexcept {
    if (not SIMP or not IsSimDir(dd)) {
        real_rewinddir()(dd);
        return;
    }
    auto* d = reinterpret_cast<SimDir*>(dd);
    d->pos = 0;
    FillNames(d);
}
char* getcwd(char* b, size_t n) noexcept {
    if (not SIMP) {
        return real_getcwd()(b, n);
    }
    auto const& c = g_cur->proc->cwd;
    if (b == nullptr) {
        return strdup(c.c_str());
    }
    if (c.size() + 1 > n) {
        errno = ERANGE;
        return nullptr;
    }
    memcpy(b, c.c_str(), c.size() + 1);
    return b;
}
int chdir(char const* p) noexcept {
    if (not SIMP) {
        return real_chdir()(p);
    }
    Enter("chdir", p);
    auto r = Resolve(p, true);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err == 0 and not r.node->IsDir()) {
        r.err = ENOTDIR;
    }
    if (r.err != 0) {
        return Fail(r.err);
    }
    if (int e = FaultErr({kEio, kEacces}, "chdir", r.path)) {
        return Fail(e);
    }
    g_cur->proc->cwd = r.path;
    LogOp("chdir", r.path, 0);
    return 0;
}
int fchdir(int fd) noexcept {
    if (not SIMP) {
        return real_fchdir()(fd);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(EBADF);
    }
    g_cur->proc->cwd = of->path;
    return 0;
}
char* realpath(char const* p, char* out) noexcept {
    if (not SIMP) {
        return real_realpath()(p, out);
    }
    Enter("realpath", p);
    auto r = Resolve(p, true);
    if (r.err == 0 and not r.node) {
        r.err = ENOENT;
    }
    if (r.err != 0) {
        errno = r.err;
        return nullptr;
    }
    if (out == nullptr) {
        return strdup(r.path.c_str());
    }
    strcpy(out, r.path.c_str());
    return out;
}
char* __realpath_chk(char const* p, char* out, size_t) {
    return realpath(p, out);
}

int flock(int fd, int op) noexcept {
    if (not SIMP) {
        return real_flock()(fd, op);
    }
    {
        auto* of = Fd(fd);
        if (of == nullptr) {
            return Fail(EBADF);
        }
        Enter("flock", of->path);
    }
    auto it = g_cur->proc->fds.find(fd);
    if (it == g_cur->proc->fds.end()) {
        return Fail(EBADF);
    }
    auto hold = it->second;
    OpenFile* of = hold.get();
    Inode* i = of->ino.get();
    int const kind = op & ~LOCK_NB;
    of->DropLock();
    if (kind == LOCK_UN) {
        LogOp("flock_un", of->path, 0);
        return 0;
    }
    while (true) {
        bool const free = kind == LOCK_EX
                              ? i->lk_excl == nullptr and i->lk_shared.empty()
                              : i->lk_excl == nullptr;
        if (free) {
            break;
        }
        if ((op & LOCK_NB) != 0) {
            return Fail(EWOULDBLOCK);
        }
        if (NextFault({kEintr}, "flock " + of->path) == kEintr) {
            return Fail(EINTR);
        }
        Probe("flock_contended");
        Block(&i->lk_excl);
    }
    if (kind == LOCK_EX) {
        i->lk_excl = of;
    }
    else {
        i->lk_shared.push_back(of);
    }
    LogOp(kind == LOCK_EX ? "flock_ex" : "flock_sh", of->path, 0);
    return 0;
}

int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long const a = va_arg(ap, long);
    va_end(ap);
    if (not SIMP) {
        return real_fcntl()(fd, cmd, a);
    }
    auto it = g_cur->proc->fds.find(fd);
    if (it == g_cur->proc->fds.end()) {
        return Fail(EBADF);
    }
    switch (cmd) {
        case F_GETFD:
            return g_cur->proc->cloexec[fd] ? FD_CLOEXEC : 0;
        case F_SETFD:
            g_cur->proc->cloexec[fd] = (a & FD_CLOEXEC) != 0;
            return 0;
        case F_GETFL:
            return it->second->flags & ~(O_CREAT | O_TRUNC | O_EXCL);
        case F_SETFL:
            return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC:
            return AllocFd(it->second,
                           cmd == F_DUPFD_CLOEXEC,
                           std::max(kFdBase, static_cast<int>(a)));
        default:
            return 0;
    }
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long const a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (not SIMP) {
        return real_ioctl()(fd, req, a);
    }
    auto* of = Fd(fd);
    if (of == nullptr) {
        return Fail(fd <= 2 ? ENOTTY : EBADF);
    }
    if (req == FIONREAD and of->ino and of->ino->IsReg()) {
        auto const sz = of->ino->data->size();
        *static_cast<int*>(a) =
            static_cast<int>(sz > of->off ? sz - of->off : 0);
        return 0;
    }
    return Fail(ENOTTY);
}
int poll(struct pollfd* f, nfds_t n, int to) {
    if (not SIMP) {
        return real_poll()(f, n, to);
    }
    int r = 0;
    for (nfds_t i = 0; i < n; ++i) {
        f[i].revents = static_cast<short>(f[i].events & (POLLIN | POLLOUT));
        r += f[i].revents != 0 ? 1 : 0;
    }
    return r;
}
int dup(int fd) noexcept {
    if (not SIMP) {
        return real_dup()(fd);
    }
    auto it = g_cur->proc->fds.find(fd);
    return it == g_cur->proc->fds.end() ? Fail(EBADF)
                                        : AllocFd(it->second, false);
}
int dup2(int a, int b) noexcept {
    if (not SIMP) {
        return real_dup2()(a, b);
    }
    Enter("dup2", "");
    auto it = g_cur->proc->fds.find(a);
    if (it == g_cur->proc->fds.end()) {
        return Fail(EBADF);
    }
    std::int64_t arg = 0;
    if (NextFault({kEintr}, "dup2", &arg) == kEintr) {
        return Fail(EINTR);
    }
    auto keep = it->second;
    g_cur->proc->fds[b] = keep;
    g_cur->proc->cloexec[b] = false;
    return b;
}
int dup3(int a, int b, int fl) noexcept {
    int const r = dup2(a, b);
    if (r >= 0) {
        g_cur->proc->cloexec[b] = (fl & O_CLOEXEC) != 0;
    }
    return r;
}
int pipe2(int* fds, int fl) noexcept {
    if (not SIMP) {
        return real_pipe2()(fds, fl);
    }
    Enter("pipe", "");
    if (int e = FaultErr({kEmfile}, "pipe", "")) {
        return Fail(e);
    }
    auto pp = std::make_shared<Pipe>();
    for (int i = 0; i < 2; ++i) {
        auto of = std::make_shared<OpenFile>(
            nullptr, i == 0 ? O_RDONLY : O_WRONLY, "pipe");
        of->pipe = pp;
        of->pipe_w = i == 1;
        ++(i == 1 ? pp->writers : pp->readers);
        fds[i] = AllocFd(of, (fl & O_CLOEXEC) != 0);
    }
    return 0;
}
int pipe(int* fds) noexcept { return pipe2(fds, 0); }

void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
    if (not SIMP or fd < 0 or (flags & MAP_ANONYMOUS) != 0) {
        // may be called very early, before dlsym works
        return reinterpret_cast<void*>(
            ({
                long ret;
                register long r10 __asm__("r10") = flags;
                register long r8 __asm__("r8") = fd;
                register long r9 __asm__("r9") = off;
                __asm__ volatile("syscall"
                                 : "=a"(ret)
                                 : "a"(SYS_mmap),
                                   "D"(addr),
                                   "S"(len),
                                   "d"(static_cast<long>(prot)),
                                   "r"(r10),
                                   "r"(r8),
                                   "r"(r9)
                                 : "rcx", "r11", "memory");
                if (ret < 0 and ret > -4096) {
                    errno = static_cast<int>(-ret);
                    ret = -1;
                }
                ret;
            }));
    }
    auto* of = Fd(fd);
    if (of == nullptr or not of->ino or not of->ino->IsReg()) {
        errno = EBADF;
        return MAP_FAILED;
    }
    Enter("mmap", of->path);
    if (int e = FaultErr({kEio}, "mmap", of->path)) {
        errno = e;
        return MAP_FAILED;
    }
    void* m = mmap(addr,
                   len,
                   PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS,
                   -1,
                   0);
    if (m == MAP_FAILED) {
        return m;
    }
    auto const& d = *of->ino->data;
    auto const o = static_cast<size_t>(off);
    if (o < d.size()) {
        memcpy(m, d.data() + o, std::min(len, d.size() - o));
    }
    // writable shared mappings are written back on munmap/msync and when the
    // process ends
    if ((flags & MAP_SHARED) != 0 and (prot & PROT_WRITE) != 0) {
        g_shared_maps.push_back(
            {g_cur->proc, static_cast<char*>(m), len, of->ino, o, of->path});
    }
    return m;
}
int msync(void* a, size_t n, int flags) {
    if (SIMP) {
        for (auto const& s : g_shared_maps) {
            if (s.addr <= a and a < s.addr + s.len) {
                WriteBack(s);
            }
        }
        return 0;
    }
    return static_cast<int>(syscall(SYS_msync, a, n, flags));
}
int munmap(void* a, size_t n) noexcept {
    if (SIMP) {
        for (size_t i = 0; i < g_shared_maps.size(); ++i) {
            if (g_shared_maps[i].addr == a) {
                WriteBack(g_shared_maps[i]);
                g_shared_maps.erase(g_shared_maps.begin() +
                                    static_cast<long>(i));
                break;
            }
        }
    }
    return static_cast<int>(syscall(SYS_munmap, a, n));
}
void* mmap64(void* a, size_t l, int p, int f, int fd, off_t o) noexcept {
    return mmap(a, l, p, f, fd, o);
}

static void FillTemplate(char* x) {
    static char const cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int i = 0; i < 6; ++i) {
        x[i] = cs[EnvRng().Below(36)];
    }
}
char* mkdtemp(char* t) noexcept {
    if (not SIMP) {
        return real_mkdtemp()(t);
    }
    size_t const n = strlen(t);
    if (n < 6 or strcmp(t + n - 6, "XXXXXX") != 0) {
        errno = EINVAL;
        return nullptr;
    }
    for (int k = 0; k < 100; ++k) {
        FillTemplate(t + n - 6);
        if (DoMkdir(t, 0700) == 0) {
            return t;
        }
        if (errno != EEXIST) {
            break;
        }
    }
    return nullptr;
}
int mkostemps(char* t, int suf, int fl) {
    size_t const n = strlen(t) - static_cast<size_t>(suf);
    for (int k = 0; k < 100; ++k) {
        FillTemplate(t + n - 6);
        int const fd = DoOpen(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600, "");
        if (fd >= 0 or errno != EEXIST) {
            return fd;
        }
    }
    return Fail(EEXIST);
}
int mkstemp(char* t) {
    return SIMP ? mkostemps(t, 0, 0) : real_mkstemp()(t);
}
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int fl) { return mkostemps(t, 0, fl); }
int mkostemp64(char* t, int fl) { return mkostemps(t, 0, fl); }

FILE* tmpfile() {
    if (not SIMP) {
        return real_tmpfile()();
    }
    Enter("tmpfile", "/tmp");
    if (int e = FaultErr({kEmfile, kEnospc}, "tmpfile", "/tmp")) {
        errno = e;
        return nullptr;
    }
    auto n = MkInode(S_IFREG | 0600U);
    int const fd =
        AllocFd(std::make_shared<OpenFile>(n, O_RDWR, "<tmpfile>"), false);
    return MakeFile(fd, "w+");
}
FILE* tmpfile64() { return tmpfile(); }
FILE* fopen(char const* p, char const* m) {
    if (not SIMP) {
        return real_fopen()(p, m);
    }
    int const fd = DoOpen(p, ModeFlags(m), 0666, "");
    if (fd < 0) {
        return nullptr;
    }
    return MakeFile(fd, m);
}
FILE* fopen64(char const* p, char const* m) { return fopen(p, m); }
FILE* fdopen(int fd, char const* m) noexcept {
    if (not SIMP) {
        return real_fdopen()(fd, m);
    }
    if (Fd(fd) == nullptr) {
        errno = EBADF;
        return nullptr;
    }
    return MakeFile(fd, m);
}
int fclose(FILE* f) {
    if (SIMP) {
        g_files.erase(f);
    }
    return real_fclose()(f);
}
int fileno(FILE* f) noexcept {
    if (SIMP) {
        auto it = g_files.find(f);
        if (it != g_files.end()) {
            return it->second;
        }
    }
    return real_fileno()(f);
}

ssize_t copy_file_range(int in,
                        off64_t* oi,
                        int out,
                        off64_t* oo,
                        size_t n,
                        unsigned fl) {
    if (not SIMP) {
        return real_copy_file_range()(in, oi, out, oo, n, fl);
    }
    auto* a = Fd(in);
    if (a == nullptr or Fd(out) == nullptr) {
        return Fail(EBADF);
    }
    Enter("copy_file_range", a->path);
    a = Fd(in);
    auto* b = Fd(out);
    if (a == nullptr or b == nullptr) {
        return Fail(EBADF);
    }
    std::string buf(std::min<size_t>(n, 1UL << 20U), '\0');
    std::uint64_t const io =
        oi != nullptr ? static_cast<std::uint64_t>(*oi) : a->off;
    ssize_t const k = DoRead(a, buf.data(), buf.size(), io, oi == nullptr);
    if (k <= 0) {
        return k;
    }
    std::uint64_t const wo =
        oo != nullptr ? static_cast<std::uint64_t>(*oo) : b->off;
    ssize_t const w =
        DoWrite(b, buf.data(), static_cast<size_t>(k), wo, oo == nullptr);
    if (w < k) {
        if (oi == nullptr) {
            a->off = io + static_cast<std::uint64_t>(std::max<ssize_t>(w, 0));
        }
    }
    if (w > 0 and oi != nullptr) {
        *oi += w;
    }
    if (w > 0 and oo != nullptr) {
        *oo += w;
    }
    return w;
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept {
    if (not SIMP) {
        return real_sendfile()(out, in, off, n);
    }
    return copy_file_range(in, off, out, nullptr, n, 0);
}
ssize_t sendfile64(int out, int in, off_t* off, size_t n) noexcept {
    return sendfile(out, in, off, n);
}
int statvfs(char const* p, struct statvfs* s) noexcept {
    if (not SIMP) {
        return real_statvfs()(p, s);
    }
    memset(s, 0, sizeof *s);
    s->f_bsize = s->f_frsize = 4096;
    s->f_blocks = 1UL << 30U;
    s->f_bfree = s->f_bavail = 1UL << 29U;
    s->f_namemax = 255;
    return 0;
}
int fstatvfs(int, struct statvfs* s) noexcept { return statvfs("/", s); }
int fstatfs(int, struct statfs* s) noexcept {
    memset(s, 0, sizeof *s);
    s->f_bsize = 4096;
    s->f_namelen = 255;
    return 0;
}
long fpathconf(int, int name) noexcept {
    return name == _PC_NAME_MAX ? 255 : name == _PC_PATH_MAX ? 4096 : -1;
}
int isatty(int fd) noexcept {
    if (not SIMP) {
        return real_isatty()(fd);
    }
    errno = ENOTTY;
    return 0;
}
mode_t umask(mode_t m) noexcept {
    if (not SIMP) {
        return real_umask()(m);
    }
    auto const o = g_cur->proc->umask;
    g_cur->proc->umask = m;
    return o;
}
pid_t getpid() noexcept { return SIMP ? g_cur->proc->pid : real_getpid()(); }
pid_t getppid() noexcept { return SIMP ? g_cur->proc->ppid : real_getppid()(); }
uid_t getuid() noexcept { return kUid; }
uid_t geteuid() noexcept { return kUid; }
gid_t getgid() noexcept { return kUid; }
gid_t getegid() noexcept { return kUid; }

pid_t fork() noexcept {
    if (not SIMP) {
        return real_fork()();
    }
    Enter("fork", "");
    if (NextFault({kForkFail}, "fork") == kForkFail) {
        return Fail(EAGAIN);
    }
    int const r = ForkCurrent();
    TraceLine("fork returns " + std::to_string(r));
    return r;
}
__attribute__((noinline)) pid_t vfork() noexcept { return fork(); }

pid_t waitpid(pid_t pid, int* status, int opts) {
    if (not SIMP) {
        return real_waitpid()(pid, status, opts);
    }
    Enter("waitpid", "");
    if (NextFault({kEintr}, "waitpid") == kEintr) {
        return Fail(EINTR);
    }
    while (true) {
        bool have = false;
        for (auto& [id, p] : Procs()) {
            if (p->ppid != g_cur->proc->pid or p->reaped) {
                continue;
            }
            if (pid > 0 and id != pid) {
                continue;
            }
            have = true;
            if (not p->alive) {
                p->reaped = true;
                if (status != nullptr) {
                    *status = p->status;
                }
                LogOp("waitpid", "", p->status);
                return id;
            }
        }
        if (not have) {
            return Fail(ECHILD);
        }
        if ((opts & WNOHANG) != 0) {
            return 0;
        }
        Block(&Procs());
    }
}
pid_t wait(int* st) { return waitpid(-1, st, 0); }

static int DoExec(std::string const& file,
                  char* const* argv,
                  char* const* envp,
                  bool search) {
    Enter("exec", file);
    std::vector<std::string> cands;
    if (file.find('/') != std::string::npos or not search) {
        cands.push_back(file);
    }
    else {
        std::string path = "/bin";
        for (char* const* e = envp; e != nullptr and *e != nullptr; ++e) {
            if (strncmp(*e, "PATH=", 5) == 0) {
                path = *e + 5;
            }
        }
        std::size_t i = 0;
        while (i <= path.size()) {
            auto j = path.find(':', i);
            if (j == std::string::npos) {
                j = path.size();
            }
            cands.push_back(path.substr(i, j - i) + "/" + file);
            i = j + 1;
        }
    }
    int err = ENOENT;
    for (auto const& c : cands) {
        auto r = Resolve(c, true);
        if (r.err != 0 or not r.node) {
            continue;
        }
        if (not r.node->IsReg() or not MayAccess(r.node.get(), 1)) {
            err = EACCES;
            continue;
        }
        if (r.node->writers > 0) {
            Probe("etxtbsy");
            Note("exec of " + r.path + ": ETXTBSY");
            return Fail(ETXTBSY);
        }
        if (int e = FaultErr({kEio, kEacces}, "exec", r.path)) {
            return Fail(e);
        }
        std::vector<std::string> args;
        for (char* const* a = argv; *a != nullptr; ++a) {
            args.emplace_back(*a);
        }
        std::map<std::string, std::string> env;
        for (char* const* e = envp; e != nullptr and *e != nullptr; ++e) {
            std::string s{*e};
            auto k = s.find('=');
            env[s.substr(0, k)] =
                k == std::string::npos ? "" : s.substr(k + 1);
        }
        // program: "#!sim <name>" or registered under its path
        std::string key = r.path;
        auto const& d = *r.node->data;
        ProgramFn const* fn = nullptr;
        if (d.compare(0, 6, "#!sim ") == 0) {
            auto e = d.find_first_of(" \n", 6);
            key = d.substr(6, e == std::string::npos ? e : e - 6);
            fn = FindProgram(key);
        }
        else {
            fn = FindProgram(key);
        }
        if (fn == nullptr) {
            return Fail(ENOEXEC);
        }
        g_cur->proc->env = env;
        LogOp("exec", r.path, 0);
        auto f = *fn;
        // set path of the executable as argv context
        ExecCurrent([f, args]() { return f(args); }, r.path);
    }
    return Fail(err);
}
int execve(char const* f, char* const* a, char* const* e) noexcept {
    return DoExec(f, a, e, false);
}
int execvpe(char const* f, char* const* a, char* const* e) noexcept {
    return DoExec(f, a, e, true);
}
int execvp(char const* f, char* const* a) noexcept {
    return DoExec(f, a, environ, true);
}
int execv(char const* f, char* const* a) noexcept {
    return DoExec(f, a, environ, false);
}
[[noreturn]] void _exit(int c) {
    if (SIMP) {
        ExitCurrent(c);
    }
    real_syscall_exit:
    while (true) {
        __asm__ volatile("syscall"
                         :
                         : "a"(SYS_exit_group), "D"(static_cast<long>(c))
                         : "rcx", "r11", "memory");
    }
    goto real_syscall_exit;
}
[[noreturn]] void _Exit(int c) noexcept { _exit(c); }
[[noreturn]] void quick_exit(int c) noexcept { _exit(c); }
REAL(void, abort)
// A process that gives up (std::terminate, e.g., on an exception leaving a
// noexcept function) after a fault was injected into it: just one more way to
// crash. Without any fault, it is an error.
[[noreturn]] void abort() noexcept {
    if (g_cur != nullptr and g_cur->proc->nfaults > 0) {
        Probe("aborted_after_fault");
        Note("process aborts after fault");
        DieCurrent(6);
    }
    real_abort()();
    __builtin_unreachable();
}
REAL(void, exit, int)
[[noreturn]] void exit(int c) noexcept {
    if (SIMP) {
        ExitCurrent(c);
    }
    real_exit()(c);
    __builtin_unreachable();
}
int kill(pid_t pid, int sig) noexcept {
    if (not SIMP) {
        return real_kill()(pid, sig);
    }
    auto* p = FindProc(pid);
    if (p == nullptr or not p->alive) {
        return Fail(ESRCH);
    }
    if (sig == 0) {
        return 0;
    }
    if (p == g_cur->proc) {
        DieCurrent(sig);
    }
    ProcExit(p, sig, true);
    return 0;
}
}  // extern "C"

namespace sim::vfs {
void LoadReal(std::string const& real, std::string const& path) {
    struct stat st {};
    if (real_lstat()(real.c_str(), &st) != 0) {
        return;
    }
    if (S_ISDIR(st.st_mode)) {
        MkDirs(path);
        DIR* d = real_opendir()(real.c_str());
        while (auto* e = real_readdir()(d)) {
            std::string n = e->d_name;
            if (n != "." and n != "..") {
                LoadReal(real + "/" + n, path + "/" + n);
            }
        }
        real_closedir()(d);
    }
    else if (S_ISREG(st.st_mode)) {
        int const fd = real_open()(real.c_str(), O_RDONLY);
        std::string s(static_cast<size_t>(st.st_size), '\0');
        size_t k = 0;
        while (k < s.size()) {
            auto const r = real_read()(fd, s.data() + k, s.size() - k);
            if (r <= 0) {
                break;
            }
            k += static_cast<size_t>(r);
        }
        real_close()(fd);
        Write(path, s, static_cast<int>(st.st_mode & 0777U));
    }
}
}  // namespace sim::vfs
