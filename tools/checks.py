"""Which harness decides which property, and what is real and what is a stub
in it. Used by check.py (running), manifest.py (MANIFEST.json)."""

TECH = "deterministic simulation with fault injection"

# harness -> description of what runs
HARNESS = {
    "conc": {
        "real": ["TaskSystem, TaskQueue(s), Notifier, TaskSystem waiting/"
                 "shutdown", "AsyncMapNode/AsyncMap/AsyncMapConsumer and cycle "
                 "detection", "DependencyGraph and Traverser", "AtomicValue",
                 "WithRetry and RetryConfig"],
        "stub": ["threads (fibers of the simulator), mutexes, condition "
                 "variables, clocks, sleep and entropy", "grpc::Status (same "
                 "interface)", "the build runner invoked by the traverser "
                 "(records calls)"],
    },
    "store": {
        "real": ["LocalCAS, ObjectCAS, LargeObjectCAS, FileChunker, "
                 "FileStorage", "LocalAC, TargetCache and entries", "Uplinker, "
                 "GarbageCollector, Compactifier, CompactificationTask, "
                 "LockFile", "FileSystemManager, FileSystemAtomic, LowLevel "
                 "helpers (including their forked children), TmpDir",
                 "hashing, TreeOperations parsing, BazelMsgFactory/protobuf"],
        "stub": ["kernel: files, processes, signals, flock, clock (the "
                 "simulator's POSIX model)", "threads (fibers), mutexes, "
                 "entropy", "build logic using the store (random programs "
                 "standing in for builds)"],
    },
}

HARNESS["futil"] = {
    "real": ["FileSystemAtomic, fs_utils WriteTreeIDFile, FileSystemManager "
             "(all forked helpers included), IncrementalReader", "TmpDir, "
             "TmpFile", "LockFile", "SystemCommand", "LocalCAS (storing and "
             "splicing executables)"],
    "stub": ["kernel: files, processes, exec, signals, flock, clock (the "
             "simulator's POSIX model)", "threads (fibers), entropy",
             "commands run (a simulated program with chosen behaviour)"],
}

HARNESS["rep"] = {
    "real": ["Logger, LogConfig, LogSinkFile, LogSinkCmdLine",
             "BaseProgressReporter and the reporters for builds, exports and "
             "computed roots, TaskTracker, Statistics", "OperationCache"],
    "stub": ["threads (fibers), mutexes, condition variables, clocks",
             "kernel: files (the simulator's POSIX model); standard error "
             "(a recording stream)", "the build being reported on"],
}

HARNESS["exec"] = {
    "real": ["LocalApi, LocalAction, LocalResponse, LocalCasReader and the "
             "local storage below them", "DependencyGraph, Traverser, Executor "
             "and the task system", "BazelApi, BazelAction, BazelResponse, "
             "BazelNetwork, network reader, CAS/AC/execution/bytestream/"
             "capabilities clients with their retry logic",
             "ExecutionServiceImpl, CASServiceImpl, ActionCacheServiceImpl, "
             "BytestreamServiceImpl, CapabilitiesServiceImpl, "
             "OperationCache", "BazelMsgFactory, DirectoryTree, tree "
             "operations, SystemCommand, FileSystemManager"],
    "stub": ["kernel: files, processes, exec, signals, flock, clock (the "
             "simulator's POSIX model)", "threads (fibers), mutexes, entropy",
             "gRPC (an in-process transport that loses, repeats, delays and "
             "cuts messages; generated stubs with the same interface)",
             "commands run (a simulated program with chosen behaviour)"],
}

HARNESS["git"] = {
    "real": ["GitCAS, GitRepo, GitTree, FileRoot, git operations, critical Git "
             "operation map, import-to-Git map, Git-tree fetch map",
             "RepositoryGarbageCollector", "LocalApi and the local storage, "
             "SystemCommand, FileSystemManager, LockFile, TmpDir",
             "libgit2 and its file access (with static data per simulated "
             "process)", "task system and asynchronous maps"],
    "stub": ["kernel: files, memory mappings, processes, exec, flock, clock "
             "(the simulator's POSIX model)", "threads (fibers), mutexes, "
             "entropy", "command generating a tree (a simulated program)",
             "remote Git servers and serve endpoints (absent)"],
}

CHECKS = {}


def c(prop, harness, what, quick=30, thorough=900, assume=()):
    CHECKS[prop] = {"harness": harness, "what": what, "quick": quick,
                    "thorough": thorough, "assume": list(assume)}


c("C01", "conc", "random task trees queued from inside and outside of the "
  "pool, several waiters and rounds, shutdown and destruction at random times, "
  "under random/PCT schedules with spurious wake-ups; exactly-once and "
  "waiting checked on every run, deadlock and livelock detected")
c("C02", "conc", "random dependency structures with failing, warning and "
  "asynchronously finishing keys and requests from several threads, compared "
  "with a sequential reference evaluation")
c("C03", "conc", "random dependency structures with and without cycles, "
  "judged by a sequential reference search")
c("C04", "conc", "random build graphs with failing, throwing and slow "
  "actions traversed by several threads, judged by a reference traversal")
c("C05", "conc", "several threads racing on lazily created values with "
  "failing, throwing creators and resets")
c("C06", "conc", "random outcome sequences and retry configurations on the "
  "simulated clock")

KERNEL = ("file-system operations are atomic and immediately durable in the "
          "order issued: process crashes lose nothing a system call completed, "
          "power loss is not modelled",)
c("C10", "store", "several build and collection processes with threads store, "
  "split, splice and carry over the same and different objects under crashes, "
  "I/O errors, full disks, short and torn writes; every mutation of a store "
  "path is checked against the digest it is stored under, as are all reads",
  assume=KERNEL)
c("C11", "store", "reported stores are looked up and read by all threads and "
  "processes under the same faults", assume=KERNEL)
c("C12", "store", "after every mutation of a generation, completeness of all "
  "trees in it is checked; trees with missing parts are offered and must be "
  "refused", assume=KERNEL)
c("C13", "store", "after every mutation, completeness of the action-cache "
  "entries of each generation; lookups compared with what was stored",
  assume=KERNEL)
c("C14", "store", "after every mutation, completeness of the target-cache "
  "entries of each generation (artifacts, implied targets), for several "
  "execution back ends", assume=KERNEL)
c("C15", "store", "usage histories of several processes with collections in "
  "between; a reference model decides what must be kept and what must be gone",
  assume=KERNEL)
c("C16", "store", "collections racing with builds holding the shared lock, "
  "processes dying at any point; mutations of generations are attributed to "
  "lock holders; progress once faults stop", assume=KERNEL)
c("C17", "store", "collections killed or failing at any system call, followed "
  "by builds and another collection", assume=KERNEL)
c("C18", "store", "compactification with several threads under faults; "
  "everything obtainable before must be obtainable afterwards with the same "
  "content", assume=KERNEL)
c("C19", "store", "objects of random content split, spliced and offered with "
  "wrong, missing and incomplete chunks under I/O errors and short reads and "
  "writes", assume=KERNEL)

c("C21", "futil", "several processes with threads write and read the same "
  "files through both facilities; after every system call the file must be "
  "absent or complete, every read must return a content that was in place "
  "meanwhile, every reported success must have been installed", assume=KERNEL)
c("C22", "futil", "random trees of temporary directories and files created, "
  "used and released by several processes with threads; every removal is "
  "attributed to a release", assume=KERNEL)
c("C23", "futil", "several processes with threads take, move, assign and "
  "release locks (in a fixed order of paths) under crashes and interruptions, "
  "while children are forked; a table of holders decides, deadlock is "
  "detected", assume=KERNEL)
c("C24", "futil", "commands with chosen exit codes, signals, output sizes and "
  "durations run from several threads under failing and interrupted system "
  "calls; the result is compared with what the command really did",
  assume=KERNEL)
c("C25", "futil", "executables written, copied, stored, spliced and run while "
  "other threads fork children; from the moment of success the file is "
  "complete, executable and not open for writing in any process",
  assume=KERNEL)

c("C30", "exec", "random actions (inputs and outputs of all kinds, both output "
  "modes, both hashing protocols) executed by several processes with threads "
  "under crashes, I/O errors, full disks and link limits; the command itself "
  "checks what it sees, results are compared with what it did, the store is "
  "re-hashed and left-overs are looked for", assume=KERNEL)
c("C31", "exec", "histories of executions of the same actions with all cache "
  "modes, failing commands, bad cache entries and crashes; every result from "
  "the cache must agree with a complete, successful, cacheable execution",
  assume=KERNEL)
c("C32", "exec", "random graphs of actions, trees and overlays built through "
  "executor, traverser and local API by several processes on one store, "
  "compared with a reference evaluation of the graph; everything reported is "
  "read back from the store", assume=KERNEL)
c("C80", "exec", "clients building, executing, uploading and downloading "
  "against a server over a network that loses, repeats, delays and cuts "
  "messages, with crashes and I/O errors on both sides and server restarts; "
  "judged as C30-C32 and by what the server acknowledged", assume=KERNEL)

c("C20", "git", "histories of invocations using trees of the Git cache and "
  "repository collections, racing, killed or failing at any system call; "
  "retention against a model of uses, mutations of generations attributed to "
  "the processes using them", assume=KERNEL)
c("C40", "git", "several invocations with threads fetch, import and tag trees "
  "in one Git cache, dying or failing at any system call; what was reported "
  "is read back with all it references and its tag before the locks are "
  "released", assume=KERNEL)
c("C41", "git", "threads read blobs, trees, entries, paths and file roots "
  "through shared handles under read errors and short reads, next to "
  "importing processes; every answer is compared with what was stored",
  assume=KERNEL)

c("C70", "rep", "threads log messages of random levels, sizes and numbers of "
  "lines through global and own loggers that reach the same file by different "
  "names, with partial writes; the log is parsed and compared with what was "
  "emitted")
c("C71", "rep", "simulated builds of random duration with all reporters; "
  "times, counts and task names of every report are compared with what "
  "happened; reporter must end with the interval it is in")
c("C72", "rep", "threads start, update, finish and query operations for small "
  "limits; every answer must be the latest state, what a collection removes "
  "is judged")
