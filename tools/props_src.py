# Source of properties.jsonl (run: python3 tools/props_src.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
MT='src/buildtool/multithreading/'
ST='src/buildtool/storage/'
FS='src/buildtool/file_system/'

p('C01','Task system: every queued task runs exactly once, and waiting really waits',
 'Every task handed to the task system, including tasks queued by other running tasks, is run exactly once by the time a wait for completion returns or the system is destroyed, unless it was shut down first. Waiting for completion returns only when no task is queued or running, returns within a bounded number of steps once all work is done, and the system can be reused afterwards. No schedule of the worker threads loses a wake-up, runs a task twice or deadlocks.',
 ['schedules','inputs'],'every interleaving of worker threads, queueing threads and waiters; every shape of recursive task creation and thread count, including shutdown racing with running work',
 'The tests run a handful of shapes under whatever schedule the kernel picks; lost wake-ups need one particular preemption between checking a queue and sleeping on it.',
 [MT+'task_system.cpp',MT+'task_system.hpp',MT+'notification_queue.hpp',MT+'task.hpp'],
 [('per-thread notification queues with work stealing',MT+'notification_queue.hpp: pop/try_pop/push/try_push/done'),
  ('workload counter and condition variable for completion',MT+'notification_queue.hpp: WaitableZeroCounter'),
  ('finish/shutdown protocol',MT+'task_system.cpp: Finish/Shutdown/Run')],
 [('total_workload_','queued plus running tasks',MT+'task_system.hpp')],['return of Finish(), destructor'])

p('C02','Async map: each key computed once, every consumer called exactly once',
 'For every set of requested keys, each distinct key is computed at most once, and each request whose keys all succeed has its continuation called exactly once with precisely the computed values in the order requested. If a needed key fails, the failure is reported to that request and propagates to dependent keys, no value is delivered for a request with a failed key, and independent keys are still delivered. When all work has drained, no key with satisfiable dependencies is left pending.',
 ['schedules','inputs'],'every interleaving of concurrent consumption, value setting and failure over arbitrary dependency graphs and worker counts',
 'Unit tests exercise a few small graphs; losing or duplicating a notification needs a value being set between a consumer checking readiness and enqueuing itself.',
 [MT+'async_map.hpp',MT+'async_map_consumer.hpp',MT+'async_map_node.hpp'],
 [('single queueing of the value creator',MT+'async_map_node.hpp: IsQueued/TrySetQueued/AddAwaitingTask'),
  ('count-down of pending keys and run of the consumer',MT+'async_map_consumer.hpp: AddAwaitingTask/ConsumeAfterKeysReady'),
  ('sharded map with shared locks',MT+'async_map.hpp: GetOrCreateNode')],None,['consumer and failure callbacks'])

p('C03','Cyclic dependencies are detected exactly',
 'After an evaluation has drained with keys still unresolved, cycle detection reports a cycle if and only if one of the requested keys (transitively) depends on itself, and it names keys that really form that cycle. For acyclic requests no cycle is ever reported, whatever the schedule was.',
 ['schedules','inputs'],'every dependency graph (with and without cycles, with failing keys) and every schedule',
 'The tests hold one or two fixed cycles; which pending keys remain when work drains depends on the graph and the schedule.',
 [MT+'async_map_consumer.hpp',MT+'async_map_utils.hpp'],
 [('record of pending keys per requesting key',MT+'async_map_consumer.hpp: RecordTask/DetectCycle')])

p('C04','Build-graph traversal runs needed actions once, after all their inputs',
 'Requesting any set of artifacts from an action graph processes every transitively needed action exactly once, only after all artifacts it consumes are available, processes no action that is not needed, and reports success only if every needed step was performed successfully. If a step fails, the traversal reports failure, and no action depending on the failed step is processed.',
 ['schedules','inputs'],'every acyclic action graph, every requested artifact set, every interleaving of workers, and every subset of failing or cached steps',
 'Unit tests use small fixed graphs under the ambient schedule; double execution or a premature start needs two inputs becoming available simultaneously on different threads.',
 ['src/buildtool/execution_engine/traverser/traverser.hpp','src/buildtool/execution_engine/dag/dag.hpp','src/buildtool/execution_engine/dag/dag.cpp'],
 [('once-flags for discovery and queueing of a node','dag.hpp: TraversalState GetAndMarkDiscovered/GetAndMarkQueuedToBeProcessed'),
  ('required-to-be-processed check before queueing','traverser.hpp: Process/NotifyAvailable/QueueProcessing'),
  ('failure flag','traverser.hpp: failed_')],
 [('TraversalState','discovered / queued / available / required flags','dag.hpp')])

p('C05','Lazily created shared values are created once and shared by all',
 'When several threads ask for the same lazily created value at once, the creating function runs at most once at a time, all callers obtain the same, fully constructed object, and a value once handed out is never replaced unless explicitly reset. Blocking waits on a shared value return after it has changed, and a notification is never lost.',
 ['schedules'],'every interleaving of first access, repeated access, store, wait and notify on shared values',
 'No unit test races the first access; a double creation needs preemption in the middle of the double-checked initialisation.',
 [MT+'atomic_value.hpp','src/utils/cpp/atomic.hpp'],
 [('double-checked initialisation under a mutex',MT+'atomic_value.hpp: SetOnceAndGet'),
  ('mutex/condvar backed wait and notify','src/utils/cpp/atomic.hpp')])

p('C06','Retries are bounded, spaced out, and stop at the first final answer',
 'A retried operation is attempted at most the configured number of times, stops at the first success or at the first error marked final, and reports success exactly if some attempt succeeded. Between attempts it waits at least the then-current back-off, which grows from the configured initial value and never exceeds the configured maximum (up to bounded jitter), and no wait follows the last attempt.',
 ['fault_sequences','inputs'],'every sequence of attempt outcomes (success, transient, final, thrown) and every retry configuration, on a simulated clock',
 'No unit test covers timing; a real clock would make minutes of back-off impractical.',
 ['src/buildtool/common/remote/retry.cpp','src/buildtool/common/remote/retry_config.hpp'],
 [('attempt loop','retry.cpp: WithRetry'),('exponential back-off with jitter','retry_config.hpp: GetSleepTimeSeconds')])

p('C10','Stored objects always match their digest',
 'Whatever is readable from the object store under a digest has exactly the content (and for executables the executable permission) that this digest identifies, at every instant and for every reader. This holds while several threads and processes store the same or different objects, after any of them dies at an arbitrary point, and after I/O errors, full disks and interrupted or short writes, which may make an operation fail but never make wrong content available.',
 ['schedules','crash_points','fault_sequences','histories'],'all interleavings of concurrent stores and reads by several processes, all crash points, all injected I/O errors',
 'Tests store objects one after another on a healthy disk; corruption needs a crash or error inside a store or two racing writers.',
 [FS+'file_storage.hpp',FS+'object_cas.hpp',ST+'local_cas.hpp',FS+'file_system_manager.hpp'],
 [('write to a unique temporary file, then rename or link into place',FS+'file_storage.hpp: AtomicAdd*/StageFile'),
  ('digest computed from the stored bytes',FS+'object_cas.hpp: StoreBlob*/IsAvailable'),
  ('fork-protected writing of executables',FS+'file_system_manager.hpp: CopyFileAs/WriteFileAs <fd_less>')],
 [('CAS directories','casf/casx/cast[/large] per generation','storage config')],['file tree of the CAS'])

p('C11','A store that reported success stays retrievable',
 'Once storing a blob, executable or tree has reported success, that object is found and read back byte for byte by every thread and process for as long as no garbage collection removes it, regardless of crashes of any process and of concurrent stores of the same object. A failed or concurrent store of the same object never makes it unavailable again.',
 ['schedules','crash_points','fault_sequences','histories'],'all interleavings of several storing and reading processes and threads, all crash points after the acknowledgement, injected errors in other operations',
 'Tests never race two stores of one object, nor kill a process between steps.',
 [FS+'file_storage.hpp',FS+'object_cas.hpp',ST+'local_cas.hpp'],
 [('first-wins hard-link or rename into place',FS+'file_storage.hpp: AtomicAddFromFile/AtomicAddFromBytes'),
  ('sync between executable and non-executable store',ST+'local_cas.hpp: TrySyncBlob/BlobPath')])

p('C12','A stored tree is never present without its contents',
 'In every generation of the local store, whenever a tree object (including one split into chunks) is present, every object it transitively references is present in that generation too. This holds at every instant, including after a crash at any point of storing, of carrying objects over to the youngest generation, or of garbage collection, and trees with missing or mistyped parts are refused.',
 ['schedules','crash_points','fault_sequences','histories'],'every interleaving and crash point of concurrent storing, up-linking between generations and garbage collection',
 'Tests check final states of fault-free sequential runs; a violation is visible only when an operation is cut between linking the tree and linking its parts.',
 [ST+'local_cas.hpp',ST+'local_cas.tpp',ST+'large_object_cas.tpp',ST+'uplinker.cpp'],
 [('parts are linked before the tree itself',ST+'local_cas.tpp: LocalUplinkGitTree/LocalUplinkBazelDirectory/LocalUplinkLargeObject'),
  ('tree invariant check on upload',ST+'local_cas.tpp: CheckTreeInvariant')])

p('C13','A cached action result never refers to missing objects',
 'Whenever an action-cache lookup returns a result, every file, directory and symlink target it names is retrievable, in the generation the entry is then in, at that moment and until the generation is collected. This stays true for entries carried over from older generations and after a crash or I/O error at any point of storing or carrying over.',
 ['schedules','crash_points','fault_sequences','histories'],'every interleaving and crash point of action-result stores, lookups, up-linking and garbage collection',
 'Tests check one fault-free order of operations.',
 [ST+'local_ac.tpp',ST+'local_ac.hpp',ST+'uplinker.cpp'],
 [('outputs are up-linked before the entry',ST+'local_ac.tpp: LocalUplinkEntry'),
  ('entry stored as CAS object plus key link',ST+'local_ac.tpp: StoreResult/WriteActionKey')])

p('C14','A target-cache entry never refers to missing artifacts',
 'Whenever a lookup of a high-level target returns a cached entry, all artifacts the entry mentions are available locally in the generation the entry is in, as are the entries of all targets it implies. Entries are never mixed up between different execution back ends, and a crash or I/O error at any point of storing or carrying over never leaves an entry visible whose artifacts are incomplete.',
 ['schedules','crash_points','fault_sequences','histories'],'every interleaving and crash point of target-cache stores, lookups, up-linking and garbage collection, for several back ends',
 'Tests store and look up in one process on a healthy disk.',
 [ST+'target_cache.tpp',ST+'target_cache.hpp',ST+'target_cache_entry.cpp'],
 [('artifact download before the entry is written',ST+'target_cache.tpp: Store/DownloadKnownArtifacts'),
  ('implied targets first on carry-over',ST+'target_cache.tpp: LocalUplinkEntry'),
  ('shard by back-end description',ST+'backend_description.cpp')])

p('C15','Garbage collection never removes what was used since the last one',
 'Every object, cached action result and cached target stored or successfully looked up (with everything it transitively references) after the previous garbage collection is still available, with unchanged content, after the next one. Objects not used for as many collections as there are generations are gone afterwards. Temporary directories of running processes are kept, and the store stays usable immediately afterwards.',
 ['histories','schedules','crash_points'],'every history of stores, look-ups and collections (with and without compactification, with generations of any number) from several processes',
 'End-to-end tests run single fixed histories, and most of them are not part of the unit tests.',
 [ST+'garbage_collector.cpp',ST+'uplinker.cpp',ST+'storage.hpp',ST+'config.hpp'],
 [('rotation of generations under an exclusive lock',ST+'garbage_collector.cpp: TriggerGarbageCollection'),
  ('up-linking on every look-up',ST+'uplinker.cpp')])

p('C16','Garbage collection and builds exclude each other',
 'While any process uses the store under the shared lock, no other process rotates or removes its generations; objects a build has found stay where they are until it releases the lock. Two collections never run at once, a collection started during a build waits and then proceeds, and a lock is released when its holder ends, however it ends.',
 ['schedules','crash_points'],'every interleaving of several building and several collecting processes, including holders that die',
 'The locking test covers two threads and one order of events.',
 [ST+'garbage_collector.cpp','src/utils/cpp/file_locking.cpp'],
 [('shared/exclusive advisory file locks','src/utils/cpp/file_locking.cpp: LockFile'),('lock acquired before any use',ST+'garbage_collector.cpp: SharedLock/ExclusiveLock')])

p('C17','An interrupted garbage collection leaves a usable, consistent store',
 'If garbage collection is killed or hits an I/O error at any point, every object used since the previous collection is still available, all references from trees and cache entries are still complete, and a later collection succeeds and also removes what the interrupted one left behind.',
 ['crash_points','fault_sequences','histories'],'every crash point and injected file-system error inside a collection, in sequences of collections',
 'No test interrupts a collection.',
 [ST+'garbage_collector.cpp',ST+'compactifier.cpp'],
 [('remove-me renaming before deletion, then rotation youngest last',ST+'garbage_collector.cpp: TriggerGarbageCollection')])

p('C18','Compactification changes no obtainable object',
 'Compactifying the store (removing duplicate spliced objects, splitting large objects, cleaning invalid entries) leaves every object that was obtainable before obtainable afterwards with identical content and executable property, never breaks the completeness of trees and cache entries, and reports success only if done. This also holds for a run interrupted at any point or hit by I/O errors, and with any number of worker threads.',
 ['schedules','crash_points','fault_sequences','histories'],'every schedule of the compactification tasks, every crash point and I/O error, and every store content and threshold',
 'Unit tests (not buildable here) run to completion on a healthy disk.',
 [ST+'compactifier.cpp',ST+'compactification_task.cpp',ST+'large_object_cas.tpp'],
 [('split before removal of the unsplit object',ST+'compactifier.cpp: SplitLarge/RemoveSpliced'),
  ('concurrent directory walk with failure flag',ST+'compactification_task.cpp')])

p('C19','Splitting and splicing large objects is lossless',
 'Splitting any object into chunks and splicing it back reproduces exactly the original object under the original digest; chunk boundaries depend only on the content, not on how the bytes arrive. Splicing from wrong, missing or incomplete chunks, or under I/O errors and short reads or writes, fails and never makes a different content available under the requested digest.',
 ['inputs','fault_sequences','schedules'],'all contents, all read and write granularities, all injected I/O errors, concurrent split and splice of the same object',
 'Tests use a few contents, a healthy disk, and full-size reads.',
 [ST+'large_object_cas.tpp',ST+'file_chunker.cpp','src/utils/cpp/incremental_reader.cpp',ST+'local_cas.tpp'],
 [('content-defined chunking over a sliding buffer',ST+'file_chunker.cpp: NextChunk'),
  ('digest check after splicing',ST+'local_cas.tpp: Splice')])

p('C20','Repository cleanup keeps repositories in recent use',
 'Repository roots used (found, created or looked up) since the previous repository collection stay available after the next one with their tagged commits and trees; a collection never changes or moves a repository while an invocation uses it; what was not used during as many collections as there are generations is no longer kept; and an interrupted collection loses nothing in recent use and can be repeated.',
 ['histories','crash_points','fault_sequences'],'every history of uses and collections, every crash point of a collection',
 'No unit test covers repository cleanup.',
 [ST+'repository_garbage_collector.cpp',ST+'fs_utils.cpp','src/other_tools/ops_maps/git_tree_fetch_map.cpp'],
 [('rotation of repository generations under exclusive lock',ST+'repository_garbage_collector.cpp')])

p('C21','Atomically written files are never seen partially written',
 'A file written through the atomic-write facility (identifier maps, cached lookups, reports) is at every instant either absent, or holds the complete previous or a complete new content, for every concurrent reader, with any number of concurrent writers, and after a crash or I/O error at any point. A reported success means the complete new content (or that of a competing later writer) is in place.',
 ['schedules','crash_points','fault_sequences'],'all interleavings of writers and readers from several processes, all crash points, short writes and errors',
 'No test interrupts or races these writes.',
 ['src/utils/cpp/file_locking.cpp','src/buildtool/file_system/atomic.cpp',ST+'fs_utils.cpp'],
 [('write temporary then rename',FS+'atomic.cpp: FileSystemAtomic::WriteFile')])

p('C22','Temporary directories are private and cleaned up',
 'Every temporary directory or file handed out is distinct from all others handed out by any thread or process at the same time, exists as long as it is in use, and is removed with its contents when released; releasing one never touches anything outside it or belonging to another user of the same parent directory.',
 ['schedules','fault_sequences'],'all interleavings of creations, nested creations and releases by several threads and processes',
 'The single test creates directories sequentially.',
 ['src/utils/cpp/tmp_dir.cpp','src/utils/cpp/path_rebase.hpp'],
 [('mkdtemp plus reference-counted removal','src/utils/cpp/tmp_dir.cpp')])

p('C23','File locks exclude across threads and processes',
 'An exclusive lock on a path is never held at the same time as any other lock on that path, by any thread or process, whereas any number of shared locks coexist. Waiting acquirers get the lock after it is released, a lock is released when its handle is destroyed (unless a child process inherited it) or its process dies, and moving a handle transfers it without releasing or leaking it.',
 ['schedules','crash_points'],'all interleavings of acquiring, moving and releasing handles by several threads and processes, including death of holders',
 'One test checks one order with real threads.',
 ['src/utils/cpp/file_locking.cpp','src/utils/cpp/file_locking.hpp'],
 [('advisory lock on a lock file handle','file_locking.cpp: LockFile::Acquire')])

p('C24','A finished subprocess is reported as what it was',
 'Running a command returns exit status zero only if the command was really started and ended with exit status zero; termination by a signal, failure to start, or inability to redirect output is never reported as success, and captured output files contain exactly what the command wrote. Interrupted system calls and concurrent executions by other threads do not change any result.',
 ['schedules','fault_sequences'],'all command outcomes (exit codes, signals, failed exec), interrupted or failing system calls, concurrent executions',
 'One test runs a few commands under normal conditions.',
 ['src/buildtool/system/system_command.hpp'],
 [('fork, redirect, exec, waitpid and status decoding','system_command.hpp: ForkAndExecute')])

p('C25','A stored executable can be run at once',
 'A file placed in the store or installed as an executable is, from the moment its availability is reported, complete and startable: no process of the build system, not even a child forked concurrently by another thread, holds it open for writing. If the writing helper fails or is killed, the write is reported as failed.',
 ['schedules','fault_sequences'],'all interleavings of threads storing executables and threads starting commands; death or failure of the helper at any point',
 'The race needs a fork in another thread while a write descriptor is open; tests hit it by luck only.',
 [FS+'file_system_manager.hpp',FS+'file_storage.hpp',FS+'object_cas.hpp'],
 [('executables are written by a forked child only',FS+'file_system_manager.hpp: CopyFileAs/WriteFileAs with fd_less')])

p('C30','Local actions see exactly their inputs and yield exactly their outputs',
 'A locally executed command runs in a private directory that contains exactly its declared inputs (content, executable bit, symlinks) and output directories, and the result records precisely the exit code, the captured output and the declared outputs it produced. Concurrent executions never see each other’s files, executing never modifies stored objects, and the private directory is removed afterwards.',
 ['schedules','fault_sequences','inputs'],'all interleavings of concurrent actions (same or different inputs), injected I/O errors, link-count limits and command failures',
 'Tests of local execution cannot be built here, and run one action at a time.',
 ['src/buildtool/execution_api/local/local_action.cpp','src/buildtool/execution_api/local/local_response.hpp'],
 [('unique execution directory and staging by hard link or copy','local_action.cpp: Run/StageInputs'),
  ('collection of outputs into the store','local_action.cpp: CollectAndStoreOutputs')])

p('C31','Only complete, successful results are served from the action cache',
 'An action whose caching is enabled and that succeeded is served from cache with identical outputs afterwards. Failed results, results lacking an expected output, and results of actions that must not be cached are never served from cache, and a failing or interrupted execution never leaves a cache entry that later looks successful.',
 ['schedules','crash_points','fault_sequences','histories'],'every history of executions of the same action with different cache modes, failing commands, crashes and I/O errors',
 'Tests run each mode once without faults.',
 ['src/buildtool/execution_api/local/local_action.cpp',ST+'local_ac.tpp'],
 [('exit-code and expected-outputs check on a cache hit','local_action.cpp: Execute'),('store only after outputs are in the CAS','local_action.cpp: Run')])

p('C32','Building yields the same artifacts under every schedule, or fails',
 'Building a set of artifacts of an action graph through the local execution interface either reports an error or yields for every requested artifact exactly the content a sequential build from scratch yields, whatever the number of workers, the schedule, the content of the caches, and the faults encountered. A reported success implies all requested artifacts are in the store.',
 ['schedules','fault_sequences','histories'],'every schedule, worker count, cache state and fault sequence for generated action graphs',
 'End-to-end tests cannot control schedules or faults.',
 ['src/buildtool/execution_engine/executor/executor.hpp','src/buildtool/execution_engine/traverser/traverser.hpp','src/buildtool/execution_api/local/local_api.cpp'],
 [('executor over traverser and local API','executor.hpp: Executor::Process')])

p('C40','Importing and tagging in the Git cache is safe under concurrency and crashes',
 'When importing content into the shared Git repository reports a commit or tree, that object with everything it references is readable from the repository and protected by a tag, and it is identical to what any other process importing the same content obtains. This holds with several threads and processes working on the same repository and after any of them crashed at an arbitrary point.',
 ['schedules','crash_points','fault_sequences'],'every interleaving of concurrent imports and taggings from several processes, every crash point',
 'The multi-process test runs four processes once under the ambient schedule.',
 [FS+'git_repo.cpp','src/other_tools/git_operations/git_operations.cpp','src/other_tools/ops_maps/critical_git_op_map.cpp'],
 [('file lock around critical operations','git_repo.cpp: KeepTag/InitAndOpen'),('per-process deduplication of critical operations','critical_git_op_map.cpp')])

p('C41','Reading Git objects concurrently yields what was stored',
 'Any number of threads reading blobs, trees and entries through the same repository handle obtain exactly the stored content or a clean failure under I/O errors, never another object’s content and never a partially built tree; tree entries are the same for every thread.',
 ['schedules','fault_sequences'],'every interleaving of reading threads on shared repository and tree handles, with injected read errors',
 'The tests race real threads without control over the schedule.',
 [FS+'git_cas.cpp',FS+'git_tree.cpp',FS+'git_repo.cpp',FS+'file_root.hpp'],
 [('lazily computed tree entries shared between threads',FS+'git_tree.hpp'),('locks around the object database',FS+'git_cas.cpp')])

p('C50','Analysis results do not depend on the schedule',
 'Reading module files, evaluating expressions and rules and analysing targets gives the same resulting targets, actions, blobs and trees, and success or failure of each target, for every number of worker threads and every schedule; identical exported graphs have identical serialisations. Dependency cycles are reported under every schedule, never hung.',
 ['schedules','configurations'],'every interleaving and worker count of the analysis of generated repositories',
 'End-to-end tests compare at most two runs under the ambient schedule.',
 ['src/buildtool/build_engine/target_map/target_map.cpp','src/buildtool/build_engine/base_maps/rule_map.cpp','src/buildtool/build_engine/target_map/result_map.hpp'],
 [('asynchronous maps for files, rules, expressions and targets','base_maps, target_map'),('result map with per-shard locking and sorted serialisation','result_map.hpp')])

p('C51','Symlink resolution terminates and is schedule independent',
 'Resolving the symlinks of a Git tree in the presence of an arbitrary link structure gives, under every schedule, the same resolved tree containing no symlinks that should have been resolved, or a failure; link cycles and links escaping the root are always reported as errors, never followed endlessly or left unanswered.',
 ['schedules','inputs'],'every link structure and every schedule of the resolving tasks',
 'The tests hold one fixed directory.',
 [FS+'symlinks/resolve_symlinks_map.cpp'],
 [('asynchronous resolve map with cycle detection','resolve_symlinks_map.cpp')])

p('C60','Archive extraction and creation are lossless or fail',
 'Extracting an archive yields exactly the archived tree or reports failure, under short reads, truncated input, I/O errors and full disks; success is never reported for a partially extracted tree, and creating an archive and extracting it again reproduces the tree.',
 ['inputs','fault_sequences'],'all trees and archive formats, all injected read and write faults',
 'Tests use one small tree on a healthy disk.',
 ['src/utils/archive/archive_ops.cpp'],
 [('libarchive copy loop with error checks','archive_ops.cpp')])

p('C70','Log files contain every emitted line whole',
 'Every log message emitted at or below a sink’s limit by any thread appears in the log exactly once, as contiguous lines with its prefix, never interleaved with parts of other messages and never torn; messages above the limit do not appear.',
 ['schedules'],'every interleaving of logging threads and sinks',
 'The multi-threaded log test samples ambient schedules only.',
 ['src/buildtool/logging/log_sink_file.hpp','src/buildtool/logging/log_sink_cmdline.hpp','src/buildtool/logging/logger.hpp'],
 [('mutex per sink and whole-message writes','log_sink_file.hpp')])

p('C71','Progress reporting never disturbs or outlives the build',
 'The progress reporter runs at the configured (simulated) intervals, stops when the build is done (at once if it is waiting, at the latest with the end of the current interval), and the counts it reports never exceed what really happened; starting and stopping never deadlock, and task tracking always names a task that is really running or none.',
 ['schedules'],'every interleaving of workers starting and stopping tasks, the reporter thread and the end of the build, on a simulated clock',
 'No test covers the reporter.',
 ['src/buildtool/progress_reporting/base_progress_reporter.cpp','src/buildtool/progress_reporting/task_tracker.hpp'],
 [('condition variable with done flag','base_progress_reporter.cpp'),('mutex-protected running set','task_tracker.hpp')])

p('C72','Operation cache keeps running operations and stays bounded',
 'The remote-execution service’s record of operations always returns the latest state set for an operation, never forgets an operation that is still running, and never keeps more than twice the configured limit of finished operations besides the newest; a collection happens only above that limit and removes at most the configured number of finished operations, oldest first. This holds with any number of threads updating and querying it.',
 ['schedules','histories'],'every history and interleaving of set and query operations and every limit',
 'The test runs set/query with real threads once.',
 ['src/buildtool/execution_api/execution_service/operation_cache.cpp'],
 [('garbage collection of finished operations under a mutex','operation_cache.cpp: GarbageCollection')])

p('C80','Remote execution and storage survive lost, repeated and delayed messages',
 'A client building against the remote-execution service over an unreliable network either reports failure or obtains exactly the artifacts of a local build; objects acknowledged by the service are stored there with the right content, and a retried or repeated request never yields a wrong or partial result. Uploads and downloads of any size reassemble exactly.',
 ['schedules','fault_sequences','inputs'],'every pattern of message loss, duplication and delay, server restarts and concurrent clients',
 'Tests of the remote interfaces need a real server and network and cannot be built here.',
 ['src/buildtool/execution_api/remote/bazel/','src/buildtool/execution_api/execution_service/'],
 [('retry wrapper around calls','bazel_cas_client.cpp, bazel_execution_client.cpp'),('digest checks on upload','cas_server.cpp, bytestream_server.cpp')])

p('C90','Expression evaluation follows its documented semantics',
 'Evaluating an expression yields exactly the value (or error) the documentation prescribes for the given environment, for every expression and environment.',
 ['programs','inputs'],'all expressions and environments',
 'Tests cover examples of each built-in.',
 ['src/buildtool/build_engine/expression/evaluator.cpp'],
 [('recursive evaluator','evaluator.cpp')])

p('C91','Digests and tree identifiers equal those of Git or the remote-execution API',
 'In native mode identifiers of blobs and trees equal those Git computes, in compatible mode those of the remote-execution API, for every content, however the input is chunked in memory.',
 ['inputs'],'all contents',
 'Tests use a few fixed contents.',
 ['src/buildtool/crypto/hasher.cpp','src/buildtool/crypto/hash_function.cpp'],
 [('hash with type-specific prefix','hash_function.cpp')])
if __name__=='__main__':
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        print(json.dumps(d,ensure_ascii=False))
