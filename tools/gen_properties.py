import json
B='src/main/cpp/Balau/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=B+b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p('Q01','Bounded blocking queue is a linearizable FIFO with exactly-once delivery',
 "Whatever threads enqueue and dequeue concurrently, and through whichever of the blocking, immediate and timed operations, the bounded blocking queue behaves as one sequential FIFO queue: every element accepted is handed out exactly once, in acceptance order, with its content fully visible to the receiver, and a refused or timed-out operation takes or inserts nothing and says so. The number of accepted but not yet handed out elements never exceeds the capacity. The queue-full and space-available callbacks are called, with the waiting element, exactly when an enqueue finds the queue full and when such an enqueue subsequently gets space.",
 ['schedules','histories','fault_sequences'],'Every interleaving of 2..6 producer/consumer threads at every memory access and lock/condition operation, every capacity, every mix of the ten operations, spurious wakeups, stalls and clock jumps.',
 'The existing tests run a handful of fixed producer/consumer workloads on whatever interleaving the OS happens to give; they can not reach a chosen preemption between a state check and an update, nor check linearizability.',
 ['Container/ArrayBlockingQueue.hpp','Container/BlockingQueue.hpp','Container/Queue.hpp'],
 [('mutex around element array, count, head and tail','Container/ArrayBlockingQueue.hpp'),('enqueue/dequeue condition variables','Container/ArrayBlockingQueue.hpp')],
 ['return values and success flags of enqueue/dequeue operations','callback invocations'])
p('Q02','Blocked queue callers always proceed, timed callers give up on time',
 "A caller blocked on the bounded blocking queue proceeds within bounded time once an element (or space) is available to it, for any number of waiting callers on either side, whatever wakeups are spurious; no caller is ever left asleep while it could proceed. An immediate operation never waits, and a timed operation that gives up does so no earlier than its wait time and no later than its wait time plus scheduling delay, even if the wall clock is stepped forwards or backwards meanwhile.",
 ['schedules','fault_sequences'],'Every interleaving of waiters and notifiers, every wait time, spurious wakeups, thread stalls, forward and backward wall clock steps at any instant.',
 'Liveness failures (a notify lost in a window of a few instructions) and clock steps do not occur in the unit tests: they use the real clock and one schedule.',
 ['Container/ArrayBlockingQueue.hpp'],
 [('notify_one under the lock, wait loops on the predicate','Container/ArrayBlockingQueue.hpp'),('remaining wait time computation','Container/ArrayBlockingQueue.hpp')],
 ['completion of every operation','simulated time at invocation and return'])
p('Q03','Synchronized queue is a linearizable unbounded FIFO that never blocks',
 "Concurrent use of the synchronised queue is equivalent to some sequential FIFO order consistent with real time: each enqueued element is dequeued at most once, in order, with its content fully visible to the receiver. Dequeueing from an empty queue throws the empty exception and leaves the queue usable, the emptiness query is atomic with respect to the other operations, and no operation waits for another thread's data.",
 ['schedules','histories','fault_sequences'],'Every interleaving of 2..5 threads calling enqueue, dequeue and empty, including exceptions (empty queue, failed allocation) inside the operations.',
 'Existing tests only use the queue from one thread or one fixed workload.',
 ['Container/SynchronizedQueue.hpp','Container/Queue.hpp'],
 [('mutex around the list','Container/SynchronizedQueue.hpp')],['return values and exceptions'])
p('S01','Semaphore conserves permits and never strands a waiter',
 "At every instant the number of completed decrements of a semaphore never exceeds its initial count plus the number of increments started; what a thread did before an increment is visible to the thread whose decrement it enabled. A thread waiting in a decrement always proceeds within bounded time when a permit is available, for any number of waiters, any order of increments and decrements and any spurious wakeups.",
 ['schedules','fault_sequences'],'Every interleaving of 2..6 threads incrementing and decrementing, spurious wakeups, stalls, any initial count.',
 'Lost wakeups and over-admission need a specific interleaving; the tests run one.',
 ['Concurrent/Semaphore.hpp'],[('count guarded by mutex + condition variable','Concurrent/Semaphore.hpp')],['ordering of increment/decrement invocations and returns'])
p('S02','Cyclic barrier releases exactly full generations and resets itself',
 "No thread returns from the barrier before the configured number of threads has arrived in the same generation, all of that generation's threads are then released within bounded time, and what any of them did before arriving is visible to all of them afterwards. The barrier is immediately reusable: for any number of consecutive generations no thread can overtake into a later generation or be left behind, and after an idle reconfiguration it behaves as a fresh barrier of the new size.",
 ['schedules','fault_sequences'],'Every interleaving of 1..6 threads over many generations, spurious wakeups, stalls, reconfiguration between uses.',
 'The tests check a single or a few rounds under the natural schedule; a fast thread re-entering while slow ones have not left needs a particular preemption.',
 ['Concurrent/CyclicBarrier.hpp','Concurrent/Semaphore.hpp'],[('two turnstiles and counter','Concurrent/CyclicBarrier.hpp')],['arrival and release order per generation'])
p('S03','Lazy values are constructed once and published completely',
 "However many threads ask for a lazy value at once, its construction function completes successfully at most once, and every caller receives the same, completely constructed object. A construction function that throws propagates to its caller and leaves the value unconstructed, so that the next request constructs it. The destruction function runs, exactly once and with that value, when the holder is destroyed if and only if the value was constructed.",
 ['schedules','fault_sequences'],'Every interleaving of 1..5 callers at every memory access (including the unlocked fast path), construction functions that throw at any attempt.',
 'Unsafe publication and double construction need a preemption inside the check/construct window; the tests are single threaded or time based.',
 ['Concurrent/LazyValue.hpp'],[('acquire/release flag with double-checked lock','Concurrent/LazyValue.hpp')],['construct/destruct calls','address and content of returned value'])
p('S04','Single time execution runs its code exactly once for all callers',
 "However many threads invoke a single time executor and whatever memory it was created in, its code completes successfully exactly once; every invocation returns only after that completion and sees its effects. Code that throws propagates to its caller and is run again by the next invocation. The destructor code runs, once, at destruction if and only if the code had completed.",
 ['schedules','fault_sequences'],'Every interleaving of 1..5 callers, throwing code at any attempt, arbitrary prior content of the memory the executor is constructed in.',
 'The tests run on whatever memory content and schedule they get, and cannot preempt inside the unlocked fast path.',
 ['Concurrent/SingleTimeExecutor.hpp'],[('executed flag, fences and double-checked lock','Concurrent/SingleTimeExecutor.hpp')],['number and order of code and destructor code executions'])
p('S05','Thread-local instances are private to each thread and object',
 "A thread-local instance gives every calling thread its own object, created on that thread's first access (by the supplied function, when there is one) and the same one on each later access by that thread. Two threads, or two thread-local instances that exist at the same time, never share an object, and each created object is destroyed exactly once by the end of its thread or of its holder.",
 ['schedules','histories'],'Every interleaving of 1..5 threads over 1..3 holders, first accesses racing, threads ending before and after others start.',
 'Tests use few threads and no chosen interleaving.',
 ['Concurrent/ThreadLocalInstance.hpp'],[('per-holder thread specific pointer','Concurrent/ThreadLocalInstance.hpp')],['object identity, creation and destruction counts per thread'])
p('I01','Injector singletons are created once and shared by every thread',
 "For every singleton binding of an injector, all threads that request it, directly, as a dependency of other objects or through a child injector, at any time and concurrently, receive the one same completely constructed instance, which is created at most once per injector hierarchy (at injector creation for eager singletons, and not before the first request for lazy ones). A construction that throws is reported to its requester and a later request tries again; no other binding is affected. Value, unique pointer and provider bindings give each request its own fresh object.",
 ['schedules','fault_sequences'],'Every interleaving of 2..5 threads requesting overlapping graphs of singletons, thread-local singletons, values and unique pointers from an injector and its children; constructors that throw at chosen calls.',
 'The injector tests are single threaded: none can reach two threads inside a lazy instantiation.',
 ['Application/Injector.hpp','Application/Impl/Binding.hpp','Application/Impl/BindingMap.hpp','Application/BindingBuilder.hpp'],
 [('lazy singleton double-checked instantiation','Application/Impl/Binding.hpp'),('eager instantiation in dependency order','Application/Injector.hpp')],
 ['constructor counts, instance identity and content seen by every thread'])
p('I02','Thread-local singleton bindings give each thread its own single instance',
 "For a thread-local singleton binding each thread receives its own instance: the same one on every request of that thread, directly or as a dependency, and never one that another thread was given. A construction that throws is reported to the requesting thread only and the next request of that thread tries again.",
 ['schedules','fault_sequences'],'Every interleaving of 2..5 threads making first and repeated requests, with failing constructors.',
 'The tests request thread-local singletons from at most a couple of threads under one schedule.',
 ['Application/Impl/Binding.hpp','Application/Injector.hpp'],[('thread-local singleton binding','Application/Impl/Binding.hpp')],['instance identity per thread'])
p('I03','Injector lifecycle callbacks run exactly once, in order, at the right time',
 "Post-construction calls, whether registered by configurations or by objects created while the injector is being built, each run exactly once, after all eager singletons exist and before injector creation returns. Pre-destruction calls, registered at any time from any thread, each run exactly once, in registration order, when the injector is destroyed and before any of its singletons is destroyed. This holds however registrations from several threads interleave, and when injector creation fails no post-construction call is run.",
 ['schedules','fault_sequences'],'Every interleaving of concurrent registrations and lookups in 1..4 threads, registration during construction, constructors that throw during injector creation.',
 'The tests register calls from one thread in one order and never fail a construction midway.',
 ['Application/Injector.hpp','Application/InjectorConfiguration.hpp'],[('callback lists guarded by a recursive mutex','Application/Injector.hpp')],['callback invocation history, constructor/destructor history'])
p('I04','Injector configurations are validated and every request gets its own binding',
 "Creating or validating an injector succeeds exactly when its configurations, with those that they add directly or indirectly, bind no key twice, leave no dependency unbound in the injector and its ancestors, form no dependency cycle and have no singleton depend on a shared pointer to the injector; otherwise the exception for such a defect is thrown before any object is constructed or post-construction call run. Every request and injected dependency, from any thread and however constructors fail, is answered by the nearest injector's binding of its type and name (a weak request by the shared binding, a const request by a const binding anywhere in the hierarchy or else by the non-const one) and never by another binding's object; defaults, default suppliers and null are used exactly where there is no binding. Objects are destroyed by the deleter of their binding, and a configuration object can be used for any number of injectors, one after the other.",
 ['inputs','schedules','fault_sequences'],'Every configuration of up to three injector levels, valid or not, every form of request, and every interleaving of requests by several threads with constructors that fail.',
 'The tests use a few fixed configurations, mostly valid ones with one level, one thread, and no failing constructor.',
 ['Application/Injector.hpp','Application/ApplicationConfiguration.hpp','Application/Impl/Binding.hpp','Application/Impl/BindingKey.hpp'],[('validation and lookups','Application/Injector.hpp')],['result of each creation, validation and request against a reference model; constructor/destructor history'])
p('L01','Every log call yields exactly one complete line, uncorrupted by other threads',
 "For every log call at an enabled level, each stream configured for that logger receives exactly one line consisting of the configured format applied to that call's own values (message and parameters, level, namespace, thread name, source location), and nothing for a disabled level. Lines written by concurrent threads to the same or different loggers and streams are never interleaved, merged, truncated, lost or repeated, and the lines of any one thread appear on a stream in the order of its calls.",
 ['schedules','inputs','fault_sequences'],'Every interleaving of 1..5 threads logging messages of varied sizes through overlapping loggers, formats and streams, including stalled streams and streams whose writes throw or fail.',
 'The logging tests compare the output of one thread; the concurrent ones that exist sample one schedule and only look at crash freedom.',
 ['Logging/Logger.cpp','Logging/Logger.hpp','Logging/Impl/LoggerItems.hpp','Logging/Impl/LoggerMessageItems.hpp','Logging/Impl/LoggingStreams.hpp','Logging/Impl/LoggingStreams.cpp','Logging/Impl/LoggerAllocator.hpp','System/ThreadName.hpp'],
 [('per-stream mutex held while a whole line is written','Logging/Impl/LoggingStreams.hpp'),('thread-local allocation buffers','Logging/Impl/LoggerAllocator.hpp')],['bytes received by each stream, in order'])
p('L02','Reconfiguring logging while threads log never loses or corrupts a message',
 "A log call that runs while the logging system is being configured is written completely and at most once, in a format and to a stream that either the previous or the new configuration specifies for its logger and level (never in a mixture of two formats), and it is written when both configurations enable it and not written when both disable it; every call that starts after the configuration call has returned uses the new configuration alone. A configuration call that fails, or that is made after the configuration has been locked, leaves the configuration in force unchanged. Requests for a logger of the same namespace always give the same logger from any thread, it takes its settings from its nearest configured ancestor namespace, and no interleaving of logging, logger creation, querying, flushing and configuration crashes or deadlocks.",
 ['schedules','configurations'],'Every interleaving of 1..4 logging threads with 1..2 configuring threads and concurrent logger creation, for generated configuration sequences (levels, formats, streams, namespaces).',
 'The tests configure, then log, in one thread; the window in which a logger is switched to its new settings is never observed.',
 ['Logging/Logger.cpp','Logging/Logger.hpp','Logging/Impl/LoggingState.cpp','Logging/Impl/LoggingState.hpp','Logging/Impl/LoggerHolder.hpp','Logging/Impl/LoggerConfigurationVisitor.hpp','Logging/Impl/LoggerPropertyVisitor.hpp'],
 [('state mutex and atomic logger fields','Logging/Impl/LoggingState.cpp'),('propagation of configuration down the namespace tree','Logging/Impl/LoggingState.cpp')],['bytes received by each stream','logger identity, level and enabled queries'])
p('L03','File log streams keep every line and tolerate files that cannot be opened',
 "Lines logged concurrently to a file stream are all in the file, complete and in order, once the stream is flushed or logging is reconfigured. Loggers that name the same file share it without interleaving their lines, existing content of the file is kept, and logging to the file continues across any number of reconfigurations. A path that cannot be opened is reported and does not stop logging to other streams or crash the process.",
 ['schedules','fault_sequences','configurations'],'Every interleaving of 1..4 logging threads with flushing and reconfiguration, short and interrupted writes, failing file opens, missing directories.',
 'The file tests write from one thread and no file operation fails; most of them do not pass at all on the pinned dependencies.',
 ['Logging/Impl/LoggingStreams.cpp','Logging/Impl/LoggingStreams.hpp','Logging/Impl/LoggingState.cpp','Resource/File.hpp'],
 [('stream mutex and stream pool shared by URI','Logging/Impl/LoggingStreams.cpp')],['content of the log files'])
p('M01','Shared memory queue delivers each message once, intact and in order',
 "A message enqueued on an inter-process queue by any thread or process is dequeued exactly once, with a content equal to what was enqueued, whatever its size relative to the queue's buffers and however many threads and processes enqueue concurrently; several threads or processes may dequeue concurrently when every message fits in one buffer, a single one when some do not. Messages that one producer sends with the same priority are received by one consumer in the order they were sent. A blocked enqueue or dequeue proceeds when space or a message is available.",
 ['schedules','inputs','fault_sequences'],'Every interleaving of 2..4 processes (1..3 producers, 1..2 consumers), message sizes from empty to many times the buffer, queue capacities 1..4, stalls at any point.',
 'The tests use one parent and one or two children with a few messages under the natural schedule.',
 ['Interprocess/SharedMemoryQueue.hpp','Interprocess/Impl/SharedMemoryQueueImpl.hpp','Interprocess/MSharedMemoryObject.hpp'],
 [('chunking with sequence numbers over an interprocess message queue, pending buffers','Interprocess/SharedMemoryQueue.hpp')],['messages received by every process'])
p('M02','Timed and immediate shared memory queue operations are truthful and on time',
 "An immediate or timed operation on an inter-process queue reports success if and only if it transferred the message; when it reports failure the message is not (even partly) in the queue, or is still there for a later dequeue. It gives up no earlier than its wait time (to the microsecond) and no later than its wait time plus scheduling delay, whatever the time zone of the process and however many buffers the message takes; an immediate or timed enqueue of a message that does not fit in one buffer throws a size exception. The full and empty queries of a queue at rest tell exactly whether the next enqueue or dequeue would be refused.",
 ['schedules','fault_sequences','configurations'],'Every interleaving, wait times 0..500 ms, producers stalled in the middle of a message, full and empty queues, time zones east and west of UTC.',
 'The tests never time out in the middle of a message and only run in the zone of the machine.',
 ['Interprocess/SharedMemoryQueue.hpp'],[('deadline computation, partial message bookkeeping','Interprocess/SharedMemoryQueue.hpp')],['return values, success flags, simulated time, messages received'])
p('M03','Shared memory objects are one object for all processes and leave nothing behind',
 "While the instance that created a named shared memory object exists, every process that opens the name sees the one object that was constructed, with all changes made by other processes; open-or-create attaches to an existing object without resetting it (managed objects: however openers and creators race, one object is constructed), opening a missing name fails, and creating replaces whatever a dead process left. Openers and forked children that leave do not remove the object. When the creating instance is destroyed, its names (and those of an inter-process queue it created) are gone from the system, while instances that other users still hold remain usable.",
 ['schedules','histories'],'Every interleaving of 2..5 processes or threads creating, opening (also read-only), opening-or-creating, changing, moving and leaving one name, including objects left by a crashed process.',
 'Tests create and open in one process in one order.',
 ['Interprocess/MSharedMemoryObject.hpp','Interprocess/USharedMemoryObject.hpp','Interprocess/SharedMemoryUtils.hpp'],[('construction modes over managed segments','Interprocess/MSharedMemoryObject.hpp')],['object content per process, names left in the system'])
p('F01','Child process helpers report every child exactly once and truthfully',
 "Forking runs the supplied function once, in the child only, with the parent receiving the child's process id (or an exception when the process cannot be created). Waiting for a child returns only when it has ended and gives how it ended; polling never blocks, reports a child exactly once, with the right process id, reason and status, if and only if it has ended, and terminating a running child ends it.",
 ['schedules','fault_sequences'],'Every interleaving of a parent with 1..4 children that return, exit, abort, are killed or run on, polls and waits at any instant, fork failing with EAGAIN or ENOMEM.',
 'Tests wait for children that exit normally after a fixed sleep.',
 ['Concurrent/Fork.hpp'],[('fork/waitid wrappers','Concurrent/Fork.hpp')],['termination reports against the simulated process table'])
p('T01','Every selected test yields exactly one correct result in every execution model',
 "For every execution model, concurrency level and schedule, a test run executes each selected and enabled test exactly once (setup, test, teardown) and no other, each selected test has exactly one result that matches how it ended (passed, failed, error, ignored), and the final counts, the generated reports and the exit status agree with these results. Each result is printed once and whole in all supplied writers, with the tests of a group together and in their order, and what tests write to the test log is neither lost nor duplicated nor torn. The run ends within a bounded time after the tests, leaving no process behind.",
 ['schedules','configurations','inputs'],'Every interleaving of 1..4 workers (threads or processes) over generated groups of tests with every outcome, failing setups and teardowns, output sizes beyond the result message limit, test selections, all writers, with and without reports, backward clock steps.',
 'The runner is only tested by running the test suite with it, on the natural schedule, with passing tests.',
 ['Testing/TestRunner.hpp','Testing/Impl/TestRunnerExecutor.hpp','Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp','Testing/Impl/SingleThreadedTestRunnerExecutor.hpp','Testing/Impl/MultiProcessTestRunnerExecutor.hpp','Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp','Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp','Testing/Impl/TestResult.hpp','Testing/Writers/StdWriters.hpp','Testing/Impl/CompositeWriter.hpp'],
 [('atomic next test index, result queue, ordered commit of results','Testing/Impl/TestRunnerExecutor.hpp')],['executions of each test body','runner output, reports, exit status'])
p('T02','A crashing test is reported as an error and never stops the other tests',
 "In the multi-process execution models, when the code of a test (its setup, body or teardown) ends the process that runs it, by a signal, an abort or an exit, the run still ends, that test has exactly one result, an error, and every other selected test is executed and has exactly one correct result. The final exit status then reports failure.",
 ['schedules','crash_points','fault_sequences'],'Any subset of tests (including the first) dying in setup, body or teardown by segmentation fault, abort, kill or exit with any status, at any concurrency level and interleaving.',
 'No test of the suite crashes; the replacement of dead workers is never exercised.',
 ['Testing/Impl/MultiProcessTestRunnerExecutor.hpp','Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp','Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp','Concurrent/Fork.hpp'],
 [('shared current test index per worker, replacement of dead workers','Testing/Impl/MultiProcessTestRunnerExecutor.hpp')],['runner output, exit status, executions of each test body'])
p('R01','File and archive reads give exactly the stored bytes or report an error',
 "Reading a file, a compressed file or an archive entry through the library gives exactly the stored content for every way in which the operating system delivers it (short reads, interrupted calls, any chunk size). When opening or reading fails, or compressed or archived content (which carries a checksum) is truncated or damaged, the caller gets an exception or a failed stream and never a silently shortened or altered content presented as complete. The same holds for hashes computed from files and for line-wise reads.",
 ['fault_sequences','inputs'],'Read errors, short reads and EINTR at any call, truncation and flipped bytes at any offset of the stored file, generated contents and sizes.',
 'Tests read intact files whose reads never fail or come short.',
 ['Util/Files.hpp','Util/Compression.hpp','Util/Streams.hpp','Util/Zip.hpp','Resource/File.hpp','Resource/ZipEntry.hpp','Resource/ZipFile.hpp'],
 [('stream state and zlib/libzip error handling','Util/Compression.hpp')],['returned content or reported error against the stored content'])
p('R02','Archive and file writes are complete or reported as failed',
 "When writing a file, compressing to or decompressing into a file, or committing an archive (with entries added, replaced, renamed or deleted in any order) reports success, the file on disk has exactly the requested content and can be read back to it. When opening, reading or writing fails, is cut short or runs out of space at any point, the failure is reported to the caller by an exception or failed stream. An archive that existed before an update that failed, was discarded, or was interrupted by the end of the process is still intact with its previous content (after an interruption: with either its previous or its complete new content).",
 ['fault_sequences','crash_points','inputs'],'Disk full, write errors, short and interrupted writes, failing opens, syncs, closes and renames and the end of the process at any disk operation while writing files, gzip files and zip archives; generated contents, updates and edits.',
 'Disk operations never fail in the tests.',
 ['Util/Compression.hpp','Util/Zip.hpp','Util/Files.hpp','Resource/File.hpp','Resource/FileByteWriteResource.hpp','Resource/FileUtf8WriteResource.hpp'],
 [('commit through libzip temporary file and rename','Util/Zip.hpp')],['content of the file after the operation, reported outcome'])
p('C01','Clock queries all agree with the one system clock',
 "Every query of the system clock service taken at the same instant describes the same instant: the time point, the date, and the counts of nanoseconds, microseconds, milliseconds, centiseconds and deciseconds since the epoch, each rounded down consistently, for any instant, including around midnight, leap days and clock steps.",
 ['fault_sequences','inputs'],'Any simulated instant from 1970 on and any forward or backward step of the clock between queries.',
 'Tests can only compare with the real current time.',
 ['System/SystemClock.hpp','System/Clock.hpp'],[('conversion from the system clock','System/SystemClock.hpp')],['returned values against the simulated clock'])
p('C02','Sleeps last at least as long as asked; thread names belong to their thread',
 "A sleep of any unit returns only after at least the requested time has passed and within the scheduling delay afterwards, however often signals interrupt it and however the wall clock is stepped meanwhile. The name that a thread sets (without surrounding spaces) is the name that this thread reads back until it sets another, never that of another thread, also when threads end and others start in their place; a thread that has set none reads an empty name.",
 ['schedules','fault_sequences'],'Every interleaving of 1..5 threads that sleep, set and read names, end and start, with interrupted sleeps and clock steps at any instant.',
 'Tests sleep without interruptions and name one thread.',
 ['System/Sleep.hpp','System/ThreadName.hpp'],[('sleep_for','System/Sleep.hpp'),('thread local name','System/ThreadName.hpp')],['simulated time before and after a sleep','names read back'])
p('U01','UUIDs never repeat; random generators keep bounds, seed and independence',
 "UUIDs generated by any threads and processes (forked ones included) at any time are well-formed version 4 UUIDs that never repeat and whose text and bytes agree. A random number generator only gives numbers between its inclusive bounds, which it can give too, and gives the same sequence whenever it is constructed with the same seed, whatever other threads do; generators without a seed, in different threads or processes, are independent of one another.",
 ['schedules','inputs'],'Every interleaving of 1..4 threads and forked processes creating UUIDs and generators of every number type and bound, with equal clocks.',
 'Tests generate a few values in one thread of one process.',
 ['Type/UUID.hpp','Util/Random.hpp'],[('seeding from the system entropy source','Util/Random.hpp'),('thread local generator','Type/UUID.hpp')],['generated values'])
p('U02','User and application directories are found, fixed and the same everywhere',
 "The user name is that of the effective user in the user database; the home directory is the HOME variable (without surrounding spaces) or, if that is unset or blank, the entry of the user in the database, of any size up to 1 MB, however often the lookup is interrupted and whatever other threads look up; a user that is not found or a failing lookup is an exception. The data and configuration directories of an application are below XDG_DATA_HOME and XDG_CONFIG_HOME, or if unset or blank below .local/share and .config in the home directory, the global ones below the share folder beside the program's, and the runtime directory below XDG_RUNTIME_DIR or TMPDIR, where it exists once it is returned; a directory that can not be found or created is an exception. The first successful call of each fixes its directory for the life of the process, for all threads, whatever changes afterwards.",
 ['inputs','fault_sequences','schedules'],'Any combination of set, unset, blank and padded variables, users with and without an entry of up to 60 kB, interrupted and failing lookups and directory creation, 1..4 threads asking, and changes of the environment in between.',
 'Tests see the one environment and user that run them, in one thread.',
 ['Util/User.hpp','Util/App.hpp','Util/Impl/AppImpl.hpp'],[('lookup with a growing buffer','Util/User.hpp'),('directories fixed in static variables','Util/App.hpp')],['returned names and directories or the exception','existence of the runtime directory'])
p('G01','Configuration loads completely with the documented values or fails',
 "Creating an injector from environment configurations binds every property of the cascaded property sources (with all directly and indirectly included files, each resolved relative to the file that includes it) at its place in the hierarchy, with the value of the last source and the type of the last type specification or a string without one, every specified default that no source provides, and nothing else. If a file is missing or cannot be opened or read completely, or a value does not convert to its type, creation fails with an exception instead of giving a partial configuration, and succeeds once the cause is gone. The result does not depend on other threads that load or read configurations, on how the disk delivers the data, or on whether the specification is given as files, text or calls.",
 ['inputs','fault_sequences','schedules'],'Any hierarchy of typed and untyped properties spread over cascaded sources and nested includes, any type specification, missing files, failing, short or interrupted disk operations at any point, 1..3 threads loading and reading.',
 'Tests load fixed texts on a disk that does not fail, in one thread.',
 ['Application/EnvironmentConfiguration.hpp','Application/EnvironmentProperties.hpp','Application/Impl/EnvironmentConfigurationBuilder.hpp','Application/Impl/EnvironmentConfigurationBuilderUtils.hpp','Application/Impl/PropertyTypeSpecificationVisitor.hpp','Lang/Property/Parser/PropertyParser.hpp','Resource/UriResolve.hpp'],
 [('cascade of property tries and specification factories','Application/Impl/EnvironmentConfigurationBuilder.hpp'),('exceptions from file streams and conversions','Application/Impl/PropertyBindingBuilderFactory.hpp')],['bindings and values of the injector, outcome of its creation'])
p('T03','Test reports on disk are complete, well-formed and agree with the run',
 "In every execution model, a run with a report folder leaves one report file for every group that has selected tests, and each is well-formed XML that lists every test of the group once, in order, with its outcome, its message and matching totals, whatever characters the messages contain and however the disk delivers short or interrupted writes. A report that cannot be written completely is named in the output and makes the run return a failure; the tests, the other results and the other reports are not affected.",
 ['inputs','fault_sequences','schedules'],'Runs of up to 24 tests in 4 groups in every execution model with 1..4 workers and crashing tests, messages of any bytes, failing opens and writes and full disks at any point, short and interrupted writes.',
 'The tests do not write reports to a failing disk and do not read the reports.',
 ['Testing/Reporters/SurefireTestReportGenerator.cpp','Testing/Impl/TestRunnerExecutor.hpp','Testing/TestRunner.hpp'],
 [('property tree written as XML','Testing/Reporters/SurefireTestReportGenerator.cpp'),('report generation when the last result of a group is printed','Testing/Impl/TestRunnerExecutor.hpp')],['report files','output and result of the run'])
p('H01','HTTP(S) resources give exactly the served body or report an error',
 "Reading an HTTP or HTTPS resource, as bytes or as text, sends one correct GET request for the URL to a server of its host and port, and gives exactly the body of one complete, well-formed response, however the network delivers it. If the name does not resolve, no address accepts the connection, the connection is refused, silent, reset or ends before the response is complete, or the certificate of an HTTPS server is not valid for the host, an exception is thrown; the process never ends and nothing shorter or made up is returned. Concurrent reads do not influence one another, and no connection, blocked signal or other trace of a read remains.",
 ['inputs','fault_sequences','schedules'],'Any body, framing (length, chunks, end of connection), content encoding and segmentation, delays and stalls, resets and ends at any byte of a response or request, several addresses of which some refuse, interrupted and short socket calls, five kinds of certificate, 1..3 threads.',
 'The tests need a real server on the Internet, in one healthy exchange; here they can not even run.',
 ['Resource/Http.hpp','Resource/UriComponents.hpp','ThirdParty/CppHttpLib/HttpLib.hpp'],
 [('the complete body is fetched when the resource is created','Resource/Http.hpp'),('connection, framing and TLS of the HTTP client','ThirdParty/CppHttpLib/HttpLib.hpp')],['content of the read stream or the exception','requests seen by the server, open connections, signal mask'])
p('H02','An e-mail is delivered exactly as given or the failure is logged',
 "When the e-mail sender returns without having logged an error, the mail server has authenticated the configured user and has accepted exactly one message, with the given sender, exactly the given recipients (the addressee and all copies), one header field each for the date (RFC 5322, now), sender, addressee, subject and a unique identifier, one user agent field if configured, the copies' addresses, and the given body byte for byte, of any length. If the server can not be reached, refuses at any point, closes, resets or falls silent, or its certificate is not valid while verification is asked for (then without seeing any credentials), exactly one error is logged and no message that differs from the e-mail is ever accepted; a server that behaves correctly never leads to an error. Concurrent sends do not influence one another and leave no connection open.",
 ['inputs','fault_sequences','schedules'],'Any body with CRLF line ends up to 200 kB (also with leading dots), 0..3 copies, server capabilities, segmentation and delay of the answers; refusals, ends, resets and silence at any stage, broken sends after any byte, refused and ignored connections, interrupted and short socket calls, five kinds of certificate, 1..3 threads.',
 'There is no test of the e-mail sender; one with a healthy server and a short text would not see a fault, a body larger than one buffer, or a bad certificate.',
 ['Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp','Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp','Concurrent/SingleTimeExecutor.hpp'],
 [('the composition of the message and the callback that feeds it to Curl','Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp'),('initialisation of Curl once, by the first thread','Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp')],['messages accepted by the mail server','errors logged to balau.network.curl, open connections'])
p('N01','HTTP server answers every well-formed request once and shuts down cleanly',
 "The HTTP server answers each complete request on a connection exactly once, in order, whatever the fragmentation of the data and however many clients are connected; a misbehaving client does not affect the others. Stopping the server ends all its threads and connections within bounded time and it can be started again.",
 ['schedules','fault_sequences'],'Every interleaving of network events with server workers, resets, partial requests, stop at any time.',
 'Tests drive a live server with well-behaved clients.',
 ['Network/Http/Server/HttpServer.cpp','Network/Http/Server/HttpSession.cpp','Network/Http/Server/Impl/Listener.hpp','Network/Http/Server/Impl/HttpSessions.hpp'],
 [('asio strands per session','Network/Http/Server/HttpSession.cpp')],['responses'])
p('E01','Property and configuration text is parsed to the same result on every input',
 "Parsing a property text gives the structure that the text denotes, or an exception for malformed text, and printing the structure and parsing it again gives the same structure.",
 ['inputs'],'All property texts.','Tests sample a few texts.',
 ['Lang/Property/Parser/PropertyParser.hpp','Lang/Property/Parser/PropertyScanner.hpp','Application/EnvironmentProperties.hpp'],
 [('recursive descent parser','Lang/Property/Parser/PropertyParser.hpp')],['AST'])
p('E02','Pure utilities compute the documented function on every input',
 "String, hashing, Unicode, URI, trie, dependency graph and command line utilities return the documented result for every input, independently of any other call.",
 ['inputs'],'All inputs.','Tests sample a few inputs.',
 ['Util/Strings.hpp','Util/Hashing.hpp','Container/ObjectTrie.hpp','Container/DependencyGraph.hpp','Application/CommandLine.hpp','Resource/UriComponents.hpp'],
 [('pure functions','Util/Strings.hpp')],['return values'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        n=x['statement'].count('. ')+1
        assert n<=3,(x['id'],n)
        f.write(json.dumps(x)+'\n')
print(len(P))
