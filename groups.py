# Which harness decides which property.
GROUPS = {
    'concurrency': {'harness': 'concurrency.cpp', 'sources': [], 'real': 'Semaphore, CyclicBarrier, LazyValue, SingleTimeExecutor, ThreadLocalInstance (unmodified headers), boost thread specific pointers'},
    'bindings': {'harness': 'bindings.cpp', 'sources': [], 'real': 'Injector, Binding, BindingMap, BindingKey, BindingBuilder, ApplicationConfiguration, DependencyGraph (boost graph; unmodified)'},
    'injector': {'harness': 'injector.cpp', 'sources': [], 'real': 'Injector, Binding, BindingMap, BindingKey, BindingBuilder, ApplicationConfiguration, LazyValue, ThreadLocalInstance (unmodified), DependencyGraph (boost graph)'},
    'logger': {'harness': 'logger.cpp', 'sources': ['Logging/' + f for f in ('Logger.cpp', 'Impl/LoggingState.cpp', 'Impl/LoggingStreams.cpp', 'Impl/LoggerItems.cpp', 'Impl/LoggerAllocator.cpp', 'Impl/LoggerHolder.cpp')],
               'real': 'the whole logging system (Logger, LoggingState, LoggerItems, LoggingStreams, LoggerAllocator, LoggerHolder, configuration visitors), the property parser and environment configuration below it, Resource::File and file streams (all unmodified)',
               'stub': 'thread scheduler, clocks, timers, lock and condition variable implementation, heap; the buffers of cout and cerr; faults injected between libstdc++ file streams and the kernel'},
    'shm': {'harness': 'shm.cpp', 'sources': [], 'real': 'SharedMemoryQueue, MSharedMemoryObject, USharedMemoryObject (unmodified headers), Boost.Interprocess (message_queue, managed_shared_memory, mapped_region), Boost.Serialization, real forked processes and real shared mappings',
            'stub': 'process and thread scheduler, clocks, timers, process-shared lock and condition variable implementation, names of shared memory (kept in a directory of the run), heap'},
    'proc': {'harness': 'proc.cpp', 'sources': [], 'real': 'Concurrent::Fork (unmodified header), real forked processes',
             'stub': 'process and thread scheduler, clocks, process creation failures, signals between processes, waitid/waitpid'},
    'runner': {'harness': 'runner.cpp', 'sources': ['Testing/Reporters/SurefireTestReportGenerator.cpp'], 'real': 'the test runner with all four executors, test groups, writers (composite, stream, file, standard output), result transfer (SharedMemoryQueue, MSharedMemoryObject), Fork, command line parsing, real forked processes (all unmodified)',
               'stub': 'process and thread scheduler, clocks, process-shared lock and condition variable implementation, signals and exits of processes, the console (a file or a checked buffer); the report generator collects the results in memory'},
    'io': {'harness': 'io.cpp', 'sources': [], 'real': 'Resource::File and the file, byte, UTF-8 and zip entry resources, GZip, Zipper and Unzipper, Hashing, Files, Streams (unmodified), libzip, zlib, Boost.Iostreams, Boost.Filesystem, libstdc++ file streams',
            'stub': 'disk faults between libc and the kernel (errors, short and interrupted calls, full disk, failing open/rename/sync/close), the end of the process at a chosen disk operation, damage to stored files, clocks, entropy, heap'},
    'system': {'harness': 'system.cpp', 'sources': [], 'real': 'SystemClock, Sleep, ThreadName, UUID, RandomNumberGenerator (unmodified headers), the bundled date library, libstdc++ chrono and random, Boost.Uuid',
            'stub': 'clocks and timers (steps, skew, interrupted sleeps), system entropy, thread and process scheduler'},
    'env': {'harness': 'env.cpp', 'sources': [], 'real': 'EnvironmentConfiguration and its builder, EnvironmentProperties, the property scanner and parser, UriResolve, Resource::File and String, FromString, Injector (unmodified headers), libstdc++ file streams',
            'stub': 'disk faults between libstdc++ file streams and the kernel (failing opens and reads, short and interrupted reads), thread scheduler, heap'},
    'http': {'harness': 'http.cpp', 'sources': [], 'real': 'Resource::Http and Https with their byte and UTF-8 read resources, UriComponents, the bundled cpp-httplib client (unmodified headers), OpenSSL, zlib, Boost.Iostreams',
            'stub': 'thread scheduler, clocks, timers, heap; name resolution and the socket calls (connect, send, recv, select, poll, ...) of a simulated network; the servers (a stand-in that answers one GET; for HTTPS with a real OpenSSL server over memory buffers and certificates made for the run)'},
    'userdirs': {'harness': 'userdirs.cpp', 'sources': [],
      'real': 'Util/User, Util/App, Util/Impl/AppImpl, Resource/File with the real boost::filesystem', 'stub': 'user database (getpwuid, getpwuid_r), user ids, threads (uthreads), mkdir failures'},
    'mail': {'harness': 'mail.cpp', 'sources': ['Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp', 'Network/Http/Server/HttpWebApps/Impl/CurlInitializer.cpp'] + ['Logging/' + f for f in ('Logger.cpp', 'Impl/LoggingState.cpp', 'Impl/LoggingStreams.cpp', 'Impl/LoggerItems.cpp', 'Impl/LoggerAllocator.cpp', 'Impl/LoggerHolder.cpp')], 'libs': ['-lcurl'],
            'real': 'CurlEmailSender, the Curl initialiser, the logging system (unmodified), libcurl, OpenSSL', 'stub': 'thread scheduler, clocks, timers, heap; the socket calls (connect, send, recv, poll, ...) of a simulated network; the mail servers (a stand-in that speaks SMTP over a real OpenSSL server with memory buffers and certificates made for the run); the file of certificate authorities'},
    'queues': {'harness': 'queues.cpp', 'sources': [], 'real': 'ArrayBlockingQueue, SynchronizedQueue (unmodified headers), libstdc++ containers'},
}
PROPS = {
    'C01': {'group': 'system', 'quick': 10},
    'C02': {'group': 'system', 'quick': 10},
    'F01': {'group': 'proc'},
    'G01': {'group': 'env', 'quick': 20},
    'H01': {'group': 'http', 'quick': 25},
    'H02': {'group': 'mail', 'quick': 30},
    'I01': {'group': 'injector'},
    'I02': {'group': 'injector'},
    'I03': {'group': 'injector'},
    'I04': {'group': 'bindings'},
    'L01': {'group': 'logger', 'quick': 20},
    'L02': {'group': 'logger', 'quick': 25},
    'L03': {'group': 'logger', 'quick': 20},
    'M01': {'group': 'shm', 'quick': 20},
    'M02': {'group': 'shm', 'quick': 20},
    'M03': {'group': 'shm', 'quick': 20},
    'R01': {'group': 'io', 'quick': 20},
    'R02': {'group': 'io', 'quick': 25},
    'S01': {'group': 'concurrency'},
    'S02': {'group': 'concurrency'},
    'S03': {'group': 'concurrency'},
    'S04': {'group': 'concurrency'},
    'S05': {'group': 'concurrency'},
    'T01': {'group': 'runner', 'quick': 20},
    'T02': {'group': 'runner', 'quick': 20},
    'T03': {'group': 'runner', 'quick': 20},
    'Q01': {'group': 'queues'},
    'Q02': {'group': 'queues'},
    'Q03': {'group': 'queues'},
    'U01': {'group': 'system', 'quick': 10},
    'U02': {'group': 'userdirs', 'quick': 15},
}
