"""Single source of truth for properties.jsonl (see tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


C = 'satella/coding/'
CC = 'satella/coding/concurrent/'
CS = 'satella/coding/structures/'
CD = 'satella/coding/structures/dictionaries/'

prop('C01', 'Monitors give mutual exclusion, and only until the protected region ends',
     'At any moment at most one thread executes inside the regions protected by one monitor (or one locked '
     'structure or locked dataset), whichever of the documented ways of entering it was used, and a re-entrant '
     'monitor can be re-entered only by the thread holding it. '
     'Leaving a region, normally or by exception, always hands the monitor back, and temporarily releasing a '
     'monitor always ends with it held again. '
     'A locked dataset refuses access while no one holds its lock, and a lock attempt that times out neither enters '
     'nor disturbs the holder. Monitored lists, dicts and sets otherwise behave like the plain ones, and copying a '
     'monitored list or dict gives an independent one with a free monitor of its own.',
     ['schedules', 'histories'],
     'every interleaving (within a preemption bound) of 2-3 threads entering through every pair of entry styles, '
     'with normal and exceptional exits',
     'Tests run a couple of lucky interleavings with sleeps; a lock dropped on one exit path or taken on the wrong '
     'object only shows under a specific schedule.',
     [CC + 'monitor.py', CC + 'locked_structure.py', CC + 'locked_dataset.py'],
     [('Monitor/RMonitor, synchronized, acquire, release, synchronize_on, synchronize_on_attribute', CC + 'monitor.py'),
      ('LockedStructure', CC + 'locked_structure.py'), ('LockedDataset', CC + 'locked_dataset.py')])

prop('C02', 'AtomicNumber is linearizable and its waiters are never lost',
     'Every operation on an atomic number (arithmetic and comparison with plain numbers, comparison of two atomic '
     'numbers) behaves as if it took effect at one instant: concurrent updates are never lost, no operation '
     'deadlocks, and results are those of the same operation on plain numbers. '
     'A thread waiting for a given value returns once the number has and keeps that value, and a timed wait ends by '
     'its timeout with the documented exception otherwise.',
     ['schedules', 'inputs'],
     'all operation pairs on a small value domain, all bounded interleavings of updaters, readers and waiters',
     'Lost updates and lost wake-ups need a switch between two particular bytecodes.',
     [CC + 'atomic.py', CC + 'thread.py'],
     [('AtomicNumber operators, wait, wait_until_equal', CC + 'atomic.py'), ('Condition', CC + 'thread.py')])

prop('C03', 'PeekableQueue: FIFO, exactly-once delivery, no consumer left asleep',
     'Items come out of the queue in the order they were put, those put at once in a row, each item is returned by exactly one get, and '
     'peeking returns the current head without consuming it. '
     'A consumer or peeker that waits is released as soon as there is an item for it; with a timeout it either '
     'returns an item or raises the empty-queue exception after the timeout, and loses no item in doing so.',
     ['schedules', 'histories'],
     'all bounded interleavings of producers (single and bulk), getters and peekers with and without timeouts; all '
     'operation sequences up to a depth',
     'Wake-ups lost between releasing the lock and starting to wait show only in one window of the schedule.',
     [CC + 'queue.py', CC + 'thread.py'], [('PeekableQueue', CC + 'queue.py')])

prop('C04', 'Issued and allocated identifiers are unique and inside their range',
     'A sequential issuer never issues a number twice, never goes backwards, and every number it reports as issued '
     'up to a requested value stays issued. '
     'An identifier allocator never hands out an identifier that is currently allocated or marked as allocated, '
     'never leaves its declared range, serves freed identifiers again, and reports exhaustion exactly when every '
     'identifier in range is in use.',
     ['histories', 'schedules', 'inputs'],
     'all allocate/free/mark sequences up to a depth for all small ranges, and bounded interleavings of 2-3 threads',
     'Unit tests follow one allocation history on one range.',
     [CC + 'id_allocator.py'], [('SequentialIssuer, IDAllocator', CC + 'id_allocator.py')])

prop('C05', 'Futures resolve exactly once and every callback sees the result',
     'A future delivers exactly one outcome (result, exception or cancellation) to every waiter, and each registered '
     'completion, success and failure callback is invoked exactly once, with the matching kind of outcome, no matter '
     'whether it was registered before or after completion. '
     'Wrapped futures, wrapped executors, future collections and the run-in-thread helpers preserve the outcome of '
     'the underlying call, in the order given, and a collection waits for, cancels or forwards to all of its members.',
     ['schedules', 'histories', 'fault_sequences'],
     'all bounded interleavings of completion, cancellation, registration and waiting; all outcome combinations of '
     'collections up to 3 members',
     'Tests register callbacks on one side of the race only and use successful members.',
     [CC + 'futures/futures.py', CC + 'futures/collection.py', CC + 'futures/wrapped_executor.py',
      CC + 'futures/call_in_future.py', CC + 'functions.py', CC + 'thread.py'],
     [('Future/WrappingFuture', CC + 'futures/futures.py'), ('FutureCollection', CC + 'futures/collection.py'),
      ('ExecutorWrapper', CC + 'futures/wrapped_executor.py'), ('run_as_future/parallel_execute', CC + 'functions.py')])

prop('C06', 'Terminable threads run their lifecycle exactly and always stop',
     'A started worker thread prepares once, runs its loop body repeatedly, and cleans up exactly once; once asked to '
     'terminate it starts no further iteration after the one in progress, can be joined, and being asked repeatedly '
     'or from several threads, or leaving its context, is harmless. '
     'Interval threads keep their period between calls and stop promptly; thread collections start, terminate and '
     'join all of their members; a single-start thread starts its work exactly once however many times '
     'and from however many threads it is started.',
     ['schedules', 'histories'],
     'all bounded interleavings of the thread with its controller on a virtual clock, all controller call sequences '
     'up to a depth, including loop bodies that raise',
     'Tests use real sleeps and observe one interleaving; termination races are invisible to them.',
     [CC + 'thread.py', CC + 'thread_collection.py'],
     [('TerminableThread, IntervalTerminableThread, SingleStartThread, BogusTerminableThread', CC + 'thread.py'),
      ('ThreadCollection', CC + 'thread_collection.py')])

prop('C07', 'Timers fire once, at their time, unless cancelled in time',
     'A started timer calls its target exactly once, with its arguments, and never before its interval has elapsed; '
     'a timer cancelled before its due time never fires, and cancelling one timer, or one whose target raises, does '
     'not affect others. '
     'Timers started by any threads in any order all fire at their own times, in the order of their due times.',
     ['schedules', 'histories'],
     'all bounded interleavings of starting, cancelling and the dispatching threads on a virtual clock',
     'The tests use one timer with a real sleep.',
     [CC + 'timer.py'], [('Timer and its dispatcher thread', CC + 'timer.py')])

prop('C08', 'Connection pool: exclusive hand-out, bounded, no leaks or resurrection',
     'A connection pool never hands one connection to two users at once, never exceeds its declared number of live '
     'connections, and a released healthy connection serves a later request before a new one is created. '
     'Connections that failed, were invalidated, or outlived their allowed number of uses are torn down and never '
     'handed out again; every waiter is served once a connection is released, and closing the pool tears down the '
     'idle connections.',
     ['schedules', 'histories', 'fault_sequences'],
     'all bounded interleavings of 2-3 users and all operation sequences with connect/teardown outcomes up to a depth',
     'The tests run one user with a perfect connection source.',
     [C + 'resources/cp_manager.py'], [('CPManager, acquire/release/invalidate, connection context', C + 'resources/cp_manager.py')])

prop('C09', 'Callable groups call every live callable, once, in order',
     'Calling a group invokes every callable that was added and not cancelled, in order of addition and with the '
     'given arguments, collecting results or exceptions as configured; a failure is passed on at once, ending that '
     'call, unless it is to be collected or swallowed, and does not make the group forget itself or the others. '
     'One-shot entries fire at most once and cancelled ones never fire again, including entries added or cancelled '
     'during a call or by another thread, and rate-limited callables are not executed more often than declared.',
     ['histories', 'schedules', 'fault_sequences'],
     'all add/cancel/call sequences up to a depth over callables that succeed, fail, cancel or add others, and '
     'bounded interleavings of two callers',
     'Tests call a group once or twice with fixed members.',
     [CC + 'callablegroup.py'], [('CallableGroup, CancellableCallback, CallNoOftenThan', CC + 'callablegroup.py')])

prop('C10', 'Synchronisation helpers lose no wake-ups, values or work items',
     'A condition wakes every waiter it is told to and a timed wait ends with the documented exception; a deferred '
     'value is set at most once and all readers get that value; insert-if-absent on a monitored set succeeds for '
     'exactly one of the competing threads. '
     'Synchronising on a thread pool returns once, and only once, every job submitted before it has finished, and '
     'leaves the pool usable even when it times out; parallel construction and execution apply the function once '
     'per element, the calls running in parallel, and deliver results in input order (construction leaving out empty results), with failures passed '
     'on.',
     ['schedules', 'fault_sequences'],
     'all bounded interleavings of setters, waiters and notifiers; all positions of a failing element',
     'The existing tests sample one interleaving on real time.',
     [CC + 'thread.py', CC + 'value.py', CC + 'monitor.py', CC + 'sync.py', CC + 'list_processor.py', CC + 'functions.py'],
     [('Condition', CC + 'thread.py'), ('DeferredValue', CC + 'value.py'), ('MonitorSet', CC + 'monitor.py'),
      ('sync_threadpool', CC + 'sync.py'), ('parallel_construct', CC + 'list_processor.py'),
      ('parallel_execute', CC + 'functions.py')])

prop('C11', 'Heaps always yield the smallest element, sets without duplicates, times due',
     'Whatever mix of operations was applied, a heap contains exactly the elements put and not yet removed, pops and '
     'iterates them in ascending order, and its bulk operations (filtering, mapping, popping below a bound) remove '
     'exactly what they report. '
     'The set heap holds each element once and its membership test agrees with its content; the time-based heaps '
     'release exactly the items that are due, earliest first, and keep every item retrievable, re-schedulable and '
     'removable.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth over a small element domain with duplicates and ties',
     'Each heap operation has a test or two; the combinations that corrupt the invariant do not.',
     [CS + 'heaps/base.py', CS + 'heaps/time.py'],
     [('Heap, SetHeap', CS + 'heaps/base.py'), ('TimeBasedHeap, TimeBasedSetHeap', CS + 'heaps/time.py')])

prop('C12', 'Sorted lists, rankings and sliceable deques agree with plain sorted data',
     'After any sequence of operations a sorted list equals its elements sorted by its key, including its indexing, '
     'membership and slicing; a ranking reports for every member its exact position in that '
     'order, both ways. '
     'A deque that can be sliced behaves as a deque for its deque operations and as the list of its elements for '
     'every index and slice.',
     ['histories', 'inputs'], 'all operation sequences up to a depth; all slices of small contents',
     'Tests check a few insertions and slices.',
     [CS + 'sorted_list.py', CS + 'ranking.py', CS + 'sorted_list.py'],
     [('SortedList, SliceableDeque', CS + 'sorted_list.py'), ('Ranking', CS + 'ranking.py')])

prop('C13', 'Caches return fresh values and never outlive their expiry or size',
     'A caching dictionary returns what its loader returned for that key, never after the entry has expired, '
     'refreshes stale entries, remembers a missing key only for the declared time, and after invalidating or feeding '
     'a key serves only the later value. '
     'The size-limited cache never holds more than its limit, evicts the least recently used entry first and keeps '
     'the others.',
     ['histories', 'fault_sequences'],
     'all sequences of reads, invalidations, feeds, loader outcomes and clock steps up to a depth on a virtual clock',
     'Tests use real sleeps around one key.',
     [CD + 'cache_dict.py', CS + 'lru.py'],
     [('CacheDict, LRUCacheDict', CD + 'cache_dict.py'), ('LRU', CS + 'lru.py')])

prop('C14', 'Expiring dictionaries show exactly the live entries',
     'Every way of looking at an expiring dictionary (lookup, membership, iteration, length) shows exactly the '
     'entries that were written and whose lifetime has not passed, writing an entry again renews it, and the external '
     'cleanup, when asked for, releases expired entries within about 5 seconds. '
     'Operations on its absent or expired keys fail like on a plain dictionary. A self-cleaning default dictionary '
     'shows exactly the entries that differ from its default, and both can be used while holding their monitor.',
     ['histories', 'schedules'],
     'all sequences of writes, deletes, reads and clock steps up to a depth, with and without the background cleaner',
     'Tests look at one key with real sleeps.',
     [CD + 'expiring.py'], [('ExpiringEntryDict, SelfCleaningDefaultDict', CD + 'expiring.py')])

prop('C15', 'A write-back cache never loses, reorders or invents writes',
     'Reading through a write-back cache always returns the latest value written through it (or what the store holds '
     'if none), and a deleted key reads as missing. '
     'After a sync, or once pending writes have drained, the backing store holds exactly the last operation per key, '
     'and the store is never sent the operations on one key in a different order than they were issued.',
     ['schedules', 'histories'],
     'all operation sequences up to a depth and bounded interleavings of user threads and background workers, with '
     'one and with several workers',
     'Store writes happen on background workers; tests see a single ordering.',
     [CD + 'writeback_cache.py'], [('ExclusiveWritebackCache', CD + 'writeback_cache.py')])

prop('C16', 'A sparse matrix is the function from coordinates to its non-absent cells',
     'After any sequence of assignments and deletions, by cell, row, column or area, a sparse matrix reads back at '
     'every coordinate what was last written there and absent elsewhere, its length and iteration agree with that, '
     'and its bounds are exactly those of its occupied cells. '
     'Appending a row, spacing cells out, neighbours, extremes, equality and truth are consistent with that view.',
     ['histories', 'inputs'], 'all operation sequences up to a depth on a small grid',
     'Tests exercise each accessor on one matrix.',
     [CS + 'sparse_matrix.py'], [('SparseMatrix', CS + 'sparse_matrix.py')])

prop('C17', 'A droppable time series keeps, syncs and archives without losing points',
     'A point handed to the series stays retrievable, in time order and exactly once, until a clean-up of the '
     'database finds it older than the span to keep, whether it is currently held in memory or in the database, '
     'across clean restarts and failures of the database. Moving old points to the database moves those older than the span to '
     'keep in memory and no younger ones. A sync request offers the server exactly the points it has not yet acknowledged, a failed sync acknowledges '
     'nothing, and nothing acknowledged is offered again.',
     ['histories', 'fault_sequences'],
     'all sequences of inserts, syncs (succeeding or failing), cleanups and restarts up to a depth against an '
     'in-memory database',
     'Tests run two fixed histories.',
     [CS + 'syncable_droppable.py'], [('SyncableDroppable', CS + 'syncable_droppable.py')])

prop('C18', 'Deleting while iterating visits all elements and removes only marked ones',
     'Iterating with a deleter, forwards or backwards, visits every remaining element exactly once, and on leaving '
     'the context exactly the marked elements are gone, in all others order kept. '
     'An iterable that can be pushed to yields every pushed and underlying element exactly once in its documented '
     'order, and a named sub-queue delivers each item only under its own name, in order, with blocking and '
     'non-blocking reads agreeing.',
     ['histories', 'inputs', 'schedules'],
     'all lists up to a length and all iteration/mark programs over them; all push/next programs up to a depth',
     'Tests mark one or two elements.',
     [C + 'deleters.py', CS + 'push_iterable.py', CS + 'queues.py'],
     [('ListDeleter, DictDeleter', C + 'deleters.py'), ('PushIterable', CS + 'push_iterable.py'),
      ('Subqueue', CS + 'queues.py')])

prop('C19', 'Dictionary-like wrappers agree with the data they present',
     'A two-way dictionary is a bijection after every operation: each key and value maps back to the other and '
     'neither direction keeps stale pairs; a dirty dictionary reports changed exactly when content changed since the '
     'last clean-up; views over several dictionaries resolve, list and count keys by precedence. '
     'Attribute-style dictionaries, key-aware defaults, counting dictionaries and proxies read and write the same '
     'data through every access path.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over a small key/value domain',
     'Tests check each wrapper along one history.',
     [CD + 'objects.py', CD + 'dict_object.py', CD + 'counting.py', CS + 'proxy.py'],
     [('TwoWayDictionary, DirtyDict, KeyAwareDefaultDict', CD + 'objects.py'), ('DictObject', CD + 'dict_object.py'),
      ('Proxy', CS + 'proxy.py')])

prop('C20', 'Once-only construction: singletons and memoized calls',
     'A singleton class has one instance per declared argument values, which every requester gets, fully constructed, '
     'and whose constructor body ran once. '
     'A memoized function returns for each distinct argument combination what the function returned, does not call it '
     'again while the entry is valid, recomputes after expiry, does not mix up argument combinations, and does not '
     'remember failures; while a cache-memoized function runs for some arguments, calls for others are not kept waiting.',
     ['schedules', 'histories', 'inputs'],
     'all call sequences up to a depth over colliding argument shapes on a virtual clock; bounded interleavings of '
     'two callers',
     'Tests call from one thread with one argument shape.',
     [CS + 'singleton.py', C + 'decorators/decorators.py'],
     [('Singleton, SingletonWithRegardsTo', CS + 'singleton.py'), ('memoize, cache_memoize', C + 'decorators/decorators.py')])

prop('C21', 'Metrics report exactly what was recorded, at the levels enabled',
     'Each metric type reports, for every label combination, exactly the documented function of the recorded values '
     '(totals, latest value, counts per bucket, quantiles over the recent window, calls per period, online state), '
     'and a value recorded at a level that is not enabled leaves no trace. '
     'A metric named by path is one object everywhere, inherits its level from its nearest explicit ancestor, and '
     'is reported by its ancestors unless it is more verbose than they are; switching levels or resetting affects '
     'exactly the named metric and its descendants, and measuring a call changes nothing about the call.',
     ['histories', 'configurations', 'inputs'],
     'all sequences of record/level-switch/report operations up to a depth, for every metric type and level',
     'Tests record two or three values per type at one level.',
     ['satella/instrumentation/metrics/metric_types/base.py', 'satella/instrumentation/metrics/__init__.py',
      'satella/instrumentation/metrics/metric_types/counter.py', 'satella/instrumentation/metrics/metric_types/summary.py',
      'satella/instrumentation/metrics/metric_types/histogram.py', 'satella/instrumentation/metrics/metric_types/cps.py',
      'satella/instrumentation/metrics/metric_types/linkfail.py', 'satella/instrumentation/metrics/metric_types/simple.py'],
     [('Metric, getMetric', 'satella/instrumentation/metrics'), ('metric types', 'satella/instrumentation/metrics/metric_types')])

prop('C22', 'Metric data survives collection, serialisation and export unchanged',
     'Metric data converted to its JSON form and back equals the original, adding data sets keeps every distinct '
     'series with the newest value, and prefixing, postfixing, labelling, stamping and dropping internal data change exactly '
     'that, in that collection only. '
     'The text export lists every exportable series exactly once with its labels and value such that parsing the text '
     'yields the data back, for any label content.',
     ['inputs', 'histories'], 'all small metric data sets over a domain of awkward names, labels and values',
     'Tests compare single literal strings.',
     ['satella/instrumentation/metrics/data.py', 'satella/instrumentation/metrics/exporters/prometheus.py'],
     [('MetricData, MetricDataCollection', 'satella/instrumentation/metrics/data.py'),
      ('metric_data_collection_to_prometheus', 'satella/instrumentation/metrics/exporters/prometheus.py')])

prop('C23', 'Configuration schemas accept exactly the valid values, every time',
     'A schema accepts a value exactly when it meets the declared types, ranges, patterns and keys, returns the '
     'documented converted value with defaults filled in, and raises the documented validation error otherwise. '
     'The verdict depends on the value alone: validating earlier values, good or bad, never changes it, and a schema '
     'loaded from its declarative form decides like the same schema built in code.',
     ['inputs', 'histories', 'configurations'],
     'every schema type composed to depth 2 against every value of a domain of boundary values, in every order of '
     'two or three validations',
     'Tests validate one good value per type and rarely a bad one, never two in a row.',
     ['satella/configuration/schema/base.py', 'satella/configuration/schema/basic.py',
      'satella/configuration/schema/structs.py', 'satella/configuration/schema/from_json.py'],
     [('Descriptor and subclasses', 'satella/configuration/schema'), ('descriptor_from_dict', 'satella/configuration/schema/from_json.py')])

prop('C24', 'Configuration sources merge by precedence, repeatably',
     'Providing configuration from a source, or from any combination of merging, alternative, optional and '
     'sub-directory sources, yields the documented combination, with later sources overriding earlier ones and nested '
     'mappings merged, and yields the same again when asked again without modifying any source, or what the environment and files have since become. '
     'A source that is missing or malformed raises the documented error, or falls back to the alternative, and never '
     'yields partial data.',
     ['configurations', 'histories', 'fault_sequences'],
     'all source trees up to a depth over a domain of documents, failures and files, provided repeatedly',
     'Tests provide once from hand-picked sources.',
     ['satella/configuration/sources/derivative.py', 'satella/configuration/sources/file.py',
      'satella/configuration/sources/from_dict.py', 'satella/configuration/sources/format.py',
      'satella/configuration/sources/envvars.py', C + 'transforms/__init__.py'],
     [('MergingSource, AlternativeSource, OptionalSource, BuildObjectFrom', 'satella/configuration/sources/derivative.py'),
      ('FileSource, DirectorySource', 'satella/configuration/sources/file.py'), ('load_source_from_dict', 'satella/configuration/sources/from_dict.py')])

prop('C25', 'File helpers do exactly the file operation they promise',
     'Writing a file leaves exactly the given content (or appends it), reading returns exactly the content or, only '
     'where asked, the fallback; writing only if different writes exactly when the content differs and reports so; '
     'listing, finding and splitting of paths cover exactly the matching entries. '
     'A flushing file object shows at every moment, to itself and to other openers, all that was written to it, and a '
     'failing operating-system call surfaces as an error instead of being ignored.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'all operation sequences up to a depth in a scratch directory, all small directory trees, every single failing '
     'file-system call',
     'Tests touch one file in one order and inject no failure.',
     ['satella/files.py'], [('read_in_file, write_to_file, read_lines, write_out_file_if_different, find_files, split, jump_to_directory, AutoflushFile, DevNull', 'satella/files.py')])

prop('C26', 'A PID-file lock is held by at most one living process',
     'At any moment at most one living process holds the lock of a given file, whatever the order in which '
     'processes acquire, release or die; acquiring fails with the documented error while the holder lives and '
     'succeeds when the file is absent, stale or garbage. '
     'Releasing removes the holder\'s own file only, and a held lock file always names its holder.',
     ['schedules', 'crash_points', 'histories'],
     'all interleavings of two or three processes at system-call granularity, with a crash at every step',
     'Tests acquire and release from one process.',
     ['satella/os/pidlock.py'], [('PIDFileLock', 'satella/os/pidlock.py')])

prop('C27', 'Database transactions commit or roll back exactly once',
     'Work done within a transaction context is committed exactly once if the block ends normally and rolled back '
     'exactly once if it raises, the exception passes through unchanged, and the cursor is closed in every case. '
     'This holds for every way of opening the transaction, for failures of any database call, and for connections '
     'obtained lazily. An object loaded lazily is loaded before the first call that needs it, and not again once loaded.',
     ['fault_sequences', 'histories'], 'every combination of opening style, block outcome and single failing database call',
     'Tests cover the successful path.',
     ['satella/db.py', 'satella/dao.py'], [('transaction', 'satella/db.py'), ('Loadable', 'satella/dao.py')])

prop('C28', 'Retries, back-off, timing and waiting obey their declared limits',
     'A retried call is attempted until its first success and at most the declared number of times, retrying only the '
     'declared exceptions, with the last failure passed on; exponential back-off grows from its start, never beyond '
     'its limit, resets on success, and reports availability accordingly. '
     'Stopwatches count exactly the time between starts and stops, time out exactly at their limit, and sleeping or '
     'waiting helpers last the requested time on the clock even when woken early.',
     ['histories', 'fault_sequences', 'schedules'],
     'all outcome sequences and clock step sequences up to a depth on a virtual clock, for all small parameter settings',
     'Tests sleep in real time on a handful of parameters.',
     [C + 'decorators/retry_dec.py', 'satella/time/backoff.py', 'satella/time/measure.py', 'satella/time/misc.py',
      'satella/time/parse.py'],
     [('retry', C + 'decorators/retry_dec.py'), ('ExponentialBackoff', 'satella/time/backoff.py'),
      ('measure', 'satella/time/measure.py'), ('sleep, parse_time_string', 'satella/time')])

prop('C29', 'Binary parsing never reads outside its window and never skips on failure',
     'A binary parser returns exactly the bytes and values laid out in its stream at its current position, advances by '
     'exactly what it read, and reports its remaining bytes and end correctly. '
     'A read that needs more than its window holds raises the documented error without moving, and nested parsers see '
     'only their own part of the stream.',
     ['inputs', 'histories'], 'all short streams, windows and read programs up to a depth',
     'Tests parse one literal.',
     ['satella/parsing.py'], [('BinaryParser', 'satella/parsing.py')])

prop('C30', 'Sequence tools preserve order, multiplicity and laziness',
     'Every sequence helper (grouping, batching, skipping, zipping, shifting, looking ahead, taking, splitting, merging '
     'of sorted inputs, smart enumeration and the like) yields exactly the documented elements in the documented order '
     'for every input including empty, single and unequal-length ones, and raises where documented. '
     'Re-iterable and resumable wrappers yield the same elements on every pass and consume the source at most once, no '
     'further than asked for.',
     ['inputs', 'histories'], 'all short inputs over a small alphabet, all iteration programs over several consumers up to a depth',
     'Tests compare one or two literal sequences.',
     [C + 'sequences/iterators.py', C + 'sequences/sequences.py', C + 'transforms/merger.py', C + 'transforms/merge_list.py',
      C + 'transforms/__init__.py', C + 'iterators.py'],
     [('iterators', C + 'sequences/iterators.py'), ('sequences', C + 'sequences/sequences.py'),
      ('merge_series, merge_list', C + 'transforms')])

prop('C31', 'Exception recasting converts, silences or logs exactly what was named',
     'Rethrowing helpers convert exactly the named exception types to the named '
     'replacement, in the declared precedence, and let every other exception and every normal result through '
     'unchanged, as a decorator, as a context manager, recursively and from several threads. '
     'Silencing helpers suppress exactly the named exceptions, with the declared replacement value, and logging helpers '
     'never change the outcome they log.',
     ['inputs', 'programs', 'schedules'],
     'all nestings up to a depth of helpers with all mappings over a small exception hierarchy, nested and recursive '
     'calls, bounded interleavings of two users',
     'Tests raise one matching exception.',
     [C + 'recast_exceptions.py', C + 'misc.py'],
     [('silence_excs, rethrow_as, reraise_as, log_exceptions, raises_exception, catch_exception', C + 'recast_exceptions.py')])

prop('C32', 'Contexts isolate and restore variables across nesting and threads',
     'A variable set in a context is visible there and in contexts nested in it until shadowed, and never in the '
     'enclosing context after the nested one ends, normally or by exception. '
     'Each thread has its own current context, deletion hides a variable only where it was deleted, and reading an '
     'unset variable raises the documented error.',
     ['histories', 'schedules'], 'all enter/exit/set/get/delete programs up to a depth, and interleavings of two threads',
     'Tests nest once.',
     [C + 'environment.py'], [('Context', C + 'environment.py')])

prop('C33', 'Exception handlers and memory-pressure actions run when and as declared',
     'An unhandled exception reaches the installed handlers by priority until one declares it handled, a handler that '
     'itself fails does not stop the rest, and removal or uninstallation restores the previous behaviour. '
     'Memory-pressure actions run when their severity is entered, left or stays, in the declared direction and not '
     'more often than declared, and objects registered for cleanup are cleaned on every entry while they live.',
     ['histories', 'fault_sequences'],
     'all sequences of installs, removals and raised exceptions up to a depth; all severity histories up to a length on '
     'a virtual clock',
     'Tests check a single handler and a single transition.',
     ['satella/exception_handling/global_eh.py', 'satella/exception_handling/exception_handlers.py',
      'satella/instrumentation/memory/memthread.py', 'satella/instrumentation/memory/conditions.py'],
     [('GlobalExcepthook', 'satella/exception_handling/global_eh.py'), ('MemoryPressureManager', 'satella/instrumentation/memory/memthread.py')])

prop('C34', 'Contract and flow decorators enforce exactly what they declare',
     'Pre- and postconditions let a call through exactly when every declared condition holds and raise the documented '
     'error otherwise; argument transformers apply to exactly the declared arguments, positional, keyword or defaulted; '
     'attribute conditions hold the call back exactly as declared. '
     'Loop and queue decorators run the function exactly as often as their condition demands, pass results and '
     'exceptions on, and every decorator keeps the arguments, result and identity of what it wraps.',
     ['inputs', 'programs', 'histories'],
     'all call shapes of functions up to three parameters of every kind against all small condition assignments',
     'Tests use one call shape each.',
     [C + 'decorators/preconditions.py', C + 'decorators/arguments.py', C + 'decorators/flow_control.py',
      C + 'decorators/decorators.py'],
     [('precondition, postcondition', C + 'decorators/preconditions.py'),
      ('for_argument, transform_result, auto_adapt_to_methods, copy_arguments, execute_before, ...', C + 'decorators/arguments.py'),
      ('loop_while, queue_get', C + 'decorators/flow_control.py')])

prop('C35', 'Overloads dispatch to the most specific matching implementation',
     'Calling an overloaded function or method runs exactly one implementation, whose parameters accept the arguments passed and whose '
     'declared types they are instances of, with those arguments and its result or exception; an implementation with the same number of '
     'parameters that accepts everything this one does and more is not preferred to it, regardless of the order of registration, and '
     'TypeError is raised when none matches or a signature is registered twice. '
     'A value wrapped in Optional behaves as the value when it is called, indexed, measured, compared, tested or has attributes accessed; '
     'an empty one yields an empty Optional for access and calls, is false and of zero length, contains nothing, compares false and '
     'ignores item assignment and deletion. Methods that are both class and instance methods receive what they were called upon.',
     ['inputs', 'programs'],
     'all registration orders of all small overload sets over a class lattice against all argument tuples; all chains of optional access up to three steps',
     'Tests register two disjoint overloads.',
     [C + 'overloading.py', C + 'optionals.py'], [('overload', C + 'overloading.py'), ('Optional', C + 'optionals.py')])

prop('C36', 'JSON encoding and tracebacks capture values faithfully',
     'Values built from the supported kinds encode to JSON that decodes to the documented plain form, data objects '
     'round-trip through their JSON form with defaults for missing and errors for required fields, and encoding never '
     'fails because of where in the structure a value sits. '
     'A captured traceback lists every frame and variable of the raising stack, survives being stored and loaded '
     'unchanged, and capturing never fails or alters the program, whatever the values are.',
     ['inputs', 'fault_sequences'],
     'all values up to depth 2-3 over the supported kinds; all stacks up to 3 frames over a domain of hostile values',
     'Tests encode a few literals.',
     ['satella/json.py', 'satella/instrumentation/trace_back/trace_back.py', 'satella/instrumentation/trace_back/classes.py'],
     [('JSONEncoder, JSONAbleDataObject', 'satella/json.py'), ('Traceback', 'satella/instrumentation/trace_back')])

prop('C37', 'Value objects are immutable, comparable and hashable as declared',
     'Objects declared immutable and frozen dictionaries accept no change of an attribute or item through their interface once constructed '
     'and remain as they were; they copy and pickle to equal objects. Comparison and hashing mix-ins compare and hash by exactly the '
     'declared fields: equality and inequality are complementary and symmetric, equal objects have equal hashes, and ordering is that of '
     'the field; enumerations compare by value with members and plain values alike. '
     'A typed named tuple holds its fields coerced by the declared constructors and refuses missing, surplus and unknown ones; '
     'vector arithmetic is place-wise, zipped sets act as the union of their members, and deep comparison raises exactly when the '
     'structures differ, naming the difference.',
     ['inputs', 'histories'],
     'all operation sequences up to depth 3 on immutable objects; all pairs of small value structures for comparisons',
     'Tests compare two or three literals.',
     [C + 'structures/immutable.py', C + 'structures/typednamedtuple.py', C + 'structures/mixins/hashable.py', C + 'deep_compare.py'],
     [('Immutable, frozendict', C + 'structures/immutable.py'), ('OmniHashableMixin, ComparableAndHashableBy', C + 'structures/mixins/hashable.py'),
      ('ComparableEnum', C + 'structures/mixins/enums.py'), ('DictionaryEQAble', C + 'structures/mixins/eqable.py'),
      ('typednamedtuple', C + 'structures/typednamedtuple.py'), ('assert_equal', C + 'deep_compare.py')])

prop('C38', 'Generator wrappers and closeable resources finalize exactly once',
     'An action attached to a generator runs exactly once, when the generator completes, however it is driven, and not at all when it is '
     'closed early; the wrapped generator yields, receives values and exceptions, and returns as it would on its own. '
     'A self-closing generator is run to its end when it is closed, left as a context manager or deallocated, exactly once, without hiding '
     'exceptions of its body; a length hint changes nothing about the generator. '
     'A closeable object cleans up exactly once, by whichever of close, context exit or destruction comes first, and not before it has been '
     'initialized; a callable wrapped in a context manager runs inside of a new one each time.',
     ['histories', 'programs', 'fault_sequences'],
     'all sequences of next/send/throw/close/with/delete up to depth 4-5 over small generators compared with the bare generator',
     'Tests drive each wrapper one way.',
     [C + 'generators.py', C + 'iterators.py', C + 'misc.py', C + 'ctxt_managers.py'],
     [('run_when_generator_completes', C + 'generators.py'), ('SelfClosingGenerator, hint_with_length', C + 'iterators.py'),
      ('Closeable', C + 'misc.py'), ('wrap_callable_in_context_manager', C + 'ctxt_managers.py')])

prop('C39', 'Class builders and import helpers yield exactly what they describe',
     'A class built to copy documentation gets the documentation of every undocumented method (and of itself) from the source, or from the nearest '
     'ancestor, and nothing else changes. A class made by metaclass_maker has a metaclass deriving from the metaclasses of all of its bases, each of them '
     'run once, whenever such a metaclass exists, and the native one when Python could choose it. wrap_with and wrap_property wrap exactly the members '
     'selected and leave other ones alone. import_from imports exactly the public names of the modules and subpackages of the package itself, as told by '
     'its flags; every module of the package can be imported first, with no threads, output or changes to the process, and has all it lists in __all__.',
     ['programs', 'configurations'],
     'all small class lattices and namespaces, all small package trees by all flags, and every module of the package imported before all others',
     'Tests import the modules in one order and build a class or two.',
     [C + 'metaclasses.py', 'satella/imports.py', 'satella/__init__.py'],
     [('CopyDocsFrom, DocsFromParent, metaclass_maker, wrap_property, wrap_with', C + 'metaclasses.py'), ('import_from, import_class', 'satella/imports.py')])

prop('C40', 'Predicates over x compute what the expression says',
     'An expression built out of x with operators (on either side), attribute and item access, calls and the named checks is a reusable function that '
     'gives, for each argument, the value (or the exception) that the expression gives when x is replaced by the argument; expressions may share parts. '
     'build_structure gives the structure of the same kinds with every predicate, at any depth and in every position, replaced by its value, and '
     'everything else kept.',
     ['programs', 'inputs'],
     'all expression trees of up to two levels of operators over small constants, and all small nested structures, against direct evaluation',
     'Tests use each operator once.',
     [C + 'predicates.py'],
     [('PredicateClass', C + 'predicates.py'), ('build_structure', C + 'predicates.py')])

prop('C41', 'Library exceptions keep their arguments, survive pickling and match by code',
     'Each exception keeps the arguments it was given, has a str and repr that show all of them (repr evaluates back to it), arrives equal through pickle '
     'and copy, and is caught under each of its documented base classes. An instance of a coded exception is an instance of exactly its ancestors and of those '
     'classes of its own hierarchy that have the same code.',
     ['inputs', 'programs'],
     'all exception classes by small argument lists by all pickle protocols; all assignments of codes to a lattice of coded classes',
     'Tests look at few exceptions, none of them is pickled.',
     ['satella/exceptions.py'],
     [('CustomException', 'satella/exceptions.py'), ('CodedCustomExceptionMetaclass', 'satella/exceptions.py')])

prop('C42', 'Helper processes, signals, executables and daemons are handled without loss',
     'Reading a child process takes everything it writes, whatever the amount and timing, and never leaves it blocked on a full pipe; '
     'call_and_return_stdout gives exactly this output, decoded as a whole, raises TimeoutError after killing a process that takes longer than told, and '
     'ProcessFailed exactly when the return code differs from the expected one. hang_until_sig returns after SIGTERM, SIGINT or one of the extra signals, at '
     'the next poll, on no other ones, and restores the handlers. whereis yields the executable files of given name in the order of PATH. suicide kills the '
     'group exactly when told to and leading it; daemonize detaches, changes to the user and group given (as names or numbers) and leaves usable streams.',
     ['thread_schedules', 'fault_sequences', 'configurations'],
     'all interleavings of child, reader and waiter over a bounded pipe on a virtual clock; signals at every poll; all kinds of entries in PATH',
     'Tests run commands with a short output and send one signal.',
     ['satella/processes.py', 'satella/os/signals.py', 'satella/os/misc.py', 'satella/os/daemon.py'],
     [('read_nowait, call_and_return_stdout', 'satella/processes.py'), ('hang_until_sig', 'satella/os/signals.py'),
      ('whereis, safe_listdir, suicide', 'satella/os/misc.py'), ('daemonize', 'satella/os/daemon.py')])

prop('C43', 'CPU occupancy is measured right and CPU-aware waiting obeys its limits',
     'calculate_occupancy_factor gives the load of the machine between this call and the previous measurement, also when many threads ask at the same time, and '
     'brings up at most one collecting thread. sleep_cpu_aware returns True after the first check at which the load leaves the limits given, otherwise '
     'False after the whole time, never later. Percentiles may be requested and read at any time. A CPU-aware interval thread starts its consecutive '
     'calls at most max_sooner earlier than the interval and, unless the loop itself takes longer, not later than it, and ends, having cleaned up, once its loop fails '
     'or it is told to terminate.',
     ['thread_schedules', 'histories'],
     'all interleavings of callers and the collecting thread, all load profiles of three steps, on a virtual clock and machine',
     'Tests look at a real machine with tolerances.',
     ['satella/instrumentation/cpu_time/collector.py', 'satella/instrumentation/cpu_time/concurrency.py'],
     [('calculate_occupancy_factor, sleep_cpu_aware', 'satella/instrumentation/cpu_time/collector.py'),
      ('CPUTimeAwareIntervalTerminableThread', 'satella/instrumentation/cpu_time/concurrency.py')])

prop('C44', 'Tainted values behave as the plain ones and taint what is made of them',
     'Within a tainting session, operators, comparisons, in-place operators, items, attributes, calls, iteration, conversions and with-statements on a tainted value '
     'have the outcome they have on the value itself (aliases included), and results other than conversions, != and len are tainted; access_tainted gives back '
     'the very value. get_tainted_variables gives the values of the live tainted objects of its session only. A session belongs to its thread, '
     'there is at most one in it at a time, and it ends with its block, however that ends; out of a session nothing can be tainted.',
     ['programs', 'histories', 'thread_schedules'],
     'all programs of up to four operations over three variables, all operators by all pairs of values, all histories of two sessions, two threads',
     'The single test adds two numbers.',
     ['satella/debug/tainting/tainteds.py', 'satella/debug/tainting/environment.py'],
     [('TaintedObject, taint, access_tainted', 'satella/debug/tainting/tainteds.py'),
      ('TaintingEnvironment', 'satella/debug/tainting/environment.py')])

prop('C45', 'Spans follow the futures, functions and exceptions they trace',
     'A traced future finishes its span exactly once, whenever it is traced and however it completes, cancellation included, and the span carries the exception '
     '(object, type, traceback) exactly if the future ended with one. Each call of a traced function runs in a span of its own, which is finished '
     'afterwards, with the tags given and those computed from the arguments of that very call, whatever earlier spans did with their tags. trace_exception '
     'logs the exception given or the one being handled, its stack trimmed to the limit, and nothing if there is none. parallel_construct runs each call under a child '
     'of the span current at its call. A wrapped Cassandra future completes as the original does; parallel_for sends every query before waiting for results '
     'and yields these in order.',
     ['thread_schedules', 'histories', 'inputs'],
     'all outcomes by all moments, all interleavings of completion and tracing with up to three preemptions, all histories of three calls',
     'Tests see one future completing in a thread, never look at what the span holds.',
     ['satella/opentracing/trace.py', 'satella/opentracing/exceptions.py', 'satella/cassandra/future.py', 'satella/cassandra/parallel.py', CC + 'list_processor.py'],
     [('trace_future, trace_function', 'satella/opentracing/trace.py'), ('trace_exception', 'satella/opentracing/exceptions.py'),
      ('wrap_future', 'satella/cassandra/future.py'), ('parallel_for', 'satella/cassandra/parallel.py')])

prop('C46', 'The Prometheus endpoint serves the current metrics and stops whenever told',
     'While it runs, GET /metrics is answered with exactly the metric data of that moment that are not internal, extra labels added, in the exposition format; '
     'anything else, malformed requests and failures to get the data get an error and never stop the endpoint. terminate() never blocks, at whatever moment it is '
     'called (not started yet, starting, serving, ended, failed to bind), by however many threads; the thread ends within a polling interval, having closed '
     'its port, also when it could not listen.',
     ['thread_schedules', 'histories', 'fault_sequences'],
     'all interleavings with up to two preemptions of start, terminate, join and requests over a network of queues, failures of bind and listen',
     'The test starts the server, asks twice and stops it.',
     ['satella/instrumentation/metrics/exporters/prometheus.py'],
     [('PrometheusHTTPExporterThread', 'satella/instrumentation/metrics/exporters/prometheus.py'),
      ('metric_data_collection_to_prometheus', 'satella/instrumentation/metrics/exporters/prometheus.py')])

prop('C47', 'The metrified thread pool runs tasks like the standard one and times each',
     'Every task submitted runs exactly once, unless cancelled before it starts, on at most max_workers threads and as many '
     'at a time as that allows; its future, and map(), give its result or exception. Idle workers are reused, workers carry the '
     'name prefix given and are initialized first; a failing initializer breaks the pool with every task answered. Tasks '
     'pending at shutdown, or when the executor is no longer referenced, still run, and its threads then end. Each task is timed once, waiting and executing.',
     ['thread_schedules', 'fault_sequences'],
     'all interleavings with up to one preemption of submitters and workers, task outcomes, kinds of shutdown; every scenario also on the standard pool',
     'The test submits a task that sleeps and looks whether metrics are there.',
     ['satella/instrumentation/metrics/structures/threadpool.py'],
     [('MetrifiedThreadPoolExecutor', 'satella/instrumentation/metrics/structures/threadpool.py')])

prop('C48', 'Measuring, dumping and randomizing helpers tell the truth and touch nothing',
     'get_size gives the sum of sizes of all distinct objects an object consists of (elements, keys, values, attributes in __dict__ or slots), each '
     'counted once, also when shared or in a cycle, leaving inspected iterators unconsumed. A memory dump lists every tracked object with its size and sums them '
     'per type, largest first, whatever objects raise from repr or sizeof. shuffle_together applies one permutation to all sequences, '
     'random_word draws exactly the length asked for, every permutation and word being possible. Functions marked disabled never run.',
     ['inputs', 'fault_sequences'],
     'all object graphs of two nodes of 21 kinds and of three nodes of the common ones, all mixtures of up to three troublesome objects, all outcomes of the random source',
     'Tests look whether sizes are larger than something, and at one shuffle.',
     ['satella/instrumentation/memory/get_object_size.py', 'satella/instrumentation/memory/dump_frames_on.py', 'satella/random.py', 'satella/warnings.py',
      'satella/coding/transforms/base64.py'],
     [('get_size', 'satella/instrumentation/memory/get_object_size.py'), ('dump_memory_on', 'satella/instrumentation/memory/dump_frames_on.py'),
      ('random_word, shuffle_together', 'satella/random.py'), ('mark_temporarily_disabled', 'satella/warnings.py')])
