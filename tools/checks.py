"""What each check is built from, how long it runs and what it says about itself."""

ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
UBSAN = ['-fsanitize=undefined', '-fno-sanitize-recover=all']
FLAVOURS = {
    'main': ['-O1', '-g1', '-Wall', '-Wextra'] + ASAN,
    'plain': ['-O1', '-g1'],
    'asan': ['-O1', '-g1'] + ASAN,
    'asan0': ['-O0', '-g1'] + ASAN,
    'asan-ubsan': ['-O1', '-g1'] + ASAN + UBSAN,
    'link.asan': ['-fsanitize=address,undefined', '-rdynamic', '-pthread'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-include', 'noextern.hpp'],
    'link.tsan': ['-rdynamic', '-pthread'] + ['-Wl,--wrap=' + f for f in (
        '__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_atexit __cxa_allocate_exception malloc '
        'pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock '
        'pthread_rwlock_unlock pthread_once memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcpy strncpy strcat '
        'snprintf vsnprintf sprintf').split()],
    'link.errors': ['-fsanitize=address,undefined', '-rdynamic', '-pthread'] + ['-Wl,--wrap=' + f for f in (
        '_ZN6zserio19CppRuntimeExceptionC1EPKc _ZN6zserio19CppRuntimeExceptionC2EPKc __cxa_throw __cxa_allocate_exception').split()],
    'link.plain': ['-rdynamic', '-pthread'],
}

CHECKS = {}

NOT_APPLICABLE = {
    'P30': 'Equality, ordering and hashing are pure functions of their operands: no schedule, clock, I/O, fault or '
           'history for a simulator to control. (Their agreement after round trips, faults and under concurrency is '
           'part of P03, P04, P08 and P17.)',
    'P31': 'Numeric and text conversions are pure functions of their input: no schedule, clock, I/O, fault or history '
           'for a simulator to control.',
    'P32': 'The code generator is a single-threaded pure translator from schema text to source text written in Java; '
           'it can neither be built nor run here (no network, no dependencies), and nothing in it depends on '
           'schedules, time or faults.',
}

DISK_STUB = ('the file system and device below the C library calls (open/read/write/lseek/stat/close and their stdio '
             'forms) are an in-memory model')
FILES_REAL = ['zserio FileUtil, SerializeUtil, DebugStringUtil (JsonWriter, JsonReader, Walker), BitStream classes, '
              'BitBuffer', 'libstdc++ file streams', 'generated code DebugStringObject, DebugStringParamObject']
CHECKS['P01'] = dict(
    sources=['harness/p01_p02_files.cpp', 'sim/simdisk.cpp'], defines=['-DPROP=1'],
    generated=[('std_allocator', ['DebugStringObject', 'DebugStringParamObject'])],
    harness_flavour='asan', generated_flavour='asan', runtime_flavour='asan-ubsan', link_flavour='asan', libs=['-ldl'],
    quick=dict(count=1000000, secs=25), thorough=dict(count=20000000, secs=240),
    rule='a run is a random history of file writes (raw buffer, bit buffer, object by data/parameter/view, JSON) over '
         'three names with generated previous contents and device faults; it is non-trivial when at least one device '
         'fault (hard or soft) really struck; two runs are the same when their sequence of (kind of write, size class, '
         'fault outcome, number of device operations) is the same',
    step_measure='one step is one simulated device operation',
    must_fire=['fault.open', 'fault.write', 'fault.close', 'fault.device-full', 'fault.short-write',
               'fault.eintr-write', 'fault.delayed-write-loss', 'fault.read-only-file'],
    real=FILES_REAL, stub=[DISK_STUB],
    assumptions=['a device operation that is acknowledged keeps its bytes unless the close reports a delayed failure',
                 'write() never returns 0 for a non-empty request'])
CHECKS['P01']['level_note'] = (
    'Seeded exploration of write histories and device-fault placements against the real writers and the real C++ file '
    'streams; evidence, not proof. Trusts the in-memory device model and the independent encoders of the harness.')
CHECKS['P02'] = dict(CHECKS['P01'])
CHECKS['P02'].update(
    defines=['-DPROP=2'],
    level_note='Seeded exploration of read histories and device-fault placements against the real readers and the real '
               'C++ file streams; evidence, not proof. Trusts the in-memory device model.',
    rule='a run is a random history of file reads (raw buffer, object into data, object as data view, parametrised '
         'object, JSON) of generated contents with device faults and concurrent truncation; it is non-trivial when at '
         'least one device fault really struck; two runs are the same when their sequence of (kind of read, size '
         'class, fault outcome, number of device operations) is the same',
    must_fire=['fault.open', 'fault.read', 'fault.seek', 'fault.short-read', 'fault.eintr-read',
               'fault.file-shrunk-in-use'],
    assumptions=['another process may truncate, but not extend or rewrite, a file while it is read'])

CHECKS['P05'] = dict(
    sources=['harness/p05_streams.cpp'],
    harness_flavour='asan-ubsan', runtime_flavour='asan-ubsan', link_flavour='asan',
    quick=dict(count=6000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run is a random history of writes, alignments and seeks on one bounded bit stream writer, or of reads, '
         'alignments and seeks on one bounded reader, continued after every failure; it is non-trivial when at least '
         'one operation failed for lack of room, exhausted input or an illegal value; two runs are the same when the '
         'capacity and the sequence of (operation, verdict, bit offset, size) are the same',
    must_fire=['fault.capacity-exhausted', 'fault.rejected-value', 'fault.input-exhausted-or-illegal',
               'fault.false-size-claim'],
    real=['zserio BitStreamWriter, BitStreamReader, BitBuffer, size functions'], stub=[],
    level_note='Seeded exploration of stream histories against an independent bit model, with exact-size buffers '
               'under the address sanitizer. A writer without storage (null buffer) is its measuring mode, not a full '
               'stream.',
    assumptions=[])

CREATOR = ['CreatorBitmask', 'CreatorEnum', 'CreatorNested', 'CreatorObject']
WALKER = ['WalkerBitmask', 'WalkerChoice', 'WalkerNested', 'WalkerObject', 'WalkerUnion']
REFLECTABLE = ['ReflectableChoice', 'ReflectableEnum', 'ReflectableNested', 'ReflectableObject', 'ReflectableUnion']
FIELD_SOURCES = ['harness/fields_reg%d.cpp' % i for i in (2, 7, 3, 4, 1, 6, 5)]
CHECKS['P04'] = dict(
    sources=['harness/p04_wire.cpp'] + FIELD_SOURCES + ['sim/simdisk.cpp'],
    generated=[('std_allocator', CREATOR + WALKER + REFLECTABLE + ['CreatorUnsignedEnum'])],
    harness_flavour='asan', generated_flavour='asan0', runtime_flavour='asan-ubsan', link_flavour='asan', libs=['-ldl'],
    quick=dict(count=2000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run is a random program of fields, arrays and compounds of all kinds at random bit positions (or a history '
         'of whole objects through the public entry points) written, stored and read back with failed attempts in '
         'between; it is non-trivial when at least one attempt was cut short (no room, truncated input, no memory, '
         'device fault) or a value was refused; two runs are the same when the sequence of (field kind, bit offset, '
         'element count, alignment) or of (way of writing, way of reading, size class) is the same',
    must_fire=['fault.capacity-exhausted', 'fault.truncated-input', 'fault.allocation', 'fault.value-out-of-range'],
    real=['zserio BitStreamWriter, BitStreamReader, BitBuffer, ArrayView, ArrayTraits, DeltaContext, View, DataView, '
          'SerializeUtil, FileUtil, Types', 'generated code CreatorObject, WalkerObject, ReflectableObject and their '
          'parts'],
    stub=[DISK_STUB, 'operator new fails on plan', 'packable compounds, offsets and alignment are hand-written in the '
          'shape of generated code (the pre-generated schema has none)'],
    level_note='Seeded exploration of field programs and object histories against an independent encoder written from '
               'the format definition; evidence, not proof.',
    assumptions=[])

CHECKS['P03'] = dict(CHECKS['P04'])
CHECKS['P03'].update(
    sources=['harness/p03_damage.cpp'] + FIELD_SOURCES + ['sim/simdisk.cpp'],
    quick=dict(count=2000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run reads damaged encodings of random objects, of random field programs, or an array with only its element '
         'count damaged; every run injects damage (truncation, flipped bits, zeroed, all-ones or garbage blocks, lost, '
         'duplicated, swapped or spliced blocks, changed numbers); two runs are the same when the sequence of (damage, '
         'way of reading, verdict, size class) or of (field kind, bit offset, count class, limit) is the same',
    must_fire=['fault.truncated', 'fault.bits-flipped', 'fault.zeroed', 'fault.all-ones', 'fault.garbage',
               'fault.duplicated-block', 'fault.lost-block', 'fault.swapped-blocks', 'fault.spliced',
               'fault.small-number-changed', 'fault.element-count'],
    level_note='Seeded exploration of damage to binary data under the address sanitizer and a memory budget; accepted '
               'data is re-encoded and compared with an independent encoder; evidence, not proof.',
    assumptions=['elements that occupy no bits (packed constants, empty compounds) may be repeated as often as their '
                 'count says, up to the memory available'])

CHECKS['P06'] = dict(
    sources=['harness/p06_%s.cpp' % s for s in ('any', 'variant', 'optional', 'holders')],
    harness_flavour='asan', runtime_flavour='asan-ubsan', link_flavour='asan',
    quick=dict(count=3000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run is a random history of constructing, copying, moving, assigning, swapping, resetting, comparing and '
         'destroying three holders of one kind; it is non-trivial when at least one allocation or one copy, move or '
         'construction of a contained value really failed; two runs are the same when the sequence of (operation, '
         'contained types, outcome) is the same',
    state_measure='contained types of the three holders',
    must_fire=['fault.allocation', 'fault.value-throws'],
    real=['zserio Any, Optional, Variant, UniquePtr, BitBuffer, AllocatorHolder, PropagatingPolymorphicAllocator'],
    stub=['contained values are instrumented types of the harness', 'operator new and memory resources fail on plan'],
    level_note='Seeded exploration of holder histories with failures at any allocation or value operation, against a '
               'small model, a registry of live values and the address sanitizer; evidence, not proof.',
    assumptions=['destructors of contained values do not throw',
                 'contained containers with unequal non-propagating allocators are not swapped (their own '
                 'precondition)'])

OBJECTS_REAL = ['generated code CreatorObject, WalkerObject, ReflectableObject and their parts', 'zserio View, DataView, '
                'SerializeUtil, BitStream classes, BitBuffer, Any, Optional, Variant, ReflectableData, TypeInfo, Walker, '
                'JsonWriter, JsonReader, JsonParser, JsonTokenizer, ZserioTreeCreator, PropagatingPolymorphicAllocator']
CHECKS['P07'] = dict(
    sources=['harness/p07_%s.cpp' % f for f in ('pmr', 'ppmr', 'holders', 'values1', 'values2', 'main')], defines=['-DPROP=7'],
    generated=[(a, CREATOR + WALKER + REFLECTABLE) for a in ('std_allocator', 'pmr_allocator', 'ppmr_allocator')],
    harness_flavour='asan', generated_flavour='asan0', runtime_flavour='asan', link_flavour='asan',
    quick=dict(count=1500000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run is a random history of creating, filling, copying, moving, assigning, swapping, serializing, '
         'deserializing, dumping, parsing, reflecting and destroying three objects over three user resources, with '
         'refused allocations; it is non-trivial when at least one allocation was refused; two runs are the same when '
         'the sequence of (operation, resource, refused allocation) is the same',
    state_measure='which of the three objects exist and which resources their data may live in',
    must_fire=['fault.allocation'],
    real=OBJECTS_REAL, stub=['memory resources with a ledger and operator new fail on plan'],
    level_note='Seeded exploration of object histories over accounted memory resources; evidence, not proof.',
    assumptions=['exception objects themselves are the language runtime\'s memory'])
CHECKS['P08'] = dict(CHECKS['P07'])
CHECKS['P08'].update(
    sources=['harness/p07_%s.cpp' % f for f in ('std', 'pmr', 'ppmr', 'main')], defines=['-DPROP=8'],
    level_note='Seeded exploration of object histories in which any allocation may be refused, once or from then on; '
               'results of retried operations are compared with an independent model; evidence, not proof.')

JSON_GENERATED = [('std_allocator', CREATOR + WALKER + REFLECTABLE + ['CreatorUnsignedEnum'])]
JSON_STUB = ['classes Sink and Inner are hand-written in the shape of generated code: the pre-generated schema has no field '
             'of most kinds']
CHECKS['P09'] = dict(
    sources=['harness/p09_p11_json.cpp'], defines=['-DPROP=9'], generated=JSON_GENERATED,
    harness_flavour='asan', generated_flavour='asan0', runtime_flavour='asan-ubsan', link_flavour='asan',
    quick=dict(count=1000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run reads one to three generated documents (a third of them damaged) at once and again in one to three '
         'random deliveries, or reads back the text of a generated object in pieces; it is non-trivial when the text '
         'really came in more than one piece or across an internal chunk boundary; two runs are the same when '
         'deliveries, number of results and text size class are the same',
    must_fire=['fault.pieces', 'fault.chunk-boundary', 'fault.damaged-document', 'op.respelled'],
    real=['zserio JsonReader, JsonParser, JsonTokenizer, JsonDecoder, ZserioTreeCreator, JsonWriter, Walker, '
          'ReflectableData, TypeInfo, DebugStringUtil', 'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['the stream buffer below std::istream delivers on plan'] + JSON_STUB,
    level_note='Seeded exploration of documents and deliveries against an independent JSON reference; evidence, not proof.',
    assumptions=['a stream buffer may deliver fewer bytes than asked for, but zero only at the end'])
CHECKS['P10'] = dict(CHECKS['P09'])
CHECKS['P10'].update(
    defines=['-DPROP=10'],
    rule='a run reads damaged, spliced, cut off or failing text with one reader until some reads after the first error; it '
         'is non-trivial when at least one read failed; two runs are the same when the sequence of verdicts is the same',
    must_fire=['fault.truncated', 'fault.character-changed', 'fault.bit-flipped', 'fault.block-lost',
               'fault.block-duplicated', 'fault.value-replaced', 'fault.key-renamed', 'fault.member-repeated',
               'fault.zeroed', 'fault.garbage-appended', 'fault.spliced', 'fault.stream-failed', 'fault.early-end',
               'fault.pieces'],
    level_note='Seeded exploration of damaged JSON text against an independent, deliberately lenient reference parser: '
               'the reader may reject more than it; evidence, not proof.',
    assumptions=['escapes \\u0080 and above are not compared (the reader documents a simplified decoding)'])
CHECKS['P11'] = dict(CHECKS['P09'])
CHECKS['P11'].update(
    defines=['-DPROP=11'],
    rule='a run dumps a generated object with a random format and filter to a sink with at most one fault, then dumps it '
         'again; it is non-trivial when the fault really struck; two runs are the same when fault, exception mask, format, '
         'filter and the sixteenth of the document reached are the same',
    must_fire=['fault.sink-refuses', 'fault.sink-refuses-once', 'fault.sink-throws', 'fault.flush-fails'],
    stub=['the stream buffer below std::ostream refuses, throws or fails to flush on plan'] + JSON_STUB,
    level_note='Seeded exploration of objects, formats, filters and sink faults against an independent reference writer; '
               'evidence, not proof.',
    assumptions=['the output stream has default formatting flags and the classic locale'])
CHECKS['P12'] = dict(CHECKS['P09'])
CHECKS['P12'].update(
    sources=['harness/p12_walk.cpp'], defines=[],
    rule='a run walks a generated object with a random filter combination, interrupted zero to two times, then once more '
         'in full; it is non-trivial when at least one walk was really cut short (observer or filter threw, memory '
         'refused) or something unwalkable was offered; two runs are the same when object class, filters and the '
         'sequence of (outcome, notifications seen) are the same',
    must_fire=['fault.observer-throws', 'fault.filter-throws', 'fault.allocation', 'fault.not-walkable'],
    real=['zserio Walker, DefaultWalkFilter, DepthWalkFilter, RegexWalkFilter, ArrayLengthWalkFilter, AndWalkFilter, '
          'ReflectableData, TypeInfo', 'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['operator new refuses on plan', 'observer and one filter are the harness\'s own'] + JSON_STUB[:0] + [
          'classes Sink and Inner are hand-written in the shape of generated code'],
    level_note='Seeded exploration of objects, filter combinations and interruption points against an independent '
               'reference walk; evidence, not proof.',
    assumptions=['a depth or path filter that was interrupted by an exception is not used again (its position is lost)'])
CHECKS['P13'] = dict(CHECKS['P12'])
CHECKS['P13'].update(
    sources=['harness/p13_creator.cpp'],
    rule='a run drives one builder through up to 200 calls, one in six of them drawn without regard to the position, one in '
         'five with a memory refusal planned; it is non-trivial when at least one call was illegal or really ran out of '
         'memory; two runs are the same when their sequences of (call, outcome) are the same; states are (schema class, '
         'depth, in array, call, field, outcome)',
    must_fire=['fault.allocation', 'fault.illegal-call', 'op.tree-finished'],
    real=['zserio ZserioTreeCreator, ReflectableData, ReflectableUtil, Any, TypeInfo',
          'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['operator new refuses on plan', 'classes Sink and Inner are hand-written in the shape of generated code'],
    level_note='Seeded exploration of call sequences against an independent model of the builder; evidence, not proof.',
    assumptions=['values of type Bool, Float16, Float32 and Float64 (the wrappers) are not offered directly',
                 'bit mask text consists of names joined by "|" or of decimal digits'])
CHECKS['P14'] = dict(CHECKS['P12'])
CHECKS['P14'].update(
    sources=['harness/p14_reflection.cpp', 'harness/p14_values.cpp'],
    rule='a run makes up to 60 dynamic reads and writes on one object, interleaved with typed changes, one in four with a '
         'memory refusal planned, or introspects a view, or asks and changes single values and arrays of every built-in type; it is non-trivial when at least one access was illegal or really '
         'ran out of memory, or a view was introspected; two runs are the same when their sequences of (operation, outcome) '
         'are the same; states are (class of the compound, operation, memory fault planned)',
    must_fire=['fault.allocation', 'fault.illegal-access', 'op.read', 'op.find', 'op.setField', 'op.createField', 'op.array',
               'op.equal', 'op.introspect', 'op.value'],
    real=['zserio ReflectableData, ReflectableUtil, IntrospectableView, IntrospectableDataBase, Any, TypeInfo',
          'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['operator new refuses on plan', 'classes Sink and Inner are hand-written in the shape of generated code'],
    level_note='Seeded exploration of access histories against an independent model of the object; evidence, not proof.',
    assumptions=['reflections of elements and nested objects are not kept across changes of what contains them'])

SQL_STUB = ['the device below the SQLite engine is an in-memory model (its VFS)', 'the memory of the engine refuses on plan',
            'operator new refuses on plan', 'tables are hand-written in the shape of generated table classes; two of the '
            'stored objects too']
CHECKS['P15'] = dict(
    sources=['harness/p15_sqlite.cpp', 'sim/simsql.cpp'], defines=[],
    generated=[('std_allocator', ['CreatorNested', 'CreatorEnum', 'CreatorUnsignedEnum', 'CreatorBitmask'])],
    harness_flavour='asan', generated_flavour='asan', runtime_flavour='asan', link_flavour='asan',
    libs=['-l:libsqlite3.a', '-ldl', '-lm', '-lpthread'],
    quick=dict(count=1000000, secs=30), thorough=dict(count=20000000, secs=240),
    rule='a run is a history of up to 40 operations (create, insert, select, update, drop, count, schema, column lookup, '
         'malformed statements, locks by another user, exchange of the connection) on up to four tables, most of them '
         'with a fault planned; it is non-trivial when at least one fault really struck or a malformed statement was '
         'offered; two runs are the same when their sequences of (operation, outcome, fault) are the same; states are '
         '(operation, outcome, kind of fault)',
    step_measure='one step is one simulated device operation or one operation of the library',
    must_fire=['fault.engine-memory', 'fault.device-read', 'fault.device-write', 'fault.device-full', 'fault.device-sync',
               'fault.device-lock', 'fault.device-delete', 'fault.device-access', 'fault.locked', 'fault.allocation',
               'fault.malformed-statement', 'fault.no-connection', 'op.insert', 'op.select', 'op.update', 'op.count-rows',
               'op.schema', 'op.column-in-table', 'op.swap-connection', 'op.prepare'],
    real=['zserio SqliteConnection, SqliteUtil, SqliteException, SqliteFinalizer, ValidationSqliteUtil, SerializeUtil',
          'the SQLite engine (system library, statically linked)'],
    stub=SQL_STUB,
    level_note='Seeded exploration of histories with faults at any allocation of the engine, any device operation and any '
               'allocation of the library, against a model of the tables; evidence, not proof.',
    assumptions=['NaN and the sign of zero are not stored by the engine and not offered',
                 'statements run from one thread'])
CHECKS['P16'] = dict(CHECKS['P15'])
CHECKS['P16'].update(
    sources=['harness/p16_transactions.cpp', 'sim/simsql.cpp'], generated=[],
    rule='a run is a history of up to 50 starts, ends, rollbacks, updates (of one or two databases), losses of the '
         'connection, power cuts and visits of another user, most of them with a fault or a crash planned inside; it is '
         'non-trivial when at least one fault or crash really struck; two runs are the same when their sequences of '
         '(operation, outcome, transaction open, fault) are the same; states are (operation, outcome, transaction open, '
         'other user present, fault)',
    must_fire=['fault.crash', 'fault.engine-memory', 'fault.device-read', 'fault.device-write', 'fault.device-full',
               'fault.device-sync', 'fault.device-lock', 'fault.device-delete', 'fault.locked', 'fault.peer-lock',
               'fault.unsynced-write-lost', 'fault.unsynced-write-torn', 'op.commit', 'op.rollback', 'op.leave',
               'op.crash-and-restart', 'check.isolation'],
    real=['zserio SqliteConnection, SqliteException, SqliteFinalizer',
          'the SQLite engine (system library, statically linked)'],
    stub=SQL_STUB[:2],
    level_note='Seeded exploration of transaction histories with crashes and faults at any device operation against a model '
               'of the committed contents; evidence, not proof.',
    assumptions=['PRAGMA synchronous=EXTRA: the device is told to synchronise; synchronised data stays',
                 'a transaction whose end was reported as failed by the device, or was in progress when power went, may '
                 'or may not have happened, but as a whole'])
CHECKS['P17'] = dict(
    sources=['harness/p17_threads.cpp'] + ['harness/fields_reg%d.cpp' % i for i in range(1, 8)],
    plain_sources=['sim/simthread.cpp', 'sim/simdisk.cpp'], defines=[],
    generated=[('std_allocator', None)],
    harness_flavour='tsan', generated_flavour='tsan', runtime_flavour='tsan', main_flavour='plain', link_flavour='tsan',
    libs=['-ldl'],
    quick=dict(count=1000000, secs=50), thorough=dict(count=20000000, secs=400),
    rule='a run is two to four threads sharing objects or type information, each doing a few read-only operations while a '
         'seeded scheduler decides at every instrumented memory access which thread continues; it is non-trivial when '
         'another thread really was switched to inside an operation; two runs are the same when their operations and '
         'the sequences of (access at which it was switched, next thread) are the same; states are (operation, whether the '
         'statics were to be initialised anew)',
    step_measure='memory accesses of the code under test, each a point at which the scheduler may switch threads',
    must_fire=['fault.first-use', 'fault.preemption', 'fault.waits-for-initialisation', 'check.accesses'],
    real=['all of the zserio runtime the operations reach, the generated classes of the repository and the instantiated '
          'parts of the C++ standard library, every memory access instrumented by the compiler'],
    stub=['thread scheduler (one thread runs at a time; a seeded choice at every access decides who)',
          'initialisation guards of function-local statics, mutexes, rwlocks and call-once (modelled, with their '
          'happens-before edges)', 'race detection (own vector clocks behind the __tsan_* calls of the compiler)'],
    level_note='Seeded exploration of interleavings; every pair of unordered conflicting accesses in the executed '
               'interleaving is found whichever thread comes first, also where the values happen to agree; evidence, not proof.',
    assumptions=['accesses inside precompiled library code (libstdc++.so, libc) are seen through wrappers of the common '
                 'functions only', 'sequentially consistent execution: a race is found by its missing happens-before '
                 'edge, not by weak-memory values'])

CHECKS['P18'] = dict(
    sources=['harness/p18_%s.cpp' % f for f in ('std', 'pmr', 'ppmr', 'main')], defines=[],
    generated=[(a, CREATOR + WALKER + REFLECTABLE) for a in ('std_allocator', 'pmr_allocator', 'ppmr_allocator')],
    harness_flavour='asan', generated_flavour='asan0', runtime_flavour='asan', link_flavour='asan',
    quick=dict(count=1500000, secs=35), thorough=dict(count=100000000, secs=300),
    rule='a run is a history of up to 64 actions of two to five nodes (calls with retransmission, publications, '
         'subscriptions, local calls, crashes, partitions) with everything the network does in between, until all is '
         'delivered; it is non-trivial when at least one fault struck; two runs are the same when their sequences of '
         '(action, form of the payload, fault) are the same; states are (form of the payload, hand-over, kind, outcome)',
    step_measure='one step is one action of a node or one event of the network; simulated time is counted in ticks of the '
                 'network (probe simulated-time)',
    must_fire=['fault.lost', 'fault.duplicated', 'fault.damaged', 'fault.delayed', 'fault.partitioned', 'fault.crash',
               'fault.receiver-down', 'fault.allocation', 'op.answer-again', 'op.retransmission', 'check.payload-bytes',
               'check.introspectable', 'check.response', 'check.damaged-response', 'check.publication-received',
               'check.local-response', 'op.unsubscribe-inside', 'op.subscribe-inside', 'check.call-finished'],
    real=['zserio IService payload holders (introspectable, object, raw, raw view), IPubsub, ServiceException, '
          'PubsubException, SerializeUtil, IntrospectableView, in all three allocator flavours',
          'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['service, client and pubsub classes are hand-written after the templates of the generator, which does not build '
          'here', 'network, transport (retransmission, answer cache) and node memory are simulated'],
    level_note='Seeded exploration of call and publication histories over a faulty network; payload bytes and decoded '
               'objects are compared with an independent model; evidence, not proof.',
    assumptions=['the transport notices damage (a damaged request is served, but its answer is not used)'])

CHECKS['P19'] = dict(
    sources=['harness/p19_errors.cpp'] + FIELD_SOURCES + ['sim/simdisk.cpp'], defines=[],
    generated=[('std_allocator', None)],
    harness_flavour='asan', generated_flavour='asan0', runtime_flavour='asan-ubsan', link_flavour='errors', libs=['-ldl'],
    quick=dict(count=2000000, secs=30), thorough=dict(count=100000000, secs=240),
    rule='a run is a history of making, extending, copying, moving, throwing and rethrowing errors of one type, or a few '
         'error sites each run with memory and with memory exhausted from several allocations on; it is non-trivial when '
         'a message was assembled or an error site really ended in an error; two runs are the same when their sequences '
         'of (operation) or of (error site, error type) are the same; states are (type and first words of the error)',
    step_measure='one step is one operation on an error or one error site',
    must_fire=['fault.allocation', 'check.error-site', 'check.error-with-just-enough-memory', 'op.cut-off', 'op.throw',
               'op.rethrow', 'op.copy', 'op.move', 'op.chain', 'op.real'],
    real=['zserio CppRuntimeException and all its descendants, StringConvertUtil', 'everything in the runtime that can '
          'report an error on the way of the sites: BitStream classes, BitBuffer, Any, Optional, Variant, Types, Enums, '
          'TypeInfo, ReflectableData, IntrospectableView, ZserioTreeCreator, Walker, JsonReader, FileUtil, SerializeUtil, '
          'array and delta context code', 'generated code CreatorObject, WalkerObject, ReflectableObject'],
    stub=['operator new refuses on plan', DISK_STUB, 'some classes are hand-written in the shape of generated code'],
    level_note='Seeded exploration of error histories and of error sites with memory exhausted from any allocation on; '
               'evidence, not proof.',
    assumptions=['memory the language runtime takes for the thrown object itself (not operator new) is available',
                 'what a moved-from error says is left open'])
