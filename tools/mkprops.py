#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
R = "runtime/src/zserio/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": [R + f for f in files], "mechanism": [{"name": n, "where": R + w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "An acknowledged file write is complete and exact",
 "When writing a serialized object, a raw buffer or a JSON dump to a file returns normally, the named file holds exactly the bytes of that object and nothing else, replacing whatever was there before. When any step of opening, writing, flushing or closing the file fails, the call reports the failure with an exception instead of returning. A write that was split, shortened or interrupted by the device but finally accepted in full is a success.",
 ["fault_sequences", "histories"],
 "Every sequence of file writes (binary and JSON, small and larger than any stream buffer, over missing, shorter and longer previous contents) and every placement of open/write/flush/close faults: ENOSPC, EIO, quota, EINTR, short writes, read-only and missing directories.",
 "The tests write to a healthy disk and to a missing directory; no test can make a flush or close fail, nor a device fill up in the middle of a write.",
 ["FileUtil.cpp", "FileUtil.h", "SerializeUtil.h", "DebugStringUtil.h"],
 [("buffer to file", "FileUtil.cpp:writeBufferToFile"), ("object to file", "SerializeUtil.h:serializeToFile"), ("JSON to file", "DebugStringUtil.h:toJsonFile")],
 ["bytes of the simulated file after the call returns", "exception or normal return"])

prop("P02", "Reading a file yields exactly its content or an error",
 "Loading a buffer or an object from a file either gives exactly the bytes (and the object) stored in that file or throws; it never returns partial, padded or stale data. This holds when the device delivers the content in arbitrary pieces, is interrupted, reports errors at any point, or the file shrinks while it is being read.",
 ["fault_sequences", "histories"],
 "Every file content (empty, one byte, around and above stream-buffer sizes) and every placement of short reads, EINTR, EIO on open/seek/read, missing files and concurrent truncation.",
 "The tests read intact files from a healthy disk in one piece.",
 ["FileUtil.cpp", "SerializeUtil.h", "DebugStringUtil.h"],
 [("size probing and read loop", "FileUtil.cpp:readBufferFromFile"), ("object from file", "SerializeUtil.h:deserializeFromFile"), ("JSON from file", "DebugStringUtil.h:fromJsonFile")],
 ["returned buffer versus simulated file content", "exception or normal return"])

prop("P03", "Damaged or truncated binary data is rejected or read as a valid object",
 "Deserializing any byte sequence either throws an error or produces a well-formed object, without touching memory outside the supplied data, without hanging and without leaking. An object produced this way can be validated, compared, hashed, dumped and serialized again, and if serializing it succeeds then reading the result back gives an equal object. A damaged element count alone never makes the reader reserve more than the documented preallocation limit ahead of the elements it really decoded.",
 ["fault_sequences", "inputs"],
 "Every valid serialized object of the workload schemas and every sequence of storage damage applied to it: truncation at any bit, torn tail, bit flips, zeroed, duplicated or transposed blocks, with every preallocation limit.",
 "The tests feed a handful of hand-made bad streams; the damage space of even one object is far too large to list.",
 ["BitStreamReader.cpp", "BitStreamReader.h", "ArrayView.h", "ArrayTraits.h", "DeltaContext.h", "SerializeUtil.h", "BitBuffer.h", "Types.h"],
 [("end-of-stream checks", "BitStreamReader.cpp"), ("array length checks and preallocation limit", "ArrayView.h:read, readPacked"), ("value range checks", "BitStreamReader.cpp")],
 ["exception type", "address sanitizer", "peak bytes requested from the allocator", "value read back"])

prop("P04", "What is stored is what is loaded, bit for bit as the format defines",
 "Every value, array (plain, length-prefixed, aligned, implicit or packed) and object written through any serialization entry point produces exactly the bits the zserio format prescribes, occupies exactly the size predicted beforehand, and reads back equal from any entry point. This holds at every starting bit position, through every storage path (bit buffer, byte vector, raw memory, file), for any history of interleaved writes and reads, and after a failed or interrupted attempt is retried. A value the format cannot represent is refused.",
 ["histories", "inputs", "fault_sequences"],
 "Every sequence of typed fields and arrays with values at and around every width and sign boundary, at every bit offset, through every storage path, with interrupted attempts (exhausted memory or capacity, short or failing file reads and writes) followed by a retry.",
 "The tests check isolated fields at a few positions with a few values; they do not combine arbitrary heterogeneous sequences nor retry after failure.",
 ["BitStreamWriter.cpp", "BitStreamReader.cpp", "Types.h", "ArrayView.h", "ArrayTraits.h", "DeltaContext.h", "SerializeUtil.h", "Types.cpp", "FloatUtil.cpp", "BitPositionUtil.h"],
 [("bit-level writing", "BitStreamWriter.cpp"), ("bit-level reading", "BitStreamReader.cpp"), ("delta packing", "DeltaContext.h"), ("size prediction", "Types.cpp:bitSizeOf")],
 ["serialized bits versus an independently written encoder", "predicted size", "value read back"])

prop("P05", "A full output or exhausted input never damages what was already there",
 "When a bit stream of fixed capacity runs out of room, the write reports an error, no memory outside the given capacity is ever modified, and every bit accepted before stays as it was. When an input runs out, the read reports an error, and repositioning to any earlier bit position reads the original data again. Setting and querying positions and aligning behave the same whether or not a failure happened before.",
 ["histories", "fault_sequences"],
 "Every history of mixed-width reads and writes, alignments and position changes over buffers of every bit capacity (including zero and non-byte-aligned), so that the capacity fault strikes at every point inside an operation; failed operations are followed by further use of the same stream.",
 "The tests exhaust a buffer a few times per operation, always with a fresh stream and never continuing afterwards.",
 ["BitStreamWriter.cpp", "BitStreamWriter.h", "BitStreamReader.cpp", "BitStreamReader.h", "BitPositionUtil.h"],
 [("capacity check", "BitStreamWriter.cpp:checkCapacity"), ("end of stream check", "BitStreamReader.cpp"), ("position setting", "BitStreamReader.cpp:setBitPosition, BitStreamWriter.cpp:setBitPosition")],
 ["guard bytes around the buffer", "bit model of the buffer", "exception or normal return"])

prop("P06", "Value holders stay consistent when allocation or copying fails",
 "For any history of operations on type-erased, optional, variant, owning-pointer and bit-buffer holders, values are neither leaked, destroyed twice nor used after destruction, and each holder reports exactly the value a simple model says it has. When an allocation or a contained value's copy or move throws at any point, the exception reaches the caller, the source of a copy is unchanged, and the holder is left either with its old value, empty, or (variant only) in the documented valueless state, in which every query is still safe.",
 ["histories", "fault_sequences"],
 "Every sequence of construct, assign, emplace, copy, move, swap, reset, compare, visit and destroy over contained types that are small or large, trivially or not, throwing or not, with equal and unequal allocators, and every placement of allocation and copy/move failures.",
 "The tests exercise each operation once on a healthy heap; no test makes an allocation or a copy fail in the middle of an operation.",
 ["Any.h", "Optional.h", "Variant.h", "UniquePtr.h", "AllocatorHolder.h", "BitBuffer.h"],
 [("in-place or heap storage", "Any.h"), ("optional storage", "Optional.h"), ("variant storage", "Variant.h"), ("allocator deleter", "UniquePtr.h")],
 ["live-instance registry of contained values", "allocator balance", "address sanitizer", "model comparison"])

prop("P07", "Memory comes from and returns to the allocator the user supplied",
 "Every block an object, container or operation obtains is requested from the memory resource the user supplied for it and is given back to that same resource exactly once, with the size and alignment it was requested with. With the propagating polymorphic allocator, copies, moves, swaps, deserialization, reflection and JSON reading never fall back to the default resource or to the global heap for the data they keep. After everything is destroyed each resource is balanced, also when some of its allocations were refused.",
 ["histories", "fault_sequences"],
 "Every history of creating, copying, moving, swapping, deserializing and destroying objects over several distinct resources with refused allocations at any point.",
 "The tests use one resource (mostly the default one) and never refuse an allocation.",
 ["ppmr/PropagatingPolymorphicAllocator.h", "AllocatorHolder.h", "Any.h", "Optional.h", "Variant.h", "BitBuffer.h", "UniquePtr.h", "ReflectableData.h", "ZserioTreeCreator.h"],
 [("allocator propagation", "AllocatorHolder.h"), ("uses-allocator construction", "ppmr/PropagatingPolymorphicAllocator.h:construct")],
 ["per-resource ledger of blocks"])

prop("P08", "Operations on objects survive memory exhaustion and can be retried",
 "When memory runs out at any point of copying, assigning, serializing, deserializing, dumping or parsing an object, the operation fails with an out-of-memory exception, everything it had acquired is released, and its inputs are unchanged. Repeating the operation once memory is available gives exactly the result of an undisturbed run, also when the destination object was left behind by the failed attempt.",
 ["fault_sequences", "histories"],
 "Every operation on every workload object and every allocation within it as the point of failure (single and repeated failures), followed by retries into fresh and into reused destinations.",
 "No test makes an allocation fail.",
 ["SerializeUtil.h", "ArrayView.h", "DataView.h", "ReflectableData.h", "JsonReader.h", "JsonWriter.h", "BitBuffer.h", "Optional.h", "Variant.h"],
 [("deserialization into an existing object", "SerializeUtil.h:deserialize"), ("array reading", "ArrayView.h:read"), ("object ownership", "DataView.h")],
 ["exception type", "allocation balance", "result of the retry"])

prop("P09", "JSON reading does not depend on how the stream delivers its bytes",
 "Parsing a JSON document gives the same object, or the same error at the same line and column, no matter how the underlying stream splits the document into pieces. Reading back the JSON text of an object gives an object with the same values (floating point to the printed precision). Several documents read one after another through one reader give the same objects as reading each of them separately.",
 ["schedules", "inputs", "histories"],
 "Every document of the grammar (valid or not, tokens straddling internal buffer boundaries, long strings and whitespace runs) and every delivery schedule of its bytes.",
 "The tests parse short in-memory strings that arrive in one piece.",
 ["JsonReader.h", "JsonParser.h", "JsonTokenizer.h", "JsonTokenizer.cpp", "JsonDecoder.h", "JsonWriter.h", "JsonEncoder.cpp"],
 [("refilling token buffer", "JsonTokenizer.h"), ("value decoding across refills", "JsonDecoder.h"), ("object assembly", "JsonReader.h")],
 ["parsed tree or error text per delivery schedule"])

prop("P10", "Broken JSON input is reported, never turned into a partial object",
 "When a JSON document ends early, is damaged, or its stream fails at any point, parsing either reports an error or returns an object equal to the one a strict reference parser obtains from the same text. It never crashes, hangs, leaks or hands out an object that a previous document produced. A reader or text stream that reported an error does not influence documents parsed later by another reader.",
 ["fault_sequences", "histories"],
 "Every document and every truncation point, stream failure point (with and without stream exceptions), byte flip, deletion, duplication and splice; every history of reads through one reader.",
 "The tests list a few malformed literals; truncation and stream failure at every byte of nested documents are not covered.",
 ["JsonReader.h", "JsonParser.h", "JsonTokenizer.h", "JsonDecoder.h", "ZserioTreeCreator.h"],
 [("syntax checks", "JsonParser.h"), ("literal checks", "JsonDecoder.h"), ("value adapters", "JsonReader.h")],
 ["exception or tree", "reference parser result", "address sanitizer"])

prop("P11", "JSON output is complete and well-formed or the failure is visible",
 "If the output stream is healthy after a JSON dump, the bytes it received are one complete well-formed document that describes the object exactly, field by field in schema order, for every indentation and filter. If the sink refuses bytes at any point, what it received is a prefix of that document and the failure is visible to the caller (stream state, stream exception, or an exception of the call). A failed dump does not change the object nor a later dump of it.",
 ["fault_sequences", "inputs"],
 "Every object of the workload, every indentation and enumeration format, and every placement and kind of sink failure (refused byte, refused flush, thrown exception, exhausted memory).",
 "The tests dump to healthy string streams only.",
 ["JsonWriter.h", "JsonEncoder.cpp", "DebugStringUtil.h", "Walker.h"],
 [("document writing", "JsonWriter.h"), ("literal encoding", "JsonEncoder.cpp")],
 ["bytes accepted by the simulated sink", "stream state", "independent document writer"])

prop("P12", "Tree walking reports every selected element once, in order, and nests",
 "Walking an object reports the root, then every field, array, compound and value selected by the filter exactly once in schema order, with properly nested begin and end notifications and correct element indices. Combining filters selects exactly what all of them select. When an observer or filter throws at any notification or asks to stop, the walk ends there, the object is unchanged, nothing leaks, and a new walk (with filters that were not interrupted) gives the full sequence again.",
 ["histories", "fault_sequences", "inputs"],
 "Every object shape (missing optionals, empty and long arrays, choice and union branches), every combination of depth, path, array-length and user-defined filters, and every notification as the point where the observer or filter throws or stops, or memory runs out.",
 "The tests walk one object with single filters and never interrupt a walk.",
 ["Walker.h", "IWalkObserver.h", "IWalkFilter.h", "ReflectableData.h"],
 [("recursive walk", "Walker.h:BasicWalker"), ("filters", "Walker.h")],
 ["recorded notification sequence versus a reference walker"])

prop("P13", "Step-by-step tree building accepts exactly the legal call sequences",
 "For any sequence of begin, end, set and add calls, the builder accepts exactly the calls that are legal in the current position of the schema, rejects every other with an error, and a rejected call leaves the builder as it was. A call that runs out of memory leaves the position as it was and touches at most the field it was about, so that it can be repeated and building can continue. The tree handed out at the end equals the one described by the accepted calls, with fields that were not set at their defaults.",
 ["histories", "fault_sequences"],
 "Every sequence of legal and illegal builder calls over the workload schemas, with allocation failures inside any call.",
 "The tests follow a few legal sequences and one illegal call at a time on a fresh builder, never with failing allocations.",
 ["ZserioTreeCreator.h", "ReflectableData.h", "ReflectableUtil.h"],
 [("call state machine", "ZserioTreeCreator.h")],
 ["accepted/rejected per call", "typed object read out of the tree"])

prop("P14", "Dynamic access through reflection agrees with the typed object",
 "Reading any field, array element, choice, parameter or path through the dynamic interface gives the same value as the typed object, and writing through it changes exactly that value in the typed object and nothing else. Writes of a wrong type or range, out-of-range indices, access through read-only interfaces and unknown names are rejected with an error and change nothing. Comparing through the dynamic interface finds two objects equal exactly when they are, up to rounding in the last digits of floating point values. A write that runs out of memory changes nothing but the field or element it was writing (a failed append or resize leaves the array as it was), and can be repeated.",
 ["histories", "fault_sequences"],
 "Every history of dynamic reads and writes (set, create, append, resize, set element, find by path, whole-value extraction) interleaved with typed changes on every workload object, with allocation failures inside any of them.",
 "The tests read and write single fields of fixed objects on a healthy heap.",
 ["ReflectableData.h", "ReflectableUtil.h", "IntrospectableView.h", "IntrospectableDataBase.h", "Any.h", "TypeInfo.h"],
 [("dynamic fields", "ReflectableData.h"), ("value extraction", "ReflectableUtil.h"), ("read-only introspection", "IntrospectableView.h")],
 ["model of the object", "typed object fields"])

prop("P15", "Database access reports every fault and loses or leaks nothing",
 "Every value bound to and read back from a database column is returned unchanged, including null, empty, binary and embedded-zero content. When the database engine fails at any point (no memory, device error, device full, locked, malformed statement), the call reports an error; a fault is never presented as a result such as a value, an absent table or column, or an unchanged update. After any failure no statement stays open, an owned connection can be closed and its resources are released, and an external connection stays open.",
 ["fault_sequences", "histories"],
 "Every history of opening, creating, updating, querying, schema inspection, resetting and moving of connections, with a failure injected at any engine allocation, at any device operation, and locks held by a second connection.",
 "The tests use a healthy in-memory database.",
 ["SqliteConnection.h", "SqliteUtil.h", "SqliteException.h", "SqliteFinalizer.h", "ValidationSqliteUtil.h"],
 [("statement preparation and execution", "SqliteConnection.h"), ("column binding and reading", "SqliteUtil.h"), ("schema inspection", "ValidationSqliteUtil.h"), ("statement finalization", "SqliteFinalizer.h")],
 ["values read back", "open statements of the connection", "engine memory in use", "exception or normal return"])

prop("P16", "Transactions through the connection are all-or-nothing across crashes",
 "Changes made between starting and ending a transaction through the connection become visible together when it is ended normally and survive any later crash; they disappear together when the transaction is ended by rollback, when the connection goes away, or when the system crashes before the end was acknowledged. A start inside a running transaction does not start or end anything, and ending without having started one changes nothing. Auto-committed updates that were acknowledged survive a crash.",
 ["crash_points", "fault_sequences", "histories"],
 "Every history of transaction starts, ends, rollbacks, updates, connection moves and resets, with a crash or device failure at any device operation, torn or lost unsynchronised writes, and a reopen afterwards.",
 "The tests check one start/end pair on an in-memory database; crashes are not simulated.",
 ["SqliteConnection.h", "ISqliteDatabase.h", "SqliteUtil.h"],
 [("transaction start and end", "SqliteConnection.h:startTransaction, endTransaction"), ("connection ownership", "SqliteConnection.h:reset")],
 ["rows after reopening the simulated disk", "transaction state reported by the engine"])

prop("P17", "Unchanging objects and type information may be shared by threads",
 "Any number of threads may at the same time read, compare, hash, serialize, deserialize from, walk, dump and inspect the same unchanging objects, buffers and type information without synchronisation. Under every interleaving each of them gets the result it would get alone, no two of them access the same memory in conflict, and first use of type information from several threads initialises it once. Errors reported by one thread do not alter the errors or results seen by another.",
 ["schedules"],
 "Every interleaving, at the granularity of memory accesses, of read-only operations by two to four threads on shared objects, including first use of lazily initialised type information and concurrent error reporting.",
 "The tests are single threaded.",
 ["TypeInfo.h", "ReflectableData.h", "BitStreamReader.cpp", "SerializeUtil.h", "Walker.h", "JsonWriter.h", "CppRuntimeException.cpp", "IService.h"],
 [("function-local static type information", "TypeInfo.h"), ("const access", "SerializeUtil.h")],
 ["result of every operation", "happens-before race detector over instrumented accesses"])

prop("P18", "Service and publish/subscribe payloads arrive as the object that was sent",
 "The bytes a service request, response or publication exposes are exactly the serialized form of the object it was made from, each time they are asked for, as long as the payload is alive, whether it holds a copy, a moved-in object, raw bytes, or an object view, and regardless of what happens to the original. Over a network that drops, duplicates, delays and reorders messages and crashes the peers, every message that is delivered intact decodes to the object that was sent, and the damaged ones are handled like any damaged data. A payload whose preparation failed for lack of memory can be asked again.",
 ["fault_sequences", "schedules", "histories"],
 "Every history of calls and publications between simulated peers, every delivery schedule with loss, duplication, reordering, corruption and peer restart, and allocation failures while payloads are prepared.",
 "The tests construct each payload kind once and read it once.",
 ["IService.h", "IPubsub.h", "SerializeUtil.h", "IntrospectableView.h"],
 [("payload holders", "IService.h"), ("publication interface", "IPubsub.h")],
 ["payload bytes at delivery", "decoded object", "lifetime of payload holders"])

prop("P19", "Errors are reported faithfully even when no memory is left",
 "An error detected while all memory is exhausted is still reported with the same error type and the same message as otherwise, and reporting it neither allocates nor fails in another way. Messages assembled from any number of parts contain the parts in order, cut off only at the fixed maximum length and always terminated. Copies of a reported error stay intact after the original is gone.",
 ["fault_sequences", "histories"],
 "Every error site of the runtime reachable by the workload (reading, writing, validation, reflection, tree building, walking, conversions) with memory exhausted from any allocation on, and every history of message assembly, copying and rethrowing.",
 "The tests check message texts with memory available.",
 ["CppRuntimeException.cpp", "CppRuntimeException.h", "StringConvertUtil.h", "BitStreamReader.cpp", "BitStreamWriter.cpp", "ConstraintException.h"],
 [("fixed message buffer", "CppRuntimeException.h")],
 ["error type and text with and without memory", "allocation counter"])

# --- not simulation targets -------------------------------------------------------------------------------
prop("P30", "Equality, ordering and hashing of values obey their laws",
 "Comparison of values, arrays and objects is a consistent total order with equality, and equal values have equal hash codes.",
 ["inputs"], "Every pair and triple of values.",
 "Pairs and triples of values are unbounded.",
 ["HashCodeUtil.h", "Types.h", "BitBuffer.h", "ArrayView.h", "Span.h"],
 [("operators", "Types.h"), ("hash combination", "HashCodeUtil.h")])
prop("P31", "Numeric and text conversions are exact",
 "Converting between half, single and double precision, between integers of different widths, and between numbers and decimal text gives the exactly representable or correctly rounded result, or an error when it does not fit.",
 ["inputs"], "Every value.",
 "The value spaces are too large for tests.",
 ["FloatUtil.cpp", "SizeConvertUtil.cpp", "StringConvertUtil.h", "Types.h"],
 [("half precision", "FloatUtil.cpp"), ("integer text", "StringConvertUtil.h")])
prop("P32", "Code generated from any schema compiles and follows the schema",
 "For every valid schema the generated classes compile, declare the fields, conditions, constraints, parameters and offsets of the schema, and enforce them when validating, writing and reading.",
 ["programs"], "Every schema.",
 "The integration tests cover a fixed list of schemas.",
 [], [("generator templates", "../../../extension")])
P[-1]["anchors"]["files"] = ["extension/src", "extension/freemarker"]
P[-1]["anchors"]["mechanism"] = [{"name": "code generator", "where": "extension/src"}]

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
