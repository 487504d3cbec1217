#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["tpie/"+f for f in files],
        state=[dict(name=a,meaning=b,where="tpie/"+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where="tpie/"+b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))

p("P01","Uncompressed streams behave as a sequence with a cursor",
 "For every history of writing, reading, peeking, reading backwards, seeking, skipping and truncating, an uncompressed item stream delivers exactly the items, sizes, offsets and can-read answers of an abstract sequence with a cursor. Moving past either end is reported with an end-of-stream or range error and changes nothing.",
 ["histories","inputs"],"all operation sequences, item values, item counts and positions relative to block boundaries",
 "test_stream replays a few fixed and random scripts with one block size; the interleavings of reads, writes, seeks and truncation around block boundaries are unbounded.",
 ["stream_crtp.h","file_stream_base.h","file_base.h","file_base_crtp.h","file_stream.h","uncompressed_stream.h","file.h","stream.h"],
 [("block cache and index arithmetic","stream_crtp.h"),("block read/write","file_accessor/stream_accessor_base.inl")],
 ["file_stream / uncompressed_stream / file::stream public methods"],
 [("m_index/m_blockStartIndex/m_nextBlock/m_nextIndex","cursor","stream_crtp.h"),("m_size","logical length","file_base_crtp.h")])
p("P02","Compressed streams behave as an append-only sequence with a cursor",
 "For every history of appending, reading forwards and backwards, seeking to the ends, saving and restoring positions and truncating, a compressed item stream delivers exactly the items, sizes and can-read answers of an abstract sequence. Illegal operations raise an error instead of corrupting the sequence.",
 ["histories","inputs"],"all operation sequences over compressed streams, all block sizes, item counts around block boundaries",
 "The existing tests run scripted patterns with 2 MB blocks; positions saved mid-block, truncations inside flushed and unflushed blocks and direction changes combine combinatorially.",
 ["compressed/stream.h","compressed/stream_base.cpp","compressed/buffer.cpp","compressed/buffer.h","compressed/thread.cpp","compressed/request.h","compressed/stream_position.h"],
 [("buffer and seek state machine","compressed/stream_base.cpp"),("block framing","compressed/thread.cpp")],
 ["file_stream public methods"])
p("P03","Stream contents, size and user data survive close and reopen",
 "After a stream is closed, opening the same file again yields exactly the items, the item count and the user data that were last written, under every access mode and compression setting. Opening in a mode or with an item size or user-data capacity that the file does not satisfy is refused with an error.",
 ["histories","configurations"],"all write/close/reopen histories, access types, compression flags, user-data sizes",
 "Tests reopen a handful of files in the common modes.",
 ["file_accessor/stream_accessor_base.inl","file_accessor/stream_accessor.h","stream_header.h","file_base_crtp.h","compressed/stream_base.cpp"],
 [("header read/write/validate","file_accessor/stream_accessor_base.inl"),("last block offset on reopen","compressed/stream_base.cpp")],
 ["open/close/read_user_data/size"])
p("P04","Damaged or unclean stream files are refused, never misread",
 "Opening any file whose header is not one that a clean close of a matching stream wrote (wrong magic, version, item size, block size, inconsistent sizes, truncated file, or not cleanly closed) raises an error in finite time. A file whose previous writer never closed it is always detected.",
 ["inputs","crash_points"],"all header byte contents, all file lengths shorter than a header, all points at which the writer stops",
 "Tests corrupt a fixed field or two; the header has dozens of bytes whose every value matters.",
 ["file_accessor/stream_accessor_base.inl","file_accessor/posix.inl","stream_header.h"],
 [("validate_header","file_accessor/stream_accessor_base.inl"),("cleanClose flag","file_accessor/stream_accessor_base.inl"),("read_i","file_accessor/posix.inl")],
 ["file_stream::open"])
p("P05","I/O failures and short transfers never lose or corrupt data silently",
 "If the operating system transfers fewer bytes than requested, retries, or reports an error on any read, write, seek, truncate or open, a stream either completes the operation with the full correct data or raises an I/O error. Data reported as written and later read back is never different from what was written.",
 ["fault_sequences"],"every position and kind of failing or short OS call during stream histories",
 "No existing test injects OS faults.",
 ["file_accessor/posix.inl","file_accessor/stream_accessor_base.inl","compressed/thread.cpp","stream_crtp.h","file_stream_base.h"],
 [("read_i/write_i retry loops and throw_errno","file_accessor/posix.inl"),("exception transport in responses","compressed/request.h")],
 ["exceptions, read-back data"])
p("P06","The external stack is LIFO and persistent",
 "For every history of pushes, pops, tops, emptiness and size queries, the external stacks return exactly what an ideal LIFO stack returns, and popping an empty stack is an error. A stack kept in a named file continues after being closed and reopened.",
 ["histories","inputs"],"all push/pop/top/size histories across the in-memory buffer boundary and reopen",
 "test_stack pushes and pops long monotone sequences; the buffer refill boundary under mixed histories is not enumerated.",
 ["stack.h","file_stream.h"],[("buffered top","stack.h")],["push/pop/top/size/empty"])
p("P07","The external queue is FIFO",
 "For every history of pushes, pops, fronts and size queries, the external queue returns exactly what an ideal FIFO queue returns. Reading an empty queue is an error.",
 ["histories","inputs"],"all push/pop/front histories through both files and the in-memory centre",
 "The test runs fixed lengths; file swaps happen at particular size relations only.",
 ["queue.h","internal_queue.h"],[("push file / centre / pop file hand-over","queue.h")],["push/pop/front/size/empty"])
p("P08","In-memory queue, stack, vector and buffers honour their contracts",
 "Within their fixed capacity, the internal queue, stack, circular-buffer style and vector containers return exactly the elements of the ideal container for every history, keep size/empty/full consistent, and never touch memory outside their allocation.",
 ["histories","inputs"],"all histories up to capacity, all capacities",
 "Tests run one capacity and one pattern; wrap-around interleavings are not covered.",
 ["internal_queue.h","internal_stack.h","internal_vector.h","internal_stack_vector_base.h"],
 [("ring index arithmetic","internal_queue.h")],["public methods"])
p("P09","Arrays, views, packed and bit arrays store every element independently",
 "For every size, initial value and sequence of writes, arrays, array views, bit arrays and packed arrays return for each index the last value written there and leave all other elements unchanged; iterators visit exactly the elements in order; copies are equal and independent.",
 ["inputs","histories"],"all sizes, bit widths, indices, values and write orders",
 "Tests check a few sizes and element widths.",
 ["array.h","array_view.h","array_view_base.h","packed_array.h","bit_array.h"],
 [("bit packing","packed_array.h"),("bool specialisation","array.h")],["operator[], iterators, resize, copy"])
p("P10","Internal priority queues and heaps pop in order and lose nothing",
 "For every history, internal priority queues, merge heaps and overflow heaps return at each pop a minimum of exactly the multiset of elements currently held. Bulk construction, replace-top and push-then-pop combinations preserve the multiset.",
 ["histories","inputs"],"all push/pop/replace histories, element values incl. ties, all capacities",
 "Tests use random scripts.",
 ["internal_priority_queue.h","mergeheap.h","pq_overflow_heap.h","pq_merge_heap.h","util.h"],
 [("heap sift operations","mergeheap.h"),("pop_and_push_heap","util.h")],["push/pop/top"])
p("P11","The external priority queue pops the minimum for every history",
 "For every history of pushes, pops and tops, whatever amount of data has overflowed to external storage, the external priority queue returns at each pop a minimum of exactly the multiset of elements held, with correct size and emptiness.",
 ["histories","inputs"],"all histories incl. group formation, slot compaction and refill of the in-memory buffers",
 "The buffers hold many thousand elements, so tests see few overflow/merge interleavings.",
 ["priority_queue.h","priority_queue.inl","pq_overflow_heap.h","pq_merge_heap.h"],
 [("fill_buffer/fill_group_buffer/empty_group","priority_queue.inl")],["push/pop/top/size/empty"])
p("P12","Disjoint sets maintain exactly the generated equivalence",
 "After any sequence of make-set, union, link and find operations, two elements have the same representative exactly if they are connected by the unions performed, the set count equals the number of classes, and membership queries are exact.",
 ["histories"],"all union/find sequences and element counts",
 "Tests run one random sequence.",
 ["disjoint_sets.h"],[("path compression / union by rank","disjoint_sets.h")],["find_set/union_set/count/is_set"])
p("P13","In-memory B-trees implement an ordered multimap with exact augmentation",
 "For every history of insertions, erasures and lookups, an in-memory search tree contains exactly the inserted and not erased values in order, its find, lower-bound, upper-bound and iteration answers are those of an ordered multiset (or set when keys are unique), and every node's augmentation equals the combination of its children's.",
 ["histories","inputs"],"all insert/erase/lookup histories, keys incl. duplicates, all node fan-outs",
 "Tests run long random scripts with default fan-outs, rarely reaching particular fuse/share/root-collapse combinations.",
 ["btree/btree.h","btree/base.h","btree/node.h","btree/internal_store.h"],
 [("split_and_insert / remove_fixup_round / augment_path","btree/btree.h"),("move/split/fuse/share","btree/internal_store.h")],
 ["insert/erase/find/bounds/iterator/augmentation"])
p("P14","External B-trees implement the ordered multimap and survive reopening",
 "For every history of insertions, erasures and lookups, a file-backed search tree answers exactly as the ordered multiset does, also after it is closed and opened again.",
 ["histories","inputs"],"all histories incl. block cache evictions and reopen points",
 "Tests run a handful of reopen points.",
 ["btree/external_store.h","btree/btree.h","blocks/block_collection_cache.cpp","blocks/block_collection.cpp"],
 [("block layout and move/split/fuse","btree/external_store.h")],["insert/erase/find/iterator after reopen"])
p("P15","Bulk-built static B-trees contain exactly the pushed values",
 "A tree bulk-built from any sorted sequence, in memory or serialized to a file, compressed or not, contains exactly that sequence: iteration, lookups, bounds, size, augmentation and metadata are exact, and a serialized tree answers identically after being opened again.",
 ["inputs","configurations"],"all sorted input sequences and lengths around fan-out powers, storage flavours, compression",
 "Tests build a few sizes.",
 ["btree/btree_builder.h","btree/serialized_store.h","btree/base.h"],
 [("leaf/node construction with reserve","btree/btree_builder.h"),("offset encoding, block compression","btree/serialized_store.h")],
 ["build/iterate/find/metadata"])
p("P16","Block collections never overlap blocks and always return the last write",
 "For every history of block allocations, frees, reads and writes, live blocks never overlap, reading a block returns the bytes last written to it, freed space is reused only after the free, and everything persists over reopening. A cache in front of the collection never changes what is read.",
 ["histories"],"all allocate/free/read/write/reopen histories and cache sizes",
 "Tests use one random script.",
 ["blocks/block_collection.cpp","blocks/block_collection.h","blocks/block_collection_cache.cpp","blocks/freespace_collection.h"],
 [("free-space stack","blocks/freespace_collection.h"),("LRU write-back","blocks/block_collection_cache.cpp")],["get_free_block/free_block/read_block/write_block"])
p("P17","Serialization followed by deserialization is the identity",
 "For every value of a supported type - trivially copyable types, strings, pairs, tuples, vectors, arrays and nestings of these, and types with serialize/unserialize overloads of their own - writing it and reading it back yields an equal value and consumes exactly the bytes produced, whose number equals the predicted size.",
 ["inputs"],"all values and lengths of the supported types",
 "Tests check a few sample values.",
 ["serialization2.h"],
 [("serialize/unserialize overloads","serialization2.h"),("serialized_size","serialization2.h")],["serialize/unserialize"])
p("P18","Serialization streams replay exactly what was written, in both directions",
 "The values read from a serialization file, in forward or in reverse order, are exactly the values serialized into it, for all value lengths and positions relative to internal block boundaries and after reopening; can-read is exact and reading past the end is an error.",
 ["inputs","histories"],"all value sequences and lengths relative to block boundaries, reader/writer directions",
 "Tests use one 2 MB block size and few straddling patterns.",
 ["serialization_stream.h","serialization_stream.cpp","file_accessor/byte_stream_accessor.h"],
 [("block buffering","serialization_stream.cpp")],["serialization_writer/reader, reverse variants"])
p("P19","Parallel sort produces a sorted permutation for every input and schedule",
 "For every input sequence, comparator and interleaving of worker threads, the parallel in-memory sort terminates and leaves a sorted permutation of its input.",
 ["inputs","schedules"],"all inputs incl. ties and adversarial pivots; all thread interleavings",
 "Tests run random inputs on whatever schedule the OS produced.",
 ["parallel_sort.h","job.cpp","job.h"],
 [("partition and pivot choice","parallel_sort.h"),("job counters","parallel_sort.h")],["parallel_sort"])
p("P20","External sorting yields a sorted permutation of its input",
 "For every input sequence and every combination of run length, fan-out and memory or file limits, external merge sorting - as a stream-to-stream sort, a pipelined sort or a directly driven sorter - outputs exactly a sorted permutation of the input, including when it is evacuated to disk between phases.",
 ["inputs","configurations","histories"],"all inputs, run lengths, fan-outs, memory/file limits, evacuation points",
 "Tests sort a few sizes with large defaults.",
 ["pipelining/merge_sorter.h","pipelining/merge_sorter.cpp","pipelining/merger.h","merge_sorted_runs.h","sort.h","sort_manager.h","internal_sort.h"],
 [("run formation/merging/final merge","pipelining/merge_sorter.h"),("run positions","pipelining/merge_sorter.cpp"),("legacy sort manager","sort_manager.h")],
 ["merge_sorter push/pull; tpie::sort"])
p("P21","External sorting of variable-length items is a sorted permutation",
 "For every sequence of variable-length serialized items and every memory/fan-out limit, sorting them yields exactly a sorted permutation of the items; no item is lost, duplicated or altered at buffer or run boundaries.",
 ["inputs","configurations"],"all item sequences, item sizes, run sizes, fan-outs",
 "Tests use a few sizes.",
 ["serialization_sorter.h","pipelining/serialization_sort.h"],
 [("internal sorter capacity accounting","serialization_sorter.h"),("file handler run bookkeeping","serialization_sorter.h")],["serialization_sorter"])
p("P22","Memory accounting is exact and the limit is enforced",
 "The reported memory use always equals the sum of the live allocations made through the library, including array, sized, container-allocator and object allocations, over all histories, constructor failures and concurrent threads; an allocation that would exceed the limit in throwing mode fails with an out-of-memory error and changes nothing.",
 ["histories","schedules"],"all allocate/free histories incl. throwing constructors, enforcement modes, thread interleavings",
 "Tests allocate a few objects in one thread.",
 ["memory.h","memory.cpp","resource_manager.h","resource_manager.cpp"],
 [("register/unregister_increase with CAS","resource_manager.cpp"),("tpie_new/tpie_delete","memory.h")],["get_memory_manager().used()"])
p("P23","Open-file and temporary-space accounting is exact",
 "The number of open files and the amount of temporary space reported always equals what is actually open or stored, for all histories of opening, growing, truncating, closing and moving streams and temporary files, and returns to zero when everything is closed.",
 ["histories"],"all histories of stream, temp-file and container life cycles incl. failing opens",
 "Tests check one or two life cycles.",
 ["file_manager.cpp","file_manager.h","file_accessor/stream_accessor_base.inl","tempname.cpp","stats.cpp","file_accessor/posix.inl","compressed/stream_base.cpp"],
 [("increase_usage/decrease_usage","file_manager.cpp"),("update_recorded_size","tempname.cpp")],["get_file_manager().used(), get_temp_file_usage()"])
p("P24","Jobs run exactly once and joins wait for all descendants, deadlock free",
 "For every forest of jobs and every thread interleaving, each enqueued job runs exactly once, a join on a job returns only after it and all jobs it enqueued have finished, and then returns promptly: no lost wake-up, deadlock or use after destruction occurs.",
 ["schedules"],"all interleavings of enqueuing, worker and joining threads; job trees; worker counts",
 "Tests observe one OS schedule per run.",
 ["job.cpp","job.h"],
 [("m_dependencies counting, done()","job.cpp"),("job queue condition variables","job.cpp")],["job::enqueue/join/is_done"])
p("P25","Pipelines compute the composition of their node functions",
 "For every input, a pipeline built from the provided nodes (sources, sinks, maps, filters, sort, passive sort, reverse, passive reverse, delay buffers, unique, zip/unzip, merge, split and join, buffers, virtual chunks, pushed or pulled, with or without serialization) delivers exactly the sequence obtained by composing the nodes' mathematical meanings.",
 ["programs","inputs"],"all compositions of provided nodes and all inputs within bounds",
 "Tests run fixed pipelines on fixed inputs.",
 ["pipelining/buffer.h","pipelining/reverse.h","pipelining/std_glue.h","pipelining/split.h","pipelining/join.h","pipelining/merge.h","pipelining/uniq.h","pipelining/helpers.h","pipelining/map.h","pipelining/filter.h","pipelining/virtual.h","pipelining/sort.h","pipelining/stdio.h","pipelining/file_stream.h"],
 [("node push/pull implementations","pipelining/helpers.h")],["items delivered to the sink"])
p("P26","Pipeline nodes are run in a valid phase order with balanced begin/end",
 "For every pipeline graph, phases are executed in an order in which every producer phase completes before its consumer phase, and within a phase prepare, propagate, begin, go and end are each called exactly once per node in dependency order; cyclic or unconnected graphs are rejected with an error.",
 ["programs"],"all small node graphs with push, pull and depends edges",
 "Tests contain a few graph shapes.",
 ["pipelining/runtime.cpp","pipelining/tokens.cpp","pipelining/node.cpp"],
 [("topological orders of actor and item-flow graphs","pipelining/runtime.cpp")],["order of virtual calls"])
p("P27","Memory and file assignment respects minimum, maximum and total limits",
 "For every set of node requirements (minimum, maximum, priority fraction, shared data structures over several phases) and every total, each node is assigned at least its minimum and at most its maximum, and in every phase the assignments sum to at most the total whenever the minimums fit.",
 ["inputs","configurations"],"all requirement vectors and totals",
 "Tests check a few fixed vectors; the assignment uses a floating-point binary search.",
 ["pipelining/runtime.cpp","pipelining/node.cpp","pipelining/node.h"],
 [("get_memory_factor/assign_memory","pipelining/runtime.cpp")],["node::get_available_memory etc."])
p("P28","Parallel pipelining preserves the items (and order if requested)",
 "For every interleaving of worker threads and every input, a parallel pipeline section outputs exactly the items its inner pipeline produces - in input order when order is maintained, as a multiset otherwise - terminates, and destroys its workers.",
 ["schedules","inputs"],"all interleavings, worker counts, buffer sizes, item counts",
 "Tests observe one OS schedule per run.",
 ["pipelining/parallel.h","pipelining/parallel/base.h","pipelining/parallel/factory.h","pipelining/parallel/pipes.h","pipelining/parallel/worker_state.h","pipelining/parallel/aligned_array.h","pipelining/parallel/options.h"],
 [("worker state machine and condition variables","pipelining/parallel/base.h")],["output items"])
p("P29","Progress reporting is monotone and consistent",
 "For every split of work into sub-indicators and every sequence of steps, the progress reported never decreases, never exceeds its range, and equals the full range when all the work is done.",
 ["inputs","histories"],"all sub-indicator ranges and step sequences",
 "Tests check one nesting.",
 ["progress_indicator_base.h","progress_indicator_subindicator.cpp","progress_indicator_subindicator.h","fractional_progress.cpp"],
 [("sub-indicator step forwarding","progress_indicator_subindicator.cpp")],["refresh() observations"])
p("P30","Temporary names are unique and temporary files are cleaned up",
 "Generated temporary names never collide with an existing file or another live temporary, and every temporary file is removed from disk exactly when its owner is destroyed, rebound or freed unless it was made persistent; the user's other files are never touched.",
 ["histories"],"all histories of temp-file creation, path changes, persistence changes, stream use and destruction",
 "Tests check single life cycles.",
 ["tempname.cpp","tempname.h"],
 [("gen_temp / temp_file_inner","tempname.cpp")],["files present on disk"])
p("P31","Concurrently used streams are independent under every schedule",
 "Several compressed streams that share the background compressor thread and the stream buffer pool each deliver exactly what was written to them, for every interleaving with the background thread and every buffer-pool size, and closing or truncating one never blocks forever or disturbs another.",
 ["schedules","histories"],"all interleavings of user and compressor threads at synchronisation points",
 "Tests observe one OS schedule per run.",
 ["compressed/thread.cpp","compressed/buffer.cpp","compressed/stream_base.cpp","compressed/request.h"],
 [("request queue and condition variables","compressed/thread.cpp"),("stream buffer pool","compressed/buffer.cpp")],["stream contents, termination"])
p("P32","Declared memory bounds are consistent and honoured",
 "For every data structure that declares a linear memory bound, the number of elements said to fit in a given amount of memory needs no more than that amount by the declared usage formula, and a structure of a given capacity never allocates more than its declared usage.",
 ["inputs"],"all element counts and memory amounts",
 "Tests check a few sizes per container.",
 ["util.h","array.h","internal_queue.h","internal_stack_vector_base.h","internal_priority_queue.h","disjoint_sets.h","bit_array.h","packed_array.h","mergeheap.h"],
 [("linear_memory_base","util.h")],["memory_usage/memory_fits/used()"])
p("P33","Tiny sets and maps behave as ordered sets, multisets and maps",
 "For every history of insertions, erasures and lookups, the tiny set, multiset, map and multimap contain exactly the elements of the ideal container in order, and find, bounds and count answers are exact.",
 ["histories","inputs"],"all histories and keys",
 "Only a few uses exist in tests.",
 ["tiny.h"],[("sorted vector operations","tiny.h")],["insert/erase/find"])
p("P34","Optional and owning wrappers construct and destroy exactly once",
 "For every sequence of construction, assignment, move, reset and swap operations, the optional-value wrapper, the owning pointer and the container allocators construct and destroy each contained object exactly once and hold exactly the value last stored.",
 ["histories"],"all operation sequences",
 "Tests cover single operations.",
 ["maybe.h","memory.h"],[("maybe storage","maybe.h"),("tpie::unique_ptr deleter","memory.h")],["constructor/destructor counts, values"])
p("P35","Streams over one shared file see each other's writes",
 "When several streams are attached to the same file object, every read through one stream returns the item last written at that position through any of them, for every interleaving of reads, writes, seeks and detachments.",
 ["histories"],"all operation interleavings over up to three streams of one file",
 "Tests run one alternation pattern.",
 ["file.h","file_base.h","file_base.cpp","stream_crtp.h"],
 [("shared block list with reference counts","file_base.cpp")],["file::stream read/write"])
p("P36","Failures release every resource",
 "When a node, comparator, item constructor or stream operation throws at any point of a pipeline, sort or container operation, all memory and file handles registered by the operation are released, temporary files are removed, and no object is destroyed twice.",
 ["fault_sequences","histories"],"every point at which an exception can be raised inside a pipeline or container operation",
 "Existing tests throw at one or two fixed points.",
 ["pipelining/pipeline.cpp","pipelining/runtime.cpp","pipelining/merge_sorter.h","array.h","memory.h","compressed/stream_base.cpp"],
 [("RAII of runtime and nodes","pipelining/runtime.cpp")],["used() counters after the failure, files on disk"])
p("P37","Forwarded values reach exactly the nodes downstream",
 "In every graph of nodes, a value forwarded by a node can be fetched by exactly the nodes downstream of it within the given distance - along pushes, against pulls, dependencies and memory-share dependencies, but not along no-forward dependencies nor past a node marked not to forward through - each fetching the value forwarded last with its type intact; a value attached to a pipe is forwarded by every node of that pipe, a value of the pipeline is visible to all nodes that no other value reaches, fetching an absent value or one of another type is an error, and forwarding once a node has begun is refused.",
 ["inputs","histories"],"all node graphs, forwarding nodes, moments, distances and attachments",
 "Tests forward along a few fixed chains; pipes of several nodes (sorters, buffers, parallel) are not tried.",
 ["pipelining/node.cpp","pipelining/node.h","pipelining/tokens.cpp","pipelining/tokens.h","pipelining/runtime.cpp","pipelining/factory_base.cpp","pipelining/factory_helpers.h","pipelining/container.h","pipelining/forwarder.h"],
 [("successors of a node and forwarding","pipelining/tokens.cpp"),("values attached to pipes","pipelining/factory_base.cpp")],["node::can_fetch/fetch"])
p("P38","Log messages reach every target completely, in order and once",
 "For every sequence of log statements of any length and level, additions and removals of targets, enabling and disabling, and nested groups, each target is given exactly the text logged while it was attached and logging was enabled - complete, in order, with its level - and matching group entries and exits; the log file holds exactly what was logged up to its threshold, and a progress indicator leaves the group it entered.",
 ["inputs","histories"],"all sequences of log statements, message lengths, target changes and groups",
 "No existing test looks at log output.",
 ["logstream.cpp","logstream.h","tpie_log.cpp","tpie_log.h","progress_indicator_subindicator.cpp"],
 [("log_stream_buf::flush/overflow","logstream.cpp"),("file_log_target","tpie_log.cpp")],["log_target::log/begin_group/end_group, the log file"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    # check that anchors exist
    for x in P:
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
