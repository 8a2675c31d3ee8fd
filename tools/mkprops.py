#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("R01", "Range and index operations obey set algebra",
 "For all ranges of a 1-, 2- or 3-dimensional index space, size, emptiness and intersection, and for non-empty ranges equality, containment and bounding range, give exactly the answer of the corresponding operation on the sets of indexes the ranges denote. Index arithmetic and comparison work componentwise on exactly the dimensions of the space.",
 ["inputs"], "every pair of ranges (including empty and touching ones) inside a small 1d/2d/3d box, negative coordinates and coordinates beyond 32 bit included",
 "The repository's tests never call these functions with empty, touching or partially overlapping ranges in all dimensions; they only see the few shapes of the example programs.",
 ["src/space.c", "include/laik/space.h"],
 [("laik_range_intersect / laik_range_within_range / laik_range_expand", "src/space.c"), ("laik_range_size / isEmpty / isEqual", "src/space.c")],
 ["return values of the public range functions"])

prop("P01", "Disjoint partitioners assign every index to exactly one process",
 "For every index space, process group size and parameters, the block, bisection and grid partitioners assign each index of the space to exactly one process, the master partitioner assigns everything to process 0 and the all partitioner assigns everything to everybody. No assigned range leaves the space, and the coverage and single-assignment predicates of the resulting partitioning say so.",
 ["inputs", "configurations"], "all small spaces in 1-3 dimensions (offset origin included), 1..8 processes, all grid factorisations, all block dimensions",
 "The tests run the partitioners with a handful of sizes and 1 or 4 processes and only look at numerical results of examples; boundary sizes (fewer indexes than processes, sizes not divisible) are never reached.",
 ["src/partitioner.c", "src/partitioning.c"],
 [("runBlockPartitioner / runBisectionPartitioner / runGridPartitioner", "src/partitioner.c")],
 ["laik_my_range/laik_partitioning_get ranges", "laik_partitioning_coversSpace/isAll/isMaster predicates"])

prop("P02", "Block partitioning is contiguous, ordered, and balanced by weight",
 "The block partitioner gives the processes contiguous blocks in process order; without weights the block sizes of two processes differ by at most one index per cycle. With index weights no process gets more than its fair share of the total weight plus the weight of one index, with process weights the shares follow the given proportions up to one index, and with k cycles every process gets at most k blocks handed out round-robin.",
 ["inputs", "configurations"], "all sizes up to a bound, 1..8 processes, all weight vectors over a small weight alphabet, cycles 1..3",
 "The tests use three weight functions on one size each; the quantification over all weight vectors and sizes cannot be sampled.",
 ["src/partitioner.c"],
 [("runBlockPartitioner weight accumulation", "src/partitioner.c")],
 ["ranges of the resulting partitioning"])

prop("P03", "Derived partitioners produce exactly their specified neighbourhood",
 "From any base partitioning, the halo and corner-halo partitioners give each process exactly its own indexes plus those within the requested depth (along axes, respectively in the full surrounding box) that lie inside the space; the copy partitioner projects the assignment onto another space along the chosen dimension; and the reassign partitioner moves only indexes of removed processes, so that survivors keep all of their indexes. The other built-in flags do not change which indexes a process holds.",
 ["inputs", "configurations"], "all small block/grid/bisection bases in 1-3 dimensions, depth 1..3, all subsets of removed processes and small weight vectors",
 "The tests run one stencil with depth one on large meshes where boundary clipping never matters, and one shrink scenario.",
 ["src/partitioner.c"],
 [("runHaloPartitioner / runCornerHaloPartitioner", "src/partitioner.c"), ("runCopyPartitioner / runReassignPartitioner", "src/partitioner.c")],
 ["ranges of the resulting partitioning"])

prop("P04", "Partitioning queries agree with the ranges a partitioner produced",
 "Whatever ranges, tags and order a partitioner hands over, the partitioning reports for every process exactly those ranges (merged if merging was asked for, which never changes which indexes a process holds) in a deterministic order, with ranges of a process with the same non-zero tag in one mapping. Coverage of the space, 'all' (each process exactly the full space as one range), 'single' (exactly one process with the full space as one range) and equality (same borders for each process) are answered exactly as a brute-force look at the given ranges would.",
 ["inputs", "programs"], "all lists of up to 4 ranges over small 1d/2d spaces, 1..3 processes, tags 0..2, all insertion orders, with and without merging",
 "Queries are only exercised on the partitionings of the examples; insertion order, tags, duplicates, overlapping and single-index ranges are quantified over all user partitioners.",
 ["src/partitioning.c", "src/rangelist.c", "src/space.c"],
 [("laik_rangelist_freeze / sort / merge / map offsets", "src/rangelist.c"), ("laik_partitioning_coversSpace / isEqual / location lookup", "src/partitioning.c")],
 ["laik_my_rangecount, laik_my_mapcount, laik_my_range*, laik_partitioning_*"])

prop("P05", "A process-local view of a partitioning equals the restriction of the global one",
 "Running a partitioner with ranges kept only for the own process, only for the processes that intersect the own data, or for all processes gives the same own ranges and the same transition actions for the own process. All processes of a group therefore agree on who owns what without communication.",
 ["inputs", "configurations"], "all pairs of partitionings out of the enumerated families in 1-3 dimensions, each with the full list and with own/intersecting filters, every process as observer",
 "Filtering is a hidden optimisation that the tests only exercise through a few examples whose results would also be right with a wrong but symmetric filter.",
 ["src/partitioning.c", "src/rangelist.c", "src/space.c"],
 [("laik_rangefilter_* and on-demand calculation of intersecting ranges", "src/partitioning.c")],
 ["laik_my_range*, transition send/recv lists, delivered values"])

prop("T01", "Switching preserves every value that is still owned",
 "After switching a container from one partitioning to another with values preserved, every process finds, at every index it owns in the new partitioning, the value last written by the owner in the old partitioning. This holds for every pair of partitionings in which each old index has an owner, for every element type, layout and number of ranges per process, and along every sequence of switches.",
 ["inputs", "histories", "programs"], "all ordered pairs (and all sequences up to a depth) of an enumerated partitioning family in 1-3 dimensions, 1..4 processes",
 "The tests run fixed switch sequences of the examples; only exhaustive pairs/sequences cover transitions between arbitrary distributions with multiple ranges, tags and dimensions.",
 ["src/space.c", "src/data.c", "src/action.c", "src/backend-mpi.c"],
 [("do_calc_transition", "src/space.c"), ("doTransition / copyMaps / mapping reuse", "src/data.c"), ("action execution", "src/backend-mpi.c")],
 ["memory obtained through laik_get_map_* after laik_switchto_partitioning"])

prop("T02", "Reductions combine exactly the contributions of all writers",
 "When a switch reduces, each index that a process owns in the new partitioning holds the given operation (sum, product, min, max, and, or) applied exactly once to the value of each process that owned the index before, whatever the number of contributors and receivers and whatever algorithm the communication backend picks. If nobody contributed, the index holds the neutral element. For multi-dimensional containers this is required where every process contributes the full space and one or all processes receive it.",
 ["inputs", "configurations"], "all input and output process sets up to 5 processes per index pattern, all operations, all provided element types, all backend tuning settings",
 "Tests use only sums of doubles with all/master/block outputs; partial groups, other operations and the splitting of reductions into several rounds are not sampled.",
 ["src/space.c", "src/action.c", "src/backend-mpi.c", "src/type.c"],
 [("calcAddReductions", "src/space.c"), ("laik_aseq_splitReduce / replaceWithAllReduce", "src/action.c")],
 ["memory obtained through laik_get_map_* after a reducing switch"])

prop("T03", "Initialising switches give neutral elements, and only there",
 "A switch that initialises puts the neutral element of the reduction into every index owned in the new partitioning; a following reduction therefore only sees what was written. Initialising switches and switches without data flow send nothing, and never change other containers.",
 ["inputs", "histories"], "all operations and element types, all pairs of partitionings of the enumerated family, sequences of init/write/reduce",
 "Only sum over doubles is initialised in the tests, whose neutral element is all-zero bytes.",
 ["src/space.c", "src/data.c", "src/type.c"],
 [("initMaps and init transitions", "src/data.c")],
 ["memory obtained through laik_get_map_*"])

prop("T04", "Communication of a switch always completes and matches",
 "For every pair of partitionings, the messages sent by one process are exactly those the others wait for, in the same order and with the same number of elements, so that a collective switch finishes on all processes. This holds even if the transport does not buffer any message and under every order in which processes run.",
 ["schedules", "inputs", "configurations"], "all pairs of the enumerated partitioning families and reduction patterns, under unbuffered and buffered sends, all process schedules up to a preemption bound",
 "On a real MPI small messages are always buffered and the schedule is whatever the machine does, so ordering mistakes that deadlock or mismatch never show up.",
 ["src/action.c", "src/space.c", "src/backend-mpi.c"],
 [("laik_aseq_sort_2phases / sort_rounds", "src/action.c"), ("laik_mpi_asyncSendRecv", "src/backend-mpi.c")],
 ["MPI calls issued by each process", "termination of all processes"])

prop("T05", "Pre-calculated transitions, actions and reservations change nothing but speed",
 "Executing a pre-calculated transition, a pre-calculated and prepared action sequence, or switching with reserved memory leaves exactly the same values in the new partitioning as a direct switch between the same partitionings, no matter how often and in which order they are executed.",
 ["histories", "inputs"], "all pairs of the enumerated partitioning family, all interleavings of direct, transition, action-sequence and reserved switches up to a depth",
 "Tests use each acceleration in one example with one partitioning pair and a fixed iteration order.",
 ["src/data.c", "src/action.c", "src/space.c"],
 [("laik_exec_transition / laik_exec_actions / laik_reservation_*", "src/data.c")],
 ["memory obtained through laik_get_map_* after each execution"])

prop("T06", "Backend choice and tuning never change results",
 "The same collective program computes the same container contents on every communication backend and with every setting of the tuning switches (native or own reductions, asynchronous or synchronous messages, binary or text transfer, buffer sizes).",
 ["configurations", "programs"], "the enumerated switch programs, on every backend, under all combinations of the documented environment settings",
 "Tests run with the default settings only, and compare printed sums.",
 ["src/backend-mpi.c", "src/backend-tcp2.c", "src/backends/tcp/backend-tcp.c", "src/backend-single.c", "src/action.c"],
 [("backend exec and prepare functions", "src/backend-*.c")],
 ["memory obtained through laik_get_map_* on every backend"])

prop("T07", "A switch transfers exactly the missing elements",
 "When values are preserved and every index had one owner before, a process receives from others exactly those indexes that it owns in the new partitioning and did not own before, each once; everything else is taken from local memory, and switching to the same or an equal partitioning sends nothing. The reported message, element and byte counts equal what was handed to the transport.",
 ["inputs", "configurations"], "all pairs of the enumerated partitioning families in 1-3 dimensions, 1..4 processes",
 "Superfluous or duplicated transfers leave the printed results right, so tests cannot see them; the counters are only printed.",
 ["src/space.c", "src/action.c", "src/data.c"],
 [("do_calc_transition local/send/recv ranges", "src/space.c"), ("laik_aseq_calc_stats", "src/action.c")],
 ["messages seen by the transport", "laik_switchstat counters"])

prop("M01", "Layouts map indexes to memory one-to-one and pack/unpack round-trip",
 "For every layout and set of ranges, the memory positions of all indexes covered are pairwise distinct and inside the memory reserved. Packing any sub-range into buffers of any size and unpacking them in the same order elsewhere, or copying directly between two layouts, transfers each element exactly once to the place of its own index and nothing else.",
 ["inputs"], "all range sets and sub-ranges inside small 1d/2d/3d boxes, all buffer sizes from one element up, all pairs of layouts and element sizes",
 "Message buffers in tests are megabytes large, so packing is never split, and containers have one range per process.",
 ["src/layout.c", "src/layout_lex.c"],
 [("offset/pack/unpack/copy of lexicographical layout", "src/layout_lex.c"), ("generic layout functions", "src/layout.c")],
 ["layout functions and container memory"])

prop("M02", "Local access addresses exactly the owned indexes",
 "The mappings of a container on a process cover exactly the indexes it owns, sizes and strides handed out address each of them inside allocated memory, and conversions between local and global indexes are inverse to each other and report non-owned indexes as such. Memory provided by the application is used in place.",
 ["inputs", "histories"], "all partitionings of the enumerated family in 1-3 dimensions with up to 3 mappings per process, every index of the space",
 "Examples only access a single mapping from its start; conversions for every index and process are not tested.",
 ["src/data.c", "src/layout_lex.c", "src/partitioning.c"],
 [("prepareMaps / laik_get_map_1d/2d/3d / laik_local2global / laik_global2local", "src/data.c")],
 ["laik_get_map_*, laik_local2global_*, laik_global2local_1d, laik_maplocal2global_*"])

prop("M03", "Container memory is allocated, reused and freed consistently",
 "Along every sequence of switches, reservations and frees, each block obtained from the (custom or default) allocator is released exactly once and with no access outside or after it, live containers never share memory, and the reported current, maximum and freed amounts equal the real ones. After freeing a container and its reservations no memory of it remains allocated.",
 ["histories", "configurations"], "all sequences up to a depth of switch / reserve / free-reservation / free-container over a small set of partitionings, with counting custom allocators",
 "Allocation balance and overlap are invisible to the tests, which only compare printed output; histories are fixed.",
 ["src/data.c"],
 [("laik_mem_singleton / allocMap / freeMaps / reservation handling", "src/data.c")],
 ["allocator callbacks", "laik_switchstat memory counters"])

prop("K01", "A key-value store behaves like a map on its own process",
 "Any sequence of set, overwrite, remove, lookup, count, iteration and sort operations on a key-value store returns what the same sequence on a plain string-keyed map returns, for values of any content and length including empty ones and ones sharing a prefix.",
 ["histories", "inputs"], "all operation sequences up to a depth over 3 keys and a value alphabet with prefixes, embedded zero bytes and different lengths",
 "The kvstest example runs one fixed sequence without overwrites or removals.",
 ["src/kvs.c"], [("laik_kvs_set / get / remove / sort", "src/kvs.c")], ["return values of the laik_kvs_* functions"])

prop("K02", "Synchronising a key-value store makes all processes agree",
 "After a collective synchronisation all processes hold the same entries: every change made since the last synchronisation by any process is visible everywhere, unchanged entries survive, and on each process change callbacks have reported exactly the keys which were new, updated or removed by others. This holds for any number of processes and changes, including none, as long as no two processes changed the same key differently.",
 ["histories", "schedules", "inputs"], "per-process operation lists with two or three synchronisations, 1..5 processes",
 "kvstest writes distinct keys once; updates, removals, rewritten keys and empty synchronisations are not covered.",
 ["src/kvs.c", "src/backend-mpi.c", "src/backend-tcp2.c"],
 [("laik_kvs_sync, change journal merge/apply", "src/kvs.c"), ("laik_mpi_sync", "src/backend-mpi.c")],
 ["laik_kvs_get on all processes", "callbacks registered with laik_kvs_reg_callbacks"])

prop("K03", "Index spaces announced in the space store are the same everywhere",
 "After synchronising spaces, every process finds under each announced name an index space with the dimensionality and extent last given to it by any process, through the same object it already had, and nothing under other names; local spaces which were not announced do not matter. Before synchronisation a process sees its own changes only. An index space received from another process works like a local one: its size, partitionings and data transitions are right.",
 ["histories", "inputs"], "all assignments of announce/change/lookup operations to 1..4 processes over up to three synchronisations, 1-3 dimensional spaces with small, negative, empty and extreme extents, all three backends",
 "spacestest announces three spaces with fixed positive extents and only prints them; no announced space is ever partitioned or used for data by a process which received it.",
 ["src/space.c", "src/kvs.c"],
 [("laik_spacestore_set / laik_spacestore_get / laik_sync_spaces", "src/space.c"), ("laik_space_serialize / laik_space_set / update_space", "src/space.c"), ("laik_change_space_1d/2d/3d", "src/space.c")],
 ["laik_spacestore_get, laik_space_asrange, laik_space_size", "partitionings and data of received spaces"])

prop("G01", "Derived process groups have consistent numbering and data follows",
 "Shrinking a group by any set of processes, or uniting two related groups, gives on all processes the same group: ranks are dense, ordered and refer to the same locations, the conversions to and from the parent are inverse to each other, and removed processes are no members. Data switched or migrated to the new group keeps the values still owned.",
 ["inputs", "histories"], "all subsets of removed processes for up to 5 processes, chains of two shrinks, followed by switches and reductions in the new group",
 "Tests shrink once by a fixed set.",
 ["src/core.c", "src/space.c", "src/partitioning.c", "src/data.c", "src/backend-mpi.c"],
 [("laik_new_shrinked_group / laik_new_union_group", "src/core.c"), ("laik_partitioning_migrate", "src/partitioning.c"), ("laik_mpi_updateGroup", "src/backend-mpi.c")],
 ["laik_size/laik_myid/laik_group_locationid", "container contents after migration"])

prop("D01", "Provided element types implement their reduction algebra",
 "For each provided element type and each reduction it supports, combining two buffers yields the elementwise result of the operation in that type, the initialisation value is neutral for it, a missing input acts as neutral, and the result may be stored over either input. Every backend uses the same operation.",
 ["inputs"], "all provided types x operations x all pairs of a boundary-value alphabet (all 65536 pairs for 8-bit types) x aliasing patterns x missing inputs",
 "Tests only sum doubles.",
 ["src/type.c", "src/backend-mpi.c"], [("laik_*_init / laik_*_reduce", "src/type.c"), ("getMPIOp", "src/backend-mpi.c")],
 ["type reduce/init functions", "reducing switches"])

prop("E01", "Dynamic TCP startup gives every process the same world",
 "However process start, connection and message arrival interleave, and however the byte stream is split, all processes started together with the dynamic TCP backend leave initialisation with a world of the requested size, pairwise distinct ids and the same view of who is who. None of them is left waiting, and further processes wait without disturbing anybody.",
 ["schedules", "configurations"], "2-3 processes, all schedules up to a deviation bound, all fragmentations of the byte streams up to a bound",
 "A real network on one machine delivers nearly always in the same order and in whole lines.",
 ["src/backend-tcp2.c"], [("startup_master / startup_non_master and command handlers", "src/backend-tcp2.c")],
 ["laik_size/laik_myid/location ids on every process"])

prop("E02", "Dynamic TCP data exchange is intact under every delivery order",
 "Data switched or reduced over the dynamic TCP backend arrives completely and unchanged at every receiver in binary and in text mode, however messages of different peers interleave and however reads are fragmented. No execution deadlocks.",
 ["schedules", "configurations", "inputs"], "2-3 processes, enumerated partitioning pairs and reductions, all schedules up to a deviation bound and all fragmentations of reads up to a bound",
 "On a loopback network reads return whole buffers; split elements, early permissions and late connections are not sampled.",
 ["src/backend-tcp2.c"], [("send_range / recv_range / got_binary_data / process_rbuf", "src/backend-tcp2.c")],
 ["container contents on all processes"])

prop("E03", "World resizing keeps processes and data consistent",
 "When processes join or are removed from a running dynamic TCP program, all old, new and leaving processes agree on the new world, epoch, phase, numbering and parent relation, also over several resizes, and data migrated to the new world keeps all values. Requests arriving at any moment are either processed in the next resize or stay queued.",
 ["schedules", "histories", "fault_sequences"], "1-3 initial processes, up to 2 joining and all subsets of removable processes, up to 3 successive resizes, request arrival at every step up to a deviation bound",
 "Tests run a few resize scenarios with fixed timing.",
 ["src/backend-tcp2.c", "src/core.c"], [("tcp2_resize / tcp2_finish_resize / tcp2_make_progress", "src/backend-tcp2.c"), ("laik_allow_world_resize", "src/core.c")],
 ["laik_world, laik_epoch, laik_phase, group parent queries, container contents"])

prop("E04", "Dynamic TCP key-value synchronisation converges",
 "Key-value store and location synchronisation over the dynamic TCP backend leave all processes of the world with the same entries under every schedule and fragmentation, also when several stores are synchronised in a row and after the world was resized.",
 ["schedules", "histories"], "2-3 processes, per-process change lists up to a depth, two stores, schedules and fragmentations up to a deviation bound",
 "kvstest and locationtest run one schedule.",
 ["src/backend-tcp2.c", "src/kvs.c", "src/core.c"], [("tcp2_sync and kvs command handlers", "src/backend-tcp2.c")],
 ["laik_kvs_get, laik_group_location"])

prop("E05", "External connections cannot disturb a running dynamic TCP program",
 "Any tool connecting to a process of the dynamic TCP backend and sending help, status, comment, unknown, removal or quit commands, in any fragmentation and closing at any time, gets served or ignored while the parallel program runs to its correct end.",
 ["schedules", "fault_sequences", "inputs"], "one external connection issuing every command sequence up to a depth, with every fragmentation and close point up to a bound, against a 2-process program",
 "No test connects an external tool apart from a removal request with fixed timing.",
 ["src/backend-tcp2.c"], [("got_cmd and handlers, got_bytes close path", "src/backend-tcp2.c")],
 ["termination and results of the program under external input"])

prop("L01", "Legacy TCP messaging delivers each message exactly once and intact",
 "Messages of the legacy TCP backend's built-in message layer reach exactly the addressed receiver, once, in order per sender/receiver/tag/communicator, with unchanged content and length, however worker threads interleave, connections get cut into pieces, dropped when idle and set up again, and whatever the mailbox limits; communicators derived from the same or different parents never mix up messages. Collectives (reduce, broadcast, barrier, duplicate, split, create) give the result MPI specifies to all members: nobody leaves a barrier before all entered it, and members agree on size and order of a communicator. Every sequence of properly matched operations completes without error and leaves no open connection.",
 ["schedules", "configurations"], "2-3 processes, scripts of up to 2 (3) operations under 8 configurations (mailbox limits 0 to unlimited, 1-2 threads, connection limits 0 to 64, wait first or not), every schedule of client, server and main threads with up to 1 deviation from round robin; all pairs of derived communicators; message sizes 0..70000 with reads and writes cut at any place",
 "The test programs run with one configuration and the thread schedule of the machine.",
 ["src/backends/tcp/minimpi.c", "src/backends/tcp/messenger.c", "src/backends/tcp/map.c", "src/backends/tcp/server.c", "src/backends/tcp/client.c", "src/backends/tcp/socket.c", "src/backends/tcp/socketqueue.c"],
 [("laik_tcp_messenger_* ADD/TRY/GET protocol", "src/backends/tcp/messenger.c"), ("laik_tcp_minimpi_* serial numbering and collectives", "src/backends/tcp/minimpi.c"), ("worker threads, connection reuse", "src/backends/tcp/server.c")],
 ["received buffers and return codes of the message layer"])

prop("L02", "The legacy TCP backend exchanges, reduces and synchronises like any other backend",
 "Over the legacy TCP backend, every sequence of switches, reductions, group derivations (shrinking, unions) and key-value store synchronisations gives every process the values the definition of the operation demands, for all element types and reduction operations, whether with its collective or own reduction. This holds for every configuration of mailboxes, threads and connections and every schedule of the threads, and no sequence blocks or ends the process.",
 ["programs", "schedules", "configurations"], "the programs enumerated for the transition, reduction, group, type and key-value properties (reduced sets), 1-4 processes, several configurations; all schedules with 1 deviation for exchanges with 2-3 processes",
 "The tests run a few examples with 1 and 4 processes, no group unions, only sums and one configuration.",
 ["src/backends/tcp/backend-tcp.c", "src/backends/tcp/minimpi.c", "src/action.c"],
 [("laik_tcp_exec / laik_tcp_prepare", "src/backends/tcp/backend-tcp.c"), ("laik_tcp_sync / laik_tcp_updateGroup", "src/backends/tcp/backend-tcp.c")],
 ["container contents, group membership and store contents after each operation"])

prop("X01", "Program control, external agents and profiling keep exactly what was set",
 "Iteration and phase read back as last set; every loaded fault-tolerance agent is told each iteration exactly once, in order of loading, and the failures of all agents are reported, complete up to the space given. Loading and cleaning up any sequence of agents leaves none behind and releases each agent library exactly once. Measured times are zero without profiling and after a reset, grow with each switch of data only (in the backend never more than in total), written records show them with the current phase and iteration, and profiling in any state never ends the process, changes data or leaves a file open.",
 ["histories"], "all sequences up to 5 (6) of iteration/phase/load/cleanup/failure operations; up to 10 agents loaded from any mix of files and functions; all sequences up to 5 (6) of 13 profiling operations and data switches with usable and unusable files",
 "No test loads an agent, reads back control state or looks at a profile.",
 ["src/program.c", "src/external.c", "src/profiling.c", "src/data.c"], [("laik_set_iteration / laik_set_phase", "src/program.c"), ("laik_ext_load_agent_* / laik_ext_cleanup / laik_get_failed", "src/external.c"), ("time spans and output file", "src/profiling.c")],
 ["getters, agent callbacks, libraries opened and closed, profiling file"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
