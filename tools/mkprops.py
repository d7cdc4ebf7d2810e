#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

R = "raftinc/"
FIFO_FILES = [R+"fifo.hpp", R+"ringbufferheap.tcc", R+"ringbufferheap_abstract.tcc",
              R+"ringbufferheap_lessabstract.tcc", R+"bufferdata.tcc", R+"database.tcc",
              R+"pointer.hpp", "src/pointer.cpp", R+"datamanager.tcc"]

prop("C01", "A stream delivers every element exactly once, in order",
 "For one writing and one reading thread, the sequence of elements obtained from a stream is at every moment a prefix of the sequence of elements published to it: nothing is lost, duplicated, reordered or altered, whatever mix of single, range, reserved and iterator writes and single, range, scoped, peeked and recycled reads is used. "
 "This holds for every capacity, every element type (fundamental, array, small class, large heap-held class) and every interleaving, including while the ring wraps. "
 "When the writer is done, the reader can obtain all that was published.",
 ["schedules", "inputs", "histories"],
 "every interleaving of one producer and one consumer, every operation sequence, capacity and element type",
 "The existing tests push increasing integers through one path per program under whatever schedule the OS gives; the stable ones never run a stream at all.",
 FIFO_FILES,
 [("ring write path", R+"ringbufferheap.tcc local_push/local_allocate/send/send_range"),
  ("ring read path", R+"ringbufferheap.tcc local_pop/local_peek/local_peek_range/local_recycle"),
  ("wrap-aware occupancy", R+"ringbufferheap_abstract.tcc size(); src/pointer.cpp inc/incBy")],
 ["FIFO public API: push/insert/allocate/allocate_s/allocate_range/send/send_range vs pop/pop_s/pop_range/peek/peek_range/recycle/size"],
 [("q", "published and not yet consumed elements", R+"database.tcc store/read_pt/write_pt")])

prop("C02", "A signal travels with the element it was sent with",
 "The signal given when an element is published is exactly the signal reported with that element by every way of reading it (pop, scoped pop, range pop, peek, peek of a range), and no other element ever shows it. "
 "A signal given to an iterator write or to a range reservation belongs to the last element of that group; elements published without a signal report none. "
 "This survives wrap-around and stream resizing.",
 ["schedules", "inputs", "histories"],
 "every operation mix, every system and user signal value, position in the ring, wrap-around and resize point",
 "Tests send at most one end-of-stream marker through the single-element path and never combine signals with range reads, wrap-around or resize.",
 FIFO_FILES + [R+"signal.hpp", "src/signal.cpp", R+"autorelease.tcc", R+"signalvars.hpp"],
 [("parallel signal ring", R+"database.tcc signal; "+R+"bufferdata.tcc copyFrom"),
  ("range view pairs element and signal", R+"autorelease.tcc operator[]")],
 ["signal out-parameter of pop/peek, sig() of scoped reads, pair.second of pop_range, autopair.sig of peek_range"])

prop("C03", "Streams are bounded: writers wait for room, readers wait for data",
 "A stream never holds more unread elements than its capacity and the counts it reports (held, free, capacity) agree, whenever no operation is in progress, with each other and with what was published and consumed. "
 "A write or reservation that does not fit does not take effect until the reader has made enough room, and a read of n elements on an open stream does not return until n are present; both then complete. "
 "Neither side ever overwrites unread data or reads data not yet published.",
 ["schedules", "inputs", "histories"],
 "every capacity (including 1), fill level, request size and interleaving of the two sides",
 "Blocking and full/empty boundary cases depend on timing; the tests use large buffers where neither side normally blocks.",
 FIFO_FILES,
 [("full/empty from wrap counters", R+"ringbufferheap_abstract.tcc size/space_avail"),
  ("spin until room", R+"ringbufferheap.tcc local_push/local_allocate/local_allocate_n"),
  ("spin until data", R+"ringbufferheap.tcc local_pop/local_peek/local_peek_range")],
 ["size/space_avail/capacity; whether a call has returned"])

prop("C04", "Closing a stream loses nothing and releases every waiting reader",
 "After a stream is closed its reader still obtains every element published before, in order, and only then does a read report that the port is closed; a range read larger than what remains on a closed stream reports that there is not enough data, leaving the remainder readable. "
 "A reader that is waiting when the stream is closed is always released, and discarding on an exhausted closed stream returns. "
 "A stream that has not been closed never reports either condition.",
 ["schedules", "histories"],
 "every interleaving of close with reads, writes, waiting readers and a concurrent resize",
 "Needs close to land in a particular window between a reader's emptiness check and its validity check; no test closes a stream concurrently.",
 FIFO_FILES + [R+"portexception.hpp", "src/portexception.cpp"],
 [("re-check emptiness after seeing closed", R+"ringbufferheap.tcc local_pop/local_peek/local_peek_range/local_recycle"),
  ("validity flag carried over by resize", R+"bufferdata.tcc copyFrom"),
  ("invalidate/is_invalid", R+"ringbufferheap_abstract.tcc")],
 ["ClosedPortAccessException / NoMoreDataException; is_invalid(); values read"])

prop("C05", "Looking ahead does not consume; recycling consumes exactly what was asked",
 "Peeking at one element or at a range shows the oldest unread elements in order without consuming them, as often as repeated; the element seen stays valid and unchanged until it is recycled. "
 "Recycling n discards exactly the n oldest elements, and an index outside a peeked range is refused. "
 "Releasing a peek without recycling leaves the stream exactly as it was.",
 ["schedules", "inputs", "histories"],
 "every position in the ring including ranges that straddle the wrap point, every n, concurrent writer",
 "Tests peek at position zero of a non-wrapped ring and never check a range across the wrap point.",
 FIFO_FILES + [R+"autorelease.tcc", R+"autoreleasebase.hpp"],
 [("window over the ring", R+"autorelease.tcc operator[]"),
  ("local_peek/local_peek_range/local_recycle/unpeek", R+"ringbufferheap.tcc")],
 ["peek, peek_range[], unpeek, recycle(n), size, values subsequently read"])

prop("C06", "A reserved slot is published by send and only by send",
 "An element being written in place in a reserved slot (single, scoped or range reservation) is invisible to the reader until it is sent, and sending publishes exactly the reserved slots, once, with the contents written. "
 "A reservation that is given back publishes nothing and the next write reuses the slot; sending with no reservation outstanding does nothing.",
 ["schedules", "inputs", "histories"],
 "every interleaving of reserve/write/send/give-back with a reader, every slot position and range length",
 "Tests reserve and send in one straight line, without observing the stream in between, giving back, or straddling the wrap point.",
 FIFO_FILES + [R+"autorelease.tcc"],
 [("allocate/send/deallocate protocol", R+"ringbufferheap.tcc"),
  ("scoped reservation sends on destruction", R+"autorelease.tcc allocatetype")],
 ["size() between reserve and send; values subsequently read"])

prop("C07", "Elements of class type are constructed and destroyed exactly once",
 "For class-typed streams every element object the library creates is destroyed exactly once when it is popped, recycled, or its reservation is given back, and never used after that. "
 "No read or write path destroys an object that is still in the stream or leaves a consumed one alive.",
 ["histories", "inputs", "schedules"],
 "every sequence of writes, reads, reservations, give-backs, recycles and resizes for in-line and heap-held class types",
 "A leak or double destruction is invisible to tests that only compare values.",
 FIFO_FILES + [R+"alloc_traits.tcc", R+"schedule.hpp", "src/schedule.cpp"],
 [("placement construction / explicit destruction", R+"ringbufferheap.tcc (class specialisations)"),
  ("deferred deletion of heap-held elements", R+"ringbufferheap.tcc local_recycle; src/schedule.cpp fifo_gc")],
 ["constructor/destructor counts of an instrumented element type; heap liveness"])

prop("C08", "Large elements are forwarded without copying and freed exactly once",
 "When a kernel passes an element it has peeked on an input to an output, the receiver gets that very object, unmodified, however many kernels it is forwarded through. "
 "An object that is recycled and was not forwarded is freed exactly once; a forwarded object is not freed by the forwarding kernel and stays valid for its receiver.",
 ["histories", "schedules", "programs"],
 "every per-activation mix of peek, forward, recycle over several inputs and outputs, and every schedule",
 "Depends on the per-activation bookkeeping of addresses on the input and the output side; wrong decisions show as use-after-free only for particular mixes.",
 [R+"ringbufferheap.tcc", "src/schedule.cpp", R+"schedule.hpp", R+"fifo.hpp", R+"fifoabstract.tcc"],
 [("address sets per kernel activation", "src/schedule.cpp setPtrSets/fifo_gc"),
  ("forward detection", R+"ringbufferheap.tcc local_push (heap-held)"),
  ("deferred free on recycle", R+"ringbufferheap.tcc local_recycle (heap-held)")],
 ["object identity and destructor counts seen by kernels of a running graph"])

prop("C09", "Resizing a live stream is invisible to both ends",
 "Growing a stream while it is in use preserves its contents, their signals, their order, and its open or closed state, and leaves the stream with the new capacity. "
 "It never invalidates a slot reserved by the writer or an element held by the reader, and neither side can be blocked for ever or touch released memory because of it. "
 "A stream built on caller-supplied memory is never resized, and a resize is abandoned when the application is shutting down or the stream is closed.",
 ["schedules", "histories", "inputs"],
 "every interleaving of a resizing thread with a writer, a reader and a closing thread, every fill level and wrap state",
 "The tests never resize a stream under load; the dangerous windows are a few instructions wide.",
 [R+"datamanager.tcc", R+"bufferdata.tcc", R+"threadaccess.hpp", R+"ringbuffer.tcc", R+"fifoabstract.tcc", R+"ringbufferheap.tcc", R+"ringbufferheap_abstract.tcc"],
 [("access flags and all-clear handshake", R+"datamanager.tcc resize/enterBuffer/exitBuffer"),
  ("copyFrom", R+"bufferdata.tcc")],
 ["values, signals, capacity() and exceptions seen through the public API; memory errors"])

prop("C10", "Streams get the requested buffer, and grow only when the writer is held up",
 "A link with an explicitly requested buffer size has exactly that capacity for its whole life; any other link starts at the default size and only ever grows, by doubling, after its writer has repeatedly been found blocked or has asked for more than fits. "
 "The blocked indicator is raised when and only when a write found the stream full (or in the middle of being resized) since it was last read, reading it clears it, and it keeps working after a resize. The write statistics count exactly the elements published since they were last read.",
 ["histories", "configurations", "schedules"],
 "every sequence of blocked / unblocked observation periods, every mix of fixed and dynamic links",
 "Growth happens on a background thread after several monitoring intervals; no test looks at capacities or at the indicator.",
 ["src/dynalloc.cpp", "src/allocate.cpp", "src/stdalloc.cpp", R+"port_info.hpp", "src/port_info.cpp", R+"ringbufferheap_abstract.tcc", R+"blocked.hpp", "src/blocked.cpp"],
 [("monitor loop", "src/dynalloc.cpp run"), ("initial size", "src/allocate.cpp allocate"),
  ("blocked statistics", R+"ringbufferheap_abstract.tcc get_frac_write_blocked")],
 ["capacity() over time; get_frac_write_blocked()"])

prop("C11", "A running graph delivers all data to its sinks and always terminates",
 "For any acyclic graph of kernels in which every kernel keeps consuming what it is given, and for one with cycles if a kernel on each says stop once all that goes round has come by, executing it runs every kernel until its work is exhausted, every sink receives, per stream and in order, everything its sources sent as transformed on the way, and execution returns once all kernels have finished. "
 "The outcome does not depend on thread scheduling, buffer sizes, fan-in/fan-out or graph shape, and no thread, stream or kernel activity survives the return.",
 ["programs", "schedules", "inputs", "configurations"],
 "every acyclic graph, data volume (including none), per-kernel rate and thread interleaving",
 "Each test runs one fixed graph a few times under the host scheduler; hangs and lost tails appear only for particular interleavings.",
 [R+"map.hpp", "src/map.cpp", "src/mapbase.cpp", "src/schedule.cpp", "src/simpleschedule.cpp", "src/allocate.cpp", "src/dynalloc.cpp", "src/basicparallel.cpp"],
 [("execution driver", R+"map.hpp exe"), ("per-kernel worker loop", "src/simpleschedule.cpp simple_run/start"),
  ("run-or-finish decision", "src/schedule.cpp kernelRun")],
 ["values received by sink kernels; return of exe(); activity after return"])

prop("C12", "Kernels run when and only when their scheduling rule allows",
 "A kernel with inputs is activated only when its readiness rule holds (data on at least one input, or on every input if it asked for that), a kernel without inputs until it says stop; no kernel is active on two threads at once. "
 "Once a kernel has said stop, or all of its inputs are closed and it is no longer ready, it is never activated again.",
 ["schedules", "programs", "histories"],
 "every interleaving of upstream progress, closing and readiness checks for kernels with any number of ports",
 "Readiness and finish decisions race with upstream kernels; tests never observe activations.",
 ["src/schedule.cpp", "src/simpleschedule.cpp", R+"kernel.hpp", R+"rafttypes.hpp"],
 [("readiness rule", "src/schedule.cpp kernelHasInputData"), ("finish rule", "src/schedule.cpp kernelRun"),
  ("one worker per kernel", "src/simpleschedule.cpp handleSchedule")],
 ["entry/exit of each kernel's run(), sizes of its inputs at entry"])

prop("C13", "Completion propagates downstream, after the data and exactly when done",
 "When a kernel finishes, every one of its output streams is closed, whichever way it finished, and none is closed before that. "
 "Downstream kernels see the closing only after they could obtain all data sent before it, so completion reaches every sink along every path.",
 ["schedules", "programs", "histories"],
 "every finishing reason (stop returned, inputs exhausted), number of outputs and interleaving with downstream readers",
 "The close/last-element window is a race; tests check only final totals of single-output chains.",
 ["src/schedule.cpp", R+"ringbufferheap_abstract.tcc", "src/portiterator.cpp", R+"portiterator.hpp"],
 [("closing outputs", "src/schedule.cpp invalidateOutputPorts/kernelRun")],
 ["is_invalid() of the streams around each activation; what downstream kernels read"])

prop("C14", "Splitting and joining streams conserves data",
 "Work distributed over parallel copies of a kernel and merged again arrives exactly once per element, together with its signal: no element is lost or duplicated whatever the fill levels, capacities and speeds of the branches. "
 "Elements that travel the same branch keep their relative order.",
 ["schedules", "inputs", "configurations"],
 "every fan-out, branch fill level and capacity, range length offered to the splitter, and interleaving",
 "Loss needs a full branch at the moment of a range transfer, which the tests' fast branches never reach.",
 [R+"split.tcc", R+"join.tcc", R+"splitmethod.hpp", R+"roundrobin.hpp", "src/roundrobin.cpp", R+"leastusedfirst.hpp", R+"parallelk.hpp"],
 [("range distribution", R+"splitmethod.hpp send"), ("stream selection", "src/roundrobin.cpp select_fifo"),
  ("merge", R+"join.tcc run")],
 ["elements and signals written to the splitter vs received after the joiner"])

prop("C15", "Graph expressions build exactly the graph they denote",
 "Connecting kernels with the stream operators (chain, named ports, split, join, out-of-order markers, nesting) produces exactly the kernels, clones and typed port-to-port streams the expression denotes: every port mentioned or implied is connected once, to the right peer, on the right kernel instance. "
 "The kernels returned for further linking are the expression's true sources and destinations.",
 ["programs", "inputs"],
 "every expression of the operator language over kernels with any number of ports",
 "The operator grammar is combinatorial (associativity, clones, port order); tests contain about a dozen fixed expressions and check only the data totals.",
 [R+"kpair.hpp", "src/kpair.cpp", R+"map.hpp", "src/map.cpp", R+"mapbase.hpp", "src/mapbase.cpp", R+"kernel.hpp", "src/kernel.cpp", R+"kernel_pair_t.hpp", R+"kset.tcc"],
 [("operator algebra", "src/kpair.cpp"), ("expansion", "src/map.cpp operator+= and inline_* helpers"),
  ("link", "src/mapbase.cpp joinLink / "+R+"mapbase.hpp link")],
 ["port tables of the kernels (PortInfo peers), kernel sets of the map, returned kernel_pair_t"])

prop("C16", "Ill-formed graphs are refused before anything runs",
 "A link between ports of different element type, to a port that does not exist, to a port already in use, with an ambiguous choice of ports, or an execution with an unconnected port, is refused with an exception and no kernel is activated. "
 "A well-formed graph is never refused.",
 ["programs", "inputs"],
 "every graph-building program, well-formed or containing one or several faults at any position",
 "Tests cover one type mismatch and one ambiguity; the acceptance side and the other faults are not exercised in combination.",
 [R+"mapbase.hpp", "src/mapbase.cpp", "src/map.cpp", "src/port.cpp", R+"port.hpp", R+"kernel.hpp", "src/kernel.cpp", R+"mapexception.hpp", R+"portexception.hpp"],
 [("type check and joining", "src/mapbase.cpp joinLink"), ("unconnected port check", "src/map.cpp checkEdges"),
  ("port naming", "src/port.cpp getPortInfoFor")],
 ["exception type thrown by +=/link/exe; activations recorded by kernels"])

prop("C17", "Graph traversal visits every kernel and every stream exactly once",
 "Breadth-first traversal from the sources calls back exactly once for each reachable kernel and exactly once for each stream, with the matching pair of endpoints, in any acyclic or cyclic graph, including parallel streams between the same two kernels. "
 "The exported graph description lists exactly these kernels and streams with their labels, and an unconnected port hides nothing but itself.",
 ["inputs", "programs"],
 "every connected or disconnected multigraph of kernels and ports",
 "Allocation, monitoring and export all rely on it, but tests traverse only small chains and check nothing about visits.",
 ["src/graphtools.cpp", R+"graphtools.hpp", R+"makedot.hpp", "src/makedot.cpp"],
 [("BFS with visited set", "src/graphtools.cpp BFS/__BFS"), ("export", "src/makedot.cpp")],
 ["sequence of callbacks; generated description"])

prop("C18", "Arrays processed in place are partitioned exactly over the workers",
 "When a caller-supplied array is handed to parallel workers, every element is presented to exactly one worker exactly once with its true index, whatever the length and the number of workers, including lengths that do not divide evenly. "
 "The workers operate on the caller's memory itself, so results are visible in the array, and nothing outside it is touched.",
 ["inputs", "configurations", "schedules"],
 "every array length, element type, number of workers and schedule",
 "Tests use one length and one worker count; remainders and short arrays are untested.",
 [R+"foreach.tcc", R+"readeach.tcc", R+"port.hpp", "src/port.cpp", R+"bufferdata.tcc", R+"autorelease.tcc", R+"ringbuffer.tcc"],
 [("partition of the array", R+"foreach.tcc"), ("external buffer stream", R+"bufferdata.tcc (external constructor)"),
  ("in-place output ports", R+"port.hpp inPlaceAlloc")],
 ["array contents after exe; elements and indices seen by the workers"])

prop("C19", "Kernels the library creates are destroyed exactly once, the user's never",
 "Every kernel object created through the factory or cloned by the library is destroyed exactly once, no earlier than the end of its map's life, however wrappers are copied and however often the kernel is mentioned; kernels owned by the caller are never destroyed by the library. "
 "Kernel identities are unique.",
 ["programs", "histories"],
 "every way of building, copying, linking, cloning and not using kernels, with or without execution",
 "Ownership errors show as leaks or double frees that value-checking tests do not see.",
 [R+"kernel.hpp", "src/kernel.cpp", R+"kernel_wrapper.hpp", "src/kernel_wrapper.cpp", "src/mapbase.cpp", R+"mapbase.hpp", "src/map.cpp"],
 [("wrapper ownership transfer", R+"kernel_wrapper.hpp"), ("map destructor", "src/mapbase.cpp ~MapBase"),
  ("internally created set", "src/mapbase.cpp updateKernels / src/map.cpp")],
 ["constructor/destructor counts of instrumented kernels"])

prop("C20", "The ready-made kernels transport a sequence faithfully",
 "Reading a container or iterator range into a stream (including single-pass iterators), writing streams out to a container, printing, generating a given number of values, generating from, processing with and consuming by a lambda, and selecting among several streams each carry exactly the input sequence (or its element-wise image) of each stream in order, once, for any length (including none), element type and number of ports; several streams into one sink are merged without loss. "
 "Printed output is exactly the printed elements one after the other, each followed by the configured delimiter (or by none). "
 "Copies and clones of these kernels do the same with the same ports. "
 "Selecting tells of a stream among those asked for that has data, and how many elements, whenever one has.",
 ["inputs", "schedules", "configurations"],
 "every container content and length (including empty), element type, port count and schedule",
 "Each adaptor is exercised once with a fixed non-empty sequence and total counts.",
 [R+"readeach.tcc", R+"writeeach.tcc", R+"print.tcc", R+"lambdak.tcc", R+"select.tcc", R+"random.tcc", R+"fileio.tcc"],
 [("read_each/write_each", R+"readeach.tcc, "+R+"writeeach.tcc"), ("print", R+"print.tcc"),
  ("lambdak", R+"lambdak.tcc"), ("select", R+"select.tcc")],
 ["container contents / output stream contents after exe; sequence entering a stream"])

prop("C21", "Chunked file reading and searching miss nothing and repeat nothing",
 "Reading a file in chunks with an overlap (smaller than what a chunk holds) yields exactly the chunks that together are the file: the first starts at the start of the file, each other one starts the overlap before the end of the one before, each is as full as it can be, the last one ends at the end of the file and is marked as the end, none is missing and none is read beyond that, whatever the file's length, the chunk size, the overlap and the number of output ports. "
 "Each chunk carries its true offset, length, index and content, also through copies, and those on one port come in order. "
 "Searching the chunks reports, for each chunk that contains an occurrence of the term whole, that occurrence at its true start and end offset in the file and nothing else; so with an overlap of one byte less than the term every occurrence, including those that straddle a chunk boundary and those that overlap each other, is reported exactly once, and with more overlap at least once.",
 ["inputs", "configurations"],
 "every file length, chunk size, overlap, number of streams, and term placement",
 "Boundary cases (file length around multiples of the chunk size, term across a boundary) are not in the tests.",
 [R+"fileio.tcc", R+"filechunk.tcc", R+"chunkiterator.tcc", R+"search.tcc", "src/fileio.cpp"],
 [("chunk iteration and overlap", R+"fileio.tcc"), ("chunk value semantics", R+"filechunk.tcc"),
  ("match offsets", R+"search.tcc")],
 ["chunks received downstream; reported match offsets"])

prop("C22", "Ports are found by name, enumerated completely, and typed",
 "Every declared port can be reached by its name and nothing else can; enumeration yields each declared port exactly once in a fixed order, counts agree, and each port reports its own kernel, direction and element type. "
 "Declaring a name twice or looking up an undeclared one is refused, whatever the number and order of declarations.",
 ["inputs", "programs", "histories"],
 "every set, number and order of port declarations (single and batch, in and out) and every lookup sequence",
 "Tests declare one or two ports; the name table and iterator are never compared with the declaration.",
 [R+"port.hpp", "src/port.cpp", R+"portiterator.hpp", "src/portiterator.cpp", R+"port_info.hpp", "src/port_info.cpp", R+"portmap_t.hpp", "src/portbase.cpp"],
 [("name table", "src/port.cpp"), ("iteration", "src/portiterator.cpp")],
 ["operator[], begin/end, count, hasPorts, getPortType, exceptions"])

prop("C23", "Every kernel is placed, and placement hints are obeyed",
 "Partitioning a graph over the machine's cores gives every kernel exactly one core in the valid range with loads differing by at most one, and the default partition leaves explicit placement untouched. "
 "A placement manipulator applies to exactly the kernels it is bound to, in the order given. "
 "Placement never changes what the graph computes.",
 ["programs", "configurations", "inputs"],
 "every graph shape, number of cores and mix of placement hints",
 "Tests never inspect placement; they run the default partition only.",
 [R+"partition_basic.hpp", "src/partition_basic.cpp", R+"partition_dummy.hpp", R+"interface_partition.hpp", R+"kernelmanip.tcc", R+"raftmanip.hpp", R+"kernel.hpp"],
 [("core assignment walk", "src/partition_basic.cpp"), ("manipulators", R+"kernelmanip.tcc, "+R+"raftmanip.hpp")],
 ["getCoreAssignment of each kernel after partitioning; data at the sinks"])

prop("C24", "A range holds exactly the numbers from one end to the other",
 "raft::range( a, b, delta ) returns the numbers a, a + delta, a + 2 delta ... (a, a - delta, ... when b is the smaller end) that lie between the two ends, both included, in that order and in the common type of the ends. "
 "It writes nowhere else, and comes back for all ends and steps (delta > 0) that the common type can represent, including the smallest and the largest numbers of the type.",
 ["inputs"],
 "every pair of ends, every step and every arithmetic type",
 "No test calls raft::range.",
 [R+"utility.hpp"],
 [("range", R+"utility.hpp")],
 ["the vector returned; memory around it"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
