#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (edit here, then run)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

Q = "include/cler_spsc-queue.hpp"
H = "include/cler.hpp"
prop("C01", "A channel is an exactly-once FIFO between its two threads",
 "With one producing and one consuming thread, the sequence of elements taken out of a channel is exactly the sequence put in: nothing lost, duplicated, reordered, torn or invented, whichever mix of single-element, bulk, peek/commit and contiguous-view operations either side uses and however often the indices wrap. A bulk or try operation transfers exactly the count it reports. Nothing is ever taken out of an empty channel, whatever operations preceded.",
 ["schedules", "inputs", "histories"], "every interleaving of one producer and one consumer, every mix of the transfer operations, every element size and capacity (heap, stack, doubly mapped)",
 "The unit tests drive a queue from one thread, or two threads with one operation pair, at a few sizes; wrap positions, stale cached indices after mixed operations and weak orderings are only reached by particular histories and schedules.",
 [Q, H],
 [("write/read index pair with cached peer index", Q+": push/try_push/pop/try_pop/writeN/readN/peek_*/commit_*"), ("typed channel facade", H+": ChannelBase, Channel")],
 ["values returned by pop/try_pop/readN/peek_read/read_dbf compared with the values pushed"],
 [("writeIndex_/readIndex_", "published positions", Q), ("readIndexCache_/writeIndexCache_", "last seen peer position", Q)])
prop("C02", "Channel handoff is free of data races in both directions",
 "An element handed over through a channel, including anything it points to, is fully visible to the consumer when it is received, and a slot is never overwritten by the producer while the consumer may still be reading it. No execution of one producer thread and one consumer thread using any pair of transfer operations contains a data race.",
 ["schedules", "programs"], "all interleavings and memory-model behaviours of every producer-operation x consumer-operation pair",
 "The tests run without a race detector on a strongly ordered CPU, where a missing release or acquire is invisible.",
 [Q], [("release store of own index / acquire load of the peer index", Q)],
 ["ThreadSanitizer happens-before reports"])
prop("C03", "Occupancy, capacity and results of channel operations are truthful",
 "At every moment the reported number of elements plus the reported free space equals the capacity, and the capacity is at least what was requested at construction (exactly that for stack channels). Non-blocking operations succeed exactly when there is an element or room for one; bulk and peek operations report exactly min(requested, available) and their one or two regions together cover exactly the available elements or space. As seen by the owning thread during concurrent use, elements available never decrease for the consumer and free space never decreases for the producer, except through its own operations.",
 ["inputs", "histories", "schedules"], "every operation sequence, element size and capacity (1 upward), and every concurrent schedule for the monotonicity part",
 "Tests check a handful of fixed fill levels; the off-by-one and wrap arithmetic depends on the index positions at each step of arbitrary histories.",
 [Q, H], [("index arithmetic modulo capacity+1", Q+": size/space/capacity/empty/peek_*/writeN/readN")])
prop("C04", "Contiguous zero-copy views cover the whole stream for every buffer size",
 "On a doubly mapped channel the read view is one contiguous region holding exactly the unread elements in order and the write view is one contiguous region of exactly the free space, at every index position including across the wrap. What is written through any view or copy operation is what is read through any other. This holds for every trivially copyable element size, including sizes that do not divide the page size, and every capacity, including several megabytes.",
 ["inputs", "histories", "configurations"], "all element sizes, capacities and index positions for which the channel reports double mapping",
 "The tests use 4- and 8-byte elements and small page multiples; sizes that do not divide a page or reach the huge-page threshold are never constructed.",
 [Q, "include/virtual_memory/cler_vmem_posix.hpp"],
 [("capacity rounding and adjacent mappings", Q+": AdaptiveHeapBuffer ctor"), ("mapping the same pages twice", "include/virtual_memory/cler_vmem_posix.hpp: create")])
prop("C05", "Channels manage the lifetime of non-trivial elements correctly",
 "For element types that own resources, every object a channel constructs is destroyed exactly once, values are transferred without being shared, leaked, freed twice or used after destruction, and a popped element no longer keeps its resource alive inside the channel. Destroying a channel that still holds elements releases them.",
 ["inputs", "histories"], "every sequence of single-element operations on heap, stack and doubly mapped channels of copyable and move-only element types, ending at any fill level",
 "The tests use trivial element types almost exclusively and do not count constructions or destructions.",
 [Q], [("element construction/destruction loops", Q+": AdaptiveHeapBuffer ctor/dtor"), ("move out of the slot", Q+": read_value")])
prop("C06", "Doubly mapped memory is acquired, shared and released without leaks",
 "Creating and destroying channels leaves the process with the same open descriptors and memory mappings and the system with the same shared memory objects, only its own mappings are ever removed, and no descriptor is inherited by programs the process starts. If any system call needed for double mapping fails, at detection or at construction, the channel is still fully usable through ordinary memory and nothing leaks. Channels created concurrently from several threads get the same kind of memory as channels created one after another.",
 ["fault_sequences", "schedules", "histories"], "every single or repeated failure of the underlying system calls, every create/destroy history, concurrent construction",
 "The tests never make a system call fail, never look at descriptors or maps, and construct channels from one thread.",
 [Q, "include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp"],
 [("error paths of create()", "include/virtual_memory/cler_vmem_posix.hpp"), ("support probe", "include/cler_platform.hpp: supports_doubly_mapped_buffers"), ("fallback to heap", Q+": AdaptiveHeapBuffer ctor")],
 ["/proc/self/fd and /proc/self/maps before/after, interposed syscalls"])
prop("C07", "A flowgraph delivers every stream intact under every scheduler setting",
 "In any flowgraph of blocks connected by channels, each sink receives exactly the stream defined by its sources and the blocks on the path, in order and without loss or duplication. The result is the same for every scheduler, worker count, micro-batch size, adaptive-sleep setting and channel size. Every accepted worker count, including counts above the built-in maximum, runs every block.",
 ["schedules", "configurations", "programs"], "all topologies (chains, fan-out, fan-in, diamonds), all configurations, all schedules",
 "No unit test runs a flowgraph at all; they call procedure() directly.",
 [H, "include/task_policies/cler_desktop_tpolicy.hpp"],
 [("thread-per-block and fixed-pool execution", H+": run, run_block_at_index_thread_per_block, run_fixed_thread_pool_worker"), ("block-to-worker partition", H+": FixedThreadPoolScheduler::initialize")])
prop("C08", "A block's procedure never runs concurrently with itself or outside a run",
 "At any time at most one thread executes a given block's procedure, and effects of one call are visible to the next, so block state needs no locking. Procedures run only between the call to run and the return of stop; after stop returns, no procedure is executing or will start until the next run. Each block's calls receive that block's own channels.",
 ["schedules", "configurations", "histories"], "every configuration, graph size, run/stop history and schedule",
 "No unit test runs a flowgraph; overlap and late calls only appear in particular schedules.",
 [H], [("one owner task per block", H+": launch_tasks_impl, FixedThreadPoolScheduler"), ("join before returning", H+": stop")])
prop("C09", "While a flowgraph runs, every block keeps getting called",
 "From run until stop, every block's procedure is called again and again, for every scheduler, worker count, graph size and configuration: no block is left out, and no block can be starved by neighbours that always have work or always lack it. A block that stops making progress is only delayed up to the configured maximum sleep.",
 ["schedules", "configurations"], "all graph sizes from 1 block, worker counts, batch sizes and patterns of work / no work",
 "No unit test runs a flowgraph.",
 [H], [("round-robin over the worker's blocks", H+": get_next_block"), ("micro-batch limit", H+": max_calls_per_tick loop"), ("sleep cap", H+": handle_adaptive_sleep")])
prop("C10", "Starting, stopping and destroying a flowgraph is safe at any time",
 "Stop returns after all tasks have ended, at any moment of the run, when called twice, before any run, or after a block ended the graph; destruction of a running flowgraph is equivalent to stop. A flowgraph can be run again after stop, continuing with the data left in its channels and with the newly given configuration. A timed run stops the graph after the requested duration, also when the wall clock is set meanwhile, and the stopped state is reported correctly throughout.",
 ["histories", "schedules", "configurations"], "all sequences of run, timed run, stop, status query and destruction from a controlling thread, at any timing",
 "No unit test runs or stops a flowgraph.",
 [H], [("stop flag and task join", H+": stop, ~FlowGraph"), ("timed run", H+": run_for")])
prop("C11", "Fatal errors stop the flowgraph and notify; other errors never do",
 "When a block's procedure returns a fatal error, the whole flowgraph stops promptly, no further call is made to that block, and the registered callback is invoked with the registered context before the stop is complete. A non-fatal error of any kind never stops the graph, never invokes the callback and never prevents the block from being called again.",
 ["histories", "schedules", "configurations", "inputs"], "every error code, failing block, call number and configuration",
 "No unit test runs a flowgraph, let alone a failing one.",
 [H], [("fatal classification", H+": is_fatal"), ("stop flag + callback", H+": run_block_at_index_thread_per_block, execute_block_at_index_helper")])
prop("C12", "Execution statistics describe what actually happened",
 "With detailed statistics enabled, after any run has ended, for every block the reported numbers of successful and failed procedure calls equal the calls of that run that returned success or an error, under every scheduler and also when the run ended through a fatal error. Runtime is positive and no longer than the run, whatever happens to the wall clock; dead time lies between zero and the runtime, covers the calls of a block that was always starved and none of the calls of a block that never was, the final adaptive sleep is the one last reached, derived percentages lie in [0,100], and names are the blocks' names. Statistics of one run are not contaminated by an earlier run.",
 ["histories", "schedules", "configurations"], "all configurations, outcome patterns and run/stop histories",
 "No unit test runs a flowgraph or reads its statistics.",
 [H], [("statistics collection", H+": BlockExecutionStats, run_block_at_index_thread_per_block, run_fixed_thread_pool_worker")])
prop("C13", "Micro-batching and adaptive sleep follow the configured policy",
 "A block is called at most the configured number of times per scheduling turn and leaves the turn on its first error. With adaptive sleep on, a block sleeps only after more than the configured number of consecutive starved calls, its sleep grows by the configured multiplier within the documented jitter up to but never beyond the configured maximum, and shrinks after work; with adaptive sleep off it never sleeps longer than the fixed brief back-off.",
 ["histories", "configurations"], "every sequence of outcomes and every configuration value",
 "No unit test reaches this code; the behaviour depends on long outcome histories.",
 [H], [("batch loop", H+": max_calls_per_tick"), ("sleep controller", H+": handle_adaptive_sleep")],
 ["the task policy interface (a recording policy supplied by the monitor)"])
prop("C14", "RTOS task policies run, join and release every task correctly",
 "With the FreeRTOS, ThreadX and Zephyr task policies, every created task executes its function exactly once with its own captured state, joining returns only after the function has finished, a wait lasts at least one tick and the time asked for to within a tick, and no kernel object or task memory is used after being moved, freed or overwritten, also when an RTOS resource allocation fails. A flowgraph run on these policies delivers its stream intact and stops cleanly.",
 ["schedules", "fault_sequences", "programs"], "every timing of task completion versus join and destruction, and every allocation failure",
 "The RTOS policies have no tests; the examples only compile them.",
 ["include/task_policies/cler_freertos_tpolicy.hpp", "include/task_policies/cler_threadx_tpolicy.hpp", "include/task_policies/cler_zephyr_tpolicy.hpp"],
 [("task wrapper, completion semaphore, storage ownership", "include/task_policies/*: create_task/join_task")],
 ["an RTOS API stand-in on pthreads that checks object identity and lifetime"])
B = "desktop_blocks/"
prop("C15", "Arithmetic and plumbing blocks are exact for every chunking",
 "For every input stream, channel size and way the scheduler slices the work, the add, gain, frequency-shift, complex-demux, fan-out, throughput and null-sink blocks produce exactly the stream their definition gives (element-wise sum, product, continuous-phase rotation, magnitude/phase or real/imaginary split, identical copies, pass-through with an exact count and a report of count, elapsed time and rate, complete consumption). No sample is lost, repeated or reordered, and samples stay in the input until they have been delivered. All outputs of a multi-output block stay aligned.",
 ["inputs", "schedules", "configurations"], "all streams, channel sizes, numbers of ports and slicings of the work",
 "The tests feed one chunk that fits and call procedure() once; partial space, wrapped buffers and unequal ports are not explored.",
 [B+"math/add.hpp", B+"math/gain.hpp", B+"math/frequency_shift.hpp", B+"math/complex_demux.hpp", B+"utils/fanout.hpp", B+"utils/throughput.hpp", B+"sinks/sink_null.hpp"],
 [("take min(available, space), commit the same count", B+"math/*, utils/*: procedure")])
prop("C16", "Filtering, resampling, channelizing and FM demodulation ignore chunking",
 "For every input stream and every slicing of the work, the low-pass filter, multistage resampler, polyphase channelizer and FM demodulator emit exactly the sequence obtained by passing the whole input through the same DSP operation at once; the amount emitted matches the amount consumed. No sample is dropped at slice boundaries and none is written beyond the space available.",
 ["inputs", "schedules", "configurations"], "all streams, filter/rate parameters, channel sizes and slicings",
 "Tests process one chunk with one configuration and look at rough output counts.",
 [B+"filters/kaiser_lpf.hpp", B+"resamplers/multistage_resampler.hpp", B+"channelizers/polyphase_channelizer.hpp", B+"fm/fm_demod.hpp"],
 [("bounded transfer through the liquid-dsp object", B+"*/: procedure")])
prop("C17", "Tone and chirp sources generate one continuous signal",
 "The concatenation of everything a tone or chirp source emits is the analytically defined signal (amplitude, frequency or sweep law, phase continuous across every call), for every sample type, rate and slicing of the output space. Whenever space is offered the source emits something, and it never writes beyond that space.",
 ["inputs", "schedules", "configurations"], "all parameters, output sizes and slicings, long streams",
 "There are no tests of the generators.",
 [B+"sources/source_cw.hpp", B+"sources/source_chirp.hpp"], [("phasor accumulator carried across calls", B+"sources/*: procedure")])
prop("C18", "File sink and file source round-trip the sample stream byte for byte",
 "After a file sink is destroyed, the file holds exactly the bytes of the samples it consumed, in order; samples it has not written stay in its input. A file source emits exactly the samples of the file in order, then either repeats from the start for ever or reports the end once, after it has emitted everything; a failure to open, or a failure seen while reading or writing in a call, is reported as an error rather than passed over or taken for the end of the file.",
 ["inputs", "fault_sequences", "schedules"], "all stream lengths, slicings, repeat settings, and I/O failures",
 "The sink has tests for two short streams and the source has none; short writes, full disks, read errors and wrap positions are not exercised.",
 [B+"sinks/sink_file.hpp", B+"sources/source_file.hpp"], [("fwrite/fread of contiguous views", B+"sinks/sink_file.hpp, sources/source_file.hpp: procedure")])
prop("C19", "A throttle passes its stream unchanged and never exceeds its rate",
 "A throttle block delivers its input unchanged, in order, without loss or duplication. Over any interval it delivers no more samples than the configured rate allows, beyond a fixed small burst, and while input and space are available and sleeps are exact it sustains the rate. Setting the wall clock changes none of this.",
 ["schedules", "inputs", "configurations"], "all rates, arrival patterns and slicings",
 "The tests make a few calls and check loose wall-clock bounds.",
 [B+"utils/throttle.hpp"], [("sample pacing against a steady clock", B+"utils/throttle.hpp: procedure")])
prop("C20", "AWGN adds independent Gaussian noise of the configured strength",
 "The noise block consumes and emits samples one for one and in order; the difference between output and input is zero-mean noise with the configured standard deviation, with independent real and imaginary parts for complex samples, uncorrelated from sample to sample, whatever the slicing. With zero noise the stream passes unchanged.",
 ["inputs", "schedules", "configurations"], "all inputs, noise levels, sample types and slicings",
 "The tests look at loose statistics of one chunk.",
 [B+"noise/awgn.hpp"], [("per-sample Gaussian draw", B+"noise/awgn.hpp: procedure")])
prop("C21", "UDP blocks carry whole datagrams, in order, once, under faults",
 "Each element given to a UDP sink becomes exactly one datagram with exactly its bytes, or is reported as an I/O error; what follows a failed one stays in the input and is sent by later calls. Each valid non-empty datagram arriving at a UDP source becomes exactly one element, in arrival order, delivered by the call that received it: a blob has exactly its bytes and length, a fixed-size element begins with its bytes and is zero behind them. Datagrams that are rejected by the validation hook, empty or larger than an element, and socket errors, never corrupt, duplicate or drop any other; an interrupted or idle socket is no error. A source with data to deliver never waits for more, and never waits without limit. Receivers listen on the address they are given, and malformed addresses and ports are rejected.",
 ["inputs", "fault_sequences", "schedules"], "all datagram sizes and contents, arrival patterns, receive/send failures, validation outcomes and slab sizes",
 "The UDP blocks have no tests.",
 [B+"udp/shared.cpp", B+"udp/shared.hpp", B+"udp/source_udp.hpp", B+"udp/sink_udp.hpp"],
 [("socket wrapper", B+"udp/shared.cpp: GenericDatagramSocket"), ("receive into slots / elements", B+"udp/source_udp.hpp"), ("send and release", B+"udp/sink_udp.hpp")])
prop("C22", "Blob slots have exactly one owner and are never lost",
 "At any time every slot of a blob slab is either free or owned by exactly one holder; a slot handed out does not overlap any other and its bytes change only through its owner. After any history of acquiring, passing between threads, rejecting, failing and releasing, the number of free plus owned slots equals the number of slots, so a pipeline never runs dry. Passing blobs through a source, channels and a sink is free of data races.",
 ["histories", "schedules", "fault_sequences"], "all acquire/release histories, producer/consumer schedules and error paths",
 "There are no tests of the slab or of the UDP blocks using it.",
 [B+"blob.hpp", B+"blob.cpp", B+"udp/source_udp.hpp", B+"udp/sink_udp.hpp"],
 [("free-slot queue", B+"blob.cpp: Slab"), ("release on every path", B+"udp/*.hpp")])
prop("C23", "The ADS-B receiver reports exactly the valid messages in its input",
 "For clean magnitude streams (levels well above the noise, no overlapping messages) at 2 or 2.4 MHz containing Mode S messages of downlink formats 0, 4, 5, 11, 16, 17, 20 and 21 that are followed by at least one detection window of samples, the decoder block emits every message exactly once, with exactly the transmitted bits, in order, for every slicing of the input into procedure calls, even when messages follow each other back to back. Address-parity formats are emitted when their address was heard recently in a DF11 or DF17 message. At 2 MHz a DF11 or DF17 message with one wrong bit behind the format field is repaired. It emits nothing for messages whose checksum is broken beyond repair or for noise that contains no message. Only formats selected by the filter are emitted, the filter may be changed from another thread, nothing is lost when the output is temporarily full, and several decoder blocks in different threads do not disturb each other.",
 ["inputs", "schedules"], "all message contents, spacings, alignments, slicings, filters and output sizes",
 "There are no ADS-B tests.",
 [B+"adsb/adsb_decoder.hpp", B+"adsb/modes.c", B+"adsb/modes_2400.c"],
 [("preamble detection and demodulation", B+"adsb/modes.c, modes_2400.c"), ("hand-over of scanned samples", B+"adsb/adsb_decoder.hpp: procedure")])
prop("C24", "Mode S fields and aircraft positions decode to the encoded values",
 "For every well-formed Mode S message of downlink formats 0, 4, 5, 11, 16, 17, 20 and 21 the decoded address, type, callsign, altitude (25 ft coding; others read 0), squawk, velocity, heading, vertical rate fields and checksum verdict equal those encoded, and fields the message does not carry are zero. A DF11 or DF17 message with one wrong bit (two for DF17 in aggressive mode) behind the format field is restored to the transmitted one; damage beyond that is reported as a wrong checksum. Address-parity messages are accepted only when their address was heard within the last minute. A pair of even and odd position messages (airborne, or surface with a reference) decodes to the encoded position within the resolution of the code anywhere on Earth, and a pair whose two messages lie in different latitude zones is rejected; the aggregator combines a pair only when its messages came within ten seconds of each other, so that a position it reports is one the aircraft held. The aggregator's aircraft table reflects, per address, the latest callsign, positive altitude, ground speed in knots, track, signed vertical rate in ft/min and position received, counts every message, reports every change through the callback, and may be listed and drawn from another thread while messages arrive.",
 ["inputs"], "all field values, all positions on Earth, all error patterns of up to two bits",
 "There are no ADS-B tests.",
 [B+"adsb/modes.c", B+"adsb/cpr.c", B+"adsb/adsb_aggregate.hpp"],
 [("field decoding", B+"adsb/modes.c: mode_s_decode"), ("CPR decoding", B+"adsb/cpr.c"), ("table update", B+"adsb/adsb_aggregate.hpp: procedure")])
prop("C25", "Mode S detection and decoding is memory-safe on arbitrary input",
 "Detecting and decoding Mode S in any buffer of magnitude samples, of any length including zero and with any values, and decoding any message bytes, reads and writes only within the given buffers, has no undefined behaviour, and always terminates. The same input always gives the same result.",
 ["inputs"], "all buffers and message bytes",
 "There are no ADS-B tests.",
 [B+"adsb/modes.c", B+"adsb/modes_2400.c", B+"adsb/cpr.c", B+"adsb/adsb_decoder.hpp"],
 [("bounds of the scanning loops", B+"adsb/modes.c: mode_s_detect, modes_2400.c: mode_s_detect_2400")])
prop("C26", "The coastline loader survives any file and loads valid ones exactly",
 "Loading any file, however truncated or corrupted, ends without a crash, out-of-bounds access, hang or unbounded memory use, and reports failure or yields only what the file contains. A well-formed shapefile yields exactly its polylines, part by part and point by point.",
 ["inputs", "fault_sequences"], "all byte contents, truncations and corruptions",
 "There are no tests of the loader.",
 [B+"adsb/adsb_coastline_loader.hpp"], [("record parsing", B+"adsb/adsb_coastline_loader.hpp")])
prop("C27", "Core utility types and functions meet their definitions for all values",
 "Fixed-size strings never overflow, are always terminated, truncate at their limit and concatenate correctly; results hold exactly one of value or error and refuse the wrong access; power-of-two helpers return the mathematically defined value wherever it is representable; error codes are classified fatal exactly from the terminate code upward and have distinct texts; every spectral window is finite, symmetric and within its defined range. Predefined flowgraph configurations have their documented settings, and the execution report lists each block once with the figures of its statistics.",
 ["inputs"], "all lengths, values and codes",
 "Most of these have no tests.",
 ["include/cler_embeddable_string.hpp", "include/cler_result.hpp", "include/cler_utils.hpp", H, B+"plots/spectral_windows.hpp", "include/cler_desktop_utils.hpp"],
 [("bounded append", "include/cler_embeddable_string.hpp"), ("variant result", "include/cler_result.hpp"), ("bit tricks", "include/cler_utils.hpp")])
prop("C28", "The logger keeps every line whole, in order, across rotation and threads",
 "Every message logged while the logger writes to a file, and short enough for its line buffer, appears in the log files exactly once, as one whole line with the level it was logged at, with each thread's messages in program order and the same line on standard output, however many threads log concurrently and however often the file is rotated; messages below the configured level never appear. Rotation keeps the configured number of files within the configured size and never drops a line other than by discarding the oldest file. A process that is killed leaves every line it had completed, at most the one being written cut short. Reopening, verifying, closing, changing the rotation settings of, or starting the logger while other threads log is free of data races.",
 ["schedules", "histories", "inputs"], "all thread counts, message lengths, rotation limits and schedules",
 "The logger has no tests.",
 ["desktop_logger/desktop_logger.cpp", "desktop_logger/desktop_logger.hpp"],
 [("mutex-protected write and rotation", "desktop_logger/desktop_logger.cpp")])
prop("C29", "Rendered diagrams contain exactly the flowgraph's blocks and connections",
 "For any flowgraph description whose connections join blocks of the flowgraph, the generated Mermaid text declares every block that is in the flowgraph exactly once under a unique legal identifier with its name, type and template parameters as label, draws every connection exactly once between the right identifiers, in the requested direction and fence and nothing else, marks sources, sinks and other blocks apart by shape and style, and quotes names so that they cannot break the diagram syntax. Rendering is repeatable, and a file gets exactly the rendered text. Validation fails exactly for a connection with an unknown end and names it, and warns of exactly the blocks that are isolated or unused.",
 ["inputs", "configurations"], "all graphs, names and rendering options",
 "The tool has no tests.",
 ["tools/mermaid/src/mermaid_renderer.cpp", "tools/mermaid/src/flowgraph.cpp"],
 [("node and edge emission", "tools/mermaid/src/mermaid_renderer.cpp")])
prop("C30", "Blocks reject unusable parameters at construction without leaking",
 "Constructing a processing, source, sink, file, UDP, ADS-B or plot block with parameters outside its domain (too few inputs or outputs, a non-zero buffer below one page, zero or negative or not-a-number rates, ratios, durations or bandwidths, cutoffs at or above Nyquist, unusable files or addresses) fails with an exception, whether assertions are compiled in or not, and construction with valid parameters succeeds; after a refusal, after an allocation that fails during construction, and after a constructed block is used and destroyed, no memory, descriptor, mapping, socket file or DSP object is left, and a refused sink leaves the file alone. A block's inputs are distinct, empty channels of at least the requested size.",
 ["inputs", "fault_sequences"], "all parameter values, valid and invalid",
 "The tests try a few values and never look for leaks.",
 [B], [("parameter checks in constructors", B+"*: constructors"), ("release in destructors", B+"*: destructors")])
prop("C31", "The diagram tool extracts every block and connection from C++ source",
 "For every C++ source file with one flowgraph in the documented construction style (block variables of a type with Block in its name, declared with constructor arguments; BlockRunner calls naming blocks and channels, indexed or not, inside make_..._flowgraph(...) or before it), the parser finds exactly the blocks declared, with type, template parameters, place and channels, which of them take part, exactly the connections, and the flowgraph's name, whatever comments, formatting and other code stand between. The command writes one diagram per input file, named after it or as asked for, goes on after a file it cannot read, and tells in its exit status whether all went well.",
 ["programs"], "all source files in the documented style",
 "The tool has no tests.",
 ["tools/mermaid/src/cpp_parser.cpp", "tools/mermaid/src/main.cpp"], [("walk over the syntax tree", "tools/mermaid/src/cpp_parser.cpp"), ("the command", "tools/mermaid/src/main.cpp")])
prop("C32", "GMSK framing round-trips payloads",
 "The GMSK modulator turns every blob into exactly one frame (alternating preamble ramped up, the blob's bits in order, a tail ramped down), frames in order, as soon as its output has room for the whole frame, and gives every blob's slot back once. Every frame with sync word, header and payload that is sent with the documented setting (2 samples per symbol, filter length of 3 symbols or more, bandwidth-time product from 0.3, preamble of 16 to 24 symbols) over a clean channel (any gain, phase, delay, silence between frames, up to 255 bytes) is delivered to the demodulator's callback once, in order, with identical header and payload. For any stream of samples at all, not-a-number included, and any answers of the callback, what the demodulator reports does not depend on how the stream is sliced, follows the order preamble, sync word, header, payload, announces no payload beyond the maximum, touches no memory out of bounds and takes bounded time. Unusable parameters are refused with an exception.",
 ["inputs", "schedules"], "all payloads, headers, slicings and sample streams",
 "There are no tests of these blocks.",
 [B+"ezgmsk/ezgmsk_mod.hpp", B+"ezgmsk/ezgmsk_demod.hpp"], [("frame assembly and detection", B+"ezgmsk/_ezgmsk_mod.c, _ezgmsk_demod.c")])
prop("C33", "SDR and sound blocks hand over every sample between device and flowgraph",
 "In the SoapySDR, HackRF, CaribouLite, USRP and sound-card blocks, every sample a device hands over reaches the output exactly once, in order and scaled to full range (all channels of a device in step), except those counted as overflow when the block's own buffer is full; every sample taken from a sink's input is handed to the device exactly once and in order, beyond full scale limited, and a transmission gap is silence and counted. No more is asked from or offered to a device than its transfer size and the room or samples there are. Time-outs, overflows and underflows never end the flowgraph, unrecoverable device errors do. A setting the device refuses or does not support fails construction with an exception, and after a failed construction as after destruction streaming is stopped and device, stream and sound library are released.",
 ["schedules", "fault_sequences", "inputs"], "all sequences of portions, time-outs, overflows and errors of a device, and callback timings",
 "There are no tests of the hardware blocks.",
 [B+"sources/source_hackrf.hpp", B+"sinks/sink_hackrf.hpp", B+"sources/source_uhd.hpp", B+"sources/source_soapysdr.hpp", B+"sinks/sink_soapysdr.hpp", B+"sinks/sink_uhd.hpp", B+"sinks/sink_audio.hpp", B+"sources/source_cariboulite.hpp"], [("device callbacks and procedures", B+"sources/source_hackrf.hpp: rx_callback, sinks/sink_hackrf.hpp: tx_callback, procedure of the others"), ("set-up and release", B+"sources/*, sinks/*: constructors and destructors")])
prop("C34", "Plots show exactly the samples that arrived",
 "For every split of the incoming samples over calls and every number of signals, the plot blocks take the same number of samples from each input and, whenever they are drawn, show: the time series the most recent samples that fit its duration, in order, complete, each at its own time; the spectrum the windowed, normalised power in dB of the most recent block of samples at the right frequencies, averaged with the chosen weight; the spectrogram one row for each block of samples, newest first, none missing or repeated. A paused plot takes nothing and goes on afterwards. Drawing while the flowgraph runs shows no torn or mixed data, is free of data races and never holds the flowgraph up for good.",
 ["inputs", "schedules", "configurations"], "all signals, portions, transform sizes, windows and interleavings of drawing and processing",
 "The tests only build the plots' sources; nothing draws or looks at them.",
 [B+"plots/plot_timeseries.cpp", B+"plots/plot_cspectrum.cpp", B+"plots/plot_cspectrogram.cpp"], [("procedure and render", B+"plots/*.cpp")])
prop("C35", "The audio file source plays every sample of the file once, in order",
 "Every decoded sample of the chosen audio stream, mixed to one channel and converted to the requested rate, is delivered exactly once and in order, for every number of channels and channel layout, however little room the output has between calls, and however the decoder groups or delays frames within packets. A file that is not repeated is delivered to its end, including what decoder and resampler still hold, before its end is reported, exactly once; a repeated file starts over and loses or invents nothing. While the output has no room nothing is decoded beyond a bounded backlog. An unusable file or a failing library call fails construction with an exception that leaves nothing open; errors while reading, decoding, seeking or resampling end the flowgraph or are passed over as documented, and no call hangs.",
 ["inputs", "histories", "fault_sequences"], "all files, groupings of frames, portions of output room and failing library calls",
 "There are no tests, and the block is not even built without FFmpeg.",
 [B+"sources/source_audio_file.hpp"], [("decoding loop and end of file", B+"sources/source_audio_file.hpp: procedure"), ("opening and release", B+"sources/source_audio_file.hpp: constructor, destructor")])
prop("C36", "The window manager opens, draws and releases in order and leaves nothing behind",
 "GuiManager opens one window of the requested size whose title is exactly the text given, for any text and any memory it lies in, with an OpenGL context its shaders can use, and has GUI, plot context and both back ends set up before the first frame. Each begin_frame/end_frame pair handles events once, draws the frame on a cleared picture of the window's current size and shows it exactly once. should_close() reports the window's own flag. Destruction, even within a frame, releases everything in a legal order, after which another manager can be made. When the library or the window cannot be had, construction throws and leaves nothing initialised.",
 ["inputs", "histories", "fault_sequences"], "all sizes, titles, sequences of frames, resizes and close requests, failing libraries",
 "There are no tests: tests have no display.",
 [B+"gui/gui_manager.cpp"], [("construction and release", B+"gui/gui_manager.cpp: GuiManager"), ("frames", B+"gui/gui_manager.cpp: begin_frame, end_frame")])
prop("C37", "Library blocks give the same streams in a flowgraph as called by hand",
 "For every flowgraph of library blocks (file, tone and chirp sources; gain, add, split, frequency shift, fan-out, throughput; filter, resampler, channelizer, FM demodulator; file, null and callback sinks), every scheduler setting and every sequence of stops and restarts, what arrives at the sinks, together with what is still in the channels, is what the same blocks produce when their procedures are called one after the other in a single thread; several instances of a block, in the same flowgraph, do not influence each other; and no data race occurs.",
 ["schedules", "configurations", "inputs"], "all graphs of these blocks, scheduler settings, interruptions and interleavings",
 "The tests call single blocks from one thread.",
 [B+"*", "include/cler.hpp"], [("blocks' procedures and members", B+"*: procedure"), ("flowgraph", "include/cler.hpp: FlowGraph")])
prop("C38", "Log lines say what was logged, are cut cleanly, and dump memory exactly",
 "Every log statement whose level is enabled and reaches the output level hands exactly one line to the output, with the local time, process, thread and level of the statement, the prefixed tag, the source location where configured, and the formatted text, exactly as the output's mask asks, through every logging macro; a line that does not fit the line buffer is that line's beginning, and nothing outside the buffer is touched. A memory dump adds lines that together show every byte of the region once, in order, in hexadecimal and as text, for every size and width that fits, and reads nothing beyond the region. A statement below the level, or marked secret where censoring is on, produces nothing and its arguments are not evaluated; others evaluate them once. This holds for statements of several threads at once, without data races, each line with its own thread's time and identity.",
 ["inputs", "configurations", "schedules"], "all texts, tags, regions, widths, masks, levels, clock readings and concurrent statements",
 "No test looks at a log line's contents.",
 ["desktop_logger/zf_log/zf_log.c", "desktop_logger/zf_log/zf_log.h"], [("building a line", "desktop_logger/zf_log/zf_log.c: put_ctx, put_tag, put_src, put_msg, output_mem"), ("levels and macros", "desktop_logger/zf_log/zf_log.h"), ("time cache", "desktop_logger/zf_log/zf_log.c: tcache_get, tcache_set")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
