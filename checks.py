"""What each property's check builds and runs.  n is the number of cases per tier."""
BINS = {
    "h_queue": dict(src=["harness/h_queue.cpp"], require=dict(without="-DQ_NO_MOVE_ONLY", key="fifo:move-only", what="move-only elements do not compile any more")),
    "h_qmem": dict(src=["harness/h_qmem.cpp"], require=dict(without="-DQ_NO_MOVE_ONLY", key="life:move-only", what="move-only elements do not compile any more"), libs=["-Wl," + ",".join("--wrap=" + f for f in ("mmap", "munmap", "ftruncate", "close", "shm_open", "syscall", "memfd_create"))]),
    "h_graph": dict(src=["harness/h_graph.cpp"] + ["harness/graph_p%d.cpp" % i for i in range(1, 7)]),
    "h_rtos": dict(src=["harness/h_rtos.cpp"], harness_inc=["harness/rtos"]),
    "h_blocks": dict(src=["harness/h_blocks.cpp"], inc=["include", "desktop_blocks"], libs=["-ldl"]),
    "h_dsp": dict(src=["harness/h_dsp.cpp"], inc=["include", "desktop_blocks"], flags=["-isystem", "/usr/include/liquid"], libs=["-lliquid"]),
    "h_udp": dict(src=["harness/h_udp.cpp"], repo_src=["desktop_blocks/udp/shared.cpp", "desktop_blocks/blob.cpp"], inc=["include", "desktop_blocks"], libs=["-ldl"]),
    "h_udp_nd": dict(src=["harness/h_udp.cpp"], repo_src=["desktop_blocks/udp/shared.cpp", "desktop_blocks/blob.cpp"], inc=["include", "desktop_blocks"], libs=["-ldl"], flags=["-DNDEBUG"]),
    "h_adsb": dict(src=["harness/h_adsb.cpp"], repo_src=["desktop_blocks/adsb/*.c"], inc=["include", ".", "desktop_blocks/adsb"], harness_inc=["harness/stubs"], libs=["-Wl,--wrap=time"]),
}
BINS["h_coast"] = dict(src=["harness/h_coast.cpp"], inc=["include", "."])
BINS["h_util"] = dict(src=["harness/h_util.cpp"], inc=["include", "desktop_blocks"])
BINS["h_log"] = dict(src=["harness/h_log.cpp"], repo_src=["desktop_logger/desktop_logger.cpp", "desktop_logger/zf_log/zf_log.c"], inc=["desktop_logger", "desktop_logger/zf_log"], libs=["-Wl,--wrap=strftime"])
BINS["h_zflog"] = dict(src=["harness/h_zflog.cpp", "harness/h_zflog_a.cpp", "harness/h_zflog_b.cpp", "harness/h_zflog_c.cpp"], repo_src=["desktop_logger/zf_log/zf_log.c"], inc=["desktop_logger/zf_log"], libs=["-Wl,--wrap=gettimeofday", "-Wl,--wrap=clock_gettime"], require=dict(without="-DWITHOUT_VERBOSE_MEM_AUX", key="zf:unusable:ZF_LOGV_MEM_AUX", what="dumping memory at verbose level through a log instance does not compile"))
BINS["h_mermaid"] = dict(src=["harness/h_mermaid.cpp"], repo_src=["tools/mermaid/src/mermaid_renderer.cpp", "tools/mermaid/src/flowgraph.cpp"], inc=["tools/mermaid/src"])
BINS["h_plot"] = dict(src=["harness/h_plot.cpp"], repo_src=["desktop_blocks/plots/*.cpp"], inc=["include", "desktop_blocks"], harness_inc=["harness/stubs"], flags=["-isystem", "/usr/include/liquid"], libs=["-lliquid"])
for nd in ("", "_nd"): BINS["h_ctor" + nd] = dict(src=["harness/h_ctor.cpp"], repo_src=["desktop_blocks/plots/*.cpp", "desktop_blocks/udp/shared.cpp", "desktop_blocks/blob.cpp", "desktop_blocks/adsb/*.c"], inc=["include", ".", "desktop_blocks"], harness_inc=["harness/stubs"], flags=["-isystem", "/usr/include/liquid"] + (["-DNDEBUG"] if nd else []), libs=["-lliquid", "-Wl,--wrap=ftruncate", "-Wl,--wrap=ftruncate64"])
BINS["h_sdr"] = dict(src=["harness/h_sdr.cpp"], inc=["include", ".", "desktop_blocks"], harness_inc=["harness/stubs"], libs=["-lSoapySDR"])
BINS["h_cppparse"] = dict(src=["harness/h_cppparse.cpp", "harness/h_cppparse_main.cpp"], repo_src=["tools/mermaid/src/cpp_parser.cpp", "tools/mermaid/src/mermaid_renderer.cpp", "tools/mermaid/src/flowgraph.cpp"], inc=["tools/mermaid/src"], harness_inc=["harness/stubs/tree_sitter"])
BINS["h_gui"] = dict(src=["harness/h_gui.cpp"], repo_src=["desktop_blocks/gui/gui_manager.cpp"], inc=["include", ".", "desktop_blocks"], harness_inc=["harness/stubs/gui"])
BINS["h_audio"] = dict(src=["harness/h_audio.cpp"], repo_src=[], inc=["include", ".", "desktop_blocks"], harness_inc=["harness/stubs/ffmpeg"])
BINS["h_audio58"] = dict(src=["harness/h_audio.cpp"], repo_src=[], inc=["include", ".", "desktop_blocks"], harness_inc=["harness/stubs/ffmpeg"], flags=["-DLIBAVCODEC_VERSION_MAJOR=58"])
BINS["h_gmsk"] = dict(src=["harness/h_gmsk.cpp"], repo_src=["desktop_blocks/ezgmsk/_*.c", "desktop_blocks/blob.cpp"], inc=["include", "desktop_blocks"], harness_inc=["harness/stubs/liquid_internal"], flags=["-isystem", "/usr/include/liquid"], libs=["-lliquid"])
def J(bin, flavor, mode, quick, thorough, **k): return dict(bin=bin, flavor=flavor, mode=mode, quick=quick, thorough=thorough, **k)
CRASH = r"|crash:|hang:"
CHECKS = {}
def check(prop, jobs, rule, level="exploration", technique="", note="", assumptions=()):
    CHECKS[prop] = dict(jobs=jobs, rule=rule, level=level, technique=technique, note=note, assumptions=list(assumptions))

QASSUME = ["one producer thread and one consumer thread per channel, as documented"]
check("C01", [
    J("h_queue", "asan", "model", 6000, 60000, shards=4, accept=r"fifo:" + CRASH),
    J("h_queue", "o2", "conc", 960, 12000, shards=4, weight=2, accept=r"fifo:" + CRASH),
    J("h_queue", "tsan", "conc", 192, 2400, shards=2, weight=2, accept=r"fifo:" + CRASH),
    J("h_queue", "o2", "raceobj", 200, 6000, shards=2, weight=2, accept=r"fifo:" + CRASH),
    J("h_qmem", "asan", "life", 3000, 60000, shards=2, accept=r"life:(failed-push-consumed|value|phantom|pop-failed|std)" + CRASH),
  ], rule="a case is one channel (element size, capacity, heap/stack/doubly mapped) driven by a random mix of all transfer operations, single-threaded against a reference FIFO or from two threads with random delays; elements are self-identifying in every byte. Non-trivial: the indices wrapped (single-threaded) or both a full and an empty channel were met (two threads); distinct by the hash of operations/fill states or of batch sizes seen by the consumer.",
  technique="runtime FIFO monitor (self-identifying elements vs reference queue) under ASan/UBSan, -O2 stress and TSan", assumptions=QASSUME)
check("C02", [
    J("h_queue", "tsan", "race", 1512, 12600, shards=4, weight=2, accept=r"crash:tsan|crash:signal|fifo:race-content|hang:"),
    J("h_queue", "tsan", "raceobj", 120, 1200, shards=2, weight=2, accept=r"crash:tsan|crash:signal|fifo:object-content|hang:"),
    J("h_queue", "tsan", "conc", 192, 2400, shards=2, weight=2, accept=r"crash:tsan"),
  ], rule="a case is one pair (producer operation, consumer operation) on a heap, doubly mapped or stack channel; elements carry pointers to plain heap data, and nothing but the channel synchronises the threads, so ThreadSanitizer's happens-before analysis decides both directions. Non-trivial: every pair; distinct by operation pair, memory kind and capacity.",
  technique="ThreadSanitizer happens-before analysis over the operation-pair matrix", assumptions=QASSUME + ["TSan models the C++ memory model per observed execution"])
check("C03", [
    J("h_queue", "asan", "model", 6000, 60000, shards=4, accept=r"occ:|hang:"),
    J("h_queue", "o2", "conc", 960, 12000, shards=4, weight=2, accept=r"occ:|hang:"),
  ], rule="as C01; the monitor compares every count and try result with the reference queue after each operation, and in two-thread runs checks that what was reported available can be transferred. Non-trivial and distinct as C01.",
  technique="runtime occupancy monitor against a reference queue", assumptions=QASSUME)
check("C04", [
    J("h_queue", "asan", "view", 768, 8000, shards=6, accept=r"fifo:|view:" + CRASH),
    J("h_queue", "o2", "conc", 288, 4000, shards=3, weight=2, accept=r"(fifo:conc:(read_dbf|readN|peek_read))|view:" + CRASH),
  ], rule="a case is one doubly mapped channel with an element size from {1..8192 bytes, incl. non-divisors of the page} and a capacity from 4 KB to 5 MB, driven through views and copies with every byte checked. Non-trivial: the indices wrapped.",
  technique="runtime view monitor (every byte of every view vs reference FIFO) under ASan", assumptions=QASSUME)

check("C05", [
    J("h_qmem", "asan", "life", 21000, 126000, shards=6, accept=r"life:" + CRASH),
  ], rule="a case is one queue of a resource-owning element type (copyable, move-only, over-aligned, page-sized, std::string, std::vector) on heap, stack or doubly mapped memory, driven by a random history and destroyed at any fill level; every object's construction, destruction, assignment and every token's owner count is checked after each operation. Non-trivial: indices wrapped or elements were left inside.",
  technique="object-lifetime monitor (live-address set, owner counts) under ASan/LSan/UBSan")
check("C06", [
    J("h_qmem", "asan", "fault", 176, 3520, shards=6, accept=r"res:" + CRASH),
    J("h_qmem", "o2", "hist", 120, 3000, shards=4, accept=r"res:" + CRASH),
    J("h_qmem", "o2", "threads", 240, 6000, shards=2, weight=4, accept=r"res:" + CRASH),
    J("h_qmem", "tsan", "threads1", 16, 400, shards=400, weight=3, accept=r"res:" + CRASH),
  ], level="fault_enumeration", rule="every kind of system call x call position x once/persistent/lying failure (88 scenarios), each in a fresh process with all calls interposed: descriptors and mappings are tracked from the calls and compared with /proc/self; plus random create/destroy histories and concurrent first construction with injected delays. Non-trivial: the fault fired / two or more doubly mapped channels / all concurrent cases.",
  technique="system-call interposition monitor with fault enumeration, /proc/self audit, TSan")

GRULE = "a case is one flowgraph (chain of 2..20, fan-out, fan-in, diamond, 10-block mesh, or 1..40 independent scripted blocks) with a random configuration (scheduler, 2..24 workers, batch, adaptive sleep, statistics, pinning), random channel kinds and transfer methods, random delays inside procedures. "
check("C07", [
    J("h_graph", "asan", "stream", 135, 9000, shards=3, weight=3, accept=r"stream:" + CRASH),
    J("h_graph", "o2", "stream", 270, 27000, shards=3, weight=3, accept=r"stream:" + CRASH),
    J("h_graph", "asan", "life", 54, 2700, shards=2, weight=3, accept=r"stream:" + CRASH),
  ], rule=GRULE + "Every sink compares every element with the closed-form value of its position. Non-trivial: at least one call found no work (real interleaving); distinct by the vector of per-block call/failure counts.",
  technique="end-to-end stream oracle on monitored flowgraphs under ASan/UBSan and -O2 stress")
check("C08", [
    J("h_graph", "tsan", "stream", 63, 3600, shards=3, weight=3, accept=r"serial:|crash:tsan|hang:"),
    J("h_graph", "tsan", "life", 45, 1800, shards=2, weight=3, accept=r"serial:|crash:tsan|hang:"),
    J("h_graph", "o2", "life", 135, 9000, shards=3, weight=3, accept=r"serial:|hang:"),
    J("h_graph", "o2", "policy", 100, 5000, shards=2, weight=2, accept=r"serial:"),
  ], rule=GRULE + "Entry/exit flags, run-phase flag, channel identity and unsynchronised block state watched by ThreadSanitizer. Non-trivial: as C07 / a run took place in the history.",
  technique="overlap and phase monitors plus ThreadSanitizer on unsynchronised block state")
check("C09", [
    J("h_graph", "o2", "fair", 280, 7000, shards=2, weight=4, accept=r"fair:|hang:"),
    J("h_graph", "asan", "policy", 450, 10000, shards=3, weight=2, accept=r"fair:|hang:"),
    J("h_graph", "asan", "fair", 84, 1400, shards=2, weight=4, accept=r"fair:" + CRASH),
  ], rule=GRULE + "Every block must reach a call quota; on recorded per-thread call sequences the number of neighbour calls between two calls of a block is bounded. Non-trivial: every case; distinct by size, configuration and outcome pattern or recorded sequence.",
  technique="liveness quota and bounded-waiting monitor over recorded per-thread call sequences")
check("C10", [
    J("h_graph", "asan", "life", 108, 9000, shards=3, weight=3, accept=r"life:|stream:" + CRASH),
    J("h_graph", "o2", "life", 135, 13500, shards=3, weight=3, accept=r"life:|stream:" + CRASH),
    J("h_graph", "tsan", "life", 36, 1800, shards=2, weight=3, accept=r"life:" + CRASH),
    J("h_graph", "o2", "err", 132, 6600, shards=2, weight=3, accept=r"life:|serial:late|serial:outside" + CRASH),
  ], rule=GRULE + "Random histories of run, timed run, stop (twice, idle), query, destruction while running or after a block's fatal error; task threads are counted in /proc. Non-trivial: a run with calls took place; distinct by operation history.",
  technique="lifecycle history monitor (thread census, phase flag, stream continuation) under ASan and TSan")
check("C11", [
    J("h_graph", "o2", "err", 1320, 13200, shards=3, weight=3, accept=r"err:" + CRASH),
    J("h_graph", "asan", "err", 660, 6600, shards=3, weight=3, accept=r"err:" + CRASH),
  ], rule=GRULE + "One block returns a chosen error at a chosen call; callback, context, stop, and call counts are checked. Distinct by code, size, call number, scheduler, callback.",
  technique="error-injection monitor on callback, stop flag and call counts")
check("C12", [
    J("h_graph", "o2", "stream", 180, 4500, shards=2, weight=3, accept=r"stats:"),
    J("h_graph", "o2", "life", 90, 4500, shards=2, weight=3, accept=r"stats:"),
    J("h_graph", "o2", "err", 264, 6600, shards=2, weight=3, accept=r"stats:"),
    J("h_graph", "o2", "fair", 56, 2800, shards=2, weight=4, accept=r"stats:"),
    J("h_graph", "o2", "dead", 300, 6000, shards=3, weight=2, accept=r"stats:"),
  ], rule=GRULE + "After every run with statistics the report of every block is compared with the monitor's own counts for that run and with wall time; blocks that are starved in every call, or in none, must be reported dead for at least, or none of, the time their calls took. Non-trivial as in the underlying workloads.",
  technique="statistics cross-check against independently counted calls")
check("C13", [
    J("h_graph", "o2", "policy", 340, 20000, shards=4, weight=2, accept=r"sleep:|batch:"),
    J("h_graph", "asan", "policy", 100, 4000, shards=2, weight=2, accept=r"sleep:|batch:" + CRASH),
  ], rule=GRULE + "A recording task policy logs every call outcome and requested wait; an interval model of the controller decides each wait and each turn. Non-trivial: waits were seen or several blocks shared the run; distinct by recorded event sequence.",
  technique="trace monitor over a recording task policy")
check("C14", [
    J("h_rtos", "asan", "tasks", 14400, 86400, shards=4, weight=2, accept=r"rtos:" + CRASH),
    J("h_rtos", "asan", "graph", 2160, 18000, shards=2, weight=3, accept=r"rtos:|stream:|serial:" + CRASH),
    J("h_rtos", "tsan", "tasks", 2880, 18000, shards=2, weight=2, accept=r"rtos:|crash:tsan|hang:"),
  ], rule="a case is a set of 1..12 tasks, or a 4-block flowgraph, on the FreeRTOS, ThreadX or Zephyr policy over a monitored kernel (real threads, random delays, a new task may finish before its creator continues), with task handles moved between slots, random join order, repeated joins, and, in a third of the cases, failing kernel allocations. Every kernel call audits identity, integrity and allocation of all kernel objects in caller memory. Every case is non-trivial; distinct by case and size or call counts.",
  technique="monitored kernel stand-in (object identity, integrity, lifetime) under ASan and TSan", assumptions=["the stand-in's reading of the FreeRTOS, ThreadX and Zephyr documentation; priorities and interrupts are not modelled"])

BRULE = "a case drives one block with random parameters, channel sizes and types: random slices fed, random calls, random drains, balanced, starved, blocked or with one lagging port; "
check("C15", [
    J("h_blocks", "asan", "arith", 4800, 48000, shards=6, accept=r"arith:|chunk:" + CRASH),
    J("h_blocks", "o2", "arith", 7680, 96000, shards=4, accept=r"arith:|chunk:" + CRASH),
  ], rule=BRULE + "every emitted sample is compared with the definition, and after each call the counts consumed and emitted on every port. Non-trivial: some calls moved samples and some could not; distinct by the sequence of moved counts.",
  technique="sample-exact monitor with transfer accounting on every call, under ASan/UBSan and -O2")
check("C17", [
    J("h_blocks", "asan", "gen", 3840, 23040, shards=4, accept=r"gen:|chunk:" + CRASH),
    J("h_blocks", "o2", "gen", 7200, 43200, shards=4, accept=r"gen:|chunk:" + CRASH),
  ], rule=BRULE + "every sample is compared with the analytic signal within a bound for single-precision accumulation, the phase step of every complex sample with the instantaneous frequency. Non-trivial: more than one call; distinct by the sequence of slice sizes.",
  technique="analytic signal oracle with phase-step monitor", assumptions=["tolerances cover single-precision recursion: 2e-6 rad per sample for tones, 2.5e-7 rad per squared sample for chirps"])
check("C18", [
    J("h_blocks", "asan", "file", 43200, 259200, shards=6, accept=r"file:|chunk:" + CRASH),
    J("h_blocks", "o2", "file", 57600, 345600, shards=4, accept=r"file:|chunk:" + CRASH),
  ], rule=BRULE + "file bytes are compared with the stream; read() is interposed (short reads, errors after n bytes), writes hit a full device or a file-size limit. Non-trivial: every source case and every sink case with more than one call; distinct by sizes, calls and fault.",
  technique="byte-exact file monitor with interposed read and write faults", level="fault_enumeration")
check("C19", [
    J("h_blocks", "asan", "throttle", 14400, 86400, shards=4, accept=r"throttle:|chunk:" + CRASH),
    J("h_blocks", "o2", "throttle", 36000, 216000, shards=4, accept=r"throttle:|chunk:" + CRASH),
  ], rule=BRULE + "clock and sleep calls are interposed and run on virtual time with exact or overshooting sleeps, so every window of the delivery record is checked against the configured rate without depending on the machine. Every case is non-trivial; distinct by rate, length and calls.",
  technique="virtual-time rate monitor over the recorded delivery times")
check("C20", [
    J("h_blocks", "o2", "noise", 768, 4608, shards=4, accept=r"noise:|chunk:" + CRASH),
    J("h_blocks", "asan", "noise", 192, 1152, shards=4, accept=r"noise:|chunk:" + CRASH),
  ], rule=BRULE + "60-80 thousand noise samples per case are tested for mean, deviation, shape, extreme values, correlation at 24 short lags and at every chunk-size lag, and between real and imaginary parts, at 7-sigma bounds. Non-trivial: several calls moved samples; distinct by slice sequence.",
  technique="statistical monitor at 7-sigma bounds", assumptions=["7-sigma bounds: a false alarm has probability below 1e-9 per run"])

check("C16", [
    J("h_dsp", "asan", "dsp", 960, 24000, shards=6, accept=r"dsp:|chunk:" + CRASH),
    J("h_dsp", "o2", "dsp", 2400, 96000, shards=4, accept=r"dsp:|chunk:" + CRASH),
  ], rule=BRULE + "every emitted sample is compared with the same liquid-dsp operation run over the whole input one element at a time, counts are compared on every call, and FM output also with the input's own phase steps. Non-trivial: some calls moved samples and some could not; distinct by the sequence of moved counts.",
  technique="differential stream monitor against the whole-stream operation, under ASan/UBSan and -O2")

check("C21", [
    J("h_udp", "asan", "source", 5000, 48000, shards=4, weight=1, accept=r"udp:" + CRASH),
    J("h_udp", "asan", "sink", 2400, 24000, shards=2, weight=1, accept=r"udp:" + CRASH),
    J("h_udp", "o2", "source", 8000, 80000, shards=2, weight=1, accept=r"udp:" + CRASH),
    J("h_udp", "o2", "sink", 6000, 60000, shards=2, weight=1, accept=r"udp:" + CRASH),
    J("h_udp", "asan", "addr", 20, 400, shards=2, weight=1, accept=r"udp:" + CRASH),
  ], level="fault_enumeration", rule="a case drives one UDP source or sink (IPv4, IPv6, UNIX; blobs or fixed elements of 1 to 60000 bytes) over a real socket with empty, short, full, oversized and rejected datagrams and injected socket errors; every datagram is recorded at the system call and compared with what the block delivered in that call. Source cases are non-trivial when valid and invalid datagrams were met; distinct by per-call delivery and result.",
  technique="system-call level datagram monitor with injected socket faults, under ASan")
check("C22", [
    J("h_udp", "asan", "slab", 1200, 60000, shards=2, accept=r"slab:" + CRASH),
    J("h_udp_nd", "asan", "slab", 200, 10000, shards=2, accept=r"slab:" + CRASH),
    J("h_udp", "asan", "source", 480, 24000, shards=2, accept=r"slab:" + CRASH),
    J("h_udp_nd", "o2", "source", 960, 48000, shards=2, accept=r"slab:|udp:stalled" + CRASH),
    J("h_udp", "asan", "sink", 60, 3000, shards=2, accept=r"slab:" + CRASH),
    J("h_udp", "tsan", "slabmt", 80, 2000, shards=2, weight=3, accept=r"slab:|crash:tsan|crash:signal|hang:"),
    J("h_udp_nd", "o2", "slabmt", 160, 4000, shards=2, weight=3, accept=r"slab:" + CRASH),
    J("h_udp", "tsan", "pipe", 80, 2000, shards=2, weight=3, accept=r"pipe:|crash:tsan|crash:signal|hang:"),
    J("h_udp_nd", "o2", "pipe", 120, 3000, shards=2, weight=3, accept=r"pipe:" + CRASH),
  ], rule="random histories of taking, holding, passing and releasing slots on one thread against a model; one taking thread with one to three releasing threads (and the taker releasing too); and whole source-channel-sink pipelines with rejected and oversized datagrams and small slabs, in builds with and without assertions. Distinct by history or by call counts.",
  technique="slot ownership monitor, ThreadSanitizer, end-to-end pipeline oracle")

check("C23", [
    J("h_adsb", "o2", "stream2", 36000, 200000, shards=4, accept=r"recv:|chunk:" + CRASH),
    J("h_adsb", "asan", "stream2", 9600, 40000, shards=4, accept=r"recv:|chunk:" + CRASH),
    J("h_adsb", "o2", "stream24", 36000, 200000, shards=4, accept=r"recv24:|recv:|chunk:" + CRASH),
    J("h_adsb", "asan", "noise", 2400, 10000, shards=2, accept=r"recv:" + CRASH),
    J("h_adsb", "tsan", "race", 720, 4000, shards=2, weight=3, accept=r"recv:|crash:tsan|crash:signal|hang:"),
  ], rule="random transmissions (3 to 27 messages of DF 0, 4, 5, 11, 16, 17, 20, 21, some with one or more flipped bits, some back to back, four amplitudes over low noise, any sub-sample phase at 2.4 MHz) are rendered as magnitude samples by an independent modulator and fed to the receiver block in random portions with random, often nearly full, output channels and random type filters; the received sequence is compared with the transmitted one. Noise-only streams; two receivers in two threads under ThreadSanitizer while a third changes the filters. Distinct by the call/portion history of streams with at least one reception.",
  technique="end-to-end oracle against an independent Mode S modulator, AddressSanitizer, ThreadSanitizer")
check("C24", [
    J("h_adsb", "asan", "fields", 4000, 100000, shards=4, accept=r"fields:" + CRASH),
    J("h_adsb", "asan", "cpr", 2000, 60000, shards=4, accept=r"cpr:" + CRASH),
    J("h_adsb", "asan", "agg", 2000, 60000, shards=4, accept=r"agg:" + CRASH),
    J("h_adsb", "tsan", "aggmt", 40, 1500, shards=2, weight=2, accept=r"agg:|crash:tsan|crash:signal|hang:"),
  ], rule="random messages with known contents, checksummed by polynomial division, decoded into poisoned structures, a third with bit errors, with the clock of the address list under control; positions (random, at zone boundaries, poles, equator, antimeridian) encoded by the CPR formulas and decoded as pairs, surface pairs and relative to a reference; message sequences of one to six moving aircraft through the aggregator against a model of its table, its callbacks and its listing; the table read and drawn by a second thread under ThreadSanitizer. Distinct by message kinds, latitude zones or table histories.",
  technique="field-by-field oracle from an independent encoder, table model, AddressSanitizer, ThreadSanitizer")
check("C25", [
    J("h_adsb", "asan", "wild", 120000, 1200000, shards=6, accept=r"mem:" + CRASH),
    J("h_adsb", "asan", "bytes", 6000, 60000, shards=4, accept=r"mem:" + CRASH),
  ], rule="sample buffers of any length from 0 (exactly sized, so that AddressSanitizer sees every sample read beyond them) with noise, extremes and whole, cut or damaged messages, and arbitrary message bytes, each processed twice from differently poisoned memory and stacks: both runs must report the same structures, byte for byte, and leave the samples as they were. Distinct by length, settings and number of messages.",
  technique="AddressSanitizer and UBSan on exactly sized buffers, differential runs over poisoned memory")
check("C26", [
    J("h_coast", "asan", "valid", 16000, 100000, shards=2, accept=r"coast:" + CRASH),
    J("h_coast", "asan", "broken", 48000, 300000, shards=6, accept=r"coast:" + CRASH),
    J("h_coast", "asan", "special", 1, 1, accept=r"coast:" + CRASH),
  ], rule="generated shapefiles (no to 200 records, polylines with one to 30 parts, empty parts, other shapes) loaded and compared point by point; the same files truncated, with their length and count fields replaced by extreme values, with flipped, inserted or random bytes: no crash, no exception, memory in proportion to the file, and every reported polyline must stand in the file; the bundled map against a second parser; special paths. Distinct by sizes and kind of damage.",
  technique="differential oracle, AddressSanitizer and UBSan, allocation monitor")
check("C27", [
    J("h_util", "asan", "str", 36000, 300000, shards=2, accept=r"str:" + CRASH),
    J("h_util", "o3", "str", 36000, 300000, shards=2, accept=r"str:" + CRASH),
    J("h_util", "asan", "result", 16000, 100000, accept=r"result:" + CRASH),
    J("h_util", "asan", "numbers", 400, 4000, accept=r"pow2:|error:" + CRASH),
    J("h_util", "o3", "window", 1600, 20000, shards=2, accept=r"window:" + CRASH),
    J("h_util", "asan", "window", 800, 4000, accept=r"window:" + CRASH),
    J("h_util", "o2", "report", 180, 2000, shards=2, accept=r"report:|preset:" + CRASH),
  ], rule="random operation histories on fixed-size strings of nine sizes between canaries, against std::string with truncation; on results holding counted values; every power of two and its neighbours, small and random numbers against counting loops; every error code; windows of all kinds, lengths and shape parameters point by point against their definitions in double precision; the presets; and the execution report of real runs compared with the statistics. Distinct by operation history or drawn parameters.",
  technique="model-based runtime monitoring, AddressSanitizer and UBSan")
check("C28", [
    J("h_log", "o2", "rotate", 3000, 20000, shards=3, weight=2, accept=r"log:" + CRASH),
    J("h_log", "asan", "rotate", 1500, 8000, shards=2, weight=2, accept=r"log:" + CRASH),
    J("h_log", "tsan", "rotate", 600, 2000, shards=2, weight=3, accept=r"log:" + CRASH),
    J("h_log", "tsan", "reconf", 800, 2000, shards=2, weight=3, accept=r"log:" + CRASH),
    J("h_log", "o2", "reconf", 1500, 8000, shards=2, weight=3, accept=r"log:" + CRASH),
    J("h_log", "tsan", "start", 150, 1000, accept=r"log:" + CRASH),
    J("h_log", "o2", "kill", 2000, 10000, shards=3, weight=2, accept=r"log:" + CRASH),
    J("h_log", "asan", "api", 3, 20, accept=r"log:" + CRASH),
  ], rule="one to six threads logging uniquely numbered, checksummed messages of all levels and lengths into files that rotate (limits, numbers of backups, leftovers of earlier runs, failing renames), then every line of every file and of standard output parsed: whole, exactly once, in each thread's order, only the oldest file discarded, sizes and numbers of backups within limits; the file, the rotation and the verification switched by another thread meanwhile, also under ThreadSanitizer; several threads starting the logger; a logging process killed at a random moment. Distinct by the interleaving found in the files.", technique="exactly-once and order checker over the log files, ThreadSanitizer, kill injection")
check("C29", [
    J("h_mermaid", "asan", "render", 24000, 200000, shards=3, accept=r"diagram:" + CRASH),
    J("h_mermaid", "o2", "render", 24000, 200000, shards=2, accept=r"diagram:" + CRASH),
    J("h_mermaid", "asan", "validate", 24000, 200000, accept=r"validate:" + CRASH),
  ], rule="random flowgraph descriptions (no to 60 blocks; ordinary, nearly equal, non-ASCII and hostile names, types and template parameters; repeated, parallel and self connections; blocks left out of the flowgraph), several rendered by one renderer, in all directions and fences, to text and to files; an independent reader of the flowchart language parses the text and its nodes, connections, labels, shapes and styles are compared with the description. Distinct by nodes, connections and labels.", technique="independent parser as oracle over generated diagrams, AddressSanitizer and UBSan")
check("C34", [
    J("h_plot", "asan", "series", 8000, 60000, shards=2, accept=r"plot:" + CRASH),
    J("h_plot", "o2", "series", 8000, 60000, accept=r"plot:" + CRASH),
    J("h_plot", "asan", "spectrum", 4000, 20000, shards=2, accept=r"plot:" + CRASH),
    J("h_plot", "o2", "spectrum", 4000, 20000, accept=r"plot:" + CRASH),
    J("h_plot", "asan", "gram", 2500, 12000, shards=2, accept=r"plot:" + CRASH),
    J("h_plot", "tsan", "series_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
    J("h_plot", "tsan", "spectrum_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
    J("h_plot", "tsan", "gram_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
    J("h_plot", "o2", "series_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
    J("h_plot", "o2", "spectrum_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
    J("h_plot", "o2", "gram_mt", 200, 2000, weight=2, accept=r"plot:" + CRASH),
  ], rule="random signals in random portions into the three plot blocks, random calls, drawings, pauses, hidden plots and averaging weights, with a stand-in for the plotting library that hands over what is drawn: every point compared with the samples fed (values, time stamps, counts, order), spectra with a direct transform in double precision; and drawing from one thread while another feeds and runs the block, with signals in which every torn, repeated or misplaced block shows, also under ThreadSanitizer. Distinct by portion history or by what was seen drawn.", technique="differential oracle on what reaches the plotting library, ThreadSanitizer, AddressSanitizer")
check("C30", [
    J("h_ctor", "asan", "ctor", 900, 40000, shards=6, accept=r"ctor:" + CRASH),
    J("h_ctor_nd", "asan", "ctor", 900, 40000, shards=6, accept=r"ctor:" + CRASH),
    J("h_ctor", "o2", "ctor", 2700, 120000, shards=4, accept=r"ctor:" + CRASH),
  ], rule="every block that can be built here, constructed with random parameters in and out of its domain (boundaries, zero, negative, not-a-number, missing files, bad addresses), with assertions and without: the verdict compared with the domain, and after a refusal or after use and destruction no allocation, descriptor, mapping or file may be left (counted, and searched by LeakSanitizer); one in six also with each allocation of its constructor failing in turn; inputs measured and filled with different data. Distinct by parameters.", technique="fault injection, allocation and descriptor monitor, LeakSanitizer")
check("C33", [
    J("h_sdr", "asan", "soapy", 12000, 300000, accept=r"sdr:" + CRASH),
    J("h_sdr", "asan", "hackrf", 12000, 300000, accept=r"sdr:" + CRASH),
    J("h_sdr", "asan", "audio", 12000, 300000, accept=r"sdr:" + CRASH),
    J("h_sdr", "asan", "caribou", 12000, 300000, accept=r"sdr:" + CRASH),
    J("h_sdr", "asan", "uhd", 12000, 300000, accept=r"sdr:" + CRASH),
    J("h_sdr", "tsan", "hackrf_mt", 600, 6000, weight=2, accept=r"sdr:" + CRASH),
    J("h_sdr", "o2", "hackrf_mt", 1200, 12000, weight=2, accept=r"sdr:" + CRASH),
  ], rule="the device blocks against devices of our own: a driver registered with the real SoapySDR library, and stand-ins for the libraries of HackRF, CaribouLite, USRP and PortAudio that answer with random portions, time-outs, overflows, underflows and errors and fail any call during construction: every sample handed over compared with every sample taken, results with what happened, and streams, devices and initialisations counted; HackRF also with its own callback thread in running flowgraphs, under ThreadSanitizer. Distinct by history of portions and answers.", technique="exactly-once monitor at the device interface, fault injection, ThreadSanitizer, AddressSanitizer")
check("C32", [
    J("h_gmsk", "asan", "mod", 600, 30000, shards=2, accept=r"gmsk:|chunk:" + CRASH),
    J("h_gmsk", "o2", "loop", 3000, 200000, shards=3, accept=r"gmsk:|chunk:" + CRASH),
    J("h_gmsk", "asan", "loop", 300, 20000, shards=2, accept=r"gmsk:|chunk:" + CRASH),
    J("h_gmsk", "asan", "slice", 1500, 80000, shards=3, accept=r"gmsk:|chunk:" + CRASH),
    J("h_gmsk", "asan", "ctor", 600, 30000, accept=r"gmsk:" + CRASH),
    J("h_gmsk", "tsan", "modmt", 100, 4000, shards=2, weight=2, accept=r"gmsk:|crash:tsan|crash:signal|hang:"),
    J("h_gmsk", "tsan", "graph", 60, 3000, weight=2, accept=r"gmsk:" + CRASH),
  ], rule="random frames through the modulator block into channels of random size, compared sample by sample with the same bits through the library's modulator, ramps included; round the loop through gains, phases, delays, gaps and noise into the demodulator block in random slices, headers and payloads compared; arbitrary streams (cut, shifted, noisy, not finite, lengths the callback should not have answered) whose events must not depend on the slicing; parameters in and out of the domain; and the chain in running flowgraphs under ThreadSanitizer. Distinct by history of portions, by events or by parameters.", technique="differential oracle, round-trip monitor, slicing invariance, AddressSanitizer, ThreadSanitizer")
check("C35", [
    J("h_audio", "asan", "deliver", 3000, 120000, shards=2, accept=r"audio:" + CRASH),
    J("h_audio58", "asan", "deliver", 2000, 80000, accept=r"audio:" + CRASH),
    J("h_audio", "o2", "deliver", 6000, 300000, accept=r"audio:" + CRASH),
    J("h_audio", "asan", "faults", 6000, 200000, accept=r"audio:" + CRASH),
    J("h_audio58", "asan", "faults", 4000, 100000, accept=r"audio:" + CRASH),
    J("h_audio", "asan", "errors", 3000, 100000, shards=2, accept=r"audio:" + CRASH),
    J("h_audio58", "asan", "errors", 2000, 60000, accept=r"audio:" + CRASH),
  ], rule="the audio file source against a stand-in for FFmpeg (not installed here) that follows the documented rules of demuxer, decoder and resampler: random files (streams, channels, rates, packets of several frames, frames held back until the drain), random room in the output between calls, repeating or not; every sample compared with what the file contains, the end callback counted, the resampler's backlog bounded; every library call of construction made to fail in turn; read, decode, seek and resampling errors and files that cannot be repeated. Every object of the library counted. Two generations of the library's interface. Distinct by file and history of portions.", technique="exactly-once monitor against a simulated decoder, fault injection, AddressSanitizer and UBSan")
check("C36", [
    J("h_gui", "asan", "window", 40000, 2000000, shards=2, accept=r"gui:" + CRASH),
    J("h_gui", "o2", "window", 200000, 10000000, accept=r"gui:" + CRASH),
  ], rule="the real window manager on recording stand-ins for GLFW, OpenGL, ImGui and ImPlot (none installed here) in which every call checks what it needs and every object is counted: random sizes and titles (views that are not terminated, exactly sized memory), up to 30 frames with resizes and close requests, destruction within a frame, several managers in turn, library and window made to fail. Distinct by sizes and history of frames.", technique="call-order and resource monitor on recording stand-ins, fault injection, AddressSanitizer and UBSan")
check("C31", [
    J("h_cppparse", "asan", "extract", 6000, 200000, shards=3, accept=r"cpp:" + CRASH),
    J("h_cppparse", "o2", "extract", 12000, 600000, shards=2, accept=r"cpp:" + CRASH),
    J("h_cppparse", "asan", "tool", 3000, 80000, shards=2, accept=r"tool:|cpp:" + CRASH),
  ], rule="the real parser and command of the diagram tool behind a stand-in for the tree-sitter interface (its grammar is not installed): a generator writes C++ sources in the documented style together with their syntax tree (node kinds of tree-sitter-cpp): blocks at namespace or function level, plain or template types, parentheses or braces, every way the examples spell runners and flowgraphs, comments anywhere between tokens, decoys (block-like text in comments and strings, other declarations and calls). Blocks with type, parameters, place, channels and membership, and every connection, compared with the model; several files through one parser, files that fail to parse; the command with several files, relative and absolute, unreadable ones, its options, exit status and the files it writes. Distinct by source text.", technique="exact comparison of extracted graphs with generated programs, AddressSanitizer and UBSan")
BINS["h_lib"] = dict(src=["harness/h_lib.cpp"], inc=["include", "desktop_blocks"], flags=["-isystem", "/usr/include/liquid"], libs=["-lliquid"])
check("C37", [
    J("h_lib", "tsan", "lib", 60, 2000, shards=4, weight=2, accept=r"lib:" + CRASH),
    J("h_lib", "asan", "lib", 60, 2000, shards=3, weight=2, accept=r"lib:" + CRASH),
    J("h_lib", "o2", "lib", 240, 6000, shards=4, weight=2, accept=r"lib:" + CRASH),
  ], rule="a case is a flowgraph of two chains of library blocks run, interrupted and continued under random scheduler settings on random signals, then drained by hand; all values at all sinks are compared with those of the same chains called by hand. Non-trivial: more than 1000 values compared; distinct by the settings of the runs and how far each had come.",
  technique="differential stream monitor (running flowgraph against single-threaded calls) under ASan/UBSan, -O2 and TSan", assumptions=["the blocks called by hand are right: C15, C16, C17, C18 decide that"])
check("C38", [
    J("h_zflog", "asan", "line", 16000, 300000, shards=3, accept=r"zf:" + CRASH),
    J("h_zflog", "o2", "line", 40000, 900000, shards=2, accept=r"zf:" + CRASH),
    J("h_zflog", "asan", "stderr", 2000, 20000, accept=r"zf:" + CRASH),
    J("h_zflog", "tsan", "mt", 500, 6000, shards=3, weight=2, accept=r"zf:" + CRASH),
    J("h_zflog", "o2", "mt", 1500, 30000, weight=3, accept=r"zf:" + CRASH),
  ], rule="random log statements through every logging macro from units compiled with different levels, tags, censoring and source locations: texts, tags and prefixes of every length around the line buffer, memory regions of every size and width, every output mask, level and clock reading, an output that scribbles over the text it was handed, standard error, and threads logging at times of their own; every line compared with one built independently. Distinct by statements and lines.", technique="differential oracle on every line handed to the output, AddressSanitizer on buffer and dumped region, ThreadSanitizer")
