import os
VERIF_DIR = os.path.dirname(os.path.abspath(__file__))
# Which binaries decide which property.
FLOAT_SRC = ["emp-tool/circuits/float32_%s.cpp" % f for f in "add cos div eq exp exp2 le leq ln log2 mul sin sq sqrt sub".split()]
BASE_FLAGS = ["-std=c++17", "-O2", "-g1", "-w", "-march=x86-64-v3", "-maes", "-mpclmul", "-mrdseed", "-msse4.1", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-pthread", "-fsanitize-coverage=trace-pc"]
WRAPS = """socket setsockopt getsockopt bind listen accept accept4 connect shutdown getsockname getpeername close read write recv send recvfrom sendto
readv writev sendmsg recvmsg poll select fcntl fcntl64 ioctl fstat fstat64 stat access dup dup2 lseek lseek64 fsync fdatasync ftruncate unlink remove rename open open64
fopen fopen64 fdopen fclose fileno getrandom getentropy exit _exit abort __assert_fail usleep sleep nanosleep clock_nanosleep clock_gettime gettimeofday time signal
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
pthread_cond_signal pthread_cond_broadcast pthread_cond_destroy pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_create pthread_join pthread_detach sched_yield syscall __read_chk __recv_chk __open_2 __open64_2 arc4random arc4random_buf pread pread64 pwrite pwrite64 dup3 __cxa_throw __cxa_rethrow""".split()
SMALL = {"NETWORK_BUFFER_SIZE": "1024*8", "NETWORK_BUFFER_SIZE2": "1024"}
ASAN = dict(flags=["-fsanitize=address", "-fno-omit-frame-pointer"], ldflags=["-fsanitize=address"])
NETREAL = ["all emp-tool channel code", "glibc stdio (buffering, stream state)", "libstdc++"]
NETSTUB = ["kernel TCP/sockets (simulated: per-direction FIFO byte streams with finite buffers, latency, segmentation, stalls, FIN/RST)", "scheduler, clock, sleep (simulated)"]
NETASSUME = ["TCP delivers bytes in order; loss, duplication and reordering below TCP appear only as delay, segmentation and resets",
             "the simulated socket layer follows Linux semantics for FIN, RST, EPIPE/SIGPIPE and listen backlogs", "the seeded search samples schedules and faults; it does not enumerate them"]
def HUGE(prop, ch):
    return dict(name="huge", src=["huge.cpp"], flags=["-DHUGE_PROP=\"%s\"" % prop, "-DHUGE_CH=%d" % ch], share=0, runs=1, dup=0, what="single messages of 2 GiB and 4 GiB (lengths beyond int and 32 bits)")
PROPS = {}
PROPS["C01"] = dict(src=["c01.cpp"], emp=False, variants=[
    dict(name="stock", share=3, what="shipped constants"),
    dict(name="smallbuf", overlay=SMALL, share=2, what="stream buffer 8 KiB so that buffer boundaries are crossed often"), HUGE("C01", 1)],
    rule="Random two-party conversations (up to 25 messages; half duplex, one way, or with sends moved ahead of receives) on a random network and schedule; non-trivial: at least one payload byte is transferred.",
    real=NETREAL, stub=NETSTUB, assume=NETASSUME)
PROPS["C02"] = dict(src=["c02.cpp"], emp=False, variants=[
    dict(name="stock", share=3, what="shipped constants"),
    dict(name="smallbuf", overlay=SMALL, share=3, what="frame 1 KiB, stream buffer 8 KiB"), HUGE("C02", 2)],
    rule="Random mirrored conversations (up to 25 messages, both directions, mirrored flushes, sizes biased to the frame size) on a random network and schedule; non-trivial: at least one payload byte is transferred.",
    real=NETREAL, stub=NETSTUB, assume=NETASSUME)
PROPS["C03"] = dict(src=["c03.cpp"], emp=False, variants=[
    dict(name="mixed", xsrc=[("c03b.cpp", ["-Demp=emp_nobmi", "-mno-bmi2", "-mno-bmi"])], share=3, what="one party's code compiled with BMI2, the other's optionally without"),
    dict(name="asan", xsrc=[("c03b.cpp", ["-Demp=emp_nobmi", "-mno-bmi2", "-mno-bmi"])], share=1, what="address sanitizer", **ASAN)],
    rule="Random sequences of up to 10 typed messages (bit vectors at all 16x16 buffer placements, blocks, curve points incl. infinity, raw data, key exchanges) over NetIO, HighSpeedNetIO, MemIO and FileIO; non-trivial: at least one element is transferred.",
    real=NETREAL + ["OpenSSL EC/BN"], stub=NETSTUB + ["OpenSSL RAND (seeded)"], assume=NETASSUME)
PROPS["C06"] = dict(src=["c06.cpp"], emp=False, variants=[
    dict(name="twin", share=3, what="two executions of the same operations with different heap contents, placement, schedule and network"),
    dict(name="twin-small", overlay=SMALL, share=2, what="the same with 1 KiB frames and 8 KiB stream buffers"),
    dict(name="asan", share=2, what="address sanitizer build of the twin runs", **ASAN)],
    rule="Random programs of up to 14 channel operations (data, blocks, bits, points, flush, sync) on NetIO, HighSpeedNetIO, MemIO, FileIO, each executed twice under different heap poison, buffer placement, schedule and network; non-trivial: at least one byte on the wire.",
    real=NETREAL, stub=NETSTUB + ["heap contents of fresh allocations (poisoned by the simulator)"], assume=NETASSUME)
PROPS["C04"] = dict(src=["c04.cpp"], emp=False, variants=[dict(name="stock", what="shipped constants", overlay={"NETWORK_BUFFER_SIZE": "1024*64"}, share=3), dict(name="asan", share=1, what="address sanitizer", **ASAN)],
    rule="Random sets of up to 9 channels in 3 rounds (sequential or one thread each, same or fresh ports), random start delays and transient connect/accept/socket failures, unrelated descriptors opened concurrently; plus bad ports and unobtainable ports; every run is non-trivial.",
    real=NETREAL, stub=NETSTUB, assume=NETASSUME + ["accept() interrupted by EINTR or ECONNABORTED counts as transient; any other accept error as permanent"])
PROPS["C05"] = dict(src=["c05.cpp"], emp=False, variants=[
    dict(name="stock", share=3, what="shipped constants"),
    dict(name="smallbuf", overlay=SMALL, share=3, what="frame 1 KiB, stream buffer 8 KiB: more writes, hence more fault points")],
    rule="Random conversations over NetIO/HighSpeedNetIO with the peer killed at a random step, the connection(s) reset at a random step, a peer that closes after a prefix of its program, or interrupted reads, with SIGPIPE default or ignored; non-trivial: the fault took effect.",
    real=NETREAL, stub=NETSTUB, assume=NETASSUME + ["a silent partition without FIN or RST is not a detectable fault and is not injected"])
DISKSTUB = ["file system and disk (simulated: byte-accurate files, page-cache semantics, capacity, short transfers, errors on any operation)"]
DISKREAL = ["FileIO", "glibc stdio (buffering, seeking)", "libstdc++"]
PROPS["C07"] = dict(src=["c07.cpp"], emp=False, variants=[dict(name="stock", share=3, what="shipped constants"), dict(name="asan", share=1, what="address sanitizer", **ASAN), HUGE("C07", 3)],
    rule="Random histories of up to 4 sessions (create/open, write, read, flush, rewind, close) against a byte-accurate file model with short transfers, full disk, failing operations, missing or short files and a kill at a random step; non-trivial: something was written or a file existed.",
    real=DISKREAL, stub=DISKSTUB, assume=["the simulated disk follows POSIX file semantics; power failure (loss of the page cache) is out of scope, process death is in scope", "the seeded search samples histories; it does not enumerate them"])
PROPS["C08"] = dict(src=["c08.cpp"], emp=False, variants=[dict(name="stock", share=2, what="plain build"), dict(name="asan", share=2, what="address sanitizer: heap validity after failures", **ASAN), HUGE("C08", 4)],
    rule="Random histories of up to 20 operations (write, read, clear, load from file, over-read, allocation failures) against a reference FIFO; non-trivial: at least one write or load.",
    real=["MemIO", "FileIO", "glibc stdio", "libstdc++"], stub=DISKSTUB + ["heap: allocation failures injected at operator new"], assume=["allocation failure surfaces as std::bad_alloc from operator new", "the seeded search samples histories; it does not enumerate them"])
GCREAL = ["Bit/Integer/Float/sort/circuit-file code", "garbler and evaluator", "PRG and hashes", "all channel code", "glibc stdio"]
GCSTUB = NETSTUB + DISKSTUB + ["oblivious transfer and output decoding (ideal functionality, or derandomised precomputed OT over the real channel)", "system entropy (seeded)"]
GCRULE = "Random typed programs (bits, integers of width 1-128, floats, sorting, circuit files; private inputs of both parties, public inputs; intermediate reveals, 1-3 sessions with exchanged roles) executed by garbler and evaluator over NetIO, HighSpeedNetIO, MemIO or FileIO and compared with an independent interpreter; non-trivial: at least one AND gate and one reveal."
PROPS["C09"] = dict(src=["c09.cpp"], float=True, aes_txt=True, keccak=True, variants=[dict(name="stock", share=1, what="shipped constants"), dict(name="smallbuf", overlay=SMALL, share=1, what="1 KiB frames, 8 KiB stream buffers")], rule=GCRULE, real=GCREAL, stub=GCSTUB, assume=NETASSUME + ["float reference: the plaintext back end, itself compared with IEEE arithmetic within rounding"], quick_s=30)
PROPS["C10"] = dict(src=["c10.cpp"], float=True, aes_txt=True, keccak=True, variants=PROPS["C09"]["variants"], rule=GCRULE, real=GCREAL, stub=GCSTUB, assume=PROPS["C09"]["assume"], quick_s=30)
PROPS["C11"] = dict(src=["c11.cpp"], float=True, aes_txt=True, variants=[dict(name="stock", share=1, what="shipped constants"), dict(name="smallbuf", overlay=SMALL, share=1, what="1 KiB frames, 8 KiB stream buffers")],
    rule="Random typed programs (1-3 sessions, both schemes, NetIO/HighSpeedNetIO/MemIO), each executed twice with different private inputs, randomness, schedule and network; every gate and every transfer is observed; non-trivial: at least one AND gate.", real=GCREAL, stub=GCSTUB, assume=NETASSUME)
PROPS["C19"] = dict(src=["c19.cpp"], float=True, aes_txt=True, variants=[dict(name="stock", share=1, what="shipped constants"), dict(name="smallbuf", overlay=SMALL, share=1, what="1 KiB frames, 8 KiB stream buffers: more transfers, hence more fault points")],
    rule="Random typed programs (1-2 sessions, both schemes, exchanged roles) over NetIO, HighSpeedNetIO, MemIO or FileIO with one failure: a party killed or exiting at a random point, connection(s) reset at a random step, disk full, write or read errors, a stored session cut at a random byte, a failing allocation, an evaluator of a stored session that dies and starts again; every revealed value is compared at once; non-trivial: the failure took effect and the program has AND gates.", real=GCREAL, stub=GCSTUB, assume=NETASSUME + ["fail-stop faults: bytes are lost, never altered (the channel is not authenticated)"])
PROPS["C12"] = dict(src=["c12.cpp"], float=True, aes_txt=True, variants=[dict(name="stock", share=1, what="shipped constants")],
    rule="Random programs in 1-4 sessions per run (both schemes, exchanged roles, NetIO/HighSpeedNetIO/MemIO, optionally fast-forwarded gate counters, optionally a second real process); every table, row and label of every AND gate is recomputed with OpenSSL AES; non-trivial: at least one AND gate.", real=GCREAL, stub=GCSTUB, assume=NETASSUME + ["reference: half-gates with per-gate re-keyed AES (start point xor gate index) and the fixed-key privacy-free construction, written independently on OpenSSL"])
PROPS["C13"] = dict(src=["c13.cpp"], emp=False, variants=[dict(name="urandom", share=2, what="default configuration: operating system entropy"), dict(name="rdseed", share=1, flags=["-DENABLE_RDSEED", "-include", VERIF_DIR + "/scen/rdseed_seam.h"], what="ENABLE_RDSEED configuration, CPU instruction replaced by the simulator")],
    rule="Up to 16 unseeded generators created by several processes and threads under an entropy source that works, fails to open, fails or ends at a random byte, is interrupted, returns short or stuck values; single bits of the entropy are flipped and the same schedule repeated; every run is non-trivial.",
    real=["PRG, AES", "std::random_device (libstdc++)"], stub=["/dev/urandom, getrandom, getentropy, RDSEED (seeded, fault-injecting)", "scheduler and threads"], assume=["the entropy source of the simulator stands for the operating system's; its quality when it reports success is not questioned, except stuck RDSEED values"])
PROPS["C14"] = dict(src=["c14.cpp"], emp=False, variants=[dict(name="stock", share=2, what="plain build"), dict(name="asan", share=1, what="address sanitizer", **ASAN)],
    rule="Two parties agree on 1-3 seeds over a simulated connection and issue the same random sequence of up to 30 requests (blocks, bytes, unaligned bytes, bits, words, reseeding, fast-forwarded counters) into buffers at independent placements; all outputs are compared between the parties and with an OpenSSL AES-CTR reference; non-trivial: at least one byte drawn.",
    real=["PRG, AES", "NetIO", "glibc stdio", "libstdc++ distributions"], stub=NETSTUB, assume=NETASSUME + ["a request may skip blocks of the stream but never reuse one"])
PROPS["C20"] = dict(src=["c20.cpp"], float=True, aes_txt=True, keccak=True, variants=[dict(name="stock", share=1, what="default build, heap ledger", heap=True), dict(name="mt", share=1, heap=True, flags=["-DTHREADING"], what="multi-threaded build with protocol sessions, heap ledger")],
    rule="0-3 jobs per run (the job kinds of C16) and 0-3 less usual histories (rejected ports, tasks that throw, pools destroyed with a queue, failing allocations, reloaded circuits and channels, copied points and numbers) repeated 7-9 times in one process, at the same time or one after the other, with transient connection failures; descriptors, streams and threads must be as before after every round, and memory made in a round must not survive the next in three rounds or more; every run is non-trivial.",
    real=["all library objects", "libstdc++ threads, streams", "glibc stdio and malloc", "OpenSSL"], stub=NETSTUB + DISKSTUB + ["oblivious transfer (precomputed, derandomised over the real channel)", "OpenSSL RAND, system entropy (seeded)"], assume=["memory kept once (caches, lazily created statics) is not accumulation: a leak shows in at least three rounds"], quick_s=24)
PROPS["C17"] = dict(src=["c17.cpp"], emp=False, variants=[dict(name="stock", share=2, what="plain build"), dict(name="asan", share=1, what="address sanitizer", **ASAN), HUGE("C17", 5)],
    rule="Two parties exchange up to 24 messages over a simulated connection and feed the transcript into 1-2 hash objects, each cut into pieces of its own (sizes biased to the 8192-byte buffer), with digests and resets in between; compared with one-shot OpenSSL SHA-256; non-trivial: at least one byte hashed.",
    real=["Hash", "OpenSSL SHA-256", "NetIO", "glibc stdio"], stub=NETSTUB, assume=NETASSUME)
PROPS["C18"] = dict(src=["c18.cpp"], float=True, aes_txt=True, variants=[dict(name="stock", share=3, what="shipped constants"), dict(name="asan", share=2, what="address sanitizer: memory touched by damaged circuits", **ASAN)],
    rule="Random programs recorded by the plaintext back end (all inputs first) into a simulated disk with short transfers, or with a full disk, failing writes or the recorder killed at a random step; random circuits written in both formats; the eight circuits shipped with the library (against OpenSSL AES, SHA-1, SHA-256); intact files are parsed and evaluated independently, loaded in every way and run in the clear or under half-gates on several inputs; missing, empty, truncated, unreadable files and unknown gate types must be refused; non-trivial: at least one output or a fault.",
    real=["plaintext back end and recorder", "BristolFormat/BristolFashion", "Integer/Bit/Float", "half-gates", "glibc stdio, libstdc++ streams"], stub=DISKSTUB + NETSTUB, assume=["the recorded program feeds all private inputs before its first gate, first party first", "a damaged file that still describes the same function may be accepted"])
TSAN = dict(flags=["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"], tsanrt=True, wraps="""__cxa_guard_acquire __cxa_guard_release memcpy memset memmove malloc calloc realloc aligned_alloc
EVP_MD_CTX_new EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex EVP_MD_CTX_free EVP_CIPHER_CTX_new EVP_EncryptInit_ex EVP_EncryptUpdate EVP_EncryptFinal_ex EVP_CIPHER_CTX_free
BN_new BN_free BN_CTX_new BN_CTX_free BN_copy BN_num_bits BN_bn2bin BN_bin2bn BN_add BN_sub BN_mul BN_mod_mul BN_mod_add BN_div BN_nnmod BN_rand_range
EC_GROUP_new_by_curve_name EC_GROUP_free EC_GROUP_get_order EC_POINT_new EC_POINT_free EC_POINT_copy EC_POINT_add EC_POINT_mul EC_POINT_invert EC_POINT_cmp EC_POINT_point2oct EC_POINT_oct2point
setvbuf fread fwrite fflush fscanf __isoc99_fscanf __isoc23_fscanf snprintf sprintf strcpy strncpy memcmp strtok localtime gmtime ctime asctime gethostbyname inet_ntoa drand48 lrand48""".split())
PROPS["C15"] = dict(src=["c15.cpp"], emp=False, variants=[dict(name="race", share=4, what="every memory access is a preemption point; vector-clock race detection", **TSAN), dict(name="sync", share=2, what="preemption at synchronisation operations"), dict(name="asan", share=1, what="address sanitizer", **ASAN)],
    rule="Random pools (1-2, up to 7 workers), up to 4 submitting threads, up to 25 tasks (values, strings, exceptions, nested submissions, groups that need to run at the same time, sleeps), futures read early or late, spurious wake-ups, failing allocations, destruction while tasks are queued or submitting; every run is non-trivial.",
    real=["ThreadPool", "libstdc++ threads, futures, condition variables"], stub=["scheduler, mutexes, condition variables, futexes, thread creation (simulated)", "clock"], assume=["sequentially consistent execution; weaker memory orders are covered through the happens-before race detector", "no submission races with the end of the destructor from outside the pool"])
PROPS["C16"] = dict(src=["c16.cpp"], float=True, aes_txt=True, variants=[dict(name="race", share=4, what="default build; every memory access is a preemption point; vector-clock race detection", **TSAN), dict(name="race-mt", share=4, what="multi-threaded build (THREADING) with one protocol session per thread; the same detector", flags=TSAN["flags"] + ["-DTHREADING"], tsanrt=True, wraps=TSAN["wraps"]), dict(name="mt", share=1, flags=["-DTHREADING"], what="multi-threaded build, preemption at synchronisation and I/O")],
    rule="2-5 jobs per run (generators, hashes, groups, channels of all kinds, cipher and field objects, conversions, circuit files, thread pools, plaintext programs, and in the multi-threaded build garbled sessions), objects optionally moving between threads; every job is first run alone and then concurrently with the others; results, recorded files and counters must agree and no two threads may race; every run is non-trivial.",
    real=["all library objects", "libstdc++ threads, streams", "OpenSSL"], stub=NETSTUB + DISKSTUB + ["oblivious transfer (precomputed, derandomised over the real channel)", "OpenSSL RAND, system entropy (seeded)"], assume=["sequentially consistent execution plus happens-before race detection; OpenSSL and libstdc++ internals are trusted to be thread-safe and are not instrumented", "in the default build the current back end is one per process, so at most one thread runs a protocol there"], quick_s=36)
