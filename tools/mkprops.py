import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The TCP channel is an exact, ordered, deadlock-free byte stream",
 "Bytes sent on a network channel arrive at the peer exactly once, in order and unaltered, whatever the sizes and the pattern of sends, receives, flushes and direction changes of the two parties (including messages sent ahead while the peer is still sending) and however the network segments, delays or stalls the traffic. A conversation in which every awaited byte is eventually sent, and data sent ahead of the peer fits the network buffers, always completes: buffered data is pushed out before a party waits for an answer, on an explicit flush, and when the channel is closed. The channel's byte counter equals the number of payload bytes its owner sent.",
 ["schedules","histories","inputs","fault_sequences"],"every conversation of two parties (message sizes 0 bytes to beyond 4 GiB, half duplex, pipelined and one-way), every segmentation, latency, stall and short transfer of the network, every scheduling of the two processes",
 "test/netio.cpp plays one ping-pong of power-of-two sizes over an idle loopback; it never has data of both directions in flight, never sees a short transfer and never checks payload bytes",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/io_channel.h"],
 [("flush-before-receive via has_sent","net_io_channel.h recv_data_internal"),("user buffering of NETWORK_BUFFER_SIZE","net_io_channel.h constructor"),("retry loop on partial transfer","send_data_internal/recv_data_internal"),("flush in destructor","~NetIO")],
 [("has_sent","unflushed data pending","NetIO"),("counter","bytes sent","IOChannel")],["send_data/recv_data/flush/sync of both parties; the simulated wire"])
p("C02","The dual-socket high-speed channel is an exact, ordered byte stream",
 "On the two-connection high-speed channel, when both parties issue the same sequence of messages in opposite roles and place explicit flushes at the same points, every byte arrives exactly once, in order and unaltered, whatever the message sizes relative to the internal frame size, the number of direction changes and the network behaviour. Such a conversation always completes, and the channel's byte counter equals the payload bytes its owner sent.",
 ["schedules","histories","inputs","fault_sequences"],"every mirrored conversation (sizes around and across the frame and stream buffer sizes, rounds in either direction, mirrored flushes), every network segmentation/latency/stall and every scheduling of the two processes",
 "test/netio.cpp uses only power-of-two messages that divide the frame size, so padding, re-framing and mixed buffered/bypass paths are barely reached",
 ["emp-tool/io/highspeed_net_io_channel.h"],
 [("frame padding on flush","SenderSubChannel::flush"),("frame buffer with large-message bypass","SenderSubChannel::send_data"),("frame-wise refill","RecverSubChannel::recv_data"),("direction state machine","HighSpeedNetIO::send_data_internal/recv_data_internal")],
 [("FSM","0 idle, 1 receiving, 2 sending","HighSpeedNetIO"),("ptr/counter","frame position","SubChannel")],["send_data/recv_data/flush of both parties"])
p("C03","Typed messages decode to what was sent, independent of peer and placement",
 "Blocks, bit vectors and elliptic-curve points sent over any channel decode at the receiver to the values sent, independent of where either party's buffers lie in memory, of the vector length, of how the transfer is split into calls with the same element counts, and of which CPU features each party was built with. Two parties that exchange public shares derive equal key-exchange points and equal derived keys, and messages that follow a typed message are not disturbed.",
 ["histories","inputs","configurations","schedules"],"every sequence of typed messages, every alignment of sender and receiver buffers, builds with and without bit-gather instructions on either side, every channel and network schedule",
 "the tests send one aligned bit vector between identical builds and one point; alignments of the two sides never differ",
 ["emp-tool/io/io_channel.h","emp-tool/utils/group_openssl.h","emp-tool/utils/hash.h"],
 [("bit packing 8 per byte plus tail","send_bool_aligned/recv_bool_aligned"),("length-prefixed point encoding","send_pt/recv_pt"),("scratch buffer of the group","Group::resize_scratch"),("KDF","Hash::KDF")],None,["send_*/recv_* at both parties"])
p("C04","Connections are established correctly in any start order and cleaned up",
 "Two parties that open a channel to each other end up connected to each other on the right connection pair whatever their start order and whatever transient connection failures happen first, and an out-of-range port is rejected with an exception before any socket is used. A server whose port cannot be acquired, or whose accept fails for good, and a party whose streams cannot be set up on its sockets, terminates with a failure status instead of continuing without a connection. Every socket a channel opened is closed exactly once by the time it is destroyed, no foreign descriptor is ever closed, and several channels can be used in one process; after both parties return from a TCP-channel sync, both had entered it.",
 ["schedules","fault_sequences","histories","configurations"],"all start orders and delays, refused/reset/interrupted connects, EINTR/ECONNABORTED/EMFILE in accept, bind and listen failures, several channels per process, descriptor reuse by other code in the process",
 "the tests start both parties by script on one idle machine, never see a failed accept and never look at descriptors",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h"],
 [("connect retry loop with a fresh socket","NetIO::NetIO, client_connect"),("listening socket closed after accept","NetIO::NetIO, server_listen"),("port validation","constructors"),("destructors","~NetIO, ~HighSpeedNetIO, ~SubChannel")],None,["simulated socket layer; descriptor table at every close"])
p("C05","A lost peer or broken connection ends the program, never hangs or invents data",
 "When the peer process dies, closes early, or the connection is reset at any point, a party that needs data it can no longer get, or learns that data it sends can no longer be delivered, terminates with a failure after a bounded amount of work instead of waiting or spinning for ever. Until then every byte it hands to its caller is a byte the peer really sent, in order; data is never fabricated, repeated or skipped because of the failure. (An orderly close of the dual-socket channel counts as a flush, which both parties place at the same point.)",
 ["crash_points","fault_sequences","schedules","histories"],"every crash point, FIN or RST at every byte position of the conversation, on both channel types, with SIGPIPE at its default and ignored, combined with network delays, short transfers and interrupted system calls",
 "the tests never kill a peer or reset a connection",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h","emp-tool/utils/utils.hpp"],
 [("error exit on zero-length transfer","NetIO::send_data_internal/recv_data_internal"),("raw transfer loops","SenderSubChannel::send_data_raw, RecverSubChannel::recv_data_raw"),("error() exits with status 1","utils.hpp")],None,["process exit status, work done after the fault, bytes returned by receives"])
p("C06","The wire carries only what was sent: no stray process memory reaches the peer",
 "The byte sequence a channel puts on the wire is determined by the sequence of channel operations and the data passed to them, and by nothing else: uninitialised memory, unrelated heap contents, buffer addresses and timing never influence it. No channel operation reads memory outside the buffers it was given and its own.",
 ["histories","inputs","schedules","fault_sequences"],"every conversation on every channel type, every prior content and layout of the heap, every network schedule",
 "a leak of adjacent heap bytes as padding is invisible to any test that only checks received payloads",
 ["emp-tool/io/highspeed_net_io_channel.h","emp-tool/io/net_io_channel.h","emp-tool/io/io_channel.h"],
 [("padding of the last frame","SenderSubChannel::flush"),("packed bit tail","send_bool_aligned"),("4-byte point length","send_pt")],None,["bytes written to the simulated sockets under twin runs with different heap poison"])
p("C07","The file channel stores and returns exactly what was written, or fails loudly",
 "Data written to a file channel is read back exactly and in order, after a rewind of the same channel or after closing and reopening, whatever the sizes and however the disk splits transfers, and a re-created file holds nothing of its previous content. After a successful flush or close the operating system holds every byte, so the data survives the death of the process. If the disk is full, a transfer fails, the file is missing or too short, the program terminates with a failure rather than spinning, crashing on a null handle, or reporting success while data is lost.",
 ["histories","fault_sequences","crash_points","inputs"],"every sequence of writes, flushes, rewinds, reads and reopens; short transfers, EINTR, ENOSPC, EIO at any operation; process kill at any point; missing and truncated files",
 "no test writes more than a few blocks to a file channel and none injects a disk error, kills the writer or reads past the end",
 ["emp-tool/io/file_io_channel.h"],
 [("buffered stream with retry loops","FileIO::send_data_internal/recv_data_internal"),("rewind","FileIO::reset"),("flush and close","FileIO::flush, ~FileIO")],None,["simulated disk content and process outcome"])
p("C08","The in-memory channel is an exact FIFO across growth, clearing and reload",
 "Reads from an in-memory channel return the bytes written to it in order, across any number of buffer growths, after clearing, and after loading its content from a file channel, and clearing makes it behave as a fresh channel. Reading more than is available terminates with a failure instead of returning bytes that were never written. If memory cannot be allocated the error surfaces as an exception and the channel, its content and the heap remain valid.",
 ["histories","inputs","fault_sequences"],"every interleaving of writes, reads, clears and reloads at every capacity, with an allocation failure at any growth and disk faults during a reload",
 "test/memio.cpp grows the buffer once and never clears after reading, underruns or fails an allocation",
 ["emp-tool/io/mem_io_channel.h","emp-tool/io/file_io_channel.h"],
 [("doubling growth","MemIO::send_data_internal"),("read cursor","MemIO::recv_data_internal"),("reload","MemIO::load_from_file"),("clear","MemIO::clear")],[("size/read_pos/cap","content and cursor","MemIO")],["bytes returned, process outcome, allocator state"])
p("C09","Half-gates computation reveals exactly the plaintext result of any program",
 "For every program over secret bits, integers, floats and circuit files, and every assignment of inputs to the two parties, running it as garbler and evaluator with the half-gates scheme reveals to both the same result as computing it in the clear. This holds on every channel type and under every network schedule, for any number of gates and any mixture of private and public inputs.",
 ["programs","inputs","schedules","configurations"],"randomly generated typed programs (logic, arithmetic, comparison, shift, select, sort, float, built-in circuit files, in-circuit AES), all inputs, network, file and memory channels, all network schedules",
 "test/garble.cpp garbles a handful of AND/XOR batches on loopback; integer, float and circuit-file code is only tested on the plaintext backend",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/halfgate_eva.h","emp-tool/utils/mitccrh.h","emp-tool/circuits/integer.hpp","emp-tool/circuits/bit.hpp","emp-tool/circuits/circuit_file.h","emp-tool/circuits/float32.hpp","emp-tool/circuits/number.h"],
 [("garbling and evaluation of one AND","halfgates_garble/halfgates_eval"),("tweak key schedule in batches","MITCCRH::hash_cir"),("circuit builders","integer.hpp, float32_*.cpp, number.h"),("circuit-file interpreter","execute_circuit, Bristol*::compute")],None,["values revealed at both parties"])
p("C10","Privacy-free computation reveals exactly the plaintext result of any program",
 "For every program over secret values and every assignment of inputs, running it as garbler and evaluator with the privacy-free scheme reveals to both parties the same result as computing it in the clear. This holds on every channel type and under every network schedule, for any number of gates and any mixture of private and public inputs.",
 ["programs","inputs","schedules","configurations"],"as for half-gates, with the privacy-free generator and evaluator",
 "test/garble.cpp garbles only a batch of ANDs with this scheme",
 ["emp-tool/gc/privacy_free_gen.h","emp-tool/gc/privacy_free_eva.h"],
 [("garbling and evaluation of one AND","privacy_free_garble/privacy_free_eval"),("permutation-bit convention of labels","*((char*)&H) |= / &="),("gate counter tweak","gid")],None,["values revealed at both parties"])
p("C11","Garbling traffic is input-oblivious and costs exactly the published amount",
 "Garbling sends exactly two blocks per AND gate with half-gates and one with the privacy-free scheme, and nothing for XOR and NOT gates; the evaluator sends nothing for gates. For a fixed program the number, size and direction of transfers never depend on either party's input values. The AND-gate count reported by generator and evaluator is exact and equal at both parties after every operation.",
 ["programs","inputs","histories"],"random programs, each executed with several input assignments, gate counts at every residue of the internal batch size",
 "no test counts bytes per gate, compares traffic across inputs, or queries the gate count off a batch boundary",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/halfgate_eva.h","emp-tool/gc/privacy_free_gen.h","emp-tool/gc/privacy_free_eva.h","emp-tool/circuits/integer.hpp"],
 [("per-gate table transfer","and_gate"),("num_and","num_and of the four classes"),("free XOR/NOT","xor_gate, not_gate")],None,["channel counter and num_and after every operation; wire log"])
p("C12","Garbled material follows the published scheme and is fresh in every session",
 "The tables and labels on the wire are those of the published half-gates construction (respectively the privacy-free construction) for the session's own secret offset, hash start point and gate index: every AND gate uses hash tweaks used by no other gate of the session, in generator and evaluator alike. The secret offset has its low bit set, and offset, constant labels and start point are drawn freshly for each session, so that no two sessions, threads or processes ever share them and the offset itself never appears on the wire.",
 ["programs","histories","schedules","inputs"],"random programs and gate counts across batch boundaries, several sessions per process and concurrent sessions, under every schedule",
 "reuse of tweaks or of the offset leaves all functional tests green",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/privacy_free_gen.h","emp-tool/utils/mitccrh.h","emp-tool/utils/aes_opt.h","emp-tool/utils/prp.h"],
 [("fresh randomness per session","HalfGateGen ctor, set_delta"),("gate-indexed re-keying","MITCCRH::renew_ks"),("low bit set","set_bit in set_delta"),("tweak by gate id","privacy_free_garble")],[("gid/key_used","tweak position","MITCCRH")],["wire bytes against an independent implementation of the construction"])
p("C13","Every unseeded generator starts from at least 128 fresh bits of system entropy",
 "A pseudo-random generator created without a seed depends on at least 128 bits read from the operating system's (or CPU's) entropy source for that very object: flipping any of these bits changes its output, no entropy is shared between objects, threads or processes, and its key never becomes constant or guessable. If the entropy source fails, returns short or stuck values, or is interrupted, construction retries or fails visibly; it never yields a generator with a weaker seed.",
 ["fault_sequences","schedules","histories","configurations"],"all contents of the entropy source, short reads, EINTR, EOF, missing device, failing or stuck hardware generator, any number of generators across threads",
 "tests cannot control the entropy source and cannot see a weak seed",
 ["emp-tool/utils/prg.h"],
 [("128-bit seed from the OS","PRG::PRG, random_device branch"),("retry and stuck-value filter","PRG::PRG, RDSEED branch")],None,["entropy bytes consumed per object versus generator key and output"])
p("C14","Parties with equal seeds draw equal pseudo-random streams",
 "Two parties that seed a generator with the same seed and stream id and request the same sequence of items obtain the same values, regardless of where their buffers lie in memory, and different ids give unrelated streams. The stream is that of AES-128 in counter mode under the seed: it never repeats a block within a generator's life, and reseeding restarts it exactly, for every kind of request. Nothing outside the requested buffer is written.",
 ["histories","inputs","configurations","schedules"],"every sequence of block, byte, unaligned-byte, bit, integer and reseed requests, every buffer alignment at either party, values exchanged and compared over the simulated network",
 "test/prg.cpp compares one request per generator at fixed alignment within a process",
 ["emp-tool/utils/prg.h"],
 [("counter mode","PRG::random_block"),("tail and alignment handling","random_data, random_data_unaligned"),("URBG buffer","operator()"),("reseed","PRG::reseed")],[("counter","next block","PRG"),("ptr/buffer","URBG cache","PRG")],["values drawn by both parties"])
p("C15","The thread pool runs each task exactly once and always drains",
 "Every task accepted by a pool of one or more workers runs exactly once on one of its workers, and its future delivers that task's own result or exception, under every interleaving of submitters, workers and the destructor. Destroying the pool first runs all tasks accepted so far and then returns, with no worker left and no data race; up to n tasks of an n-worker pool can be running at once and no accepted task waits for ever while a worker is idle. If memory runs out or the pool is stopping, submission fails with an exception and the pool stays usable. If not all workers can be started, construction fails with an exception and leaves no worker behind.",
 ["schedules","fault_sequences","histories"],"every interleaving of worker, submitter and destructor threads at memory-access granularity, spurious wake-ups, tasks that block, throw, sleep or submit further tasks, allocation failure at any allocation",
 "test/threadpool.cpp runs one schedule of a few independent tasks",
 ["emp-tool/utils/ThreadPool.h"],
 [("mutex-protected queue with condition variable","ThreadPool::enqueue, worker loop"),("stop flag and join","~ThreadPool"),("packaged_task/future","enqueue")],[("tasks/stop","queue and shutdown flag","ThreadPool")],["task start/finish log, futures, race detector"])
p("C16","Objects used by different threads never interfere",
 "Distinct channels, generators, hashes, groups, circuits and (in the multi-threaded build) protocol sessions used by different threads of one process behave exactly as if each were used alone: no data race, no shared hidden state, under every interleaving. In the multi-threaded build each thread sees only its own current protocol and circuit backend.",
 ["schedules","programs","configurations"],"every interleaving at memory-access granularity of threads that each run complete two-party sessions and utility calls",
 "the tests are single-threaded except one pool test and never build the multi-threaded configuration",
 ["emp-tool/emp-tool.cpp","emp-tool/execution/circuit_execution.h","emp-tool/execution/protocol_execution.h","emp-tool/utils","emp-tool/io"],
 [("thread-local backend pointers under THREADING","circuit_execution.h, protocol_execution.h, emp-tool.cpp"),("per-object state everywhere else","utils/*.h")],None,["per-thread results versus solo execution; happens-before race detector"])
p("C17","A transcript hash depends only on the bytes hashed, not on how they are fed",
 "The digest equals SHA-256 of the concatenation of everything fed since creation, the last digest or the last reset, however the bytes are split into calls of whatever sizes. Two parties that feed the same transcript of sent and received messages therefore obtain the same digest even when each feeds it in different pieces, and an object reused after a digest or reset behaves like a new one.",
 ["histories","inputs","schedules"],"every segmentation of every transcript around and across the internal buffer size, digest/reset reuse, two parties hashing a conversation as their network schedule delivers it",
 "test/hash.cpp hashes each input in one call",
 ["emp-tool/utils/hash.h"],
 [("accumulation buffer with large-input bypass","Hash::put"),("final flush","Hash::digest"),("reset","Hash::reset")],[("size/buffer","bytes not yet absorbed","Hash")],["digests at both parties against a one-shot SHA-256"])
p("C18","A stored circuit computes the same function when loaded, or is refused",
 "A program that feeds its private inputs before computing (the first party's before the second party's) and is recorded by the plaintext backend into a circuit file computes, when loaded and run with any backend, exactly the outputs the recorded program revealed, for every input and including outputs that are public constants, and its header states the true gate, wire, input and output counts, and the AND-gate count the backend reports is the file's. Circuits in either Bristol format and their generated-source form compute what the text says, also when the outputs overwrite the array that held the inputs. The circuits shipped with the library compute the functions they are named after. Loading a missing, empty, unreadable, truncated or otherwise incomplete circuit file, one with gate types that are not supported, or one whose gates name wires that do not exist, ends with a visible failure instead of silently running a different circuit or touching memory outside the circuit. Short disk transfers do not change the file written or the circuit loaded.",
 ["programs","inputs","crash_points","fault_sequences"],"random recorded programs, every input, files cut at every byte position or lost pages after a crash of the writer, short reads during load, both file formats and the generated-source form",
 "test/circuit_file.cpp generates one sorting circuit and never reloads a damaged file",
 ["emp-tool/circuits/circuit_file.h","emp-tool/execution/plain_circ.h","emp-tool/execution/plain_prot.h"],
 [("gate recorder","PlainCircExec and/xor/not_gate"),("output remapping and header","finalize_plain_prot, PlainProt::finalize"),("loaders","BristolFormat::from_file, BristolFashion::from_file"),("interpreters","compute, execute_circuit")],None,["file bytes on the simulated disk, values computed after reload"])
p("C19","An interrupted computation never reveals a wrong value",
 "When a two-party computation is cut short by any fail-stop failure - a party killed or exiting at any point, a connection reset, a full or failing disk under a stored session, a stored session that was cut off, an allocation that fails - every value revealed to a party before the end is the value the program computes in the clear. Each party then terminates after a bounded amount of work, and a party that ends successfully has obtained all of its outputs. Evaluating an intact stored session does not change it: an evaluator that died can be started again from the beginning and obtains all outputs.",
 ["crash_points","fault_sequences","schedules","programs"],"random programs with either garbling scheme over network, file and memory channels; one failure at any step of either party, any byte of the stored session or any allocation; every network schedule",
 "the tests never interrupt a computation; a garbled table or label replaced by stale or zero bytes after a failed transfer would decode to a plausible wrong output",
 ["emp-tool/gc/halfgate_gen.h","emp-tool/gc/halfgate_eva.h","emp-tool/gc/privacy_free_gen.h","emp-tool/gc/privacy_free_eva.h","emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h","emp-tool/io/file_io_channel.h","emp-tool/io/mem_io_channel.h","emp-tool/circuits/bit.hpp","emp-tool/circuits/integer.hpp"],
 [("failing transfer ends the program","recv_data_internal/send_data_internal of every channel"),("labels and tables read from the channel","and_gate of the evaluators, constructors"),("reveal of values","Bit::reveal, Integer::reveal, Float::reveal")],None,["values revealed so far at both parties; process outcome"])
p("C20","A process that repeats its work does not accumulate resources",
 "Every channel, generator, hash, group element, circuit, integer, thread pool and protocol session gives back, by the end of its life, all memory, descriptors, streams and threads it acquired, whatever was done with it: growth, reloading, copying of points and numbers, hand-over between threads, transient connection failures, rejected ports, tasks that throw, in-memory growth that fails. Repeating the same work any number of times, under any schedule, leaves the process with the resources it had before.",
 ["histories","schedules","fault_sequences"],"random sets of jobs over all objects of the library, repeated 7-9 times in one process, concurrently or one after the other, with transient connection failures and failing allocations",
 "the tests create each object once and exit; the system then hides whatever was not given back",
 ["emp-tool/io/net_io_channel.h","emp-tool/io/highspeed_net_io_channel.h","emp-tool/io/file_io_channel.h","emp-tool/io/mem_io_channel.h","emp-tool/utils/group_openssl.h","emp-tool/utils/hash.h","emp-tool/utils/ThreadPool.h","emp-tool/circuits/circuit_file.h","emp-tool/circuits/integer.hpp","emp-tool/circuits/aes_128_ctr.h","emp-tool/execution/plain_prot.h"],
 [("destructors","~NetIO, ~HighSpeedNetIO, ~FileIO, ~MemIO, ~Group, ~Point, ~BigInt, ~Hash, ~ThreadPool"),("temporary buffers","Integer arithmetic and comparison, reveal, sort, compute of circuit files"),("back-end pair","finalize_plain_prot")],None,["heap blocks, descriptors, streams and threads of the process after each round"])
N=[
("N01","AES block encryption agrees with FIPS-197","The bundled AES key schedule and encryption agree with FIPS-197 for every key and plaintext, for every batch size.",["emp-tool/utils/aes.h","emp-tool/utils/aes_opt.h"]),
("N02","Field arithmetic in GF(2^128) obeys the field laws","Multiplication, inner products and packing over GF(2^128) obey the field laws for every operand.",["emp-tool/utils/f2k.h"]),
("N03","Correlation-robust hashes do not depend on batching","Hashing a list of blocks gives the same values whether hashed one by one or in batches of any size.",["emp-tool/utils/crh.h","emp-tool/utils/ccrh.h","emp-tool/utils/tccrh.h"]),
("N04","Curve and big-integer arithmetic obeys the group laws","Point addition, inversion and scalar multiplication and modular integer arithmetic obey the group and ring laws for every operand.",["emp-tool/utils/group_openssl.h"]),
("N05","Bit-matrix transposition is exact","Transposing any bit matrix of supported dimensions moves every bit to its mirrored position and touches nothing else.",["emp-tool/utils/block.h"]),
("N06","Bit/integer/block conversions round-trip","Converting between bit arrays, integers and blocks round-trips for every value and length.",["emp-tool/utils/utils.hpp"]),
("N07","Transcendental float circuits stay within their error bound","Sine, cosine, exponential and logarithm circuits stay within their documented error for every finite argument.",["emp-tool/circuits/float32_sin.cpp","emp-tool/circuits/float32_exp2.cpp"]),
("N08","Software AES-CTR matches the standard counter mode","The in-the-clear AES-CTR helper equals standard counter mode for every key, IV, length and starting chunk, including counter carry.",["emp-tool/circuits/aes_128_ctr.h"]),
]
for i,t,s,f in N:
    p(i,t,s,["inputs"],"all inputs","tests sample a few inputs; a proof or exhaustive method is needed, not schedules or faults",f,[("pure function of its arguments",f[0])])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
