#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a, _t=technique, _n=note))

DS = "deterministic simulation with fault injection: "
prop("C01", "Round trip: patching the basis with the delta gives back the new file",
  "For every basis, every new file and every accepted choice of signature arguments (format, block length, strong sum length, or defaults), the sequence signature, load signature, index, delta, patch completes with RS_DONE and the patch output is byte-for-byte the new file. This holds through the streaming, callback-driven and whole-file interfaces in any combination, for chains in which each result becomes the next basis, and for a signature reused for several deltas. The only excuse is a genuine collision of the signature's own truncated strong sums (fewer than 8 bytes).",
  ["inputs", "schedules", "configurations", "histories"], "all basis/new pairs x signature arguments x buffer schedules x interface per stage x chains of updates",
  "The tests run a few dozen fixed file pairs through rdiff with a handful of buffer sizes; they sample neither arbitrary schedules of input and output space nor crafted weak-sum collisions, zero weak sums or repeated blocks.",
  ["src/mksum.c", "src/readsums.c", "src/delta.c", "src/patch.c", "src/sumset.c", "src/hashtable.h", "src/rollsum.c", "src/rabinkarp.c", "src/emit.c", "src/tube.c", "src/scoop.c", "src/whole.c", "src/job.c"],
  [("rolling search with weak sum, hash table and strong sum", "src/delta.c, src/sumset.c"), ("command encoding and decoding", "src/emit.c, src/command.c, src/patch.c")], ["rs_job_iter", "rs_job_drive", "rs_sig_file", "rs_delta_file", "rs_patch_file"],
  DS + "seeded schedules of buffers, callbacks, clock and heap contents over the whole pipeline; end-to-end identity oracle",
  "Seeded exploration; identity of the patched file with the new file is decided exactly in each run; strong sums of 8 bytes and more are trusted not to collide by chance.")
prop("C02", "The result of a job does not depend on how its data is handed over",
  "For the same bytes, every way of splitting the input, offering output space, signalling the end of input (with or after the last data), interrupting and resuming, and every interface (streaming, callback-driven, whole-file with any buffer sizes) gives the same final result code and, on success, the same output bytes. When the job fails, one output is a prefix of the other. (A delta made without a usable signature fixes only its meaning, not how literals are cut.)",
  ["schedules", "inputs", "configurations"], "all pairs of schedules and interfaces for the same operation and bytes, valid and corrupted inputs",
  "Tests use one or a few buffer sizes per case; the space of split points crossed with the internal readahead and pending-output states is not reachable by enumeration of examples.",
  ["src/scoop.c", "src/tube.c", "src/job.c", "src/buf.c", "src/whole.c", "src/delta.c", "src/mksum.c", "src/patch.c", "src/readsums.c"],
  [("scoop readahead buffer", "src/scoop.c"), ("pending output tube", "src/tube.c"), ("resumable state functions", "src/job.c")], ["result codes and output bytes of two or three executions"],
  DS + "the same operation executed under two or three seeded schedules, interfaces and heap fills; differential oracle",
  "Seeded exploration; equality of executions is decided exactly in each run.")
prop("C03", "Signatures have exactly the documented format",
  "The signature of a file is, for every content and argument choice, exactly: big-endian magic, block length and strong sum length, then for each block in order (the last possibly short, none for an empty file) the big-endian weak sum and the leading strong-sum bytes, as defined by the rollsum or Rabin-Karp and MD4 or BLAKE2b algorithms. Arguments left at zero take the documented defaults (Rabin-Karp with BLAKE2b, 2048-byte blocks in the streaming interface, full-length strong sums; for whole files, what rs_sig_args recommends for the size, or for no known size when the input is a pipe or its size cannot be had).",
  ["inputs", "schedules", "configurations"], "all file contents and lengths x magics x block lengths x strong lengths x schedules",
  "The tests compare a few stored signatures; contents that overflow sums, block-boundary lengths and split blocks under arbitrary schedules are not sampled.",
  ["src/mksum.c", "src/rollsum.c", "src/rabinkarp.c", "src/rabinkarp.h", "src/mdfour.c", "src/blake2/blake2b-ref.c", "src/checksum.c", "src/netint.c", "src/sumset.c"],
  [("block loop of the signature job", "src/mksum.c"), ("weak and strong sums", "src/checksum.c")], ["bytes written by the signature operation"],
  DS + "seeded schedules; byte-exact comparison with an independently written reference of the format and its hash functions",
  "Seeded exploration; the reference is self-tested with published MD4 and BLAKE2b vectors at every build.")
prop("C04", "A delta describes exactly the new file, whatever signature it was made from",
  "Whatever well-formed signature a delta is computed against (matching, unrelated, random, with duplicated, permuted or altered block sums, empty, or none), the delta job succeeds, its output is one complete well-formed delta, and walking its commands along the new file covers every byte once and in order: literals carry exactly the bytes of the new file at that point, and copies name ranges made of whole signature blocks (plus at most the short last one, only where the new file allows) whose weak and strong sums are those of the bytes they stand for.",
  ["inputs", "schedules", "configurations"], "all signatures (as byte strings accepted by the loader) x new files x schedules",
  "Tests only compute deltas against signatures of related files; wrong copies caused by strange signatures, collisions, end-of-file blocks or output blocked at a particular command need inputs nobody lists.",
  ["src/delta.c", "src/sumset.c", "src/hashtable.h", "src/hashtable.c", "src/emit.c"],
  [("match confirmation by strong sum", "src/sumset.c"), ("append/flush of matches and misses", "src/delta.c")], ["the delta stream, command by command"],
  DS + "seeded schedules and adversarial signatures; every command of the delta is checked against an independent model of signature and new file",
  "Seeded exploration; each delta is checked completely.")
prop("C05", "Deltas find the matches: no more literal data than greedy block matching needs",
  "Against a signature with at least one block, a delta never carries more literal bytes than a greedy left-to-right search for signature blocks (all of them, including the short last block at the end of the new file) leaves unmatched, and its total size stays within 2% + 24 bytes of that search's commands encoded in their shortest forms with adjacent copies merged. In particular unchanged data is sent as copies, however the data is handed over and however many blocks share a weak sum.",
  ["inputs", "schedules"], "all signatures x new files x schedules",
  "Correct output does not reveal a missed match, so round-trip tests pass with an unbounded loss of compression; the tests have no size oracle.",
  ["src/delta.c", "src/sumset.c", "src/hashtable.h", "src/emit.c", "src/rollsum.h", "src/rabinkarp.h"],
  [("hash lookup and probing", "src/hashtable.h"), ("rolling the weak sum", "src/delta.c"), ("merging adjacent copies, command widths", "src/delta.c, src/emit.c")], ["size and literal bytes of the delta"],
  DS + "seeded schedules; comparison with a quadratic greedy reference matcher",
  "Seeded exploration; bound on literal bytes is exact, bound on size has the stated slack.")
prop("C06", "Patch executes the delta format exactly, for any bytes",
  "For every delta byte string, well-formed or not, and every basis, patch writes exactly the output that the delta format defines and returns RS_DONE if it is complete; otherwise it returns RS_BAD_MAGIC, RS_CORRUPT (undefined command, zero or overflowing length, negative position) or RS_INPUT_ENDED (delta or basis ends early) as the first defect defines, having written only a prefix of the bytes defined before it. Every encoding of a command (any parameter width, immediate literals, long copies) is understood, and nothing after the end command is consumed or matters.",
  ["inputs", "schedules"], "all delta byte strings x basis contents x schedules x callback behaviours",
  "Tests patch deltas that librsync itself emitted, so most of the 256 command codes and all malformed streams are never executed.",
  ["src/patch.c", "src/command.c", "src/prototab.h", "src/netint.c", "src/tube.c"],
  [("command table", "src/prototab.h"), ("patch state machine", "src/patch.c")], ["output bytes and result of the patch operation"],
  DS + "seeded schedules and short or own-buffer basis callbacks; refinement against a small reference interpreter of the format",
  "Seeded exploration; result and output are decided exactly in each run. A copy position no file offset can express may also be reported as RS_IO_ERROR by the whole-file call.")
prop("C07", "A torn delta or signature is never accepted as complete",
  "A delta cut anywhere before the end of its end command never makes patch return RS_DONE: it returns RS_INPUT_ENDED and has written only a prefix of the new file. A signature cut anywhere inside its header or inside a block entry never loads: loading returns RS_INPUT_ENDED. Supplying the complete stream afterwards works.",
  ["crash_points", "inputs", "schedules"], "all cut points of all deltas and signatures x schedules and interfaces",
  "Tests contain no truncated signature and few truncated deltas; every cut offset crossed with every way of delivering the last bytes has to be rejected.",
  ["src/patch.c", "src/readsums.c", "src/scoop.c", "src/tube.c"],
  [("end of input detection", "src/scoop.c"), ("end of signature on an entry boundary", "src/readsums.c")], ["result codes for cut streams"],
  DS + "streams torn at seeded (small streams: all) offsets, as an interrupted transfer or crashed writer leaves them",
  "Seeded exploration over cut points; streams up to 60 bytes are cut at every offset.")
prop("C08", "Progress: a job that is fed and drained finishes in a bounded number of calls",
  "Every call on a job returns after a bounded amount of work, and a job that is given all its input, the end-of-input flag and at least one byte of output space per call reaches a final result within a number of calls linear in the bytes moved. A call that returns RS_BLOCKED with both input and output space on hand has consumed or produced something, unless the basis callback asked to block; starved calls (no input, no output space) return RS_BLOCKED without harm, and well-formed input never ends in an internal error.",
  ["schedules", "inputs", "fault_sequences"], "all schedules with arbitrary starvation and blocking callbacks, followed by supply; all inputs including corrupted ones",
  "Livelock and spurious no-progress errors depend on exact coincidences of pending output, readahead and end of input that tests with fixed large buffers never produce.",
  ["src/job.c", "src/scoop.c", "src/tube.c", "src/delta.c", "src/patch.c", "src/mksum.c", "src/readsums.c"],
  [("job loop and its progress check", "src/job.c"), ("state functions returning BLOCKED/RUNNING", "src/delta.c, src/mksum.c, src/patch.c, src/readsums.c")], ["number of calls, basic blocks per call, result codes"],
  DS + "seeded starvation and blocking schedules, fuel limit per call, bounded-liveness oracle after supply resumes",
  "Seeded exploration; liveness is bounded: calls per byte and executed basic blocks per call.")
prop("C09", "Jobs stay within the buffers they are given",
  "On every call a job reads only the input bytes it was lent and writes only the output space it was lent; the four buffer fields always advance consistently (pointer and remaining count together, never beyond the buffer), input bytes are never modified, consumed input is never read again and produced output never changed after the call returns. This holds for every operation, corrupted input included, without undefined memory accesses, and for basis callbacks that lend more than they were asked for.",
  ["schedules", "inputs"], "all operations x schedules x corrupted inputs x buffer alignments",
  "Tests pass large static buffers where an overrun or late access goes unnoticed and run without memory checking.",
  ["src/scoop.c", "src/tube.c", "src/job.c", "src/buf.c", "src/patch.c", "src/delta.c", "src/readsums.c"],
  [("scoop copies what it keeps", "src/scoop.c"), ("tube output", "src/tube.c")], ["rs_buffers_t before and after each call; memory around and inside the buffers"],
  DS + "exactly sized, freed-after-call, optionally read-only buffers under seeded schedules, executed with AddressSanitizer",
  "Seeded exploration; memory errors are found by AddressSanitizer, page protection and content comparison.")
prop("C10", "Results of the caller's callbacks are honoured",
  "An error returned by the basis, input or output callback ends the operation with exactly that code, and only a prefix of the correct output has been delivered. RS_BLOCKED from the basis callback, any number of times in a row, suspends the patch with RS_BLOCKED and it later resumes to the exact result; a basis callback may return less data than asked or use its own buffer, of which a release build uses no more than it asked for, and one that has no more data (zero bytes or RS_INPUT_ENDED) ends the patch with RS_INPUT_ENDED. A job whose callback-driven run was stopped by a callback can be continued.",
  ["fault_sequences", "schedules", "inputs"], "all callback return codes at all call indexes x schedules",
  "The tests never have a callback fail, block, return short data or own buffers.",
  ["src/patch.c", "src/job.c", "src/buf.c"],
  [("copy callback handling", "src/patch.c"), ("drive loop", "src/job.c")], ["return value of rs_job_iter / rs_job_drive, output delivered"],
  DS + "seeded callback faults (codes, bursts of RS_BLOCKED, short and empty reads) with exact-result and prefix oracles",
  "Seeded exploration over fault positions and codes.")
prop("C11", "Whole-file operations never turn an I/O failure into a wrong success",
  "When any read, write or seek on the files of a whole-file call fails or returns short, transiently or for good, the call returns RS_IO_ERROR, or it returns RS_DONE and (if closing the output succeeds) the output is complete and correct. A basis that ends early gives RS_INPUT_ENDED or RS_IO_ERROR, never success; without a fault these calls do not fail, and input files are never written.",
  ["fault_sequences", "inputs", "configurations"], "all positions and kinds of file faults x operations x library and stdio buffer sizes x pipes",
  "No test makes a file operation fail.",
  ["src/buf.c", "src/whole.c", "src/fileutil.c", "src/job.c"],
  [("error checks of fread/fwrite", "src/buf.c"), ("seek and read of the basis", "src/fileutil.c")], ["result of rs_sig_file, rs_loadsig_file, rs_delta_file, rs_patch_file and the bytes in the output file"],
  DS + "in-memory file system with seeded read, write, seek, stat and short-transfer faults under the real stdio",
  "Seeded exploration; stdio is glibc's, the file system below is simulated.")
prop("C12", "rdiff's exit status is honest",
  "rdiff exits with status 0 only if its output (file or standard output) is complete and correct, including when the disk fills up, closing or flushing the output fails, memory runs out, an input cannot be read, an input is malformed or torn, or the command line is wrong; otherwise it exits non-zero with a message on standard error. If it is killed at any point, what it left is rejected when used as a delta or is repaired by running the same command again with --force, which then succeeds. Without trouble it succeeds.",
  ["crash_points", "fault_sequences", "inputs", "configurations"], "all kill points and file faults in the three commands x options x files",
  "The tests never run rdiff on failing files, never kill it and barely look at its exit status.",
  ["src/rdiff.c", "src/fileutil.c", "src/whole.c", "src/buf.c"],
  [("result of closing the output", "src/rdiff.c"), ("whole-file calls", "src/whole.c")], ["exit status, standard error, files left behind"],
  DS + "rdiff's main() as a simulated process with seeded file faults and kills at basic-block granularity; only written bytes survive",
  "Seeded exploration; the process is rdiff.c and the real popt in a simulated environment.")
prop("C13", "rdiff never destroys an existing file without --force, nor its inputs",
  "Unless --force is given, rdiff never truncates, replaces or alters a file that already exists under the output name: it exits non-zero and leaves that file as it was, also when the file cannot be read, is empty, is one of the inputs, or is created by someone else while rdiff is starting. Input files that are not also named as the output are never altered. With --force, or when the name is free, the output is written correctly.",
  ["schedules", "fault_sequences", "configurations"], "all states of the output name x moments of concurrent creation x commands and option orders",
  "One test tries an existing readable file; races and unreadable files cannot be arranged in the test suite.",
  ["src/fileutil.c", "src/rdiff.c"],
  [("exclusive creation of the output", "src/fileutil.c")], ["contents and identity of every file before and after"],
  DS + "in-memory file system in which another process creates the output at a seeded operation; snapshot comparison",
  "Seeded exploration of race points and file states; POSIX semantics of exclusive open are modelled.")
prop("C14", "Running out of memory never produces a wrong result",
  "When any memory allocation fails, once or from then on, in any operation of the library or rdiff, the operation still completes correctly, or returns RS_MEM_ERROR, or logs a critical message and aborts; it never returns success with a wrong result, crashes by touching memory it does not have, or returns another code. When indexing a signature fails with RS_MEM_ERROR the signature is intact and indexing it again works.",
  ["fault_sequences", "inputs"], "all allocation indexes x one-shot or persistent failure x operations",
  "No test makes an allocation fail.",
  ["src/util.c", "src/sumset.c", "src/hashtable.c", "src/job.c", "src/buf.c", "src/scoop.c"],
  [("fatal allocation helper", "src/util.c"), ("recoverable index build", "src/sumset.c, src/hashtable.c")], ["result, log, abort, output"],
  DS + "seeded allocation-failure plans over all operations",
  "Seeded exploration; allocation indexes up to 24 per operation, which covers all allocations of the small workloads.")
prop("C15", "Freeing a job or signature at any moment releases everything",
  "A job may be freed at any point of its life (before the first call, blocked, failed or complete) and all memory it held is released exactly once; a loaded signature stays usable after its loader and after any number of finished or abandoned delta jobs that used it, and freeing it releases the rest. Whole-file calls leave nothing allocated (besides the loaded signature), whether they succeed or fail.",
  ["crash_points", "schedules", "fault_sequences"], "all cancellation points x operations x schedules x failures",
  "Tests run jobs to completion and never look at the heap.",
  ["src/job.c", "src/sumset.c", "src/hashtable.c", "src/mksum.c", "src/whole.c", "src/buf.c"],
  [("rs_job_free and ownership of the signature", "src/job.c"), ("rs_free_sumset", "src/sumset.c")], ["set of live allocations"],
  DS + "jobs cancelled after a seeded number of calls; conservation of allocations on a tracking heap, AddressSanitizer",
  "Seeded exploration; leak, double free and use after free are decided exactly in each run.")
prop("C16", "Statistics agree with what happened, and formatting them is safe",
  "After success, the statistics of a job name the operation and count exactly the commands, literal and copied bytes and command bytes of the delta read or written, or the blocks and block length of the signature, independently of the schedule; whole-file calls also count the bytes read and written, and start and end are the clock's values during the job even if the clock jumps. The text made from the statistics shows those counts, and rdiff prints it when --statistics is given and only then. Formatting any statistics into a buffer of any size writes a terminated prefix of the full text and nothing outside the buffer.",
  ["schedules", "inputs", "fault_sequences"], "all operations x schedules x clock behaviour x buffer sizes x statistics values",
  "Tests never compare statistics with the streams and only format into large buffers.",
  ["src/stats.c", "src/emit.c", "src/patch.c", "src/mksum.c", "src/readsums.c", "src/buf.c", "src/job.c"],
  [("counting at emission", "src/emit.c, src/patch.c, src/mksum.c"), ("rs_format_stats", "src/stats.c")], ["rs_stats_t and formatted text"],
  DS + "seeded schedules and clock jumps; conservation against an independent parse of the streams",
  "Seeded exploration; counters are compared exactly.")
prop("C17", "Concurrent jobs do not influence each other",
  "Any number of jobs run by different threads of one program, switched at arbitrary points inside library calls, each give exactly the result they give alone; this includes several delta jobs sharing one loaded and indexed signature. Hashing, logging, statistics formatting and error names are equally unaffected.",
  ["schedules", "inputs"], "all interleavings at basic-block granularity of up to four tasks x operations x shared or separate signatures",
  "All tests are single-threaded.",
  ["src/job.c", "src/mdfour.c", "src/sumset.c", "src/hashtable.h", "src/scoop.c", "src/tube.c", "src/trace.c", "src/stats.c", "src/checksum.c"],
  [("all state lives in the job or signature", "src/job.h, src/sumset.h")], ["results of each task"],
  DS + "cooperative tasks preempted at seeded basic blocks inside the library; per-task exact oracle",
  "Seeded exploration of interleavings at basic-block granularity under sequential consistency; statistics counters inside a shared signature are not results.")
prop("C18", "Memory use is bounded, independent of the length of the stream",
  "A signature, delta or patch job holds at any time no more memory than a small multiple of the block length, the largest single command (64 KiB of literals) and the largest input buffer it is lent, however long the stream, however slow the output is taken, and whatever lengths a delta claims; loading and indexing a signature needs memory linear in the signature's actual size, not in claimed sizes.",
  ["inputs", "schedules"], "all stream lengths and schedules, hostile length fields",
  "Tests use small files and never measure memory.",
  ["src/scoop.c", "src/delta.c", "src/tube.c", "src/readsums.c", "src/sumset.c", "src/hashtable.c", "src/patch.c"],
  [("flushing misses at 64 KiB, limiting the scoop", "src/delta.c"), ("growth of the signature", "src/sumset.c")], ["peak of the simulated heap per job"],
  DS + "streams of megabytes under seeded rates of input and output; peak heap invariant",
  "Seeded exploration; bound used: six times (block length + 64 KiB + largest lent input) + 64 KiB.")
prop("C19", "Files, offsets, commands and buffers beyond 2 GiB and 4 GiB work",
  "Basis offsets, copy and literal lengths, total stream lengths and single buffers beyond 2^31 and 2^32 bytes are handled without truncation or sign errors in signature, delta and patch, through all interfaces: copies name and read the right offsets, commands of more than 4 GiB are carried out fully and counted so in the statistics, block lengths up to 2^31-1 work, and signatures of hundreds of millions of blocks are indexed and matched.",
  ["inputs", "configurations"], "offsets, lengths and buffer sizes around and above 2^31 and 2^32",
  "The largest test file is a few hundred kilobytes.",
  ["src/patch.c", "src/delta.c", "src/emit.c", "src/netint.c", "src/fileutil.c", "src/sumset.c", "src/whole.c", "src/tube.c"],
  [("64-bit offsets and netints", "src/netint.c, src/emit.c"), ("large-file seek", "src/fileutil.c")], ["deltas, copy requests and output for virtual files"],
  DS + "virtual files and signatures of more than 4 GiB (contents computed on demand) under seeded schedules",
  "Seeded exploration with virtual contents; a few runs move more than 4 GiB through one command or one stream, and one loads more than 214 million blocks.")
prop("C20", "A signature loads if and only if it is well-formed",
  "Loading accepts exactly the byte strings that are a known magic, a block length from 1 to 2^31-1, a strong sum length from 1 to the maximum of its hash (16 for MD4, 32 for BLAKE2b) and a whole number of block entries; everything else is rejected with RS_BAD_MAGIC, RS_CORRUPT, RS_PARAM_ERROR or RS_INPUT_ENDED, through every interface and schedule. What is loaded is what the bytes say: block count, block length and every sum, in order.",
  ["inputs", "schedules"], "all byte strings x schedules x interfaces",
  "The tests load signatures librsync made and one or two malformed ones.",
  ["src/readsums.c", "src/sumset.c"],
  [("header validation", "src/readsums.c, src/sumset.c")], ["result of loading; deltas made from what was loaded"],
  DS + "seeded header and body mutations under seeded schedules; acceptance compared with a reference parser",
  "Seeded exploration; acceptance is decided exactly in each run.")
prop("C21", "Logging never affects results and respects level and sink",
  "Whatever the log level and sink (own callback, none, standard error), results are the same; no message above the set level reaches the sink, a replaced sink gets everything and standard error nothing, and nothing is ever printed on standard output. A failing operation logs at least one message at error level when that level is enabled. rdiff keeps its messages, statistics and verbose output off the data it writes to standard output, with file names of any length.",
  ["configurations", "inputs", "schedules"], "all levels x sinks x operations x good and corrupted inputs x name lengths",
  "Tests run with one log configuration and do not capture messages.",
  ["src/trace.c", "src/trace.h", "src/rdiff.c", "src/stats.c", "src/job.c", "src/sumset.c", "src/hashtable.c"],
  [("rs_log0 level filter and sink", "src/trace.c")], ["messages at the sink, standard streams, results"],
  DS + "debug build (tracing on) under seeded levels, sinks and schedules; captured sink history",
  "Seeded exploration of the tracing build.")
prop("C22", "The public MD4 accumulator is MD4, however it is fed",
  "For every sequence of update calls, including empty ones, on any number of interleaved accumulators and for messages and single updates beyond 2^29 and 2^32 bytes, the result is the RFC 1320 MD4 digest of the concatenated data and equals the one-shot function's; inputs are not modified and nothing is allocated.",
  ["inputs", "histories", "schedules"], "all chunkings and interleavings x message lengths",
  "Tests hash a few strings in one piece.",
  ["src/mdfour.c"],
  [("block buffering and length count", "src/mdfour.c")], ["rs_mdfour_begin/update/result, rs_mdfour"],
  DS + "seeded chunkings of interleaved accumulators against a reference MD4",
  "Seeded exploration; exact comparison with a reference self-tested on the RFC 1320 vectors.")

NA = [
 ("N01", "Recommended signature arguments are sensible and valid",
  "For every file size and every request, the recommended magic, block length and strong sum length are accepted by signature generation, and explicit valid requests are kept unchanged.",
  ["inputs"], "all file sizes and argument triples", "Tests check a few sizes.", ["src/sumset.c"], [("rs_sig_args", "src/sumset.c")],
  "A pure function of three integers: no schedule, time, I/O, fault or second party for a simulation to control, so simulation would degenerate into plain input enumeration. (That its results are usable is exercised indirectly by C01 and C03.)"),
 ("N02", "Base64 and hex text conversions are inverse and bounded",
  "Decoding the encoding of any byte string gives the string back, and encoded lengths are as documented.",
  ["inputs"], "all byte strings", "Tests convert a few strings.", ["src/base64.c", "src/hex.c"], [("rs_base64, rs_unbase64, rs_hexify", "src/base64.c, src/hex.c")],
  "Pure string functions without any nondeterminism, state or fault: not a subject for deterministic simulation."),
]

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    for id, t, s, o, qt, w, fl, m, r in NA:
        f.write(json.dumps(dict(id=id, title=t, statement=s, quantifier={"over": o, "text": qt}, why_tests_cant=w, anchors={"files": fl, "mechanism": [{"name": a, "where": b} for a, b in m], "hook_needed": None})) + "\n")
M = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [], "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA],
     "notes": "No hooks in /repo: the seams are made at build time by renaming the library's references to libc (objcopy --redefine-syms) and by compiler instrumentation of basic blocks. See DESIGN.md."}
for p in P:
    M["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": "exploration", "level_note": p["_n"]})
json.dump(M, open(HERE + "/MANIFEST.json", "w"), indent=1); open(HERE + "/MANIFEST.json", "a").write("\n")
