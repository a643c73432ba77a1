#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays schema-valid)."""
import json, os
W = "tsfile-writer/src/writer/"
S = "tsfile-writer/src/sync/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every accepted point reads back exactly once, unchanged",
 "After a writer has been closed successfully, the file holds, for every device and measurement, exactly the points whose write call returned success: the same timestamps in increasing order with bit-identical values, each exactly once and under its own series, and nothing else. This holds for every legal schema and every write history, however many pages, chunks and automatic flushes the data spreads over.",
 ["inputs", "histories", "configurations"],
 "all schemas (devices, measurements, data type x encoding x compression), all sequences of write/write_many calls (any interleaving of series, any values, any lengths, rejected calls mixed in), all positions of automatic page splits and chunk-group flushes",
 "The unit tests compare a handful of tiny files byte by byte (one page, one chunk, ascending integers) and never decode what they wrote; multi-page output is only checked not to crash, and no test reaches a second chunk group.",
 [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs", W+"encoding/"],
 [("automatic flush of all chunk groups", W+"tsfile_writer.rs: check_memory_size_and_may_flush_chunks, flush_all_chunk_groups, reset"),
  ("page sealing, first/second/later page layout", W+"chunk_writer.rs: write_page_to_buffer, write_to_file_writer"),
  ("value and time encoders", W+"encoding/plain.rs, "+W+"encoding/time_encoder.rs")],
 [("record_count", "points accepted since the last flush; 0 suppresses flushing", W+"tsfile_writer.rs"),
  ("page_buffer / num_pages / size_without_statistics", "pages of the chunk being built", W+"chunk_writer.rs")],
 ["public write/write_many/close results", "bytes of the finished file, decoded by an independent reader"],
 "override of the chunk-group flush threshold, so that short histories contain many flushes")

prop("C02", "Every series can be found through the file's index",
 "Starting from the end of a closed file and following only the footer and the index, a reader that binary-searches the index for a device and then for a measurement finds every series that has data, with references to all of its chunks in write order; a device or measurement without data is not found. This holds for any number of devices and measurements and for any device and measurement names, including names containing dots.",
 ["inputs", "configurations"],
 "all sets of device and measurement names and all counts of devices and measurements per device, across the index fan-out boundaries (256, 65536)",
 "No test reads the index; the existing expectations contain one device with at most three measurements, and the one test with two devices is ignored as 'luck dependent'.",
 [W+"tsfile_io_writer.rs", W+"mod.rs"],
 [("grouping of chunks into series", W+"tsfile_io_writer.rs: end_file, flush_metadata_index"),
  ("index tree construction", W+"mod.rs: MetadataIndexNode::construct_metadata_index, generate_root_node")],
 [("chunk_group_metadata_list", "metadata of all flushed chunks", W+"tsfile_io_writer.rs"),
  ("max_degree_of_index_node", "index fan-out (256)", W+"ts_file_config.rs")],
 ["bytes of the finished file: footer, index nodes, series metadata"])

prop("C03", "Stored statistics equal the data they summarise",
 "Every statistics block in the file - of each page of a multi-page chunk, of each chunk of a multi-chunk series and of each series - states exactly the count, start time, end time, first value, last value, minimum and maximum of the points it covers, and their sum up to floating-point rounding. For series containing NaN only count, times, first and last value are promised.",
 ["inputs", "histories"],
 "all value and timestamp sequences, including type extremes, infinities, signed zeros and the maximal timestamp, and all splits of a series into pages and chunks",
 "Byte-level expectations cover ascending small integers in single pages; merging of page and chunk statistics across pages and flushes, extremes and infinities are never checked.",
 [W+"statistics.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
 [("per-point update and merge", W+"statistics.rs: implement_statistics!"),
  ("first-page statistics inserted when the second page arrives", W+"chunk_writer.rs: write_page_to_buffer"),
  ("series statistics merged over chunks", W+"tsfile_io_writer.rs: flush_metadata_index")],
 [("StatisticsStruct", "count, time range, min/max/first/last/sum", W+"statistics.rs")],
 ["page headers, chunk metadata and series metadata in the finished file, recomputed from the decoded points"])

prop("C04", "The finished file is a well-formed TsFile v3, byte for byte accounted",
 "A closed file consists of head magic, version byte, chunk groups, a separator, the series metadata and index, the file metadata with Bloom filter, its length, and tail magic, with no gaps, overlaps or stray bytes. Every declared length, page count marker, type code and offset (chunk data size, page sizes, chunk offsets, index offsets and end offsets, metadata offset, footer length) agrees with what is actually at that place, so a forward scan and an index walk see the same chunks.",
 ["inputs", "histories", "configurations"],
 "all schemas and histories, including empty files, devices without data, single- and multi-page chunks, repeated chunk groups, and names of any length",
 "The tests fix the bytes of a few minimal files; the length and offset fields that need more than one byte, a second page, a second chunk group or an index node with several entries are unchecked.",
 [W+"tsfile_io_writer.rs", W+"chunk_writer.rs", W+"mod.rs", W+"group_writer.rs", W+"utils.rs"],
 [("chunk header and size accounting", W+"chunk_writer.rs: ChunkHeader::serialize, get_serialized_chunk_size"),
  ("position tracking of the output", W+"mod.rs: WriteWrapper, PositionedWrite"),
  ("variable-length integers", W+"utils.rs")],
 [("position", "offset every index entry relies on", W+"mod.rs: WriteWrapper")],
 ["bytes of the finished file, full-coverage parse"])

prop("C05", "Encodings are lossless over the whole value range",
 "For every supported combination of data type and encoding, any sequence of values - including type minimum and maximum, differences that exceed the type's range, every bit width of difference, every float bit pattern, and any block-boundary length - decodes from the file to exactly the values written; likewise for any strictly increasing non-negative timestamps with arbitrary gaps. Writing such values never panics, in debug as in release builds.",
 ["inputs", "configurations"],
 "all finite sequences of i32/i64/f32 values and of increasing non-negative i64 timestamps; all lengths relative to the 128-difference block; builds with and without overflow checks",
 "Tests encode 0..10 with TS2DIFF and three bit-packing examples of widths 4 and 7; no wide, negative, overflowing or block-crossing sequence is decoded again.",
 [W+"encoding/time_encoder.rs", W+"encoding/plain.rs", W+"utils.rs"],
 [("difference encoding and bit packing", W+"encoding/time_encoder.rs: ts2diff_encoder!, to_bytes"),
  ("plain encoding with zig-zag varints", W+"encoding/plain.rs, "+W+"utils.rs")],
 [("values / min_delta / first_value / previous_value", "current difference block", W+"encoding/time_encoder.rs")],
 ["decoded pages of the finished file", "panics caught at the public write/close calls"])

prop("C06", "Compression is transparent and truthfully declared",
 "Every page of a series declared SNAPPY decompresses, as raw Snappy, to exactly the declared uncompressed size and from exactly the declared compressed size, and every page of an uncompressed series has equal sizes and plain content; the chunk's compression code matches the schema. The points decoded from a file do not depend on which compression its series were declared with.",
 ["inputs", "configurations"],
 "all page contents (compressible, incompressible, tiny, multi-page), each declared compression, mixed within one file",
 "One test compares the bytes of a one-point Snappy page; larger, incompressible and multi-page compressed chunks are never decompressed.",
 [W+"chunk_writer.rs", W+"compression.rs"],
 [("page compression and size fields", W+"chunk_writer.rs: write_page_to_buffer"),
  ("compression codes", W+"compression.rs")],
 [], ["page headers and page payloads of the finished file; same history under both compressions"])

prop("C07", "Timestamps strictly increase per series for the writer's whole life",
 "A write is accepted only if its timestamp is non-negative and greater than that of every point already accepted for the same series, and is otherwise rejected with the out-of-order error; this stays true across automatic flushes and is decided for each series independently of all others. A rejected point does not change what later timestamps are accepted.",
 ["inputs", "histories"],
 "all sequences of timestamps over several series, with any mix of accepted and rejected writes and any position of automatic flushes",
 "One test writes the same timestamp twice to one series; multiple series, recovery after rejection and behaviour after an automatic flush are not exercised.",
 [W+"group_writer.rs", W+"tsfile_writer.rs"],
 [("last time per series", W+"group_writer.rs: check_is_history_data, write"),
  ("last times kept across flushes", W+"tsfile_writer.rs: reset, non_aligned_timeseries_last_time_map")],
 [("last_time_map", "last accepted timestamp per series", W+"group_writer.rs")],
 ["result of every write call against a reference model"],
 "override of the chunk-group flush threshold")

prop("C08", "Illegal writes return an error and leave no trace",
 "Writing to an unknown device or measurement, writing a value whose type differs from the series' declared type, or writing to a series whose declared encoding is unsupported for its type returns the corresponding error and never panics. The failed call leaves no trace: the finished file and the outcome of all later calls are the same as if it had never been made.",
 ["inputs", "histories"],
 "all positions of illegal writes (unknown device, unknown measurement, each wrong type, unsupported encoding, out-of-order) inside arbitrary histories",
 "The only rejected write in the tests is one duplicate timestamp; wrong types, unknown names and their effect on the file are untested.",
 [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"errors.rs", W+"encoding/mod.rs"],
 [("lookup errors", W+"tsfile_writer.rs: write, write_many; "+W+"group_writer.rs: write"),
  ("type and encoding errors", W+"chunk_writer.rs: write; "+W+"encoding/mod.rs: Encoder::new")],
 [], ["result of every call; bytes of the file against the file of the same history without the illegal calls"],
 "override of the chunk-group flush threshold")

prop("C09", "A batch write equals its single writes in order",
 "Writing several data points at one timestamp in one call has the same effect as writing them one by one in the given order up to and including the first one that is rejected: the call returns that rejection, the points before it are kept and end up in the file exactly once, and the points after it are not written. A batch without rejection returns success.",
 ["inputs", "histories"],
 "all batches (empty, repeated measurements, unknown, wrong type or out-of-order points at any position, any iterator type) at any point of a history, also as the only writes of a device or file",
 "write_many is only called in documentation examples; its failure behaviour is untested.",
 [W+"tsfile_writer.rs", W+"group_writer.rs"],
 [("batch loop and record accounting", W+"tsfile_writer.rs: write_many; "+W+"group_writer.rs: write_many")],
 [("record_count", "accepted points since the last flush", W+"tsfile_writer.rs")],
 ["call results and the file, against the same history issued as single writes"],
 "override of the chunk-group flush threshold")

prop("C10", "The same history always produces the same bytes",
 "Two writers given equal schemas (declared in any order) and the same sequence of calls produce byte-identical files, in the same process or in different processes and in debug or release builds. When no automatic flush occurs, the bytes also do not depend on how writes to different series are interleaved.",
 ["inputs", "histories", "configurations"],
 "all schemas and histories; repeated in-process, across processes (fresh hash seeds), across build profiles, under permuted schema declaration and permuted cross-series interleaving",
 "Every byte-level test has a single device; the one with two devices is disabled because its outcome varies from run to run.",
 [W+"mod.rs", W+"schema.rs", W+"tsfile_writer.rs", W+"tsfile_io_writer.rs"],
 [("ordered maps for groups, chunks and index", W+"tsfile_writer.rs, "+W+"group_writer.rs, "+W+"mod.rs: construct_metadata_index")],
 [], ["bytes of finished files from repeated runs"],
 "override of the chunk-group flush threshold")

prop("C11", "Output failures reach the caller and short writes do no harm",
 "If the operating system refuses any part of the output (disk full, size limit, I/O error), at least one of the write calls or the close call returns an error. Whenever close returns success, also after an earlier failure or when it is tried again, the file is complete and correct and holds every point whose write returned success. Partial and interrupted writes by the operating system that eventually succeed never change the resulting bytes, and no output failure makes the writer panic.",
 ["fault_sequences", "histories"],
 "all positions of failing, partial and interrupted write operations within any history, including inside header, flush, index and footer output, and full devices",
 "No test injects an output fault; every test writes to memory or to a file with free space.",
 [W+"mod.rs", W+"tsfile_writer.rs", W+"tsfile_io_writer.rs", W+"chunk_writer.rs"],
 [("position counting of what was really written", W+"mod.rs: WriteWrapper::write"),
  ("error propagation to write and close", W+"tsfile_writer.rs: close, write; "+W+"tsfile_io_writer.rs: end_file")],
 [], ["results of the public calls and bytes on disk while the process's write system calls are intercepted"],
 "override of the chunk-group flush threshold")

prop("C12", "A crash leaves a recoverable prefix, never a file that looks finished",
 "The output file only ever grows by appending, so whatever is on disk at a crash is a prefix of what an undisturbed run would have written up to there. A forward scan of such a prefix recovers every chunk that is completely contained in it with exactly the points accepted for it, and a file whose writer was not closed does not pass for a complete file.",
 ["crash_points", "histories"],
 "all crash points (after any system call and at any byte of the output) of any history with any number of automatic flushes",
 "Tests only look at files after close; the on-disk state during writing is never inspected.",
 [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs", W+"chunk_writer.rs"],
 [("chunk groups are written in one forward pass", W+"tsfile_writer.rs: flush_all_chunk_groups"),
  ("footer only on close", W+"tsfile_io_writer.rs: end_file")],
 [], ["write/seek/truncate system calls on the output file; snapshots of the file at every crash point"],
 "override of the chunk-group flush threshold")

prop("C13", "Opening and closing a writer is well behaved",
 "Creating a writer replaces any existing file and creates missing parent directories, or returns an error without panicking if the path cannot be used. Once close has returned, the file on disk is complete even while the writer still exists, for any history including one with no points at all; closing again changes nothing, and writing after close returns an error and changes nothing.",
 ["histories", "inputs"],
 "all paths (missing directories, directory instead of file, unwritable, empty, existing longer file) and all orders of write, close and drop",
 "Tests close each writer exactly once and mostly do not look at the file; no failing path and no use after close is tested.",
 [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs"],
 [("constructor", W+"tsfile_writer.rs: TsFileWriter::new"),
  ("close", W+"tsfile_writer.rs: close; "+W+"tsfile_io_writer.rs: end_file")],
 [], ["results of new/write/close and the bytes on disk after each step"])

prop("C14", "Buffering is bounded: long streams are flushed as they are written",
 "However long a stream of points is and over however many series it is spread, the data held in memory stays bounded: once about 128 MiB are buffered, all series are flushed to the file as one chunk group each, so the file grows while writing and peak memory does not depend on the stream's length. Pages of a steady stream stay near 64 KiB, and no page exceeds 1,048,577 points.",
 ["inputs", "histories"],
 "all long streams: number of series, data types, encodings, compressions, and value distributions",
 "Only one ignored test would write enough data to reach a single flush, and it needs an external tool.",
 [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"statistics.rs"],
 [("memory estimate and flush decision", W+"tsfile_writer.rs: check_memory_size_and_may_flush_chunks, calculate_mem_size_for_all_groups; "+W+"chunk_writer.rs: estimate_max_series_mem_size"),
  ("page size check", W+"chunk_writer.rs: check_page_size_and_may_open_new_page")],
 [("record_count_for_next_mem_check", "when memory is measured next", W+"tsfile_writer.rs"),
  ("value_count_in_one_page_for_next_check", "when page size is measured next", W+"chunk_writer.rs")],
 ["growth of the file between write calls, live heap bytes, page sizes in the finished file"],
 "override of the chunk-group flush threshold (the real threshold is exercised as well)")

prop("C15", "The Bloom filter admits every series and matches the format",
 "A reader that rebuilds the Bloom filter stored in the file finds every series that has data (no false negatives), for any number of series and any names, and closing never fails because of the filter. The stored size, hash count and set bits are exactly those the TsFile format prescribes for these series (5% error rate, at least 256 bits, MurmurHash3-128 with the format's seeds, trailing zero bytes dropped).",
 ["inputs"],
 "all sets of series paths: every count of series (every filter size modulo 8), every path length modulo 16 and path content, builds with and without overflow checks",
 "The tests pin the filter bytes for one to three short paths; longer paths, non-minimal filter sizes and other counts never occur.",
 [W+"mod.rs", W+"murmur128.rs", W+"ts_file_config.rs"],
 [("filter sizing and serialisation", W+"mod.rs: BloomFilter"),
  ("hash", W+"murmur128.rs; "+W+"mod.rs: HashFunction")],
 [("bit_set", "bits to serialise", W+"mod.rs: BloomFilter")],
 ["Bloom filter bytes in the finished file against an independent implementation"])

prop("C16", "The schema means what was declared",
 "The devices and measurements a built schema reports, and those the writer accepts and stores, are exactly the ones declared, each with exactly its declared data type, encoding and compression; redeclaring a name replaces the earlier declaration. The codes under which types, encodings and compressions are stored and accepted are the TsFile format's, and decoding a code gives back the declared value or an error for every other byte.",
 ["inputs", "configurations"],
 "all sequences of builder calls (repeated names, reused and cloned builders and schemas) and all 256 code bytes",
 "One test counts the entries of a two-measurement schema; replacement, reuse, per-series attributes and codes are unchecked.",
 [W+"schema.rs", W+"mod.rs", W+"compression.rs", W+"encoding/mod.rs"],
 [("builders", W+"schema.rs; "+W+"mod.rs: Schema::simple, get_devices, get_timeseries"),
  ("codes", W+"mod.rs: TSDataType; "+W+"compression.rs; "+W+"encoding/mod.rs: TSEncoding")],
 [], ["builder output, write results, and chunk headers in the finished file"])

prop("C17", "The C interface is memory safe and writes the same file",
 "A C program that keeps the names it put into a schema alive while the schema and its writers are in use, and uses each handle until it frees or closes it, can create schemas and writers, write, close and free in any order allowed by the handles without any invalid memory access, double free or leak. The file it obtains is byte-identical to the one the Rust interface writes for the same schema and points. A call that cannot be carried out - a name that is null or not UTF-8, an unknown code, a file that cannot be created, a refused point - is never ignored: the process ends at that call in an orderly way, and files closed before it are complete.",
 ["programs", "histories"],
 "all legal call sequences over several schemas and writers, including schema reuse, freeing a schema before or after its writers, null handles where they are accepted, and all supported type/encoding/compression codes",
 "The C wrapper has no tests at all; it is only compiled.",
 ["tsfile-writer-c/src/lib.rs"],
 [("handle ownership", "tsfile-writer-c/src/lib.rs: schema_simple, schema_free, file_writer_new, file_writer_write_int32, file_writer_close")],
 [], ["AddressSanitizer/LeakSanitizer and Miri reports over C-interface call sequences; produced files"])

prop("C18", "The sync schema log describes exactly the schema",
 "The schema log prepared for a receiver is a sequence of frames, each with its byte length and a correct CRC-32 of its content, containing first the storage group and then exactly one creation record for each series of the schema with its full path, data type, encoding and compression. Records written between two flushes that succeed appear once, in order, in the frame of the later one.",
 ["inputs", "histories"],
 "all storage group names and schemas, all sequences of log records and flushes, and any behaviour of the destination stream",
 "Three tests fix the bytes for one storage group and one INT32 series.",
 [S+"mlog.rs", S+"sync_sender.rs"],
 [("framing and record encoding", S+"mlog.rs"), ("schema traversal", S+"sync_sender.rs: write_mlog")],
 [("bytes", "records not yet flushed", S+"mlog.rs: MLog")],
 ["log bytes, decoded by an independent reader"],
 "access to the crate-private schema log and to the sender's log preparation")

prop("C19", "A sync connection announces its identity and honours refusal",
 "Connecting performs exactly one handshake carrying the given local address (if none is given, one of this machine), the node's identifier, the partition interval 604800 and version 0.13, and yields a sender only if the receiver confirms it; a refusal (a negative status code), a protocol error, a closed or unreachable connection yields an error and never a panic. When no identifier is given, a 32-digit hexadecimal one is generated once, stored, and used unchanged by every later connection, also when storing it fails or the process dies meanwhile, and when several processes connect for the first time at once.",
 ["fault_sequences", "histories"],
 "all receiver behaviours (confirm, refuse, exception, wrong method, wrong sequence number, malformed or truncated reply, disconnect at any byte) and all sequences of connections with and without stored identifier, with output faults and crashes while it is stored and processes that run at the same time",
 "The only test is ignored and needs a live server.",
 [S+"sync_sender.rs", S+"sync.rs"],
 [("handshake", S+"sync_sender.rs: SyncSender::new, _connect"),
  ("identifier file", S+"sync_sender.rs: get_or_generate_uuid")],
 [("uuid.lock", "stored identifier", "current directory")],
 ["bytes received by a fake receiver on the loopback interface; result of the constructor; identifier file"])

prop("C20", "A sync session transfers the schema log and the file intact, or fails",
 "A synchronisation sends, in this order, session start, storage group, the schema log with its data and digest, the file's name (without folder, prefixed 0_0_), its exact bytes and its digest, and session end; each digest is the lower-case hexadecimal SHA-256 of the preceding data without leading zeros. It reports success only if the receiver answered every step, the two digests included, with a non-negative status code; otherwise it stops at that step and reports an error, without a panic and without sending the session end after it.",
 ["fault_sequences", "inputs"],
 "all file contents and schemas and all receiver behaviours at each step of the session",
 "No test runs a session.",
 [S+"sync_sender.rs", S+"sync.rs"],
 [("session sequence", S+"sync_sender.rs: sync"), ("digest", S+"sync_sender.rs: calculate_digest")],
 [], ["calls recorded by a fake receiver; result of the session"],
 "access to the crate-private session function")

prop("C21", "The sync RPC client and server follow the Thrift contract",
 "Each of the eight receiver operations sends one binary-protocol call with the service's method name, field ids and types, increasing sequence numbers and the exact arguments, and returns exactly the status or application error in the matching reply; a processor serving such a call hands the exact arguments to its handler and replies with the handler's status or error under the same sequence number. Unknown fields are skipped, and replies with a wrong method, sequence number, message type or missing required field are errors, never panics.",
 ["inputs", "fault_sequences"],
 "all argument and status values, all call sequences, and all malformed, truncated or field-permuted messages",
 "The generated code has no tests.",
 [S+"sync.rs"],
 [("client stubs", S+"sync.rs: TSyncServiceSyncClient"), ("processor", S+"sync.rs: SyncServiceSyncProcessor"),
  ("struct codecs", S+"sync.rs: SyncStatus, ConfirmInfo, SyncService*Args, SyncService*Result")],
 [("_sequence_number", "request/reply matching", S+"sync.rs")],
 ["wire bytes against an independent implementation of the protocol"],
 "access to the crate-private generated client and processor")

prop("C22", "The file's bytes do not depend on the platform",
 "For the same schema and history the produced bytes are identical on 64-bit and 32-bit and on little-endian and big-endian targets, and in builds with and without overflow checks. On all of them writing and closing are free of undefined behaviour and never panic. (The bits of a sum that is not a number are those of the platform's arithmetic.)",
 ["configurations", "inputs"],
 "all schemas and histories on x86-64, 32-bit little-endian and 64-bit big-endian targets, debug and release",
 "Tests run on one little-endian 64-bit target in one profile.",
 [W+"mod.rs", W+"encoding/time_encoder.rs", W+"murmur128.rs", W+"statistics.rs", W+"utils.rs"],
 [("explicit big-endian fixed-width output", W+"mod.rs: MetadataIndexEntry, MetadataIndexNode; "+W+"statistics.rs")],
 [], ["bytes written under the Miri interpreter for three targets against a native run"])

prop("C23", "Writers working in parallel do not influence each other",
 "Any number of writers used at the same time on different threads, each on its own file, each produce exactly the file they would have produced alone, without data races. The same holds for several writers whose calls are interleaved on one thread.",
 ["schedules", "histories"],
 "all interleavings of calls on several writers, on one or many threads",
 "Every test uses a single writer; tests running in parallel only overlap by accident and are not compared.",
 [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
 [("no state outside the writer", W)],
 [], ["files of concurrent runs against files of isolated runs; ThreadSanitizer reports"],
 "override of the chunk-group flush threshold")

prop("C24", "The Python wrapper writes what it is given or raises",
 "Any legal sequence of uses of the Python classes Schema and TsFileWriter (created, written to, closed, freed, contexts left regularly or by an exception, Python objects dropped in any order, several of them at once) produces exactly the file the Rust interface produces for the same calls, for all names without NUL and all timestamps and values the writer accepts. Names stay valid for as long as the library refers to them. Values and codes the C types cannot represent, arguments of a wrong type, and uses after close or free raise a Python exception and change nothing. The module finds the library on the platform it was built on.",
 ["histories", "inputs"],
 "all legal sequences of uses of the two classes, all names, codes, timestamps and values",
 "The wrapper has no test; lifetimes of names and object handles show only under particular orders of drops and with garbage in freed memory.",
 ["tsfile-writer-c/rust.py: Schema, TsFileWriter, ffi.cdef", "tsfile-writer-c/src/lib.rs"],
 [("handles and names owned by the Python objects", "tsfile-writer-c/rust.py: Schema, TsFileWriter")],
 [], ["files written by generated Python programs against files of the Rust interface", "reports of valgrind and of a memory-overwriting allocator"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
