"""What each property's check runs: harness + modules + sanitizer flavor, per run."""
CHECKS = {
    "C01": dict(
        runs=[dict(harness="c01_array.cpp", modules=["runtime"], flavor="asan")],
        rule="random operation histories over three arrays (lifetime-tracked items, bytes, u32, strings), whole "
             "contents compared with a vector model after every operation; a case is distinct by the tuple of "
             "array sizes it reached",
    ),
    "C02": dict(
        runs=[dict(harness="c02_hashmap.cpp", modules=["runtime"], flavor="asan")],
        rule="random insert/find/erase/move/clear histories over sets, maps, context indices, weak hashes and long "
             "probe chains, compared with std::map by lookup of the whole key universe and by iteration; distinct "
             "by map population, smallest key and key universe",
    ),
    "C03": dict(
        runs=[dict(harness="c03_btree.cpp", modules=["runtime"], flavor="asan")],
        rule="random insert/remove/find/iterate histories (duplicate and unique keys, integer and owned-string "
             "indices, node capacities 8-64, trees to several thousand items) against an insertion-ordered "
             "multimap model after every step; distinct by tree size and median key",
    ),
    "C04": dict(
        runs=[dict(harness="c04_sequence.cpp", modules=["runtime"], flavor="asan")],
        rule="random push/pop/truncate/read/move histories over sequences of five item types (small to larger than a "
             "block) with item addresses recorded, and over raw block lists with saved positions; distinct by "
             "operation log and size or by contents",
    ),
    "C05": dict(
        runs=[dict(harness="c05_pool.cpp", modules=["runtime"], flavor="asan")],
        rule="random new/delete/clear/iterate histories over pools (lifetime-tracked and plain items, owning "
             "handles), growth of page-backed pools up to their whole reservation, and label stores fed prefixes, "
             "long strings and length-encoding boundaries, against exact models; distinct by history or final size",
    ),
    "C06": dict(
        runs=[dict(harness="c06_string.cpp", modules=["runtime"], flavor="asan")],
        rule="every string query on buffers of exactly their size (random bytes, UTF-8, tiny alphabets, whitespace and "
             "NULs), all pairs of families with shared prefixes, and ownership histories over owning, viewing and "
             "hybrid strings, against std::string; distinct by contents or history",
    ),
    "C07": dict(
        runs=[dict(harness="c07_owners.cpp", modules=["runtime"], flavor="asan")],
        rule="random histories over owning, optionally owning, counted, weak, callable and tagged-union handles whose "
             "targets carry identities; after each step the set of living objects must equal the set reachable from "
             "handles; distinct by history",
    ),
    "C08": dict(
        runs=[dict(harness="c08_unicode.cpp", modules=["runtime"], flavor="asan")],
        rule="every one of the 1,114,112 code points in UTF-8, UTF-16LE/BE and bytes (round trip, every truncation, "
             "several following contexts, backwards), and random, damaged and adversarial byte strings decoded point "
             "by point against an independent decoder; distinct by code point or byte string",
    ),
    "C09": dict(
        runs=[dict(harness="c09_textformat.cpp", modules=["runtime"], flavor="asan")],
        rule="random texts and damaged bytes through importers, exporters, converters, newline filters and detection, "
             "cut into random reads, writes, buffers and flushes, with destinations that fail at every offset, against "
             "whole-text reference conversions; distinct by file contents and format",
    ),
    "C10": dict(
        runs=[dict(harness="c10_streams.cpp", modules=["runtime"], flavor="asan")],
        rule="random histories of look-ahead, reads, skips, saved positions, rewinds, ranges, line reads and moves over "
             "sources that split their data anywhere; writes, flushes and moves over destinations that record or fail at "
             "a random byte; memory, fixed-buffer and descriptor streams with signals and vanishing peers; byte models "
             "checked after every step; distinct by data and operation log",
    ),
    "C11": dict(
        runs=[dict(harness="c11_numbers.cpp", modules=["runtime"], flavor="asan")],
        rule="integers at the edges of every width, radix and power printed and parsed in radixes 2-36 by all eight "
             "integer types, random and malformed digit strings, doubles over the whole exponent range, long fractions "
             "and exponents, each from an exact-size view or a splitting pipe, against 128-bit and extended-precision "
             "arithmetic; distinct by value and radix or text",
    ),
    "C12": dict(
        runs=[dict(harness="c12_text.cpp", modules=["runtime"], flavor="asan")],
        rule="scanners over random text from exact-size views and splitting pipes, quoted strings with every escape and "
             "error, string-literal, XML and command-line escaping decoded by independent readers (including the "
             "Microsoft C runtime's argument rules), tag extraction; result, error and characters consumed all checked; "
             "distinct by text",
    ),
    "C13": dict(
        runs=[dict(harness="c13_paths.cpp", modules=["runtime"], flavor="asan")],
        rule="random path expressions in both formats (dots, repeated and mixed separators, drive letters, empty parts), every "
             "string of up to six path characters, and real directory trees where the kernel decides what a path names; against "
             "a resolver that enters one component at a time; distinct by expression and format",
    ),
    "C14": dict(
        runs=[dict(harness="c14_filesystem.cpp", modules=["runtime"], flavor="asan",
                   ldflags=["-Wl," + ",".join("--wrap=" + f for f in "mkdir rename unlink rmdir stat opendir readdir chdir "
                                              "getcwd read write open".split())])],
        rule="random histories of every file system operation on one tree through the library (absolute, relative to the "
             "working directory, and through a virtual root) and on an identical tree through system calls, over existing, "
             "missing, mistyped, unreadable, linked and oddly named paths; results, data, descriptors and whole trees compared "
             "after each step; every system call failing with any error; last results across threads; distinct by path, "
             "operation, error and tree size",
    ),
    "C15": dict(
        runs=[dict(harness="c15_save.cpp", modules=["runtime"], flavor="asan",
                   ldflags=["-Wl," + ",".join("--wrap=" + f for f in "mkdir rename unlink stat close read write open ftruncate".split())])],
        rule="saves of random old/new contents (absent, identical, prefixes, one bit apart, text in every format, through a virtual "
             "root, into missing folders) repeated with a crash before, after and within every system call, an error or short "
             "transfer at every call, hostile environments, and concurrent readers and savers; the destination observed with raw "
             "system calls before and after every call; distinct by contents, call trace, fault and position",
    ),
    "C16": dict(
        runs=[dict(harness="c16_subprocess.cpp", modules=["runtime"], flavor="asan"),
              dict(harness="c16_subprocess.cpp", modules=["runtime"], flavor="tsan", only="concurrent", cap=(8, 100))],
        rule="child processes with random argument vectors, folders, scripts, exit codes, signals and payloads around pipe sizes, in "
             "every redirection mode, whose own reports of arguments, folder, descriptors and input are compared with what was "
             "given, launched from one and from several threads; launches that can't succeed; distinct by script and mode",
        assumptions=["descriptors 0 to 2 of the parent are open"],
    ),
    "C17": dict(
        runs=[dict(harness="c17_sockets.cpp", modules=["runtime"], flavor="asan", ldflags=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"]),
              dict(harness="c17_sockets.cpp", modules=["runtime"], flavor="tsan", only="concurrent", cap=(20, 200),
                   ldflags=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"])],
        rule="random payloads and timings in both directions over loopback connections (IPv4, IPv6, mapped), library to library and "
             "against raw sockets, with pipes and streams and small buffers; peers that close or reset at any byte; many clients at "
             "once; ports in use, refused, unreachable, no descriptors; made-up resolver answers; distinct by payloads and mode",
    ),
    "C18": dict(
        runs=[dict(harness="c18_locks.cpp", modules=["runtime"], flavor="asan"),
              dict(harness="c18_locks.cpp", modules=["runtime"], flavor="tsan")],
        rule="random scripts of lock, tryLock, unlock, wait, signal and reset calls on several threads, each call's result and "
             "whether it blocks compared with a model; stress with 2 to 8 threads, schedule noise, interrupted waits and deadlines, "
             "monitors inside the critical sections and plain data under the race detector; every mutex, read-write lock, condition "
             "variable, semaphore and event class that builds here; distinct by script and by counts reached",
        width=8,
    ),
    "C19": dict(
        runs=[dict(harness="c19_threads.cpp", modules=["runtime"], flavor="asan", ldflags=["-Wl,--wrap=pthread_create"]),
              dict(harness="c19_threads.cpp", modules=["runtime"], flavor="tsan", ldflags=["-Wl,--wrap=pthread_create"])],
        rule="random teams of threads that are started, joined in any order and by others, detached, or refused by the system; "
             "random thread-local scripts per thread; races on first use; every atomic operation against a model and counted from "
             "both sides under contention; plain data handed over through flags and reference counts, under the race detector; "
             "distinct by team, script and interleaving counts",
        width=8,
    ),
    "C20": dict(
        runs=[dict(harness="c20_heap.cpp", modules=["runtime"], flavor="dl", ldflags=["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mremap"]),
              dict(harness="c20_heap.cpp", modules=["runtime"], flavor="tsandl", only="threads", cap=(12, 100), ldflags=["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mremap"]),
              dict(harness="c20_heap.cpp", modules=["runtime"], flavor="asan", ldflags=["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mremap"])],
        rule="random histories of allocate, aligned allocate, resize and free over size classes from 0 to 4 MB, each block painted and "
             "compared with a map of live blocks; the heap's mmap, munmap and mremap calls go through a stand-in that places mappings "
             "adjacent above, below or apart and compares what is given back with the live blocks and the counters; threads that hand "
             "blocks to each other, with and without the race detector; distinct by mappings, steps and peak",
        width=8,
    ),
    "C21": dict(
        runs=[dict(harness="c21_datetime.cpp", modules=["runtime"], flavor="asan")],
        rule="every day of the years around the epoch counted forwards and backwards by a calendar of its own, with random and extreme "
             "times of day; any microsecond count of the supported range against the C library's calendar; order; the clock and the "
             "CPU timers between readings of the system's; distinct by time",
    ),
    "C22": dict(
        runs=[dict(harness="c22_algo.cpp", modules=["runtime"], flavor="asan")],
        rule="random and adversarial sequences of plain, string and lifetime-tracked items sorted by several orders inside guarded "
             "blocks; every search compared with a scan, its callback's calls recorded; filter, map, reduce, sum and range with their "
             "visits recorded; generators whose state is recovered from two outputs and continued by the published recurrence; distinct by input",
    ),
    "C24": dict(
        runs=[dict(harness="c24_hash.cpp", modules=["build-repo"], flavor="asan")],
        rule="byte strings around every block size, split and placed at random, read out midway, compared with SpookyHash V2 written "
             "down anew and with published vectors; hashes of equal and of nearly equal keys; 128-bit sums and signatures against "
             "the compiler's arithmetic; distinct by content and partition",
    ),
    "C23": dict(
        runs=[dict(harness="c23_fileloc.cpp", modules=["runtime"], flavor="asan")],
        rule="texts with short, long and no lines, tabs, carriage returns, wide and invalid characters, of lengths around the table's "
             "chunk size; every offset from 0 to the end compared with a scan from the start; distinct by text",
    ),
    "C25": dict(
        runs=[dict(harness="c25_math.cpp", modules=["math-serial"], flavor="asan")],
        rule="random and special components; every vector, matrix, quaternion, box, integer vector and axis operation compared with the "
             "formula in double precision, transforms with Rodrigues' formula, projections with the corners of clip space, all pairs of "
             "the 48 axis rotations; distinct by operands",
    ),
    "C29": dict(
        runs=[dict(harness="c29_pylon.cpp", modules=["pylon"], flavor="asan")],
        rule="trees spelled in every way the grammar allows, their truncations and small edits, byte garbage, and all short texts over the significant "
             "characters: verdict, tree, node offsets, error place, line and context compared with an independent reader; trees written and read back; "
             "node operations against a model; memory balance per case; distinct by text",
    ),
    "C28": dict(
        runs=[dict(harness="c28_persist.cpp", modules=["reflect"], flavor="asan")],
        rule="random values of types combining every kind of descriptor, written with their schema and read back into the same types and into a second "
             "version that lost, gained, reordered and widened members, states and identifiers; objects skipped; pointers relinked; memory balance "
             "per case; distinct by bytes written",
    ),
    "C30": dict(
        runs=[dict(harness="c30_pylonreflect.cpp", modules=["pylon-reflect"], flavor="asan")],
        rule="random objects of types combining every exportable member exported, compared with a tree computed without reflection, written, parsed and "
             "imported into fresh and populated objects; partial, reordered and extended trees imported and compared with a model of what they change; "
             "numeric members, described types and filters; memory balance per case; distinct by tree",
    ),
    "C34": dict(
        runs=[dict(harness="c34_markdown.cpp", modules=["web-markdown"], flavor="asan")],
        rule="hostile text: every output scanned for well-formed, nested, escaped HTML whose letters are those of the source, in order outside links; "
             "generated documents compared with the HTML they mean; distinct by HTML",
    ),
    "C32": dict(
        runs=[dict(harness="c32_preproc.cpp", modules=["cpp"], flavor="asan")],
        rule="every token read compared (kind, text, place, macro arguments, expanded location) with the tokens the text was built from; on arbitrary bytes tokens "
             "are ordered, fit their kind and leave only whitespace or reported text; malformed text gives one located error and reading goes on; distinct by text",
    ),
    "C31": dict(
        runs=[dict(harness="c31_cppparse.cpp", modules=["cpp"], flavor="asan")],
        rule="the parse tree of generated declarations compared with what they declare (names, nesting, types, parameters, initializer extents), no errors; on any text, "
             "every token of the tree lies where it says, scopes balance, nothing leaks, errors have located messages; distinct by declaration",
    ),
    "C35": dict(
        runs=[dict(harness="c35_http.cpp", modules=["web-common"], flavor="asan"),
              dict(harness="c35_http.cpp", modules=["web-common"], flavor="tsan", only="concurrent|turns", cap=(40, 400))],
        rule="requests, well-formed, damaged, cut short and pipelined, split at random over loopback connections, with handlers that write, flush, stay silent or "
             "leave the header open; many clients at once, clients that vanish, no descriptors; distinct by bytes sent",
    ),
    "C36": dict(
        runs=[dict(harness="c36_webpaths.cpp", modules=["web-serve-docs"], flavor="asan"),
              dict(harness="c36_webpaths.cpp", modules=["web-serve-docs"], flavor="tsan", only="reload", cap=(8, 100))],
        rule="request paths over dots, separators, queries, absolute names, detours and odd bytes against trees with marked files outside; pages, tables of "
             "contents and their changes, also while other threads serve; distinct by path",
    ),
    "C33": dict(
        runs=[dict(harness="c33_crowbar.cpp", modules=["crowbar"], flavor="asan")],
        hang=30,
        rule="random typed programs (calls, recursion, loops, embedded strings, host objects) emitted with random layout and run twice against a "
             "model interpreter over the generator's tree; the same with one failing expression, whose report and call stack are compared; "
             "damaged programs and token soups parsed three times and run when they surely terminate; one syntax error per program; tokens "
             "pushed back and expanded; memory balance per program; distinct by output and source",
    ),
    "C26": dict(
        runs=[dict(harness="c26_image.cpp", modules=["image-reflect"], flavor="asan")],
        rule="pixels, crops, copies, fills, flips and conversions on images whose memory is exactly (h-1)*stride + w*size bytes, all of it (padding and "
             "surroundings of crops too) compared with a model after every operation; ownership histories; distinct by operation, rectangle and format",
    ),
    "C27": dict(
        runs=[dict(harness="c27_audio.cpp", modules=["audio"], flavor="asan")],
        rule="mixes, level ramps and resampling at random rates, positions and block cuts over buffers holding exactly the samples needed, every output "
             "sample compared with 64-bit arithmetic; views, formats, and clips written and read back; distinct by rate, position, length and samples",
    ),
    "C38": dict(
        runs=[dict(harness="c38_buildgraph.cpp", modules=["build-repo"], flavor="asan")],
        hang=60,
        rule="random graphs of targets and externs over two repos, instantiated from several roots and written twice; the text parsed and every target's "
             "sources, includes, definitions, flags, libraries and their order compared with a model; projects configured by CMake, built and run, each "
             "source checking what it can and cannot see; distinct by generated text",
    ),
    "C39": dict(
        runs=[dict(harness="c39_plytool.cpp", modules=[], flavor="asan")],
        plytool="asan",
        hang=150,
        rule="the real tool, under the sanitizers, run command by command in scratch workspaces with one to three generated repos: folders, targets, externs, "
             "providers, graphs and listings compared with a model, the whole file tree compared before and after each command, malformed and hostile "
             "arguments; projects built, edited, rebuilt and run; distinct by command history",
    ),
    "C37": dict(
        runs=[dict(harness="c37_codegen.cpp", modules=[], flavor="asan")],
        plytool="asan",
        hang=150,
        rule="the real tool's codegen command, under the sanitizers, on generated source trees: every generated file and every source compared with a model of "
             "the annotated declarations, second runs, edits with stale include lines, fresh copies, files with misplaced commands; the whole workspace compared "
             "before and after each run; distinct by sources",
    ),
}
