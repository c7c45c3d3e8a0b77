"""The properties: id -> (title, statement, over, quantifier text, why tests cannot settle it, files, mechanism)."""
R = "repos/plywood/src/runtime/ply-runtime/"
S = "repos/plywood/src/"
P = {}


def p(id, title, statement, over, text, why, files, mechanism):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism)


p("C01", "Arrays keep their items, in order, with exact lifetimes",
  "After any sequence of appends, inserts, erases, resizes, copies, moves, concatenations, views and sorts, an array "
  "holds exactly the items a plain list given the same operations would hold, in the same order. Every item is "
  "constructed once and destroyed once, no operation reads or writes outside the array's storage, and no memory "
  "outlives the last array that owns it.",
  ["histories", "inputs"],
  "every history of operations, over item types with and without destructors, of every size, including "
  "self-assignment and empty ranges",
  "The unit tests apply a handful of calls to short arrays of one or two types; wrong ranges, lifetimes and growth "
  "boundaries show only in long histories with lifetime-tracked items.",
  [R + "container/Array.h", R + "container/ArrayView.h", R + "container/details/BaseArray.h", R + "container/details/BaseArray.cpp"],
  "growable contiguous storage with manual construction, relocation and destruction")
p("C02", "Hash maps behave as maps for any keys and any hash quality",
  "Lookup finds exactly the entry most recently inserted under an equal key and not erased since, whatever the mix of "
  "inserts, lookups, erases, growth and copies, and however badly the hash function spreads the keys. Iteration visits every "
  "stored entry exactly once.",
  ["histories", "inputs"],
  "every history of inserts, finds, erases and iterations, every key set, weak and colliding hashes up to the "
  "documented probe limit",
  "Tests use a few dozen well-spread keys; relative probe links, deltas near their 8-bit limits and erase-then-migrate "
  "sequences need long adversarial histories.",
  [R + "container/HashMap.h", R + "container/HashMap.cpp"],
  "leapfrog probing with 8-bit relative links, table migration when full")
p("C03", "B-trees keep items sorted, complete and in insertion order among equals",
  "A sorted container returns exactly the items inserted and not removed, in key order and, among equal keys, in "
  "insertion order. Searches for the first or last position of any key, and walks in both directions from any position, agree with a "
  "sorted list.",
  ["histories", "inputs"],
  "every history of inserts, removals, searches and walks, with unique and duplicate keys, trees of several levels",
  "Tests cover small trees; splits, merges and rebalancing of inner nodes with duplicate keys depend on history.",
  [R + "container/BTree.h"],
  "fixed-capacity nodes, splitting and merging with cached separator keys")
p("C04", "Sequences and block lists keep items in place and in order",
  "A sequence returns its items in push order with exact lifetimes, and an item's address never changes while it stays in the "
  "sequence. Positions saved in a block list remain usable while the blocks they name are alive, and turning any part of a list into one string yields exactly the bytes written in that part.",
  ["histories", "inputs"],
  "every history of pushes, pops, truncations, reads, moves and saved positions, over item sizes from a byte to more "
  "than a block",
  "Tests push a few small items; block boundaries, items larger than a block and truncation of tracked items are not reached.",
  [R + "container/Sequence.h", R + "container/Sequence.cpp", R + "container/BlockList.h", R + "container/BlockList.cpp"],
  "linked blocks with reference counts and a tail block shared by readers and writers")
p("C05", "Pools and label stores never confuse two live entries",
  "A pool hands out items that stay distinct, keep their contents and their index, and are all visited by iteration until "
  "deleted, whatever order they are created and deleted in. A label store maps equal strings to equal labels, different strings to different labels, and gives back every string unchanged.",
  ["histories", "inputs"],
  "every order of creation and deletion up to the pool's reservation; every set of strings",
  "Free-list reuse, page commits and label length encodings depend on counts and orders that the few existing tests do not reach.",
  [R + "container/Pool.h", R + "container/BigPool.h", R + "container/BigPool.cpp", R + "string/Label.h", R + "string/Label.cpp"],
  "free lists threaded through slots; page-committed reservations; block-encoded label strings")
p("C06", "Strings: every query and edit agrees with plain byte-string semantics",
  "Comparisons, searches, slices, trims, splits, joins, prefix and suffix tests and case changes on strings and views return what the same operation "
  "on a plain byte string returns, and read nothing outside the view. Owning and hybrid strings keep exactly the bytes they were given through "
  "any sequence of copies, moves, views and reassignments, and release them exactly once.",
  ["inputs", "histories"],
  "every byte string including embedded NULs and non-ASCII bytes, every ordering of ownership changes",
  "Tests use a few literals; over-reads at exact buffer ends, self-assignment and ownership hand-over need instrumented runs over many inputs.",
  [R + "string/StringView.h", R + "string/StringView.cpp", R + "string/String.h", R + "string/String.cpp"],
  "pointer+length views over bytes; heap strings; a flag for borrowed bytes in hybrid strings")
p("C07", "Owning handles destroy each object once, when its last owner lets go",
  "Unique, optional, counted and weak handles, stored callables and tagged unions keep an object alive exactly as long as "
  "some owner refers to it, through any sequence of moves, copies, reassignments and clears. No object is destroyed twice or leaked, including when the "
  "new value is held by the object being replaced.",
  ["histories"],
  "every history of handle operations over object graphs including lists popped through themselves",
  "Ownership errors show only as leaks or freed-memory use in particular orders, which tests without instrumentation do not notice.",
  [R + "container/Owned.h", R + "container/Reference.h", R + "container/WeakRef.h", R + "container/Functor.h", R + "container/Switch.h", R + "container/Any.h"],
  "RAII handles, intrusive counts, type-erased wrappers")
p("C08", "Unicode text converts without loss, and bad bytes never derail it",
  "Encoding any code point and decoding it again gives that code point and consumes exactly the bytes written, in every supported encoding. Decoding arbitrary "
  "bytes always advances, never reads past the input, flags malformed sequences, and treats every byte of well-formed text around them as usual.",
  ["inputs"],
  "all 1,114,112 code points in every encoding; arbitrary byte strings, split anywhere",
  "Tests decode a few sample files; the full code-point range, truncations at every byte and malformed sequences are an input space.",
  [R + "string/TextEncoding.h", R + "string/TextEncoding.cpp"],
  "per-encoding decode/encode tables with explicit status codes")
p("C09", "Text files survive import and export in every format and any chunking",
  "Text written in any supported encoding, newline style and byte-order-mark choice reads back as the same UTF-8 lines, and format detection never loses or alters content. "
  "The converted bytes do not depend on how the stream is cut into reads, writes and buffers.",
  ["inputs", "configurations", "schedules"],
  "every text, every text format, every partition of the byte stream into reads and writes",
  "Tests check a fixed set of sample files read in one go; characters straddling buffer and read boundaries depend on the partition.",
  [R + "io/text/TextFormat.cpp", R + "io/text/TextConverter.cpp", R + "io/text/NewLineFilter.cpp"],
  "streaming converters with small carry-over buffers between calls")
p("C10", "Buffered streams deliver the exact byte sequence for any chunking and fault",
  "Reading through an input stream yields exactly the bytes the source delivers, in order, however the source splits them and however reads, line "
  "reads, look-ahead, saved positions and rewinds are mixed. Everything written to an output stream reaches its destination once and in order by the time of flush or destruction, and a source or destination that ends or fails early is reported without hanging or touching stray memory.",
  ["histories", "fault_sequences", "inputs"],
  "every interleaving of stream operations, every split of the data by the pipe, failure or end at every byte",
  "Tests use whole in-memory strings; behaviour at block boundaries, short reads and mid-stream failures needs generated histories and injected faults.",
  [R + "io/InStream.h", R + "io/InStream.cpp", R + "io/OutStream.h", R + "io/OutStream.cpp", R + "io/Pipe.cpp"],
  "block lists filled on demand from pipes, with reference-counted save points")
p("C11", "Numbers print exactly and parse back to the same value",
  "Every integer printed in any supported radix is its exact positional representation and parses back to the same value; values out of range and malformed text are "
  "reported instead of wrapping. Floating-point text parses to within the stated precision of the true value and printing then parsing reproduces it to that precision.",
  ["inputs"],
  "every 64-bit integer in every radix, every finite double, arbitrary malformed text",
  "Tests print a few values; limits of each width, radix and exponent are an input space.",
  [R + "io/impl/FormatString.cpp", R + "io/impl/FormatString.h", R + "io/impl/TypeParser.cpp", R + "io/impl/TypeParser.h"],
  "digit-by-digit conversion with overflow detection")
p("C12", "Escaping and parsing text are inverse and consume exactly what they match",
  "Text escaped for XML, string literals and command lines decodes, by the rules of that format, to the original text. Line, identifier, whitespace and quoted-string readers consume exactly the "
  "characters their format describes, leave the rest unread, and never read past the input.",
  ["inputs"],
  "every text including control bytes, quotes, backslashes and non-ASCII characters; every split of the source",
  "Tests check a few strings; escaping bugs live in rare combinations such as a trailing backslash before a quote.",
  [R + "io/impl/FormatString.cpp", R + "io/impl/TypeParser.cpp", R + "io/InStream.cpp", R + "io/text/LiquidTags.cpp"],
  "character-class driven scanners and escape writers")
p("C13", "Path manipulation agrees with filesystem semantics on POSIX and Windows",
  "Joining, normalizing, splitting and relativizing paths produce a path that names the same file as the original expression when "
  "resolved one component at a time. Normalization is idempotent, never climbs further than the input does, and a relative path rejoined to its base gives the target back.",
  ["inputs"],
  "every path string over separators, dots, names and drive letters, in both path formats",
  "Tests list a few dozen paths; the interplay of leading, repeated and trailing separators with dot components is a large input space.",
  [R + "filesystem/Path.h", R + "filesystem/Path.cpp"],
  "component iterator with up-count for leading parent components")
p("C14", "File system operations match a model of a file tree and report errors",
  "Creating, writing, reading, listing, walking, moving and deleting files and directories has exactly the effect and reports the result that the "
  "operation's definition gives for the current tree. Errors are reported as results and never crash, never alter anything else, and hold equally through a virtual file system rooted in a directory.",
  ["histories", "inputs"],
  "every history of file system calls over existing, missing, mistyped, unreadable, symlinked and oddly named paths",
  "Tests create one small tree in the happy path; error paths, trailing separators, symlinks and permission failures are not visited.",
  [R + "filesystem/FileSystem.cpp", R + "filesystem/FileSystem.h", R + "filesystem/impl/FileSystem_POSIX.cpp", R + "filesystem/impl/FileSystem_Virtual.cpp"],
  "function table over POSIX calls with errno mapped to results and last-result state")
p("C15", "Saving a file is all or nothing and skips unchanged content",
  "Saving a file through the save-if-different operations leaves, at every moment and after a failure or crash at any point, either the complete old contents or the complete new contents "
  "at the destination. An identical file is left untouched, and success is reported only when the new contents are in place.",
  ["crash_points", "fault_sequences", "inputs"],
  "a crash or failing system call at every step of a save, every old/new content pair",
  "Unit tests never interrupt a save nor make the disk fail; the guarantee quantifies over crash points.",
  [R + "filesystem/FileSystem.cpp", R + "filesystem/impl/FileSystem_POSIX.cpp"],
  "compare, write to a temporary file, rename over the destination")
p("C16", "Subprocess pipes carry exact bytes, and exit codes arrive once",
  "A child process receives exactly the arguments, working directory and input bytes given, and the parent receives exactly the bytes the child wrote to each stream, then end of file, then the "
  "child's exit code. The child inherits no other stream of the library's, and no descriptor or zombie is left behind by a joined child, whatever the sizes, orders and thread counts.",
  ["inputs", "schedules"],
  "every argument vector and payload, every redirection mode, concurrent launches from several threads",
  "Tests launch one child that prints a line; pipe-buffer-sized payloads, descriptor inheritance and concurrent forks need stress and descriptor accounting.",
  [R + "process/Subprocess.h", R + "process/impl/Subprocess_POSIX.cpp", R + "io/Pipe.cpp"],
  "fork/exec with dup2 of pipe ends and close-on-exec")
p("C17", "Sockets deliver byte streams intact between peers",
  "Bytes written to a connected socket arrive at the peer complete, in order and once, then end of file after close, in both directions, "
  "over every address family offered. Failed binds, connects and broken connections are reported to the caller.",
  ["schedules", "fault_sequences", "inputs"],
  "every payload and timing, concurrent connections, peers that disconnect at any byte",
  "No unit test covers sockets; partial writes and disconnects depend on timing.",
  [R + "network/Socket.h", R + "network/impl/Socket_POSIX.cpp", R + "network/IPAddress.cpp"],
  "blocking POSIX sockets wrapped in pipes")
p("C18", "Locks exclude, and waits wake: no lost or spurious permissions",
  "At most one thread is ever inside a mutex and no writer shares a read-write lock with anyone; what one holder writes is seen by the next. Condition variables, semaphores and events release exactly the "
  "waiters their definition allows, never losing a wake-up, and timed waits end when signalled or when their time has passed.",
  ["schedules"],
  "every interleaving of threads using each primitive, including timeouts",
  "Unit tests run single-threaded; exclusion and wake-ups quantify over schedules.",
  [R + "thread/Mutex.h", R + "thread/ConditionVariable.h", R + "thread/RWLock.h", R + "thread/Semaphore.h", R + "thread/ManualResetEvent.h", R + "thread/impl/ManualResetEvent_CondVar.h"],
  "pthread and std wrappers plus event and semaphore state machines")
p("C19", "Threads, thread-locals and one-time initialisation are exactly-once",
  "Each started thread runs its function once and joining it waits for it and publishes everything it wrote; each thread sees only its own thread-local values; a lazily initialised value is "
  "constructed once and fully visible to everyone who gets it. Atomic updates and shared reference counts are never lost, so an object shared between threads is destroyed exactly once after its last use.",
  ["schedules"],
  "every interleaving of threads racing on creation, initialisation, counting and destruction",
  "Unit tests do not start threads; lost updates and premature visibility need many interleavings under a race detector.",
  [R + "thread/Thread.h", R + "thread/impl/Thread_POSIX.h", R + "thread/ThreadLocal.h", R + "thread/impl/Mutex_LazyInit.h", R + "thread/Atomic.h", R + "container/Reference.h"],
  "pthreads, double-checked initialisation, atomic counters")
p("C20", "The heap gives out disjoint, aligned, intact memory and takes all of it back",
  "Every live allocation is disjoint from every other, aligned as asked, at least as large as asked and keeps its contents until freed or resized, under any history of calls from any "
  "number of threads. Usage counters equal the sum of live allocations' sizes, and freed memory is reusable.",
  ["histories", "schedules"],
  "every history of allocate, resize, aligned allocate and free over one or many threads",
  "Unit tests do not test the allocator; block splitting, coalescing and large mappings depend on history.",
  [R + "memory/Heap.h", R + "memory/impl/Heap_DL.cpp", R + "memory/impl/Heap_DL.h", R + "memory/impl/MemPage_POSIX.cpp", R + "memory/MemPage.h"],
  "boundary-tag allocator behind a mutex, over mapped segments")
p("C21", "Calendar dates and epoch times convert exactly both ways",
  "Converting a timestamp to calendar fields and back is lossless, and the fields are those of the proleptic Gregorian calendar in UTC, with the right weekday, "
  "for dates before and after the epoch. The clock reads the current time, and the CPU timer never goes backwards and measures elapsed time.",
  ["inputs"],
  "every timestamp in the supported range and every calendar date",
  "Tests do not cover dates; leap years, negative times and weekday arithmetic are an input space.",
  [R + "time/DateTime.h", R + "time/DateTime.cpp", R + "time/CPUTimer.h"],
  "era/day-of-era integer arithmetic")
p("C22", "Sort, search, filter, fold and random helpers compute what they say",
  "Sorting any sequence yields an ordered permutation of it; find and rfind return the first and last position that matches, or -1; filtering keeps exactly the accepted "
  "items; map, reduce, sum and range visit each item once, in order. A random generator's sequence follows its published recurrence and depends on nothing but its seed.",
  ["inputs"],
  "every sequence, comparator, predicate and seed, including duplicates and empty input",
  "Tests use few short arrays; pivot choices and boundary positions are an input space.",
  [R + "algorithm/Sort.h", R + "algorithm/Find.h", R + "algorithm/Filter.h", R + "algorithm/Map.h", R + "algorithm/Sum.h", R + "algorithm/Range.h", R + "algorithm/Random.h", R + "algorithm/Random.cpp"],
  "templates over array views; xoroshiro128**")
p("C23", "Byte offsets map to the right line and column for every file",
  "For any text, every byte offset from 0 to the end maps to the line that contains it, the offset from that line's start, and the column: one per character, a tab advancing to the next multiple "
  "of four, with the offset into the character when it is a multi-byte one. The answer does not depend on file length or line lengths.",
  ["inputs"],
  "every text and every offset in it, including tabs, multi-byte characters, empty lines and files at block-size boundaries",
  "Error messages in tests touch the first few lines of small files; the table's 256-byte chunk boundaries need longer inputs.",
  [R + "io/text/FileLocationMap.h", R + "io/text/FileLocationMap.cpp"],
  "chunked location table scanned forward from the nearest chunk")
p("C24", "Hashes depend only on the bytes appended, in every chunking",
  "The 128-bit hash of a byte sequence is the published SpookyHash V2 of it, however the sequence is split into appends, wherever it lies in memory and however often the hash is read meanwhile. "
  "Hashes of equal keys are equal, keys that differ get well-spread hashes, and signatures printed as text read back as the same value.",
  ["inputs"],
  "every byte string and every partition of it",
  "No test covers hashing; partial-block carry-over depends on the partition.",
  [R + "container/Hash128.h", R + "container/Hash128.cpp", R + "container/Hash.h", R + "container/Hash.cpp", R + "container/Int128.h", S + "build/repo/ply-build-repo/RepoRegistry.cpp"],
  "SpookyHash V2 with a buffered tail; MurmurHash3 mixing")
p("C25", "Vector, matrix, quaternion and box algebra obeys its defining equations",
  "Vector, matrix, quaternion, rectangle and rotation types compute, within floating-point tolerance, what their mathematical definitions give: inverses undo, compositions compose, conversions between "
  "representations describe the same transformation. Integer and rounding helpers are exact.",
  ["inputs"],
  "every finite operand away from documented singularities",
  "Tests do not cover the math module; sign and index mistakes show only for general operands.",
  [S + "math/math/ply-math/Vector.h", S + "math/math/ply-math/Matrix.h", S + "math/math/ply-math/Matrix.cpp", S + "math/math/ply-math/Quaternion.cpp", S + "math/math/ply-math/QuatPos.cpp", S + "math/math/ply-math/Box.h"],
  "plain-value types with scalar formulas")
p("C26", "Images keep pixels addressable, in bounds and bit-exact through conversion",
  "An image of any size, format and stride stores each pixel separately and returns it unchanged; crops, copies, fills, flips and format conversions touch "
  "exactly the pixels they name and produce the value the format defines.",
  ["inputs", "histories"],
  "every width, height, stride, pixel format and crop rectangle",
  "Tests do not cover images; row padding and edge pixels are where overruns occur.",
  [S + "image/image/image/Image.h", S + "image/image/image/Image.cpp", S + "image/reflect/image-reflect/ImageReflect.cpp"],
  "stride-addressed pixel buffers")
p("C27", "Audio resampling and mixing stay in bounds and follow the sample formula",
  "Playing a sample buffer at any rate, format and block size reads only samples that exist, and the output does not depend on how playback is divided into blocks. Format conversion of each sample "
  "stays within its documented range.",
  ["inputs"],
  "every sample buffer, rate, channel count and block partition",
  "Tests do not cover audio; reads past the end at the last fractional sample need instrumented runs.",
  [S + "audio/primitives/audio-primitives/Buffer.cpp", S + "audio/primitives/audio-primitives/Render.cpp", S + "audio/primitives/audio-primitives/Format.cpp"],
  "fractional-position resampler over typed sample views")
p("C28", "Reflected objects survive being written and read back",
  "An object of any reflected type written to the binary format reads back equal, including strings, arrays, enums, switches, owned pointers and nested "
  "structures, also when the reader's type has gained, lost or reordered members. Every link between saved objects leads to the object it led to, and destroying objects through reflection releases everything they own.",
  ["inputs", "configurations"],
  "every value of every reflected type, every compatible change of schema, every pattern of links between the saved objects",
  "Tests do not cover persistence; values, schema pairs and link graphs are input spaces.",
  [S + "reflect/ply-reflect/PersistReadObject.cpp", S + "reflect/ply-reflect/PersistWriteObject.cpp", S + "reflect/ply-reflect/builtin"],
  "type descriptors with format descriptors and conversion recipes")
p("C29", "Data files round-trip, and malformed ones produce errors, never crashes",
  "A data tree written as text and parsed again gives the same tree, and parsing any text gives either the tree the grammar defines or an error naming a place inside the text. "
  "No input, however malformed, crashes the parser or makes it read outside the text.",
  ["inputs"],
  "every tree; every byte string as input",
  "Tests check a few documents; the set of malformed inputs is unbounded.",
  [S + "pylon/pylon/pylon/Parse.cpp", S + "pylon/pylon/pylon/Write.cpp", S + "pylon/pylon/pylon/Node.cpp"],
  "tokenizer plus recursive descent with a context stack")
p("C30", "Objects exported to data files import back equal",
  "A reflected object exported to a data tree, written, parsed and imported gives an equal object, for every combination of member types. Importing a tree that lacks members, has them in another order or has unknown ones changes exactly the members it has, "
  "in fresh and populated objects alike, including objects whose types the tree describes; nothing leaks or is freed twice, and a filter sees every object exported.",
  ["inputs"],
  "every value of reflected types; every mutation of the exported tree",
  "Tests cover no import over populated objects; values and partial trees are an input space.",
  [S + "pylon/reflect/pylon-reflect/Import.cpp", S + "pylon/reflect/pylon-reflect/Export.cpp"],
  "recursive walk of type descriptors and tree nodes together")
p("C31", "C++ declarations parse to the tree they spell, also around stray tokens",
  "Parsing supported C++ declarations reports no errors and yields a tree with exactly the declarations, names, nesting, types, declarators, initializers and expressions written in the source; every token in it has the "
  "text and place it has there; scopes, class names, enumerators, comments and directives are reported once, in order. A stray token between declarations is one error, at its line, and the declarations around it are still read. A mistake inside a declaration is reported with its message at the token where it is, and what is around it is still read; any damaged program is read to its end, each error has a place and a message, and every scope entered is left.",
  ["inputs", "programs"],
  "every program over the supported declaration grammar, however spaced, commented and nested; every stray token between two declarations",
  "Tests check fixed declarations; combinations of specifiers, declarators, templates and scopes are unbounded.",
  [S + "cpp/ply-cpp/Parser.cpp", S + "cpp/ply-cpp/ParseDeclarations.cpp", S + "cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp", S + "cpp/ply-cpp/PPVisitedFiles.h"],
  "recursive descent with explicit error recovery modes over a linear-location token stream")
p("C32", "Reading C++ source gives exactly its tokens, with macros expanded in place",
  "Reading any source text yields, in order, each token, comment and directive in it with its exact text, kind and location, however they are spaced or continued; only whitespace, and text reported as an error with its "
  "place, is left out. A defined macro is followed by its definition's tokens, with its arguments reported, and is never expanded inside its own expansion; later locations stay correct. Reading always ends, and goes on after an error.",
  ["programs", "inputs"],
  "every text; every mix of tokens, comments, directives, macro definitions and uses",
  "Tests parse a few files; token adjacency, continuation, macro nesting and malformed literals are an input space.",
  [S + "cpp/ply-cpp/Preprocessor.cpp", S + "cpp/ply-cpp/Preprocessor.h", S + "cpp/ply-cpp/ErrorFormatting.cpp"],
  "stack of macro expansions over input views with a map from linear locations to files")
p("C33", "Scripts evaluate to what they say and malformed ones give located errors",
  "A script parsed by the Crowbar front end either yields a program whose functions evaluate to what its source says (operator precedence, value semantics of variables, arguments and results, scoping, "
  "recursion, embedded strings, host objects, names of the innermost of several host name spaces, host-parsed blocks and traits whose hooks are called in order and in pairs) or a list of errors located in the source. Ill-typed programs stop with one located error and its call stack. No terminating script of bounded nesting crashes, "
  "hangs or leaks in the host, and evaluating a program twice gives the same result.",
  ["programs", "inputs"],
  "generated typed programs over every statement and operator, with and without one failing expression; damaged programs and token soups; pushed-back tokens; object stacks",
  "Tests run a few scripts and don't check their output; operator, scope and error recovery combinations are unbounded.",
  [S + "crowbar/ply-crowbar/Parser.cpp", S + "crowbar/ply-crowbar/Interpreter.cpp", S + "crowbar/ply-crowbar/Tokenizer.cpp", S + "reflect/ply-reflect/methods/ObjectStack.cpp"],
  "recursive-descent parser and tree-walking interpreter")
p("C34", "Markdown becomes well-formed, escaped HTML for every input",
  "Converting any text to HTML terminates without crashing and yields balanced, properly nested elements in which every special character of the text is escaped. On the supported "
  "constructs the structure is the one the Markdown rules give, and the text content is preserved.",
  ["inputs"],
  "every text; generated documents over the supported constructs",
  "Tests use the specification's sample list; malformed nesting and non-ASCII text are not sampled.",
  [S + "web/markdown/web-markdown/ParseMarkdown.cpp", S + "web/markdown/web-markdown/ConvertToHTML.cpp"],
  "block parser with a container stack followed by inline delimiter processing")
p("C35", "The HTTP server answers every request exactly once, correctly framed",
  "Whatever bytes clients send, and however split, each complete well-formed request reaches the handler exactly once, in order, with its start line and header fields, and gets one well-formed response carrying "
  "exactly the bytes the handler wrote, chunked on HTTP/1.1 connections, which stay open; a malformed request gets one 400 response or a closed connection. Other clients, vanishing clients and failed accepts don't "
  "disturb it. URL escapes and the echo page lose nothing.",
  ["inputs", "schedules", "fault_sequences"],
  "every request byte string and split, concurrent clients, clients that disconnect at any point, descriptor exhaustion",
  "No test covers the server; malformed requests and disconnects are fault sequences.",
  [S + "web/common/web-common/Server.cpp", S + "web/common/web-common/OutPipe_HTTPChunked.cpp", S + "web/common/web-common/URLEscape.cpp", S + "web/common/web-common/Echo.cpp"],
  "thread per connection, line-based request parser, chunked output pipe")

p("C36", "Web paths never reach files outside the served folder",
  "No request path, however written or escaped, makes the file, source or documentation handlers return or reveal the contents of a file outside the folder they serve. Requests for files "
  "inside it return exactly that file's bytes, lines or page, and the table of contents marks exactly the requested page and its ancestors, also while contents are being reloaded.",
  ["inputs"],
  "every request path over dots, separators, escapes and names",
  "No test covers the handlers; containment must hold for every path.",
  [S + "web/common/web-common/FetchFromFileSystem.cpp", S + "web/common/web-common/SourceCode.cpp", S + "web/serve-docs/ply-web-serve-docs/DocServer.cpp"],
  "request path joined to the root folder")
p("C37", "Code generation is deterministic, idempotent and touches only its outputs",
  "Running reflection code generation on a source tree always produces the same files for the same sources, running it again changes nothing, and sources are altered only where generated switch code is "
  "defined to go. The generated code describes exactly the reflected declarations in the source, a file whose annotations make no sense is reported and left alone, and the clean-up of headers changes nothing but headers.",
  ["programs", "histories"],
  "generated sources over the supported annotations, repeated runs and incremental edits",
  "The unit tests never run the generator; idempotence quantifies over source trees and histories.",
  [S + "apps/plytool/plytool/ReflectionHooks.cpp", S + "apps/plytool/plytool/Command_CodeGen.cpp", S + "apps/plytool/plytool/Command_Cleanup.cpp", S + "build/repo/ply-build-repo/ExtractModuleFunctions.cpp"],
  "parse every module with hooks, write if different")
p("C38", "Build descriptions carry every target, dependency and setting to CMake",
  "The generated build files name every source, include folder, definition, option and library of each target and of everything it depends on publicly, each dependency once and before its users, and the result "
  "is the same on every run. Private settings never leak to dependents.",
  ["configurations", "inputs"],
  "every acyclic graph of targets with public and private dependencies and settings",
  "No unit test covers the build layer; propagation quantifies over dependency graphs.",
  [S + "build/target/ply-build-target/BuildTarget.cpp", S + "build/target/ply-build-target/Dependency.cpp", S + "build/repo/ply-build-repo/ProjectInstantiator.cpp", S + "build/target/ply-build-target/CMakeLists.cpp"],
  "inheritance of target inputs along public edges, then text generation")
p("C39", "The command-line tool's folder and target state survives every command sequence",
  "After any sequence of tool commands that create, select and delete build folders and change their targets and externs, the listed state is the one those commands define, stored settings are read back as "
  "written, and a refused command changes nothing (a target added by build --add stays added when its build fails). Programs run as their current sources and module definitions say. "
  "Nothing outside the workspace's own folders is modified.",
  ["histories"],
  "every sequence of commands, including invalid ones, over a scratch workspace",
  "No unit test runs the tool; persistence quantifies over command histories.",
  [S + "apps/plytool/plytool/Main.cpp", S + "apps/plytool/plytool/Command_Folder.cpp", S + "apps/plytool/plytool/Command_Target.cpp", S + "build/folder/ply-build-folder/BuildFolder.cpp"],
  "settings stored as data files, rewritten when changed")
