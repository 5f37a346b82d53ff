"""Per-property parameters of the checks (runs, time limits) and the fixed text of their evidence."""

REAL_LIB = ["libbsdconv (src/libbsdconv.c and everything it includes)", "all codec, filter and scorer modules as loadable objects", "codec tables compiled by the repository's own bsdconv-mktable"]
STUB_OS = ["operating system: files, directories, working directory, environment, descriptors, process exit (simulated)", "heap: AddressSanitizer allocator"]

PROPS = {}


def prop(pid, **k):
    d = dict(level="exploration", quick_runs=8000, quick_secs=60, thorough_runs=2000000, thorough_secs=1500, real=REAL_LIB, stub=STUB_OS, assumptions=[], rule="", measure="")
    d.update(k)
    PROPS[pid] = d


prop("C01", quick_runs=20000, quick_secs=70,
     rule="a run draws a conversion (any modules, fallback lists, cascades), an input made of encodable text, table entries, malformed and truncated sequences, and a delivery schedule (chunk lengths incl. empty, buffer ownership, flush with the last chunk or separately); non-trivial: more than one chunk was delivered and the input is not empty",
     measure="distinct (conversion, chunk-length sequence, flush style)",
     assumptions=["conversions whose first phase is PASS or a logging codec are excluded: they expose the caller's buffers by design"])
prop("C02", quick_runs=12000, quick_secs=60,
     rule="a run draws conversion, input and delivery schedule as for C01 plus an output mode and buffer size per call (0 = size query followed by a buffer of the announced size); non-trivial: at least two drains and non-empty input",
     measure="distinct (conversion, sequence of output mode and buffer size)")
prop("C03", quick_runs=16000, quick_secs=60,
     rule="a run draws conversion, input and delivery schedule as for C01, a descriptor or stream sink (4 stdio bufferings) and up to 4 fault rules (EINTR, ENOSPC, EIO, EAGAIN or short writes of 1..4 bytes from the nth write on); non-trivial: at least one fault fired",
     measure="distinct (conversion, sequence of bytes accepted per call)",
     assumptions=["a stdio stream that reports an error may have lost data (standard semantics)"])
prop("C08", quick_runs=18000, quick_secs=60,
     rule="a run draws a conversion, 1-3 earlier sessions (input truncated anywhere, drained/held/discarded, flushed or not) and a session after reinitialisation; non-trivial: earlier sessions consumed bytes and the last input is not empty",
     measure="distinct (conversion, abandoned sessions)")
prop("C10", quick_runs=9000, quick_secs=60,
     rule="a run draws a conversion, 1-3 sessions of mostly corrupted input with chunkings, and counter resets between sessions; non-trivial: at least one byte or character was dropped",
     measure="distinct (conversion, chunk sequence of all sessions)",
     assumptions=["targets that themselves write '?' for unconvertible characters (3F fallback) are outside the output-error relation"])
prop("C11", quick_runs=12000, quick_secs=50, rule="a run draws a history of 3-43 store operations over 1-8 keys with reinitialisations and conversions in between; non-trivial: more than 3 operations", measure="distinct operation histories (prefixes)")
prop("C12", quick_runs=16000, quick_secs=60, rule="a run draws a cascade, an input, and independent chunkings of the input and of every intermediate stream; non-trivial: at least two stages and non-empty input", measure="distinct (cascade, input)")
prop("C14", quick_runs=12000, quick_secs=60, rule="a run repeats one block 24-63 times through one instance, in drawn pieces and a drawn output mode, as one stream or as separate documents, and then flushes; every run with a non-empty block is non-trivial", measure="distinct (conversion, periodic block)",
     assumptions=["growth is judged over four quarters of the run: at least one block (or 4 bytes) per period, in both the third and the fourth quarter"])
prop("C09", quick_runs=5000, quick_secs=60, stub=STUB_OS + ["thread scheduler: caller threads are coroutines preempted at basic blocks of library and modules"],
     rule="a run draws 2-6 sessions (often with modules in common) and module look-ups, spreads them over 2-3 caller threads and draws preemption points (basic-block counts) and the thread that continues; where a session alone, in a freshly loaded library, changes shared data, up to 30 further schedules of two sessions switch right there; non-trivial: at least two preemptions between at least two threads",
     measure="distinct interleavings (sequence of preemption points and threads)",
     assumptions=["preemption at basic-block boundaries; sequentially consistent memory"])
prop("C13", quick_runs=16000, quick_secs=60,
     rule="a run draws a conversion with valid or odd arguments, input made of internal packets of any type and length (through the BSDCONV source), text, table entries and random bytes, a chunking and output modes, and runs it twice with different content in fresh heap memory; non-trivial: input not empty and instance created",
     measure="distinct (conversion, transcript)",
     assumptions=["uninitialised stack memory and uninitialised memory that influences nothing visible are not detected", "failing heap allocation is not injected: the library does not claim to survive it"])
prop("C16", quick_runs=3000, quick_secs=60,
     rule="a run draws a table (absent, short, arbitrary counts), 1-3 training sessions with optional list file or other attached table, chunkings and per session a crash point, up to 3 failing or short reads, writes, seeks, opens or closes, or a full disk; non-trivial: a session was hit by a crash or fault",
     measure="distinct table contents after each session",
     assumptions=["a crash is the death of the process: completed system calls persist"])
MK = ["bsdconv-mktable (src/bsdconv-mktable.c, src/libfmalloc.c)"]
prop("C15", quick_runs=6000, quick_secs=60, real=MK, stub=STUB_OS,
     rule="a run draws a table source (small alphabet, duplicates, prefixes, wildcards, call-back entries, malformed and overlong lines) and 1-3 runs of the compiler with other fresh memory, stack and read sizes, each with a crash point, up to 2 failing or short calls (open, read, write, close, temporary storage) or a full disk, and a repetition of failed runs; non-trivial: a crash, fault or short read took place",
     measure="distinct (table, sequence of results)",
     assumptions=["a crash is the death of the process: completed system calls persist", "seeking in a regular file does not fail"])
prop("C18", quick_runs=10000, quick_secs=60, real=["libbsdconv (src/libbsdconv.c and everything it includes)"] + MK, stub=STUB_OS,
     rule="a run draws tables for 1-2 conversions of 2-4 phases with 1-3 alternative codecs each (entries that are prefixes and duplicates of each other, multi-character entries, empty replacements, wildcards, case-insensitive entries, wide nodes) or takes shipped tables, compiles them with the real compiler, and converts an input of complete and cut entries in drawn pieces; non-trivial: input not empty",
     measure="distinct (tables, conversion, chunk sequence)",
     assumptions=["entries calling code and empty keys are outside the model of drawn tables; of the shipped codecs, those with a table alone, UTF-8, RAW, the EBCDIC targets and ZH-BONUS are modelled"])
prop("C19", quick_runs=25000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws a decoder (or a fallback list of decoders), 0-2 encode/decode hops through other encoding forms, an encoder, a text of up to 60 scalar values (plane borders, surrogate neighbours, table borders, uniform) with ill-formed parts in between, and the pieces it arrives in; non-trivial: input not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["second halves of pairs by themselves in UTF-16, and what is no character in UTF-32, are passed on as they are by design (dropping a byte would put all that follows out of step)", "U+0000 is read from UTF-8 and national sets only by the codec made for it", "what an encoding form leaves open (escapes naming surrogates, bytes after a cut entity in a fallback list) is left undecided by the model and skipped; see the counter c19.undecided"])
prop("C20", quick_runs=20000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws one or two character sets (or, in a quarter of the runs, one to be read only), a text over what they have in common (now and then a stretch of several hundred neighbours of the repertoire; for CP950 also its user-defined characters, for GB18030 all of Unicode), the Unicode forms the text starts and ends in, and the pieces it arrives in; non-trivial: text not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["a character belongs to a set if the set's decoding table yields it, or its rule for user-defined characters or four bytes covers it; the names GB2312 and JIS (ASCII tried before seven-bit pairs) and BIG5 (read as UAO, written as CP950) do not read what they write by design and are left out in that direction", "the shift codes themselves are not text in the EBCDIC sets"])
prop("C21", quick_runs=20000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws one to three normal forms or foldings and a text of up to 30 clusters (bases that decompose, compose, fold or belong to Hangul, followed by up to 40 marks of few classes or of neighbouring ones; now and then a pair of marks of each two neighbouring combining classes, or a whole class, the wrong way round) in drawn pieces; non-trivial: text not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["characters newer than Unicode 13.0 count as unassigned, as in the repository's tables"])
prop("C22", quick_runs=20000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws one to four filters (REPLACE, STRINGS, TRIM-WIDTH, AMBIGUOUS-PAD/-UNPAD, WIDTH, COUNT, INSERT, PASS, NULL, word tables and normal forms with white space set aside around them, lists of them, ANY at either end) with drawn classes, limits and data, one or two texts of few characters around the borders of those classes and of the width table, in drawn pieces, the second text through the same instance after the first was given up; non-trivial: text not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["the width of characters unassigned in or newer than Unicode 13.0 is left open", "an empty class argument, several REPLACE pairs and several COUNT names are left open"])
prop("C23", quick_runs=16000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws a conversion (of shipped codecs, or of made-up names with many phases and codecs), up to ten edits at drawn places counted from either end, each on the result of the one before, then packs an instance of the result and converts a drawn input in drawn pieces through it and through what it packs into; non-trivial: something was edited or packed",
     measure="distinct (conversion, edits) histories",
     assumptions=["every segment between bars has at least two phases (a single phase is a filter by definition of the parser, so its kind depends on its neighbours)", "places outside the conversion, other than right behind its end for inserting, are a caller's error"])
prop("C24", quick_runs=16000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws one to four transforms (the last one may raise, lower or fold to ASCII) over one or more segments and a text of characters those transforms map, their neighbours and line ends of every kind, in drawn pieces; non-trivial: text not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["a simple case mapping is preferred where Unicode has a simple and a full one", "what ASCII folding spells out for characters that are no ASCII letter with marks is left open, as is raising or lowering beyond ASCII", "characters newer than Unicode 13.0 count as unassigned"])
prop("C25", quick_runs=16000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="a run draws one to four phases of scoring (any scorer, counter name and order of arguments), bonus words, counting and measuring, a trained table on file, one handed over by the program, or none, and a text or typed data of characters at the ends of the scored ranges, listed words, their beginnings and others, in drawn pieces, after an abandoned conversion in a quarter of the runs; non-trivial: text not empty",
     measure="distinct (conversion, text, chunk sequence)",
     assumptions=["what each character and word is worth is as of the pinned tree"])
prop("C26", quick_runs=14000, quick_secs=60, real=REAL_LIB + MK, stub=STUB_OS,
     rule="run n takes the nth 56 entries of the 743,000 in all reference tables (so that one quick check looks at every entry), in order or shuffled, under the table's own name, an alias or in a list with another table, with unassigned, broken and unfinished sequences, escape sequences, shifts, characters of the other sets of a code and places of the computed ranges between them, in drawn pieces; non-trivial: something was converted",
     measure="distinct (conversion, input, chunk sequence)",
     assumptions=["tables of different published versions of one standard are taken as the pinned tree has them", "sets known to no outside reference are as of the pinned tree"])
prop("C27", quick_runs=7000, quick_secs=60, real=REAL_LIB + ["bsdconv command line tool and bsdconv-man"] + MK, stub=STUB_OS,
     rule="a run draws an argument list for the converter (files, missing files, in place, listing, conversions that cannot be created) with file contents and short reads, or a made-up installation with manual pages, redirections and aliases and 1-4 requests with optional failing reads and writes; non-trivial: a file was converted, a counter told or a page asked for",
     measure="distinct (arguments, files or installation, everything said)",
     assumptions=["the converter's counters add up over its files, as those of the library do", "redirections of manual pages form no cycle", "the order of the counters told is left open"])
prop("C28", quick_runs=7000, quick_secs=60, real=REAL_LIB, stub=STUB_OS,
     rule="a run draws a cascade of 2-4 stages whose sources and targets mix 1-4 decoders or encoders with pass-through codecs (marking, unmarking, for a class of characters, or plain), optionally with log codecs, a text mixing all the notations in use with broken pieces, and its arrival; non-trivial: text was given",
     measure="distinct (cascade, text, chunk sequence)",
     assumptions=["decoders and encoders are modelled from their tables as in C18"])
prop("C29", quick_runs=16000, quick_secs=60, real=REAL_LIB, stub=STUB_OS,
     rule="a run draws either a source list with UTF-8 under any of its options and bytes of one to six byte forms, halves of surrogate pairs, overlong, broken and cut sequences, or a target list of spelling codecs with drawn prefix, suffix, base and class, their aliases and showing codecs with typed data or text, and its arrival; non-trivial: input not empty",
     measure="distinct (conversion, input, chunk sequence)",
     assumptions=["overlong forms of five and six bytes without leave to go beyond Unicode are left open, as is the octal spelling of a character"])
prop("C17", quick_runs=5000, quick_secs=60, real=REAL_LIB + ["bsdconv command line tool and bsdconv-completion"] + MK, stub=STUB_OS + ["shared objects of a made-up installation are the real ones under another path"],
     rule="a run draws a made-up installation (modules, stray files, alias files with chains, lists, comments and long lines, missing directories) or takes the real one with a drawn locale, and 1-7 operations: listing in a drawn directory order with optional failing or short directory, open or read calls, look-up in mixed case, installing, removing, completing a drawn text, listing with the tool, converting by aliases in drawn pieces; non-trivial: something was listed, completed or converted by alias",
     measure="distinct (installation, operations and results)",
     assumptions=["module names are upper case; aliases form no cycle (a cycle in an alias table is an installation error bsdconv_create does not detect)"])
TOOL = REAL_LIB + ["bsdconv command line tool (src/bsdconv.c)"]
prop("C04", quick_runs=8000, quick_secs=60, real=TOOL, stub=STUB_OS,
     rule="a run draws a conversion, 1-3 files with modes and owners, and one of: a crash before the nth system call, up to 3 failing system calls (of 14 kinds), a full disk, short reads, a missing file; all files are checked after every file system change and the command is restarted at the end; non-trivial: a crash, fault or missing file took place",
     measure="distinct (conversion, old/new state of every file after each file system change)",
     assumptions=["a crash is the death of the process: completed system calls persist (no loss of unsynced kernel buffers)"])
prop("C05", quick_runs=10000, quick_secs=60, real=TOOL, stub=STUB_OS,
     rule="a run draws a conversion, standard input or 1-3 files, up to 3 failing reads/writes/opens (error codes, short transfers, full disk) and partial reads; non-trivial: a fault fired or a file was missing",
     measure="distinct (conversion, output length, exit status, number of faults)",
     assumptions=["what standard output holds after a reported failure is not constrained"])
prop("C06", quick_runs=6000, quick_secs=60,
     rule="a run draws an environment and 1-3 conversion strings (valid, odd arguments of every module, malformed) and creates each without and with 0-2 failing system calls (open, fstat, mmap, dlopen, read) at drawn positions, comparing heap, descriptors and mappings before and after and converting with every instance obtained; non-trivial: a creation failed or a fault fired",
     measure="distinct histories of (conversion string, result, number of faults)")
prop("C07", quick_runs=6000, quick_secs=60,
     rule="a run draws a history of 6-32 operations over up to 3 instances (create, convert with every output mode and input ownership, hand-over, reinitialise, store and counter operations, pack, module lookup and listing, conversion string editing, destroy; occasional failing open/write) and compares heap blocks, descriptors, mapped modules and working directory once no instance is alive and around every lookup; non-trivial: more than 4 operations",
     measure="distinct operation histories (prefixes)",
     assumptions=["an instance that received data by hand-over lets go of it before the sending instance is destroyed"])
