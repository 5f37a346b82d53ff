LIB = "src/libbsdconv.c"
P("C01", "Conversion result does not depend on how the input arrives",
  "For every conversion and every byte stream, the converted bytes and all counters are the same however the stream is cut into successive calls (including empty pieces), whoever owns the input memory, and whether the end of input is announced with the last piece or separately.",
  ["schedules", "inputs", "configurations"],
  "for all conversions of the shipped modules (cascades, fallback lists, arguments), all byte streams (well formed, malformed, truncated), and all ways to split the stream into calls",
  "The existing tests hand every input over in a single call; a multi-byte sequence, match in progress or error that straddles a call boundary is never exercised.",
  [LIB, "modules/from", "modules/inter", "modules/to"],
  [("phase state machine keeps partial matches between calls", LIB + ": bsdconv()"), ("codec private state between calls", "modules/*/*.c: cbconv/cbinit"), ("flush of pending matches", LIB + ": bsdconv() flush handling, cbflush")],
  ["output of bsdconv()", "counters"],
  note="Differential oracle: the same stream delivered in one call to a fresh instance. All code real; delivery schedule simulated.",
  state=[("partial match", "bytes seen but not yet decided", LIB + ": struct bsdconv_phase"), ("codec state", "private decoder state", "modules/from/*.c")])
P("C02", "Every way of taking output delivers the same bytes once and in order",
  "Whatever sequence of output modes and buffer sizes a caller uses (held, fixed buffers of any size including size queries, allocated buffers, descriptor, stream, handed to another instance), the bytes delivered are exactly the bytes of the conversion, each once and in order, and the size announced by a query is exact.",
  ["schedules", "inputs", "histories"],
  "for all conversions and inputs and all sequences of (output mode, buffer size) per call",
  "Tests drain each conversion once, into one large allocated buffer; output pending over several calls with changing modes is not exercised.",
  [LIB, "src/bsdconv.h"],
  [("output switch", LIB + ": bsdconv() output modes"), ("hand-over to another instance", LIB + ": BSDCONV_PASS"), ("input given as a list", LIB + ": bsdconv() input")],
  ["output buffer and length after each call", "bytes received by descriptor/stream", "output of the downstream instance"],
  note="Reference model: a byte queue filled from a twin instance drained after every call. Real code throughout; sinks simulated.")
P("C03", "A failing, slow or short-writing sink never corrupts or loses output",
  "When the descriptor or stream that receives output takes only part of the data, is interrupted or fails for a while, what it has received is always a prefix of the converted data, and once it accepts data again everything not yet accepted is delivered without loss or repetition; counters are unaffected.",
  ["fault_sequences", "schedules", "inputs"],
  "for all conversions, inputs, delivery schedules and all sequences of short writes, EINTR, EAGAIN, ENOSPC and EIO at any write",
  "No test writes to a sink that can fail; short and interrupted writes never occur with the in-memory buffers the tests use.",
  [LIB],
  [("descriptor output", LIB + ": BSDCONV_FD"), ("stream output", LIB + ": BSDCONV_FILE")],
  ["bytes received by the sink after each call", "counters"],
  note="Fault sequence on the simulated sink; the oracle is prefix order during faults and equality after recovery. A stream that reports an error is allowed to have lost data.")
P("C04", "In-place conversion leaves each file complete: old or new",
  "When files are converted in place, then at every moment, and after a crash, a failing system call or a full disk at any point, each named file exists and holds either its complete original or its complete converted content with its mode and owner, no other file is touched, and repeating the command over the unconverted files finishes the job.",
  ["crash_points", "fault_sequences", "inputs"],
  "for all file sets, contents and conversions, all crash points between system calls and all sequences of failing or short system calls",
  "The tests never run the tool with -i under failure; a crash or full disk between truncation and completion is not reproducible with them.",
  ["src/bsdconv.c", LIB],
  [("temporary file and rename", "src/bsdconv.c: main(), -i branch"), ("descriptor and stream output", LIB + ": bsdconv() BSDCONV_FILE/FD")],
  ["file system after every change", "exit status"],
  note="Simulated file system with crash points and fault rules; invariant checked after each change, restart at the end. Process death only: completed system calls persist.",
  state=[("named file", "content, mode, owner", "file system"), ("temporary file", "converted so far", "src/bsdconv.c: tmp")])
P("C05", "Exit status 0 means all input was read and all output written",
  "Whatever reads, writes and opens fail, are short or interrupted, the command line tool reports success only if every input was read to its end and exactly the complete converted data was written; without a failure it reports success.",
  ["fault_sequences", "inputs"],
  "for all conversions, inputs (standard input or several files) and all sequences of failing, short or interrupted reads, writes and opens",
  "Tests only run the tool against working files and pipes.",
  ["src/bsdconv.c", LIB],
  [("read loop", "src/bsdconv.c: main()"), ("write to standard output and final close", "src/bsdconv.c: main()")],
  ["standard output", "exit status"],
  note="Oracle: the conversion of all inputs in one call. Simulated descriptors with fault rules.")
P("C06", "Creating an instance either works or fails cleanly",
  "Every attempt to create an instance, from any string and with any system call failing on the way, either yields an instance that converts exactly as one created without trouble, or reports failure with a reason and leaves no memory, descriptor or mapping behind; either way later creations are unaffected.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "for all conversion strings and module arguments, valid or not, all environments, and all sequences of failing opens, reads, maps and module loads",
  "Tests create instances from valid strings on a working system; failure in the middle of creation and malformed arguments are not exercised.",
  [LIB, "src/libbsdconv_module.c", "modules"],
  [("parsing, alias resolution, loading, codec creation and unwinding", LIB + ": bsdconv_create()"), ("argument handling of modules", "modules/*/*.c: cbcreate()")],
  ["return value and reason", "live heap blocks, descriptors, mappings", "output of the instance"],
  note="Fault rules on the simulated OS at every stage of creation; resource accounting plus differential oracle.")
P("C07", "Whatever an instance took from the process is given back",
  "After any history of creating, using and destroying instances and of looking up modules, including failures, once no instance is left the process owns exactly the memory, descriptors and mappings it owned before, and its working directory never changes.",
  ["histories", "fault_sequences"],
  "for all histories of API calls over several instances, all output modes and ownerships, and points of abandonment",
  "The tests run one conversion per process and never look at what is left behind.",
  [LIB, "src/libbsdconv_module.c", "src/libbsdconv_util.c", "modules"],
  [("release of queued data, pool, codecs, counters and store", LIB + ": bsdconv_destroy(), bsdconv_init()"), ("release of codec state", "modules/*/*.c: cbdestroy()"), ("lookup and listing", "src/libbsdconv_module.c")],
  ["live heap blocks, descriptors, mapped modules, working directory"],
  note="Resource conservation over random histories. Data handed over from one instance to another must be released before the sender is destroyed.")
P("C08", "Reinitialising an abandoned instance makes it as good as new",
  "An instance whose previous conversion was abandoned at any point (mid-sequence, with output undelivered, with input pending, flushed or not) behaves after reinitialisation exactly like a newly created instance: same output and the same counter increments.",
  ["histories", "crash_points", "inputs"],
  "for all conversions, all earlier sessions and all points at which they are abandoned, and all following inputs",
  "Tests create one instance per conversion and convert one complete input; reuse after an interrupted session is not exercised.",
  [LIB, "modules/from", "modules/inter", "modules/to"],
  [("reset of the engine", LIB + ": bsdconv_init()"), ("reset of codec state", "modules/*/*.c: cbinit()")],
  ["output and counters of the session after reinitialisation"],
  note="Differential oracle: a fresh instance. Abandonment point drawn per run.")
P("C10", "Error counters account for exactly what was dropped",
  "The input error counter advances by the number of input bytes no source decoder accepted and the output error counter by the number of characters no target encoder accepted; what is kept is not affected by what is dropped, counters add up over sessions until reset, and counter handles stay valid.",
  ["inputs", "histories", "schedules"],
  "for all conversions, all malformed inputs and chunkings, and all sequences of sessions and counter resets",
  "Tests check error counts for a few single inputs; the relation between dropped data and counts over malformed streams, chunking and repeated sessions is not covered.",
  [LIB],
  [("input error accounting", LIB + ": bsdconv() FROM phases"), ("output error accounting", LIB + ": bsdconv() TO phases"), ("counter registry", LIB + ": bsdconv_counter(), bsdconv_counter_reset()")],
  ["counters", "output of the same conversion with a catch-all fallback appended"],
  note="Conservation oracle: the same conversion with a catch-all decoder or marker appended shows each dropped item.")
P("C11", "Per-instance key/value store behaves like a map",
  "For every history of set, get, has and delete on an instance's key/value store, interleaved with conversions and reinitialisation, each lookup returns the value last set for exactly that key and nothing for absent or deleted keys.",
  ["histories"],
  "for all operation histories over all keys",
  "The existing tests do not touch the store directly; only long histories with deletions and colliding keys show lost or wrong entries.",
  [LIB],
  [("key/value store", LIB + ": bsdconv_hash_set/get/has/del")],
  ["return values of the store operations"],
  note="Refinement against a map, checked after every operation.")
P("C12", "A cascade equals its stages run one after another",
  "Converting with several conversions joined into one cascade gives the same bytes as feeding the output of each stage into the next, and its counters are the sums over the stages, for every way input and intermediate data are cut into pieces.",
  ["schedules", "inputs", "configurations"],
  "for all cascades, inputs and cuts of the input and of every intermediate stream",
  "Tests cover a handful of fixed cascades with single-call input; boundaries between stages that fall inside sequences are not exercised.",
  [LIB],
  [("stages chained in one instance", LIB + ": bsdconv_create(), bsdconv()"), ("flush through all stages", LIB + ": bsdconv() flush")],
  ["output and counters"],
  note="Refinement against the stages run separately, with independent delivery schedules between them.")
P("C14", "Endless streams convert in bounded memory and constant time per block",
  "On an endless periodic stream, or an endless run of documents converted one after another on one instance (reinitialised in between, the last one finished or abandoned), the memory held by an instance and the work per period do not grow with its age, in every output mode, provided the conversion does not by definition wait for an end marker; after a flush nothing is left pending.",
  ["schedules", "inputs", "configurations"],
  "for all such conversions, periodic streams, chunkings and output modes",
  "Tests convert short strings; growth per character is invisible there.",
  [LIB, "modules/from", "modules/inter", "modules/to"],
  [("list nodes returned to the pool", "src/bsdconv.h: DATUM_FREE, LISTFREE"), ("helper instances inside codecs", "modules/inter/TRIM-WIDTH.c, _NFC.c, ALIAS-*.c")],
  ["live heap blocks and executed basic blocks per period"],
  note="Liveness/progress and resource bound over simulated time (basic blocks, live heap). Conversions that collect until a marker (STRINGS, WHITESPACE-*, BSDCONV source) are excluded.")
P("C09", "Instances in different threads do not influence each other",
  "When several threads each use their own instances at the same time, with the same or different modules, and look modules up or list them, every thread gets exactly the output, counters and look-up results it would get alone, for every interleaving.",
  ["schedules", "inputs", "configurations"],
  "for all sets of conversions and look-ups spread over threads, all inputs and all interleavings",
  "The existing tests use one instance at a time in one thread.",
  [LIB, "src/libbsdconv_module.c", "modules"],
  [("all conversion state lives in the instance", LIB + ": struct bsdconv_instance"), ("modules keep no writable globals", "modules/*/*.c"), ("module lookup", "src/libbsdconv_module.c")],
  ["output, counters and look-up results of every thread"],
  note="Seeded scheduler preempting real code at basic blocks; where a session alone changes data shared by all instances (writable data of the library and modules, watched block by block), pairs are run switching exactly there; oracle: each session alone. Sequentially consistent memory.")
P("C13", "No input can make a conversion misuse memory, hang or guess",
  "Whatever bytes, internal packets, arguments and output modes a caller uses, a conversion touches only memory it owns, comes to an end, and its output and counters are determined by the input alone, not by what fresh memory happens to contain.",
  ["inputs", "configurations", "schedules"],
  "for all conversion strings, all byte streams and internal packets, all chunkings and output modes, and any content of fresh heap memory",
  "Tests feed short well-formed text and run without memory checking; leftovers in recycled memory are the same in every test run.",
  [LIB, "modules"],
  [("packet parsing", "modules/from/*.c, modules/inter/*.c, modules/to/*.c"), ("input and output buffers", LIB + ": bsdconv()")],
  ["memory accesses", "number of executed steps", "transcript of outputs and counters under different memory content"],
  note="Heap content is one of the simulated nondeterminism sources; AddressSanitizer and a step bound watch every run. Stack leftovers are not controlled.")
P("C16", "Training a score table never loses or invents counts",
  "Training a character table while converting leaves the text unchanged and raises each character's count by exactly its occurrences up to the cap; after any crash, failing call or full disk every count lies between its old value and that, the table never shrinks, and later sessions and scoring use what was recorded.",
  ["fault_sequences", "crash_points", "inputs", "histories"],
  "for all texts, initial tables, histories of training sessions, crash points and sequences of failing or short system calls",
  "No test trains a table, and none makes reads, writes or seeks of the table fail.",
  ["modules/inter/SCORE-TRAIN.c", "modules/inter/SCORE.c"],
  [("count update", "modules/inter/SCORE-TRAIN.c: cbconv()"), ("table used for scoring", "modules/inter/SCORE.c")],
  ["score table file", "list file", "output and score counter"],
  note="Simulated file with crash points and faults; reference model of the counts as a pair of bounds.",
  state=[("score table", "one count per character", "score table file")])
MKC = "src/bsdconv-mktable.c"
P("C15", "Compiling a codec table is repeatable and all or nothing",
  "Compiling the same table source gives byte-identical output whatever memory held before and however reads and temporary storage behave; exit status 0 means the complete table was written, a reported failure leaves no partial table, malformed lines do no harm, and after a crash the same command gives the table.",
  ["inputs", "fault_sequences", "crash_points"],
  "for all table sources (well formed or not), all memory contents, all sequences of failing or short system calls and all crash points",
  "The build compiles the shipped tables once on a working system; nothing looks at exit status or partial output under failure.",
  [MKC, "src/libfmalloc.c"],
  [("parsing of the table source", MKC + ": main()"), ("layout and writing of the table", MKC + ": main()"), ("temporary storage", "src/libfmalloc.c")],
  ["output file", "exit status", "other files"],
  note="The real compiler runs as a simulated process; oracle: its own undisturbed run (repeatability); what the table means is a separate property.",
  state=[("table file", "compiled table", "output path")])
P("C18", "Conversion follows its tables: longest match, first codec first",
  "For every set of codec tables, a conversion yields what the tables say: at each position the first alternative that has a match applies its longest one, the first entry for a key counts, unmatched input bytes are dropped and counted, unmatched characters pass through filters and are dropped and counted at the output, however the input arrives.",
  ["inputs", "configurations", "schedules"],
  "for all tables of literal, multi-character and wildcard entries, all phase and fallback structures, all inputs and all cuts of the input",
  "The existing tests use the shipped tables with single inputs; overlapping entries, backtracking across calls and empty replacements are hardly present in them.",
  [LIB, "src/bsdconv.h", MKC],
  [("matching in the three kinds of phase", LIB + ": bsdconv()"), ("table access", "src/bsdconv.h: get_offset(), read_state()"), ("table layout", MKC)],
  ["output and error counters"],
  note="Refinement against a small matcher written from the table format; tables are compiled by the real compiler and served from the simulated file system.")
P("C19", "Unicode encoding forms carry any text unchanged",
  "For every text and every chain of Unicode encoding forms (UTF-8, CESU, UTF-16, UTF-32, UCS-2, GB18030, numeric entities and escapes), what comes out says exactly the characters that went in, in whatever pieces it arrives. Ill-formed sequences of UTF-8, escapes and entities, and a first half of a pair in UTF-16 without its second, never come out as characters: their bytes are dropped one by one and counted, and characters the target cannot represent are dropped and counted.",
  ["inputs", "configurations", "schedules"],
  "for all texts of any Unicode scalar values with ill-formed parts in between, all chains of encoding forms and all cuts of the input",
  "Tests convert a few short texts, mostly of the basic plane and in one piece; supplementary planes, surrogates, truncated and overlong sequences across calls hardly occur.",
  ["modules/from", "modules/to", LIB],
  [("decoders", "modules/from/_UTF-8.c, UTF-16LE.c, UTF-32LE.c, _GB18030.c, ESCAPE.c, ASCII-NUMERIC-HTML-ENTITY.c"), ("encoders", "modules/to/_UTF-8.c, UTF-16LE.c, UTF-32LE.c, UCS-2LE.c, _GB18030.c, ASCII-ESCAPED-UNICODE.c"), ("matching of table entries and callbacks", LIB + ": bsdconv()")],
  ["output and error counters"],
  note="Refinement against a decoder and encoder written from the definitions of the encoding forms; the delivery of the input is simulated.")
P("C20", "Text survives a national character set",
  "For every text made of characters a national character set (code pages, Big5, GBK, JIS, EBCDIC with shift states, CCCII, ...) has sequences for, converting it into that set and back, also through several sets in turn, gives the same text without any error counted, however it arrives. What is read from a set that cannot be written is carried on by every Unicode form.",
  ["inputs", "configurations", "schedules"],
  "for all shipped character sets, all texts over their repertoires, all chains of such sets, and all cuts of the input",
  "Tests convert a few strings per character set; the mapping tables have tens of thousands of entries, and shift states and two-byte characters across calls are not exercised.",
  ["modules/from", "modules/to", LIB],
  [("mapping tables", "modules/from/*.txt, modules/to/*.txt"), ("shift states and four-byte sequences", "modules/from/EBCDIC.c, modules/to/EBCDIC.c, modules/*/_GB18030.c"), ("names", "modules/from/alias, modules/to/alias")],
  ["output and error counters"],
  note="The text itself is the oracle; the repertoire is read from the decoding table, the writing direction and the way back are what is judged.")
P("C21", "Normalisation gives the Unicode normal form, however text arrives",
  "For every text (as far as Unicode 13 goes), NFC, NFD, NFKC and NFKD give exactly its Unicode normal form and the case foldings its folding, whatever pieces the text arrives in and whatever normalisations follow each other.",
  ["inputs", "schedules"],
  "for all texts of any scalar values, in particular any runs of combining marks, precomposed characters, conjoining letters and compatibility characters, all cuts of the input and all chains of normal forms",
  "Tests normalise a few characters, in one piece; reordering and blocked composition over runs that are still open when a call ends are not exercised.",
  ["modules/inter"],
  [("decomposition tables", "modules/inter/_NFD.txt, _NFKD.txt, _NF-HANGUL-DECOMPOSITION.c"), ("canonical ordering", "modules/inter/_NF-ORDER.c, _NF-CCC.h"), ("composition", "modules/inter/_NFC.c, _NFC-MAP.txt, _NF-HANGUL-COMPOSITION.c"), ("folding", "modules/inter/CASEFOLD.txt")],
  ["output and error counters"],
  note="Refinement against an implementation of the Unicode algorithms over data taken from Python's unicodedata, not from the repository.")
P("C22", "Text filters do what their manual says",
  "Replacing a sequence, picking runs or classes of characters, limiting, counting, measuring and trimming display width, padding and unpadding characters of ambiguous width, inserting, putting white space aside and back, moving control sequences out of characters, and substituting what cannot be converted give exactly the characters and counts their manual and the Unicode 13 data (blocks, East Asian width) say, for every text, however it arrives and whatever went through the instance before.",
  ["inputs", "histories", "schedules", "configurations"],
  "for all texts (and typed internal data), all arguments and combinations of these filters, all cuts of the input, and all earlier, abandoned conversions of the instance",
  "Tests run one example of a few of these; filters keep a position, a run, a remaining width or a pending character across calls, and no test cuts, ends or restarts there.",
  ["modules/inter", "modules/filter", "modules/from", "modules/to"],
  [("sequence and run state", "modules/inter/REPLACE.c, STRINGS.c, BIG5-DEFRAG.c, WHITESPACE-*.c"), ("width", "modules/inter/WIDTH.c, TRIM-WIDTH.c, AMBIGUOUS-*.c, _WIDTH.h, _AMBIGUOUS.h"), ("classes", "modules/filter/*.c"), ("selection, counting, substitution", "modules/inter/PASS.c, COUNT.c, INSERT.c, NULL.c, modules/*/ANY.c, modules/from/ANSI-CONTROL.c")],
  ["output and counters"],
  note="Refinement against a list model of each filter over data taken from Python's unicodedata and perl's Unicode::UCD.")
P("C23", "Conversion strings survive editing and packing",
  "Inserting or replacing a phase or codec, counted from either end, changes exactly that part of a conversion string and leaves the rest as it was. The string packed from an instance describes a conversion that gives the same output and counts, and packs into itself.",
  ["histories", "inputs", "configurations"],
  "for all conversion strings, all sequences of edits and all inputs to the conversion packed",
  "Tests make four edits to one short string; places counted from the end, edits of edited strings, aliases with arguments and several segments are not exercised.",
  ["src/libbsdconv.c", "src/libbsdconv_util.c"],
  [("parsing and packing", LIB + ": bsdconv_unpack(), bsdconv_pack()"), ("editing", "src/libbsdconv_util.c: bsdconv_insert_phase(), bsdconv_replace_phase(), bsdconv_insert_codec(), bsdconv_replace_codec(), bsdconv_get_phase_index(), bsdconv_get_codec_index()")],
  ["returned strings", "output and counters of instances made from them"],
  note="Histories of edits against a list of lists; packed conversions against the instance they came from.")
P("C24", "Case, width, raised-letter and line-end transforms follow Unicode",
  "Upper- and lower-casing and full- and half-width conversion map every character as Unicode's data does and leave all others alone; raising and lowering give only forms Unicode lists, and every ASCII character that has one gets it. ASCII folding turns a letter with marks into its plain letter, in its case, and yields nothing outside ASCII that was not there. Line-end conversion turns each CR LF, CR or LF into exactly one line end of the wanted kind, however the text is cut.",
  ["inputs", "histories"],
  "for all texts, all ways of cutting them into pieces and all chains of these transforms",
  "Tests transform one short ASCII string per module; no mapping outside it, no line end cut in two and no chain is exercised.",
  ["modules/inter", "src/bsdconv.h"],
  [("tables", "modules/inter/UPPER.txt, LOWER.txt, FULL.txt, HALF.txt, SUPER.txt, SUB.txt, ASCIIFOLD.txt"), ("line ends", "modules/inter/UNIX.txt, MAC.txt, WIN.txt, NL2BR.txt"), ("engine", LIB + ": bsdconv()")],
  ["output bytes", "error counters"],
  note="Text delivered in drawn pieces and call styles, against mappings taken from Python's and perl's Unicode data.")
P("C25", "Scores add up what each character is worth",
  "Scoring adds to the named counter, once for every character of the text and nothing else, what that character is worth to the chosen scorer or in the trained table on file, and the phrase and word bonuses for every occurrence of a listed word. It leaves the text as it is, and passes what is worth nothing to the next codec of the phase, however the text arrives.",
  ["inputs", "configurations", "histories"],
  "for all texts, scorers, counter names, trained tables on file (present, short or absent), combinations with other codecs in one or more phases, cuts of the input and earlier, abandoned conversions of the instance",
  "Tests score one short text with the default scorer; ranges' ends, words cut by the end of a call, tables shorter than the text's characters and several scorers in one conversion are not exercised.",
  ["modules/inter", "modules/scorer", "src/libbsdconv_scorer.c"],
  [("scorers", "modules/scorer/CJK.c, LATIN1.c; src/libbsdconv_scorer.c: load_scorer()"), ("counting", "modules/inter/SCORE.c, BONUS.c"), ("words", "modules/inter/ZH-BONUS.txt, ZH-BONUS-PHRASE.txt")],
  ["counters", "output bytes"],
  note="A list model over the published ranges and word lists as of the pinned tree (there is no outside reference for what a character should be worth).")
P("C26", "Every shipped character table says what its standard says",
  "Each sequence of every shipped character set is read as, and each character is written as, what that set assigns, with its escape sequences, shift states and computed ranges; what is not assigned is dropped and counted. Transliteration and script conversion replace exactly the words and characters listed, the longest first, and leave the rest alone.",
  ["inputs", "configurations"],
  "for all entries of all shipped tables, alone or in lists of several codecs, by their own names or an alias, in all orders and cuts of the input, with unassigned, unfinished and broken sequences between them",
  "Tests convert a few dozen characters of a handful of sets; more than 700,000 table entries are never looked at.",
  ["modules/from", "modules/to", "modules/inter", "src/bsdconv-mktable.c"],
  [("tables", "modules/from/*.txt, modules/inter/*.txt, modules/to/*.txt"), ("computed ranges", "modules/from/_GB18030.c, modules/to/_GB18030.c, modules/from/CP950-UDA.c"), ("states", "modules/from/_JIS.c, modules/to/EBCDIC.c and the IBM-9xx tables"), ("compiler and engine", "src/bsdconv-mktable.c; " + LIB + ": bsdconv()")],
  ["output bytes", "error counters"],
  note="Refinement against a list model over reference tables compared with Python's codecs and iconv (tools/mkreftables.py); sets neither knows (UAO, CCCII, Big5-E, transliteration, script conversion) are as of the pinned tree.")
P("C27", "The tools tell exactly what they did",
  "The converter tells on standard error, under the name of each file, every counter that is not zero by then and nothing else; a file that cannot be opened is named, the files before it are converted and those after it left alone. The manual tool prints the page of the module asked for in full, following redirections, or what an alias stands for, or that there is no page or no such module, and succeeds only if it could.",
  ["inputs", "configurations", "fault_sequences"],
  "for all argument lists, conversions, sets of files, installations with pages, redirections and aliases, and failing, short or interrupted reads and writes",
  "Tests run the converter on standard input without looking at what it reports, and never ask for a manual page.",
  ["src/bsdconv.c", "src/bsdconv-man.c"],
  [("counters and failures", "src/bsdconv.c: bsdconv_file(), main()"), ("manual pages", "src/bsdconv-man.c: man()")],
  ["standard output", "standard error", "exit status", "file contents"],
  note="Both tools as they are, run as processes on the simulated file system; the counters of one conversion per file by the library and the list of installed modules, pages and aliases are the model.")
P("C28", "A cascade keeps what an earlier stage has decoded",
  "In a cascade, what a stage hands on by pass-through reaches the next stage whole, in place, with type and mark; the next stage passes on exactly what is marked (or of the class asked for) and decodes only what lies between, and a mark lasts until it is taken off. The log codecs write down exactly what reaches them, and every byte and character dropped is counted, however the input arrives.",
  ["inputs", "configurations"],
  "for all cascades of 2-4 stages of decoders, encoders, pass-through codecs with any marking and class, and log codecs; all texts mixing notations; all ways input is cut into pieces",
  "Five tests convert one short text each by marked pass-through, in one piece; none logs anything, uses a class other than one or leaves a mark on.",
  ["modules/from/PASS.c", "modules/to/PASS.c", "modules/inter/PASS.c", "modules/from/BSDCONV-LOG.c", "modules/to/BSDCONV-LOG.c", "src/libbsdconv.c"],
  [("pass-through", "modules/from/PASS.c, modules/to/PASS.c: cbconv()"), ("marks between stages", "src/libbsdconv.c: dup_data_rt(), bsdconv()"), ("logs", "modules/from/BSDCONV-LOG.c, modules/to/BSDCONV-LOG.c")],
  ["output bytes", "log files", "counters"],
  note="The reference model keeps for each packet its bytes and whether it is marked, decodes between passed packets from the tables, and keeps both logs; the logs of the real codecs are read back from the simulated file system.")
P("C29", "A codec does exactly what its arguments say",
  "Reading UTF-8, surrogate pairs are joined, lone halves, overlong forms, NUL and code points beyond Unicode are read exactly when asked for, and all else is counted, byte by byte. What is spelt out in numbers, as a link or as an image comes out with the prefix, suffix and base asked for, for exactly the class of data asked for, under every alias, and what is shown on standard output or error is every item with its type and mark, in order.",
  ["inputs", "configurations"],
  "for all combinations of the arguments, in any order and case; all byte sequences, all typed data; all ways input is cut into pieces",
  "Some ten tests read one sequence each under one or two of the arguments and spell out short texts; none uses the forms of five or six bytes in a mixed list, a long prefix or the showing codecs.",
  ["modules/from/_UTF-8.c", "modules/to/ESCAPE.c", "modules/to/ASCII-HTML-INFO.c", "modules/to/ASCII-HTML-UNICODE-IMG.c", "modules/to/BSDCONV-OUTPUT.c", "modules/to/alias"],
  [("arguments of UTF-8", "modules/from/_UTF-8.c: cbcreate(), cbconv(), cbflush()"), ("spelling", "modules/to/ESCAPE.c: cbcreate(), cbconv()"), ("showing", "modules/to/BSDCONV-OUTPUT.c: cbconv()")],
  ["output bytes", "standard output and error", "counters"],
  note="The reference model decodes UTF-8 by arithmetic under the options in force and spells each item as the manual pages say; standard output and error are files of the simulator.")
MODC = "src/libbsdconv_module.c"
P("C17", "Module names: listing, look-up, aliases and completion agree",
  "For every content and reading order of the module directories, the modules listed are in sorted order exactly those installed and the aliases on file, a name is found, in any case, exactly when installed, an alias converts exactly as what it stands for, and completion offers exactly the names that continue the text. A directory or alias file that cannot be read takes only its own names away.",
  ["configurations", "fault_sequences", "inputs"],
  "for all sets of installed modules and alias files (modules coming and going between calls), all orders of directory entries, failing directory and alias reads, all texts to complete and all conversions naming aliases",
  "The existing tests look at the shipped modules in the order one file system returns them and never list, look up or complete names.",
  [MODC, "src/bsdconv-completion.c", "src/bsdconv.c", LIB],
  [("listing and look-up", MODC + ": bsdconv_modules_list(), bsdconv_module_check()"), ("aliases", MODC + ": bsdconv_solve_alias(); " + LIB + ": bsdconv_create()"), ("completion and -l", "src/bsdconv-completion.c, src/bsdconv.c: list_modules()")],
  ["lists returned", "look-up results", "output of the tools", "output and counters of conversions by alias"],
  note="Made-up installations on the simulated file system (alias tables compiled by the real compiler as tools/mkalias.py would write them) and the real one; the list of installed names is the model.",
  state=[("module directory", "installed modules", "directory entries"), ("alias file", "aliases on file", "alias and ALIAS-* tables")])
NA = []


def N(id, title, statement, text, why, files, mech, observe, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                    anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "none"}), reason))


N("N04", "Character set detection prefers the right decoding",
  "The scorers rank the correct decoding of a text above wrong ones for texts of sufficient length.",
  "for all texts of the supported languages",
  "Tests score single examples.",
  ["modules/scorer", "modules/filter"], [("scores", "modules/scorer/*.c")], ["score counter"],
  "A statistical quality of static tables: no precise oracle exists and no schedule or fault takes part (score counters' independence of delivery is C01, training is a separate property).")
