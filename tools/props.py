"""The properties: text, anchors, and the note each check carries in MANIFEST.json."""

PBT = "property-based testing with coverage-guided fuzzing"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, technique, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, note=note, technique=technique, observe=list(observe)))


I = "include/utl/"

# ------------------------------------------------------------------ text
P("T01", "Slices compare and search exactly like the byte strings they show",
  "For all byte strings (embedded NULs and bytes above 127 included), comparing two slices with ==, != and < gives "
  "what comparing the viewed bytes as std::string_view gives, also when both show parts of one text, and the order is a strict total order. "
  "starts_with, contains and the searches find a needle exactly where it first occurs in the bytes, and never look outside the slice.",
  ["inputs"], "All pairs of byte strings and all needles, related (prefix, embedded, one byte changed) and unrelated.",
  "The tests compare a few short literals; embedded NULs, prefixes at the end of the slice and bytes above 127 are not reached.",
  [I + "parser/cstr.h"], [("comparison and search operators of cstr", I + "parser/cstr.h: struct cstr")],
  "Differential against std::string_view in exactly bounded memory (ASan red zones directly behind the slice).",
  PBT + " against std::string_view")
P("T02", "Slicing and trimming stay inside the text and select what was asked for",
  "Any sequence of substr, advance, strip and trim operations on a slice yields exactly the bytes the same operations select on a "
  "string, with bounds behind the end clamped to the end. The result always lies inside the original text.",
  ["histories", "inputs"], "All texts and all histories of slicing operations with in-range, out-of-range and reversed bounds.",
  "Tests use in-range bounds on short literals, one operation at a time.",
  [I + "parser/cstr.h"], [("substr, skip and trim operations", I + "parser/cstr.h: struct cstr, get_until, skip_*")],
  "Reference model on std::string; every intermediate slice is checked for containment.",
  "stateful " + PBT)
P("T03", "Splitting text into tokens and lines loses and invents nothing",
  "Tokenizing yields the fields between separators, the functions which walk over lines (for_each_line, lines, get_line, "
  "skip_line and so on) all deliver the same lines, without LF or CRLF. A blank line in the middle is a line of its own; "
  "iterators over lines behave like positions in that list.",
  ["inputs", "histories"], "All texts over separators, LF, CR, CRLF and arbitrary bytes; all ways of walking over them.",
  "Tests use a handful of LF-terminated literals; CRLF, blank lines, missing trailing line breaks and agreement between the ways are not covered.",
  [I + "parser/cstr.h"], [("for_each_token, for_each_line, get_line, skip_lines, lines()", I + "parser/cstr.h")],
  "Differential: all line functions against each other and a reference splitter.",
  "differential " + PBT)
P("T04", "Integers of every width parse to the value that was written",
  "For every integer type from 8 to 64 bits and every value of it, parsing its decimal text (with sign, leading zeros, and any "
  "text behind it) gives exactly that value and leaves the cursor directly behind the last digit. "
  "Text without a number gives the default value; parse_verify accepts exactly the texts that are a number and nothing else.",
  ["inputs"], "All values of all eight integer types, all suffixes, all texts without digits.",
  "Tests parse about a dozen numbers; extreme values of each width, suffixes and more digits than fit are not covered.",
  [I + "parser/arg_parser.h"], [("parse_arg for integers, parse, parse_verify", I + "parser/arg_parser.h: arg_parser")],
  "Round trip with std::to_string; UBSan reports any overflow.", "round-trip " + PBT)
P("T05", "Floating point numbers parse to the written value within rounding error",
  "For every decimal text (sign, whole digits, point, fraction, anything behind it) the parsed float or double equals the correctly "
  "rounded value up to the rounding of one operation per digit, and the cursor stands directly behind the number. "
  "A sign changes only the sign; text which does not start with a number is refused.",
  ["inputs"], "All decimal numbers with up to 200 digits before and 60 behind the point, all suffixes, and arbitrary text.",
  "Tests parse a few short numbers; long digit strings, numbers like '.5' and '5.', and suffixes are not covered.",
  [I + "parser/arg_parser.h"], [("parse_fp, parse_arg for float and double", I + "parser/arg_parser.h")],
  "Differential against strtold with a stated tolerance of one rounding per digit operation.",
  "differential " + PBT)
P("T06", "Booleans, strings and paths parse to what was written",
  "'true' and 'false' in any mix of upper and lower case parse to their value whatever the default, any text that starts with "
  "neither letter gives the default, and strings, slices and paths take over exactly the bytes of the slice. "
  "Nothing is read outside the slice.",
  ["inputs"], "All mixed-case spellings, damaged words, arbitrary bytes, both defaults.",
  "Tests cover single spellings with the default 'false' and zero-terminated literals.",
  [I + "parser/arg_parser.h"], [("parse_arg for bool, std::string, cstr, path", I + "parser/arg_parser.h")],
  "Reference words plus exactly bounded buffers.", PBT + " against a reference model")

# ------------------------------------------------------------------ csv
P("C01", "The CSV table reader returns the cells that were written, by column name",
  "For any table encoded as CSV with any of the supported separators, reading it returns for each row the values written under the "
  "named columns, whatever the order of the columns, unknown columns in between, quoting, escaped quotes, CRLF or LF, short rows and a "
  "missing final line break. A missing column or cell gives the type's default value, and a header of more than 64 columns is refused.",
  ["inputs"], "All tables of up to 25 rows and 46 columns with cells of arbitrary bytes (without line breaks), and header widths around 64 and 256.",
  "Tests read a few fixed documents; combinations of column order, quoting, short rows, CRLF and types cannot be enumerated by hand.",
  [I + "parser/csv.h"], [("read_header, parse_column, read_row, read", I + "parser/csv.h"), ("read_file", I + "parser/csv.h: read_file")],
  "Round trip: generated cells, independent encoder, parsed back as int, double, bool, string, slice and 64 bit.",
  "round-trip " + PBT)
P("C02", "The streaming CSV reader returns the cells that were written",
  "Streaming a CSV document line by line into structs with named fields returns for each non-blank line the written values, with each "
  "field's declared default where its column or cell is missing. The result agrees with the table reader on the same document.",
  ["inputs"], "All tables as in C01, field defaults of zero and others, and both readers on the same document.",
  "Tests read two fixed documents.",
  [I + "parser/csv_range.h", I + "parser/line_range.h", I + "parser/buf_reader.h"],
  [("csv_range", I + "parser/csv_range.h"), ("line_range", I + "parser/line_range.h")],
  "Round trip and differential against the table reader.", "round-trip and differential " + PBT)
P("C03", "Malformed CSV never leaves the input or damages other rows",
  "For arbitrary bytes both CSV readers terminate and every cell they return lies inside the input. "
  "A malformed row (unclosed quotes, stray quotes, too few or too many cells) affects only itself: every row reads as if it were the only row.",
  ["inputs"], "All byte strings as documents, rows and single columns.",
  "Tests read well-formed documents only.",
  [I + "parser/csv.h", I + "parser/csv_range.h"], [("parse_column", I + "parser/csv.h"), ("read", I + "parser/csv.h")],
  "Metamorphic: each row of an arbitrary document is compared with the same row in a document of its own; ASan red zones.",
  "metamorphic " + PBT + " (ASan)")
P("C04", "Splitting one record returns its columns as typed values",
  "Splitting a record at a separator into typed fields returns exactly the values that were written, in order; columns that are not "
  "asked for are ignored. Fields behind the end of the record keep their default.",
  ["inputs"], "All records of up to eight typed columns and arbitrary text.",
  "Tests split three literals.",
  [I + "parser/split.h", I + "parser/csv.h", I + "parser/arg_parser.h"], [("split", I + "parser/split.h")],
  "Round trip.", "round-trip " + PBT)

# ------------------------------------------------------------------ files
P("F01", "Every way of reading lines of a file or buffer delivers the same lines",
  "Reading lines from memory, through a file object, a buffered reader, a memory map or for_each_line_in_file delivers the same "
  "sequence of lines for every content. Memory maps show exactly the bytes of the file, the empty file included, also after being moved.",
  ["inputs", "histories"], "All contents over LF, CRLF, blank lines, NUL and arbitrary bytes, sizes around page and buffer limits.",
  "Tests read a few small literals, each through one reader.",
  [I + "parser/line_range.h", I + "parser/buf_reader.h", I + "parser/mmap_reader_unix.h", I + "for_each_line_in_file.h", I + "parser/file.h"],
  [("line_range", I + "parser/line_range.h"), ("mmap_reader", I + "parser/mmap_reader_unix.h")],
  "Differential between the readers and a reference splitter; files live in the run's scratch directory.",
  "differential " + PBT)
P("F02", "What is written to a file is read back; missing files are reported",
  "Bytes written to a file object are read back unchanged, in full or in blocks, by every reader, for every size. "
  "A missing file or a failing device is reported by file and mmap_reader with an exception, by read_file with an empty optional (also for a directory), "
  "and never read as empty content.",
  ["inputs", "histories", "fault_sequences"], "All contents, block sizes and operation histories on one file object; every reader on missing files and failing devices.",
  "Tests write and read one small file and never let I/O fail.",
  [I + "parser/file.h", I + "read_file.h", I + "parser/mmap_reader_unix.h"], [("file", I + "parser/file.h: struct file"), ("read_file", I + "read_file.h")],
  "Model of the file's bytes; /dev/full and unreadable paths as injected faults.", "stateful " + PBT + " with injected I/O faults")

# ------------------------------------------------------------------ command line
P("L01", "Command line flags take the values given, and required flags are enforced",
  "For any order and mix of long and short flags each flag takes the value behind it (the last one wins, boolean flags take none), all others "
  "keep their default, and a missing required flag is refused with its name. Nothing behind the last argument is read; "
  "the printed flags and descriptions show every flag with its value.",
  ["inputs"], "All argument lists over eight flags of all types, with repeated flags, unrelated words and flags without a value.",
  "Tests parse two fixed argument lists.",
  [I + "cmd_line_parser.h"], [("parse_flags, print_flags, description", I + "cmd_line_parser.h")],
  "Reference interpretation of the argument list; argv is an exactly bounded heap array.", PBT + " against a reference model")

# ------------------------------------------------------------------ ranges
P("R01", "A pipeline computes what the same steps compute on a vector",
  "For any source and any sequence of pipeline steps (transform, filter, take_while, unique, iota, ...) ending in any sink (vec, sum, avg, "
  "min/max, count, find, accumulate, insert, emplace_back, for_each), the result equals that of the same steps applied eagerly, one after the other. "
  "Element order is kept; sum adds as std::size_t, max and avg yield a double. The functions given to remove_if, count, find, for_each and accumulate are called once for each element that reaches them, in order.",
  ["inputs", "programs"], "All element sequences and all chains of up to six steps (type-erased), plus statically nested chains.",
  "Tests run about ten fixed pipelines on small vectors.",
  [I + "pipes.h", I + "pipes/transform.h", I + "pipes/remove_if.h", I + "pipes/take_while.h", I + "pipes/unique.h", I + "pipes/vec.h", I + "pipes/iota.h",
   I + "pipes/accumulate.h", I + "pipes/avg.h", I + "pipes/count.h", I + "pipes/find.h", I + "pipes/sum.h", I + "pipes/max.h", I + "pipes/for_each.h"],
  [("range adaptors and sinks", I + "pipes/*.h")],
  "Differential against eager std::vector steps.", "model-based " + PBT)
P("R02", "Pipelines are lazy: they pull no more than needed and never past the end",
  "A pipeline never reads or steps behind the end of its source, and it pulls no more elements of an endless source than its result needs. "
  "Single-pass sources deliver every element exactly once.",
  ["inputs", "programs"], "All element sequences, chains of steps and endless generators with take_while or find behind them.",
  "Tests never count the pulls and use sources that survive an extra step.",
  [I + "pipes/range.h", I + "pipes/generate.h", I + "pipes/take_while.h", I + "pipes/remove_if.h", I + "pipes/unique.h", I + "pipes/find.h"],
  [("range_t protocol: begin, end, next, valid, read", I + "pipes/range.h")],
  "Instrumented sources count every pull and abort on a step behind the end.", PBT + " with instrumented sources")
P("R03", "Pipelines leave their sources alone, can be re-run, and keep temporaries",
  "Building and running a pipeline over a named container does not modify that container, and running it again gives the same result. "
  "A pipeline over a temporary container keeps the container alive.",
  ["inputs", "programs"], "All element sequences (including move-sensitive strings) and the adaptors over lvalues and rvalues.",
  "Tests run each pipeline once and look at its result only.",
  [I + "pipes/all.h", I + "pipes/make_range.h", I + "pipes/iterable.h", I + "pipes/unique.h", I + "pipes/take_while.h"],
  [("ownership by holding_t / reference", I + "pipes/all.h"), ("make_range", I + "pipes/make_range.h")],
  "Metamorphic (run twice, compare source before and after) under ASan.", "metamorphic " + PBT + " (ASan)")
P("R04", "zip walks several containers in lockstep and refuses different sizes",
  "zip yields the i-th elements of all containers together, for each i once and in order, as references through which writes reach the containers. "
  "Containers of different sizes are refused, except by the variants that allow it; no element is copied.",
  ["inputs"], "All sizes and contents of two to five containers of different kinds.",
  "Tests zip two or three vectors of a fixed size.",
  [I + "zip.h"], [("zip, zip_no_size_check", I + "zip.h")],
  "Reference loop over indices; elements count their copies.", PBT + " against a reference loop")
P("R05", "enumerate yields every element with its position",
  "enumerate yields each element of a container once, in order, with its zero-based position, as a reference to the element. "
  "Its iterators move, also back from the end, compare and measure distance like positions in the container.",
  ["inputs", "histories"], "All container contents and histories of iterator operations (++, --, +=, distance, comparison).",
  "Tests loop once over small vectors.",
  [I + "enumerate.h"], [("enumerate_iterator", I + "enumerate.h")],
  "Reference index model.", "stateful " + PBT)
P("R06", "nwise and pairwise yield every window of neighbours",
  "nwise<N> yields each window of N neighbouring elements once, in order, as references to the elements, and nothing for containers with "
  "fewer than N elements. pairwise does so for N = 2.",
  ["inputs"], "All container contents, window sizes two to five, containers smaller than the window.",
  "Tests use two fixed containers.",
  [I + "nwise.h", I + "pairwise.h"], [("nwise_range", I + "nwise.h")],
  "Reference loop over indices.", PBT + " against a reference loop")
P("R07", "Iterators built on the facade behave like positions",
  "An iterator which defines only a few basic operations on top of the iterator facade supports every operation of its category, and each has the effect "
  "of the same operation on a position in a sequence. Comparison, distance, sentinels and use with standard algorithms agree with that.",
  ["histories", "programs"], "All histories of iterator operations on input, bidirectional and random access iterators with minimal or full sets of basic operations.",
  "Tests instantiate the facade with a few iterators and loop once.",
  [I + "iterator_facade.h"], [("iterator_facade, iterator_facade operators", I + "iterator_facade.h")],
  "Reference index model over three facade instantiations.", "stateful " + PBT)

# ------------------------------------------------------------------ algorithms
P("A01", "Joins of sorted sequences pair equal groups and report the rest",
  "An inner join of two sequences sorted by a common order calls back once per group of equal elements present on both sides, with exactly those groups, in order; "
  "a left join in addition reports every group of the left side without partner, a full join those of both sides.",
  ["inputs"], "All pairs of sorted sequences with duplicates and custom orders.",
  "Tests join a few fixed sequences.", [I + "join.h"], [("inner_join, left_join, full_join", I + "join.h")],
  "Reference join over multimaps.", PBT + " against a reference join")
P("A02", "sorted_diff reports exactly what turns one sequence into the other",
  "Applying the reported additions, deletions and changes to the first sorted sequence yields the second. Elements with the same position in the order are paired: equal pairs are not "
  "reported, different ones are reported as a changed pair, and everything is reported in order.",
  ["inputs"], "All pairs of sorted sequences with and without common keys.",
  "One fixed test.", [I + "sorted_diff.h"], [("sorted_diff", I + "sorted_diff.h")],
  "Replay of the edit script.", "round-trip " + PBT)
P("A03", "power_set_intersection visits every pair of equal elements once",
  "For two sorted ranges the callback is called for every pair of equal elements, one from each range, exactly once, and for no other pair.",
  ["inputs"], "All pairs of sorted ranges with duplicates.", "One fixed test.",
  [I + "power_set_intersection.h"], [("power_set_intersection", I + "power_set_intersection.h")],
  "Reference double loop.", PBT + " against a reference loop")
P("A04", "equal_ranges splits a container into its groups of equal elements",
  "equal_ranges sorts the container and calls back once per maximal group of equal elements, in order; the linear variant does the same for "
  "neighbouring equal elements without reordering. The groups cover the container exactly.",
  ["inputs"], "All containers with duplicates, all orders.", "Two fixed tests.",
  [I + "equal_ranges.h", I + "equal_ranges_linear.h"], [("equal_ranges", I + "equal_ranges.h"), ("equal_ranges_linear", I + "equal_ranges_linear.h")],
  "Reference grouping.", PBT + " against a reference model")
P("A05", "Erasing and sorted insertion keep exactly the other elements",
  "erase, erase_if and erase_duplicates remove exactly the matching (or duplicated) elements and keep the others in their order; "
  "insert_sorted keeps a sorted container sorted, adds an element that is not there yet and nothing otherwise, and returns its position.",
  ["inputs", "histories"], "All containers, predicates and insertion histories, custom orders.", "A few fixed vectors.",
  [I + "erase.h", I + "erase_if.h", I + "erase_duplicates.h", I + "insert_sorted.h"], [("erase family", I + "erase*.h"), ("insert_sorted", I + "insert_sorted.h")],
  "Reference models on lists and multisets.", "stateful " + PBT)
P("A06", "sort_by orders several columns by one of them",
  "Sorting several columns by the first one returns columns to which one and the same permutation was applied, so that rows stay together and the first column is ordered; the inputs are not modified. Columns without any element stay empty.",
  ["inputs"], "All columns with duplicates and custom orders.", "One fixed test.",
  [I + "sort_by.h"], [("sort_by", I + "sort_by.h")], "Rows as tuples, compared as multisets.", PBT + " against a validity predicate")
P("A07", "get_or_create creates each entry once and never loses one",
  "get_or_create runs the creator exactly when the key is absent and returns a reference to the stored entry afterwards; get_or_create_index hands out dense indices "
  "in order of first appearance.",
  ["histories"], "All histories of lookups on ordered, hashed and list-backed maps, with throwing creators, creators that look up other keys of the same map, and move-only values.", "One fixed test each.",
  [I + "get_or_create.h", I + "get_or_create_index.h"], [("get_or_create", I + "get_or_create.h")],
  "std::map model with call counts.", "stateful " + PBT)
P("A08", "Conversions and algorithm wrappers equal the standard algorithms",
  "to_vec, transform_to, to_set, concat, repeat_n and the container wrappers of standard algorithms (find, find_if, count_if, any_of, all_of, none_of, equal, is_sorted, sort, nth_element, fill, "
  "min_element, max_element) do on the whole container what the standard algorithm does on its range, leaving the input untouched unless the algorithm modifies it.",
  ["inputs"], "All containers, predicates and orders.", "One or two literals per function.",
  [I + "to_vec.h", I + "to_set.h", I + "concat.h", I + "helpers/algorithm.h", I + "repeat_n.h"], [("to_vec", I + "to_vec.h"), ("wrappers", I + "helpers/algorithm.h")],
  "Differential against the standard library.", "differential " + PBT)
P("A09", "is_uniform tells whether all elements agree",
  "is_uniform is true exactly if all elements (or their projected keys) are equal; it holds for empty and one-element ranges and does not modify its input.",
  ["inputs"], "All sequences, nearly uniform ones over-represented.", "Three literals.",
  [I + "is_uniform.h"], [("is_uniform", I + "is_uniform.h")], "Reference loop.", PBT + " against a reference loop")
P("A10", "for_each_bit_set visits exactly the set bits",
  "For every unsigned number the callback is called once for each set bit, with the bit's position, in ascending order.",
  ["inputs"], "All 8 bit values and 16 to 64 bit values of every density.", "One literal.",
  [I + "for_each_bit_set.h"], [("for_each_set_bit", I + "for_each_bit_set.h")], "Reference loop over all bits.", PBT + " against a reference loop")
P("A11", "Enumerators print their own name; compile-time strings keep their text",
  "For every enum declared through the printable-enum macro, each enumerator converts to and streams as exactly its own name, however the list is laid out (spacing, line breaks, comments, any length). "
  "For every string literal of up to 30 characters the compile-time string holds exactly that text, and equal literals denote one type.",
  ["programs"], "Generated declarations: one to three hundred enumerators with prefixes of each other and any spacing; literals of 0 to 30 characters.",
  "Tests declare one enum and one literal: each declaration is a separate program.",
  [I + "printable_enum.h", I + "const_str.h"], [("PRINTABLE_ENUM", I + "printable_enum.h"), ("STRING_LITERAL", I + "const_str.h")],
  "Generated programs, compiled and run against the current headers.", "generated-program testing against the generator's own names")
P("A12", "Building a view struct from a source struct binds the right fields",
  "For every target struct of references, values and pointers, building it from a source struct binds each field to the first source field of the same type, or of a type that dereferences to it, or that points to the same type; "
  "the result is absent exactly if a field that must be dereferenced is null. References and pointers refer to the source's own objects.",
  ["programs", "inputs"], "Generated pairs of structs with 1 to 31 fields (values, raw and unique pointers) and every null pattern.",
  "Tests use three fixed structs; each field layout is a separate program.",
  [I + "init_from.h"], [("init_from, to_tuple, arity", I + "init_from.h")],
  "Generated programs with a reference matching computed by the generator.", "generated-program testing against a reference matching")
P("A13", "match and overloaded call the right handler",
  "match calls the first handler whose class the object has (its dynamic type or a base of it) with that object, and none else, and refuses an object without a handler as well as a null pointer; overloaded calls the handler that fits the alternative's type. "
  "Results are passed through unchanged.",
  ["inputs", "programs"], "All handler lists over a class hierarchy and all alternatives.", "One fixed case each.",
  [I + "match.h", I + "overloaded.h"], [("match", I + "match.h"), ("overloaded", I + "overloaded.h")],
  "Reference dispatch by dynamic_cast.", PBT + " against a reference dispatch")

P("H01", "The headers can be combined freely in a program",
  "Any of the library's headers, in any order and combination, included more than once and in any number of translation units of one program that is linked with the library's sources, compile and link. "
  "(Every unit has the standard library's headers before them.) What they provide works in such a program.",
  ["programs"], "Generated programs of one to three units that include one header to all of them in random order, with repetitions.",
  "The tests include each header in one fixed order in one unit; whether an include is missing or a function is defined twice depends on the order and number of units.",
  [I + "zip.h", I + "pipes.h", I + "verify.h", I + "parser/csv.h", I + "progress_tracker.h", "src/progress_tracker.cc"],
  [("include guards, inline definitions, includes between headers", I + "*.h")],
  "Generated programs, compiled, linked and run.", "generated-program testing (compile, link and run)")

# ------------------------------------------------------------------ concurrency
P("P01", "A parallel loop runs every job exactly once before it returns",
  "For every number of jobs and hardware threads and every schedule, a parallel loop calls the function exactly once for each index or element, reports progress exactly once for each finished job, and returns "
  "only after all calls have ended and all threads it started are gone. As many jobs as there are hardware threads can be in progress at once. Each thread-local state is used by one thread only; effects of the jobs are visible to the caller.",
  ["schedules", "inputs"], "All job counts 0 to 12, thread counts 0 to 5, element containers, and thread schedules.",
  "Tests run one loop on whatever schedule the machine happens to produce.",
  [I + "parallel_for.h"], [("job counter", I + "parallel_for.h: parallel_for_run"), ("join before return", I + "parallel_for.h: parallel_for_run")],
  "Schedules are controlled by the harness (sequentially consistent interleavings at every synchronisation operation and at sampled plain accesses, plus a vector-clock race detector); weak memory effects are seen only as data races.",
  "controlled-schedule " + PBT)
P("P02", "Errors in a parallel loop are reported, never lost or duplicated",
  "If jobs or their progress reports throw, continuing mode runs every job and returns one record per failed job with the job's index and its exception; quitting mode throws one of the jobs' exceptions after all threads have ended; "
  "a thread whose job failed starts no other job, and once it has ended the other threads start at most the one job they were about to take. Without errors nothing is reported, and no job runs twice in either mode.",
  ["schedules", "fault_sequences"], "All subsets of failing jobs (in the function or in the progress report), both modes, all schedules.",
  "Tests let one fixed job fail.",
  [I + "parallel_for.h"], [("errors vector under a mutex, quit flag", I + "parallel_for.h: parallel_for_run")],
  "Schedules as in P01.", "controlled-schedule " + PBT + " with injected faults")
P("P03", "A thread pool runs every job of every round exactly once, then shuts down",
  "In every sequence of rounds, execute runs each index below the round's job count exactly once and returns only after all of them have ended; no job of one round runs in another. As many jobs as there are workers can be in progress at once. "
  "Each worker runs the initializer once before its first job and the finalizer once after its last, and destruction always terminates.",
  ["schedules", "histories"], "All histories of up to four rounds with 0 to 6 jobs, 0 to 4 hardware threads, destruction at any point, all schedules.",
  "Tests run a few rounds on the schedules the machine happens to produce; lost wake-ups and late workers need particular interleavings.",
  [I + "thread_pool.h"], [("cv_, counter_, threads_active_", I + "thread_pool.h: execute and worker loop")],
  "Schedules as in P01; deadlock and livelock are detected by the scheduler.", "controlled-schedule " + PBT)
P("P04", "A progress tracker shows the share of work done within its bounds",
  "After every sequence of configuration changes and updates the shown percentage is the share of work done, scaled to the output bounds, rounded to the output step and clamped to the bounds. "
  "Monotonic updates never decrease the input, a change of bounds restarts at the lower bound, and the observer is called exactly when the percentage, status or bounds changed, with the tracker unlocked.",
  ["histories"], "All histories of up to 30 operations with bounds, steps, amounts (0 and values above the maximum included) and chained configuration.",
  "Tests check a few fixed updates.",
  ["src/progress_tracker.cc", I + "progress_tracker.h"], [("update_out", "src/progress_tracker.cc: progress_tracker::update_out"), ("tracker_update", "src/progress_tracker.cc")],
  "Reference model with the same float formula, tolerance of one step at rounding boundaries.", "stateful " + PBT)
P("P05", "Concurrent progress updates end on the right percentage",
  "When several threads increment or monotonically update one tracker, the input ends on the sum of the increments or the largest update, and the shown percentage ends on the value that belongs to it. "
  "No update is lost, nothing deadlocks, and in between the percentage stays within its bounds.",
  ["schedules"], "Two to four threads with up to five updates each, all schedules.",
  "Tests update from several threads without controlling the schedule and check only the final input.",
  ["src/progress_tracker.cc", I + "progress_tracker.h"], [("compare-exchange loops", "src/progress_tracker.cc: update_monotonic, update_out")],
  "Schedules as in P01.", "controlled-schedule " + PBT)
P("P06", "The tracker registry keeps one tracker per name and draws them all",
  "Looking up a name always returns the same tracker until the registry is cleared, activation selects exactly that tracker, and asking for the active tracker without one is refused. "
  "Every redraw shows all trackers in name order with name, bar, percentage and status as last set, replaces the previous drawing, and is silent while bars are switched off.",
  ["histories"], "All histories of lookups, activations, updates, clears and nested bar scopes.",
  "Tests never look at the drawing or the registry's state across histories.",
  ["src/progress_tracker.cc"], [("global_progress_trackers", "src/progress_tracker.cc"), ("global_progress_bars", "src/progress_tracker.cc")],
  "A terminal model interprets the output; a map models the registry.", "stateful " + PBT)

# ------------------------------------------------------------------ resources
P("S01", "Scope guards run their action exactly once",
  "A scope guard or resource wrapper runs its action exactly once when its scope ends, normally or by an exception, in reverse order of construction. "
  "Moving a guard hands the action over without running it twice or losing it; assigning to a guard runs the replaced action first.",
  ["histories"], "All histories of construction, move, assignment, nesting and exceptions.",
  "Tests construct a guard and let it go out of scope.",
  [I + "raii.h"], [("raii, finally", I + "raii.h")], "Counts per action.", "stateful " + PBT)
P("S02", "Buffers, files and mappings are released exactly once",
  "In every history of construction, move, assignment, resize and destruction a buffer keeps its bytes (up to the new size) and every allocation, file and mapping is released exactly once, "
  "whoever owns it at the end. Moved-from objects can be destroyed or assigned to; a refused resize or a failed opening leaves nothing behind.",
  ["histories"], "All histories over several buffers, mapped files and file objects, self-moves excluded.",
  "Tests construct and destroy; leaks and double releases are not observed.",
  [I + "parser/buffer.h", I + "parser/mmap_reader_unix.h", I + "parser/file.h"], [("buffer", I + "parser/buffer.h"), ("mmap_reader", I + "parser/mmap_reader_unix.h")],
  "Explicit accounting of live allocations, descriptors and mappings after every history.", "stateful " + PBT + " with resource accounting")
P("S03", "Generators deliver each yielded value once, in order, lazily",
  "A generator delivers exactly the values its coroutine yields, in order, each once, and runs the coroutine no further than the next value asked for. "
  "An exception from the coroutine reaches the caller; moving or dropping a generator at any point destroys the coroutine's state exactly once.",
  ["histories"], "All histories of testing, pulling, moving and dropping over generated coroutines (empty, finite, throwing, move-only and recursive).",
  "Tests run one generator to its end.",
  [I + "generator.h"], [("generator", I + "generator.h")], "Reference list with a log of the coroutine's progress.", "stateful " + PBT)
P("S04", "Checks throw exactly when violated, with the formatted message",
  "verify, verify_silent, verify_ex and the verify macro throw exactly if their condition is false, with the message formatted from all arguments (or the given exception), and evaluate message arguments at most as documented. "
  "Log lines and timers print one complete line per statement with level, time, file and text; time stamps equal the UTC time given.",
  ["inputs"], "All conditions, messages and arguments; all time stamps of the years 1970 to 2200; all names.",
  "Tests check one throwing and one passing case.",
  [I + "verify.h", I + "logging.h", I + "timer.h", "src/timer.cc", I + "timing.h", I + "set_thread_name.h"], [("verify, fail", I + "verify.h"), ("uLOG", I + "logging.h")],
  "Reference formatting and an independent calendar computation.", PBT + " against a reference model")
