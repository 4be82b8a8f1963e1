V26 = "include/pystd2026_variant.hpp"
HT26 = "include/pystd2026_hashtable.hpp"
BT26 = "include/pystd2026_btree.hpp"
BT25 = "include/pystd2025_btree.hpp"

prop("C04", "Optional, Expected and smart owners are exact state machines",
     "An Optional is either empty or holds exactly the value last stored in it, an Expected is empty, a "
     "value or an error, and copying, moving, assigning (also to itself), resetting and reading them, from "
     "every state to every state, gives the content a simple tagged value would; a reset object is empty and "
     "a moved-from one stays destructible and assignable. Reading an absent value is reported and never returns something. unique_ptr and "
     "unique_arr own at most one object, hand it over exactly once, and free it exactly once; Stack is a "
     "last-in-first-out list.",
     ["histories"], "every sequence of operations over two or three objects of each wrapper type",
     "Tests assign and read each wrapper once or twice and never move out of the error or empty state.",
     [H26, H25], [("Optional / Expected / unique_ptr / unique_arr / Stack", H26)],
     [("has_value / state / ptr", "which alternative is alive", H26)], ["public API"])
prop("C05", "Variant always holds exactly the alternative last stored",
     "A Variant holds exactly one value of one of its types: after any sequence of construction, "
     "assignment, copy, move, self-assignment and in-place emplacement it reports the index of the alternative last stored, "
     "typed access returns that value, and access as any other type is reported (null or exception). Holds for variants of any supported number of types.",
     ["histories", "configurations"],
     "every sequence of operations over two variants, for variants of 1 to 30 alternatives, every index",
     "The tests use a three-type variant and a couple of transitions of the n x n transition table; most "
     "of the 30 hand-expanded dispatch branches are never executed.",
     [V26, H25], [("Variant dispatch over up to 30 types", V26)],
     [("buf/type_id", "storage and index of the live alternative", V26)], ["Variant public API"])
prop("C06", "HashMap and HashSet are dictionaries under every history",
     "After any sequence of insertions, overwrites, removals, lookups, clears, moves and growth, whatever "
     "the hash values of the keys (including all colliding), a HashMap holds exactly the key/value pairs "
     "and a HashSet exactly the keys that an abstract dictionary would: size, lookup, containment and "
     "iteration (each entry exactly once) agree. Every operation terminates.",
     ["histories", "inputs"],
     "every sequence of operations over a few keys with every assignment of hash-value classes, through "
     "growth, removal markers and wrap-around",
     "Tests insert and delete keys in one order with the built-in hash; collision chains crossing removed "
     "slots, tables full of removal markers and growth while they exist are not reached.",
     [HT26, H25], [("HashMap::insert/lookup/remove/grow", HT26)],
     [("slot state, bloom bits, num_entries", "open addressing table", HT26)], ["public API"])
prop("C07", "B-tree sets and maps are sorted dictionaries under every history",
     "After any sequence of insertions and removals a BTreeSet, BTreeMap or BTree contains exactly the "
     "keys (and, for maps, the last stored values) an abstract sorted dictionary would; lookup, size and "
     "in-order iteration (every key once, strictly ascending) agree, in every tree shape that splits, "
     "borrows, merges and root changes can produce. Removing everything leaves a tree that is usable "
     "again, and a key to remove may be given as a reference to an entry of the tree itself.",
     ["histories"],
     "all tree shapes reachable by insertion and removal at any rank, for the smallest node capacities, up "
     "to three levels",
     "The tests build a few trees in fixed orders; deletion rebalancing has many shape-dependent branches "
     "(left/right sibling, borrow/merge, leaf/internal, root) that depend on the exact history.",
     [BT26, BT25], [("insert with node splits, remove with borrowing and merging", BT26)],
     [("leaves / nodes vectors, root id, parent links", "tree stored in arrays with index links", BT26)],
     ["public API"])
prop("C08", "Bytes is a faithful byte buffer",
     "After any sequence of Bytes operations (append, push, extend, insert, remove, pop at either end, "
     "assign, resize, shrink, reserve, clear, concatenation, copy, move), with any byte values and with "
     "arguments taken from the buffer itself, it holds exactly the bytes an abstract byte string would. "
     "Equality is byte equality and ordering is the lexicographic order of unsigned bytes, consistent "
     "between its operators; front/back/iteration/span agree with the content.",
     ["histories", "inputs"],
     "every sequence of operations on short buffers; every pair of short byte strings for comparison",
     "Tests append a few bytes and compare one pair; positions, lengths and self-references are not varied.",
     [H26, S26, H25, S25], [("Bytes", S26)], [("buf/bufsize", "storage and used size", H26)], ["public API"])
prop("C09", "CString edits are exact and keep one terminator",
     "After any sequence of CString edits (construct, assign, append, insert, remove, pop, resize, "
     "reserve, clear, strip, concatenation, copy, move), including edits whose argument is part of the "
     "string itself, the string holds exactly the characters an abstract string would, size() is their "
     "number, and c_str() is those characters followed by one terminating zero. Invalid positions are "
     "reported by an exception and change nothing.",
     ["histories", "inputs"], "every sequence of edits from every short string",
     "Tests perform two or three edits in one order on one string; the terminator bookkeeping depends on the "
     "previous edit.",
     [H26, S26, H25, S25], [("CString", S26)],
     [("bytes", "characters plus terminator", H26)], ["CString public API"])
prop("C10", "Byte-string queries agree with the abstract string",
     "For every haystack and needle, the queries of CString and its views (size, indexing, find, rfind, "
     "starts_with, ends_with, substr, split, upper/lower, strip, equality, ordering, overlap) return what the "
     "definition over the abstract character sequence says, whether asked of an owning string or of a "
     "view into the middle of a longer buffer. No query reads outside the viewed characters.",
     ["inputs"], "every string and needle up to a length over a small alphabet, every subview",
     "Tests try a handful of needles; empty, equal-length, end-anchored and overlapping matches and views "
     "without a terminator behind them are missing.",
     [H26, S26, H25, S25], [("CStringView / CString queries", S26)], [], ["public API"])
prop("C11", "Natural ordering is a total preorder that compares numbers by value",
     "Natural-order comparison of strings is a consistent total preorder: reflexive, antisymmetric in sign "
     "and transitive over all strings, so that sorting with it is well defined. Maximal runs of decimal digits "
     "compare by numeric value however long they are (runs of equal value, such as 7 and 007, compare equal), "
     "other characters compare by byte value, and comparison never looks outside the compared characters.",
     ["inputs"], "all pairs and triples of strings up to a length over digits, zero, letters and signs",
     "The test compares a few hand-picked pairs; transitivity and antisymmetry quantify over triples.",
     [H26, S26], [("natural_order_compare", S26)], [], ["public API"])
prop("C12", "FixedCString never exceeds its buffer and is always terminated",
     "A FixedCString holds exactly the text given to it if that fits its capacity and reports an error "
     "otherwise; it is always zero terminated, its size is the number of characters before the terminator, "
     "and comparisons, copies and conversions agree with that text. Nothing is read beyond the given "
     "length of a source or written beyond the buffer.",
     ["inputs", "histories"], "every source length around the capacity, with and without terminator, every assignment sequence",
     "Tests store one fitting and one overlong string.",
     [H26], [("FixedCString", H26)], [("buf", "inline characters", H26)], ["public API"])
prop("C13", "Only well-formed UTF-8 becomes a U8String",
     "Text built from bytes (U8String construction, assignment and validated views) is accepted exactly "
     "when the bytes are well-formed UTF-8 as Unicode defines it: no overlong forms, no surrogates, nothing "
     "above U+10FFFF, no truncated or stray bytes (and, in an owning string, no U+0000). Anything else is reported by an "
     "exception, and the text carried by an exception is itself well-formed whatever bytes it was made from.",
     ["inputs"], "every byte sequence up to four bytes by byte class, every code point, every placement in a longer text",
     "Tests try a few broken sequences; well-formedness depends on every lead/continuation combination.",
     [H26, S26, H25, S25], [("is_valid_utf8", S26)], [], ["U8String constructors"])
prop("C14", "Code point iteration and encoding are inverse",
     "Iterating over any well-formed UTF-8 text, forwards or backwards, yields exactly its code points in "
     "order (reverse order), each with its exact byte range, and appending those code points to an empty "
     "string reproduces the text. Every Unicode scalar value except U+0000 can be appended and is encoded canonically; "
     "anything else is refused with an exception and changes nothing.",
     ["inputs"], "every Unicode scalar value, every short sequence of code points of every encoded length",
     "Tests iterate over a few literals; each encoded length and each length transition matters, backwards too.",
     [H26, S26, H25, S25], [("ValidU8Iterator / ValidU8ReverseIterator / append_codepoint", S26)], [], ["public API"])
prop("C15", "U8String operations agree with the abstract text and stay valid",
     "Every U8String operation (append, insert, remove, pop, substr, split, join, containment, overlap, "
     "comparison, construction from and assignment of views) gives exactly the text the definition over code points says, and no operation "
     "can produce a U8String whose bytes are not well-formed UTF-8; requests outside the text or cutting a code "
     "point are reported. Equality and ordering are those of the "
     "bytes.",
     ["histories", "inputs"], "every short sequence of edits on texts mixing encoded lengths, every cut position",
     "Tests edit ASCII almost exclusively, where byte and code point positions coincide.",
     [H26, S26, H25, S25], [("U8String / U8StringView", S26)], [], ["public API"])
prop("C16", "Case conversion follows the Unicode tables for every code point",
     "upper() and lower() map each code point of any text by Unicode's full case mapping (including "
     "mappings to several code points), leave caseless code points unchanged, and convert a text code point "
     "by code point.",
     ["inputs"], "every Unicode code point, and every pair of code points of different encoded lengths",
     "Tests convert a few words; the tables have thousands of entries and are searched with a binary "
     "search whose edge entries matter.",
     ["src/pystd2026_tables.cpp", S26, "src/pystd2025_tables.cpp", S25],
     [("uppercase_unicode / lowercase_unicode", S26)], [], ["U8String::upper/lower"])
prop("C17", "Every sort delivers a sorted permutation",
     "For every input and every strict weak order given by the comparator, each sorting algorithm (intro, "
     "merge, heap, shell, insertion, bucket, radix, indirect) leaves in the range exactly the elements that "
     "were there, arranged in nondecreasing order, and touches nothing outside it. The result is the same "
     "for every element type, comparator and initial arrangement, at every size.",
     ["inputs"], "every permutation and every multiset arrangement up to a size, and structured inputs of "
     "every size around the algorithms' switch-over thresholds",
     "Tests sort a few random-looking arrays; the algorithms switch method at sizes 2, 3, 16, 32, 64 and above "
     "and use sentinels that only misbehave for particular arrangements.",
     [H26, "include/pystd2026_introsort.hpp", "include/pystd2026_mergesort.hpp", "include/pystd2026_heapsort.hpp",
      "include/pystd2026_shellsort.hpp", "include/pystd2026_bucketsort.hpp", "include/pystd2026_radixsort.hpp",
      "include/pystd2026_indirect_sort.hpp"],
     [("the sort headers", "include/")], [], ["sort functions"])
prop("C18", "Stable algorithms keep the order of equivalent elements",
     "Merge sort, insertion sort, stable partition and the stable indirect sort keep "
     "elements that compare equivalent in their original relative order, for every input and size.",
     ["inputs"], "every arrangement of tagged elements with few distinct keys up to a size; structured large inputs",
     "Stability is only visible with distinguishable equal elements, which few tests use.",
     [H26, "include/pystd2026_mergesort.hpp", "include/pystd2026_stablepartition.hpp", "include/pystd2026_indirect_sort.hpp"],
     [("mergesort", "include/pystd2026_mergesort.hpp"), ("stable_partition", "include/pystd2026_stablepartition.hpp")],
     [], ["algorithms"])
prop("C19", "Selection, partition, rotation and search meet their contracts",
     "For every input: nth_element puts the element of that rank in place with nothing greater before and "
     "nothing smaller after, partial_sort delivers the smallest elements sorted, partition separates by the "
     "predicate and returns the boundary, rotate performs exactly the rotation and returns where the first "
     "element went, lower_bound, find, min/max_element and is_sorted return what their definitions say, "
     "including for empty ranges. All are permutations of the range and touch nothing outside it.",
     ["inputs"], "every arrangement up to a size with every position argument",
     "Tests run each algorithm once or twice on mid-size inputs; boundary positions are unsampled.",
     [H26, "include/pystd2026_nth_element.hpp", "include/pystd2026_partial_sort.hpp", "include/pystd2026_rotate.hpp"],
     [("algorithms", H26)], [], ["algorithms"])
prop("C20", "Regular expression results name exactly the matched text",
     "For every pattern and text, matching and searching report a match exactly when PCRE semantics say so, "
     "and every match group (whole match, participating, empty, non-participating or nonexistent) is "
     "reported as exactly the text it matched or as absent or an error, never as memory outside the text. "
     "Invalid patterns are reported as exceptions.",
     ["inputs"], "every pattern of a small grammar with every text up to a length, every group number",
     "Tests use two patterns that match; optional groups and out-of-range group numbers are not tried.",
     ["src/pystd2026_regex.cpp", "src/pystd2025_regex.cpp", "include/pystd2026_regex.hpp"],
     [("U8Regex / U8Match", "src/pystd2026_regex.cpp")], [], ["regex API"])
prop("C21", "Command lines are parsed totally and exactly",
     "For every list of arguments and every declared set of options, the argument parser either stores "
     "exactly the values the documented conventions give (long and short options, attached and separate "
     "values, flags, counters, positionals) or reports an error; it never reads beyond the argument list "
     "and never silently drops or invents an argument or value.",
     ["inputs"], "every argument vector up to a length over an alphabet of well- and malformed tokens",
     "Tests parse two well-formed command lines.",
     ["src/pystd2026_argparse.cpp", "include/pystd2026_argparse.hpp"],
     [("ArgParse::parse_args", "src/pystd2026_argparse.cpp")], [], ["ArgParse public API"])
prop("C22", "Path operations form a consistent algebra",
     "For every path text, joining, splitting, filename, extension, extension replacement, the absolute "
     "test and the trimming of trailing separators agree with the component-wise definition of a path: "
     "components are neither lost nor invented, joining the components gives the path back, a dot in a "
     "directory name is not an extension, and the root stays the root. (Whether a name whose only dots are "
     "leading, such as '.rc', has an extension is left open.)",
     ["inputs"], "every path text up to a length over separator, dot and letters",
     "Tests check a few relative paths.",
     [H26, "src/pystd2026_filesystem.cpp", "src/pystd2025_filesystem.cpp"],
     [("Path", "src/pystd2026_filesystem.cpp")], [], ["Path public API"])
prop("C23", "Globbing returns exactly the matching paths",
     "For every directory tree and every pattern of literals, ?, * and ** (one whole component, at most "
     "once, standing for any number of directories whose names have no leading dot; at the end of a pattern "
     "for everything below), globbing yields each existing path that matches the pattern exactly once and "
     "nothing else, under the name of the root it was started from. A leading dot is not matched by * or **. "
     "Directories that cannot be opened are skipped without losing others; stopping, moving or replacing an "
     "iteration never leaks a directory handle, and nothing outside the tree is opened.",
     ["inputs", "configurations"], "every pattern of a small grammar against a family of directory trees",
     "Tests glob one directory with one pattern.",
     ["src/pystd2026_filesystem.cpp", "src/pystd2025_filesystem.cpp"],
     [("GlobResultInternal", "src/pystd2026_filesystem.cpp")], [], ["Path::glob"])
prop("C24", "File contents are delivered exactly or an error is reported",
     "Reading a file as bytes, text, lines or mapped memory delivers exactly the file's content (every "
     "line once, with or without a final newline, empty files and files that cannot tell their size "
     "included), and if any underlying open, seek, tell, read, stat or map step fails the failure is "
     "reported (by an empty result, an exception or by aborting): never partial or invented data presented "
     "as success. Text that is not valid UTF-8 or contains NUL is refused. An empty file may be reported as "
     "not mappable. File handles and mappings are released exactly once on every path, also when a mapping "
     "is replaced by another.",
     ["inputs", "fault_sequences"], "every file content up to a length over newline and letters; every failure of every underlying call",
     "Tests read one small existing file; no test injects an I/O failure.",
     [H26, S26, "src/pystd2026_filesystem.cpp", H25, S25], [("File / Path::load_bytes / mmap_file", S26)],
     [], ["File, Path, MMapping API"])
prop("C25", "Ranges and loop adapters visit exactly the right elements",
     "A Range yields exactly the integers Python's range would for every start, stop and nonzero step, "
     "including descending and extreme values, and rejects step zero. The loop adapters (LoopView, "
     "Loopsume, EnumerateView) visit every element of their source once, in order, with the right index, "
     "and consume nothing past the end.",
     ["inputs"], "every small start/stop/step triple, triples at the ends of the integer range, every short source",
     "Tests iterate two ascending ranges.",
     [H26, S26, H25, S25], [("Range::next / LoopView", S26)], [], ["Range, loop views"])
prop("C26", "Formatted text equals what the format string defines",
     "cformat, format_append and the callback form produce exactly the bytes the C standard's formatting of "
     "the same arguments defines, for results of every length including those beyond any internal buffer, "
     "appended after the existing content of the destination and delivered once. Encoding errors, results "
     "that are too long and zero bytes bound for a CString (which cannot hold them) are reported, and "
     "exceptions of the receiver pass through.",
     ["inputs"], "every result length through and around the internal buffer sizes, every destination type",
     "Tests format short strings only; the large-result path never runs.",
     [H26, S26, H25, S25], [("cformat_with_cb", S26)], [], ["cformat, format_append"])
prop("C27", "Comparators and clamps are lawful",
     "clamp returns the value limited to the bounds, the bounds included, for every value (NaN when any of "
     "the three is NaN), and reports an empty range; every comparator the library offers (default, "
     "only-less, ignore-NaN for numbers, floating total order) is a consistent order: compare is "
     "antisymmetric and transitive and returns zero exactly for equals. The floating total order ranks every "
     "bit pattern of float and double: numbers by value with equal signed zeros, and all NaNs equal and "
     "after everything else.",
     ["inputs"], "all pairs and triples of an exhaustive set of boundary values",
     "Tests compare a few ordinary numbers.",
     [H26, S26], [("total_order_compare / clamp / comparators", S26)], [], ["comparators"])
prop("C28", "Spans and views never reach outside their range",
     "Every subspan, subview and index operation of a Span or byte view yields exactly the requested "
     "elements when the request lies inside the range, including empty and full-length requests, and is "
     "reported otherwise, also for offsets and sizes whose sum overflows.",
     ["inputs"], "every offset and size from 0 past the end, and extreme values, for every small range",
     "Tests take one subspan.",
     [H26, H25], [("Span::subspan", H26), ("BytesView::subview", H25)], [], ["Span, BytesView"])
prop("C29", "Locks exclude and threads are joined under every schedule",
     "Code run while holding a Mutex through its guard never overlaps with another holder, the lock is released "
     "exactly once on every exit including exceptions, and a Thread runs its function exactly once with its argument and has "
     "finished when its destructor or join returns. This holds in every schedule, and failures of the "
     "underlying thread primitives are reported, not ignored.",
     ["schedules", "fault_sequences"], "every interleaving of two or three threads at lock, unlock, start and join; every failing primitive",
     "Tests run two threads once on the OS scheduler.",
     ["include/pystd2026_threading.hpp", "src/pystd2026_threading.cpp", "src/pystd2025_threading.cpp"],
     [("Mutex / MutexGuard / Thread", "src/pystd2026_threading.cpp")], [], ["threading API", "pthread calls"])
prop("C30", "Distinct objects can be used from different threads",
     "Operations on distinct objects share no hidden mutable state: running any two library operations on "
     "different objects in different threads, in any interleaving, gives the same results as running them "
     "one after the other. A copy is independent of its original in the same way, and operations that only read "
     "one object can overlap.",
     ["schedules"], "every preemption-bounded interleaving, at conflicting memory accesses and at function boundaries, of pairs of operations on distinct objects",
     "Tests use the library from one thread at a time.",
     [H26, S26, "src/pystd2026_filesystem.cpp"], [("absence of shared scratch buffers", S26)], [], ["whole library"])
prop("C31", "What a value feeds into a hash is exactly its content",
     "Equal values feed equal bytes to the hash algorithm whatever their history, capacity or representation (in the 2026 epoch also across "
     "CString, its views, and U8String and its view), different contents feed different bytes, and every byte of the content matters. Hasher hands everything fed to "
     "it to its algorithm, in order, once; feeding text in chunks gives the same value as feeding it at once, and reset starts over.",
     ["inputs", "histories"], "every content up to a size and every way to arrive at it, every sequence of feeds up to a depth, with a recording hash algorithm and with SimpleHash",
     "Tests hash a few values and compare a few results.",
     [H26, H25, S26, S25], [("Hasher / HashFeedInterface / SimpleHash", H26), ("feed_hash members", H26), ("SimpleHash::feed_bytes", S26)], [], ["hash API", "keys of HashMap and HashSet"])
prop("C32", "Work, memory and stack stay in proportion to the data",
     "No input and no history makes an operation disproportionately expensive. Sorting, partial sorting and nth_element take O(n log n) comparisons, moves and "
     "steps and little stack even against an adversarial comparator (shell_sort n^1.5, stable_partition n^2); searching, rotating and text operations are linear, lower_bound logarithmic. "
     "Appending one element at a time to a vector, stack, byte buffer or string is amortised constant. Maps and sets insert, find and remove at (average) constant or logarithmic cost also after "
     "long histories of insertions and removals, and what a container holds in memory follows from the most it has contained, not from how often it was used. Matching a glob takes at most pattern times name steps; reading files and command lines is linear.",
     ["inputs", "histories"], "every algorithm against families of shapes and an adversary, every word of operations up to a length repeated many times, counting executed edges, comparisons, moves, bytes and stack",
     "Tests do not measure cost, and small inputs never show it.",
     [H26, H25, "include/pystd2026_introsort.hpp", "include/pystd2026_hashtable.hpp", "include/pystd2026_btree.hpp", "src/pystd2026_filesystem.cpp"],
     [("do_introsort depth limit", "include/pystd2026_introsort.hpp"), ("nth_element", "include/pystd2026_nth_element.hpp"), ("rotate", "include/pystd2026_rotate.hpp"),
      ("Vector::reserve", H26), ("HashMap::grow", "include/pystd2026_hashtable.hpp"), ("glob_matches", "src/pystd2026_filesystem.cpp")], [], ["whole library"])
prop("C33", "The command line tools print exactly what their input contains",
     "wordcount prints every distinct word of a UTF-8 text once with its exact count, in descending order of count and then of length in bytes, and reports input that is not UTF-8; "
     "wordsort prints every word of a text, repeated as often as it occurs, in byte order; globber prints exactly the entries that match its pattern; the command line parser's example prints the "
     "values it was given or their defaults. Files that cannot be read and wrong numbers of arguments to wordcount, wordsort and globber produce a message.",
     ["inputs"], "every text of up to seven pieces, every number of words around the thresholds of the containers and sorts, every short pattern and argument list",
     "No test runs the tools.",
     ["tools/wordcount.cpp", "tools/wordsort.cpp", "tools/globber.cpp", "tools/argparse.cpp"],
     [("main", "tools/wordcount.cpp"), ("main", "tools/wordsort.cpp"), ("actual_main", "tools/globber.cpp"), ("main", "tools/argparse.cpp")], [], ["command line tools"])
