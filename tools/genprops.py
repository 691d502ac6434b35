#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the lines stay uniform)."""
import json, os
P = []
RCA = "src/ReferenceCountedArray.h"; S = "src/String.h"; SC = "src/String.cpp"; A = "src/Array.h"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Copies, substrings and moves of a String never alias observably",
  "Every String behaves as an independent value: after any history of copies, moves, substrings, swaps, assignments, edits, reserves and accessor calls over any number of Strings that share storage, changing one String never changes the length or the bytes that any other String reports. A String that was moved from stays usable: it can be inspected, assigned, edited and destroyed safely.",
  ["histories", "inputs"], "every finite history of operations over any pool of Strings sharing buffers, with any bytes and lengths",
  "Copy-on-write tests check a handful of two-handle histories; sharing bugs need a particular combination of share, window, capacity and edit.",
  [RCA, S, SC], [("copy-on-write detach before each modification", RCA), ("buffer growth and window shifting", RCA), ("copy/move construction, assignment and swap", RCA)],
  ["length(), data(), iterators and c_str() of every live String after every step"],
  [("shared buffer and its reference count", "how many Strings view one buffer", RCA), ("window offset and length", "which part of the buffer a String shows", RCA)])

p("C02", "String edits produce exactly the specified text",
  "Inserting, appending, replacing, resizing, assigning, concatenating, repeating and single-character writes on a String produce exactly the text a plain sequence-of-bytes model gives, whatever the bytes (embedded NULs included), the position, the length limit, and whether the target is empty, shared, a substring view or exactly full. This also holds when the argument is the String itself, one of its own substrings or one of its own characters.",
  ["inputs", "histories"], "every target state, argument, position and limit accepted by the edit operations",
  "Tests edit a few literals at a few positions; wrong shortcuts, growth boundaries and self-aliasing only show on particular sizes and sharing states.",
  [RCA, S, SC], [("insert family", RCA), ("replace family", RCA), ("C-string insert/replace", SC), ("resize and fill", RCA), ("operator+, operator+=, operator*", S)],
  ["length() and bytes of the edited String, and of the argument, after the edit"])

p("C03", "Array behaves as an independent growable sequence of values",
  "An Array of any element type behaves like an independent sequence: push, pop, shift, insert, append, replace, resize, element write, slicing, concatenation, window operators, iteration and equality give the results of a plain list model, and no operation on one Array changes another Array that was copied from it, sliced from it or moved to or from it.",
  ["histories", "inputs"], "every finite history over any pool of Arrays of trivially copyable, reference-counted and plain class element types",
  "Tests use a few short Arrays of Strings; element aliasing, growth, shared pops and class-element lifetime need long mixed histories.",
  [A, RCA], [("push/pop/shift/stream operators", A), ("insert/replace/resize on class elements", RCA), ("subarray and slice proxy", A), ("equality", A)],
  ["length() and elements of every live Array after every step"])

p("C04", "Substring and slice bounds follow one rule for every start and length",
  "For every start and length, negative or beyond the end, a substring or subarray is the window that starts at the given index (counted from the end when negative, clamped to the beginning, empty when past the end) and runs for the given length, truncated at the end; a negative length other than the default stops that many items before the end and never yields more than that. Assigning to a slice with a non-negative start overwrites the selected items with the leading items of the assigned value, extending the target when needed, and reading a slice never alters its source.",
  ["inputs"], "all (content, start, length) triples, including extreme values, over Strings and Arrays, on views of views",
  "Tests sample some thirty triples on one literal; boundary arithmetic on nested windows and on negative lengths is not enumerated.",
  [RCA, S, A], [("window arithmetic", RCA), ("slice proxy read and assignment", RCA), ("substring / subarray entry points", S)],
  ["the returned value's length and items; the source afterwards"])

p("C05", "C-string and raw exports are exact, terminated and side-effect free",
  "Asking a String for a C string, a duplicated buffer, a partial copy-out, a std::string or an output stream rendering always yields exactly its bytes (followed by a NUL where one is promised), for any content, capacity, sharing or substring state, without reading or writing outside its storage. None of these changes the String's length, bytes or equality, or the value of any other String sharing its storage.",
  ["inputs", "histories"], "every construction path, window, capacity and sharing state",
  "Tests read C strings of ordinary literals; the terminator is only at risk for views, exactly-full buffers and shared buffers.",
  [S, SC, RCA], [("C-string accessor writing the terminator", S), ("dup/copy/std::string conversions", S), ("capacity reservation leaving room for the terminator", S)],
  ["bytes returned by each export, termination at length(), all live Strings afterwards"])

p("C06", "Searching finds the first or last occurrence and nothing else",
  "Forward searches report the first occurrence of the item or substring at or after the start position (as a distance from that start), reverse searches the last occurrence not before the given limit, and the case-insensitive forms the same after folding ASCII case; when there is none they report not-found. This holds for every haystack and needle, including embedded NULs, overlapping repeats, needles longer than the haystack, substring views and empty haystacks.",
  ["inputs", "configurations"], "all haystacks, needles and start/limit positions, with and without a platform memory-search primitive",
  "Tests try about twenty literal pairs; matches at the very ends, repeats with partial overlaps and views are data dependent.",
  [SC, S, RCA], [("forward substring search", SC), ("reverse search loop", SC), ("case-insensitive search", SC), ("element search", RCA)],
  ["returned positions against a brute-force search"])

p("C07", "Equality, ordering and hash agree and depend only on the contents",
  "Comparison of Strings (with each other and with C strings, whole or limited to a prefix) is the lexicographic unsigned-byte order with shorter-is-less, so it is a total order consistent with every relational operator; Arrays are equal exactly when their elements are. Equal values always hash equally no matter how they were built, shared or edited, and a hash taken earlier is never reported for later, different contents.",
  ["inputs", "histories"], "all pairs and triples of values reached by any history, with hashes requested at any point",
  "Tests compare fixed literals; a stale cached hash or a sign/length slip needs a particular edit after a particular query.",
  [SC, S, RCA, A], [("compare overloads", SC), ("relational operators", S), ("cached hash and its invalidation", RCA), ("Array equality", A)],
  ["sign of compare, all relational operators, hash() of every live value"],
  [("cached hash", "0 when stale", RCA)])

p("C08", "Splitting and joining lose, invent and reorder nothing",
  "Splitting by a non-empty delimiter returns, in order, exactly the pieces between delimiter occurrences (for a single space, runs of spaces count as one and leading ones are dropped; without a limit a trailing empty piece is dropped), with at most the requested number of pieces and the untouched remainder last, and joining the pieces of a split restores the text. Taking tokens off the front repeatedly yields the same tokens in order and leaves exactly the rest; joining (optionally quoting) concatenates the elements with the delimiter between them, for every list including empty lists and empty elements.",
  ["inputs"], "all texts, delimiters and limits, all lists of pieces",
  "Tests use a few sentences; limits larger than the number of pieces, trailing delimiters, empty elements and multi-byte delimiters are sampled thinly.",
  [SC, A, S], [("split", SC), ("token splitting", SC), ("join", A)],
  ["returned Arrays/Strings against a reference tokenizer; the source text afterwards"])

p("C09", "Text substitution replaces every occurrence once and nothing else",
  "Substituting a search text by a replacement returns a new text in which the non-overlapping occurrences, left to right (up to the optional positive limit), are replaced once each, replaced text is never searched again within that pass, everything else is preserved, and the source is unchanged; it always terminates. Substituting a whole mapping applies each entry in the mapping's iteration order.",
  ["inputs"], "all texts, search texts, replacements, limits and mappings",
  "Tests cover a few replacements; replacements containing the search text, adjacent matches, empty search text and limits are data dependent.",
  [SC, S], [("sub", SC), ("subst over a table", SC)],
  ["returned text, source text afterwards, termination"])

p("C10", "Trimming and front/back dropping remove exactly the right characters",
  "Removing whitespace from both ends, chopping one line terminator, dropping n characters from the front or back, and increment/decrement remove exactly the specified characters and nothing else, for any content and view, leaving an empty value when everything is removed; the non-mutating forms and the postfix forms leave or return the prior value. Other Strings or Arrays sharing the storage keep their value and later edits of the shortened value are correct.",
  ["inputs", "histories"], "all contents, counts and chains of window operations followed by edits",
  "Tests chain a few operators on one literal; views that have been narrowed and then grown again are rarely exercised.",
  [S, SC, A, RCA], [("trim/chomp", SC), ("window operators", S), ("Array window operators", A)],
  ["length, bytes and return values after every operation"])

p("C11", "Out-of-range positions raise std::out_of_range and change nothing",
  "For every String, Array and Stream operation that checks its position, a position beyond the permitted end raises std::out_of_range and a permitted one does not, and after the exception the object and everything sharing storage with it have exactly their previous value and remain usable.",
  ["inputs", "histories"], "every checked operation, every object state, every position including the largest representable one",
  "Tests try one or two bad positions on fresh objects; boundary positions on views and shared objects are not covered.",
  [RCA, S, SC, "src/Stream.h"], [("index validation in at/insert/replace/find", RCA), ("C-string insert/replace validation", SC), ("stream writes", "src/Stream.h")],
  ["exception type raised or not; full value before and after"])

p("C12", "Memory and element lifetimes balance over every history",
  "Over any history of operations on Strings, Arrays and tables, no memory outside live storage is read or written, every element that is constructed is destroyed exactly once, and when the last object is gone no storage is left allocated. The reported reference count is always the number of live objects sharing that storage.",
  ["histories"], "every finite history over pools of Strings and of Arrays of class, trivial and nested Array elements",
  "Unit tests do not observe lifetimes; leaks and double destruction hide in rarely taken growth, shift, resize and move paths.",
  [RCA, A, S], [("buffer release and element destruction", RCA), ("growth/relocation of class elements", RCA), ("reference counting", RCA)],
  ["constructor/destructor balance, allocation balance, sanitizer reports, rcount()"],
  [("reference count", "number of objects sharing the storage", RCA)])

p("C13", "The last String owning a buffer wipes it before release",
  "When the last String referring to a storage block is destroyed, the text it held, including parts outside its current window and unused capacity, is no longer present in that block when the memory is returned to the allocator; destroying a String that is not the last reference leaves the shared text intact.",
  ["histories", "inputs"], "every content, capacity, window and order of destruction",
  "No test looks at released memory.",
  [S, RCA], [("cleansing in the destructor", S), ("whole-capacity wipe ignoring the window", S)],
  ["contents of blocks at the moment they are handed back to the allocator"])

p("C14", "HashTable is a faithful map over every history",
  "Over any history of insert, subscript, remove, lookup, iteration, copy, move, swap and clear, a HashTable contains exactly the keys that were added and not removed, each with its latest value; insert never overwrites and reports whether it added (a refused insert leaves a key or value it was given by move as it was), remove reports whether it removed, looking up an absent key yields a default value without adding it, and copies are independent. This holds when keys collide in the hash and when keys or values share storage with other objects that are edited later.",
  ["histories", "inputs"], "every finite history over any keys, with String, integer and Array keys",
  "Tests insert a few keys; collisions, rehash growth, aliasing of keys with edited Strings and copy independence need long histories.",
  ["src/HashTable.h", RCA, S], [("insert/contains/remove/getValue/subscript", "src/HashTable.h"), ("hash specialisation for String and Array", S)],
  ["size, membership, values and full iteration after each step"])

p("C15", "Stream is a faithful seekable byte buffer",
  "Over any history of writes, reads, line reads, seeks, truncation, reserve, clear, copy and move, a Stream's contents and position equal those of a byte-buffer model: a write overwrites or extends at the position and advances it, a read returns at most the requested bytes (ending after the delimiter if given) from the position and advances by what it returned, and seeking clamps to the valid range. Reading at or past the end of the data returns nothing and never moves the position or touches memory outside the data.",
  ["histories", "inputs"], "every finite history with any bytes, sizes and seek targets",
  "Tests write and read a couple of lines; position/capacity interplay after seeks past the data is not covered.",
  ["src/Stream.h", "src/Stream.cpp"], [("puts", "src/Stream.h"), ("read/getline", "src/Stream.cpp"), ("seek clamping", "src/Stream.cpp"), ("truncate/peek", "src/Stream.h")],
  ["returned text, tell(), length() and full contents after each step"],
  [("position", "where the next read or write happens", "src/Stream.h")])

p("C16", "Writing a Stream to a file and loading it back is the identity",
  "Writing any Stream to a file (by name or descriptor) and loading it back yields exactly the same bytes with the position at the start, for every content including empty, binary and page-sized data and whatever the file or Stream held before; the file afterwards has exactly the Stream's bytes and a newly created one at most the requested permissions. Operations on files that cannot be opened report failure, and no operation leaves a descriptor it opened open or the file mapped.",
  ["inputs", "histories", "configurations"], "all contents and prior file/Stream states, with and without memory mapping",
  "Tests round-trip one short file; empty files, shrinking overwrites and block boundaries are not covered.",
  ["src/Stream.cpp", "src/Stream.h"], [("loadFile", "src/Stream.cpp"), ("writeFile", "src/Stream.cpp")],
  ["return codes, file bytes, size and mode on disk, loaded contents and position, open descriptors"])

p("C17", "An atomic file update is all-or-nothing at every crash point and fault",
  "While a file is rewritten through AtomicFile, the target path at every instant, after a crash at any system call and after any failing system call, holds either its complete previous contents (or absence) or the complete new contents, and the new contents appear only after they were flushed to stable storage and only through a successful commit. Commit reports success exactly when the target now holds the new contents, and never when setting the mode, flushing or closing the new file before publishing it failed.",
  ["crash_points", "fault_sequences", "inputs"], "every crash point and every single and double system-call failure along open/write/commit/abort, for any contents, path form and mode",
  "The tests only take the success path and never crash or fail a system call.",
  ["src/AtomicFile.cpp", "src/AtomicFile.h"], [("temporary file in the target directory", "src/AtomicFile.cpp"), ("mode, fsync, close, rename sequence", "src/AtomicFile.cpp")],
  ["target path contents and the ordered system calls, at each crash point and after each fault"])

p("C18", "AtomicFile cleans up after itself and applies the requested mode",
  "After commit, abort, destruction or a failed operation, an AtomicFile leaves no temporary file in the directory and no open descriptor, reports itself closed, and can be opened again; abort and destruction without commit leave the target untouched. A committed file has exactly the requested permission bits, or owner-only permissions when none were requested, and the temporary file lives in the target's own directory while the update is in progress.",
  ["histories", "fault_sequences", "inputs"], "every history of open, write, commit, abort, reopen and destroy, with any injected failures, path forms and modes",
  "Tests check one commit and one abort; failure paths and reuse are never driven.",
  ["src/AtomicFile.cpp", "src/AtomicFile.h"], [("abort and destructor", "src/AtomicFile.h"), ("failure cleanup in commit", "src/AtomicFile.cpp")],
  ["directory listing, /proc/self/fd, file mode, is_open()/fd()/return values after each step"])

p("C19", "Base64 encoding is standard and decoding inverts it",
  "For every byte sequence and every alphabet of 64 distinct characters other than the padding character, encoding produces exactly the RFC 4648 padded form in that alphabet (length a multiple of four) and decoding with the same alphabet returns the original bytes; the buffer, C-string and String forms agree, and results are NUL-terminated with the reported length.",
  ["inputs"], "all byte sequences of any length and all valid alphabets",
  "Tests encode a few text literals with the standard alphabet.",
  ["src/base64.cpp", "src/base64.h"], [("encode", "src/base64.cpp"), ("decode", "src/base64.cpp"), ("reverse alphabet table", "src/base64.cpp")],
  ["encoded text against an independent encoder; decoded bytes and lengths"])

p("C20", "Base64 decoding of arbitrary input is memory-safe and bounded",
  "Decoding any byte sequence, whether truncated, wrongly padded or full of characters outside the alphabet, reads only the given input, writes no more than three bytes per started group of four, reports the length it produced and terminates; the complete groups of well-formed characters before the damage are decoded as if they stood alone.",
  ["inputs"], "all byte sequences, with standard and custom alphabets",
  "No test decodes malformed input.",
  ["src/base64.cpp"], [("group decoding loop", "src/base64.cpp"), ("output sizing", "src/base64.cpp")],
  ["sanitizer reports, guard bytes, reported length, decoded prefix"])

p("C21", "Bounded C-string helpers never overrun and always terminate",
  "The bounded copy and append helpers never write past the given size nor read past it in the destination, always terminate when there is room for a terminator, keep the longest fitting prefix, and return the length they tried to create; the duplicating helpers return exactly the (possibly truncated) text in fresh storage, and re-duplicating replaces or clears the held text without leaking or disturbing the new one.",
  ["inputs"], "all source strings, destination contents and sizes including zero, one and unterminated destinations",
  "There are no tests for these helpers.",
  ["src/Cstrings.cpp", "src/Cstrings.h"], [("strlcpy/strlcat", "src/Cstrings.cpp"), ("strdup/strldup/str_redup", "src/Cstrings.cpp")],
  ["destination bytes, guard bytes, return values, sanitizer reports"])

p("C22", "A linked Tcl variable and its C variable always show the same value",
  "For every supported C type, reading a linked Tcl variable yields the C variable's current value and setting it stores into the C variable exactly the value set when it is representable, and zero (or false) when it is out of range or not of that type; a fixed-size text buffer receives the text truncated to fit and always terminated. Variables linked read-only reject every write and keep their value, and a hook registered with the link runs once per successful write with the previous and the new value.",
  ["inputs", "histories"], "all supported types, all values and their boundaries, all interleavings of C-side and Tcl-side reads and writes over several linked variables and access paths",
  "Tests set a handful of values per type and mostly far from boundaries; unsigned 64-bit and buffer truncation are not pinned.",
  ["src/ScriptInterpTCL.h", "src/ScriptInterpTCL.cpp"], [("read and write traces", "src/ScriptInterpTCL.h"), ("type conversions with range checks", "src/ScriptInterpTCL.cpp"), ("change hooks", "src/ScriptInterpTCL.h")],
  ["Tcl-side value, C-side value, hook invocations with old/new values, guard bytes around buffers"])

p("C23", "Tcl commands receive exact arguments and return exact results or errors",
  "A C function exposed as a Tcl command runs exactly when the number of arguments is within its declared range, receiving each argument's exact converted value (default values for omitted optional ones), and its return value becomes the command's result unchanged, including nested lists and text with spaces, braces, quotes, brackets, backslashes and NUL bytes. With a wrong argument count it does not run and the error says what was expected, and a thrown exception becomes a Tcl error carrying the thrown text, leaving the interpreter usable.",
  ["inputs", "programs"], "all argument values, counts, signatures and result values",
  "Tests call a few commands with tame words.",
  ["src/ScriptInterpTCL.cpp", "src/ScriptInterpTCL.h", "src/ScriptInterpTCLCallbacks.h"], [("command trampoline and argument check", "src/ScriptInterpTCL.cpp"), ("conversion in both directions", "src/ScriptInterpTCL.cpp"), ("dispatch with defaults", "src/ScriptInterpTCLCallbacks.h")],
  ["arguments seen by the C function, Tcl result, error text and status seen by catch"])

p("C24", "A script callback receives its parameters verbatim",
  "Invoking a Tcl callback from C runs the given command prefix with exactly the given parameters, each arriving as one word with identical text whatever characters and length it has, and no parameter text is ever evaluated as script; the callback's result, or the error trace if it fails, is returned.",
  ["inputs"], "all parameter lists of any text and length",
  "Tests pass one two-word parameter.",
  ["src/ScriptInterpTCL.h", "src/ScriptInterp.h"], [("callback invocation and quoting", "src/ScriptInterpTCL.h")],
  ["words received by the script procedure, side effects of would-be substitutions, returned text"])

p("C25", "Commands and links live exactly as long as they are registered",
  "Over any history of creating, replacing, invoking, renaming, deleting and re-creating commands and of linking, relinking and unlinking variables in one or several interpreters, each name in each interpreter runs or reflects what was last registered there and nothing else: deleted commands are gone, unlinked variables no longer reach the C variable, and no action on or destruction of one interpreter affects another. Commands may replace or delete themselves while running, and destroying an interpreter never crashes.",
  ["histories"], "every finite history over several names and interpreters",
  "Tests use one interpreter at a time with one registration per name.",
  ["src/ScriptInterpTCL.h", "src/ScriptInterpTCL.cpp"], [("command registry", "src/ScriptInterpTCL.h"), ("variable trace setup and removal", "src/ScriptInterpTCL.cpp"), ("interpreter destruction", "src/ScriptInterpTCL.h")],
  ["which function runs for each name, Tcl's command/variable existence, C variable values"])

p("C26", "Formatted Strings are complete at any length",
  "Formatting to a String yields exactly the text the C library's formatter produces for the same format and arguments, of whatever length, with the String's length equal to the formatted length, and touches no other memory.",
  ["inputs"], "all formats over the supported conversions and all argument values and lengths",
  "Tests format one short text.",
  [SC, S], [("formatting through a scratch buffer", SC)],
  ["returned bytes and length against an independently sized formatter"])

p("C27", "Reading and writing Strings through iostreams matches the standard rules",
  "Writing a String to an output stream emits exactly its bytes, padded as a whole to the stream's field width if one is set; extracting a word skips leading whitespace and takes the maximal run of non-whitespace leaving the delimiter unread, and reading a line takes everything up to the newline, which is consumed; any previous contents of the target are replaced. A read reports failure exactly when it could extract nothing, so reading until failure returns every word or line of the input once, in order, including a last one without terminator. The stream's width, skipws flag and exception mask act as they do for std::string.",
  ["inputs", "histories"], "all input texts and all sequences of word and line extractions, into Strings in any state",
  "Tests extract one or two words.",
  [SC, S], [("operator>>", SC), ("getline", SC), ("operator<<", S)],
  ["extracted texts, stream state and remaining input against std::string extraction"])

p("C28", "Strings and Arrays sharing storage can be used from different threads",
  "Objects that share storage but are used by different threads, each object by one thread at a time, behave as if they shared nothing: at every interleaving of the steps of their operations each thread sees exactly the values its own operations produce, nothing is freed while in use, nothing is leaked or freed twice, and there is no data race.",
  ["schedules", "histories"], "all interleavings of copies, edits, reads and destructions of distinct objects sharing one buffer",
  "No test uses threads; a lost copy-on-write race needs a particular interleaving inside one edit.",
  [RCA, S], [("atomic reference count", RCA), ("detach-and-copy order", RCA), ("release of the last reference", RCA)],
  ["values of every object after interleaved operations, allocation balance, sanitizer reports"],
  [("reference count", "atomic number of sharing objects", RCA)])

p("C29", "Script evaluation and loading report exact results and errors",
  "Evaluating a script returns exactly the result text of its last command in the global scope, or the error trace when it fails, and later evaluations are unaffected by earlier failures. Loading a script file runs it when its name ends in .tcl and reports success, reports an error together with the error message when it fails or cannot be read, and refuses any other name without running it.",
  ["inputs", "programs", "histories"], "all result texts, script sequences mixing successes and failures, and file names",
  "Tests evaluate a few literals and load one or two files.",
  ["src/ScriptInterpTCL.cpp", "src/ScriptInterp.h"], [("eval", "src/ScriptInterpTCL.cpp"), ("loadScript", "src/ScriptInterpTCL.cpp")],
  ["returned texts, load status, error message, interpreter state afterwards"])

p("C30", "Standard algorithms work through the iterators of Strings and Arrays",
  "The iterators of a String or Array make it an ordinary random-access sequence: any standard algorithm run over its iterators (sorting, rotating, reversing, partitioning, searching, accumulating, erasing by remove, forwards and backwards, const or not) gives exactly what it gives on a std::vector of the same elements, and changes no copy, window or original that shared the storage. Constructing or inserting from any iterator range, of whatever category, takes exactly the elements of the range.",
  ["inputs", "histories"], "all contents, subranges, algorithms and sharing states",
  "Tests run one or two algorithms on an unshared object.",
  [RCA, A, S], [("begin/end, rbegin/rend, cbegin/cend", RCA), ("detach before handing out mutable iterators", RCA)],
  ["elements after the algorithm and its result against std::vector; the sharers' contents"])

p("C31", "Running out of memory loses nothing and leaks nothing",
  "When an allocation fails inside an operation that may throw on a String, Array, HashTable or Stream (with elements whose copying itself cannot fail halfway), the operation reports it with std::bad_alloc, every object still has the value it had before (only the target of a whole-value assignment may instead be left empty), every object remains usable, no object sharing the storage is affected, and nothing is leaked or freed twice. A request no memory can satisfy, up to the largest value of the size type, is refused in the same way (std::bad_alloc or std::length_error) and never wraps around to a small one.",
  ["inputs", "histories", "faults"], "all histories of operations, sharing states, requested sizes, and every choice of the allocations that fail",
  "No test makes an allocation fail.",
  [RCA, S, A, "src/HashTable.h", "src/Stream.cpp"], [("allocate before releasing the old buffer", RCA), ("copy-on-write detach", RCA)],
  ["values of every object after the failure, exception type, allocation balance"])

p("C32", "Sharing costs nothing per element and growing is amortised",
  "Copying, moving, assigning, swapping, taking substrings/slices of, trimming from the ends, splitting, case-sensitive searching, comparing and reading a String or Array never copies its elements: the memory used does not depend on the length. A write to an object that is the only owner of storage with enough room happens in place, reserved room is used without another allocation, and a sequence of n appends allocates memory proportional to n in total, for Strings, Arrays and Streams. Different texts or arrays hardly ever share a hash, so that tables keyed by them stay constant-time.",
  ["inputs", "histories"], "all sizes, sharing states and sequences of sharing, reading, appending operations",
  "Tests look at values only; losing the sharing or the geometric growth changes no value.",
  [RCA, S, A, "src/Stream.h", "src/Stream.cpp"], [("reference count on copy", RCA), ("slices as offset and length", RCA), ("scaling factor in reserve", RCA)],
  ["bytes allocated and elements constructed per operation, as a function of length"])

p("C33", "A failing element copy leaks nothing and harms no other Array",
  "When copying or default-constructing an element throws inside an Array operation, that exception reaches the caller, no memory or element is leaked or destroyed twice, every other Array (sharing the storage or passed as the argument) keeps its value, and the Array operated on stays usable. It keeps its value when only detaching from shared storage failed, and, for elements that move without throwing, when the operation was appending, reserving, resizing with a value, or overwriting or removing one element.",
  ["inputs", "histories", "faults"], "all histories of operations, sharing states, and every choice of the element copy that throws",
  "No test has an element whose copy throws.",
  [RCA, A], [("grow into a new buffer", RCA), ("copy-on-write detach", RCA)],
  ["values of every object after the failure, exception type, element lifetimes, allocation balance"])

p("C34", "Repeating an operation takes no more memory and gives the same result",
  "A program can repeat any operation for as long as it runs: evaluating scripts, calling commands from Tcl (returning, throwing or with wrong arguments), making and calling callbacks, reading, writing, linking and unlinking variables, creating and removing commands and interpreters, loading scripts, reading and writing files, base64 coding, formatting, splitting, substituting, iostream reads and operations refused with an exception. Repeated with the same arguments from the same state, it gives the same result each time and the memory in use does not keep growing, whether it was obtained by the library, by the C library or inside Tcl.",
  ["histories", "inputs"], "every operation with any arguments, repeated any number of times",
  "Tests run each operation once and never look at memory; a lost Tcl reference shows in no result.",
  ["src/ScriptInterpTCL.cpp", "src/ScriptInterpTCL.h", "src/base64.cpp", "src/Cstrings.cpp", "src/Stream.cpp", S, RCA], [("Tcl reference counts in traces, callbacks and results", "src/ScriptInterpTCL.cpp"), ("command ownership", "src/ScriptInterpTCL.h"), ("malloc'ed results", "src/base64.cpp")],
  ["live heap bytes over windows of repetitions, results of each repetition"])

p("C35", "Separate objects can be used on separate threads without interference",
  "Threads that share no objects can use the library at the same time: formatting, base64 coding, splitting, substituting, searching, editing, tables, Streams and their files, atomic file updates, C-string helpers, iostream operators and script interpreters (each used only by the thread that created it) give every thread exactly what they give when it runs alone, at every interleaving, without a data race, whether or not the library was used before in the process.",
  ["schedules", "inputs"], "every combination of operations on any number of threads, every interleaving",
  "Tests are single-threaded; a static buffer or cache is invisible to them.",
  ["src/String.cpp", "src/String.h", "src/base64.cpp", "src/Cstrings.cpp", "src/Stream.cpp", "src/AtomicFile.cpp", "src/ScriptInterpTCL.cpp", "src/ScriptInterpTCL.h", RCA], [("the wipe counter shared by all Strings", "src/String.h"), ("formatting buffer", "src/String.cpp"), ("alphabet index", "src/base64.cpp")],
  ["results of each thread against the same job done alone; ThreadSanitizer reports"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
