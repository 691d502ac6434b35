"""Which harness parts decide which property, and in which build configurations."""
_SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,shift,vptr,returns-nonnull-attribute,null,implicit-conversion,function",
        "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-DPBT_ASAN"]
CONFIGS = {
    # sanitized build, the main search
    "asan": dict(cxx="clang++", flags=["-std=c++14", "-O1"] + _SAN, scale=1.0),
    # the code as the repository builds it
    "plain": dict(cxx="g++", flags=["-std=c++14", "-O2"], scale=1.0),
    "asan17": dict(cxx="clang++", flags=["-std=c++17", "-O1"] + _SAN, scale=0.5),
    "tsan": dict(cxx="clang++", flags=["-std=c++14", "-O1", "-fsanitize=thread", "-DSCHED_REAL_THREADS"], scale=1.0, nowrap=True),
    # as configured with --enable-debug: assertions are active
    "debug": dict(cxx="clang++", flags=["-std=c++14", "-O1", "-UNDEBUG"] + _SAN, scale=0.5),
    # platform fallbacks (no memmem, no mmap)
    "fallback": dict(cxx="clang++", flags=["-std=c++14", "-O1", "-DCFG_NO_MEMMEM", "-DCFG_NO_MMAP"] + _SAN, scale=0.5),
}
# system calls of the library under the harness's control (see h_stream.cpp)
_WRAPS = "mkstemp mkostemp mkstemps fchmod chmod rename renameat link lstat dup lseek mmap munmap close fsync fdatasync unlink remove write ftruncate open".split()
# locks, for the cooperative threads of h_sched.cpp
_LOCKS = ["__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once"] + ["pthread_" + w for w in
    "mutex_lock mutex_trylock mutex_unlock rwlock_rdlock rwlock_wrlock rwlock_tryrdlock rwlock_trywrlock rwlock_unlock spin_lock spin_unlock".split()]
GROUPS = {
    "string1": dict(src=["h_string1.cpp"]),
    "string2": dict(src=["h_string2.cpp"]),
    "misc": dict(src=["h_misc.cpp"]),
    "stream": dict(src=["h_stream.cpp"], link=["-Wl," + ",".join("--wrap=" + w for w in _WRAPS)]),
    "array": dict(src=["h_array.cpp"]),
    "sched": dict(src=["h_sched.cpp"], flags=["-include", "hookatomic.h"], plainflags=["-DSCHED_PLAIN_ATOMIC"], link=["-Wl," + ",".join("--wrap=" + w for w in _LOCKS)]),
    "tcl": dict(src=["h_tcl.cpp"]),
    "more": dict(src=["h_more.cpp"]),
    "par": dict(src=["h_par.cpp"]),
}
_F = {"quick": ["asan", "plain", "fallback"], "thorough": ["asan", "plain", "asan17", "debug", "fallback"]}
_Q = {"quick": ["asan", "plain"], "thorough": ["asan", "plain", "asan17", "debug", "fallback"]}
_FIB = ["C28.String", "C28.array-int", "C28.array-Y", "C28.array-String"]
_THR = ["C28.String-threads", "C28.array-int-threads", "C28.array-String-threads"]
CHECKS = {
    "C01": dict(parts=[("string1", "C01"), ("string1", "C01.scale")], configs=_Q),
    "C02": dict(parts=[("string1", "C02"), ("string1", "C02.scale")], configs=_Q),
    "C03": dict(parts=[("array", "C03.int"), ("array", "C03.String"), ("array", "C03.Tracked"), ("array", "C03.nested"), ("array", "C03.int-scale"), ("array", "C03.String-scale")], configs=_Q),
    "C05": dict(parts=[("string1", "C05"), ("string1", "C05.scale")], configs=_Q),
    "C07": dict(parts=[("string1", "C07"), ("string1", "C07.pairs"), ("array", "C07.array-int"), ("array", "C07.array-String"), ("array", "C07.array-nested"), ("string1", "C07.scale"), ("array", "C07.array-int-scale"), ("string1", "C07.huge")], only={"C07.huge": ["plain"]}, configs=_Q),
    "C10": dict(parts=[("string1", "C10"), ("array", "C10.array-int"), ("array", "C10.array-String"), ("string1", "C10.scale"), ("array", "C10.array-int-scale"), ("string1", "C10.huge")], only={"C10.huge": ["plain"]}, configs=_Q),
    "C12": dict(parts=[("string1", "C12.string"), ("array", "C12.array-Tracked"), ("array", "C12.array-String"), ("array", "C12.array-nested"), ("array", "C12.table"), ("string1", "C12.string-scale"), ("array", "C12.array-scale")], configs=_Q),
    "C04": dict(parts=[("string2", "C04.string"), ("string2", "C04.string-scale"), ("string2", "C04.assign"), ("string2", "C04.assign-scale"), ("string2", "C04.array-int"), ("string2", "C04.array-int-scale"), ("string2", "C04.array-String")], configs=_Q),
    "C06": dict(parts=[("string2", "C06.string"), ("string2", "C06.string-scale"), ("string2", "C06.array-int"), ("string2", "C06.array-int-scale"), ("string2", "C06.array-String")], configs=_F),
    "C08": dict(parts=[("string2", "C08.split"), ("string2", "C08.split-scale"), ("string2", "C08.newsplit"), ("string2", "C08.newsplit-scale"), ("string2", "C08.join"), ("string2", "C08.join-scale")], configs=_F),
    "C09": dict(parts=[("string2", "C09.sub"), ("string2", "C09.sub-scale"), ("string2", "C09.subst"), ("string2", "C09.subst-scale")], configs=_F),
    "C11": dict(parts=[("string2", "C11.string"), ("string2", "C11.string-scale"), ("string2", "C11.array-int"), ("string2", "C11.array-int-scale"), ("string2", "C11.array-String"), ("stream", "C11.stream")], configs=_Q),
    "C13": dict(parts=[("string2", "C13.string"), ("string2", "C13.container")], configs=_Q),
    "C26": dict(parts=[("string2", "C26")], configs=_Q),
    "C27": dict(parts=[("string2", "C27.in"), ("string2", "C27.in-scale"), ("string2", "C27.out"), ("string2", "C27.out-scale")], configs={"quick": ["asan", "plain", "debug"], "thorough": _Q["thorough"]}),
    "C14": dict(parts=[("misc", "C14.String-String"), ("misc", "C14.int-String"), ("misc", "C14.String-Array"), ("misc", "C14.Array-int"), ("misc", "C14.alias"), ("misc", "C14.scale-String"), ("misc", "C14.scale-int")], configs=_Q),
    "C15": dict(parts=[("stream", "C15"), ("stream", "C15.scale")], configs=_Q),
    "C16": dict(parts=[("stream", "C16"), ("stream", "C16.faults"), ("stream", "C16.scale")], configs=_F, level="fault_enumeration"),
    "C17": dict(parts=[("stream", "C17"), ("stream", "C17.many")], configs=_Q, level="fault_enumeration"),
    "C18": dict(parts=[("stream", "C18"), ("stream", "C18.many")], configs=_Q, level="fault_enumeration"),
    "C19": dict(parts=[("misc", "C19"), ("misc", "C19.scale")], configs=_Q),
    "C20": dict(parts=[("misc", "C20"), ("misc", "C20.scale")], configs=_Q),
    "C22": dict(parts=[("tcl", "C22")], configs=_Q),
    "C23": dict(parts=[("tcl", "C23")], configs=_Q),
    "C24": dict(parts=[("tcl", "C24")], configs=_Q),
    "C25": dict(parts=[("tcl", "C25")], configs=_Q),
    "C28": dict(parts=[("sched", p) for p in _FIB + _THR], only=dict([(p, ["asan", "plain", "asan17", "debug"]) for p in _FIB] + [(p, ["tsan"]) for p in _THR]),
                configs={"quick": ["asan", "plain", "tsan"], "thorough": ["asan", "plain", "tsan", "asan17", "debug"]}),
    "C29": dict(parts=[("tcl", "C29")], configs=_Q),
    "C21": dict(parts=[("misc", "C21"), ("misc", "C21.scale")], configs=_Q),
    "C30": dict(parts=[("more", "C30.string"), ("more", "C30.array-int"), ("more", "C30.array-String")], configs=_Q),
    "C31": dict(parts=[("more", "C31.string"), ("more", "C31.array-int"), ("more", "C31.array-Tracked"), ("more", "C31.array-String"), ("more", "C31.array-nested"), ("more", "C31.table-stream"), ("more", "C31.load"), ("more", "C31.huge-string"), ("more", "C31.huge-array-int"), ("more", "C31.huge-array-Tracked"), ("more", "C31.huge-array-String")], configs=_Q),
    "C32": dict(parts=[("more", "C32.share-string"), ("more", "C32.share-array-int"), ("more", "C32.share-array-object"), ("more", "C32.grow-string"), ("more", "C32.grow-array-int"), ("more", "C32.grow-array-object"), ("more", "C32.grow-stream"), ("more", "C32.hash")], configs=_Q),
    "C34": dict(parts=[("tcl", "C34")], configs=_Q),
    "C35": dict(parts=[("par", "C35"), ("par", "C35.tcl")], configs={"quick": ["asan", "plain", "tsan"], "thorough": ["asan", "plain", "tsan", "asan17", "debug"]}),
    "C33": dict(parts=[("more", "C33.moves"), ("more", "C33.copies")], configs={"quick": ["asan", "plain", "asan17"], "thorough": _Q["thorough"]}),
}
_S = "Random search with shrinking; a pass means no counterexample among the generated cases of the recorded seed. "
_ASAN = "Trusts the reference model, AddressSanitizer/UBSan for memory errors, and that the harness's config.h matches what configure finds. "
TECHNIQUE = {
    "C01": ("stateful model-based histories over a pool of Strings sharing buffers, oracle std::string per object, ASan", _S + _ASAN),
    "C02": ("generated edits on placed Strings (shared, views, exactly full, self-aliased), oracle std::string, ASan", _S + _ASAN),
    "C03": ("stateful histories over pools of Arrays of four element types, oracle std::vector, ASan", _S + _ASAN),
    "C04": ("generated (content, start, length) triples and slice assignments against the window rule", _S + _ASAN),
    "C05": ("generated placements of Strings, exports compared with the model bytes, guard-exact allocations under ASan", _S + _ASAN),
    "C06": ("generated haystack/needle pairs against brute-force search, in builds with and without memmem", _S + _ASAN),
    "C07": ("generated pairs, triples and hash histories; order axioms and a lexicographic oracle", _S + _ASAN),
    "C08": ("generated texts/delimiters/limits against a reference splitter, round trip split/join", _S + _ASAN),
    "C09": ("generated substitutions against a reference replacer, termination by watchdog", _S + _ASAN),
    "C10": ("generated trims and window drops followed by edits, oracle std::string/vector", _S + _ASAN),
    "C11": ("every checked operation at generated positions; exception exactly beyond the end, state unchanged", _S + _ASAN),
    "C12": ("stateful histories with counted elements and a counting allocator; reference counts against a sharing model", _S + _ASAN + "The sharing model is derived from reported reference counts and storage addresses."),
    "C13": ("generated destruction orders with an allocator hook that inspects released blocks", _S + "Trusts the operator delete interposition to see every release."),
    "C14": ("stateful histories over HashTables with colliding keys, oracle std::map", _S + _ASAN),
    "C15": ("stateful histories over a Stream, oracle byte buffer with position, ASan", _S + _ASAN),
    "C16": ("generated contents and prior states, write/load round trip on real files, injected system-call failures, mmap and fallback builds", _S + _ASAN + "Failures are injected by link-time wrapping of the C library calls."),
    "C17": ("enumeration of crash points and single/double system-call failures over generated updates, oracle old-or-new contents", "Each generated update is run once per reachable system call for a crash and a failure, plus sampled double failures; contents and path forms are sampled. A crash is process death at that call; loss of unflushed data is modelled as the contents at the last fsync."),
    "C18": ("stateful histories of open/write/commit/abort with injected failures; directory, descriptor and mode oracle", _S + "Failures are injected by link-time wrapping of the C library calls."),
    "C19": ("round trip and differential encoding against a reference RFC 4648 coder over generated alphabets", _S + _ASAN),
    "C20": ("structured and raw malformed inputs in exactly sized buffers under ASan, prefix oracle", _S + _ASAN),
    "C21": ("generated sources, sizes and destinations in exactly sized buffers under ASan, OpenBSD semantics as oracle", _S + _ASAN),
    "C22": ("stateful histories of C-side and Tcl-side accesses to linked variables of every type, oracle C values and Tcl's own formatting", _S + _ASAN + "Trusts libtcl 8.6."),
    "C23": ("generated signatures, argument counts and values through registered commands, recording oracle", _S + _ASAN + "Trusts libtcl 8.6."),
    "C24": ("generated parameter lists through callbacks, recording command as oracle", _S + _ASAN + "Trusts libtcl 8.6."),
    "C25": ("stateful histories over several interpreters, oracle map of registrations", _S + _ASAN + "Trusts libtcl 8.6."),
    "C26": ("generated formats and arguments, differential against vsnprintf", _S + _ASAN),
    "C27": ("generated texts and extraction sequences, differential against std::string iostreams", _S + _ASAN),
    "C28": ("generated schedules on cooperative threads switching at every atomic access, allocation and element copy, plus generated operations on real threads under ThreadSanitizer", _S + "The fiber schedules are sequentially consistent; memory ordering is judged by ThreadSanitizer on the executed runs only."),
    "C29": ("generated script sequences and files against a model of results, differential against plain Tcl", _S + _ASAN + "Trusts libtcl 8.6."),
    "C30": ("generated chains of standard algorithms over iterators of shared and windowed objects, differential against std::vector", _S + _ASAN),
    "C31": ("stateful histories with generated allocation failures, oracle: values before the operation and allocation balance, ASan", _S + _ASAN + "Failures are injected in operator new and malloc-family calls made by the library."),
    "C32": ("generated operations on objects of generated sizes with the allocator metered; bounds independent of length (sharing) or linear in total (growth)", _S + "Bounds are generous constants: 2 KB per sharing operation, a linear total for appends."),
    "C34": ("generated operations repeated thousands of times on one interpreter, oracle: live heap bytes stop growing and results stay the same", _S + "Heap use is read from the sanitizer's allocation hooks or the C library; a leak counts only if four windows in a row grow. "),
    "C35": ("generated jobs on real threads in fresh processes, oracle: the same job done alone, under ThreadSanitizer, ASan and plainly", _S + "Real threads: the interleavings are those the scheduler gives, ThreadSanitizer judges the ones near them. Accesses inside the Tcl library are not seen. "),
    "C33": ("stateful histories in which a generated copy of an element throws, oracle: values before the operation, element lifetimes and allocation balance, ASan", _S + _ASAN + "Throwing copies are injected through element types with throwing copy and default construction."),
}
