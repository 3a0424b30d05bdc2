"""What each check runs: builds, rule of evidence, technique, level and its note."""

BASE = ["-std=c++17", "-g1", "-include", "array", "-pthread"]
BUILDS = {
    # name: (compiler, flags for the library and the harness, flags for the harness only[, flags for the library only, flags for linking])
    "plain": ("g++", ["-O2"], ["-DMON_ALLOC"]),
    "o0": ("g++", ["-O0"], ["-DMON_ALLOC"]),
    "clang": ("clang++", ["-O3"], ["-DMON_ALLOC"]),
    "asan": ("g++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"], []),
    "asanub": ("g++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], []),
    "clangub": ("clang++", ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,local-bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], []),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"], []),
    "valgrind": ("g++", ["-O0"], []),
    "fast": ("g++", ["-O3"], []),
    # counts the basic blocks the library executes and the bytes it moves
    "steps": ("g++", ["-O2"], ["-DMON_ALLOC", "-DMON_STEPS"], ["-fsanitize-coverage=trace-pc"], ["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset,--wrap=memcmp"]),
}

def run(build, scale=1.0, tiers=("quick", "thorough"), thorough_scale=None):
    return {"build": build, "scale": scale, "tiers": tiers, "tscale": scale if thorough_scale is None else thorough_scale}

def plain(quick, thorough=2.0):
    return [run("plain", quick, thorough_scale=thorough), run("clang", tiers=("thorough",), thorough_scale=0.3), run("o0", tiers=("thorough",), thorough_scale=0.05), run("asanub", tiers=("thorough",), thorough_scale=0.05)]
PLAIN = plain(8.0)
T_REF = "differential runtime oracle: the real code run under generated workloads, every result compared online with an independent reference model of the standard"
N_REF = "Holds on every execution explored (seeded workload; counts in the evidence). Trusts the reference model in harness/ref.hpp, which is checked against the published vectors of the standards at every start, the compiler, and the allocation monitor."

P = {
"C01": dict(runs=plain(50, 40), technique=T_REF,
    rule="A case is a key, a table and blocks, enciphered through every one-block entry point and compared with the reference. Keys, tables and blocks are random, structured (repeated words, single bits, bijective and non-bijective rows) or solved backwards so that a chosen round sees a carry, a zero or a full word. Distinct: different (key, table, block)."),
"C02": dict(runs=plain(50, 40), technique=T_REF,
    rule="A case is a key, a table (bijective or not) and a block, taken through encryption and decryption in both orders and compared with the block and with the reference. Distinct: different (key, table, block)."),
"C03": dict(runs=PLAIN, technique=T_REF,
    rule="A case is a key and a block enciphered, or an input of S, R, L or the key iteration, compared with the reference; keys are solved backwards for special round keys and blocks for special round states, and every byte value is put in every position. Distinct: different (key, block) or (transformation, input)."),
"C04": dict(runs=PLAIN + [run("fast", tiers=("thorough",))], technique=T_REF,
    rule="A case is a key, an initial value and a stream, walked in different orders with re-inspection; value, size and last mark of every block are compared. Some walks are long enough for byte, 16- and 24-bit carries of the counter (thorough: 32-bit). Distinct: different (key, initial value, stream, walk)."),
"C05": dict(runs=PLAIN, technique=T_REF + "; trace monitor on the underlying sink",
    rule="A case is a CFB variant, key, vector, message and split into writes; the bytes the recording sink received are compared with the reference. All lengths from 0 up and all two- and three-way splits of small messages are enumerated, the rest generated. Distinct: different (key, vector, message, split)."),
"C06": dict(runs=PLAIN, technique=T_REF + "; trace monitor on the sequence of reads",
    rule="A case is a CFB variant, key, vector, ciphertext and read plan; every read's bytes and length are compared with the reference, also past the end. Distinct: different (key, vector, ciphertext, plan)."),
"C07": dict(runs=PLAIN, technique=T_REF + "; refusal monitor",
    rule="A case is a key and a message driven through the ECB sink and source, aligned (compared with the reference) or not (must be refused without bytes for the partial block). Distinct: different (key, message or length, split)."),
"C08": dict(runs=PLAIN, technique=T_REF,
    rule="A case is a key and a stream whose MAC is compared with the reference; contents are solved so that chaining values, subkeys and the last block are zero, full or carry into the reduction. Distinct: different (key, message)."),
"C09": dict(runs=plain(16, 4), technique=T_REF,
    rule="A case is a key, table and message whose MAC is compared with the reference (an incomplete last block may be padded in any of the usual ways, but must use the second subkey). Distinct: different (key, message)."),
"C10": dict(runs=plain(16, 4), technique=T_REF,
    rule="A case is a key, table and message whose GOST 28147-89 MAC is compared with the reference. Distinct: different (key, message)."),
"C11": dict(runs=PLAIN, technique="metamorphic runtime oracle: MACs of related messages and keys observed and compared for coincidences no random function would show",
    rule="A case is a key and a family of related messages (bit flips, swaps, insertions, deletions, repetitions, zero extensions) or a message and related keys; all MACs observed must differ. Distinct: different (key, family).",
    note="Holds on every execution explored, except the listed finding. A coincidence between 128-bit or 64-bit values by chance is excluded by the number of comparisons (below 2^28) only with probability, about 2^-9 for the 64-bit cipher over a whole thorough run and 2^-20 for a quick one."),
"C12": dict(runs=plain(16, 4), technique="history monitor: forked and repeated uses of every handle, each compared online with the reference of its own history",
    rule="A case is a tree of handles forked from one sink, source or iterator by random writes, reads or steps, every handle used again after its descendants. Distinct: different (kind, tree)."),
"C13": dict(runs=[run("plain", 1.0), run("tsan", 1.0), run("clang", tiers=("thorough",), thorough_scale=0.3)],
    technique="ThreadSanitizer plus an online result oracle, under stress with injected delays inside the callers' own keys, tables, blocks, sources and sinks",
    rule="A case is a freshly built set of objects used at once by 2 to 8 threads released together, with delays injected at the points where the library calls the caller's parts; results are compared with the reference, races reported by ThreadSanitizer. Distinct: different per-thread operation orders or fresh keys.",
    note="No race and no wrong result in the interleavings that occurred. ThreadSanitizer sees races between accesses that happened in the runs, whatever their timing, within its history window; interleavings are sampled, not enumerated."),
"C14": dict(runs=[run("plain", 1.0), run("asanub", 1.0), run("valgrind", 0.03, thorough_scale=0.03), run("clangub", tiers=("thorough",), thorough_scale=0.5)],
    technique="AddressSanitizer, UndefinedBehaviorSanitizer, debug-checked standard library, valgrind memcheck, and an allocation monitor (canaries, poison, balance, two memory patterns)",
    rule="A case is a set of objects of all kinds built and used, all lengths around block boundaries, all alignments and all shift amounts included; the verdict is the sanitizers'. Distinct: different generated sets, lengths, alignments.",
    note="No report by any of the monitors in the executions explored. Intra-object overruns that stay inside one allocation and one array object, and uninitialised values that never reach a result, a branch (valgrind part) or a pointer can escape."),
"C15": dict(runs=[run("plain", 1.0), run("asan", 1.0)], technique="refusal monitor: malformed inputs enumerated and generated, exception observed, under AddressSanitizer",
    rule="A case is one malformed (or, as a control, well-formed) key text, native key, container, table, index, block text or byte vector given to every operation that would use it. Distinct: different malformed inputs.",
    note="All sizes and all single wrong characters of the listed forms are enumerated in every position class; other malformed inputs are generated."),
"C16": dict(runs=[run("plain", 1.0), run("asan", 0.5)], level="fault_enumeration", technique="fault injection at every call of a collaborator and every allocation, with retry, balance and result monitors",
    rule="A case is an operation with the n-th call of a caller-supplied part, or the n-th allocation, failing (once or from then on); then the call is repeated without the fault and compared. n runs over all points of the operation, or over the first, the last and a sample when there are more than the cap (40 quick, 160 thorough). Distinct: different (operation, kind, n).",
    note="All fault points up to the cap were tried for each generated operation; beyond the cap a sample. Single faults and permanent faults, not arbitrary patterns."),
"C17": dict(runs=[run("steps", 1.0)], technique="resource monitors: painted stack, live-heap high-water mark and operation counters at two lengths",
    rule="A case is a workload run at a small and a large length on a private painted stack; stack and live-heap high-water marks and cipher operation counts are compared. Distinct: different (workload, lengths).",
    note="Growth is judged between two lengths (up to 3*10^5 blocks); slow growth below the tolerance at these lengths could escape."),
"C18": dict(runs=[run("plain", 1.0), run("tsan", 0.3)], technique="call-counting monitors under the caching objects, with failing and changing underlying values, threads and ThreadSanitizer",
    rule="A case is a caching key or block over key material that counts, fails at chosen calls or changes its answer, used repeatedly or by several threads; counts, failures and answers are checked after every use. Distinct: different (kind, failure pattern, order)."),
"C19": dict(runs=PLAIN, technique=T_REF + " across all representations of one key",
    rule="A case is one key in every form (text in three letter cases, native, key data classes, cached, own implementations, container) used in every mode, compared with the reference; sources, sinks, streams and tables are the caller's own. Distinct: different (form, key)."),
"C20": dict(runs=[run("plain", 1.0), run("asan", 0.5)], technique="lifetime monitor: arguments overwritten and freed in random order, memory poisoned and reused, results compared, under AddressSanitizer",
    rule="A case builds objects from strings, vectors, memory and handles, overwrites and frees all of these in random order, reuses the memory and then uses the objects, comparing with the reference. Distinct: different generated object graphs and drop orders."),
"C21": dict(runs=plain(40, 30), technique="differential runtime oracle against integer arithmetic",
    rule="A case is a value built in every way, a shift amount, an increment, an XOR of up to eight blocks or an expression tree, compared with 64-bit or 128-bit integer arithmetic. All shift amounts, alignments and text lengths are enumerated. Distinct: different values or expressions."),
"C22": dict(runs=plain(12, 4), technique="differential runtime oracle against a nibble-wise reference",
    rule="A case is a table and words put through every form of it; every nibble value in every position and every byte value in every position is enumerated per table (thorough: all 2^32 words of the default table). Distinct: different (table, word)."),
"C23": dict(runs=plain(8, 2), technique=T_REF + " composed layer by layer",
    rule="A case is a stack of 1 to 9 sinks, sources or streams with their own keys, driven in pieces, compared with the composed reference functions and read back. Distinct: different (stack, message)."),
"C24": dict(runs=plain(16, 6), technique="trace monitor: every step of every iterator compared with the sequence",
    rule="A case is a sequence of words walked completely, or by several iterators stepped in random order; value, size, last mark and end are compared at every step. All lengths up to 300 words are enumerated. Distinct: different (sequence, walk)."),
"C25": dict(runs=plain(4, 1), locales=True, technique="history and ambient-state monitors: results under address reuse, many live objects, refused calls, other locales and threads; output, descriptors and process state observed",
    rule="A case is a history (keys made at reused addresses, many keys alive, long repetition, refused calls in between, other locale, other thread), every result compared with the reference, or a workload around which process-wide state and output are compared. Distinct: different histories."),
"C26": dict(runs=[run("plain", 6.0, thorough_scale=2.0), run("asanub", 0.5), run("clang", tiers=("thorough",), thorough_scale=0.3)],
    technique="trace monitors below the pipeline: counting parts, and one-pass sources, sinks and streams that report a second use, a read ahead and bytes held back",
    rule="A case is one set of objects built over counting parts, or a pipeline of 1 to 4 stages driven once over a one-pass source (also one that breaks somewhere), sink or stream, judged after every operation. Distinct: different pipelines and data."),
}
for d in P.values():
    d.setdefault("level", "exploration")
    d.setdefault("note", N_REF)
