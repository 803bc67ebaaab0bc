"""Writes properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(obs), hook_needed=hook)))


ALLBG = [f"randomgen/{x}.pyx" for x in (
    "aes chacha dsfmt efiix64 hc128 jsf lxm mt19937 mt64 pcg32 pcg64 philox romu sfc "
    "sfmt speck128 squares threefry tyche xoroshiro128 xorshift1024 xoshiro256 "
    "xoshiro512").split()]

p("C01", "A saved state restored anywhere continues the stream exactly",
  "For every bit generator configuration and every history of draws, reseeds, advances and jumps, the state taken afterwards and restored into any generator of the same class (fresh, mid-stream, or built with another configuration), or carried by pickle, copy.copy, copy.deepcopy or an ExtendedGenerator around it, yields exactly the values the original would have produced next. Reading a state never changes the stream, and a restored generator reports the state it was given.",
  ["histories", "configurations"],
  "all histories of draws of mixed widths/reseed/advance/jump x all restore targets x all later draws, over every class and variant",
  "tests restore after one fixed warm-up, almost always into a same-variant generator; pending 32-bit halves, block-buffer positions, variants and wrappers combine multiplicatively",
  ALLBG + ["randomgen/generator.pyx", "randomgen/_pickle.py", "randomgen/common.pyx"],
  [("state getter/setter of each bit generator", "randomgen/*.pyx: state"),
   ("pickling of wrappers", "randomgen/generator.pyx: ExtendedGenerator.__reduce__/__setstate__"),
   ("state array validation", "randomgen/common.pyx: check_state_array")],
  [("pending half / block buffer", "an unused half word or part of a block", "has_uint32, uinteger, buffer_pos, offset, idx in each state struct")],
  ["BitGenerator.state", "random_raw", "ExtendedGenerator.uintegers/random", "pickle/copy"])

p("C02", "Generators, snapshots and children never share mutable state",
  "Operations on one generator never change the values, the state or previously taken state snapshots of another generator, whatever way the two are related (independent, copied, unpickled, jumped, restored from the same snapshot, same seed sequence). Modifying a snapshot, or an array that was passed in, never changes a generator, and a generator never modifies a snapshot, seed sequence or array it was given.",
  ["histories"],
  "all interleavings of operations on two related generators of every class pair-relation, plus writes to every container handed over",
  "tests use one generator at a time and never write to the snapshots they hold",
  ALLBG + ["randomgen/common.pyx", "randomgen/squares.pyx", "randomgen/generator.pyx"],
  [("copies made by state getters and setters", "randomgen/*.pyx: state"),
   ("children built by jumped", "randomgen/*.pyx: jumped"),
   ("module level scratch memory", "randomgen/squares.pyx: WORDS; randomgen/src/**: static data")],
  [("module level buffers", "scratch memory shared by all instances", "randomgen/squares.pyx: WORDS")],
  ["state", "random_raw", "numpy Generator", "seed_seq.state"])

p("C03", "advance(n) is exactly n draws, from every position, and composes",
  "On every generator with advance, advancing by n from any reachable position leaves the same later output as drawing n values of the underlying word size and discarding them, and discards any pending 32-bit half (an amount of 0 may keep it); advances compose additively, negative advances undo positive ones where they are accepted, and amounts are taken modulo the period. For Philox and ThreeFry this holds word-wise with counter=False and block-wise (restarting at a block boundary) with counter=True.",
  ["histories", "inputs"],
  "all amounts (0, around block and carry boundaries of every counter word, up to and beyond the period, negative) x all buffer positions x all sequences of advances and draws",
  "tests compare a handful of advances from a fresh generator; carries and wrap-around need counters no test reaches",
  [f"randomgen/{x}.pyx" for x in "aes speck128 pcg32 pcg64 philox threefry squares".split()]
  + ["randomgen/src/philox/philox.c", "randomgen/src/threefry/threefry.c", "randomgen/src/aesctr/aesctr.c", "randomgen/src/speck-128/speck-128.c", "randomgen/src/pcg64/pcg64-common.c", "randomgen/src/pcg32/pcg32.c"],
  [("counter arithmetic and buffer position", "randomgen/src/*/: *_advance"),
   ("reduction of the amount", "randomgen/common.pyx: wrap_int, int_to_array")],
  [("counter + buffer position", "how many words were consumed", "state structs")],
  ["advance", "random_raw"])

p("C04", "jumped streams are the documented distance away and leave the parent alone",
  "jumped(k) returns, for every k >= 1 and parent state, a new generator exactly k times the documented distance ahead of its parent (counted in counter blocks from the next block boundary for the counter-based block generators, in 128-bit state words for SFMT and DSFMT), so jumping k then m equals jumping k+m, jumps commute with draws of whole words, and pending 32-bit halves are not inherited; the parent is unchanged. Where in-place jump exists it lands in the same place, and distances are exactly those the documentation states.",
  ["histories", "inputs", "configurations"],
  "all interleavings of draws and jumps (child of child, after partial blocks) x all jump counts up to the bound; distance against an independent computation",
  "tests pin a few recorded states after one jump from a fresh seed; they cannot show that the distance is the documented one from other states",
  ALLBG + ["randomgen/src/dsfmt/dSFMT-jump.c", "randomgen/src/sfmt/sfmt-jump.c", "randomgen/src/mt19937/mt19937-jump.c"],
  [("jump polynomials and LCG skip-ahead", "randomgen/src/**/*jump*.c, *_jump"),
   ("construction of the child", "randomgen/*.pyx: jumped")],
  (), ["jumped", "jump", "random_raw", "state"])

p("C05", "Every draw interface consumes one stream in one documented order",
  "Through random_raw, ExtendedGenerator, numpy's Generator, the ctypes and cffi interfaces, with any sizes and shapes, mixed in any order, each value is the documented composition (64-bit word, low-then-high 32-bit half, two 32-bit words, 53-bit double, 23-bit float) of the next words of one underlying stream; no word is skipped, repeated or reordered. Drawing n values at once equals drawing them one by one, and discarding draws (output=False) consumes as many words as keeping them.",
  ["histories", "configurations"],
  "all sequences of draw operations of every width/size/interface up to the depth bound, from every block offset, for every generator",
  "tests check each width from a fresh generator against a recorded vector, never mixtures, never interfaces against each other at block edges",
  ALLBG + ["randomgen/common.pyx", "randomgen/generator.pyx", "randomgen/src/common"],
  [("next_uint64/next_uint32/next_double/next_raw of each generator", "randomgen/src/**/*.h"),
   ("loops filling arrays", "randomgen/common.pyx: random_raw, double_fill; randomgen/generator.pyx: uintegers, random"),
   ("low level interfaces", "randomgen/common.pyx: prepare_ctypes, prepare_cffi")],
  [("pending half", "high half of the last word", "has_uint32, uinteger")],
  ["random_raw", "uintegers", "random", "ctypes", "cffi", "numpy.random.Generator"])

p("C06", "From every state, each generator computes its published algorithm",
  "From any state that can be set, including all-zero, all-ones, carry- and wrap-provoking ones, the next outputs and the successor state are those of the published algorithm the documentation names for that generator and variant. This holds across block and table regeneration boundaries.",
  ["inputs", "configurations"],
  "edge-value states (each word in {0,1,2^w-1,2^(w-1),alternating,...}, counters at every carry) and every block position, for every generator and variant",
  "tests replay recorded vectors from a few seeds; rare carries, rotations by zero, and table indices are not reached by them",
  ALLBG + ["randomgen/src"],
  [("step functions", "randomgen/src/**/*.h, *.c")],
  [("generator state", "as exposed by the state property", "randomgen/*.pyx: state")],
  ["state", "random_raw"])

p("C07", "Accelerated and portable implementations are bit-identical",
  "AES-NI, SIMD and native 128-bit code paths give exactly the outputs, states and state transitions of the portable ones, in any mixture: switching the acceleration on or off at any point of a history changes nothing that can be observed. A state saved by one build continues identically in the other.",
  ["configurations", "histories"],
  "all toggle points in all draw/advance/jump histories up to the bound, and the portable build against the accelerated build, from edge states",
  "a test run exercises whichever path the CPU and the build selected, and toggles at most once at the start",
  ["randomgen/aes.pyx", "randomgen/chacha.pyx", "randomgen/speck128.pyx", "randomgen/src/aesctr", "randomgen/src/chacha", "randomgen/src/speck-128", "randomgen/src/pcg64", "randomgen/src/sfmt", "randomgen/src/dsfmt"],
  [("run-time dispatch", "use_aesni / use_simd / use_sse41 properties"),
   ("emulated 128-bit arithmetic", "randomgen/src/pcg64/pcg64-common.h")],
  (), ["state", "random_raw", "use_aesni", "use_simd"])

p("C08", "Construction and reseeding depend only on their arguments",
  "A generator reseeded with given arguments is indistinguishable from one newly constructed with them and its own options, whatever was drawn, advanced, jumped or restored before, and equal arguments always give equal streams. Different seeds, keys or counters give different streams, and a key/counter given explicitly is exactly the one in use.",
  ["histories", "inputs"],
  "all histories up to the bound before a reseed x all argument kinds (int, array, SeedSequence, key, counter, inc, None where reproducible)",
  "tests seed fresh generators; leftovers of a previous life (buffers, pending halves, variants) only show after particular histories",
  ALLBG + ["randomgen/common.pyx"],
  [("seeding", "randomgen/*.pyx: seed, _seed_from_seq"),
   ("reset of buffers", "randomgen/*.pyx: _reset_state_variables")],
  (), ["seed", "state", "random_raw"])

p("C09", "Equivalent encodings of integer arguments agree and invalid ones are refused",
  "Seeds, keys, counters, increments, advance amounts and jump counts given as Python ints, numpy integers, lists or arrays that denote the same number produce the same generator on every accepted width, and the value shows up unchanged in the state; the lists and arrays of the caller are not written to. Seeds, keys, counters and increments that are negative, too large, of the wrong shape or not integers, and advance amounts that are not integers, are refused with an exception rather than truncated.",
  ["inputs", "configurations"],
  "all boundary values of every width (0, 1, 2^k-1, 2^k, negative) x all encodings x all parameters of all generators",
  "tests try a few in-range keys and one or two invalid ones per class",
  ["randomgen/common.pyx"] + ALLBG,
  [("conversion of integers and arrays", "randomgen/common.pyx: object_to_int, int_to_array, byteswap_little_endian, view_little_endian, wrap_int"),
   ("validation in constructors", "randomgen/*.pyx: __init__, seed")],
  (), ["constructors", "seed", "state"])

p("C10", "SeedSequence matches the reference algorithm; spawned children are distinct",
  "randomgen's own SeedSequence (randomgen._seed_sequence) gives, for every entropy, spawn key, pool size and output request, exactly the words of numpy's reference algorithm, and shorter requests are prefixes of longer ones. Every tree of spawns yields children with distinct keys and streams, numbered independently of the shape of the calls that spawned them, and generate_state never changes the sequence.",
  ["inputs", "histories"],
  "all boundary entropies/spawn keys/pool sizes/lengths and all spawn trees up to the bound",
  "tests compare a few fixed entropies",
  ["randomgen/_seed_sequence.pyx", "randomgen/seed_sequence.py"],
  [("entropy mixing", "randomgen/_seed_sequence.pyx: mix_entropy, get_assembled_entropy, generate_state, spawn")],
  (), ["SeedSequence"])

p("C11", "Concurrent use of one generator is equivalent to some sequential order",
  "When threads that share a bit generator draw from it through any mixture of wrappers, each call receives a contiguous run of the stream and the results of every schedule equal those of some serial order of the calls; no value is handed out twice or lost. The shared lock is always released, also when a call fails.",
  ["schedules"],
  "all interleavings at draw granularity of two/three concurrent calls, for every pair of drawing operations",
  "data races need particular interleavings; the test suite's threading test samples a few schedules of one operation",
  ["randomgen/common.pyx", "randomgen/generator.pyx", "randomgen/wrapper.pyx", "randomgen/rdrand.pyx"],
  [("locking", "with self.lock in randomgen/common.pyx, generator.pyx")],
  [("lock", "mutual exclusion of draws", "BitGenerator.lock")],
  ["random_raw", "ExtendedGenerator methods", "numpy.random.Generator"], None)

p("C12", "A failing hardware random instruction is never silently used",
  "For every pattern of RDRAND failures and retry settings, each call either returns only words the instruction delivered, in order, or raises RuntimeError, or is made after the failure was already reported and success is False. A call fails only if the instruction failed more than the allowed number of consecutive times, no memory outside the buffer is read, and the lock is released.",
  ["fault_sequences"],
  "all success/failure patterns of the instruction around buffer fills and single draws x retries x sequences of calls",
  "hardware failures cannot be provoked by a test; the tests set an invalid retry count instead",
  ["randomgen/rdrand.pyx", "randomgen/src/rdrand/rdrand.h"],
  [("retry and status handling", "randomgen/src/rdrand/rdrand.h: rdrand_fill_buffer, rdrand_next64"),
   ("raising from the lock", "randomgen/rdrand.pyx: RaisingLock, rdrand_uint64, random_raw")],
  [("status", "0 once any read failed", "rdrand_state.status"), ("buffer_loc", "next buffered word", "rdrand_state.buffer_loc")],
  ["random_raw", "ExtendedGenerator", "numpy Generator", "success"], None)

p("C13", "A refused operation leaves the generator exactly as it was",
  "When a call is refused with an exception because its arguments are invalid (seed, key, counter, advance amount, state, size, output array, parameters), the generator's state and all later output are as if the call had not been made. In particular a state that is refused has not been applied in part.",
  ["inputs", "histories"],
  "all kinds of invalid argument for every method x all prior histories up to the bound",
  "tests check that the exception is raised, never what is left behind",
  ALLBG + ["randomgen/common.pyx", "randomgen/generator.pyx"],
  [("validation before mutation", "randomgen/*.pyx: seed, advance, state; randomgen/generator.pyx")],
  (), ["state", "random_raw"])

p("C14", "Uniform floats are the exact documented function of the raw bits, in [0, 1)",
  "Each double, float32 and long double returned by random, for every raw word including all boundary words, is exactly the documented multiple of a power of two computed from it, at least 0 and less than 1. This holds for scalars, arrays and every valid out argument, which is filled completely and in order, while invalid out arguments are refused and left untouched.",
  ["inputs", "configurations"],
  "all boundary raw words x dtypes x output layouts",
  "boundary words (all ones, 2^11-1, ...) have probability 2^-53 or less in a test",
  ["randomgen/generator.pyx", "randomgen/common.pyx", "randomgen/src/distributions/rg-distributions.c"],
  [("conversion", "randomgen/common.pxd: uint64_to_double; distributions.c: random_float, random_long_double"),
   ("output checks", "randomgen/common.pyx: check_output, double_fill, float_fill")],
  (), ["ExtendedGenerator.random"])

p("C15", "UserBitGenerator derives every draw from the user's functions as documented",
  "A generator built from a Python or compiled function of 32 or 64 bits behaves, for every subset of functions supplied and every word value, as the documented composition of them: a missing 64-bit, 32-bit or double function is derived from the raw function, a supplied one is called instead. The state given is passed unchanged, and state access goes only through the user's getter and setter.",
  ["inputs", "configurations"],
  "all subsets of supplied functions x word widths x boundary words x sequences of draws",
  "tests use one fixed generator function per width",
  ["randomgen/wrapper.pyx"],
  [("derived functions", "randomgen/wrapper.pyx: raw_32_to_64, raw_64_to_32, raw_64_to_double, raw_32_to_double, _setup_*"),
   ("function pointers", "randomgen/wrapper.pyx: setup_bitgen, from_ctypes")],
  (), ["UserBitGenerator", "random_raw", "ExtendedGenerator"])

p("C16", "Array parameters sample like their broadcast elements, for every shape",
  "For complex_normal, multivariate_normal, multivariate_complex_normal, standard_wishart and wishart, parameters of any mutually broadcastable shapes and any compatible size give an output of exactly the documented shape in which every element is the sample of the corresponding broadcast parameters, drawn in C order from the stream (wishart draws all the repeats that extra leading sizes ask for together, one parameter element after the other). Incompatible shapes or sizes raise an error and draw nothing.",
  ["inputs", "configurations"],
  "all parameter shapes over small dimensions (scalars, length-1 and longer axes, up to three axes, lists, strided and integer arrays) x sizes",
  "tests try a few shape combinations, mostly checking the output shape only",
  ["randomgen/generator.pyx", "randomgen/src/distributions/rg-distributions.c"],
  [("broadcasting", "randomgen/generator.pyx: broadcast_shape, complex_normal, multivariate_normal, wishart, multivariate_complex_normal")],
  (), ["ExtendedGenerator"])

p("C17", "Generated Squares keys and Weyl increments are always valid and distinct",
  "Every key made by generate_keys or by seeding Squares is odd, has non-zero, neighbour-distinct hexadecimal digits and distinct low eight digits as its construction documents, and unique requests return distinct keys; every Weyl increment is odd, distinct, and has between min_bits and max_bits bits set. Both are deterministic functions of the seed or generator, terminate, and never read beyond the words they asked for.",
  ["inputs"],
  "all seed words/bit wells driven through the samplers exhaustively at small depth, all (n, min_bits, max_bits) within bounds",
  "the rare branches (rejections, refills, duplicate candidates, drawing the upper end point) have tiny probability per test",
  ["randomgen/squares.pyx", "randomgen/sfc.pyx"],
  [("key construction", "randomgen/squares.pyx: generate_key, _SequenceSampler"),
   ("weyl increments", "randomgen/sfc.pyx: weyl_increments, generate_bits")],
  (), ["generate_keys", "Squares", "SFC64.weyl_increments"])

p("C18", "Entropy requests are filled completely or fail visibly under all OS faults",
  "For every pattern of failures, interruptions and short reads of the operating system's entropy source, random_entropy either returns a fully filled result of the requested shape or takes the documented fallback with a warning (source 'auto') or raises; it never returns unfilled or stale words, and it closes what it opened. seed_by_array is a pure function of its input values, whatever their type.",
  ["fault_sequences", "inputs"],
  "all short-read/failure patterns of open/read up to the bound x sizes x sources",
  "the OS calls never fail in tests, which replace the whole result by a flag",
  ["randomgen/entropy.pyx", "randomgen/src/entropy/entropy.c"],
  [("reading the device", "randomgen/src/entropy/entropy.c: entropy_getbytes"),
   ("fallback", "randomgen/entropy.pyx: random_entropy")],
  (), ["random_entropy", "seed_by_array"], None)

p("C19", "Numpy-compatible modes reproduce numpy for every seed and history",
  "MT19937, PCG64, Philox and SFC64 in numpy-seeding mode (numpy_seed=True) produce, for every seed, exactly the stream of numpy's generator of the same name through every sequence of draws of every width, samplers, reseedings and advances; MT19937 and Philox also through jumps, and Philox for every key and counter. PCG64DXSM, which is seeded differently on purpose, runs numpy's algorithm from the same state. States translate both ways at any point of a history. Legacy MT19937 state tuples (uint32 array or list keys) are accepted as numpy accepts them.",
  ["histories", "inputs"],
  "all op histories up to the bound x seed kinds, both libraries side by side",
  "tests compare a few hundred raw values from one or two seeds",
  ["randomgen/mt19937.pyx", "randomgen/pcg64.pyx", "randomgen/philox.pyx", "randomgen/sfc.pyx"],
  [("numpy seeding", "randomgen/*.pyx: _seed_from_seq_numpy_compat")],
  (), ["random_raw", "state", "jumped", "advance"])

p("C20", "Multivariate samplers apply exactly the covariance asked for",
  "For every valid covariance (full or reduced rank, any dimension in bounds, each factorization method), multivariate_normal, multivariate_complex_normal, complex_normal and wishart apply a linear map A to their standard draws with A A' equal to the requested covariance (relation included), shifted by the mean. Covariances that are not positive semi-definite are reported as check_valid asks, or refused when the method is cholesky.",
  ["inputs", "configurations"],
  "all small-integer covariance matrices over the grid x methods x ranks, with the standard draws replaced by known ones",
  "tests look at sample moments of one or two matrices, mostly the identity",
  ["randomgen/generator.pyx", "randomgen/src/distributions/rg-distributions.c"],
  [("factorization", "randomgen/generator.pyx: _factorize"),
   ("application", "randomgen/generator.pyx: multivariate_normal, wishart, multivariate_complex_normal, compute_complex")],
  (), ["ExtendedGenerator"])

p("C21", "No call reads or writes memory outside the library's own objects",
  "Whatever public call is made, with whatever arguments and after whatever history of draws, jumps, advances, seedings and restored states, every load and store of the compiled code stays inside its own live objects and arrays: a state whose positions, sizes or parameters do not fit its buffers is refused or harmless, refused calls release nothing twice, and arrays given by the caller are only accessed within their bounds. (Custom seed sequences and user functions are held to their contracts.)",
  ["inputs", "histories", "configurations"],
  "all states with each integer at each extreme value, all faults of every entry, all short histories around block boundaries, all array shapes and layouts in bounds, executed with memory sanitizers",
  "the test suite runs without sanitizers and never sets a state with a position outside its buffer",
  ALLBG + ["randomgen/common.pyx", "randomgen/generator.pyx", "randomgen/seed_sequence.pyx", "randomgen/wrapper.pyx", "randomgen/src"],
  [("positions", "state setters of philox.pyx, threefry.pyx, speck128.pyx, mt64.pyx, mt19937.pyx, hc128.pyx, xorshift1024.pyx, dsfmt.pyx, sfmt.pyx, aes.pyx; check_state_position in common.pyx"),
   ("buffers", "randomgen/src/*/*.h: next functions and refills"),
   ("arrays", "randomgen/common.pyx: check_state_array, int_to_array; randomgen/generator.pyx; randomgen/squares.pyx")],
  (), ["every bit generator", "ExtendedGenerator"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
