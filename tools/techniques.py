TECH = {
"C01": ("exception-escape analysis (call-graph may-throw fixpoint over the landing-pad CFG) and path queries on the failure returns of every extern \"C\" entry point", "all paths of all C entry points; foreign library functions are taken to throw what their headers allow"),
"C02": ("effect analysis: mod-sets of every function reachable from the library entry points, plus dominance of writes over reads for per-thread scratch", "all reachable functions; external libraries (GMP, OpenSSL, libstdc++) are taken to be re-entrant as documented"),
"C03": ("typestate analysis of the GIL (held / released) over every path of every Python binding, with a reachability query for the heavy calls", "all paths of all bindings, including the exceptional ones"),
"V01": ("gated value-flow analysis: every accepting path of every verification entry point is dominated by the branch facts of each required equation, over canonical value terms", "all accepting paths; the arithmetic inside GMP and the class-group kernels is taken as given"),
"V02": ("value-flow analysis over canonical value terms and a linear-arithmetic domain: the sum of iteration counts that reaches acceptance", "all accepting paths"),
"V03": ("linear-arithmetic bounds analysis of every read of a caller buffer against its size argument", "all read sites reachable from the verification entry points"),
"V04": ("dominance of the discriminant and size checks over every class-group operation, on all paths from all entry points", "all entry points; GMP semantics taken as documented"),
"V05": ("path-sensitive value numbering of every form reader: each successful return is implied by the validity relations of the form it stores, over every path", "all paths of the readers; GMP semantics taken as documented"),
"V06": ("extraction of the byte/bit offsets of encoder and decoder as index terms, folded over the whole finite domain of discriminant sizes and compared field by field; path-sensitive value numbering for ranges and failure paths", "all discriminant sizes (quick: a stride of them that includes the extremes); GMP semantics taken as documented"),
"A01": ("interprocedural guard-domination analysis of every call into generated vector code (which flag test dominates it, through helpers and callers), plus enumeration of the detection functions' paths over all CPUID/XCR0/environment combinations", "every call site of generated AVX2/AVX-512 code in all translation units; every combination of the tested feature and register-state bits"),
"A02": ("order analysis: installation of the allocator must dominate the first big-integer operation on every path of each entry point; no global big-integer constructors; allocator functions checked for one block layout by path-sensitive value numbering", "all entry points that rely on padded limbs; all paths of the allocator functions"),
"A03": ("read-after-overwrite analysis: path-sensitive value numbering of each in-place operation compared between aliased and distinct arguments", "all paths of the listed operations; foreign library functions by their documented alias contract"),
"C04": ("agreement analysis of four descriptions of one interface (registration calls, package exports and type stub syntax trees, C header declarations, Rust declarations type-checked to MIR) plus an argument-dependence dataflow from each binding parameter to the native call", "all exported functions and all their parameters; the bindings the Rust build generates are taken to be those the C header implies"),
"P01": ("lockset analysis over the whole-program call graph: at every access of a shared object the set of locks held on every path from every thread entry (condition-variable predicates, lambdas and helpers included), aligned with the loop that holds the element", "every access in the program of the fields and globals in the rule's table; anything not named there is not judged by this check (P02 judges scalars)"),
"P02": ("type and memory-order analysis of every scalar reachable from two thread entries, plus order analysis (must-precede / must-not-follow path queries) of each announcing store against what it announces", "all scalars of the session classes, all announcing stores"),
"P03": ("condition-variable discipline: the predicate's inputs are extracted from the wait, every write of one is located and the paths from it to a notification and through the waiter's mutex enumerated on the control-flow graph", "all waits and all writes of predicate inputs; spurious wake-ups and all schedules by construction"),
"P04": ("liveness by path exploration in the stop state: the values every stop function leaves its flags in are derived from its code, each loop that waits or computes on a prover thread is explored from its head with those values, and going round again is the violation; wait predicates are evaluated in the same state", "all loops and waits of the squaring, proving, storage and event-loop threads of the timelord client, the hardware prover and the parallel prover; loops of a constant or checkpoint-bounded number of rounds excepted"),
"P09": ("happens-before analysis over the fences of the two-thread pipeline: the synchronisation primitives are explored per role (success only after the partner's counter was seen; published with release or stronger), the workers against the phase protocol, and every pair of accesses of the two roles to the same leaf of the shared state, one of them a write, must be ordered by a fence passed on every path before one of them", "all ten phase functions, the validated assignment, the entry hand-over, the gcd wrapper, both workers and the batch of the multithreaded squaring; the assembler gcd is assumed to publish in program order"),
"P08": ("path-sensitive value numbering over GMP numbers of the validated assignment and of the checks inside the batch (release-build semantics: asserts compiled out); an account of squarings performed, in linear forms over the loop's unknowns, along every path of the squaring loop with the batch split into the worlds 'corrupt' and 'succeeded with R iterations'; induction-variable matching of the per-iteration reports", "square_state_type::{init, assign, phase_0_slave, phase_4_master}, both batch functions, repeated_square and the slow and fast loops; the numerical correctness of the phases between the checks is N02's subject"),
"A04": ("path exploration in the world where one operation fails: every call of a status-reporting operation is given each failing result, the paths that follow are explored with that result propagated through branches, comparisons and earlier successes, and any use of what the operation was to deliver, or a successful report of a function of the same kind, is the violation; def-use flow of each report to a decision", "every call site of the listed operations in the clients, the prover library, the form coder and the hardware proof code; the device bus transfers and the parsing inside number constructors are not judged"),
"C05": ("interprocedural taint analysis of caller-supplied integers and of the lengths of caller-supplied buffers from every C and Python entry point, over values, locals, by-reference arguments and containers; at every narrowing conversion, mask or narrower loop counter they meet a linear-inequality proof from the dominating range checks (in the function or in all its callers) that the conversion is exact; checked_cast proved exact for every pair of integer types", "all narrowings reachable from the entry points; all 64 pairs of integer types; floating-point estimates and hash arithmetic excluded"),
"P05": ("path exploration with boolean constants propagated: every function that returns a proof is explored in the worlds 'the computation did not finish' and 'the wait was left because of the stop signal' (no filled proof may be returned), the assembly loops are classified by their emptiness and coverage guards, and completion marks are traced to the uninterrupted end of the generator", "all functions returning proofs in the timelord client, the library and the hardware prover; the segment collection is judged for chosen counts on both sides of the requested one"),
"S03": ("linear-inequality abstract interpretation of the session program (everything that reads from the socket inlined into one function): every read length against its destination, every digit and every arithmetic step on parsed numbers against their ranges, the discriminant's sign and length at each of its uses, the iteration limit at the start of every two-Wesolowski prover; exploration of each read in the world where it fails; growth order of the session's tables against their indices", "InitSession, FinishSession, ReadIteration, all three session modes and main of vdf_client; the numbers inside the library parsers (atoi, GMP) are taken as specified"),
"S04": ("thread-lifetime typestate analysis: every function that owns thread objects is explored with its lambdas and helpers inlined, over states (live threads, known flags), on normal and exceptional edges; join-all loops are recognised by their range; class rule for destructors", "all functions and classes holding std::thread in the timelord client and the hardware prover; a failing allocation or thread start is not considered"),
"S01": ("lockset and path analysis of every socket write reachable from the proving threads, plus def-use matching of each length prefix with the data sent after it; linear loop invariants for the hardware client's write loop", "all write sites of both timelord clients; boost::asio::write is taken to write everything"),
"S02": ("path exploration of every proving thread with the stop signal fixed to 'set' after the last computation (no write may be reachable), and thread-lifetime typestate of the sessions: flags set before any join, nothing sent while a proving thread lives", "all proving threads and sessions of the timelord client, all interleavings by construction of the states"),
"M01": ("typestate analysis of every explicitly managed big integer (uninitialised / initialised / released / borrowed) over all paths, with interprocedural summaries per parameter and class-level obligations for constructors, destructors and members", "all functions of all units that use raw GMP numbers, including exception edges of exceptions the repository throws; numbers whose address is stored where the analysis does not follow are counted as unjudged"),
}
NA = {
"N01": "numeric equality of two different algorithms for every form; no sound static argument over unbounded big integers, generated assembly and floating-point quotient guesses is in reach (the integrity gate that contains a wrong result is decided by P08)",
"N02": "end-to-end mathematical completeness of proofs over class groups of unknown order; depends on number theory, not on a property of the program text a dataflow can decide (format and schedule agreement are decided by P07 and P10)",
"N03": "primality of derived numbers is a mathematical fact about hash outputs; determinism from hidden state is decided by C02, primality cannot be decided statically",
"N04": "termination and exactness of the lehmer-style extended GCD depends on floating-point approximation bounds over unbounded operands",
"N05": "functional correctness of run-time generated machine code: the text that runs is not in the source; needs symbolic execution or a solver, which is another family",
"N06": "values read back from a hardware device; the device is outside the source",
"N07": "throughput and latency are run-time quantities",
}
