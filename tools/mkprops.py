#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=s) for s in state], observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- verifier / trust boundary
prop("V01", "A proof is accepted only on the Wesolowski equation of every segment",
 "A verification call reports a proof valid only if, for every nested segment and for the final one, proof^B * x^(2^T mod B) was compared with that segment's output (directly, or through the challenge prime recomputed from that segment's input and output), with B the challenge derived from the segment's input and output, T the segment's iteration count, and each segment's output the next segment's input. No segment, no supplied element and no failed comparison is skipped on the way to a positive answer.",
 ["inputs"], "all discriminants, forms, proof blobs, iteration counts and recursion depths",
 "A test samples a few good and corrupted proofs; a verifier that ignores one element, one segment or one comparison still passes unless the test corrupts exactly that element.",
 ["src/verifier.h", "src/proof_common.h"],
 [("final check", "VerifyWesolowskiProof in src/verifier.h"), ("segment check", "VerifyWesoSegment in src/verifier.h"), ("segment loop", "CheckProofOfTimeNWesolowski and CheckProofOfTimeNWesolowskiCommon in src/verifier.h")],
 ["return value of the verification entry points (C, Python, Rust)"])
prop("V02", "Iteration counts of all segments add up exactly to the claimed total",
 "When a nested proof is processed, each segment's encoded iteration count is subtracted from the claimed total exactly once, a segment claiming more than what is left is rejected before the subtraction (never wrapping around), and the final segment is checked for exactly what remains.",
 ["inputs"], "all claimed totals and all encoded per-segment counts, including zero, equal and larger than the remainder",
 "Only particular 64-bit totals and counts expose a wrap-around or a lost subtraction; honest proofs used in tests never do.",
 ["src/verifier.h"],
 [("guarded subtraction", "segment loops in src/verifier.h")],
 ["return value of the verification entry points"])
prop("V03", "Verification never reads outside the caller's buffers",
 "For every proof length, recursion depth and input-element length, the verification entry points (native, C and Python) read only inside the buffers the caller passed: a length that does not match the declared depth or element size is rejected before any byte behind it is read, and the size arithmetic cannot overflow.",
 ["inputs"], "all blob lengths, depths (64-bit) and x lengths",
 "An over-read of a heap buffer usually goes unnoticed in a unit test, and the overflowing depths are a vanishing fraction of the 64-bit range.",
 ["src/verifier.h", "src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp"],
 [("length equation", "CheckProofOfTimeNWesolowski*, GetBFromProof in src/verifier.h"), ("binding length checks", "lambdas in src/python_bindings/fastvdf.cpp")],
 ["memory accesses of the verification entry points"])
prop("V04", "Invalid discriminants and sizes are rejected before any class-group work",
 "Every public verification entry point rejects (negative answer or exception) a discriminant that is zero, positive or longer than the supported 1024 bits, and discriminant creation rejects a bit length that is not positive, above the maximum or not a multiple of 8 and an empty seed, before any form arithmetic, root or hash-to-prime computation is performed with them.",
 ["inputs"], "all discriminants (any sign, zero, any length) and all requested sizes and seeds",
 "The entry points are many and the out-of-range space is unbounded; an entry that lost its guard behaves well on every valid input tests use.",
 ["src/verifier.h", "src/create_discriminant.h", "src/bqfc.c", "src/python_bindings/fastvdf.cpp"],
 [("discriminant range check", "IsDiscriminantInRange, IsDiscSizeBitsInRange in src/verifier.h"), ("creation checks", "CreateDiscriminant in src/create_discriminant.h")],
 ["return values and exceptions of the entry points"])
prop("V05", "Only validated forms enter verification and proving",
 "A serialized form is turned into a usable class-group element only after all of these hold: its size is exactly 100 bytes, its header fits the discriminant size, the decompression conditions (nonzero modulus, invertible t, perfect square) hold, re-encoding the result reproduces the input bytes (the one-byte encodings of the identity and the generator, whose remaining bytes are ignored, excepted), the coefficients satisfy the discriminant equation exactly, and the form is reduced. A failed condition always surfaces as an error return or exception, and no entry point obtains forms from bytes by any other route.",
 ["inputs"], "all 100-byte strings (and other sizes) and all discriminants",
 "The set of malformed encodings is 2^800; each single check can be removed without any sampled encoding noticing.",
 ["src/bqfc.c", "src/proof_common.h", "src/ClassGroup.h", "src/include.h"],
 [("decoder gate chain", "bqfc_deserialize, bqfc_deserialize_only, bqfc_decompr, bqfc_verify_canon in src/bqfc.c"), ("element construction", "DeserializeForm in src/proof_common.h, form::from_abd")],
 ["result of DeserializeForm / bqfc_deserialize"])
prop("V06", "Form encoder and decoder agree on one fixed 100-byte layout",
 "The compressed-form encoder and decoder use the same field order, offsets, widths, byte order and flag bits for every discriminant size and every size of the common factor, the encoder initialises all 100 bytes and never writes outside them, and the decoder never reads outside them. In strict mode a decoded form with |b| > a is always rejected.",
 ["inputs"], "all discriminant sizes up to 1024 bits, all g sizes, all forms",
 "Nearly every form has g = 1, so a disagreement on the rarely used g/b0 fields or on unusual discriminant sizes does not show in sampled round trips.",
 ["src/bqfc.c", "src/bqfc.h"],
 [("encoder", "bqfc_serialize, bqfc_serialize_only, bqfc_export in src/bqfc.c"), ("decoder", "bqfc_deserialize_only in src/bqfc.c"), ("strict range gate", "bqfc_decompr in src/bqfc.c")],
 ["bytes produced and accepted by the serializer"])

# ---------------------------------------------------------------- bindings
prop("C01", "No exception crosses the C interface and failures are reported as failure",
 "Every function exported with C linkage returns normally for every input: each exception raised underneath (bad form, bad size, out of memory) is caught inside and turned into the documented failure value (false, or a null/zero-length byte array), and success is reported only on paths where nothing was thrown. Memory handed out by the C interface is released by the matching deallocation function.",
 ["inputs", "fault_sequences"], "all inputs and all throwing points underneath the C entry points, including allocation failure",
 "Exceptions from deep callees and allocation failures cannot be enumerated by example inputs.",
 ["src/c_bindings/c_wrapper.cpp", "src/c_bindings/c_wrapper.h"],
 [("catch-all wrappers", "create_discriminant_wrapper, prove_wrapper, verify_n_wesolowski_wrapper, delete_byte_array in src/c_bindings/c_wrapper.cpp")],
 ["return value of the C functions"])
prop("C02", "Verification, slow proving and discriminant creation share no mutable state",
 "Concurrent calls of the library entry points (C and Python: create_discriminant, verify*, prove, get_b, bqfc_deserialize) from different threads cannot influence each other: on every path below them no process-wide variable is written, and scratch state is per call or per thread. Their results depend on no clock, random source or environment setting.",
 ["schedules", "inputs"], "all interleavings of any number of concurrent calls, and all call histories within a thread",
 "A race on shared scratch state needs an unlucky interleaving inside a microsecond-long window.",
 ["src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp", "src/verifier.h", "src/prover_slow.h", "src/nucomp.h", "src/xgcd_partial.c", "src/Reducer.h"],
 [("thread-local scratch", "qfb_nudupl / qfb_nucomp scratch in src/nucomp.h, mpz_xgcd_partial scratch in src/xgcd_partial.c"), ("per-call reducer", "PulmarkReducer in src/proof_common.h")],
 ["results of concurrent calls"], state=["all globals and function-local statics reachable from the entry points"])
prop("C03", "Heavy Python calls release the GIL and touch no Python object meanwhile",
 "Each long-running Python entry point (discriminant creation, verification, proving) performs its class-group computation with the GIL released, and while it is released no Python object is created, read, converted or destroyed; the GIL is re-acquired on every exit, including exceptional ones.",
 ["schedules", "inputs"], "all thread interleavings of the interpreter and all exits (normal and exceptional) of each binding",
 "A missing release only costs latency and a stray Python access only crashes under a particular interleaving.",
 ["src/python_bindings/fastvdf.cpp"],
 [("scoped release", "py::gil_scoped_release scopes in src/python_bindings/fastvdf.cpp")],
 ["GIL state at every call made by a binding"])
prop("C04", "The published API surfaces agree with the native entry points",
 "Every function the native Python module registers is exported by the package and described in its type stub with the same name, parameter order and arity, and nothing is exported that is not registered; the C header, the C implementation and the Rust declarations agree on name, parameter order and types; and each binding hands every caller argument to the underlying operation in the declared position. A safe Rust wrapper hands the C functions no slice shorter than they read.",
 ["configurations", "inputs"], "all exported functions and all their parameters",
 "Stubs, headers and foreign declarations are not executed by the tests; a swapped pair of same-typed arguments passes type checking.",
 ["src/python_bindings/fastvdf.cpp", "chiavdf/__init__.py", "chiavdf/__init__.pyi", "src/c_bindings/c_wrapper.h", "rust_bindings/src/lib.rs"],
 [("registration", "PYBIND11_MODULE in src/python_bindings/fastvdf.cpp"), ("package exports", "chiavdf/__init__.py")],
 ["importable names and call signatures"])
prop("C05", "Caller-supplied sizes are never silently truncated",
 "A size, length, depth or iteration count supplied through the C or Python interface reaches the computation with its full value or is rejected; it is never narrowed to a smaller integer type without a preceding range check on the same value.",
 ["inputs"], "all 64-bit sizes and counts",
 "Truncation only shows for values beyond 2^31 or 2^32, which tests do not use.",
 ["src/c_bindings/c_wrapper.cpp", "src/python_bindings/fastvdf.cpp", "src/verifier.h", "src/checked_cast.h"],
 [("checked narrowing", "checked_cast in src/checked_cast.h")],
 ["values passed down from the entry points"])

# ---------------------------------------------------------------- memory
prop("M01", "Big-integer temporaries are initialised before use and released exactly once",
 "Every big integer the code creates with explicit init/clear calls (locals, struct members, per-thread scratch) is initialised before its first use and cleared exactly once on every path on which its owner ends, so that no error path leaks, double-frees or uses an uninitialised number.",
 ["inputs", "fault_sequences"], "all paths, in particular early error returns",
 "Leaks and uninitialised numbers on rare error paths do not change the results tests look at.",
 ["src/bqfc.c", "src/nucomp.h", "src/integer_common.h", "src/vdf_original.h", "src/ClassGroup.h", "src/xgcd_partial.c", "src/python_bindings/fastvdf.cpp"],
 [("manual mpz lifetimes", "bqfc_compr, bqfc_decompr, bqfc_serialize, bqfc_deserialize in src/bqfc.c"), ("member lifetimes", "ClassGroupContext, vdf_original, integer, qfb_nudupl/qfb_nucomp scratch")],
 ["GMP init/clear call sequence on every path"])

# ---------------------------------------------------------------- prover machinery
prop("P01", "Shared prover state is only touched under its lock",
 "State shared between the squaring thread, the proving threads, the event loop and the session threads (finished segments, pending requests, stored checkpoints of the two-Wesolowski mode, pending intermediates, the event flag, pause flags) is read and written only while holding the one mutex that protects it, on every path.",
 ["schedules"], "all interleavings of all threads of a session",
 "A data race needs a particular interleaving and often corrupts a proof only hours into a run.",
 ["src/vdf.h", "src/callback.h", "src/provers.h", "src/fast_storage.h"],
 [("proof_mutex / last_segment_mutex", "ProverManager in src/vdf.h"), ("forms_mutex", "TwoWesolowskiCallback in src/callback.h"), ("intermediates_mutex", "FastStorage in src/fast_storage.h"), ("m", "InterruptableProver in src/provers.h"), ("new_event_mutex", "src/vdf.h")],
 ["lockset at every access"], state=["done_segments", "pending_iters", "pending_iters_last_sg", "max_proving_iteration", "forms", "pending_intermediates", "new_event", "is_paused"])
prop("P02", "Flags and counters polled without a lock are atomic and published last",
 "Every variable that one thread writes and another reads without a common lock (stop signals, progress counters, completion flags, mode switches) is an atomic object, and a thread that announces completion or progress through such a variable has already stored the result it announces.",
 ["schedules"], "all interleavings and memory reorderings",
 "Reordering is invisible on the build machine and at the few schedules a test run sees.",
 ["src/vdf.h", "src/callback.h", "src/provers.h", "src/fast_storage.h", "src/prover_interface.hpp", "src/prover_impl.hpp", "src/threading.h"],
 [("progress counter", "WesolowskiCallback::iterations"), ("completion flag", "Prover::is_finished set in OnFinish after the proof is stored in GenerateProof"), ("mode switch", "TwoWesolowskiCallback::IncreaseConstants")],
 ["type of shared variables and order of stores"])
prop("P03", "No wake-up is lost",
 "Every condition-variable wait is guarded by a re-checked predicate, every change that can make such a predicate true is followed on all paths by a notification of that condition variable, and the predicate of every wait in a session also becomes true on stop.",
 ["schedules"], "all interleavings of waiters and notifiers",
 "A lost wake-up hangs only under one interleaving between the predicate check and the sleep.",
 ["src/vdf.h", "src/provers.h", "src/fast_storage.h"],
 [("event loop wake-up", "new_event_cv"), ("proof/last-segment wake-ups", "proof_cv, last_segment_cv in ProverManager"), ("pause/resume", "InterruptableProver::cv"), ("intermediates", "FastStorage::intermediates_cv")],
 ["wait and notify call sites"])
prop("P04", "Stopping always ends every prover thread",
 "After the stop signal, every polling or waiting loop of the squaring, proving and event-loop threads terminates: each such loop re-tests the stop signal on every round trip, no loop waits only for a completion that a stopped prover never signals, and no wait sleeps unboundedly. ",
 ["schedules", "histories"], "all points at which the stop signal can arrive",
 "The stop signal would have to arrive in every possible window; a test stops at one or two points.",
 ["src/vdf.h", "src/provers.h", "src/prover_impl.hpp", "src/fast_storage.h"],
 [("stop polling", "repeated_square, ProveOneWesolowski, ProveTwoWeso, ProverManager in src/vdf.h"), ("interruptible proof generation", "Prover::GenerateProof with PerformExtraStep")],
 ["loop exits in thread functions"])
prop("P05", "A proof is returned only when it is complete",
 "A proof result is built only from provers that finished normally: after waiting or proving, the stop signal is re-checked before the result is read, an interrupted prover never marks itself finished, a result assembled from segments uses only non-empty finished segments that cover the requested iterations, and an aborted request yields no proof.",
 ["schedules", "histories"], "all points at which stop or pause can interrupt proving, and all completion orders of segments",
 "Needs an interruption in the window between proof generation and emission, or segments finishing in an unusual order.",
 ["src/vdf.h", "src/provers.h", "src/prover_impl.hpp", "src/vdf_client.cpp"],
 [("completion flag", "Prover::GenerateProof / OnFinish"), ("assembly", "ProverManager::Prove"), ("one- and two-Wesolowski result", "ProveOneWesolowski, ProveTwoWeso")],
 ["returned Proof objects"])
prop("P06", "Checkpoint and intermediate stores are never indexed out of bounds",
 "Every store into or load from the arrays that hold intermediate forms, segment checkpoints and stored-flags happens only after its index was checked against the allocated capacity (or is bounded by construction below it) for every iteration count the squaring loop can reach.",
 ["inputs", "histories"], "all iteration counts and session lengths",
 "The overflow needs billions of iterations (hours of running) or extreme requested counts.",
 ["src/callback.h", "src/fast_storage.h", "src/vdf.h"],
 [("bounds checks", "OnIteration / GetFormCopy in src/callback.h"), ("stored flags", "FastStorage in src/fast_storage.h")],
 ["array indices at the stores"])
prop("P07", "Checkpoint writers and proof generators use the same schedule",
 "For every iteration count and segment size the code that stores intermediate forms and the code that later reads them for a proof use the same spacing (k*l), the same thresholds and the same position formula, so that the form read for power i*k*l is the one stored for it.",
 ["inputs", "configurations"], "all requested iteration counts, segment sizes and prover modes",
 "A mismatch affects only counts beyond a threshold (2^16, 2^18, 10^7, 9.1*10^7) that take minutes to hours to reach.",
 ["src/callback.h", "src/provers.h", "src/fast_storage.h", "src/util.h", "src/prover_slow.h", "src/vdf.h"],
 [("writers", "OnIteration / GetPosition in src/callback.h, CalculateIntermediatesInner in src/fast_storage.h"), ("readers", "GetForm and constructor parameters in src/provers.h")],
 ["spacing constants and index expressions"])
prop("P08", "Detected corruption never reaches the result",
 "The fast squaring batch hands a new form to its caller only after the integrity checks passed; when a check fails the caller's form is left as it was at batch start and the whole batch is recomputed from it by the independent slow algorithm with the same iteration numbering, and the progress counter advances by exactly the iterations performed.",
 ["fault_sequences", "inputs"], "every point at which a check can fail and every kind of failed check",
 "Corruption does not occur in a healthy test run; the recovery path is exercised by none of the stable tests.",
 ["src/vdf.h", "src/vdf_fast.h"],
 [("batch integrity", "repeated_square_fast_multithread / repeated_square_fast_single_thread and square_state_type::assign in src/vdf_fast.h"), ("fallback", "repeated_square in src/vdf.h")],
 ["form and iteration count after each batch"])
prop("P09", "The two squaring threads synchronise at fences only in agreement",
 "In the two-thread squaring pipeline each thread signals its progress only through the shared atomic counters, every result of a fence, advance or hand-over operation is examined and a failed one ends the batch on that thread, and every spin-wait is bounded or leaves when the partner reports an error, so that neither thread can run on with data the partner has not produced or wait for ever.",
 ["schedules", "fault_sequences"], "all relative speeds of the two threads and all points where one thread aborts",
 "The window in which one thread overtakes the other is nanoseconds wide and the abort paths are not taken in healthy runs.",
 ["src/threading.h", "src/vdf_fast.h"],
 [("thread_counter fences", "thread_state in src/threading.h"), ("phase functions", "square_state_type in src/vdf_fast.h")],
 ["return values of fence/advance and spin loops"])
prop("P10", "Proof producers emit exactly the byte layout the verifier parses",
 "Every producer of nested proofs (n-Wesolowski manager, two-Wesolowski prover, hardware proof chaining) appends for each segment the 8-byte iteration count, the 33-byte challenge prime of that same segment's input and output, and the 100-byte proof form, in the order the verifier walks them, with y and the last proof first, the same byte order for counts, and a witness type equal to the number of nested segments.",
 ["inputs", "configurations"], "all numbers of segments, iteration counts and prover modes",
 "Only proofs with several segments (long runs) exercise the layout; a consistent change in producer and test consumer goes unnoticed.",
 ["src/vdf.h", "src/verifier.h", "src/util.h", "src/hw/hw_proof.cpp"],
 [("producers", "ProverManager::Prove, ProveTwoWeso in src/vdf.h; hw_proof_add_intermediates/vdf_proof in src/hw/hw_proof.cpp"), ("consumer", "segment loops in src/verifier.h")],
 ["bytes of the proof blob"])

# ---------------------------------------------------------------- client
prop("S01", "Messages to the timelord socket are never interleaved",
 "Each message the client sends (a proof with its length prefix, the stop notice) is written completely within one hold of the socket lock, so that proofs finishing at the same time on different threads cannot interleave their bytes, and the length prefix equals the number of bytes that follow.",
 ["schedules"], "all interleavings of concurrently finishing proofs",
 "Interleaving needs two proofs finishing within microseconds.",
 ["src/vdf_client.cpp"],
 [("framing", "WriteProof, FinishSession in src/vdf_client.cpp")],
 ["bytes on the socket"])
prop("S02", "After stop no proof is sent, and the stop notice comes last",
 "Once a session has been told to stop, a proving thread that has not yet started sending drops its result instead of sending it, and the session sends the stop notice only after every thread that could still use the socket has been joined.",
 ["schedules", "histories"], "all arrival times of the stop request relative to proof completion",
 "Requires the stop to arrive between proof completion and emission.",
 ["src/vdf_client.cpp"],
 [("emission guard", "CreateAndWriteProof* in src/vdf_client.cpp"), ("session shutdown", "SessionFastAlgorithm, SessionOneWeso, SessionTwoWeso, FinishSession")],
 ["socket writes after stop"])
prop("S03", "Session input from the peer is fully validated before use",
 "Every length the peer sends is checked against the destination buffer before it is used as a read size, every iteration count is guarded against overflow and range, the discriminant is checked for sign and size before a proof is started, every read error is examined before the bytes are used, and indices derived from requests stay inside the session's tables.",
 ["inputs", "histories"], "all byte sequences a peer can send, including truncation at any point, and all request histories",
 "The peer's byte stream is unbounded; tests send a handful of malformed headers.",
 ["src/vdf_client.cpp", "src/vdf_client_session.h"],
 [("handshake parsing", "InitSession in src/vdf_client_session.h"), ("request parsing", "ReadIteration in src/vdf_client.cpp"), ("request table", "SessionTwoWeso in src/vdf_client.cpp")],
 ["reads from the socket and the buffers they fill"])
prop("S04", "Threads are joined before what they use is destroyed",
 "On every exit of a function that starts threads - normal, early return or exception such as the peer disconnecting - each started thread has been joined before its thread object, and before any callback, storage or local it refers to, is destroyed.",
 ["schedules", "fault_sequences"], "all exits of the functions that own threads, including exceptions at every call",
 "An exception at a particular call (peer disconnect, thread creation failure) is not provoked by the tests and ends in process termination or use after free.",
 ["src/vdf_client.cpp", "src/vdf.h", "src/provers.h", "src/fast_storage.h", "src/prover_impl.hpp"],
 [("session threads", "Session* in src/vdf_client.cpp"), ("prover threads", "TwoWesolowskiProver, InterruptableProver, FastStorage, ProverManager, ParallelProver")],
 ["join calls and destructors on every path"])

# ---------------------------------------------------------------- platform
prop("A01", "Machine-specific code runs only on machines that support it",
 "Code generated for AVX2 or AVX-512 IFMA is entered only under the flag that run-time detection sets for it. Detection reports support only when the operating system has enabled the register state and either the processor's feature bits are all present or the environment forces the feature; an environment setting that disables it always wins; and AVX-512 is reported only when it is enabled or forced.",
 ["configurations"], "all processor and operating-system feature combinations and all environment settings",
 "The test machine has one feature combination.",
 ["src/asm_types.h", "src/parameters.h", "src/vdf_fast.h", "src/threading.h", "src/gcd_unsigned.h", "src/gcd_base_continued_fractions.h"],
 [("detection", "hasAVX2 / init_avx512 flags in src/parameters.h"), ("dispatch", "call sites of the asm entry points")],
 ["calls of the AVX entry points"])
prop("A02", "The padded allocator is installed before the first big integer exists",
 "Every executable and library entry that relies on over-allocated big-integer limbs installs the custom GMP allocator before any big integer is created, no global big integer is constructed earlier, and allocation, reallocation and release functions agree on the block layout.",
 ["configurations", "histories"], "all programs of the repository and all allocation sequences",
 "A number created too early is only over-read when its limbs end at a page boundary.",
 ["src/alloc.hpp", "src/vdf_client.cpp", "src/vdf_bench.cpp", "src/python_bindings/fastvdf.cpp"],
 [("allocator", "init_gmp, mp_alloc_func, mp_free_func, mp_realloc_func in src/alloc.hpp")],
 ["order of init_gmp and GMP calls in main"])
prop("A03", "In-place form squaring and composition read no coefficient after overwriting it",
 "Squaring or composing forms gives the same result whether or not the destination is the same object as an operand: no coefficient of an operand is read after the corresponding coefficient of the destination may have been written.",
 ["inputs"], "all operand/destination aliasings the callers use, on all paths of the arithmetic",
 "Aliased calls on the rare branches (large quotient, equal leading coefficients, small forms) are not hit by sampled inputs.",
 ["src/nucomp.h"],
 [("nudupl/nucomp", "qfb_nudupl, qfb_nucomp, nudupl_form, nucomp_form in src/nucomp.h")],
 ["order of coefficient reads and writes"])
prop("A04", "Failure reports of internal operations are never dropped",
 "No call to an operation that reports failure through its return value (form encoding and decoding, validated state assignment, socket and file reads, thread fences) proceeds as if it had succeeded without its report having been examined; outputs of such an operation are not used on a path where it failed.",
 ["inputs", "fault_sequences"], "every failing call on every path",
 "Failures of internal operations do not occur with the inputs the tests use.",
 ["src/bqfc.c", "src/proof_common.h", "src/vdf_fast.h", "src/threading.h", "src/vdf_client.cpp", "src/vdf_client_session.h", "src/hw/hw_proof.cpp"],
 [("status-returning functions", "bqfc_*, square_state_type, boost::asio reads")],
 ["uses of status values"])

# ---------------------------------------------------------------- numerical: not applicable to this family
prop("N01", "Fast squaring equals the reference squaring",
 "For every form and discriminant the optimised squaring pipelines (assembly, AVX, two-thread, NUDUPL) compute the same reduced class-group element as the reference algorithm.",
 ["inputs"], "all forms and discriminants", "The value space is 2^1024 and each iteration feeds the next.",
 ["src/vdf_fast.h", "src/nucomp.h", "src/vdf_original.h", "src/threading.h"],
 [("pipelines", "src/vdf_fast.h, src/nucomp.h")], ["form after each iteration"])
prop("N02", "Every honest proof verifies",
 "A proof produced by any prover mode for any discriminant, starting form and iteration count is accepted by the verifier.",
 ["inputs", "histories"], "all honest runs", "Long runs and parameter combinations cannot be enumerated.",
 ["src/prover_slow.h", "src/prover_impl.hpp", "src/vdf.h", "src/verifier.h"],
 [("prover/verifier pair", "GenerateProof and VerifyWesolowskiProof")], ["verifier answer on produced proofs"])
prop("N03", "Discriminant and challenge derivation is deterministic and yields primes",
 "Discriminant creation and challenge derivation return the same negative prime discriminant or prime challenge for the same seed on every platform, of exactly the requested bit length, and the primality test accepts no composite.",
 ["inputs"], "all seeds and lengths", "Composite acceptance and rare seeds cannot be sampled.",
 ["src/create_discriminant.h", "src/proof_common.h", "src/primetest.h", "src/pprods.h"],
 [("hash to prime", "HashPrime, primetest")], ["returned integer"])
prop("N04", "Extended GCD and reduction terminate with exact results",
 "The partial and full extended GCD variants and form reduction terminate and return exact cofactors and reduced forms for all inputs in range.",
 ["inputs"], "all operand pairs", "Rare quotient sequences trigger the slow paths.",
 ["src/gcd_unsigned.h", "src/gcd_base_continued_fractions.h", "src/gcd_128.h", "src/xgcd_partial.c", "src/Reducer.h"],
 [("gcd and reduce", "src/gcd_unsigned.h, src/Reducer.h")], ["gcd outputs"])
prop("N05", "Generated assembly implements its specification",
 "The run-time generated assembly routines compute exactly what their C++ counterparts compute, preserve callee-saved state and stay within their buffers.",
 ["inputs", "configurations"], "all operands and both instruction-set variants", "Carry-chain corner cases are astronomically rare.",
 ["src/asm_main.h", "src/asm_vm.h", "src/asm_avx512_ifma.h", "src/compile_asm.cpp"],
 [("code generator", "src/asm_vm.h")], ["assembly outputs"])
prop("N06", "Hardware VDF values equal software values",
 "The values read back from the hardware VDF engine, converted to forms, equal what the software squaring would produce, and the emulator matches the device.",
 ["inputs", "histories"], "all runs of the hardware engine", "Needs the device and numerical comparison.",
 ["src/hw/vdf_driver.cpp", "src/hw/hw_interface.cpp", "src/hw/emu_funcs.cpp"],
 [("conversion", "src/hw/hw_interface.cpp")], ["converted forms"])
prop("N07", "Proofs are delivered within the throughput and latency users plan for",
 "The prover keeps up with the squaring thread and delivers a proof soon after the requested iteration is reached.",
 ["schedules", "configurations"], "all machines and loads", "Timing depends on hardware and load.",
 ["src/vdf.h", "src/fast_storage.h"], [("scheduling", "ProverManager::RunEventLoop")], ["time between request and proof"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
