# one line per property: why this reaches what tests cannot / oracle
WHY = {
"V01":"Oracle: the equation itself, as a value term that must have compared equal on every accepting path; tests sample a handful of bad proofs, an accepting path that skips one comparison for one depth is invisible to them.",
"V02":"Oracle: remaining = claimed - sum of counts, with a proof that each subtraction cannot wrap for any 64-bit count.",
"V03":"Oracle: 0 <= offset and offset + size <= the length argument, entailed from the branch conditions for every length and depth.",
"V04":"Oracle: the sign and size tests dominate every form operation from every entry point.",
"V05":"Oracle: the validity relations of a decoded form, required on each successful path.",
"V06":"Oracle: encoder and decoder layouts extracted independently from the source and compared over all discriminant sizes and common-factor sizes.",
"C01":"Oracle: the LLVM exception edges of the real functions; faults (bad_alloc, GMP conversion) need not be provoked.",
"C02":"Oracle: empty set of process-wide writes over everything reachable; no schedule has to be found.",
"C03":"Oracle: GIL typestate on all paths, including the exceptional ones that tests never take.",
"C04":"Oracle: four independently written descriptions must agree; tests call each binding with interchangeable arguments at best.",
"P01":"Oracle: the mutex common to all accesses; holds for every interleaving.",
"P02":"Oracle: C++ memory model (type of the object, ordering of the operation, program order of result and announcement).",
"P03":"Oracle: the wait/notify discipline, which is sufficient for 'no lost wake-up' in every schedule.",
"P04":"Oracle: the state the stop functions really leave behind; each loop must leave from that state.",
"P09":"Oracle: the counter values each fence waits for and each phase publishes, read from the code itself; an access is safe only if the fence value exceeds every value the partner can have published before its own conflicting access ended. The unit tests cannot choose the relative speed of two threads at nanosecond scale.",
"P08":"Oracle: exact divisibility of b*b-D by 4a with a>0 and c>=0 as relations that hold on every successful path, and the identity 'counter = squarings performed' at every base, publication and back edge. Corruption does not occur in a healthy test run.",
"P05":"Oracle: in the world where the prover did not finish, no path may return a filled proof.",
"S01":"Oracle: one lock region encloses all writes of a message, which holds for every interleaving.",
"S02":"Oracle: in the world where stop is set no write is reachable; the notice is sent in the state 'no thread alive'.",
"S03":"Oracle: the destination's size, the digit range, the width of the machine type and the documented limits (1024 bits, 8e8 iterations), which the conditions dominating each use must imply. Tests send a handful of byte streams out of an unbounded set.",
"S04":"Oracle: thread-lifetime states on all edges, including exceptions from network calls.",
"M01":"Oracle: the init/clear typestate of each number on every path; leaks and uninitialised numbers on error paths are invisible to tests that only compare results.",
"A04":"Oracle: in the world where this one call fails, nothing it was to deliver may be read and no success may be reported. The tests run with inputs for which none of these operations fails.",
"C05":"Oracle: the destination type's range as a linear inequality that the checks before the conversion must imply. Tests never pass sizes beyond 32 bits.",
"A01":"Oracle: truth of the flag on all call paths; detection enumerated over every combination of the tested bits, which one test machine has only one of.",
"A02":"Oracle: order of installation against the first GMP call on all paths, block layout as linear terms for all sizes.",
"A03":"Oracle: coefficient terms of the aliased and the distinct run must be equal.",
}
