COMMON = " Trusted: clang's IR, the engine (cross-checked by native replay and random native runs of the same contracts), the listed callee stubs (evidence: assumptions)."
NOTE = {
"C01": "All obligations of the ordering functors and the order-word accessors discharged for all inputs." + COMMON,
"C06": "Exit's counters and every component-side call proved for all histories as inductive steps (any valid state, any call); loop over threads by an in-repo loop invariant." + COMMON,
"C08": "Word-by-word exactness of add, subtract, multiply, comparisons and integer conversions proved for all normal-form numbers of the 3+3-word type used by the core; parsing, printing and inverse are outside." + COMMON,
"C16": "Identifier construction, decomposition and allocation proved for all ids; RankInfo order proved for all pairs/triples." + COMMON,
"C07": "Conversions, unit factors (for units that are whole multiples of the core time base) and every current-time query proved for all 64-bit values without overflow; building a factor from a unit string relies on UnitAlgebra arithmetic (by contract)." + COMMON,
"C02": "Insert, pop, front, size, print order and the insertion counter of both queue classes (serial and thread-safe) proved as single steps on the real library containers, for all times, priorities, tags and counters, from every queue of at most 3-4 pending activities (bounded in queue length)." + COMMON,
"C03": "Send, latency, receiver, tag and phase contracts proved for all times, latencies, delays and tags; poll and init queues (real std::multiset/std::deque code) one step from any queue of at most 3 pending events (bounded)." + COMMON,
"C04": "Schedule and cycle arithmetic proved for all periods and times; tick, register, unregister and group operations from every valid list of at most 4 handlers / 3 groups with all answers and orders (bounded)." + COMMON,
"C24": "Constructor, execute, check and request proved for all times, periods and flags; the writing of the checkpoint itself is used by contract." + COMMON,
"C09": "Units::reduce from any lists of at most 5 units in any order or 4+4 sorted (bounded, all ids), the combining operations over its contract for at most 2 units per list (bounded), also with an object combined with itself; every UnitAlgebra operator over the contracts of Units and decimal arithmetic, for all values." + COMMON,
"C10": "Recurrences of every accumulator field under single and repeated adds, the fresh/cleared state and the reported fields proved for all six number types; floating-point + and * are uninterpreted (the same operations in the same order)." + COMMON,
"C11": "Placement, counts, sums, clearing and reported fields proved for every value, repeat count, width and minimum, for all six number types; a map of at most 3 bins stands for any map (each add touches one entry); fields for at most 3 bins (bounded); floating-point operations are uninterpreted." + COMMON,
"C12": "Gating, counts, count-triggered output, flags and what an output clears proved for all states; loops over a group's statistics only for groups of at most 3 statistics (bounded)." + COMMON,
"C05": "Simulation::run is proved for any number of iterations by a loop invariant, for any event queue (used by its C02 contract), any times, priorities, signals and end requests; endSimulation, shutdown, insertActivity and the time queries for every state; clock adjustment and earliest-next-activity for at most 2 clocks / 3 threads (bounded)." + COMMON,
"C13": "Seeding, batch generation, tempering and draws of the three generators proved for every state and seed; word-to-unit conversion in IEEE arithmetic; distributions over any generator, with bounded parts: discrete at most 4 outcomes, uniform bin counts as listed, Gaussian/Poisson/exponential at most 2 redraws. DiscreteDistribution returns the 1-based index the code documents by its reference output (0 only for a draw of exactly 0)." + COMMON,
"C14": "Searches (by loop invariant), lookup, insertion and clearing of all three versions proved for maps of any size (fewer than 2^30 entries); the sorting constructor and filter for at most 4 entries (bounded)." + COMMON,
"C19": "Write, read, non-blocking read and clear proved for every capacity (buffer contents as an array of arbitrary length); the waiting loops by the argument that every iteration restarts from an arbitrary valid state." + COMMON,
"C15": "Sizer, packer, unpacker and buffer accessor for every buffer size and request; scalars, enums, bitfields, pairs, tuples, optional, variant, bitset, atomic, raw and tracked pointers and shared_ptr for all values; strings of at most 3 characters and containers of at most 3 elements (bounded), plus vectors, deques, lists and maps of any length by in-repo loop invariants where listed." + COMMON,
"C17": "malloc and free of one pool for any number of arenas and free blocks (the carving loop by an in-repo invariant), the size header and pool selection of the operators, the overflow store; searches over at most 3 pools per thread and reports over at most 2 threads (bounded)." + COMMON,
"C18": "Linear and round-robin partitioning for all rank and thread counts, the simple partitioner for all latencies, no-cut groups, positions of groups and subcomponents, acceptance of positions and crossing flags; graphs of at most 6, 5 and 3 components (bounded)." + COMMON,
"C20": "Write, update, size change, publish and lock of arrays of any length (ordinary and bool); maps and sets from at most 2 earlier entries and change sets of at most 2 changes, manager over at most 2 objects (bounded)." + COMMON,
"C21": "Thread side and rank side: matching of the two ends of a link in every registration order, link information exchanged between ranks, synchronisation intervals, the send queue, serial and parallel exchange between two ranks over a modelled MPI, untimed exchange, agreement on the next synchronisation, signals and flags, the sync manager's order of steps and its choice of the next synchronisation, for all times and latencies; at most 2 events per direction, 2 ranks, 2 threads and 3 links (bounded)." + COMMON,
"C22": "Every makeResponse of every request kind, ids, flags and carrying through serialisation, for all field values; payload data of any length (compared as an array)." + COMMON,
"C23": "One sample from every state of the buffer invariant (capacity 1 to 3, one traced variable: bounded; delays, counts, values and histories unbounded); evaluation of every relation for every pair of integer, floating and bool types, change detection, node copies; combination of up to 4 conditions (bounded), handler selection, invocation and every action except the interactive message. Text output and the console's parsing (except the buffer size) are outside." + COMMON,
"C31": "Connecting, splitting, reducing, wiring (single thread, direct, through the sync, remote, loopback) and lookahead for all latencies, ranks of the remote end and positions relative to this thread; graphs of 3 components with a subcomponent and at most 2 links (bounded)." + COMMON,
}
HOOKS = ["5096b76", "1ba06f7", "82fe336", "6e5b8fa", "ab705ca"]
TODO = "contracts not built yet"
NA = {"C%02d" % i: TODO for i in range(1, 25)}
NA.update({
"C25": "A relational property of whole simulations over all models, ranks and threads; no pre/postcondition on functions within a sequential verifier's reach expresses it. Its local ingredients are C01, C02, C03, C04, C21.",
"C26": "Whole-program relation between two runs of arbitrary user models through a checkpoint file; not expressible as a contract on functions within reach. Ingredients: C15, C24.",
"C27": "Needs the semantics of the embedded Python interpreter and the JSON library as contracts; neither is within the verifier's reach.",
"C28": "Quantifies over thread interleavings of lock-free code; the deductive back end here is sequential (no concurrent separation logic for C++ is installed).",
"C29": "Depends on libstdc++/libc text conversion (strtod, stringstream); no verified contracts for those within reach.",
"C30": "Output goes through C stdio/zlib/HDF5 formatting whose effects the verifier cannot model.",
})
DESIGN = {}
