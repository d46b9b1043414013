#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def p(id, title, stmt, over, q, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": stmt,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
C = "src/sst/core/"

p("C01", "Activities have one deterministic total order",
  "Scheduled activities are ordered by delivery time first, then priority, then order tag, and finally by insertion order into the queue; each ordering used by the schedulers is a strict weak order, so two activities never compare as each before the other, and comparison is transitive. Setting a priority or an order tag changes that value only and the value reads back unchanged over its whole documented range.",
  ["inputs"], "all pairs and triples of activities, i.e. all times, priorities, order tags and insertion numbers",
  "tests compare the few times/priorities their models happen to use; boundary values (priorities above 2^15, tags above 2^31, times near 2^64) are never compared",
  [C + "activity.h"], [("Activity::less<>/greater<> functors", C + "activity.h"), ("packing of priority and tag into one 64-bit word", C + "activity.h")],
  ["order of event delivery"])
p("C02", "The event queue loses nothing and pops the earliest activity",
  "Every activity inserted in the simulation's event queue is returned by pop exactly once, and pop always returns the earliest pending one in (time, priority, order tag, insertion order); front returns the same activity without removing it, and the reported current and maximum depths equal the true ones. This holds for both queue implementations and for their thread-safe variants, whose operations always leave the queue unlocked.",
  ["histories", "inputs"], "all queue contents and all sequences of insert, pop, front and size queries",
  "tests push a few activities through one implementation; equal keys, empty queues and arbitrary interleavings of insert and pop are not enumerable",
  [C + "impl/timevortex/timeVortexPQ.cc", C + "impl/timevortex/timeVortexBinnedMap.cc", C + "impl/timevortex/timeVortexPQ.h", C + "impl/timevortex/timeVortexBinnedMap.h", C + "timeVortex.cc"],
  [("priority queue with strict activity ordering", C + "impl/timevortex/timeVortexPQ.cc"), ("map from time to ordered bins", C + "impl/timevortex/timeVortexBinnedMap.cc")])
p("C03", "Links deliver every event at send time plus delay plus latency",
  "An event sent on a link during the run is scheduled for exactly the send time plus the extra delay plus the link latency, each converted from its own time base to core time, keeps its payload, and carries the link's own order tag and receiver; it is handed to the queue of the other end exactly once. A polled link returns only events whose delivery time has been reached, in time order, and never loses or duplicates an event.",
  ["inputs", "histories"], "all current times, latencies, delays, time bases and poll schedules (no 64-bit overflow)",
  "the tests observe a handful of latencies on ping-pong models; wrong conversions, off-by-one poll boundaries or tag mixups show only for other combinations",
  [C + "link.cc", C + "link.h", C + "event.h", C + "pollingLinkQueue.cc", C + "initQueue.cc"],
  [("Link::send_impl", C + "link.cc"), ("Link::recv", C + "link.cc"), ("PollingLinkQueue", C + "pollingLinkQueue.cc"), ("InitQueue", C + "initQueue.cc")])
p("C04", "Clocks call every active handler once per tick, in order",
  "At each tick a clock advances its cycle count by one, calls every active handler exactly once with that cycle number (its own handlers in registration order, each group's handlers in group order), drops exactly the handlers that ask to be removed, and schedules its next tick exactly one period later; a tick that finds no handler stops the clock. Registering, activating, deactivating or unregistering a handler leaves all others as they were and in their relative order, and a clock (re)started later ticks at the next whole multiple of its period (the current time counts only if the clock's priority is still to come) with the cycle number of that multiple.",
  ["histories", "inputs"], "any number of handlers, any combination of handlers that ask to be removed, all periods and current times",
  "tests use one or two handlers per clock; the in-place compaction of the handler list and the phase arithmetic depend on list shapes and times tests do not reach",
  [C + "clock.cc", C + "clock.h"], [("Clock::execute", C + "clock.cc"), ("Clock::registerHandler / unregisterHandler", C + "clock.cc"), ("Clock::schedule, getNextCycle", C + "clock.cc")], None,
  "loop invariants in Clock::execute")
p("C05", "Simulated time never runs backwards and every activity runs at its time",
  "While the run loop is executing, the simulation clock equals the delivery time of the activity being executed, the current priority equals that activity's priority, and simulated time never decreases: an activity whose delivery time lies before the current time is reported as a fatal time fault instead of being run past silently. The elapsed, end-of-run and current times reported to users follow that same clock.",
  ["histories", "inputs"], "all event queues and all end-of-simulation requests",
  "a time fault needs a 64-bit overflow or a misordered queue, which no regression model produces",
  [C + "simulation.cc"], [("Simulation::run", C + "simulation.cc"), ("Simulation::getCurrentSimCycle / getEndSimCycle / endSimulation", C + "simulation.cc")], None, "loop invariant in Simulation::run")
p("C06", "The simulation ends exactly when the last primary component agrees",
  "The exit object keeps the exact number of primary components that have not yet agreed to end, overall and per thread; the run is ended when, and only when, that number reaches zero, and the reported end time is the latest simulated time at which a thread's last primary component agreed. Only a component that registered as primary and is currently counted can agree, and agreeing with a count of zero is rejected as an error.",
  ["histories", "schedules"], "all sequences of register/agree calls over any number of threads (each call atomic under its lock)",
  "tests run a few components with one registration each; repeated register/agree sequences and per-thread counts are not enumerated",
  [C + "exit.cc", C + "exit.h"], [("Exit::refInc/refDec/check/computeEndTime", C + "exit.cc")])
p("C07", "Time conversions multiply and floor-divide exactly by the time base",
  "Converting a count of time-base units to core time multiplies by the time base's factor, and converting core time back floor-divides by it, for all factors and values that do not overflow; hence conversion to core time and back is the identity and conversion from core time never moves a time forward or by one unit or more. The simulator's current time in any unit that is a whole number of core time units is the floor of its core time in that unit.",
  ["inputs"], "all non-zero factors and all 64-bit values whose product does not overflow",
  "tests convert a handful of round numbers",
  [C + "timeConverter.h", C + "timeLord.cc", C + "timeLord.h", C + "componentInfo.h", C + "baseComponent.cc"],
  [("TimeConverter::convertToCoreTime / convertFromCoreTime", C + "timeConverter.h"), ("TimeLord::getSimCycles", C + "timeLord.cc")])
p("C08", "Fixed-point decimals compute exactly",
  "Addition, subtraction and comparison of the core's fixed-point decimals are exact in sign and value whenever the result is in range; multiplication yields the exact product truncated to the least representable digit; construction from 64-bit integers is exact, and conversion to a 64-bit integer yields the integer part (signed: rounded to nearest, ties to even). Every result stays in normal form: each word below the radix.",
  ["inputs"], "all pairs of values of the type (54 decimal digits, signed)",
  "the unit tests check about a dozen literals; carries and borrows across words and sign combinations need 10^8-aligned operands",
  [C + "decimal_fixedpoint.h"], [("operator+=, -=, *=, comparisons, toUnsignedLong", C + "decimal_fixedpoint.h")])
p("C09", "Unit arithmetic keeps dimensions and equality consistent",
  "Multiplying or dividing quantities adds or subtracts the exponents of every base unit, cancelling units that occur on both sides, and inverting swaps numerator and denominator; the order in which units are combined never matters. Two quantities compare equal exactly when both units and value agree, unequal otherwise, and adding, subtracting or ordering quantities of different units is rejected.",
  ["inputs"], "all multisets of base units in numerator and denominator",
  "tests use a few common units; cancellation with repeated and unsorted units is not enumerated",
  [C + "unitAlgebra.cc", C + "unitAlgebra.h"], [("Units::operator*=, /=, invert, reduce, ==", C + "unitAlgebra.cc"), ("UnitAlgebra comparison operators", C + "unitAlgebra.h")])
p("C10", "Accumulator statistics equal the sums over the data added",
  "After any sequence of data points (singly or with a repeat count) an accumulator statistic reports exactly the count, the sum, the sum of squares, the minimum and the maximum of the points added since it was created or last cleared, for every supported number type. Clearing returns it to the freshly created state and outputs exactly those values.",
  ["histories", "inputs"], "all sequences of single adds, repeated adds and clears, all data values (no integer overflow)",
  "tests record small positive integers; negative and floating data, clears and repeat counts are sampled at best",
  [C + "statapi/stataccumulator.h"], [("AccumulatorStatistic::addData_impl / addData_impl_Ntimes / clearStatisticData / outputStatisticFields", C + "statapi/stataccumulator.h")])
p("C11", "Histogram statistics place every point in exactly one right bin",
  "Every point added to a histogram statistic is counted once: below the minimum, above the maximum, or in the one bin whose range contains it, so in-bounds plus out-of-bounds counts always equal the number of points added, repeat counts included. Bin totals, sums and sums of squares reported equal those of the points added since creation or the last clear.",
  ["histories", "inputs"], "all bin widths, minimum values, bin counts, data values and repeat counts (no integer overflow)",
  "tests use one binning whose minimum is zero",
  [C + "statapi/stathistogram.h"], [("HistogramStatistic::addData_impl_Ntimes", C + "statapi/stathistogram.h")])
p("C12", "Statistics collect only while enabled and output on exact counts",
  "Data offered to a disabled statistic changes nothing; data offered to an enabled statistic is recorded once (or exactly N times) and raises the collection counts by exactly that number. A count-based statistic with a non-zero limit is output exactly when its count since the last reset reaches the limit, a periodic statistic never because of its count, and each output clears data or count only if the corresponding flag asks for it.",
  ["histories", "inputs"], "all statistic states, flags, limits and repeat counts",
  "each test runs one output mode with one limit",
  [C + "statapi/statbase.h", C + "statapi/statbase.cc", C + "statapi/statengine.cc"], [("Statistic<T>::addData / addDataNTimes, StatisticBase::checkEventForOutput", C + "statapi/statbase.h"), ("StatisticProcessingEngine::performStatisticOutputImpl", C + "statapi/statengine.cc")])
p("C13", "Random streams are reproducible, follow their generator and stay in range",
  "Each generator produces the published sequence of its algorithm as a function of its seed and the number of earlier draws only, restarting on re-seeding; unit-interval draws lie in [0,1) and integer draws are the generator's raw words. Distributions draw from their generator only and stay within their documented support.",
  ["inputs", "histories"], "all seeds and all generator states",
  "tests compare a few thousand values for one seed per generator",
  [C + "rng/mersenne.cc", C + "rng/marsaglia.cc", C + "rng/xorshift.cc", C + "rng/discrete.h", C + "rng/uniform.h", C + "rng/constant.h"],
  [("generateNext / nextUniform / generateNextUInt32 ...", C + "rng/"), ("state update and tempering", C + "rng/mersenne.cc")])
p("C14", "The sparse vector map is a correct ordered map",
  "The ordered id-to-object map used for components, links and configuration behaves as a map: after any sequence of inserts, filterings and clears, iteration yields each surviving key exactly once in strictly increasing order, lookup finds exactly the present keys with the value stored for them, and inserting a present key keeps the stored object. Its size equals the number of keys.",
  ["histories", "inputs"], "all maps (any number of keys) and all operations on them",
  "tests insert small, mostly sorted key sets; the binary search and shifting insert depend on positions never sampled",
  [C + "sparseVectorMap.h"], [("SparseVectorMap::insert/contains/operator[]/filter/sort/binary searches", C + "sparseVectorMap.h")], None, "loop invariants in the binary searches")
p("C15", "Serialisation sizes exactly, never overruns and round-trips",
  "Sizing an object reports exactly the number of bytes packing it writes; packing never writes outside, and unpacking never reads outside, the buffer given, an overrun being reported as an error; and unpacking the packed bytes restores an equal value and consumes exactly those bytes, leaving whatever is packed next correctly aligned in the stream. Pointers that were shared before packing are shared after unpacking when pointer tracking is on.",
  ["inputs"], "all values of the supported scalar, string and container types and all buffer sizes",
  "tests round-trip fixed sample objects in buffers that are always large enough",
  [C + "serialization/impl/packer.h", C + "serialization/impl/sizer.h", C + "serialization/impl/unpacker.h", C + "serialization/impl/ser_buffer_accessor.h", C + "serialization/serializer.h", C + "serialization/serializer.cc"],
  [("ser_sizer / ser_packer / ser_unpacker / ser_buffer_accessor", C + "serialization/impl/"), ("per-type serialize_impl", C + "serialization/impl/")])
p("C16", "Component, subcomponent and statistic identifiers never collide",
  "A subcomponent's id contains its component's id and its own number and gives both back exactly; ids built from different (component, subcomponent) pairs in range differ, a plain component id is never mistaken for a subcomponent id, and the id of a statistic configuration keeps the component id it belongs to. Rank-and-thread coordinates compare as a lexicographic strict order consistent with equality.",
  ["inputs"], "all component numbers, subcomponent numbers and ranks in their documented ranges",
  "tests use ids below a few hundred, far from the field boundaries",
  [C + "sst_types.h", C + "rankInfo.h", C + "model/configComponent.h", C + "model/configComponent.cc", C + "componentInfo.cc"], [("COMPONENT_ID_MASK, SUBCOMPONENT_ID_CREATE ...", C + "sst_types.h"), ("RankInfo comparisons", C + "rankInfo.h")])
p("C17", "The memory pool never hands out memory that is in use",
  "A pool allocation returns a block of the requested size inside memory the pool owns, never overlapping a block still in use, and a block handed back becomes available again exactly once; the pool's counts of live blocks and bytes equal the truth after every operation. Each public operation leaves the pool unlocked.",
  ["histories"], "all pool states and all sequences of allocate and free",
  "leaks and double hand-outs appear only after particular free/allocate histories crossing arena boundaries",
  [C + "mempool.cc", C + "mempoolAccessor.h"], [("MemPoolNoMutex::malloc/free/allocPool", C + "mempool.cc")], None, "loop invariant in the arena carving loop")
p("C18", "Every partitioner places every component on one existing rank",
  "Whatever the configuration graph and the number of ranks and threads, partitioning assigns each component exactly one (rank, thread) position inside the parallel job; components joined by no-cut links, directly or through others, and subcomponents get the position of their group; positions outside the job are refused, and links are marked as crossing ranks or threads exactly when their ends lie apart. The linear and round-robin partitioners moreover balance: no two ranks' (threads') component counts differ by more than one, and linear partitioning keeps components in id order.",
  ["configurations", "inputs"], "all graphs and all rank/thread counts",
  "tests run two to four ranks with fixed models",
  [C + "impl/partitioners/linpart.cc", C + "impl/partitioners/rrobin.cc", C + "impl/partitioners/singlepart.cc", C + "impl/partitioners/simplepart.cc", C + "model/configGraph.cc"],
  [("SSTLinearPartition::performPartition", C + "impl/partitioners/linpart.cc"), ("SSTRoundRobinPartition::performPartition", C + "impl/partitioners/rrobin.cc"), ("ConfigGraph::getCollapsedPartitionGraph / annotateRanks / checkRanks", C + "model/configGraph.cc")])
p("C19", "Inter-process message buffers are FIFO and never overwrite",
  "The bounded buffer between two processes delivers messages in the order written, each exactly once and unchanged; a write never overwrites an unread message and a read never returns one that was not written, with full and empty distinguished exactly. Non-blocking operations fail, changing nothing, exactly when the buffer is full or empty respectively.",
  ["histories", "inputs"], "all buffer capacities, read/write positions and operation sequences",
  "wrap-around at each capacity and fill level is not enumerated by the few messages the tests send",
  [C + "interprocess/circularBuffer.h"], [("CircularBuffer::write/read/readNB/clearBuffer", C + "interprocess/circularBuffer.h")], None, "loop invariants in the waiting loops")
p("C20", "Shared arrays, maps and sets keep one agreed value per entry",
  "Under the verifying modes an entry of a shared object keeps the value written: writing a different value to an entry that was already written is reported as an error, and repeating the same value is accepted and changes nothing. Arrays end with the largest requested length keeping earlier entries, writes after the object is published or locked are rejected, and an object counts as fully published only when every sharer has published.",
  ["histories", "inputs"], "all write sequences, indices, values and verification modes",
  "tests exercise single successful histories",
  [C + "shared/sharedArray.h", C + "shared/sharedMap.h", C + "shared/sharedSet.h", C + "shared/sharedObject.h", C + "shared/sharedObject.cc"], [("Data::write / update_write / setSize", C + "shared/sharedArray.h"), ("SharedObjectDataManager::updateState", C + "shared/sharedObject.cc")])
p("C21", "Synchronisation keeps delivery times and never skips past an event",
  "Events exchanged between threads or ranks arrive in the receiver's queue once, with their original delivery time. The next synchronisation point is never later than the current time plus the smallest cross-partition latency or the earliest pending local work plus that latency, so no received event can lie in the receiver's past.",
  ["schedules", "inputs"], "all queue contents, all minimum latencies and all next-event times",
  "tests run 2-4 ranks with regular traffic; idle phases, rounding and skip-ahead edge cases are not enumerated",
  [C + "sync/syncQueue.cc", C + "sync/threadSyncQueue.h", C + "sync/threadSyncSimpleSkip.cc", C + "sync/threadSyncDirectSkip.cc", C + "sync/rankSyncSerialSkip.cc", C + "sync/rankSyncParallelSkip.cc", C + "sync/syncManager.cc"],
  [("ThreadSyncSimpleSkip::after / RankSyncSerialSkip::exchange", C + "sync/"), ("SyncManager::computeNextInsert", C + "sync/syncManager.cc")])
p("C22", "Memory-interface responses match their requests",
  "The response built from any standard memory request is of the kind the request calls for, carries the request's id, addresses, size, thread and instruction pointer unchanged, and belongs to no other request; requests that need no response produce none. Every request gets a distinct id that is never given to another request, and flags read back exactly as set; a request or response sent through serialisation arrives as the same kind with the same fields.",
  ["inputs", "histories"], "all requests of every kind with all field values",
  "tests send loads and stores through one model",
  [C + "interfaces/stdMem.h", C + "interfaces/stdMem.cc"], [("Request::makeResponse", C + "interfaces/stdMem.h")])
p("C23", "Watchpoint trace buffers record the right samples",
  "At each selected handler boundary every condition of a watchpoint is evaluated once, in order, on the current values: <, <=, >, >=, == and != compare the two values as numbers whatever their types (no relation holds for a value that is not a number, except that a NaN differs from everything), and 'changed' compares with the value at the previous evaluation; conditions combine left to right by AND and OR, and the trigger is set exactly when the combination holds. A watchpoint without a buffer invokes its action exactly at each trigger. With a buffer, each boundary records one sample (time, place, values) until the recording is complete; the buffer holds the most recent samples in order up to its capacity, tagged before/at/after the trigger; the action is due exactly with the trigger when the post-trigger delay is zero and otherwise with the sample that completes the delay; recording then stops until it starts over from empty. The trigger record shown is the sample taken at the last trigger as long as it is still in the buffer, lost samples are counted, and a buffer always has room for at least one record.",
  ["histories", "inputs"], "all buffer sizes, post-delays, trigger times, value types, sampled values and handler selections",
  "interactive tests replay a few fixed console scripts",
  [C + "watchPoint.cc", C + "watchPoint.h", C + "impl/interactive/ObjTreeHelpers.h", C + "impl/interactive/ObjTreeHelpers.cc", C + "impl/interactive/NumericHandle.h", C + "serialization/ObjTreeLeaves.h", C + "impl/interactive/ObjMapToTree.h"], [("ObjTreeTraceBuffer::sampleT, resetTraceBuffer, dumpTraceBufferT, dumpTriggerRecord", C + "impl/interactive/ObjTreeHelpers.h"), ("ObjTreeComparison::evaluateComparison", C + "impl/interactive/ObjTreeHelpers.cc"), ("NumericHandle comparison", C + "impl/interactive/NumericHandle.h"), ("WatchPoint::check, genericHandler, before/afterHandler, actions", C + "watchPoint.cc")])
p("C24", "Periodic checkpoints fall on exact multiples of the period",
  "With a checkpoint period configured, the first checkpoint is scheduled at the first whole multiple of the period after the start or restart time and each later one exactly one period after the previous; a checkpoint is taken at no other time unless explicitly requested, and a requested one is taken once without shifting the periodic schedule. Without a period none is ever scheduled.",
  ["histories", "inputs"], "all periods, start times and request histories",
  "tests take one or two checkpoints from time zero",
  [C + "checkpointAction.cc"], [("CheckpointAction constructor, execute, check", C + "checkpointAction.cc")])
p("C25", "Parallel runs reproduce the serial run",
  "For every model and every number of ranks and threads, the sequence of (time, event) pairs each component observes equals that of the serial run.",
  ["schedules", "configurations"], "all thread/rank interleavings and all models", "a run samples one interleaving",
  [C + "simulation.cc", C + "sync/"], [("conservative synchronisation", C + "sync/")])
p("C26", "Restart from a checkpoint continues the run unchanged",
  "Restarting from any checkpoint yields the same remaining event sequence and statistics as the uninterrupted run.",
  ["crash_points", "histories"], "all checkpoint instants and models", "a test restarts at one instant of one model",
  [C + "simulation.cc", C + "checkpointAction.cc"], [("Simulation::checkpoint / restart", C + "simulation.cc")])
p("C27", "Written configuration files rebuild the same configuration",
  "A configuration graph written to Python, JSON or the parallel formats and loaded again yields the same components, links, parameters and statistics.",
  ["configurations"], "all configuration graphs", "tests round-trip fixed models",
  [C + "cfgoutput/", C + "model/"], [("config output writers and model loaders", C + "cfgoutput/")])
p("C28", "Thread-safe containers are linearisable under all schedules",
  "Barriers release all threads of a generation together and none early; the bounded and unbounded queues lose and duplicate nothing under concurrent use.",
  ["schedules"], "all interleavings and memory-model behaviours", "a run samples one interleaving",
  [C + "threadsafe.h"], [("Barrier, BoundedQueue, UnboundedQueue", C + "threadsafe.h")])
p("C29", "Parameters convert from text exactly and scoping finds the innermost",
  "A parameter written as text is converted to the requested type exactly or rejected, and lookup returns the most local definition.",
  ["inputs"], "all strings and scopes", "tests convert sample strings",
  [C + "params.h", C + "from_string.h", C + "params.cc"], [("Params::find, from_string", C + "params.h")])
p("C30", "Statistic output files contain every reported value faithfully",
  "Each statistic output writer emits each registered field of each output once, in the registered column and without changing its value.",
  ["inputs", "histories"], "all statistics, fields and values", "tests compare fixed reference files",
  [C + "statapi/statoutputcsv.cc", C + "statapi/statoutputtxt.cc", C + "statapi/statoutputjson.cc"], [("writers", C + "statapi/")])
p("C31", "The links that run are the links that were configured",
  "A link keeps its two ends, ports and one latency per direction from configuration to simulation: connecting refuses a missing latency and a third end; distributing the graph over ranks puts every component into exactly the part of its rank and every link into the parts of its ends, each part holding its own end with the position of the other one; on every thread each configured end becomes one link end on its port, paired with its partner or with the synchronisation to the partner's position, carrying the latency configured for its sender. The lookahead given to synchronisation is the smallest latency of the links that cross.",
  ["configurations", "inputs"], "all graphs, positions, latencies and orders of wiring",
  "tests run a few models on two to four ranks; a wrong end, latency or lookahead on one of many links is not visible in their output",
  [C + "model/configGraph.cc", C + "model/configLink.cc", C + "simulation.cc", C + "linkPair.h"],
  [("ConfigGraph::addLink / splitGraph / GraphFilter / getMinimumPartitionLatency", C + "model/configGraph.cc"), ("Simulation::prepareLinks / processGraphInfo", C + "simulation.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
