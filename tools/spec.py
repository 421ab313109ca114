#!/usr/bin/env python3
"""The properties, and how each is decided.  `spec.py` writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SIM = ("Runs the real runtime (all of src/vt) on a deterministic simulated machine: forked ranks, one running at a time, an MPI "
       "stand-in whose matching, latency, completion and probing follow a generated schedule. Trusts that stand-in, and the "
       "stand-in for the (absent) magistrate serializer. Exploration: no claim beyond the generated cases.")
PURE = ("Runs the real code under ASan/UBSan against an independent reference model on generated inputs. Exploration: no claim "
        "beyond the generated cases; inputs are biased to boundaries.")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None),
                  technique=technique, note=note))

TESTS_MPI = "The stable tests run no multi-rank program at all, and the full suite runs a few fixed programs on whatever schedule the machine produces."
TESTS_FIX = "The tests check a few hand-picked values; the claim is about every value."

prop("C01", "Active messages are delivered exactly once, to the right place, intact",
 "Every message sent (point-to-point, broadcast, serialized, with an attached payload, or as typed arguments) runs its handler exactly once on exactly its destination ranks, and never after the epoch it was sent in has been waited for. The handler sees the sent bytes and the true sender, whatever the message size, the limit on a single MPI transfer, the arrival order or the completion order of transfers.",
 ["programs", "schedules", "configurations"], "Every program of sends and broadcasts (from top level and from handlers) on any number of ranks, every message size and kind, every MPI delivery schedule.", TESTS_MPI,
 ["src/vt/messaging/active.cc", "src/vt/messaging/active.impl.h", "src/vt/messaging/envelope", "src/vt/group/global/group_default.cc", "src/vt/serialization/messaging", "src/vt/messaging/param_msg.h", "src/vt/messaging/pending_send.cc", "src/vt/messaging/request_holder.h"],
 [("probe, receive and dispatch", "src/vt/messaging/active.cc"), ("broadcast tree forwarding", "src/vt/group/global/group_default.cc"), ("eager/non-eager serialized sends", "src/vt/serialization/messaging/serialized_messenger.impl.h")],
 "model-based random message programs on a simulated MPI machine; exactly-once and content oracle", SIM, ["message handlers"])

prop("C02", "Termination is detected, and never before all work of the epoch is done",
 "Waiting for a rooted or collective epoch (also nested, concurrent, or with actions attached to its end) returns if and only if no handler of that epoch, nor of any work causally spawned in it or in an epoch nested in it, is still to run or in flight anywhere. Whenever the work is finite the wait ends, and each action attached to an epoch's end runs exactly once, after that point.",
 ["programs", "schedules", "configurations"], "Every tree of causally related messages over any ranks, every nesting and overlap of epochs, either detector, every delivery schedule.", TESTS_MPI,
 ["src/vt/termination", "src/vt/epoch", "src/vt/messaging/active.impl.h", "src/vt/runnable/runnable.cc", "src/vt/scheduler/scheduler.impl.h"],
 [("wave-based four-counter detector", "src/vt/termination/termination.cc"), ("Dijkstra-Scholten detector", "src/vt/termination/dijkstra-scholten"), ("epoch nesting and successors", "src/vt/termination/epoch_dependency.cc")],
 "generated epoch/message DAGs on a simulated MPI machine against a causal-history oracle", SIM, ["runInEpoch*", "addAction", "isEpochTerminated"])

prop("C03", "Chains and dependent epochs impose exactly the order they declare",
 "A step of a send chain starts only after all the work of the steps it depends on has ended: the previous step of that chain (or of both chains it merges), on that element for rooted steps of a chain set, on every element for collective and merged steps. Each step runs exactly once. An epoch declared a successor of another does not end before it; a send that is held back keeps its epoch open, does not run before it is released, and runs exactly once then. A chain set tracks exactly the elements that live (or have their home) on the rank, through migrations.",
 ["programs", "schedules"], "Every arrangement of chains, merges, dependent epochs, held sends and element migrations over any number of ranks, under every delivery schedule.", TESTS_MPI,
 ["src/vt/messaging/dependent_send_chain.h", "src/vt/messaging/collection_chain_set.h", "src/vt/messaging/collection_chain_set.impl.h", "src/vt/messaging/pending_send.h", "src/vt/messaging/pending_send.cc", "src/vt/termination", "src/vt/epoch"],
 [("dependent send chains", "src/vt/messaging/dependent_send_chain.h"), ("chain sets and their element listener", "src/vt/messaging/collection_chain_set.impl.h"), ("held sends", "src/vt/messaging/pending_send.cc"), ("successor epochs", "src/vt/termination/epoch_dependency.cc")],
 "generated chain and dependency programs on a simulated MPI machine against a happens-before oracle", SIM)

prop("C04", "Reductions, broadcasts and barriers over ranks combine every contribution once",
 "A reduction or all-reduce over the ranks delivers, exactly once to each intended target, the operator applied to exactly one contribution per rank, for every built-in operator, root, order of contribution and number of concurrent reductions. A barrier releases no rank before every rank has entered it, and the spanning trees used reach every rank exactly once for every rank count and arity.",
 ["programs", "schedules", "inputs"], "Every rank count, root, operator, contribution value and interleaving of several outstanding reductions.", TESTS_MPI,
 ["src/vt/collective", "src/vt/pipe"],
 [("tree reduction", "src/vt/collective/reduce/reduce.impl.h"), ("recursive-doubling and Rabenseifner all-reduce", "src/vt/collective/reduce/allreduce"), ("spanning tree", "src/vt/collective/tree/tree.cc"), ("barrier", "src/vt/collective/barrier/barrier.cc")],
 "generated sets of overlapping reductions on a simulated MPI machine against a sequential fold", SIM)

prop("C05", "Messages to collection elements are delivered exactly once despite migration",
 "Every message sent to an element of a collection, from any rank or element, is run exactly once by that element, on the rank where the element then lives, with its content intact, whatever migrations of the element happen meanwhile. The epoch of the send does not end before that, and the element's state is the one its previous messages left.",
 ["programs", "schedules", "histories"], "Every history of sends, element-to-element sends and migrations, every index shape and rank count, every delivery schedule.", TESTS_MPI,
 ["src/vt/vrt/collection/manager.impl.h", "src/vt/topos/location", "src/vt/vrt/collection/migrate", "src/vt/vrt/collection/send", "src/vt/vrt/collection/dispatch"],
 [("routing via the location manager", "src/vt/topos/location/location.impl.h"), ("migration in and out", "src/vt/vrt/collection/manager.impl.h")],
 "stateful model-based histories of sends and migrations on a simulated MPI machine", SIM)

prop("C06", "Collections hold exactly the elements asked for and broadcasts reach each once",
 "After construction a collection has exactly the elements its range, list or filter describes, each once, on the rank its mapping gives; later insertions and destructions change that set exactly as requested. A broadcast to the collection, sent while no element is migrating, runs exactly once on every live element, wherever earlier migrations took it, and destroying a collection destroys every element once.",
 ["programs", "schedules", "inputs"], "Every range shape, mapping, subset, insertion/destruction history and broadcast interleaving.", TESTS_MPI,
 ["src/vt/vrt/collection", "src/vt/topos/mapping", "src/vt/topos/index", "src/vt/configs/types"],
 [("construction from parameters", "src/vt/vrt/collection/manager.impl.h"), ("dynamic insertion and destruction", "src/vt/vrt/collection/insert"), ("broadcast", "src/vt/vrt/collection/broadcast")],
 "generated construction parameters and lifecycle histories against a set model", SIM)

prop("C07", "Reductions over collections combine one contribution per element",
 "A reduction over a collection delivers exactly once the operator applied to exactly one contribution from each participating element, in any order of contribution, for several reductions in flight, and wherever the elements migrated to before they contributed. An element is counted on the rank it contributes from and never twice.",
 ["programs", "schedules", "histories"], "Every collection size and placement, number of overlapping reductions, operator and migration history.", TESTS_MPI,
 ["src/vt/vrt/collection/manager.impl.h", "src/vt/collective/reduce", "src/vt/vrt/collection/reducable"],
 [("per-rank contribution count", "src/vt/vrt/collection/manager.impl.h"), ("reduction stamps", "src/vt/vrt/collection/types/indexable.impl.h")],
 "generated overlapping reductions with migration on a simulated MPI machine against a sequential fold", SIM)

prop("C08", "Object groups run each call on the named rank's own instance exactly once",
 "A send to a member of an object group runs once on that rank's own object, a broadcast once on every rank's object, a reduction folds one contribution per rank, and all of it is covered by the epoch it was sent in. Objects made by the system are destroyed exactly once and not before the group is destroyed; messages that arrive before the local object exists are kept and run.",
 ["programs", "schedules"], "Every sequence of group creations, sends, invocations, broadcasts and reductions, every delivery schedule.", TESTS_MPI,
 ["src/vt/objgroup", "src/vt/collective/reduce"], [("dispatch by proxy and pending messages", "src/vt/objgroup/manager.cc"), ("holders", "src/vt/objgroup/holder")],
 "generated object-group programs on a simulated MPI machine against a call-count model", SIM)

prop("C09", "Messages to a rank group reach exactly its members",
 "A broadcast to a group of ranks, created collectively or from one rank by a list or range of ranks, runs exactly once on every member and nowhere else, whoever sends it and even if sent while the group is being set up. The group's membership, size and root are reported the same everywhere, for every subset of ranks including singletons, all ranks, and sets that leave out rank 0.",
 ["programs", "schedules", "inputs"], "Every subset of every rank count, every sender, every interleaving of set-up and use.", TESTS_MPI,
 ["src/vt/group"], [("collective group tree construction", "src/vt/group/collective/group_info_collective.cc"), ("rooted group distribution", "src/vt/group/rooted/group_info_rooted.cc"), ("group send", "src/vt/group/group_manager.cc")],
 "generated subsets and senders on a simulated MPI machine against a membership model", SIM)

prop("C10", "Every entity is found where it last migrated to",
 "A message routed to an entity runs its handler (or the action registered with the entity) exactly once, on the rank that holds the entity then and within the epoch it was sent in, after any sequence of registrations, unregistrations and migrations (each entity at most once per epoch), with any number of stale or evicted cached locations. Messages and lookups issued before the entity is registered complete once it is. A lookup answers, once, with a rank that held the entity or was about to; when nothing is moving, the home and every rank without a cached location get the present one. The location cache is a least-recently-used map of its size, and the home's directory never forgets.",
 ["histories", "schedules", "configurations"], "Every history of register, migrate, unregister, lookup and route over any ranks, every cache size.", TESTS_MPI,
 ["src/vt/topos/location"], [("home-based directory with caches", "src/vt/topos/location/location.impl.h"), ("cache", "src/vt/topos/location/cache/cache.impl.h"), ("directory", "src/vt/topos/location/directory.impl.h")],
 "stateful histories on a simulated MPI machine against a placement map; cache against an LRU model", SIM)

prop("C11", "Load balancing moves objects but never loses, duplicates or corrupts them",
 "Whatever the load balancer, its parameters, the loads and the number of ranks, balancing ends with exactly the same set of objects as before, each on exactly one valid rank with its state unchanged, and every later message still reaches it. Balancers that promise a particular result deliver it: rotation shifts to the next rank, an offline plan is followed exactly, and greedy or tempered balancing never makes the maximum load worse than they report.",
 ["programs", "schedules", "inputs", "configurations"], "Every load vector, placement, balancer, argument set and rank count, every delivery schedule.", TESTS_MPI,
 ["src/vt/vrt/collection/balance"], [("migration from a proposed reassignment", "src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc"), ("balancers", "src/vt/vrt/collection/balance"), ("offline plan reader", "src/vt/vrt/collection/balance/lb_data_restart_reader.cc")],
 "generated loads and balancer configurations on a simulated MPI machine; object-set and plan oracles", SIM)

prop("C12", "Phase data attributes every load and message to the object that caused it",
 "In every phase, the load recorded for an object is the time its handlers ran in that phase, and the communication recorded between two objects is the count and bytes of the messages between them in that phase, from their true sender to their true receiver. Nothing is lost, counted twice or moved to another phase or object when objects migrate.",
 ["programs", "schedules", "histories"], "Every message pattern, work time, number of phases and migration, every delivery schedule.", TESTS_MPI,
 ["src/vt/elm", "src/vt/phase", "src/vt/vrt/collection/balance/col_lb_data.cc", "src/vt/vrt/collection/balance/node_lb_data.cc", "src/vt/context/runnable_context", "src/vt/runnable"],
 [("element LB data", "src/vt/elm/elm_lb_data.cc"), ("LB data context", "src/vt/context/runnable_context/lb_data.cc"), ("phase hooks", "src/vt/phase/phase_manager.cc")],
 "generated message patterns with a virtual clock on a simulated MPI machine against an accounting model", SIM)

prop("C13", "One-sided reads, writes and accumulates act on exactly the addressed elements",
 "Through an RDMA handle, a read returns what the last completed write put in exactly the addressed range of the addressed rank or collection index, a write or accumulate changes exactly that range, and handle sizes, counts and offsets are what each rank registered, also when ranks register different sizes.",
 ["programs", "schedules", "inputs"], "Every layout of per-rank sizes and sub-ranges, every sequence of operations under the stated locking, every delivery schedule.", TESTS_MPI,
 ["src/vt/rdmahandle"], [("windows and sub-handles", "src/vt/rdmahandle"), ("handles of collections", "src/vt/rdmahandle/manager.cc")],
 "generated one-sided operation histories on a simulated MPI machine against a flat array model", SIM)

prop("C14", "Callbacks fire exactly as often as sent, at the target they were made for",
 "A callback of any kind (function, lambda, handler on a rank, broadcast, object group, collection element or collection broadcast), sent from any rank and after being passed between ranks, runs its target exactly once per send (once per rank or element for broadcasts) with the sent content and covered by the sender's epoch; a broadcast to a collection is sent while no element is migrating and its groups are up to date. The function or handler of one callback never runs for another.",
 ["programs", "schedules"], "Every mix of callback kinds, creators, senders and repetitions, every delivery schedule.", TESTS_MPI,
 ["src/vt/pipe"], [("pipe manager and state", "src/vt/pipe/pipe_manager_base.cc"), ("callback dispatch", "src/vt/pipe/callback/cb_union")],
 "generated callback programs on a simulated MPI machine against a call-count model", SIM)

prop("C15", "The scheduler runs all ready work, by priority, and keeps time triggers",
 "Every enqueued piece of work runs exactly once; among the work waiting at one moment higher priority runs first; and the scheduler keeps making progress on communication for every setting of its progress options. Scheduler triggers fire on the transitions they name, and a periodic time trigger fires, once, when the scheduler makes progress more than its period after it last fired (or was registered), the earliest due first, until it is removed. A message's priority is the one asked for, at its level or one below the message it derives from.",
 ["programs", "histories", "configurations"], "Every set of priorities, enqueue order, nested enqueueing, progress setting, trigger period and clock history.", TESTS_MPI,
 ["src/vt/scheduler", "src/vt/timetrigger", "src/vt/runnable"], [("priority queue", "src/vt/scheduler/priority_queue.h"), ("progress policy", "src/vt/scheduler/scheduler.cc"), ("time triggers", "src/vt/timetrigger/time_trigger_manager.cc")],
 "generated work/priority/trigger histories under a virtual clock against a reference scheduler", SIM)

prop("C16", "A collection restored from a checkpoint equals the one that was saved",
 "Restoring a collection from a checkpoint, in place or into a new collection and also on a different placement of the elements, gives exactly the saved elements with exactly the saved state, after any history of migrations before saving. Messages sent after the restore reach the restored elements.",
 ["histories", "schedules", "inputs"], "Every collection size, index shape, element state, migration history before and after saving.", TESTS_MPI,
 ["src/vt/vrt/collection/manager.impl.h", "src/vt/vrt/collection/collection_directory.h"], [("checkpointToFile / restoreFromFile", "src/vt/vrt/collection/manager.impl.h")],
 "save/restore round trip over generated histories on a simulated MPI machine", SIM)

prop("C17", "A phase change runs every registered hook once, at its moment, on every rank",
 "On a phase change every registered hook runs exactly once on each rank it is registered on, after all ranks entered the change and before the call returns on any rank: first the data-collection hooks, then End, EndPostMigration and Start, at each moment rooted before collective before unsynchronized ones, each in order of registration. The work of a collective or rooted hook is done before the next hook of that rank starts (that of data-collection hooks before the End hooks), the phase number is the old one up to the Start hooks and the next one from there on, and unregistered hooks run no more.",
 ["programs", "schedules"], "Every set of hooks, registration history, work of hooks, arrival time of ranks, delivery schedule.", TESTS_MPI,
 ["src/vt/phase"], [("phase change and hooks", "src/vt/phase/phase_manager.cc")],
 "generated hook programs over phases on a simulated MPI machine against an order model", SIM)

prop("C18", "Scoped MPI operations run in the same order on every rank",
 "Operations enqueued in collective scopes run on all ranks in one consistent order, one at a time, each exactly once on every rank, however differently the ranks interleave their scopes and enqueueing. Waiting for one operation returns only after it ran on this rank.",
 ["programs", "schedules"], "Every number of scopes, operations, per-rank order of enqueueing across scopes, every delivery schedule.", TESTS_MPI,
 ["src/vt/collective/collective_alg.cc", "src/vt/collective/collective_scope.cc"], [("consensus on the next operation", "src/vt/collective/collective_alg.cc")],
 "generated scope programs on a simulated MPI machine; order-agreement oracle", SIM)

prop("C20", "Packed identifiers give back exactly the fields that were put in",
 "Every packed identifier (handler, epoch, collection proxy, object-group proxy, group, pipe, event, element, message envelope, priority) decodes to exactly the fields it was built from, over the whole range of every field, and setting one field changes no other. Distinct field combinations give distinct identifiers.",
 ["inputs", "histories"], "All field values that fit, in any order of setting.", TESTS_FIX,
 ["src/vt/utils/bits", "src/vt/handler", "src/vt/epoch", "src/vt/messaging/envelope", "src/vt/vrt/collection", "src/vt/objgroup/proxy", "src/vt/elm", "src/vt/group/id", "src/vt/pipe/id", "src/vt/event", "src/vt/scheduler"],
 [("bit packer", "src/vt/utils/bits/bits_packer.impl.h"), ("handler id layout", "src/vt/handler/handler.cc"), ("epoch layout", "src/vt/epoch/epoch_manip.cc")],
 "model-based field set/get sequences under sanitizers", PURE)

prop("C21", "Interval sets behave as sets of integers",
 "A set kept as intervals answers membership, size, first and last, and iteration exactly as the mathematical set after any sequence of insertions of absent values or ranges, removals of present values, copies and clears, in any order. The set of terminated epochs built on it reports an epoch terminated if and only if it is not active, and allocates only epochs of its kind that are not active.",
 ["histories", "inputs"], "All sequences of insert, insert-range, remove, copy and clear; dense, sparse, adjacent and extreme values; all activation, allocation and termination histories.", TESTS_FIX,
 ["src/vt/termination/interval", "src/vt/epoch/epoch_window.cc"], [("interval merging and splitting", "src/vt/termination/interval/integral_set.impl.h"), ("epoch window", "src/vt/epoch/epoch_window.cc")],
 "stateful model-based testing against a reference set, under sanitizers", PURE)

prop("C22", "Rank regions behave as sets of ranks",
 "A region of ranks given by range (with any stride) or list reports size, membership, head, tail and iteration exactly as the set it denotes, and slicing, removing, splitting, cloning and merging give regions that together denote exactly the same ranks, none twice and none missing.",
 ["inputs", "histories"], "All ranges, strides and lists, all sequences of splits and removals.", TESTS_FIX,
 ["src/vt/group/region"], [("range region", "src/vt/group/region/group_range.cc"), ("list region", "src/vt/group/region/group_list.cc"), ("split", "src/vt/group/region/group_range.cc")],
 "stateful model-based testing against a reference set, under sanitizers", PURE)

prop("C23", "Index linearization is a bijection and mappings place every index on a valid rank",
 "Linearizing a dense index of any dimensionality (row- or column-major) is one-to-one onto the positions of its range, and iterating a range visits each index once. Packing an index into 64 bits is inverted by unpacking for components that fit; indices are ordered, compared, added and hashed componentwise. Block, round-robin, unbounded and seed mappings send every index to a valid rank, always the same one; block mappings keep positions contiguous and, like round-robin ones, spread them over the ranks to within one.",
 ["inputs"], "All bounds, dimensionalities and rank counts.", TESTS_FIX,
 ["src/vt/topos/index", "src/vt/topos/mapping"], [("dense linearization", "src/vt/topos/mapping/dense"), ("index arrays", "src/vt/topos/index/dense"), ("packed comparisons and hashing", "src/vt/topos/index")],
 "generated bounds and indices against arithmetic reference, under sanitizers", PURE)

prop("C24", "Streamed JSON, compressed or not, reads back as the written document",
 "Any sequence of JSON objects appended to a streamed file, with or without compression, at any flush boundaries, is valid JSON that reads back equal to what was written. Compressing and decompressing any byte stream in pieces of any size gives back exactly those bytes.",
 ["inputs", "histories"], "All documents, byte streams, chunk sizes and compression settings.", TESTS_FIX,
 ["src/vt/utils/json", "src/vt/utils/compress"], [("appender", "src/vt/utils/json/base_appender.h"), ("compressor", "src/vt/utils/compress/compressor.cc"), ("decompressor", "src/vt/utils/compress/decompressor.cc"), ("input iterator", "src/vt/utils/json/decompression_input_container.cc")],
 "round-trip fuzzing with generated documents, streams and chunkings, under sanitizers", PURE)

prop("C25", "Load-balancing data written out reads back the same",
 "Load-balancing data (per-phase, per-object loads, sub-phase loads, user-defined values, object identities, collection indices, communication edges of every kind, node attributes) converted to its file form and read back is equal for every phase, also when phases are skipped, missing or recorded as identical. Malformed values are ignored or rejected, never misread as other data.",
 ["inputs", "histories"], "All phase histories, object sets, edge kinds, skipped and identical phases.", TESTS_FIX,
 ["src/vt/vrt/collection/balance/lb_data_holder.cc", "src/vt/vrt/collection/balance/node_lb_data.cc", "src/vt/vrt/collection/balance/lb_data_restart_reader.cc"], [("LBDataHolder to and from JSON", "src/vt/vrt/collection/balance/lb_data_holder.cc"), ("object id mapping", "src/vt/vrt/collection/balance/lb_data_restart_reader.cc")],
 "round-trip and differential testing of generated histories, under sanitizers", PURE)

prop("C26", "Load models predict what their definition says, alone and composed",
 "Each load model returns, for every object, phase offset and sub-phase, the value its definition gives on the recorded data: raw values in the past, naive persistence, the median of the last phases, linear extrapolation, norms, communication overhead, multipliers, per-collection selection, and chosen sub-phases. Composing models composes these values, and object iteration visits exactly the recorded objects once.",
 ["inputs", "histories"], "All load histories, object sets, offsets, sub-phases and model stacks.", TESTS_FIX,
 ["src/vt/vrt/collection/balance/model"], [("load models", "src/vt/vrt/collection/balance/model")],
 "generated load histories and model stacks against reference formulas, under sanitizers", PURE)

prop("C27", "Command-line and file configuration has exactly the stated effect",
 "Every option sets exactly its own configuration value to exactly what was given, wherever it stands among other arguments, and leaves all others at their defaults; arguments that are not the runtime's reach the program unchanged and in order. The configuration written out and read back gives the same configuration, and the command line overrides a configuration file.",
 ["inputs", "configurations"], "All option subsets, values, orders and interleavings with user arguments; all round trips through the written configuration.", TESTS_FIX,
 ["src/vt/configs/arguments", "src/vt/runtime"], [("argument parsing", "src/vt/configs/arguments/args.cc"), ("application configuration", "src/vt/configs/arguments/app_config.h")],
 "generated command lines against an option table and round trip of written configuration", PURE)

prop("C28", "Specification files are read as written",
 "A specification of which phases to trace or write, given as lines or ranges, enables exactly the phases it describes, for any mix of single phases, moduli and negative or positive offsets; a load-balancer schedule gives for every phase the balancer and arguments its most specific entry names. Writing such a specification out and parsing it again changes nothing.",
 ["inputs"], "All well-formed specifications, phases and value combinations.", TESTS_FIX,
 ["src/vt/utils/file_spec", "src/vt/vrt/collection/balance/read_lb.cc"], [("spec file", "src/vt/utils/file_spec/spec.cc"), ("LB schedule", "src/vt/vrt/collection/balance/read_lb.cc")],
 "generated specifications against a reference interpreter, under sanitizers", PURE)

prop("C29", "Summary statistics agree with their definition",
 "Histograms keep the exact count, minimum, maximum and total of what was added, and their quantiles and sums stay monotone and within bounds after any additions and merges; linear regression gives the least-squares line; the bounded circular buffer behaves as a queue of its capacity; load statistics (sum, extrema, mean, variance, skew, kurtosis, imbalance) combine in any order to the values computed directly.",
 ["inputs", "histories"], "All value sequences, bucket counts, merge trees and capacities.", TESTS_FIX,
 ["src/vt/utils/adt", "src/vt/utils/stats", "src/vt/vrt/collection/balance/stats_msg.h"], [("histogram", "src/vt/utils/adt/histogram_approx.h"), ("linear regression", "src/vt/utils/stats/linear_regression.h"), ("circular buffer", "src/vt/utils/container/circular_buffer.h"), ("load statistics", "src/vt/vrt/collection/balance/stats_msg.h")],
 "generated sequences and merge trees against direct computation, under sanitizers", PURE)

prop("C30", "Memory from the pool is exclusive, sized as asked, and reusable",
 "Every live allocation from the memory pool is at least as large as requested, suitably aligned, and disjoint from every other live allocation; its content is untouched by any other allocation or release. The reported sizes are the requested ones, growing in place never overruns, and released memory is reused without bound on the number of operations.",
 ["histories", "inputs"], "All sequences of allocate, grow, write and release, all sizes including bucket boundaries.", TESTS_FIX,
 ["src/vt/pool"], [("fixed-size pools", "src/vt/pool/static_sized/memory_pool_equal.cc"), ("pool dispatch", "src/vt/pool/pool.cc"), ("header", "src/vt/pool/header/pool_header.cc")],
 "stateful model-based allocation histories with canaries, under sanitizers", PURE)

prop("C31", "Numbers, durations, sizes and names are rendered faithfully",
 "Formatted times and memory sizes denote the value given, to the digits shown and in the unit shown, for every magnitude; memory sizes parse back. The human-readable name derived for a handler, type or function is the name's own, with namespaces and arguments removed exactly as promised.",
 ["inputs"], "All magnitudes and generated type/function names.", TESTS_FIX,
 ["src/vt/timing", "src/vt/utils/memory", "src/vt/utils/demangle"], [("time formatting", "src/vt/timing/timing_type.cc"), ("memory units", "src/vt/utils/memory/memory_units.cc"), ("demangling", "src/vt/utils/demangle/demangle.cc")],
 "generated values against exact arithmetic and metamorphic relations, under sanitizers", PURE)

prop("C32", "Replaying recorded workloads balances exactly the recorded objects, wherever they were recorded",
 "A replay of recorded workloads simulates the requested phases: in each, every recorded object counts once, with the load, subphase loads and user data recorded for the input phase, on the rank where the balancers of the phases before (at first, the recording) put it, whatever rank the work was recorded on; objects which may not migrate stay with their record. A balancer runs in just the phases it is configured for, and the statistics given are those of that placement.",
 ["inputs", "programs", "schedules"], "Every set of objects, homes, recording ranks per phase, loads, balancer, interval, range of phases and repetition of inputs.", TESTS_MPI,
 ["src/vt/vrt/collection/balance/workload_replay.cc", "src/vt/vrt/collection/balance/model/proposed_reassignment.cc", "src/vt/vrt/collection/balance/baselb"], [("replay and relocation of workloads", "src/vt/vrt/collection/balance/workload_replay.cc"), ("loads of a proposed reassignment", "src/vt/vrt/collection/balance/model/proposed_reassignment.cc"), ("normalized reassignments", "src/vt/vrt/collection/balance/baselb/baselb.cc")],
 "generated recordings replayed on a simulated MPI machine against a placement model", SIM)
prop("C33", "Virtual contexts are made once where asked, and run each message once",
 "Every virtual context asked for, on this rank, on a named rank or through a map, by a rank or by the handler of another context, is constructed exactly once, on that rank, with the given arguments, and its proxy names no other context, however many the rank has. Each message sent to it by anyone who has the proxy, also before it is constructed, plain or serialized and of any size, runs exactly once, on that context, with its content, within the epoch it was sent in: what the epoch covers has run when it ends. A context lives until it is destroyed, which affects no other.",
 ["inputs", "programs", "schedules"], "Every set of contexts, places, message trees, sizes, epochs and delivery orders.", TESTS_MPI,
 ["src/vt/vrt/context", "src/vt/vrt/proxy/proxy_bits.cc", "src/vt/topos/location/location.impl.h"], [("construction, messages, destruction", "src/vt/vrt/context/context_vrtmanager.impl.h"), ("holders and lookup", "src/vt/vrt/context/context_vrtmanager.cc"), ("proxies", "src/vt/vrt/proxy/proxy_bits.cc")],
 "generated programs on a simulated MPI machine against the message plan", SIM)
prop("C34", "What follows an event or an asynchronous operation runs once, after it completed",
 "An action attached to an event on any rank, before, while or after it completes, by programs or by other actions, runs exactly once, on the rank that attached it, and only after the event completed: an event triggered by hand was triggered, an MPI operation is done, all events of a parent are complete. The continuation of an asynchronous operation runs exactly once, after it was ready; it is not polled any more then, and the epoch it was registered in does not end before. Actions and continuations may attach, register, send and run the scheduler.",
 ["inputs", "programs", "schedules"], "Every set of events, parents, operations, times of completion and attachment, and delivery orders.", TESTS_MPI,
 ["src/vt/event", "src/vt/messaging/async_op.cc", "src/vt/messaging/request_holder.h"], [("events and actions", "src/vt/event/event.cc"), ("readiness of events", "src/vt/event/event_record.cc"), ("pending operations", "src/vt/messaging/request_holder.h"), ("operations and epochs", "src/vt/messaging/async_op.cc")],
 "generated programs on a simulated MPI machine against the completion model", SIM)

prop("C35", "Active gets and puts run the registered function once, with exactly the data asked for",
 "A get or put on an RDMA handle, by any rank, runs the function registered for its tag exactly once, on the rank of the handle, with the length, offset and tag of the operation (and, for a put, its bytes); a get delivers exactly what that function gave, into the buffer or to the continuation, and writes nothing beyond. Handles with a buffer read and write exactly the addressed bytes or elements, from the start when no offset is given. The action of an operation runs exactly once, on the issuing rank, after the operation took effect. Functions can be replaced and withdrawn.",
 ["inputs", "programs", "schedules"], "Every set of handles, tags, functions, sizes and offsets, and every interleaving of operations by all ranks.", TESTS_MPI,
 ["src/vt/rdma", "src/vt/messaging/active.cc", "src/vt/messaging/active.h"], [("gets and puts", "src/vt/rdma/rdma.cc"), ("registered functions and buffers", "src/vt/rdma/state/rdma_state.cc"), ("typed operations", "src/vt/rdma/rdma.h"), ("payloads awaited", "src/vt/messaging/active.h")],
 "generated programs on a simulated MPI machine against the contents of the handles", SIM)

NA = {}

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(f"{V}/checks/{i}.cc"):
            checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                               technique="property-based testing: " + p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "Check not built yet; the technique applies.")))
    json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
                   notes="Simulated-machine checks and pure checks share one engine (pbt/), see DESIGN.md."), open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")

if __name__ == "__main__":
    main()
