#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
R = "crates/logicaffeine_runtime/src/"
D = "crates/logicaffeine_data/src/"
S = "crates/logicaffeine_system/src/"
C = "crates/logicaffeine_compile/src/"
P = "crates/logicaffeine_proof/src/"
K = "crates/logicaffeine_kernel/src/"
V = "crates/logicaffeine_verify/src/"
L = "crates/logicaffeine_lsp/src/"
B = "crates/logicaffeine_base/src/"

PROPS = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=None, hook=None):
    a = {"files": list(files)}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["mechanism"] = [{"name": n, "where": w} for n, w in mech]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

prop("C01", "Channels deliver every message exactly once, in order, within capacity",
 "On the deterministic task runtime every value accepted by a channel is received by exactly one receiver, in the order in which the sends were accepted, and a channel never buffers more values than its capacity (0 = rendezvous). A sender blocks exactly while the channel has neither room nor a waiting receiver, a receiver blocks exactly while the channel is open and has nothing to take, and the non-blocking variants succeed exactly when the blocking ones would not have blocked; blocked tasks are served first come, first served. A closed channel still hands out what it buffered, then answers every receive with Nothing, and wakes every blocked receiver.",
 ["schedules", "programs", "configurations"],
 "every program of tasks over send/receive/try/select/close, every scheduling policy and seed, every capacity",
 "The test-suite runs a few dozen hand written task programs under a handful of seeds; message loss or reordering appears only for particular interleavings of blocked senders, select waiters, closes and aborts.",
 [R+"scheduler.rs", R+"channel.rs", R+"executor.rs"],
 [("send/receive/close operations", R+"scheduler.rs"), ("bounded queue", R+"channel.rs")],
 [("channel queue", "values accepted and not yet received"), ("blocked senders / receivers", "tasks parked on the channel")],
 "values each task receives; scheduler snapshot")

prop("C02", "Select, timers, await, abort and spawn follow task-lifecycle semantics",
 "On the deterministic task runtime a select fires exactly one arm: a receive arm only with a value from (or the closing of) that arm's channel and a timeout arm only when its deadline is reached before any receive arm became ready, and the losing arms consume nothing and leave nothing behind. Sleepers wake in deadline order, awaiting a task yields its result once it has finished (Nothing if it was aborted), and an aborted or finished task never runs, receives or blocks anything again. A run that can go no further ends Done exactly when every task has finished, WaitingForIo when some task waits for I/O, and Deadlock otherwise.",
 ["schedules", "programs", "configurations"],
 "every task program and every scheduling decision sequence",
 "Select losers, aborts of parked tasks, timer ties and await/abort races each need a specific ordering of several tasks; the tests fix one ordering each.",
 [R+"scheduler.rs", R+"task.rs", R+"timer.rs"],
 [("select / timers / await / abort", R+"scheduler.rs")],
 observe="values each task is resumed with, selected arm, run outcome")

prop("C03", "A seed or recorded trace reproduces a concurrent run exactly",
 "For every program, policy and seed, running it again gives the identical sequence of observable steps, outputs and outcome; replaying the recorded decision trace gives that same run; and chopping the run into slices of any size changes nothing. Which ready task runs next follows the chosen policy; running the tasks on the work-stealing executor gives, for any number of workers, the results of its single-worker run, and under the default first-in-first-out policy those of the cooperative run.",
 ["schedules", "programs", "configurations"],
 "every program, policy, seed, slice budget and worker count",
 "Tests compare a few programs under one or two seeds and worker counts; divergence needs a program whose decisions depend on the state that differs.",
 [R+"scheduler.rs", R+"chooser.rs", R+"executor.rs", R+"rng.rs"],
 [("recorded choices", R+"chooser.rs"), ("batch execution", R+"executor.rs")],
 observe="step log, outputs, recorded trace")

prop("C04", "Replicated data converges whatever the merge order",
 "For every replicated type (grow-only and up/down counters, last-writer register, multi-value register, observed-remove set with either bias, observed-remove map, both sequence types, vector clock) merging is commutative, associative and idempotent as far as any read can tell, so replicas that have received the same updates in any order, grouping or multiplicity read the same value. Merging never loses an update that was not superseded, and never changes what a replica reads when it merges something it already covers.",
 ["histories", "schedules"],
 "every history of local updates and pairwise merges over any number of replicas",
 "Tests merge two or three hand-built replicas in one order; the law quantifies over all histories, merge orders and duplicates.",
 [D+"crdt/"],
 [("merge", D+"crdt/*.rs"), ("causal context", D+"crdt/causal/")],
 observe="public reads of each replica after each step")

prop("C05", "Replicated types mean what their operations say",
 "A counter reads the sum of all increments minus decrements it has received; a last-writer register reads the write with the greatest timestamp; a multi-value register reads exactly the writes not overwritten by a write that had seen them; an add-wins set contains exactly the elements having an add not observed by any remove it received, and in a remove-wins set an element one of two merged replicas lacks although it had seen one of its adds is gone after the merge; a map reads per key the merged value; a sequence reads the inserted, undeleted elements, each behind the element it was inserted behind, with nothing between the two but what was inserted behind the former. Local operations take effect immediately at the replica performing them.",
 ["histories"],
 "every history of operations and merges over any number of replicas",
 "The meaning is a function of the whole causal history; tests evaluate it on a few fixed histories.",
 [D+"crdt/"],
 [("operations and reads", D+"crdt/*.rs")],
 observe="public reads of each replica after each step")

prop("C06", "Delta synchronisation ends where full-state merging ends",
 "Applying the changes since a version at a replica that has reached that version brings in every addition and update the full state contains, and reads as after a full merge when nothing was removed since. Change sets applied late, twice or in any order never bring back something known to be removed, lose or duplicate anything, and a full merge afterwards gives what it alone would give. A bounded buffer of deltas supplies every delta a peer lacks or says that it cannot.",
 ["histories", "schedules"],
 "every history of updates, delta extractions at any version and applications in any order",
 "Tests take one delta after one update; missing removals or misjudged versions need longer mixed histories.",
 [D+"crdt/"],
 [("delta extraction and application", D+"crdt/*.rs"), ("delta buffer", D+"crdt/delta_buffer.rs")],
 observe="reads after delta application vs after merge")

prop("C07", "A crash loses nothing a journal had acknowledged",
 "If the process dies at any point during any sequence of journalled updates, compactions and remounts — leaving any prefix of the bytes in flight on disk — the next mount succeeds and yields a state containing every acknowledged update and at most the updates in flight, never a mixture or garbage. Updates made after such a recovery are in turn preserved by every later crash and mount. Altered contents of a recorded update are reported, never silently skipped.",
 ["crash_points", "histories", "fault_sequences"],
 "every update/compact/remount history and every crash point down to the byte, repeated",
 "Tests cut the file at one or two hand picked points and mount once; the guarantee is over all crash points and over repeated crash-recover-continue cycles.",
 [S+"storage/mod.rs", S+"distributed.rs", S+"fs/mod.rs"],
 [("journal append / replay / compaction", S+"storage/mod.rs"), ("journalled distributed value", S+"distributed.rs")],
 [("journal file", "length/checksum framed entries"), ("in-memory value", "merge of replayed entries")],
 "value read after mount")

prop("C08", "Concurrent updates and compaction never lose acknowledged writes",
 "When several tasks update a journalled value concurrently, with compactions and remote deltas interleaved in any order, every update whose call returned is contained in the in-memory value, and in the value recovered by a later mount. Compaction shortens the journal without changing what a mount yields.",
 ["schedules", "histories"],
 "every interleaving of update, merge and compaction calls at every await point",
 "Tests run operations one after the other; a lost update needs a compaction snapshot taken before and written after another task's append.",
 [S+"storage/mod.rs", S+"distributed.rs"],
 [("lock scope around append and compaction", S+"storage/mod.rs")],
 observe="journal contents at each storage call, value after remount")

prop("C09", "File storage behaves as a map confined to its root",
 "For every sequence of storage operations, read, list and exists report exactly what the preceding writes, appends, renames and removals imply, a failed operation changes nothing, and no operation on one path ever changes the contents of another. A write replaces the old contents atomically: a concurrent reader or a crash sees the old or the new contents in full. No path string whatsoever reads, writes, lists or deletes anything outside the storage root.",
 ["inputs", "histories", "crash_points"],
 "every path string, operation sequence and crash point",
 "Tests use a handful of plain names and two hostile paths; path strings are unbounded.",
 [S+"fs/mod.rs"],
 [("path resolution", S+"fs/mod.rs"), ("write via temporary and rename", S+"fs/mod.rs")],
 observe="results of public storage calls; directory tree")

prop("C10", "The relay delivers each publish once, in order, to exactly the subscribers",
 "Each message published to a topic after a subscription was acknowledged is delivered exactly once, unaltered and tagged with its topic, to every other live connection subscribed to that topic, and to no one else, not even the publishing connection. Messages published by one connection reach each subscriber in publication order. Connections joining, leaving or dying in any pattern do not disturb delivery among the others; only what a connection sent just before dying may be lost.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of connects, subscribes, publishes and disconnects",
 "Tests have two or three clients doing one exchange.",
 [S+"relay.rs", S+"relay_proto.rs"],
 [("topic table and fan-out", S+"relay.rs")],
 observe="events received by each client")

prop("C11", "One-time-pad bytes are never used twice and no record is accepted twice",
 "Over the life of a pad, across restarts and crashes at any point with a durable ledger, no pad byte ever covers two different records, and the two directions never share pad bytes; when too little pad remains sealing is refused and nothing is consumed. A receiver yields a record's exact plaintext at most once, in any arrival order and with any losses, and rejects replays, records altered in any bit, records from another epoch and its own reflected records without its state changing.",
 ["histories", "crash_points", "fault_sequences"],
 "every sequence of seals, deliveries, reorderings, replays, tamperings, restarts and crash points",
 "Tests check one replay and one restart; reuse needs a crash between specific steps or a specific reordering.",
 [C+"concurrency/pnp.rs"],
 [("pad cursor and ledger", C+"concurrency/pnp.rs"), ("receive window", C+"concurrency/pnp.rs")],
 [("send cursor", "first unused pad offset"), ("consumed offsets", "records already accepted")],
 "emitted frames (offset, length), ledger commits, open results")

prop("C12", "Framing and erasure coding recover exactly what was sent",
 "A sequence of messages framed onto a byte stream comes out as the same sequence whatever chunk boundaries the bytes arrive in, never early and never with leftovers misread. A message split into n shards any k of which suffice is reconstructed exactly from every choice of at least k distinct shards in any order with duplicates, and is never reconstructed from fewer or to different bytes. A file cut into chunks reassembles to the same bytes, and the manifest detects any altered chunk.",
 ["inputs", "fault_sequences", "histories"],
 "every message list, chunking, loss/duplication/reordering pattern and (k, n)",
 "Tests try a few chunkings and loss patterns; there are exponentially many.",
 [C+"concurrency/stream.rs", C+"concurrency/fec.rs", S+"network/sipping.rs", C+"concurrency/net_inbox.rs"],
 [("deframer", C+"concurrency/stream.rs"), ("erasure code", C+"concurrency/fec.rs")],
 observe="frames / messages produced after each input")

prop("C13", "Values survive the wire unchanged under every encoding configuration",
 "Every transferable value encoded by a sender and decoded by a peer comes out equal, whatever encoding options and compression are selected and however many messages have already shaped the session's dictionaries; sealed messages open only with the matching key and unaltered bytes. Decoding arbitrary, truncated or altered bytes never crashes and never yields a value from a message whose integrity check fails.",
 ["inputs", "configurations", "histories"],
 "every value, encoding configuration and message history of a session",
 "Round trips are tested per feature on small samples; options interact and session dictionaries depend on history.",
 [C+"concurrency/marshal.rs", C+"concurrency/channel.rs"],
 [("marshal / unmarshal", C+"concurrency/marshal.rs")],
 observe="decoded value")

prop("C14", "Every execution engine computes the language's meaning of a program",
 "For every sequential program the tree-walking interpreter, the bytecode machine at every optimisation tier and the native-code tier print the output, or fail with the error, that the language's semantics prescribes: integer arithmetic exact beyond 64 bits, division and remainder truncating with an error on zero, short-circuit logic, left-to-right evaluation, 1-based indexing with out-of-range errors, collections as values except where a parameter is declared mutable, lexical scoping, loops, early return and recursion. Optimisation never changes output, errors or their order.",
 ["programs", "inputs", "configurations"],
 "every program over the sequential core, every engine and tier",
 "The tests are sample programs, the differential suites being excluded from the fast test set; optimiser errors show on particular shapes.",
 [C+"interpreter.rs", C+"vm/", C+"optimize/", C+"semantics/", "crates/logicaffeine_jit/src/", "crates/logicaffeine_forge/src/"],
 [("tree-walker", C+"interpreter.rs"), ("bytecode compiler and VM", C+"vm/"), ("optimizer", C+"optimize/"), ("native tier", "crates/logicaffeine_jit/src/")],
 observe="program output lines and error")

prop("C15", "Concurrent programs behave as one of their legal interleavings",
 "Every run of a concurrent program (launched tasks, pipes, selects, parallel blocks) produces an output that some legal interleaving of its tasks with first-in-first-out pipes produces, and reports deadlock only when that interleaving is stuck; the same seed gives the same output on the tree-walker and on the bytecode machine, sequentially or with several workers. A program whose every interleaving gives one answer gives that answer under every seed and engine.",
 ["programs", "schedules"],
 "every concurrent program, seed, engine and worker count",
 "Tests fix a program and compare two seeds; only the set of all interleavings tells which outputs are legal.",
 [C+"concurrency/driver.rs", C+"concurrency/vm_driver.rs", C+"concurrency/bridge.rs", R+"scheduler.rs"],
 [("task translation onto the scheduler", C+"concurrency/")],
 observe="program output under each seed")

prop("C16", "A program that may use a value after giving it away is rejected",
 "On every control path, a variable whose value was given away may not be read or given again before it is assigned anew: a program with such a path is rejected by the ownership check, naming the variable, and a program with no such path is accepted. Conditional moves count as moves on the paths that take them, including a later iteration of the same loop.",
 ["programs"],
 "every program built from bindings, uses, gives, branches and loops",
 "Tests list a few shapes; the paths of a program are a product of its branches and iterations.",
 [C+"analysis/ownership.rs"],
 [("data-flow over ownership states", C+"analysis/ownership.rs")],
 observe="accept / reject and the named variable")

prop("C17", "Security checks pass exactly when the declared policy grants them",
 "A Check statement lets the program continue exactly when the declared predicate or capability condition is true of the actual subject and object values, with and/or and nested predicates read as logic; otherwise, including for missing definitions, objects or fields, the program stops there with an error and nothing after it executes. No optimisation level or engine removes, reorders or weakens a check.",
 ["programs", "inputs", "configurations"],
 "every policy, subject and object value, and engine",
 "Tests evaluate a few policies on a few values.",
 [C+"semantics/policy.rs", C+"analysis/policy.rs"],
 [("policy evaluation", C+"semantics/policy.rs")],
 observe="program output and error")

prop("C18", "Satisfiability verdicts are right and certificates are honest",
 "For every clause set each solver entry point (plain, budgeted, under assumptions, incremental after added clauses, with simplification, structure-specific and portfolio solvers) answers satisfiable only with an assignment that satisfies every clause and assumption, and unsatisfiable only when no assignment does. The independent certificate checkers accept only step lists that really establish unsatisfiability, and every refutation the solvers emit is accepted.",
 ["inputs", "histories"],
 "every clause set, sequence of incremental calls, and candidate certificate",
 "Tests use selected families; soundness is over all formulas and call histories.",
 [P+"cdcl.rs", P+"rup.rs", P+"sat.rs", P+"twosat.rs", P+"hornsat.rs", P+"xorsat.rs", P+"solve.rs", P+"pr.rs"],
 [("conflict-driven search", P+"cdcl.rs"), ("certificate checker", P+"rup.rs")],
 observe="verdict, model, certificate verdict")

prop("C19", "Model-checking verdicts agree with real reachability",
 "For every finite transition system, a verdict that an invariant holds is given only if no reachable state violates it, a counterexample is reported only with a depth at which a violation is really reachable and a trace that is a real execution ending in the violation, and a bounded search reports a violation whenever one exists within its bound, at the shallowest depth. Symmetry-reduced and incremental searches give the plain search's verdict.",
 ["inputs", "configurations"],
 "every initial condition, transition relation, property and bound",
 "Tests use textbook counters; unsound pruning shows only on systems with particular reachable sets.",
 [P+"bmc.rs", V+"kinduction.rs", V+"ic3.rs", V+"bmc.rs"],
 [("unrolling and induction", P+"bmc.rs"), ("k-induction", V+"kinduction.rs"), ("frame-based reachability", V+"ic3.rs")],
 observe="verdict, depth, trace")

prop("C20", "The proof kernel accepts only well-typed terms and cannot prove falsehood",
 "A term is accepted by the kernel only if it has the reported type under the rules of the calculus (universes, dependent functions, inductive types, recursion), evaluation preserves types and meaning, and both independent checkers agree. Non-positive inductive definitions, non-terminating recursion and universe cycles are rejected, so the empty type has no accepted closed inhabitant.",
 ["inputs"],
 "every term and declaration",
 "Tests check selected terms; acceptance of one ill-typed term anywhere breaks every proof.",
 [K+"type_checker.rs", K+"termination.rs", K+"positivity.rs", K+"reduction.rs", K+"recheck.rs"],
 [("type inference", K+"type_checker.rs"), ("termination check", K+"termination.rs"), ("positivity", K+"positivity.rs")],
 observe="accept/reject, inferred type, normal form")

prop("C21", "Arithmetic and equality decision procedures never certify a falsehood",
 "The linear arithmetic, integer, congruence-closure, ring and simplification procedures report a goal proved or a constraint set unsatisfiable only if it holds in every integer (respectively every) assignment. On the fragment each one decides, they also report every true goal.",
 ["inputs"],
 "every constraint system, equation set and polynomial identity",
 "Tests use known identities; a wrong elimination or rounding step shows on particular coefficient patterns.",
 [K+"lia.rs", K+"omega.rs", K+"cc.rs", K+"ring.rs", K+"simp.rs", B+"union_find.rs"],
 [("Fourier-Motzkin", K+"lia.rs"), ("integer elimination", K+"omega.rs"), ("congruence closure", K+"cc.rs"), ("polynomial normal form", K+"ring.rs")],
 observe="verdict")

prop("C22", "The language server's document always equals the editor's",
 "After any sequence of open, incremental or full change, close and reopen notifications, the server's text of a document equals the editor's buffer under UTF-16 position rules, and converting positions to offsets and back is the identity on valid positions with out-of-range positions clamped to the line. Analysis results computed for an older text are never published for, or taken as, the current one, including across close and reopen.",
 ["histories", "schedules", "inputs"],
 "every edit sequence, text content and completion order of background analyses",
 "Tests apply single edits on short ASCII texts.",
 [L+"document.rs", L+"line_index.rs", L+"scheduler.rs", L+"server.rs"],
 [("incremental edits", L+"document.rs"), ("position mapping", L+"line_index.rs"), ("generation check", L+"scheduler.rs")],
 observe="document text, positions, accepted results")

prop("C23", "Calendar and clock arithmetic agrees with the calendar",
 "Dates, week numbers, weekdays, month and year spans, business days, time zones with their gaps and overlaps, timestamps and durations are computed as the Gregorian (and Julian) calendar defines them; every formatted timestamp or duration parses back to the same value and malformed text is refused. Converting between instants, civil time, atomic time and zone-local time and back is lossless where the conversion is defined.",
 ["inputs"],
 "every date, instant, span and zone rule",
 "Tests sample well-known dates; errors hide at era, leap and zone boundaries.",
 [B+"temporal.rs"],
 [("civil conversion", B+"temporal.rs")],
 observe="results of public functions")

prop("C24", "Hybrid logical clocks respect causality",
 "Along every chain of local events and message receipts, timestamps strictly increase, so an event that could have influenced another always carries the smaller timestamp, even when physical clocks jump backwards or disagree. A timestamp never runs ahead of the largest physical clock value seen, and clock-estimate merging is order-independent and never discards the true time from an interval that contained it.",
 ["histories", "schedules"],
 "every message pattern and physical clock behaviour",
 "Tests use two nodes and a few ticks.",
 [B+"temporal.rs"],
 [("tick / receive", B+"temporal.rs"), ("estimate merge", B+"temporal.rs")],
 observe="timestamps")

prop("C25", "Exact numbers compute exactly",
 "Arbitrary-precision integers, rationals, decimals, complex and modular numbers and fixed-width words obey exact arithmetic for every operand size and sign: sums, products, quotients with remainder, powers, comparison, parsing and printing agree with mathematics, with no overflow or rounding except where an operation is defined to round. Equal values compare and hash equal however they were computed.",
 ["inputs"],
 "every operand",
 "Tests sample operands; carries, normalisation and sign handling fail at particular digit patterns.",
 [B+"numeric.rs", B+"word.rs"],
 [("multi-limb arithmetic", B+"numeric.rs")],
 observe="results of public operations")

prop("C26", "Runtime collections behave as sequences, maps and sets",
 "Lists, maps and sets give, after any history of insertions, updates, removals, slices and copies, exactly what the mathematical sequence, finite map or set would contain, in insertion order where order is observable; sharing and copy-on-write never let a change through one value become visible through an independent copy, and always let it become visible through a shared reference.",
 ["histories"],
 "every operation history over any number of handles",
 "Tests exercise single operations; representation switches and copy-on-write appear only along particular histories.",
 [D+"types.rs", C+"semantics/collections.rs"],
 [("collection representations", D+"types.rs")],
 observe="results of public operations")

prop("C27", "The prover proves only what follows from the premises",
 "A theorem is reported proved only if its conclusion is true in every model of its premises, whichever proof strategy found it, and the emitted derivation is accepted by the proof kernel. Unification returns only most general solutions that make both sides equal and never builds a term containing itself.",
 ["inputs"],
 "every premise set and goal",
 "Tests prove valid theorems; unsoundness shows only on invalid goals, which are unbounded.",
 [P+"engine.rs", P+"unify.rs", P+"certifier.rs"],
 [("backward chaining", P+"engine.rs"), ("unification", P+"unify.rs")],
 observe="proved / not proved, derivation")

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(PROPS))
