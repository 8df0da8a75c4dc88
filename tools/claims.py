HOOKS = {"guard": "none", "enable": "no hooks: the checks use the public API of /repo's crates", "commits": []}

MC = "TLA+ model checked with TLC; TLC-generated behaviours replayed on the implementation; recorded runs validated against the spec by TLC"
claim("C01", MC, "model exhaustive for 3 tasks, 2 channels, 4-5 operations; implementation runs sampled from spec behaviours under every policy")
claim("C02", MC, "same model and runs as C01; select, timers, await, abort, I/O included")
claim("C03", MC, "recorded runs compared pairwise by the spec over generated programs, policies, seeds, slices, 1-4 workers")
claim("C04", MC, "model exhaustive for 3 replicas and short histories; implementation histories of every replicated type sampled from spec behaviours with all merge orders")
claim("C05", MC, "the spec's read functions over operation sets are the meaning; sampled histories, 3-4 replicas")
claim("C06", MC, "same model, deltas as set differences, bounded delta buffers included; sampled histories")
claim("C07", MC, "journal model exhaustive with a crash after any byte class; real journals cut at spec-chosen byte offsets on a virtual disk")
claim("C08", MC, "journal model with concurrent clients exhaustive; the virtual disk runs the real store through spec-chosen interleavings of storage calls")
claim("C09", MC, "path grammar and operation sequences sampled from the spec, run by an unprivileged process; parallel runs judged as a register per path")
claim("C10", MC, "relay model exhaustive for 3 connections and 2 topics; real relays driven over loopback, deliveries judged per connection")
claim("C11", MC, "pad model exhaustive with crashes; sampled behaviours run on real pads on disk; a negative control refutes the late-ledger design")
claim("C12", MC, "every loss pattern up to 4 data and 3 parity shards enumerated; chunkings, truncations and file offsets sampled from the spec")
claim("C14", MC, "TLC generates programs over the sequential core and computes their meaning; interpreter, bytecode engine, every optimisation tier, native code and background compilation run them")
claim("C17", MC, "conditions exhaustive for short chains over all atoms; sampled policies, records and programs (branches, loops, functions, changed fields) on every engine and tier, judged by the specification")
claim("C18", MC, "proof rules model checked on all small clause sets; sampled clause sets of every recognised structure and incremental histories; every route's verdict, model, core and certificate judged by the specification")
claim("C19", MC, "exhaustive for small two-signal graphs; sampled systems of up to four signals, verdicts, depths and counterexamples of every engine judged by the reachable set TLC computes")
claim("C23", MC, "the calendar is counted day by day by TLC and compared with its closed forms; sampled dates, zones, business days, timestamps and durations at every edge, judged by the specification")
claim("C24", MC, "exhaustive for 3 nodes and short histories, with a negative control; every history of a bounded length and longer sampled ones run on the real clocks")
claim("C25", MC, "digit arithmetic and rounding model checked against algebraic laws; sampled operands at carry, quotient-correction, tie and 64-bit edges for every operation")
