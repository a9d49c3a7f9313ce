#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T={
"C01":"deterministic simulation: seeded refusal faults at every write of simulated destinations; prefix oracle",
"C02":"deterministic simulation: seeded histories of failed, panicked and abandoned writes over simulated threads; results compared with the operation alone",
"C03":"deterministic simulation: simulated clock stepped inside and between calls, simulated threads; oracle is the clock's own history",
"C04":"deterministic simulation: simulated processes, hosts, threads, clocks and randomness with crash and restart; global uniqueness over the history",
"C05":"deterministic simulation: chain of simulated processes over a simulated disk with kills at arbitrary instructions; conservation across generations",
"C06":"deterministic simulation: simulated nodes, network faults, crash and restart; convergence and equality with a reference model",
"C07":"deterministic simulation: seeded environments (hash seed, clock, zone, failing destinations); independent RFC 5545 reader as reference",
"C08":"deterministic simulation: simulated relays re-framing documents in transit; independent RFC 5545 reader/writer as reference",
"C09":"deterministic simulation: writer killed at seeded instructions, documents torn at seeded or all bytes; error-or-complete oracle",
"C10":"deterministic simulation: seeded storage and transmission damage; no panic/abort, step-counted effort bound",
"C11":"deterministic simulation: seeded pre-emptive scheduler over simulated threads, re-entrant destinations, injected failures; results compared with the operation alone, bounded-progress liveness",
"C12":"deterministic simulation: simulated streams and standard output with short, interrupted and failing writes; all routes compared byte for byte",
"C13":"deterministic simulation: simulated JSON streams with short, interrupted, failing and torn transfers; round-trip oracle",
"C14":"deterministic simulation: hosts with seeded clocks, zones and threads convert and exchange date-times; oracle is an independent table of published zone rules",
"C15":"deterministic simulation: seeded histories of building calls over several objects and simulated threads, suppliers that panic part-way; reference model compared after every step",
"C20":"deterministic simulation: the same seeded work with injected failures repeated hundreds of times in one simulated process; live bytes and step count of each repetition compared",
}
N={
"C01":"Seeded search, not proof: for short documents every write call and every byte is tried, for long ones drawn ones. Trusts the sinks of the harness.",
"C02":"Seeded search over histories and interleavings at control-flow edges; sequentially consistent memory.",
"C03":"Seeded search over clock histories; the clock's own record of what it showed during the call is the oracle.",
"C04":"Seeded search; assumes the operating system's random bits do not repeat, and sees whether the library draws enough of them for every UID.",
"C05":"Seeded search; content compared through an independent RFC 5545 reader, the library's equality and the typed accessors.",
"C06":"Seeded search over histories; each component has one author; reference model holds what authors put in.",
"C07":"Seeded search; the reference reader is written from RFC 5545 and shares no code with the library.",
"C08":"Seeded search over framings applied by simulated hops.",
"C09":"Seeded search; every byte for short documents; kill points at control-flow edges of the writer.",
"C10":"Seeded search; effort measured in executed control-flow edges and allocations against a calibrated, generously padded bound; nesting depth bounded.",
"C11":"Seeded search over schedules; pre-emption at control-flow edges, allocations and seams; no weak-memory effects.",
"C12":"Seeded search over chunkings and failure points.",
"C13":"Seeded search over chunkings and failure points; serde_json is trusted.",
"C14":"Seeded search; 22 zones whose rules are written down independently of chrono-tz, instants concentrated around their transitions.",
"C15":"Seeded search over histories; pre-emption at control-flow edges.",
"C20":"Seeded search over what is repeated; 40 to 300 repetitions; growth below 8 bytes per repetition is not seen.",
}
pure="A pure function of its input: no schedule, clock, I/O, fault or second party for the property to depend on, so deterministic simulation has nothing to control; "
NA={
"C16":pure+"it is grammar conformance; known deviations are described in DESIGN.md.",
"C17":pure+"recursion depth on one input; the simulator bounds nesting in C10. A known limitation (recursive descent) is described in DESIGN.md.",
"C18":pure+"it is a matter of which strings setters accept; known deviations are described in DESIGN.md.",
"C19":pure+"it is a matter of reading one text; the current choice (first calendar wins) is described in DESIGN.md.",
}
m={"version":1,"setup_cmd":"./build.sh",
"checks":[{"property":k,"quick_cmd":f"VERIF_TIER=quick ./check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {k}","evidence_file":f"evidence/{k}.json","technique":T[k],"level":"exploration","level_note":N[k]} for k in T],
"not_applicable":[{"property":k,"reason":NA[k]} for k in NA],
"notes":"No hooks in /repo: every seam (clock, randomness, threads and their scheduling, standard output, allocation, streams) is taken below the library, by interposing libc symbols and by coverage call-backs the harness's own build adds when it compiles /repo/src. Replay a violation with: sim/target/x86_64-unknown-linux-gnu/release/icalsim replay <file>."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
