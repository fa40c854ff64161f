#!/usr/bin/env python3
"""Writes MANIFEST.json (run after changing the list of properties)."""
import json
T = "deterministic simulation with fault injection"
N = {
 "C01": ("seeded byte-source simulation, model-compared packet sequence", "Seeded search over streams and deliveries of the real reader against an independent encoder; the foreign bytes contain look-alike signatures and headers but no complete valid header. Sampled, not exhaustive."),
 "C02": ("seeded byte-source simulation, ignored-bytes history check", "Handlers' recorded calls are compared with the bytes generated between the packets, in order with the deliveries. Sampled."),
 "C03": ("seeded corruption at rest plus byte-source simulation", "Every untouched packet must come out once and in order; a touched one may not come out with foreign contents. Damage that keeps all CRCs valid is excluded. Sampled."),
 "C04": ("seeded hostile inputs under I/O and allocation budgets", "Panics, calls beyond a budget of source operations and allocations out of proportion are violations; built with overflow checks and debug assertions. Sampled."),
 "C05": ("seeded transient source errors, comparison with the error-free history", "Errors at seeded read calls of the source; the session's deliveries and ignored bytes must be those of the error-free stream. Sampled."),
 "C06": ("seeded faulty sinks, comparison with an independent encoder", "Every write operation into sinks with short, vectored, interrupted, zero-length and failing writes; bytes compared with the documented layout. Sampled."),
 "C07": ("seeded growing sources, whole-or-nothing check at every attempt", "Seekable and buffered sources that grow between the attempts; the missing count, the position and the item are checked at each one. Sampled."),
 "C08": ("seeded operation histories on a simulated medium, refinement of a list model", "Histories of inserts, reopens and queries with benign I/O faults against a list; bytes of the medium compared with the documented layout. Sampled."),
 "C09": ("seeded crash injection (kill and power loss) with repeated recovery", "Kills cut the write in flight at any byte; power loss keeps any subset and prefix of unflushed writes. flush() of the medium is taken as a barrier. Sampled."),
 "C10": ("seeded failing I/O calls of the medium, observation after recovery", "Any call of the medium may fail, partially or entirely; all observers are compared with the list of acknowledged packets afterwards. Sampled."),
 "C11": ("seeded interleaving of writer and readers at every I/O call", "Real writer and readers as tasks over one medium; counts, contents and reload results are checked against begun and acknowledged inserts. Sampled schedules."),
 "C12": ("seeded damage of a written storage, all queries against the list", "Bit flips, zeroed and overwritten ranges, truncation; misdirected data with valid CRCs is excluded. Sampled."),
 "C13": ("seeded schedules and kills of simulated processes over simulated libc files and flock", "std and fs4 run unmodified above simulated system calls; mutual exclusion and the final list of packets are checked. Sampled schedules; flock semantics of Linux are assumed."),
 "C14": ("seeded schedules in virtual time with clock jumps and failing system calls", "Result and virtual time of every open are checked against the lock's recorded history; liveness is bounded by one polling interval. Sampled."),
 "C15": ("seeded interleaving of watcher thread and owner at every atomic and system call", "Sequentially consistent interleavings of the real sensor over a simulated watcher; wakes are checked against the recorded file sizes and acknowledgements. Weak memory orders are not explored."),
 "C16": ("seeded rule sets over chunked streams and storages, model-compared decisions", "Recorded calls and decisions of the rules are compared with the model, in a stream and in a storage. Sampled."),
 "C17": ("seeded operation sequences over a chunked source, refinement of a byte queue", "Every result and counter is compared with a byte queue. Sampled."),
 "C20": ("seeded failing reads and seeks of the medium, results compared with the list model", "Openings, reloads, queries and single reads while calls of the medium fail; an answer is right or an error, and the reader answers exactly once the faults stop. Sampled."),
 "C21": ("seeded whole-chain simulation: writers, watcher and followers at every atomic and system call", "File storage, sensor and reader run together over simulated system calls and reports, with kills, restarts and failing calls; what each follower was handed is compared with the final storage. The follower acknowledges what it has read. Sampled schedules."),
}
NA = {
 "C18": "Decided by the macro expander at compile time as a pure function of the source text: no thread, clock, I/O or fault takes part, so there is nothing to schedule or inject.",
 "C19": "A pure function of the encoded value, with no schedule, time or fault to vary; moreover the hooks are not called by any code path of the pinned commit (see DESIGN.md).",
}
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "hooks": {
  "guard": "cfg brec_sim",
  "enable": "RUSTFLAGS=\"--cfg brec_sim\" (set by check.sh)",
  "source_commits": ["e32ec693d4a14ba6c20deb8636496d56df3ac26b"],
 },
 "checks": [{
   "property": k,
   "quick_cmd": f"bash check.sh {k}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {k}",
   "evidence_file": f"evidence/{k}.json",
   "technique": f"{T}: {t}",
   "level": "exploration",
   "level_note": n,
 } for k, (t, n) in N.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "One crate (sim/) holds the simulator; every check builds it against /repo's working tree and searches VERIF_SEED's runs. replay.sh FILE re-executes a violation. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
