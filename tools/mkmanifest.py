#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
from pathlib import Path
T = "deterministic simulation with fault injection: "
N = {
 "C01": ("seeded histories on a simulated sink (short writes, interruptions), acknowledged file decoded by an independent ORC reader and compared with the model",
         "Compares every acknowledged file with a reference model through an independent reader. Sampled, not exhaustive; trusts the reader, the model and the snap/zstd decompressors. Domain limits (timestamps year 1..9999, decimals up to precision 38) are in DESIGN.md."),
 "C02": ("seeded short-write and interruption schedules against the fault-free twin run, bounded work per call",
         "Byte comparison of a faulty run with the same history's fault-free run; work bound counted at the sink. Sampled."),
 "C03": ("seeded hard sink failures (errors, zero writes, sink panics, at section boundaries and inside) and client reactions, prefix invariant and no-false-acknowledgement checks",
         "Every failure placed is checked for being reported by the call in progress; what is acknowledged later is decoded and compared with the model. Sampled."),
 "C04": ("seeded crashes and losses of unflushed data, durable-image check, every durable prefix judged by the independent reader",
         "The simulated device keeps only flushed (or written-back) bytes. Crash points are sampled, biased to section boundaries, plus all stripe ends."),
 "C05": ("seeded histories on a simulated sink, layout accounting by the independent parser",
         "Every byte of an acknowledged file is attributed to exactly one section; counts compared with the model. Sampled."),
 "C06": ("seeded schemas and histories on a simulated sink, type tree compared with the declared schema",
         "Exact comparison of the declared and recorded schema, column ids checked in every stripe. Sampled."),
 "C07": ("seeded histories on a simulated sink, statistics recomputed from the model",
         "Statistics of every stripe and of the file recomputed from the committed rows. Sums that contain NaN are not judged. Sampled."),
 "C08": ("seeded histories on a simulated sink, seeks replayed at every recorded position",
         "Each row index entry's positions are used to seek and decode; statistics recomputed per row group. A recorded known finding covers columns nested below lists, maps, unions and nullable structs, where the recorded (own-value) grouping is checked instead. Sampled."),
 "C09": ("seeded histories and configurations on a simulated sink, chunk-level checker",
         "Every chunk of every section is checked for header, size bounds and content. Trusts the snap/zstd decompressors. Sampled."),
 "C10": ("seeded batch partitions around exact encoded sizes, sink observed after every call, live heap accounted",
         "What reaches the sink after each call is compared with the encoded size of the buffered rows measured from their own stripe; memory is accounted at the allocator. Sampled."),
 "C11": ("seeded client misuse (missing, surplus, misdeclared, uncommitted values, bad tags) and reactions, acknowledged files judged by the independent reader",
         "Every misuse must be rejected before finish acknowledges. Sampled over columns, depths, amounts, batches."),
 "C12": ("the same rows under seeded call schedules, batch partitions, simulated clocks, entropy and processes, byte comparison",
         "Byte equality of files across schedules with the same stripe cuts; clock and entropy are simulated and varied; a second process repeats a sample. Sampled."),
 "C14": ("seeded probing of column handles and requests for columns that are not there, between the calls of seeded histories with sink failures, paired with the same run without",
         "Every handle is compared with the declared schema; results and bytes are compared with a run that does not look around. Sampled."),
 "C15": ("seeded histories on a simulated sink, every metadata section (whole, and torn as by a crash) parsed by the crate's published types and compared with an independent parser",
         "Field-by-field comparison and byte equality of the re-encoded messages. Only messages that occur in written files; torn sections are only required to be handled without panic. Sampled."),
 "C16": ("seeded requests at and beyond the format's limits between the steps of simulated histories, judged refused or accepted, with the files around them judged by the independent reader",
         "A request is judged by what comes of it and by what reaches its own sink; blocks and levels at the limits are also written through with incompressible data. Sampled."),
 "C13": ("seeded interleavings of several writers over simulated threads with faults in a subset, compared with each writer run alone",
         "Control passes between writers at every API call and sink operation, and at sampled memory allocations in between, as the seeded scheduler decides (threads under a baton). Preemption elsewhere inside pure computation is not explored. Sampled."),
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
             "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(N.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: the writer's generic sink (std::io::Write) is the seam, clock and entropy are interposed in the simulator's executable, memory is accounted by its global allocator. Replay a violation with ./replay.sh FILE. Genuine defects are repaired by fix: commits or listed in known_findings.txt.",
}
Path(__file__).resolve().parent.parent.joinpath("MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
