import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
done=sys.argv[1].split(',')
tech="deterministic simulation with fault injection: seeded search over faults and schedules, violations replayed from a minimised choice tape"
note={
'C01':"seeded sampling of damaged and hostile streams on one simulated machine; step and memory quotas bound time and space",
'C02':"seeded sampling of crash points, torn tails and stale bytes on a simulated append-only disk, compared with a reference model of the records",
'C03':"seeded sampling of delivery groupings and interleavings of streams, refinement against a one-shot load and a reference model",
'C04':"seeded sampling of preemptive interleavings at instruction granularity, checked against a sequential value-semantics model and allocator conservation",
'C05':"seeded sampling of preemptive interleavings of call programs, compared with the same calls run alone; panicking and failing neighbours",
'C06':"twin simulated machines that differ in entropy, heap layout and history run the same calls; their observation logs must agree",
'C07':"injected panics, cancellations and errors at drawn callbacks; allocator conservation per iteration and memory-to-text proportion",
'C08':"seeded sampling of damaged pieces in a stream, compared with a loader that never saw them",
'C09':"positions and messages recomputed independently for damaged, shortened, chunked and shifted streams",
'C10':"peers that fail at a drawn call; traces compared with undisturbed traces and with a reference trace",
'C11':"damaged number text read into every typed field, compared with an independent exact interpretation",
}
na="a pure function of the input text or value in a single-threaded, I/O-free call: no schedule, clock, message, fault or history for a simulator to control, so this family has nothing to decide here"
m={"version":1,"setup_cmd":"bash sim/setup.sh",
"checks":[{"property":p,"quick_cmd":f"VERIF_TIER=quick ./check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p}","technique":tech,"level":"exploration","level_note":note[p],"evidence_file":f"evidence/{p}.json"} for p in done],
"not_applicable":[{"property":p['id'],"reason":na if p['id']>='C12' else "check under construction"} for p in props if p['id'] not in done],
"notes":"One binary, ypsim, built by sim/setup.sh from /repo's working tree. Replay: target/debug/ypsim replay <file>. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
