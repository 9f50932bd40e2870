import json
NOTE_BASE="The library is compiled with overflow checks and debug assertions and runs for real; panics, aborts, hangs and dead background threads are observed. Evidence is what the monitors saw on the executions of this run: nothing is claimed for executions that were not run. "
STORE="Trusts the serdo/SQLite store beneath (it runs for real). "
T={
"C01":("runtime monitoring: undo monitor over random edit sessions",STORE+"Random sessions against a log of recorded states."),
"C02":("runtime monitoring: redo monitor over random edit sessions",STORE+"Random sessions against a log of recorded states."),
"C03":("runtime monitoring: reopen and copy monitor",STORE+"Close/reopen/save-as at random steps against the recorded states."),
"C04":("runtime monitoring under injected kills (SIGKILL)",STORE+"Process kills at random moments and around acknowledgements; power loss is not simulated; kills while the storage library drops undone edits are left out."),
"C05":("runtime monitoring: bar coverage monitor",STORE+"Created bars against an independent computation after every edit."),
"C06":("runtime monitoring: look-up monitor",STORE+"Look-ups against a linear scan of the listed content."),
"C07":("runtime monitoring: conversion monitor",STORE+"Conversions against exact 128-bit arithmetic."),
"C08":("runtime monitoring: event log checker",STORE+"Replays the recorded notifications onto a mirror."),
"C09":("runtime monitoring: reference model of edits",STORE+"Content after every edit against an independent reference."),
"C10":("runtime monitoring: reference player",NOTE_BASE and "Generated tunes of the documented grammar against an independently written player; where the documents leave the second pass open both readings are accepted."),
"C11":("runtime monitoring: well-formedness and rejection monitor","Arbitrary mark sequences; crashes, malformed results and accepted contradictions are the observations."),
"C12":("runtime monitoring: tick-by-tick playback monitor","Rendered and arbitrary range lists; total played time fits 32 bits."),
"C13":("runtime monitoring over the exhaustively driven mark sets","All reachable mark sets and additions are driven; the space is finite and covered completely."),
"C14":("runtime monitoring: round-trip monitor","Random selections over all attributes."),
"C15":("runtime monitoring of hostile input: crash and legality monitor","Mutated and arbitrary texts; absence of crashes only for the texts tried."),
"C16":("runtime monitoring: round-trip monitor over serialised forms","Enumerable value types completely, projects at random."),
"C17":("runtime monitoring: shift monitor","Random selections; shifted ticks fit 32 bits."),
"C18":("runtime monitoring over exhaustively driven pitches","All combinations are driven; shifts at about 6000 distances each."),
"C19":("runtime monitoring over exhaustively driven keys and pitches","All keys and pitches are driven."),
"C20":("runtime monitoring: attribute recomputation","All durations, random trimmers, rates and notes; start ticks fit 32 bits."),
"C21":("runtime monitoring: tuplet monitor","Random selections; starts compared within three ticks (whole ticks are used at every step)."),
"C22":("runtime monitoring: snapping monitor","Grids to 2000 and random ones, ticks to 2^62 around lines and half-way points."),
"C23":("runtime monitoring of hostile input: validation monitor","Every integer around the ranges and random texts, with random changes."),
"C24":("runtime monitoring: list-and-cursor model","Random histories on stores of capacity 0 and up, compared after every operation."),
"C25":("runtime monitoring: attribute comparison of edited items","Random items, amounts at and around the limits."),
"C26":("runtime monitoring over exhaustively driven constructors","Every 8- and 16-bit number; 32-bit and floating numbers at random and at the limits."),
"C27":("runtime monitoring: concurrent sessions against solo runs",STORE+"2 to 5 concurrent sessions with injected delays, run once more in a build under ThreadSanitizer (std, SQLite and all crates instrumented; three functions of SQLite with benign double-checked reads are suppressed by name)."),
"C28":("runtime monitoring: equality monitor","Random pairs built by different roads, alike but for one attribute, or with exchanged attributes; 61 interned values a case."),
"C29":("runtime monitoring: monitor of warnings and errors against the marks","Random, damaged and systematically enumerated mark lists; which rejection is given when several apply is left open."),
"C30":("runtime monitoring: monitor of error payloads","Every byte, pair of bytes, pitch, step, toggle and key; shifts within 80 positions and at the ends of 32 bits; octaves and texts at random."),
"C31":("runtime monitoring: differential monitor against an independent description of the stored form","Every enumerable value; random contents; random histories written by the independent writer and by the code. The undo store's own tables are serdo's."),
"C32":("runtime monitoring: round-trip monitor of shown texts","Complete for the small types; locations and grids of any size and places in random tunes sampled."),
"C33":("runtime monitoring: online oracle over the last time through a tune, from its marks and from its playing order","Random and few-mark tunes, sampled; the exact set without a jump is judged only on structured tunes."),
}
checks=[]
for i in range(1,34):
    id="C%02d"%i
    t,n=T[id]
    checks.append({"property":id,"quick_cmd":"./check.sh %s quick"%id,"thorough_cmd":"./check.sh %s thorough"%id,"evidence_file":"evidence/%s.json"%id,
      "technique":t,"level":"fault_enumeration" if id=="C04" else "exploration","level_note":n+" "+NOTE_BASE.strip()})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":[]},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
