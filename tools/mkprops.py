import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Undo restores exactly the project that was there before the edit",
"Whatever sequence of edits a user makes on a project (adding, pasting, moving or rewriting, removing and tupletising notes, bars, tempos and pedal changes, and setting the project's rhythm, key or grid), undoing the latest edit brings back exactly the content that was there before it, including bars the edit created on its own, items it replaced because they sat at the same tick, and repeated or already absent items in its arguments. Undoing repeatedly walks back through every earlier state, step by step, as far as the edits retained by the configured undo limit, and undo is offered exactly while such an edit exists.",
["histories","inputs"],"All edit histories over all item contents (ticks up to about ten million), all undo limits, all interleavings of edits and undos.",
"The unit tests undo a handful of one- or two-step scripts with hand-picked items; none mixes item kinds, collisions at a tick, duplicate arguments and auto-created bars in a long history.",
["src/project.rs","src/models.rs","src/note.rs","src/trimmer.rs"],
[("ProjectCmd::undo / ModelChanged{added,removed}","src/project.rs"),("removed/added bookkeeping of add_*, bulk_add, bulk_remove, change, tuplize","src/project.rs"),("equality-based removal of notes after the command went through serialisation","src/note.rs, src/trimmer.rs")],
["Project trait: rhythm(), key(), grid(), *_repo() after undo()","UndoStore::can_undo"])

p("C02","Redo re-applies exactly what was undone, and a new edit discards it",
"After any number of undos, redoing brings back, step by step, exactly the states that were undone, and any walk back and forth through the history always shows the same content at the same position. Redo is offered exactly while there is an undone edit, and making a new edit after undoing discards the undone edits for good.",
["histories","inputs"],"All edit histories with all interleavings of edit, undo and redo; undo limits of at least one.",
"Existing tests redo one command after one undo on tiny projects; the agreement between the first application of an edit and its re-application is never compared over mixed histories.",
["src/project.rs"],
[("ProjectCmd::redo agreeing with the closures passed to mutate()","src/project.rs")],
["Project trait getters after redo()","UndoStore::can_redo"])

p("C03","A saved project reopens with the same content and the same history",
"Closing a project and opening it again from the same place shows exactly the content it had when it was closed, whatever edits, undos and redos led there and however many edits were trimmed by the undo limit. The reopened project can still be undone and redone through the edits that were retained, showing the same states as before, and a copy made with save-as opens to the state at the time of the copy.",
["histories","inputs"],"All edit/undo/redo histories with at least one edit, closed or copied after any step; undo limits small enough to trim and large enough not to.",
"The tests reopen a store once or twice after one edit; the replay of recorded commands or of a snapshot on top of trimming is not compared with the live project over real histories.",
["src/project.rs","src/models.rs","src/note.rs","src/trimmer.rs","src/pitch.rs"],
[("ProjectCmd serialisation and redo as the replay function","src/project.rs"),("ProjectImpl <-> ExportedProject snapshot conversion","src/project.rs")],
["SqliteUndoStore::open(...).model() compared with the state recorded before close / save_as"])

p("C04","A crash loses at most the unsaved tail of the edit history",
"If the program is killed at any moment during an editing session, then (once the stale lock is removed) the project opens again and shows exactly a state the session had passed through. That state is no older than the last edit the session had reported as saved, and the reopened project can be edited, undone and closed like any other.",
["crash_points","histories"],"All kill points (SIGKILL of the editing process, at random moments and right after each acknowledgement) of sessions whose edits fit within the undo limit (kills during the moments in which the storage library is dropping undone edits are left out: it does that in several steps, which this repository does not control).",
"No existing test kills the process; the recorded command log is only ever read back after an orderly close.",
["src/project.rs"],
[("each edit recorded as one self-contained serialised ProjectCmd whose redo is deterministic","src/project.rs")],
["state of the reopened store against the per-step state hashes the killed process had logged"])

p("C05","Bars are created automatically so that they always cover the music",
"After adding notes, tempos or pedal changes, pasting, changing items or making tuplets, the last bar lies at or after the end of every sounding note and the tick of every tempo and pedal change. The bars created for this continue from the last existing bar (or tick zero) at the bar length in force there, carry no rhythm, key or repeat marks, are no more than needed, and leave existing bars untouched; adding a bar, removing items and setting rhythm, key or grid create none.",
["histories","inputs"],"All project contents and edits with ticks up to about ten million and any rhythm, including notes whose length is trimmed, tied tuplets and bars that change the rhythm.",
"Tests check replenishment for a few single additions in 4/4 or 3/4; the maximum over all item kinds and trimmed note lengths is not sampled.",
["src/project.rs","src/note.rs","src/rhythm.rs"],
[("replenish_bars, note_max_end_tick","src/project.rs"),("LONGEST_TICK_LEN look-back window","src/note.rs")],
["bar_repo() before and after each edit"])

p("C06","Look-ups at a tick return the value in force there",
"At every tick the project reports the tempo, damper and soft pedal values of the latest change at or before that tick (120 and 0 before the first one), and the rhythm and key of the latest bar at or before that tick that sets one (the project's own before that). The number of a bar is its zero-based position in tick order, and unknown bars have none.",
["histories","inputs"],"All projects reachable by edits and undos, all ticks including just before, at and just after each change, zero and the maximum.",
"Tests look up a few ticks in projects with two or three hand-placed changes.",
["src/project.rs"],
[("tempo_at, ctrl_chg_at, rhythm_at, key_at, bar_no","src/project.rs")],
["Project trait look-ups against a linear scan of the repositories"])

p("C07","Locations and ticks convert consistently, with overflow reported",
"Converting a tick to a bar:offset location and back gives the same tick, later ticks never get earlier locations, and the location names the last bar at or before the tick with the distance from it (bar zero before the first bar). A location past the last bar is extrapolated with the bar length in force at the end, and any location whose tick does not fit in 32 bits is reported as an overflow error; no location makes the conversion fail otherwise.",
["inputs","histories"],"All projects, all 32-bit ticks, all bar numbers and offsets up to the machine word maximum.",
"Tests convert about a dozen fixed locations; none uses offsets near the integer limits or projects edited over a history.",
["src/project.rs","src/location.rs"],
[("location_to_tick, tick_to_location","src/project.rs")],
["Project::location_to_tick / tick_to_location"])

p("C08","Change notifications are a faithful record of every content change",
"Replaying the recorded change notifications of each item kind, in order, onto a copy of the content at the time they were last cleared always yields the current content exactly, through edits, undos and redos alike. Notifications of an edit carry its selection request (or none, if it made none) and tell whether it was the outcome of a drag; for notes, tempos and pedal changes this also goes for its undo and redo. Clearing empties them without touching the content.",
["histories"],"All histories of edits, undos, redos and clears.",
"Tests inspect the notification list after single edits; a view that relies on it sees whole histories, including undo and redo.",
["src/project.rs"],
[("metadata and repository events emitted by each edit, undo and redo","src/project.rs")],
["note_events/bar_events/tempo_events/dumper_events/soft_events replayed onto a mirror"])

p("C09","Every edit does exactly what was asked and nothing else",
"An edit adds, removes or replaces exactly the items it names: notes accumulate as a bag at their sounding start, bars, tempos and each pedal hold at most one item per tick with the newest winning, a change moves exactly those items that are present to their new form, and removing or changing absent items has no effect. Items, kinds and project settings that an edit does not name (apart from automatically created bars) are unchanged, and setting rhythm, key or grid changes only that setting.",
["histories","inputs"],"All histories over all item contents, with collisions between new, old and changed items at a tick, equal notes, swaps and chains of changes.",
"Tests look at the one repository an edit is about, after one edit.",
["src/project.rs","src/models.rs"],
[("Project implementation of add_*, bulk_add, bulk_remove, change, tuplize, set_*","src/project.rs")],
["full content after each edit against an independently written reference project"])

p("C10","The playing order follows the documented repeat rules",
"For every tune whose marks follow the documented structure, the rendered sequence of tick ranges is the documented playing order: repeats twice, variations with the common part before each ending, and with D.C. or D.S. everything up to that mark, then once more from the start or Segno with repeats once, last endings only, skipping between the two codas and ending at Fine (otherwise playing on to the open end). For D.C. without Segno the second pass starts at the second bar when the first bar is an upbeat and the bar ending at D.C. has full length, and at the top when the upbeat and that bar complement each other or there is no upbeat.",
["inputs"],"All documented structures: any sequence of plain, repeat and 2- to 4-ending variation regions of any bar lengths and rhythms, explicit or implicit first repeat start, optional D.C./D.S./Segno/Fine/Codas at every documented position, with and without upbeat.",
"About thirty fixed tunes are tested, none with an upbeat whose last bar complements it and few combining codas, variations and repeats.",
["src/repeat.rs","src/global_repeat.rs","docs/repeat/order.md","docs/repeat/structure.md"],
[("render_region state machine","src/repeat.rs"),("GlobalRepeatBuilder and iter1 interval set","src/global_repeat.rs")],
["render_region(...).to_chunks() against an independent player that walks the marks"])

p("C11","Rendering any bars ends in a well-formed result or a typed error",
"For any bars in tick order with any combination of marks, rendering returns either a result or an error value and never crashes. A result consists of tick ranges that do not run backwards, plays only from positions of the tune up to its open end, and plays the whole tune at least once in order when there is no D.C. or D.S.; contradictory marks (repeat start inside a repeat, repeat end without a start, unclosed repeat or variation, endings out of order within a repeat, a Segno in an ending before the last, a second D.C./D.S., Fine or Segno, more than two codas, D.S. without Segno, with D.C. or D.S. a Fine before the second coda, D.C. or D.S. inside a repeat) are always rejected.",
["inputs"],"All finite bar lists with strictly increasing ticks from zero, with any of the 2048 mark sets on any bar.",
"Tests feed valid tunes and about twenty specific mistakes; mark combinations at tick zero or in unusual order are not reached.",
["src/repeat.rs","src/global_repeat.rs"],
[("render_region errors","src/repeat.rs"),("GlobalRepeatBuilder::on_bar/build/to_interval_set","src/global_repeat.rs")],
["Result and chunks of render_region under catch_unwind with overflow checks"])

p("C12","Score ticks map to played time according to the rendered order",
"For a rendered sequence of tick ranges, the played time of the n-th occurrence of a score tick is the total length of the ranges before that occurrence plus the distance into it, and asking for an occurrence that does not exist reports how many there are. Merging adjacent ranges changes neither the order in which ticks are played nor any played time, and leaves no two ranges that could still be merged.",
["inputs"],"All range sequences, overlapping and repeated, ending in an open range or not, all ticks, all iteration numbers (clamped to 1..5).",
"A few fixed lists are tested; the n-th occurrence with overlapping ranges and large ticks is not.",
["src/repeat.rs","src/play_start_tick.rs","src/play_iter.rs"],
[("Chunk::optimize, Chunk::by_accum_tick","src/repeat.rs"),("PlayStartTick::to_accum_tick","src/play_start_tick.rs")],
["returned accumulated ticks against a tick-by-tick playback"])

p("C13","Repeat marks on a bar combine only where allowed, with conflicts reported",
"Adding a mark to a bar's marks either yields exactly the old marks plus the new one or reports the non-empty set of existing marks that forbid it, and removing those marks makes the addition succeed. No sequence of additions can put two different endings, an ending with a repeat start or end, or a repeat start with D.C. or D.S. on one bar, and removing a mark or all endings removes exactly those.",
["inputs","histories"],"All sequences of additions and removals of the eleven marks.",
"Tests try a handful of pairs out of all reachable sets and additions.",
["src/bar.rs"],
[("RepeatSet::try_add and *_DISLIKE tables, remove, remove_resions, region_index","src/bar.rs")],
["RepeatSet contents via contains()/len() after each step"])

p("C14","Copying to the clipboard and pasting back is lossless",
"Text produced for the clipboard from any selection of notes, bars, tempos and pedal changes parses back to an equal selection whose items also behave the same (start tick, length, velocity, pitch). The text carries the current version number, and the same content is accepted by the reader of whole exported projects when the optional key and rhythm are present or absent.",
["inputs"],"All selections of items with all attribute combinations, including extreme trimmers and rates.",
"One fixed selection is round-tripped by the tests.",
["src/models.rs","src/exported_project.rs","src/note.rs","src/trimmer.rs","src/pitch.rs"],
[("to_clipboard_text / from_clipboard_text","src/models.rs, src/exported_project.rs"),("derived fields rebuilt on deserialisation","src/trimmer.rs, src/pitch.rs")],
["Models equality and derived values after a round trip"])

p("C15","No clipboard text can crash the program or smuggle in invalid items",
"Reading any text whatsoever as clipboard content or as an exported project returns either items or a typed error (empty, wrong version, version not a number, unparsable) and never crashes. Whatever is accepted contains only legal values: pitches within the MIDI range, velocities up to 127, channels below 16, at most seven dots, tempos 1 to 999, keys within seven accidentals, rhythm numerators 1 to 99, and every accepted item can be evaluated (start, length, velocity) without crashing.",
["inputs"],"All texts: random bytes, mutations of genuine clipboard texts, structurally valid JSON with boundary and out-of-range numbers.",
"Tests cover five malformed texts; out-of-range but well-formed values are not tried.",
["src/models.rs","src/exported_project.rs","src/pitch.rs","src/channel.rs","src/duration.rs","src/key.rs","src/rhythm.rs","src/trimmer.rs"],
[("version check and error mapping","src/models.rs, src/exported_project.rs"),("validating deserialisation of value types","src/pitch.rs and others")],
["from_clipboard_text under catch_unwind with overflow checks"])

p("C16","A project survives serialisation unchanged in every supported form",
"Serialising a project (rhythm, key, grid and every item) and reading it back, in the binary form used for snapshots or as JSON, yields a project with the same content and the same observable behaviour. Every single value of every item kind and setting does so too, including all pitches, durations, trimmers, rates, mark sets, keys, rhythms and grids.",
["inputs"],"All projects reachable by edits; all values of each value type, exhaustively where the type is small.",
"A few single values are serialised by the tests; a full project and the enumerable types are not.",
["src/project.rs","src/models.rs","src/trimmer.rs","src/pitch.rs","src/duration.rs","src/tempo.rs","src/velocity.rs"],
[("From/Into ExportedProject","src/project.rs"),("serde(from=...) forms rebuilding derived fields","src/trimmer.rs, src/pitch.rs, src/tempo.rs, src/velocity.rs, src/duration.rs")],
["canonical content before and after"])

p("C17","Pasting at a tick shifts the selection rigidly",
"Moving a selection to a tick places its earliest item (by untrimmed tick) exactly there and shifts every other item of every kind by the same distance, so that all distances and the order are kept. Nothing but the ticks changes, and an empty selection stays empty.",
["inputs"],"All selections mixing all five item kinds in any order and any target tick for which the shifted ticks fit in 32 bits.",
"One fixed selection moved once is tested.",
["src/models.rs"],
[("Models::move_to_tick","src/models.rs")],
["returned Models against the input"])

p("C18","Pitch arithmetic is consistent over the whole range",
"Every combination of note name, octave and accidental either is a pitch whose MIDI number and staff position follow from it, or is rejected as too low or too high exactly when its MIDI number leaves 0 to 127. Moving up or down a step and shifting by staff positions change the staff position by exactly that amount and keep the accidental, up and down are inverse where both exist, and toggling sharp, flat or natural cycles through its own accidentals back to none keeping name and octave; a move fails exactly when its result would not be a pitch.",
["inputs"],"All 462 combinations, all toggles, all shifts by any amount.",
"Tests sample a few pitches around the limits.",
["src/pitch.rs","src/octave.rs","src/solfa.rs","src/sharp_flat.rs"],
[("Pitch::value_of, up/down, with_score_offset_delta, toggle_*","src/pitch.rs"),("Octave::value_of/from_score_offset","src/octave.rs")],
["Pitch results against arithmetic on integers"])

p("C19","A key signature alters exactly the notes it names",
"Applying a key signature with n sharps or flats raises or lowers by a semitone exactly the naturals among the first n notes in the order of sharps F C G D A E B or of flats B E A D G C F, and only those written without an accidental. All other pitches are returned unchanged, and an error results exactly when the altered pitch would leave the MIDI range.",
["inputs"],"All 15 keys and all pitches.",
"Tests sample keys and note names, without octave limits or every accidental.",
["src/key.rs","src/pitch.rs"],
[("Key::SOLFAS","src/key.rs"),("Pitch::apply_key","src/pitch.rs")],
["Pitch::apply_key over the full product"])

p("C20","The sounding start, length and loudness of a note follow its attributes",
"A note starts at its base tick plus the sum of its start trimmers but never before zero, sounds for the nominal length of its duration (note value, dots and tuplet) scaled by the product of its rate trimmers limited to 200 percent, and has its base velocity plus the velocity trimmers limited to 0..127. Adding to a trimmer changes its total by exactly that amount unless all four parts saturate, and however a trimmer or rate was built (parts, list, update, deserialised) equal parts give equal totals.",
["inputs"],"All durations, trimmer and rate values including the extremes of their types.",
"Tests use small trimmers; sums beyond 16 bits and ways of construction are not compared.",
["src/note.rs","src/duration.rs","src/trimmer.rs","src/percent.rs","src/velocity.rs"],
[("Note::start_tick/tick_len/velocity","src/note.rs"),("Duration::tick_length","src/duration.rs"),("Trimmer/RateTrimmer constructors and sums","src/trimmer.rs")],
["getters against wide-integer arithmetic"])

p("C21","Making a tuplet squeezes the selected notes evenly and alters nothing else",
"Making a tuplet of notes keeps every note with all its attributes except its start and its tuplet divisor: the first start is kept, notes that started together still start together, order is kept, and all get the divisor given by their total length counted in the greatest common unit. The starts are spaced in proportion to the written lengths within the compressed total (two thirds for three equal notes), and a selection that forms fewer than two units or needs a divisor that does not exist is returned unchanged.",
["inputs"],"All non-empty selections of notes, single or in chords, of any durations, in any order.",
"Tests use five or six fixed selections, no chords in the tuplet and no large divisors.",
["src/tuple.rs","src/duration.rs"],
[("tuplize, sort_by_start_tick, total_tick_unit","src/tuple.rs")],
["returned notes against an independent computation"])

p("C22","Snapping to the grid goes to the nearest grid line",
"Snapping a tick gives a multiple of the grid that is no further away than any other multiple (up to rounding of half an odd grid), with ties going away from zero, and a tick on the grid is unchanged. Snapping preserves order and mirrors for negative ticks; a grid of zero or of something that is not a number cannot be made from text or number.",
["inputs"],"All grids from 1 to the 32-bit maximum, all ticks in the 32-bit range and beyond, all texts.",
"A few grid/tick pairs are tested.",
["src/grid.rs"],[("Grid::snap, Grid::value_of, Grid::from_u32","src/grid.rs")],["Grid::snap against exact distances"])

p("C23","Typed-in text is validated without crashing and always matches the field",
"Any text typed into an optional location, offset, tempo, velocity, rhythm numerator, tuplet divisor or percentage field yields no value (for empty text), the legal value nearest to the number the text denotes, or an error, and never crashes. After any sequence of changes to the text, the reported validation result is that of the current text.",
["inputs","histories"],"All texts (digits of any length and script, signs, spaces, fractions, special floats), all sequences of changes.",
"No test covers the input fields beyond a location parse; numbers out of range are not tried.",
["src/text_input.rs","src/location.rs","src/tempo.rs","src/percent.rs","src/rhythm.rs"],
[("FromStr for Validated<...>","src/text_input.rs"),("TextInput::mutate","src/text_input.rs"),("parse_location","src/location.rs")],
["validation results under catch_unwind against independent parsers"])

p("C24","The in-memory undo history behaves as a bounded linear history",
"The in-memory undo history returns undone changes newest first and redone ones in the reverse order, drops undone changes when a new one is recorded, and keeps only the newest changes up to its capacity. While frozen it records nothing, and whether undo or redo is available is always exactly whether the next call would return a change.",
["histories"],"All sequences of record, undo, redo and freeze for all capacities of at least one.",
"The tests run a few fixed scripts with capacity up to three.",
["src/undo.rs"],[("UndoStore::add/undo/redo/freeze","src/undo.rs")],["returned changes and can_undo/can_redo/len/iter against a list with a cursor"])

p("C25","Editing one attribute of an item leaves all others alone and stays in range",
"Stepping a note's pitch, changing its duration or dots, toggling accidentals or ties, nudging or dragging items in time, and stepping or dragging tempos change only the attribute concerned by exactly the requested amount, and toggling a tie cycles through its four states. An edit whose result would be illegal (before tick zero when nudged, dots outside 0..7, pitch or tempo out of range when stepped) is refused, and a drag that would leave the legal range of ticks, tempos or pitches stops at its limit.",
["inputs"],"All items, all deltas, including sequences of such edits.",
"Tests apply a few deltas to default items and look at one attribute.",
["src/note.rs","src/bar.rs","src/tempo.rs","src/ctrl_chg.rs"],
[("Note::with_*/up/down/drag/add_dots/toggle_*","src/note.rs"),("drag/with_tick_added","src/bar.rs, src/tempo.rs, src/ctrl_chg.rs")],
["item before and after, attribute by attribute"])

p("C26","Every value type only ever holds legal values",
"Octaves, note names, dots, tuplet divisors, rhythm parts, tempos, velocities, channels, percentages and iteration numbers can only be built with values in their documented range: out-of-range input is refused with an error or limited to the nearest legal value, consistently and without crashing where an error is the documented outcome. Default values are legal too, and alter nothing where such a value exists (no dots, tuplet, trimming, marks or accidentals). Stepping moves by exactly one or is refused at the end of the range, conversions to and from numbers are inverse to each other, and scaling by a percentage or clipping to a range gives the exact integer result.",
["inputs"],"All values of the underlying number types (exhaustively for 8 and 16 bits).",
"Tests check single values at some limits.",
["src/octave.rs","src/solfa.rs","src/duration.rs","src/rhythm.rs","src/tempo.rs","src/velocity.rs","src/channel.rs","src/percent.rs","src/play_iter.rs","src/clipper.rs","src/bar.rs"],
[("from_value/value_of/safe_new/new/up/down","the value type modules")],
["constructors and getters over their whole domain"])

p("C27","Projects open at the same time do not influence each other",
"Several projects edited at the same time from different threads, each with its own background saving, end up in exactly the state each reaches when edited alone, and reopen to it. No data race or memory error occurs in doing so, whatever the interleaving of editing and saving threads.",
["schedules","histories"],"All interleavings of several concurrent sessions and their background savers, with injected delays.",
"All tests use one store at a time and never look at interleavings with the saver thread.",
["src/project.rs"],
[("no shared mutable state between stores; command channel to the saver thread","src/project.rs")],
["final and reopened states of concurrent sessions against solo runs; ThreadSanitizer / AddressSanitizer reports"])

p("C28","Values are equal exactly when everything they show is equal",
"Two notes, bars, tempos, pedal changes, or parts of them (pitch, duration, trimmers, rates, percentages, marks, rhythm, key, grid, velocity, channel) are equal exactly when every attribute a user can see or set on them is equal, whichever way each was built and even where derived totals coincide. Equal values have equal hashes, tempos are ordered by their number, and interning returns for every value the first equal one handed in.",
["inputs"],"All pairs of values of each type, built through any constructor, edit or serialised form.",
"Tests compare a handful of values; edits find the items to remove or change by equality, so a coincidence of totals would make an edit hit another item.",
["src/trimmer.rs","src/percent.rs","src/note.rs","src/pitch.rs","src/duration.rs","src/bar.rs","src/tempo.rs","src/ctrl_chg.rs","src/fly_weight.rs"],
[("PartialEq/Hash for Trimmer, RateTrimmer, PercentU16","src/trimmer.rs, src/percent.rs"),("derived equality of the item types","src/note.rs, src/bar.rs, src/tempo.rs, src/ctrl_chg.rs"),("FlyWeight::intern","src/fly_weight.rs")],
["==, !=, hashes and order of pairs against their attributes one by one"])

p("C29","Rendering reports name the marks that are really at fault",
"Rendering a tune with a single D.C. that also has one Segno, or that has only one coda, yields a warning for each that names exactly those ticks (provided there is a bar after the top), and any other rendered tune yields no warning. With D.S. and only one coda a tune is never rendered, and every rejection is true of the tune: the marks it names stand at the ticks it names, doubled marks are the first ones of their kind in tick order, and an unclosed repeat or ending is really left open.",
["inputs"],"All lists of bars in tick order with mark sets that can be built by adding marks.",
"Tests look at a few warnings and errors; which of several contradictory marks is named depends on the order of marks over the whole tune.",
["src/repeat.rs","src/global_repeat.rs"],
[("RenderRegionError, render_region","src/repeat.rs"),("RenderRegionWarning, GlobalRepeatBuilder","src/global_repeat.rs")],
["the warnings and the error value of render_region against the marks of the bars"])

p("C30","Refusals report the very value that was refused",
"When a value is refused, the error carries what was refused: the octave, channel, key, beat count, beat unit, number of dots or ending asked for, whichever constructor was asked; for a pitch that does not exist its name, octave, accidental and number, and the side on which it leaves the range; for a shift off the staff the position aimed at (nearest 32-bit number); the text typed; the version number found in a pasted text, or the whole text if it cannot be read. A number out of range and an unreadable text are told apart. Different repeat marks show different text.",
["inputs"],"All numbers, pitches, shifts, typed and pasted texts that are refused.",
"Tests check that a handful of values are refused, and the payload of two errors.",
["src/octave.rs","src/pitch.rs","src/rhythm.rs","src/bar.rs","src/grid.rs","src/channel.rs","src/key.rs","src/duration.rs","src/text_input.rs","src/models.rs","src/exported_project.rs"],
[("OctaveError, PitchError","src/octave.rs, src/pitch.rs"),("NumeratorError, DenominatorError, RhythmError","src/rhythm.rs"),("VarIndexError","src/bar.rs"),("GridError","src/grid.rs"),("DurationDenominatorError","src/text_input.rs"),("FromClipboardTextErr","src/models.rs")],
["payload of every error against the value handed in"])

p("C31","What the pinned release stored is read as it was meant, and the reverse",
"The stored form of everything is that of the pinned release, in both directions: bytes and texts that release stored for a value, an item, a selection, an exported project, a project or an edit are read as exactly that content, and what is stored now was read by that release as exactly that content. A project directory made by either opens in the other at the state it was left in, and can be walked through its whole history, back and forth, through the same states; a directory opened and edited further stays readable for both.",
["inputs","histories"],"All values, items, selections, projects and edits; all histories in stored directories.",
"Tests send single values through the code's own writer and reader, which agree with one another whatever the form is; a changed form would lose every project and clipboard text stored before.",
["src/project.rs","src/models.rs","src/exported_project.rs","src/bar.rs","src/note.rs","src/pitch.rs","src/duration.rs","src/rhythm.rs","src/trimmer.rs","src/tempo.rs"],
[("ProjectCmd, ExportedProject, ModelChangeMetadata","src/project.rs"),("Models","src/models.rs"),("derive(Serialize, Deserialize) of every item and value type","src/*.rs")],
["bincode bytes, JSON text and project directories against an independent description of the pinned form"])

p("C32","What is shown of a value, typed in again, gives back that value",
"The text shown for a location, grid, velocity, percentage, tempo, beat count, beat unit, tuplet divisor or offset, typed into the field for it (at once or letter by letter, after whatever stood there) or given to its parser, gives back exactly that value; and different values show different texts, names of notes and repeat marks included. The location shown for a tick of a tune, typed in, leads back to that tick.",
["inputs","histories"],"All values of the types, locations of any size, all ticks of all tunes.",
"Tests parse one location and show a few values; no test types in what is shown.",
["src/location.rs","src/grid.rs","src/percent.rs","src/velocity.rs","src/rhythm.rs","src/duration.rs","src/text_input.rs","src/solfa.rs","src/bar.rs","src/project.rs"],
[("Display, ToString, to_string","src/location.rs, src/grid.rs, src/percent.rs, src/velocity.rs, src/rhythm.rs, src/duration.rs"),("FromStr for Validated<...>, TextInput","src/text_input.rs"),("tick_to_location, location_to_tick","src/project.rs")],
["every shown text read back"])

p("C33","What is reported to be played last is what is played last",
"For a rendered tune the set of ticks reported for its last time through is exactly what is played then: with a D.C. or D.S. it is everything played after the jump - repeats once, only the last of numbered endings, up to Fine, without what a coda skips - and the playing order ends with exactly that set in rising order; without a jump it is the whole tune with every repeat once and only the last endings, all of it played, and it reaches the open end. The set is in rising order without overlaps.",
["inputs"],"All lists of bars in tick order with mark sets that can be built by adding marks and that are rendered.",
"No test asks for this set; the playing order is built from it, and a wrong merge of it drops or doubles bars in some combination of repeats, endings, Segno, Fine and coda.",
["src/repeat.rs","src/global_repeat.rs"],
[("to_iter1_interval_set of every region","src/repeat.rs"),("to_chunks, GlobalRepeat","src/repeat.rs, src/global_repeat.rs")],
["the interval set against the marks of the bars and against the end of the rendered playing order"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
