#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are authored here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
T = "The 9 stable tests decode two good replays with plain std::fs reads on an idle machine; "
p('S01', 'Reading a replay does not depend on how the storage delivers its bytes',
  'For every replay file, every way the operating system may legally deliver it (short reads, interrupted calls, wrong or missing size hints, slow devices) gives exactly the same decoded header, match set-up, details, events, messages and timeline as one undisturbed read.',
  ['inputs','fault_sequences','schedules'],
  'All replays x all sequences of short reads, EINTR and size-hint lies on every read call.',
  T + 'none injects a short or interrupted read, and the file system of the test machine always returns the whole file at once.',
  ['src/lib.rs','src/init_data/mod.rs','src/state/mod.rs','src/details.rs'],
  [('whole-file read','src/lib.rs read_file'),('archive read','src/lib.rs read_mpq'),('init data entry','src/init_data/mod.rs TryFrom<(PathBuf,u64)>'),('timeline constructor','src/state/mod.rs SC2EventIterator::new')],
  ['return values of the readers'])
p('S02', 'A failing read is reported as an error, never as partial data or a crash',
  'If the operating system fails to open or to read a replay at any point, every reading entry point returns an error; it never returns a value, or a timeline, built from only part of the file, and it never panics.',
  ['inputs','fault_sequences'],
  'All replays x all positions at which open, stat or read can fail x all error codes.',
  T + 'no test makes a read fail.',
  ['src/lib.rs','src/init_data/mod.rs','src/state/mod.rs','src/details.rs','src/dir_stats.rs'],
  [('error propagation','src/lib.rs read_file, read_mpq'),('init data entry','src/init_data/mod.rs'),('timeline constructor','src/state/mod.rs SC2EventIterator::new'),('details entry','src/details.rs')],
  ['Result of the readers'])
p('S03', 'A damaged or truncated replay is contained',
  'Whatever storage does to a replay (truncation at any byte, flipped bits, zeroed, swapped or duplicated blocks, a replaced file), every reader ends with either a value or an error in bounded time and memory. It never panics, aborts, loops for ever or exhausts memory.',
  ['inputs','fault_sequences'],
  'All replays x all truncation points and corruptions of any layer (archive tables, compressed sectors, header, set-up, details, event streams).',
  T + 'the damaged inputs in them are a handful of short byte strings.',
  ['src/lib.rs','src/error.rs','src/versions','src/bit_packed_decoder.rs','src/versioned_decoder.rs','src/state/mod.rs','src/game_events/state.rs','src/tracker_events/state.rs','src/details.rs','src/protocol_version_decoder.rs'],
  [('nom parsers returning errors','src/versions/*'),('bounded preallocation','src/lib.rs MAX_INITIAL_CAPACITY_BYTES'),('iterator stop on error','src/*/iterator.rs get_next_event')],
  ['Result / panic / memory of every reader'])
p('S04', 'One bad replay never affects what a batch produces for the others',
  'When a directory holds unreadable, damaged, empty, foreign or vanishing files next to good replays, exports and directory statistics still succeed and report for every good replay exactly what they report when the bad files are absent.',
  ['inputs','fault_sequences','schedules'],
  'All mixes of good and bad files x fault position x processing order and worker schedule.',
  T + 'no test processes a directory at all.',
  ['src/arrow_store/mod.rs','src/dir_stats.rs','src/lib.rs'],
  [('per-file error filtering','src/arrow_store/mod.rs handle_arrow_ipc_cmd, handle_tracker_events, handle_game_events, handle_details_ipc_cmd'),('per-file error filtering','src/dir_stats.rs scan_path')],
  ['exported tables','statistics'])
p('S05', 'An export that reports success has written every row',
  'If an export of replays to tables returns success, every table file it was asked for is complete, readable and holds all rows; if any write, or creation of a table file, fails for good (full disk, I/O error), the export returns an error instead of success or a crash. Short or interrupted writes alone change nothing.',
  ['inputs','fault_sequences','schedules'],
  'All exports x every write/open call x ENOSPC, EIO, EMFILE, short writes, EINTR x worker schedule.',
  T + 'no test writes a table, let alone on a failing disk.',
  ['src/arrow_store/mod.rs','src/arrow_store/ipc_writer.rs'],
  [('writer guarded by a lock','src/arrow_store/ipc_writer.rs write_to_arrow_mutex_writer'),('finish on close','src/arrow_store/ipc_writer.rs close_arrow_mutex_writer')],
  ['Result of the export','bytes of the table files'])
p('S06', 'A killed export never leaves a complete-looking wrong table',
  'If the process is killed at any point of an export, every table file on disk is either absent, recognisably incomplete to a table reader, or complete with exactly the rows of the old or of the new export. Running the same export again afterwards succeeds and yields the same tables as an undisturbed run.',
  ['crash_points','schedules','inputs'],
  'All exports x every I/O operation as the kill point (before, after or in the middle of it) x prior content of the output directory.',
  T + 'no test kills an export.',
  ['src/arrow_store/mod.rs','src/arrow_store/ipc_writer.rs'],
  [('file creation truncates','src/arrow_store/ipc_writer.rs File::create'),('footer written last','src/arrow_store/ipc_writer.rs FileWriter::finish')],
  ['bytes of the table files after restart'])
p('S07', 'Parallel processing gives the same result as serial processing',
  'For every set of replays, every number of workers and every thread schedule, an export or a directory scan done in parallel yields, replay by replay, exactly the same rows in the same per-replay order, the same identities and the same statistics as done serially.',
  ['schedules','inputs','configurations'],
  'All thread interleavings x worker counts x hash seeds x replay sets.',
  T + 'they never run the parallel path, and on a real scheduler an interleaving cannot be chosen.',
  ['src/arrow_store/mod.rs','src/dir_stats.rs','src/arrow_store/ipc_writer.rs'],
  [('ordered parallel collection','src/arrow_store/mod.rs par_iter().enumerate()'),('lock around the table writer','src/arrow_store/ipc_writer.rs'),('parallel scan','src/dir_stats.rs scan_path')],
  ['exported tables','statistics'])
p('S08', 'All tables of one export agree on which match a row belongs to',
  'Within one export, each exported match has one numeric identifier, different matches have different identifiers, and rows of one match carry that same identifier, file fingerprint and match date in every table, whatever files were skipped and however the work was scheduled.',
  ['schedules','fault_sequences','inputs'],
  'All replay sets (with bad files and version limits) x schedules x file order.',
  T + 'no test joins tables.',
  ['src/arrow_store/mod.rs','src/init_data/mod.rs','src/details.rs','src/tracker_events/arrow_store','src/game_events/arrow_store'],
  [('identifier assigned per scanned file','src/arrow_store/mod.rs handle_arrow_ipc_cmd'),('identifier carried by details','src/details.rs TryFrom<&InitData>')],
  ['exported tables'])
p('S09', 'Directory statistics are correct and repeatable',
  'A directory scan counts every replay file found, every replay with readable set-up data and every replay whose version has ability data, and ranks the ten most frequent players and maps by exact number of replays. The same directory always gives the same answer, ties included, whatever the directory order, worker schedule or hash seed.',
  ['schedules','inputs','configurations'],
  'All directories x entry orders x schedules x hash seeds.',
  T + 'no test runs a scan; a repeated run in one process would reuse the same conditions.',
  ['src/dir_stats.rs'],
  [('frequency maps and ranking','src/dir_stats.rs scan_path')],
  ['returned statistics'])
p('S10', 'The merged timeline delivers every recorded event exactly once, in order',
  'For every replay, the timeline delivers each supported tracker and player event exactly once, with the recorded fields, its absolute loop (sum of all deltas, including those of unsupported events), the acting user and that user\'s lobby name. Events of each stream keep their recorded order and loops never decrease across the two streams.',
  ['histories','inputs'],
  'All pairs of event streams: any events, any deltas, any interleaving of the players and the tracker, unsupported events anywhere, both protocol families.',
  T + 'they look at a few fields of two recorded games; merge order, skipped events and long loops are not pinned.',
  ['src/state/mod.rs','src/tracker_events/iterator.rs','src/game_events/iterator.rs','src/versions'],
  [('two-way merge','src/state/mod.rs Iterator for SC2EventIterator'),('delta accumulation','src/*/iterator.rs read_versioned_*'),('skip unsupported','src/*/iterator.rs get_next_event')],
  ['items yielded by the timeline'],
  [('pending events','the head of each stream','src/state/mod.rs next_tracker_event/next_game_event')])
p('S11', 'Unit and player state follows the recorded history',
  'After every event of every history, the set of live units, each unit\'s name, owner, position, construction flag, selection flag, displayed size and current command, and each user\'s control groups, selection, camera and tracker identity are what the events so far say. In particular a dead unit is in no control group, stealing into a group takes the units out of all the user\'s other groups, and a unit is shown at twice its normal size exactly while it is selected.',
  ['histories','inputs'],
  'All event histories of any number of players over units that are born, built, morph, are selected, grouped, commanded, moved and die, with tag reuse.',
  T + 'they check no state transition beyond a handful of fields on two games.',
  ['src/tracker_events/state.rs','src/game_events/state.rs','src/state/mod.rs','src/state/unit_cmd.rs','src/state/unit_props.rs'],
  [('tracker transitions','src/tracker_events/state.rs'),('player transitions','src/game_events/state.rs')],
  ['state of the timeline after each item'],
  [('units','live units by index','src/state/mod.rs SC2ReplayState.units'),('user_state','control groups, selection, camera per user','src/state/mod.rs SC2UserState')])
p('S12', 'Filters only hide events, they never change the rest',
  'With any combination of filters, the filtered timeline is the unfiltered one with only the excluded items left out: the remaining items are identical and in the same order, and the state they show is the same. No item outside the requested player, unit, statistics or tracker-loop range is shown, no item inside is lost, and an event limit of n shows exactly the first n.',
  ['histories','configurations'],
  'All histories x all filter combinations.',
  T + 'no test uses a filter.',
  ['src/filters.rs','src/state/mod.rs','src/tracker_events','src/game_events/mod.rs'],
  [('filter after transition','src/state/mod.rs Iterator for SC2EventIterator'),('per-event predicates','src/tracker_events/*.rs should_skip')],
  ['items yielded with and without filters'])
p('S13', 'A timeline can be saved and resumed, or cloned, at any point',
  'If a timeline is serialised at any point, the process dies, and the saved form is loaded in a new process, the remaining items and states are exactly those the original would have produced; a clone behaves the same, and continuing one never affects the other.',
  ['crash_points','histories'],
  'All histories x every interruption point x filters in effect.',
  T + 'no test serialises a timeline.',
  ['src/state/mod.rs','src/tracker_events/iterator.rs','src/game_events/iterator.rs','src/filters.rs','src/init_data/mod.rs','src/details.rs'],
  [('serialisable iterator','src/state/mod.rs SC2EventIterator'),('stream cursors','src/*/iterator.rs')],
  ['items after resume'],
  [('byte and bit cursor','position in each stream','src/*/iterator.rs')])
p('S14', 'Independent readers in one process do not influence each other',
  'Any number of threads that read, step, filter or export different or the same replays at the same time each get exactly the results they would get alone, under every interleaving.',
  ['schedules','inputs'],
  'All interleavings of concurrent readers, scans and exports over the same and over different replays.',
  T + 'cargo test runs them in threads, but the interleavings are not controlled and the outcomes not compared.',
  ['src/state/mod.rs','src/lib.rs','src/versions','src/game_events/ability'],
  [('no shared mutable state','whole crate')],
  ['results per thread'])
p('S15', 'Exported tables hold exactly the rows of the recorded matches',
  'The details, statistics, upgrades, unit-born, unit-died, point-command and unit-command tables hold exactly one row per recorded player, statistics sample, upgrade, unit appearance, unit death and commanded unit, in recorded order within a match, with the recorded values and the owning player\'s name.',
  ['histories','inputs','schedules'],
  'All matches x export settings (version limits, file limits, serial or parallel).',
  T + 'no test exports anything.',
  ['src/arrow_store/mod.rs','src/state/mod.rs','src/tracker_events/arrow_store','src/game_events/arrow_store','src/details.rs'],
  [('row collection','src/state/mod.rs collect_into_*'),('row types','src/tracker_events/arrow_store, src/game_events/arrow_store, src/details.rs')],
  ['exported tables'])
p('S16', 'Replay discovery finds every replay within its limits',
  'Searching a directory returns every regular file with the replay extension down to the given depth, each exactly once, never more than the given number and never anything else, whatever the order, type hints or timing with which the file system lists entries; an unreadable directory is reported as an error, not as an empty one.',
  ['inputs','fault_sequences','configurations'],
  'All directory trees x depth and count limits x listing orders x listing faults.',
  T + 'no test searches a directory.',
  ['src/lib.rs'],
  [('recursive search','src/lib.rs get_matching_files')],
  ['returned paths'])
p('S17', 'Balance data written to disk reads back unchanged or is reported',
  'Balance data written as JSON and read back is equal to the original for every set of units and versions; a failing or full disk while writing, or a failing read, is reported as an error, and after a kill during writing the reader either reports an error or returns only complete, correct units.',
  ['inputs','fault_sequences','crash_points'],
  'All sets of versioned units x write/read faults x kill points x directory order.',
  T + 'the tests only load the embedded copy.',
  ['src/game_events/ability/balance_data/json_handler.rs'],
  [('one file per unit','src/game_events/ability/balance_data/json_handler.rs')],
  ['loaded balance data'])
p('S18', 'Loading exported balance XML is complete and order independent',
  'Loading a tree of balance XML files yields every well-formed unit of every version exactly once with its recorded abilities, whatever the order in which directories and files are listed and however the bytes are delivered; a failing read or listing is reported as an error, and an ill-formed file affects only itself.',
  ['inputs','fault_sequences','configurations'],
  'All trees x listing orders x read faults x ill-formed files.',
  T + 'no test loads XML from disk.',
  ['src/game_events/ability/balance_data'],
  [('tree traversal','src/game_events/ability/balance_data/mod.rs')],
  ['loaded balance data'])
p('S19', 'A damaged event stream costs only what lies behind the damage',
  'If one event stream of a replay is cut or becomes undecodable at some point, the timeline still delivers every event before that point exactly as in the undamaged replay, delivers the whole other stream in order, and then ends; it never invents, repeats or alters an event.',
  ['fault_sequences','histories'],
  'All histories x every byte position in either stream x cut or corruption.',
  T + 'no test damages an event stream.',
  ['src/state/mod.rs','src/tracker_events/iterator.rs','src/game_events/iterator.rs'],
  [('iterator stops on error','src/*/iterator.rs get_next_event'),('merge continues with the other stream','src/state/mod.rs Iterator for SC2EventIterator')],
  ['items yielded'])
p('S20', 'Bulk event readers return everything recorded or an error',
  'Reading all tracker events, all player events or all chat messages of a replay returns every supported record exactly once, in recorded order, with its recorded loop delta, user and fields; if the stream is cut or undecodable anywhere, the reader returns an error and never a silently shortened list.',
  ['inputs','fault_sequences','histories'],
  'All event streams x every cut position, both protocol families.',
  T + 'they count or sample events of two good games only.',
  ['src/versions/mod.rs','src/versions/protocol75689','src/versions/protocol87702'],
  [('bulk loops','src/versions/*/events'),('version dispatch','src/versions/mod.rs')],
  ['Result of the bulk readers'])
p('S21', 'Match set-up, details and header are read as recorded',
  'Reading the header, the set-up data (lobby slots, users, game options), the details (players, results, map, time) and the lobby summary joined from them gives exactly the recorded values, for every supported protocol and however the file is delivered; if one of these parts is cut anywhere, its reader returns an error or the recorded values, never wrong ones. A file whose header carries another signature than that of a StarCraft II replay is refused with an error by the readers of set-up, details, lobby and events. In the lobby summary a player comes with the slot whose working set slot id is that of the player, and with the initial data of the user that sits in that slot (the initial data are recorded by user id; a computer has none). (An empty text of the bit-packed set-up is given as one NUL character.)',
  ['inputs','fault_sequences'],
  'All set-ups and details x protocol families x every cut position x read disturbances.',
  T + 'they read single fields of one or two replays.',
  ['src/init_data','src/details.rs','src/state/mod.rs','src/versions','src/lib.rs'],
  [('set-up readers per protocol','src/init_data/mod.rs InitData::try_from'),('details readers','src/details.rs'),('join of player details and lobby slots','src/details.rs get_player_lobby_details')],
  ['Result of the header, set-up, details and lobby readers'])
p('S22', 'Files are closed: open descriptors stay bounded, also on errors',
  'However many replays are processed and whatever fails on the way, the library never holds more files open at a time than its concurrent workers need, and once a call returns every file it opened is closed.',
  ['fault_sequences','schedules','inputs'],
  'All batches x fault positions x worker counts x schedules.',
  T + 'no test counts descriptors.',
  ['src/lib.rs','src/arrow_store','src/dir_stats.rs','src/game_events/ability/balance_data'],
  [('scoped file handles','src/lib.rs read_file; src/arrow_store/ipc_writer.rs')],
  ['descriptor table of the simulated file system'])
p('S23', 'Change hints account for every unit exactly',
  'Following only the change hints of a timeline, a consumer always knows the live units: every unit that appears is announced before it is mentioned otherwise, every announced unit that dies is reported once with its last known state and its killer (none when the killer is no longer live or is the unit itself), no hint names a unit that is not live, the units shown in a hint equal the state at that moment, and a selection hint shows a unit once.',
  ['histories'],
  'All event histories with births, constructions, morphs, deaths, tag reuse and commands.',
  T + 'no test looks at hints over a history.',
  ['src/tracker_events/state.rs','src/game_events/state.rs','src/state/mod.rs'],
  [('hints built with the transition','src/tracker_events/state.rs, src/game_events/state.rs')],
  ['change hint of each item'])
p('S24', 'Batch work always finishes',
  'Every export and directory scan comes to an end (with success or an error) after a bounded number of steps, for every number of workers, thread schedule, set of files and sequence of I/O faults; it never deadlocks or waits for ever.',
  ['schedules','fault_sequences'],
  'All schedules x worker counts x fault sequences.',
  T + 'none runs the parallel path; a deadlock depends on the interleaving.',
  ['src/arrow_store/mod.rs','src/arrow_store/ipc_writer.rs','src/dir_stats.rs'],
  [('single lock, no nesting','src/arrow_store/ipc_writer.rs')],
  ['termination of the calls'])
p('S25', 'Map resource files are read as recorded, and damage to them is contained',
  'However a cached map archive is delivered, the map information, document header and height map readers give exactly the recorded dimensions, playable bounds, texts and heights; a failing read, a missing or cut part, or parts that contradict each other (an empty or outside playable area, a map above the size limit, height map dimensions that do not match, a height above the limit, a foreign module) is an error, and whatever else is damaged, the call ends with a value or an error, never with a panic or unbounded memory.',
  ['inputs','fault_sequences'],
  'All map archives x damage x read disturbances.',
  T + 'they decode one constant per parser and open no archive.',
  ['src/cache_handles','src/lib.rs'],
  [('map readers','src/cache_handles/map_info.rs, document_header.rs, t3_height_map.rs')],
  ['Result of the map information, document header and height map readers'])
p('S26', 'A generated decoder is whole, repeatable and faithful, or generation fails',
  'Generating a decoder module from a protocol description either succeeds, and then the output file holds the whole module whatever it held before, the same bytes however the description is delivered, in whatever order and alongside whatever else modules are generated; or it returns an error. A description that is missing, unreadable, cut short or no JSON, and an output that cannot be created or written completely, is an error, never a success and never a panic. The module has every structure, enumeration, choice, integer, array and alias the description declares for each encoding, in order, with their members, tags, values, optional and list markers and bit widths, and event enumerations refer to the first structure declared for the event. After the process was killed at any point, generating again gives the whole module.',
  ['inputs','fault_sequences','crash_points'],
  'All supported descriptions x read and write faults x kill points x previous outputs.',
  T + 'they compare a few generated snippets and never generate a whole module, let alone over failing I/O.',
  ['src/generator'],
  [('generator','src/generator/proto_morphist.rs, decoder_type.rs')],
  ['Result of ProtoMorphist::gen and the written file'])
# ---- properties of pure functions: stated, not claimed (see MANIFEST not_applicable)
p('N01', 'Primitive decoders invert the wire encoding for every value',
  'Every integer, boolean, blob, bit array, optional and choice value that can be written in the two wire encodings is decoded to exactly that value and leaves the cursor exactly behind it, for every width, offset and bit alignment.',
  ['inputs'], 'All values x widths x alignments.',
  'The unit tests decode a few constants.',
  ['src/bit_packed_decoder.rs','src/versioned_decoder.rs','src/lib.rs'],
  [('bit decoder','src/bit_packed_decoder.rs'),('tagged decoder','src/versioned_decoder.rs'),('vlq','src/lib.rs parse_vlq_int')])
p('N02', 'Generated protocol code compiles and decodes',
  'For every protocol description accepted by the generator, the generated module, after formatting, compiles against the crate and decodes the bytes that a value of the described type is encoded to into that value.',
  ['programs'], 'All protocol descriptions.',
  'The tests compare a few generated snippets with constants.',
  ['src/generator'], [('generator','src/generator/proto_morphist.rs, decoder_type.rs')])
p('N03', 'Time conversions are monotone and consistent',
  'Converting loops to seconds never decreases as loops increase, and converting recorded file times to calendar dates and back is exact for every representable time and offset.',
  ['inputs'], 'All loop numbers and file times.',
  'No test covers more than one constant.',
  ['src/lib.rs'], [('conversions','src/lib.rs convert_*, transform_to_naivetime')])
p('N04', 'Ability names are looked up for exactly the recorded link and index',
  'For every unit name, ability link and command index, the translated name is the one the balance data of that version lists for that unit, and the documented empty or placeholder text when there is none.',
  ['inputs'], 'All balance data x unit names x links x indices.',
  'The tests look up a few constants.',
  ['src/game_events/ability'], [('lookup','src/game_events/ability/balance_data/mod.rs')])
p('N05', 'Map coordinate conversions are exact inverses',
  'Converting a point or an area between the coordinate systems of the map, of the game events and of the tracker events and back gives the same point, for every map and every coordinate.',
  ['inputs'], 'All maps x coordinates.',
  'The tests convert a few constants.',
  ['src/cache_handles','src/common.rs'], [('conversions','src/cache_handles/*.rs')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
