#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

V87, V75 = "src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs"
EV = "src/versions/protocol87702/events/"

# ---------------------------------------------------------------- decode
p("D01", "Every record type consumes exactly its protocol-defined wire layout",
  "For every record, choice, enumeration, array, string, blob and integer type of the supported protocol versions, a successful decode consumes exactly the elements the protocol defines for that type - type markers, field tags, bit widths, offsets, optional flags, length prefixes and alignment - in the defined order. Nothing is added, dropped, widened, narrowed or reordered.",
  ["inputs"], "every replay byte sequence, every record type of both protocol versions",
  "The 9 tests decode a handful of events; about 330 record types with thousands of widths and tags are never exercised.",
  [V87, V75, "src/versioned_decoder.rs", "src/bit_packed_decoder.rs"],
  [("per-type decode functions", V87), ("per-type decode functions", V75), ("marker checks", "src/versioned_decoder.rs")],
  observe=["decoded events, details and init data"])
p("D02", "Every decoded value lands in the field it was read for",
  "The value read at a field's tag (or at its position in an untagged record) is exactly the value a caller sees in that field; no field is filled from another field's value, from a default, or left out. Each choice or enumeration number selects its own alternative and no other.",
  ["inputs"], "every input, every field of every decoded record",
  "A swap of two same-typed fields or alternatives is invisible unless a test decodes that very record and compares that very field.",
  [V87, V75], [("record assembly", V87), ("record assembly", V75)], observe=["fields of decoded records"])
p("D03", "Malformed records are rejected, never half-decoded",
  "A tagged record that repeats a field already given, carries a tag its type does not define, or omits a field its type requires is reported as an error, as is a choice or enumeration number that is not defined and a type marker that is not the expected one. No such input ever yields a decoded value.",
  ["inputs", "fault_sequences"], "every malformed tagged record, choice, enumeration or marker",
  "No test feeds malformed records; each of the several hundred decode functions has its own rejection paths.",
  [V87, V75, "src/versioned_decoder.rs", "src/lib.rs"],
  [("duplicate/unknown/missing field errors", V87), ("marker checks", "src/versioned_decoder.rs")])
p("D04", "Decoding neither skips nor re-reads input",
  "Each decoding step starts exactly where the previous one stopped, and the remainder handed back to the caller is exactly what follows the last element consumed. This holds for replay records, event streams and the embedded map files alike.",
  ["inputs"], "every input, every decode function that returns a remainder",
  "Reusing a stale remainder only shows when the record is followed by something a test goes on to decode.",
  [V87, V75, "src/versioned_decoder.rs", "src/bit_packed_decoder.rs", "src/cache_handles/document_header.rs", "src/cache_handles/map_info.rs", "src/cache_handles/t3_height_map.rs"],
  [("remainder threading", V87), ("remainder threading", "src/cache_handles/document_header.rs")])
p("D05", "A decode or I/O failure is never turned into success",
  "When reading, decoding, converting, writing or flushing fails, the operation that asked for it reports an error to its caller instead of returning a result as if nothing happened. The only failures that may be passed over are the documented ones: event kinds the library does not support, and whole replay files, directory entries or balance files that are skipped with a log message during a bulk scan. Text that is not valid UTF-8 is not a failure: it is shown in hexadecimal where the library documents that.",
  ["inputs", "fault_sequences"], "every failing read, decode, conversion or write at every call site",
  "Tests run only on readable, well-formed data; no failure is ever injected.",
  ["src/lib.rs", "src/versions/mod.rs", "src/arrow_store/mod.rs", "src/arrow_store/ipc_writer.rs", "src/details.rs", "src/init_data/mod.rs", "src/dir_stats.rs", EV],
  [("error propagation", "all library functions returning Result")])
p("D06", "Decoded integers are never silently truncated",
  "When a number decoded from a replay does not fit the type of the field it is stored in, decoding fails with an error; the number is never wrapped, masked or saturated into a different value. Display code outside the decoders that deliberately masks or clamps is not meant.",
  ["inputs"], "every decoded number and every narrower field it is stored in",
  "Truncation needs out-of-range wire values; tests only decode small in-range ones.",
  [V87, V75, EV + "tracker/mod.rs", EV + "game/mod.rs", EV + "details.rs", EV + "init_data.rs"],
  [("checked conversions", V87), ("checked conversions", EV)])
p("D07", "Length prefixes bound loops exactly and never bound allocations",
  "An array decodes exactly as many elements as its length prefix announces, and a string or blob exactly as many bytes; yet memory reserved ahead of reading the elements is capped by a constant, so that a short hostile input cannot make the decoder reserve memory proportional to an announced length.",
  ["inputs"], "every announced length, including negative or enormous ones",
  "No test announces a length that differs from the data present.",
  [V87, V75, "src/versioned_decoder.rs", "src/bit_packed_decoder.rs"],
  [("capped reservation", V87), ("element loops", V87)])
p("D08", "Malformed replay data never aborts the process",
  "Decoding replay content returns an error for malformed data rather than panicking: no malformed content reaches an explicit panic, a failed assertion or an unwrap of a missing value. Bounds-checked indexing with values taken from the replay counts as such a path.",
  ["inputs"], "every malformed replay",
  "Tests use valid data only.",
  ["src/versions/mod.rs", "src/protocol_version_decoder.rs", "src/lib.rs", V87, "src/game_events/state.rs", "src/tracker_events/state.rs"],
  [("error returns instead of panics", "src/versions/mod.rs")])
p("D09", "Decoding always makes progress and terminates",
  "Every repetition in the decoders consumes at least one bit of input or one unit of an announced count, or leaves the loop; so decoding any finite input terminates. In particular a failing or unsupported event can never be retried forever.",
  ["inputs"], "every finite input", "A non-terminating path is only seen with the input that triggers it.",
  [V87, V75, EV + "tracker/mod.rs", EV + "game/mod.rs", EV + "message/mod.rs", "src/tracker_events/iterator.rs", "src/game_events/iterator.rs", "src/lib.rs"],
  [("event loops", EV), ("streaming iterators", "src/game_events/iterator.rs")])
# ---------------------------------------------------------------- versions / conversion
p("V01", "Every entry point picks the protocol version by the same rule",
  "For any base build number, tracker events, game events, message events, details and init data - read at once or streamed - are all decoded with the same protocol version's definitions: builds up to 75689 with that protocol, later ones with the newest known one. The decoded init data is stamped with the build it was read from.",
  ["inputs", "configurations"], "every base build number, every entry point",
  "Tests never go through the version dispatch; a boundary differing in one of the seven sites needs a replay of exactly that build.",
  ["src/versions/mod.rs", "src/tracker_events/iterator.rs", "src/game_events/iterator.rs"],
  [("dispatch on base build", "src/versions/mod.rs"), ("dispatch in the streams", "src/game_events/iterator.rs")])
p("V02", "Version-neutral records carry the decoded fields unchanged",
  "Converting a version-specific event, details or init-data record into its version-neutral form copies every field from its namesake: no field is taken from another one, dropped, replaced by a constant or rescaled, except that the food counters are divided by 4096. Optional fields stay present or absent as decoded.",
  ["inputs"], "every decoded record and every field of its version-neutral form",
  "Tests compare a few fields of two events; around 400 field copies are untested.",
  [EV + "tracker/mod.rs", EV + "game/cmd.rs", EV + "game/camera.rs", EV + "game/selection.rs", EV + "game/control_group.rs", EV + "game/unit.rs", EV + "game/user.rs", EV + "game/mouse.rs", EV + "message/mod.rs", EV + "details.rs", EV + "init_data.rs"],
  [("From/TryFrom conversions", EV)])
p("V03", "Enumerated values keep their meaning through conversion",
  "Converting a version-specific enumeration or choice value gives the version-neutral value (or label) of the same name; two different values never become the same one and none is swapped. Every event kind converts with the payload of its own kind.",
  ["inputs"], "every enumeration value and event kind",
  "No test converts enumerations; a swapped pair needs a replay containing that very value.",
  [EV + "tracker/mod.rs", EV + "game/mod.rs", EV + "game/control_group.rs", EV + "game/selection.rs", EV + "game/cmd.rs", EV + "message/mod.rs", EV + "details.rs", EV + "init_data.rs"],
  [("variant mapping", EV)])
p("V04", "Skipping an unsupported event loses neither position nor time",
  "An event kind the library does not support is passed over without ending the stream: decoding resumes right after it and the time it advanced still counts towards every later event. This holds both for streamed events and for events read all at once.",
  ["inputs", "histories"], "every event stream and every mixture of supported and unsupported events",
  "Needs streams that mix unsupported events with supported ones; tests decode single events.",
  ["src/tracker_events/iterator.rs", "src/game_events/iterator.rs", EV + "tracker/mod.rs", EV + "game/mod.rs", EV + "message/mod.rs"],
  [("cursor and clock update before conversion", "src/game_events/iterator.rs")])
# ---------------------------------------------------------------- stream
p("E01", "Merged event stream is time-ordered and loses no event",
  "The merged stream always hands out the pending event with the smaller time; at equal times tracker events come before game events, as documented. A pending event that is not handed out stays pending, and the stream ends only when both sources are exhausted. The event handed out is the one that was read, enriched only with names.",
  ["inputs", "histories"], "every interleaving of tracker and game events",
  "No test drives the merged stream.",
  ["src/state/mod.rs"], [("two-way merge", "src/state/mod.rs Iterator::next")])
p("E02", "Filters hide events but never change the game state",
  "Every event is applied to the game state before any filter is consulted, whether or not it is then shown, so units, groups and cameras evolve identically with any filter. Deciding whether to show an event reads the filter and the event only.",
  ["inputs", "configurations"], "every filter setting and event history",
  "No test uses filters together with state.",
  ["src/state/mod.rs", "src/filters.rs", "src/tracker_events/mod.rs", "src/game_events/mod.rs"],
  [("transition before filtering", "src/state/mod.rs Iterator::next")])
p("E03", "A filter hides exactly the events it names",
  "A player filter hides an event only when the event's own player differs from it, a unit-name filter only when the event's own unit name differs, a minimum or maximum time only when the event - tracker or game - lies outside it, and statistics are shown only on request. An event limit of N shows the first N events that pass the other filters. With no filter set every event other than statistics is shown.",
  ["inputs", "configurations"], "every filter setting and event",
  "No test exercises any filter.",
  ["src/state/mod.rs", "src/filters.rs", "src/tracker_events/", "src/game_events/mod.rs"],
  [("per-event skip predicates", "src/tracker_events/*.rs"), ("loop and count limits", "src/state/mod.rs")])
# ---------------------------------------------------------------- unit state
p("U01", "Unit tags and unit indexes are never mixed up",
  "A full unit tag (index plus recycle counter) is never used or compared as a bare unit index or the other way round: units are always looked up, inserted and removed by index, tags are first reduced to their index, and control groups, which hold tags, are only compared with tags or after that reduction.",
  ["inputs", "histories"], "every event history",
  "Both are plain 32-bit numbers, so the compiler cannot tell them apart, and no test applies events to units.",
  ["src/tracker_events/state.rs", "src/game_events/state.rs", "src/state/mod.rs", "src/tracker_events/mod.rs"],
  [("index extraction", "src/tracker_events/mod.rs unit_tag_index")],
  state=[("units", "units by index", "src/state/mod.rs"), ("control groups", "tags per group", "src/state/mod.rs")])
p("U02", "Each tracker event has exactly its documented effect on units",
  "Init and birth register a new unit under its own index with the event's name, owner, position and time; birth also records the creating ability. Init of a registered unit updates its name, position and initialising state, birth of a registered one its creating ability. A morph renames the unit, completion ends its initialising state (both refresh its size and colour), position reports move it, and death removes it from the registry and from every control group of every player. Every unit an event changes is stamped with that event's time; an owner change and all other events leave the units alone.",
  ["histories"], "every history of unit events",
  "No test applies tracker events to the game state.",
  ["src/tracker_events/state.rs", "src/state/mod.rs"],
  [("unit event handlers", "src/tracker_events/state.rs")],
  state=[("units", "registry of live units", "src/state/mod.rs")])
p("U03", "Control groups follow the semantics of each update kind",
  "Set replaces a group with the current selection, append adds the selection to it, clear empties it, and recall makes the group the current selection; the stealing kinds also remove the selected units from every other numbered group, zero to nine. A selection change replaces the group it names, and only groups of the player who issued the event are modified.",
  ["histories"], "every history of selection and control group events, every group number",
  "No test applies selection or control group events.",
  ["src/game_events/state.rs"],
  [("control group update", "src/game_events/state.rs update_control_group"), ("selection delta", "src/game_events/state.rs handle_selection_delta")],
  state=[("control groups", "ten numbered groups plus the current selection", "src/state/mod.rs")])
p("U04", "Selection highlighting is applied and undone exactly once",
  "A unit's displayed radius is doubled only at the moment it turns from unselected to selected and halved only when it turns back, so flag and radius always change together and repeated selection never compounds. Units are unmarked from the previous selection before the new one is marked. Only selection changes and group recalls mark or unmark; a morph or completion keeps the mark, and a marked unit's radius doubled.",
  ["histories"], "every history of selections",
  "Needs repeated overlapping selections; no test selects anything.",
  ["src/game_events/state.rs"], [("mark/unmark", "src/game_events/state.rs")])
p("U05", "Change reports describe the state after the event",
  "Every changed unit handed out in a change report is a copy of the registered unit taken after all of the event's changes to it; a unit merely referred to (creator, killer, target) is reported as registered, and a removed unit as it was when removed. A report never carries a copy taken before the change, except for the explicitly reported previous form of a morphing unit, and it lists exactly the units the event concerns.",
  ["histories"], "every event history", "No test inspects change reports.",
  ["src/tracker_events/state.rs", "src/game_events/state.rs"], [("change hints", "src/tracker_events/state.rs")])
p("U06", "Commands reach exactly the units selected by the issuing player",
  "A command that names an ability, or a later change of its target, is recorded on each unit in the current selection of the player who issued it and on no other unit; the recorded ability, target point or target unit is the one in the event. Switching the target replaces the recorded one, and a switch to a point also forgets the other unit and its name.",
  ["histories"], "every history of commands by every player",
  "No test issues commands.",
  ["src/game_events/state.rs", "src/state/unit_cmd.rs"],
  [("command handlers", "src/game_events/state.rs"), ("unit command data", "src/state/unit_cmd.rs")])
# ---------------------------------------------------------------- export
p("U07", "The camera follows only the player's own camera events",
  "A player's camera position changes only on a saved or updated camera of that very player, and becomes exactly the target of that event; a camera update without a target leaves it where it was. No other event moves any camera.",
  ["histories"], "every history of camera events by every player",
  "No test applies camera events.",
  ["src/game_events/state.rs", "src/state/mod.rs"], [("camera handlers", "src/game_events/state.rs handle_camera_update, handle_camera_save")],
  state=[("camera position", "where a player's camera is", "src/state/mod.rs")])
p("X01", "Every exported column holds the source field it is named after",
  "In every exported row - statistics, upgrades, births, deaths, point and unit commands, player details, init data - each column holds the value of the event, unit or replay field it is named after; no column is filled from a different field, duplicated from a sibling, or left at a default; only a column that has no source in its event is empty.",
  ["inputs"], "every exported row and column",
  "No test builds an export row; about 200 columns are copied by hand.",
  ["src/tracker_events/arrow_store/", "src/game_events/arrow_store/cmd_event_flat_row.rs", "src/details.rs", "src/init_data/arrow_store.rs"],
  [("row constructors", "src/tracker_events/arrow_store/"), ("row constructors", "src/game_events/arrow_store/cmd_event_flat_row.rs")])
p("X02", "Each exported time uses the clock of its own event stream",
  "Rows made from tracker events convert their time with the tracker clock and rows made from game events with the game clock, and the seconds column is always derived from the same time value that the row's loop column holds.",
  ["inputs"], "every exported row of every kind",
  "No test builds an export row.",
  ["src/lib.rs", "src/tracker_events/arrow_store/", "src/game_events/arrow_store/cmd_event_flat_row.rs"],
  [("loop to seconds conversions", "src/lib.rs")])
p("X03", "Each export kind writes its own rows, schema and file",
  "For every export kind the schema declared, the events collected and the rows serialised belong to that same kind, in every export path; a full snapshot produces one file per kind, each written with its own schema and rows, and no two kinds share a file name.",
  ["configurations"], "every export kind in every export mode",
  "No test exports anything.",
  ["src/arrow_store/mod.rs", "src/arrow_store/ipc_writer.rs"],
  [("kind tables", "src/arrow_store/mod.rs")])
p("X04", "Parallel processing selects and exports the same data as serial",
  "Whatever export kind or directory scan is run, the parallel and the serial mode apply the same selection limits, the same file numbering and version filters, the same collectors and the same writers; the mode changes only the order of work.",
  ["configurations", "schedules"], "both modes of every export kind and of directory scanning",
  "No test runs either mode.",
  ["src/arrow_store/mod.rs", "src/dir_stats.rs"], [("twin branches", "src/arrow_store/mod.rs")])
p("X05", "An export that reports success wrote a complete file",
  "Every batch is written while holding the writer exclusively, every write and the final end-of-file marker are checked, and an export path reports success only after finishing its file. A failure to create, write or finish a file is reported.",
  ["fault_sequences", "schedules"], "every write failure and thread schedule",
  "No test writes an export file, let alone with failures.",
  ["src/arrow_store/mod.rs", "src/arrow_store/ipc_writer.rs"], [("write and finish", "src/arrow_store/ipc_writer.rs")])
# ---------------------------------------------------------------- other
p("A01", "Ability names resolve only on a full identifier match",
  "An ability name is resolved only from an entry of the replay's own protocol version whose ability number and command index both match those of the command; otherwise the result is empty. Names come from the matching entry itself.",
  ["inputs"], "every ability/command pair and balance data set",
  "No test resolves ability names against partial matches.",
  ["src/game_events/ability/balance_data/mod.rs", "src/game_events/state.rs", "src/state/mod.rs"],
  [("ability lookup", "src/game_events/ability/balance_data/mod.rs"), ("version filter", "src/state/mod.rs")])
p("A02", "Embedded map files are validated before their numbers are used",
  "A map information or height map file is accepted only after its magic and version-dependent header are read, and its dimensions and playable bounds are accepted only when consistent: left below right within the width, bottom below top within the height, sizes within limits. The fields reported are the ones read at their position.",
  ["inputs"], "every map information and height map file", "One valid file is decoded in the tests; no inconsistent one.",
  ["src/cache_handles/map_info.rs", "src/cache_handles/t3_height_map.rs", "src/cache_handles/document_header.rs"],
  [("bounds checks", "src/cache_handles/map_info.rs")])
p("A03", "Player identities are joined on the right keys",
  "A lobby slot is joined with the player details of the same working slot and the user data of the same user, a tracker player number is attached to the user named by its own setup event, and a player name is attached to an event only through that event's own user or player number.",
  ["inputs", "histories"], "every lobby composition",
  "No test joins lobby data.",
  ["src/details.rs", "src/init_data/mod.rs", "src/tracker_events/state.rs", "src/game_events/iterator.rs"],
  [("lobby join", "src/details.rs"), ("player setup mapping", "src/tracker_events/state.rs")])
# ---------------------------------------------------------------- not applicable
p("D10", "Numbers, flags and byte strings are put together by the format's formula",
  "For every bit offset and width the packed primitives take the bits of each byte from the low end, most significant chunk first, reject more than 64 bits, and add the offset of the type; a variable-length integer has its sign in the lowest bit of the first byte, six bits there and seven in each further byte, lowest first, for as long as the top bit is set; each tagged primitive demands its own tag, and flags, four-character codes, blobs and bit arrays have the byte order and the length the format gives. What is left of the input starts right behind what was read.",
  ["inputs"], "every bit offset, width, length and bit pattern", "Tests cover a handful of patterns; most offset and width combinations never occur in them.",
  ["src/bit_packed_decoder.rs", "src/versioned_decoder.rs", "src/lib.rs"],
  [("packed primitives", "src/bit_packed_decoder.rs"), ("tagged primitives", "src/versioned_decoder.rs"), ("variable-length integers", "src/lib.rs")])
p("M01", "Map coordinates and sizes follow one geometry",
  "The sizes and corners reported for a map are those of its own fields: cells as they are, terrain points one more than cells in each direction, the playable size being right minus left by top minus bottom; cell centres lie half a unit from the terrain points, conversions between map, cell and terrain coordinates respect that and keep the two axes apart; each map file is read from the archive entry of its own name.",
  ["inputs"], "every map and coordinate", "No test converts a coordinate or asks for a size.",
  ["src/cache_handles/map_info.rs", "src/cache_handles/map/coords.rs", "src/cache_handles/t3_height_map.rs", "src/cache_handles/document_header.rs"],
  [("sizes and corners", "src/cache_handles/map_info.rs"), ("conversions", "src/cache_handles/map/coords.rs")])
p("U08", "Units are identified, compared and ordered by their index alone",
  "Two tracked units are equal exactly when their indexes are equal, and their order is that of their indexes, so that comparison, ordering and partial ordering agree.",
  ["inputs"], "every pair of units", "No test compares units.",
  ["src/state/mod.rs"], [("comparison", "src/state/mod.rs")])
p("U09", "Units are shown in the size and colour of their kind",
  "The radius of a unit is the one the balance data gives for its name, and 0.45 when the data does not know the unit or its radius; its colour is the one of its kind (resources, workers, supply, town halls, obstacles and the others listed by name) and, for every kind without a colour of its own, the colour of the player it belongs to, white for players beyond the fourth. A selected unit is shown twice as large.",
  ["inputs"], "every unit name, player and balance data", "No test looks up a unit that the balance data lacks, and none checks a colour.",
  ["src/state/unit_props.rs", "src/state/mod.rs"], [("size and colour", "src/state/unit_props.rs")])
p("X06", "Exports cover exactly the replays asked for",
  "A directory scan finds the replay files of the directory and of its sub-directories down to the requested depth, regular files with the extension SC2Replay only, never more than the requested number; the exports then cover, in the order found, every one of them whose build lies within the minimum and maximum version (both inclusive), up to the number of files to process, and nothing is written if there is none.",
  ["inputs"], "every directory tree and combination of limits", "No test scans a directory.",
  ["src/lib.rs", "src/arrow_store/mod.rs"], [("directory scan", "src/lib.rs"), ("selection", "src/arrow_store/mod.rs")])
p("X07", "Directory statistics count what they are named after",
  "The statistics of a directory count every replay found, separately those that can be decoded and those whose build has ability data, count each map once per decodable replay and each player (observers left out) once per replay, and list the ten most frequent maps and players in falling order.",
  ["inputs"], "every directory of replays", "No test computes directory statistics.",
  ["src/dir_stats.rs", "src/details.rs"], [("statistics", "src/dir_stats.rs"), ("player names", "src/details.rs")])
p("X08", "Decoded sections are labelled with the file they come from",
  "The lobby data and the details carry the name and the number of the file they were decoded from, the digest of that file's whole content, the build of its header and the date computed from its own time stamp and time zone; nothing decoded is replaced on the way.",
  ["inputs"], "every replay", "Tests compare no label.",
  ["src/init_data/mod.rs", "src/details.rs", "src/lib.rs"], [("labels", "src/init_data/mod.rs"), ("labels", "src/details.rs"), ("date", "src/lib.rs")])
p("A04", "Balance data is filed under its own build and unit",
  "Balance data read from a directory of game data, from a directory of JSON files or from the embedded archive is filed under the build number of the directory it lies in and the name of its own unit; files of other kinds are passed over, none is filed under another's key, and writing produces one file per entry at the place reading looks for it.",
  ["inputs"], "every set of balance data files", "No test reads or writes a set of balance data.",
  ["src/game_events/ability/balance_data/mod.rs", "src/game_events/ability/balance_data/json_handler.rs"],
  [("game data", "src/game_events/ability/balance_data/mod.rs"), ("JSON files", "src/game_events/ability/balance_data/json_handler.rs")])
p("S01", "What is written as text is read back the same",
  "Every decoded value that can be serialised (replay sections, events, state and reported changes, balance data) is read back from its serialised form with every field and alternative as it was written: each field is written once under a name of its own, always or only left out where its absence reads back as the same value, and the name is read into the same field; each alternative is written under a name that reads back as the same alternative with the same content; no field has a type whose text form is ambiguous or impossible (something empty inside something optional, maps keyed by more than text or a number). Only the build number of a unit of balance data is left out: the directory the file lies in holds it.",
  ["inputs"], "every value of every serialisable type", "No test reads back what it wrote.",
  ["src/"], [("decoded sections", "src/details.rs"), ("events", "src/tracker_events/mod.rs"), ("reported changes", "src/state/mod.rs"), ("balance data", "src/game_events/ability/balance_data/mod.rs")])
p("S02", "The shipped balance data is understood completely",
  "Every balance data file shipped with the crate (and embedded in it) can be read: it is JSON in the directory of a build and named after the unit it holds, every required attribute is there and every value fits the type it is read into, no attribute in any file goes unread, every attribute that is read exists in the shipped data and goes into the field of the same name, and what is absent is nothing or empty. One file that cannot be read would leave every ability of every build without a name.",
  ["inputs"], "every shipped file, every attribute", "Tests read single units.",
  ["src/game_events/ability/balance_data/mod.rs", "assets/BalanceData/"], [("types", "src/game_events/ability/balance_data/mod.rs"), ("readers", "src/game_events/ability/balance_data/json_handler.rs")])
p("N01", "Bit-level integers decode to the numerically right value",
  "For every bit offset and width, a packed or variable-length integer decodes to exactly the number its bits represent, including sign, byte order and offset.",
  ["inputs"], "every bit offset, width and bit pattern", "Tests cover a few patterns.",
  ["src/bit_packed_decoder.rs", "src/lib.rs"], [("bit extraction", "src/bit_packed_decoder.rs")])
p("N02", "Decoded replays equal those of the reference implementation",
  "For every replay of a supported build the decoded events, details and init data equal what Blizzard's reference decoder produces.",
  ["inputs"], "every replay file", "No replay is part of the repository.",
  ["src/versions/"], [("decoders", "src/versions/")])
p("N03", "Derived numbers are numerically right",
  "Seconds computed from loops, positions decoded from fixed point numbers, unit radii and colours are numerically equal to the game's own values.",
  ["inputs"], "every numeric conversion", "Only sampled by tests.",
  ["src/lib.rs", "src/state/unit_props.rs", "src/tracker_events/unit_positions.rs"], [("conversions", "src/lib.rs")])
p("N04", "Generated protocol code decodes like the checked-in protocols",
  "Code produced by the protocol generator for any protocol description compiles and decodes exactly the layout that description defines.",
  ["programs"], "every protocol description", "Nothing runs the generator.",
  ["src/generator/"], [("code generator", "src/generator/decoder_type.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
