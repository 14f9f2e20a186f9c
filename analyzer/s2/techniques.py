"""How each property is decided, and why some are not."""
COMMON = " Nothing is executed; exact for the analysed MIR, relative to rustc, the analyser and the transcribed tables under spec/."
TECH = {
    "D01": ("grammar extraction: minimal automaton of reads per decoder, compared with the transcribed protocol", "All decode functions, all paths." + COMMON),
    "D02": ("value-flow analysis from each read to the field it reaches", "All decode functions, all paths." + COMMON),
    "D03": ("path-condition (BDD) analysis of slots, tags and markers", "All tagged records and all tests on decoded numbers." + COMMON),
    "D04": ("greatest-fixpoint dataflow over input positions", "All reads and successful returns of all decoders." + COMMON),
    "D05": ("error-propagation dataflow: on every path where a fallible call failed the function must fail too or hand the failure on", "Every fallible call in the decode and export code." + COMMON),
    "D06": ("interval analysis of every narrowing cast and conversion reachable from decoded data", "All casts, conversions and length computations of the decode code." + COMMON),
    "D07": ("grammar counting: each repetition is bounded by the length read for it; taint of reservations", "All repetitions and all allocations sized by decoded numbers." + COMMON),
    "D08": ("panic reachability: every construct that can panic is discharged by intervals, difference bounds or path conditions", "All panicking constructs of the decode, iterator and state code; arithmetic overflow (debug builds only) excluded." + COMMON),
    "D09": ("progress analysis: every loop and recursion cycle consumes input or a finite source on each round", "All loops and recursion cycles of the decode, stream and map-file code." + COMMON),
    "V01": ("path-condition analysis: the conditions on the build number under which each version's code is reached, at every dispatch", "All dispatch sites on the base build." + COMMON),
    "V02": ("value-flow normal form of every conversion, compared field by field with the transcribed correspondence", "All conversions from protocol records to version-neutral ones." + COMMON),
    "V03": ("path-condition normal form of every conversion, compared alternative by alternative with the transcribed correspondence", "All enumeration and event-kind conversions." + COMMON),
    "V04": ("value-flow and path analysis of cursor and clock updates around every conversion of an event", "All streams and read-all loops." + COMMON),
    "X01": ("value-flow normal form of every row builder, compared column by column with the transcribed column table", "Every export row builder and column." + COMMON),
    "X02": ("value-flow of every time column back to the loop it is computed from and the clock constant applied", "Every loop and seconds column." + COMMON),
    "X03": ("call-graph and value-flow analysis of the schema, collector, writer and file name chosen for each export kind", "Every export kind in every export path." + COMMON),
    "X04": ("effect comparison: the calls, conditions and results of the serial and the parallel specialisation of each mode-taking function", "All mode-taking functions." + COMMON),
    "X05": ("path-condition (BDD) analysis: success is reported only where every create, write and finish call succeeded under the lock", "Every call in every file-writing function." + COMMON),
    "E01": ("path-condition and value-flow analysis of one round of the merged stream: which pending event is taken, left and refilled in each case", "All paths of the iterator and all event handlers." + COMMON),
    "E02": ("effect and call-graph analysis: the state is changed before and independently of any filter", "All functions reachable from the application of an event, all paths of the iterator." + COMMON),
    "E03": ("path-condition normal form of the hiding condition of every event kind and of the time and count limits, compared with the transcribed one", "All event kinds of both streams." + COMMON),
    "U01": ("kind inference (unit tag or unit index) over all values of the inlined event handlers", "All uses of the unit registry and of control groups." + COMMON),
    "U02": ("effect analysis: every change of the state per event kind with place, value and condition, compared with the transcribed effect", "All event kinds, all paths of their handlers." + COMMON),
    "U03": ("effect analysis with order: every change of a control group per kind of update, compared with the transcribed effect", "All event kinds, all paths of their handlers." + COMMON),
    "U04": ("effect analysis with order: every change of mark and radius with its condition, compared with the transcribed effect", "All event kinds, all paths of their handlers." + COMMON),
    "U05": ("value flow of change reports: reads resolved at the point of copying, relative to the changes made before and after", "All event kinds, all paths of their handlers." + COMMON),
    "U06": ("effect analysis: every change of a unit's command per event kind, compared with the transcribed effect", "All event kinds, all paths of their handlers." + COMMON),
    "U07": ("effect analysis: every change of a camera position per event kind, compared with the transcribed effect", "All event kinds, all paths of their handlers." + COMMON),
    "A01": ("path-condition (BDD) analysis of the ability lookup: each returned name implies both matches, the empty result implies exhaustion, no full match is passed over", "All paths of the lookup, its uses and the version filter." + COMMON),
    "A02": ("sequence and value-flow normal form of the map-file readers, compared with the transcribed steps, checks and fields", "All paths of the three readers." + COMMON),
    "A03": ("value-flow normal form of every join of players, compared with the transcribed keys", "All joins and name lookups." + COMMON),
    "D10": ("value-flow normal form of every primitive decoder, with the values carried around its loops as a system of equations, compared with the transcribed formula", "All primitive decoders." + COMMON),
    "M01": ("value-flow normal form (sums in any order, truncations marked) of every size, corner and coordinate conversion, compared with the transcribed geometry", "All coordinate functions." + COMMON),
    "U08": ("value-flow normal form of comparison, order and equality", "All comparisons of units." + COMMON),
    "U09": ("value-flow normal form of size and colour by the name of the unit and its owner, compared with the transcribed table", "All names the code tells apart, and every other one." + COMMON),
    "X06": ("value-flow and path-condition normal form of the list of files found and of the list exported, with their bounds", "The scan and the selection." + COMMON),
    "X07": ("value-flow normal form of every statistic: what is counted under which condition, in which order", "All statistics." + COMMON),
    "X08": ("value-flow normal form of every label back to the file it comes from", "All labels of all sections." + COMMON),
    "A04": ("value-flow and path-condition normal form of keys, entries and paths of every file read and written", "All readers and writers of balance data." + COMMON),
    "S01": ("value-flow analysis of the derived writers and readers: field to name, name to slot, slot to field, alternative to name to alternative", "All serialisable types, all fields and alternatives; relative to the formats' own libraries." + COMMON),
    "S02": ("schema extraction from the derived readers, checked against every shipped data file", "All shipped files, all attributes of the types that read them." + COMMON),
}
NA = {
    "N01": "The value of a packed integer for every offset, width and bit pattern is bit-level arithmetic; no dataflow argument in reach decides it (it needs a solver or execution). How many bits are consumed is decided under D01, and that the decoders compute the format's formula under D10.",
    "N02": "Compares with an external reference implementation on replay files; neither is part of the source, so no static argument decides it. The layout and field assignment are decided under D01 and D02.",
    "N03": "Numerical equality of derived quantities with the game's own values is not expressed in the source; only which clock and which field a number comes from is decided (X01, X02).",
    "N04": "The generator emits program text for arbitrary protocol descriptions; what that text means is a property of programs that do not exist yet, beyond a static argument over this source.",
}
