"""The text of the properties and checks; `python3 lib/catalog.py` writes
properties.jsonl and MANIFEST.json from it."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INC = "include/soro/"


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique="", note="", state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, observe=list(observe), technique=technique, note=note,
                state=list(state))


REF = "randomised workload under ASan/UBSan and the code's own assertions, judged online by "
SAN = ("Exploration of the cases counted in the evidence; memory errors, undefined behaviour and leaks in them are "
       "detected by the sanitizers. ")

GO = "tools/generate-osm/"
GOT = "randomised workload on the real Go sources with their bounds and nil checks, judged online by "
GON = ("Exploration of the cases counted in the evidence. Third-party libraries and osmium are replaced by stand-ins.")

ALL = [
    prop("U01", "Lazy sequences deliver exactly what their producers yield",
         "A consumer of a lazily produced sequence sees exactly the yielded elements, in order, once each, including those "
         "of nested producers and mapped sequences, and no production happens before it is asked for. A failure inside a "
         "producer reaches the consumer after exactly the elements produced before it. Abandoning or moving a sequence "
         "releases the producer exactly once.",
         ["inputs", "histories"], "all element sequences, nesting shapes, failure points and consumer histories",
         "The tests read two short sequences to the end; they never fail a producer, nest deeply, move or abandon one.",
         [INC + "utls/coroutine/generator.h", INC + "utls/coroutine/recursive_generator.h",
          INC + "utls/coroutine/iterator.h", INC + "utls/coroutine/coro_map.h", INC + "utls/coroutine/collect.h"],
         [("promise types, resume and destroy", INC + "utls/coroutine"),
          ("parent/leaf bookkeeping of nested producers", INC + "utls/coroutine/recursive_generator.h")],
         technique=REF + "recorded element sequences, frame counters and failure positions",
         note=SAN + "One finding is known: a single-pass coroutine iterator swallows failures of its producer."),
    prop("U02", "Number conversions are exact or refuse",
         "Converting a number to a narrower type either yields the same number or fails. Parsing text yields exactly the "
         "number it spells, with decimal point or comma, and text that is no number or does not fit is refused; parsing "
         "reads only the given characters and leaves them unchanged.",
         ["inputs"], "all numbers and all texts",
         "The tests narrow a handful of constants and never parse malformed text or text at the end of a buffer.",
         [INC + "utls/narrow.h", INC + "utls/parse_int.h", INC + "utls/parse_fp.h"],
         [("checked cast", INC + "utls/narrow.h"), ("error checks of the parsers", INC + "utls/parse_int.h")],
         technique=REF + "wide-integer arithmetic and exactly sized buffers"),
    prop("U03", "Geographic coordinates are consistent",
         "Distances are those of the sphere: zero only on the spot, symmetric and within the triangle inequality; walking a "
         "distance along a bearing ends that far away in that direction. Conversions between geographic, cartesian and polar "
         "form return the same place. Bounding boxes contain exactly what lies between their extremes and unusable positions "
         "are recognised as such.",
         ["inputs"], "all positions, distances, bearings and point sets",
         "One test compares two fixed distances.",
         [INC + "utls/coordinates/gps.h", INC + "utls/coordinates/cartesian.h", INC + "utls/coordinates/polar.h",
          INC + "utls/coordinates/coordinates.h", "src/utls/coordinates/gps.cc", "src/utls/coordinates/cartesian.cc"],
         [("haversine distance and destination", "src/utls/coordinates/gps.cc"),
          ("polar conversion", "src/utls/coordinates/cartesian.cc")],
         technique=REF + "spherical reference formulas with tolerances",
         note=SAN + "Accuracy is judged to the constants the code base chose."),
    prop("U04", "Calendar time and durations form exact arithmetic",
         "Points in time and durations add, subtract, scale and compare exactly like the seconds they stand for, and "
         "rendering and parsing dates agree with the proleptic Gregorian calendar in both directions. Midnight, weekday "
         "offsets and remainders are exact for times before and after the epoch.",
         ["inputs"], "all representable times and durations",
         "No test covers calendar time apart from one overload.",
         [INC + "utls/unixtime.h", "src/utls/unixtime.cc", INC + "base/time.h"],
         [("unixtime and duration operators", INC + "utls/unixtime.h")],
         technique=REF + "64-bit integer arithmetic and an independent calendar"),
    prop("U05", "The priority queue always surfaces the best element",
         "At every moment of any history of insertions and removals the top is a best remaining element by the chosen "
         "order, and the contents are exactly what was inserted and not yet removed.",
         ["histories"], "all histories of insertions and removals, with ties and move-only payloads",
         "No test exists for it.",
         [INC + "utls/container/priority_queue.h"], [("heap maintenance", INC + "utls/container/priority_queue.h")],
         technique=REF + "a multiset model after every operation"),
    prop("U06", "Sequence algorithms compute what their names say",
         "Searching, counting, sorting, merging, slicing, intersecting and overlap queries return exactly what their "
         "definition says for every sequence and predicate, including empty ones, and modify nothing else. Text comparison, "
         "splitting and hashing depend on the characters of the given range alone.",
         ["inputs"], "all sequences, predicates and texts",
         "The tests run most of them on one or two literals, many not at all.",
         [INC + "utls/std_wrapper", INC + "utls/algo", INC + "utls/string.h", INC + "utls/map/insert_or.h",
          INC + "utls/ranges/to.h"],
         [("wrappers of the standard algorithms", INC + "utls/std_wrapper"),
          ("own algorithms", INC + "utls/algo")],
         technique=REF + "direct definitions on copies of the inputs"),
    prop("U07", "Containers and iterators behave like their models",
         "Optional identifiers, sorted vectors, offset containers, fixed maps and iterator ranges answer every operation "
         "like the ordinary collection they stand for; random access arithmetic on them agrees with indexing.",
         ["histories", "inputs"], "all operation sequences and contents",
         "Only the optional has a test, with a few fixed calls.",
         [INC + "utls/container"], [("container operations", INC + "utls/container")],
         technique=REF + "standard containers driven in lockstep"),
    prop("U08", "Infrastructure element kinds are classified consistently",
         "Every element name of the infrastructure files denotes its documented kind and every other text none; each kind "
         "has a unique short name and belongs to exactly one group of end, simple, switch, crossing, directed and undirected "
         "elements. Sets of kinds contain exactly the kinds put in, and per-kind counters add up to their total.",
         ["inputs"], "all names, kinds, sets and counter histories",
         "The tests use few kinds through whole data files that are not available offline.",
         [INC + "infrastructure/graph/type.h", "src/infrastructure/graph/type.cc", INC + "infrastructure/graph/type_set.h",
          "src/infrastructure/graph/type_set.cc", INC + "infrastructure/infra_stats.h"],
         [("order of the enumeration", INC + "infrastructure/graph/type.h"), ("name switch", "src/infrastructure/graph/type.cc")],
         technique=REF + "an independently written table of names and groups"),
    prop("U09", "Quantities keep value and unit under arithmetic",
         "Adding, subtracting, scaling, multiplying and dividing quantities yields the numeric result with the unit that "
         "physics demands and leaves the operands unchanged; conversions between units and back return the same amount. "
         "Comparisons order by amount, and equality tolerates exactly the documented imprecision.",
         ["inputs"], "all amounts and unit combinations",
         "The tests check a few units at compile time and a few values.",
         [INC + "utls/strong_types/strong_type.h", INC + "utls/strong_types/fraction.h", INC + "si/units.h",
          INC + "base/fp_precision.h", INC + "simulation/kilometer_per_hour.h", INC + "simulation/granularity.h",
          INC + "simulation/simulation_options.h"],
         [("unit simplification", INC + "utls/strong_types/fraction.h"), ("factories", INC + "si/units.h")],
         technique=REF + "plain floating point and integer arithmetic and unit exponents"),
    prop("U10", "Errors keep their identity and are reported",
         "Every failure kind is an error distinct from success and from every other kind, with a message of its own that "
         "says what happened; passing results along keeps it. Error counters lose no occurrence, also when several threads "
         "count; event statistics count and print every kind. A violated assertion is reported with its text and place where assertions are on, and one that holds is "
         "silent.",
         ["inputs", "schedules"], "all error kinds, propagation chains and counting schedules",
         "No test looks at an error code.",
         ["src/rolling_stock/rolling_stock_error.cc", "src/timetable/timetable_error.cc",
          "src/timetable/parsers/kss/kss_error.cc", "src/timetable/parsers/route_transform_error.cc",
          INC + "base/error.h", INC + "utls/result.h", INC + "utls/sassert.h",
          INC + "utls/statistics.h"],
         [("error categories", "src/timetable/parsers/kss/kss_error.cc"), ("lock of the counters", INC + "base/error.h")],
         technique="every pair of codes, randomised propagation and threads under ASan/UBSan/TSan, judged by an independent table"),
    prop("U11", "File contents survive writing and reading",
         "Reading a file returns exactly its bytes, whatever they are, and writing a buffer makes the file contain exactly "
         "that buffer, also when it held something longer before. A missing file reads as empty and is not created.",
         ["inputs", "histories"], "all contents and overwrite histories",
         "No test reads or writes arbitrary bytes.",
         [INC + "utls/file"], [("binary stream modes", INC + "utls/file")],
         technique="random contents in a scratch folder under ASan/UBSan, judged by reading the file independently"),
    prop("U12", "Compile-time lists and tuples transform element by element",
         "Counting, removing, prepending, repeating and joining lists of types does exactly that; slicing a tuple keeps "
         "exactly the chosen elements; visiting or searching a tuple at run time touches the right element once and refuses "
         "positions outside.",
         ["programs", "inputs"], "all lists and tuples; those instantiated by the check",
         "The tests instantiate a few lists and one tuple.",
         [INC + "utls/strong_types/type_list.h", INC + "utls/tuple", INC + "utls/template", INC + "utls/concepts",
          INC + "utls/function_alias.h"],
         [("recursive templates", INC + "utls/strong_types/type_list.h"), ("index sequences", INC + "utls/tuple/slice.h")],
         technique="instantiated programs run under ASan/UBSan; computed types are mapped to numbers and judged at run time"),
    prop("U13", "Graph traversals visit what is reachable",
         "Traversing a graph visits every edge reachable from the start exactly once and nothing else, in the promised "
         "order, and stops where told to. A graph is reported cyclic exactly if it has a cycle.",
         ["inputs"], "all finite directed graphs and starts",
         "One test looks at two small graphs.",
         [INC + "utls/graph"], [("visited sets", INC + "utls/graph/traversal.h"), ("colouring", INC + "utls/graph/has_cycle.h")],
         technique=REF + "reachability and cycle computations of their own"),
    prop("U14", "Exclusion sets are sets",
         "Union, intersection, difference, membership, counting and iteration on exclusion sets agree with ordinary sets of "
         "numbers for every history of operations, and sets compare equivalent exactly if they have the same members.",
         ["histories"], "all operation histories on sets of route numbers",
         "The tests build a few sets by hand.",
         [INC + "infrastructure/exclusion/exclusion_set.h", "src/infrastructure/exclusion/exclusion_set.cc"],
         [("offset bit words", "src/infrastructure/exclusion/exclusion_set.cc")],
         technique=REF + "std::set driven in lockstep"),
    prop("U15", "Moved data sets keep their content",
         "Moving, swapping or storing a loaded data set (an infrastructure or a timetable) gives the new object the whole "
         "content in its own memory, whatever becomes of the old object; no two objects share one content and none is lost "
         "or released twice. Saving where serialization is not available is refused without touching the file. A function "
         "for one kind of value runs on that kind only.",
         ["histories"], "all histories of moves",
         "No test moves a data set and lets its source die.",
         [INC + "utls/serializable.h", INC + "utls/execute_if.h", INC + "infrastructure/infrastructure.h",
          INC + "timetable/timetable.h"],
         [("address of the accessed object", INC + "utls/serializable.h")],
         technique="random move histories under ASan/UBSan, judged by the written content and the address range of the object"),
    prop("U17", "Polynomials and piecewise functions evaluate exactly",
         "A polynomial evaluates to its mathematical value with the unit of its result; a piecewise function evaluates the "
         "piece whose range contains the argument and refuses arguments at or beyond its end. Pieces that leave a gap or "
         "overlap are recognised.",
         ["inputs"], "all coefficients, pieces and arguments",
         "The tests evaluate two functions at a few points.",
         [INC + "utls/math/polynomial.h", INC + "utls/math/piecewise_function.h"],
         [("Horner evaluation", INC + "utls/math/polynomial.h"), ("piece selection", INC + "utls/math/piecewise_function.h")],
         technique=REF + "extended precision power sums"),
    prop("I01", "The graph has exactly the tracks of the network",
         "A train at any point of the infrastructure can move to exactly those points the network's tracks, switches, "
         "crossings and station borders lead to in its direction, and to no others. Reverse edges mirror the forward edges, "
         "walking back follows the straight track, and neighbouring elements are exactly those next to each other.",
         ["inputs"], "all networks of sections, switches, crosses, cross switches, jumps, line switches, borders and ends",
         "The tests load two example networks and check counts and single elements.",
         ["src/infrastructure/parsers/iss/parse_iss.cc", "src/infrastructure/graph/graph_creation.cc",
          "src/infrastructure/graph/element.cc", "src/infrastructure/graph/node.cc"],
         [("section parsing sets neighbours", "src/infrastructure/parsers/iss/parse_iss.cc"),
          ("edges from neighbours", "src/infrastructure/graph/graph_creation.cc")],
         technique=REF + "a generated network whose connectivity is known by construction; parsed nodes are matched one to one"),
    prop("I02", "Parsed elements carry exactly the written data",
         "Every element, station, line and default value of the infrastructure carries exactly the kind, position, line, "
         "direction, names and limits that its files state, in the units they state.",
         ["inputs"], "all infrastructure files",
         "The tests compare a few numbers of two example networks.",
         ["src/infrastructure/parsers/iss/parse_iss.cc", "src/infrastructure/parsers/iss/parse_track_element.cc",
          "src/infrastructure/parsers/iss/parse_helpers.cc", "src/infrastructure/parsers/iss/iss_files.cc",
          "src/infrastructure/regulatory_data.cc", "src/infrastructure/line.cc"],
         [("element data", "src/infrastructure/parsers/iss/parse_track_element.cc"),
          ("lines and station names", "src/infrastructure/regulatory_data.cc")],
         technique=REF + "the generated description the files were written from"),
    prop("I03", "Sections list their elements in the order of travel",
         "Each section lists its elements from end to end in order of kilometres in both directions, traversals and slices "
         "yield exactly the elements met in that direction, and lengths measured along elements, over section ends or stated "
         "by the section agree.",
         ["inputs"], "all sections",
         "The tests check one example network.",
         ["src/infrastructure/parsers/iss/parse_iss.cc", INC + "infrastructure/graph/section.h",
          INC + "infrastructure/path/length.h", INC + "infrastructure/path/is_path.h"],
         [("sorting of section elements", "src/infrastructure/parsers/iss/parse_iss.cc"),
          ("slices", INC + "infrastructure/graph/section.h")],
         technique=REF + "the order and lengths known from the generated positions"),
    prop("I04", "Stations own their elements and borders join two stations",
         "Every element belongs to exactly one station, stations are found by name and element, and a border connects "
         "exactly the two matching border elements of neighbouring stations; a border without counterpart leads nowhere.",
         ["inputs"], "all networks",
         "The tests check one example network without dangling borders.",
         ["src/infrastructure/parsers/iss/parse_iss.cc", "src/infrastructure/station/station.cc"],
         [("border matching", "src/infrastructure/parsers/iss/parse_iss.cc")],
         technique=REF + "the generated ownership and border pairs"),
    prop("I05", "Station routes are the written paths with the written details",
         "A station route's nodes are exactly the path given by its start, end and switch decisions; its signals, halts, "
         "checkpoint, omissions, extra speed limits, attributes, length and neighbouring stations follow from that path. "
         "Walking a route or any part of it yields each node once, in order, with exactly the omissions and extra limits "
         "that belong to that node.",
         ["inputs"], "all networks and station routes, all parts of a route",
         "The tests walk the routes of one example network in which few details overlap.",
         ["src/infrastructure/parsers/iss/parse_iss.cc", "src/infrastructure/parsers/iss/parse_station_route.cc",
          "src/infrastructure/station/station_route.cc"],
         [("path search and de-duplication", "src/infrastructure/parsers/iss/parse_iss.cc"),
          ("traversal", "src/infrastructure/station/station_route.cc")],
         technique=REF + "random walks through the generated network from which the routes were written"),
    prop("I06", "Station routes are chained exactly where they meet",
         "One station route succeeds another exactly when it starts at the border element the other one leads to; "
         "predecessors are the inverse, and a route can start or end an interlocking route exactly when it has a main signal "
         "or no predecessor or successor.",
         ["inputs"], "all networks and station routes",
         "The tests check one example network.",
         ["src/infrastructure/station/station_route_graph.cc", "src/infrastructure/station/station_route.cc"],
         [("successor search", "src/infrastructure/station/station_route_graph.cc")],
         technique=REF + "the chaining known from the generated network"),
    prop("I07", "Interlocking routes are exactly the ways from signal to signal",
         "Every interlocking route is a connected way a train can take from a main signal (or an entry into the network) to "
         "the next main signal (or the end of the network) without passing another one that is not omitted, avoiding station "
         "routes that need ETCS when changing stations; and every such way is an interlocking route, once, with consecutive "
         "ids.",
         ["inputs"], "all networks and station routes",
         "The tests check one example network and compare no complete set.",
         ["src/infrastructure/interlocking/get_interlocking.cc", "src/infrastructure/station/station_route.cc"],
         [("route enumeration", "src/infrastructure/interlocking/get_interlocking.cc")],
         technique=REF + "an independent enumeration and a walk over every produced route"),
    prop("I08", "Interlocking routes answer and traverse consistently",
         "Size, ends, membership, parts and every traversal of an interlocking route agree with its definition, and the "
         "lookups by start, end, halt, station route and station list exactly the routes concerned.",
         ["inputs"], "all interlocking routes and all parts of them",
         "The tests walk the routes of one example network.",
         ["src/infrastructure/interlocking/interlocking_route.cc", "src/infrastructure/interlocking/get_interlocking.cc"],
         [("traversals", "src/infrastructure/interlocking/interlocking_route.cc"),
          ("lookups", "src/infrastructure/interlocking/get_interlocking.cc")],
         technique=REF + "the concatenated parts of the generated station routes"),
    prop("I10", "Routes exclude each other exactly when they share an element",
         "The elements recorded for an interlocking route are exactly the deciding ones on its way (switches, crosses, main "
         "signals, halts, borders and ends), with and without its own ends; two routes exclude each other exactly when "
         "they share such an element and neither continues the other. Exclusion sets read from a file are the written "
         "ones, and every route knows exactly the sets it is in.",
         ["inputs"], "all networks, interlocking routes and exclusion set files",
         "The tests check one example network and only some of its routes.",
         ["src/infrastructure/exclusion/get_exclusion.cc", "src/infrastructure/exclusion/exclusion_elements.cc",
          "src/infrastructure/exclusion/get_exclusion_graph.cc", "src/infrastructure/exclusion/read_cliques.cc"],
         [("elements used", "src/infrastructure/exclusion/exclusion_elements.cc"),
          ("graph", "src/infrastructure/exclusion/get_exclusion_graph.cc")],
         technique=REF + "the elements known from the generated ways, compared pair by pair"),

    prop("I09", "Damaged files are refused or read, never more",
         "Loading an infrastructure or a timetable from damaged files - missing, repeated, renamed or moved elements, wrong "
         "numbers and texts, cut files - ends: either with an error or with a network or timetable all of whose references "
         "lead to things it has. It never reads or writes outside its memory, follows missing references or hangs.",
         ["inputs"], "all damages of all files",
         "Tests load a few correct files; what a parser does with anything else is decided by none of them.",
         ["src/infrastructure/parsers/iss", "src/timetable/parsers/kss", "src/infrastructure/graph/graph_creation.cc"],
         [("infrastructure parser", "src/infrastructure/parsers/iss/parse_iss.cc"),
          ("graph creation", "src/infrastructure/graph/graph_creation.cc"),
          ("timetable parser", "src/timetable/parsers/kss/parse_kss_timetable.cc")],
         technique="address and undefined behaviour sanitizers and a time limit watch the loading of randomly damaged files; "
                   "what is read is followed reference by reference"),
    prop("I11", "Stations and elements lie at their place on the map",
         "A station lies at the coordinates given for it, else between the nearest stations with coordinates, weighted by "
         "their distance, else at a default place; a missing file is no error. A station's elements form its plan, scaled and "
         "turned rigidly about the station, towards its neighbours; other elements lie on their section, in track order.",
         ["inputs"], "all networks, plan coordinates and coordinate files",
         "The tests never look at a position.",
         ["src/infrastructure/layout/layout.cc", "src/infrastructure/layout/layout_to_gps.cc",
          "src/infrastructure/parsers/parse_station_coords.cc", "src/infrastructure/station/station.cc"],
         [("placement", "src/infrastructure/layout/layout.cc"), ("turning", "src/infrastructure/layout/layout_to_gps.cc")],
         technique=REF + "placement computed anew from the generated plan and coordinates"),

    prop("T01", "Service days behave like a set of calendar days",
         "A train's service days contain exactly the days that were set, however they were created, extended to earlier or "
         "later days or joined; membership, first and last day, iteration over all days or over a range, and equivalence "
         "agree with that set, and asking for days outside the range is refused.",
         ["inputs", "histories"], "all calendar ranges, masks and histories of operations",
         "The tests check a few fixed masks.",
         ["src/timetable/bitfield.cc", INC + "timetable/bitfield.h"],
         [("range and offsets of the day bits", "src/timetable/bitfield.cc")],
         technique=REF + "an ordinary set of days"),
    prop("T02", "A train runs exactly the trips that touch an interval",
         "A train makes one trip per service day, whose events lie between its first departure and last arrival counted from "
         "midnight of that day; the trips listed for an interval are exactly those whose events overlap it, each once, in "
         "order, including trips that began on earlier days.",
         ["inputs"], "all trains, service days and intervals",
         "The tests use a few fixed trains that hardly run past midnight.",
         ["src/timetable/train.cc", "src/timetable/sequence_point.cc", INC + "timetable/train.h"],
         [("departures within an interval", "src/timetable/train.cc")],
         technique=REF + "integer arithmetic over the service days"),
    prop("T03", "A timetable yields exactly its usable trains",
         "Loading a timetable yields each usable train once, with its number, service days, stops with their routes, "
         "kinds and times, length, weight, speed and the forces of its vehicles as written. A train that is worked on, "
         "not supported, names unknown stations, routes or vehicles, or has no unambiguous way is left out without "
         "affecting others, as is every file that is no timetable; a timetable made for another network is refused.",
         ["inputs"], "all timetables, rolling stock and networks",
         "The tests load a few small timetables and check few of their fields.",
         ["src/timetable/parsers/kss/parse_kss_timetable.cc", "src/timetable/timetable.cc",
          "src/rolling_stock/parse_train_series.cc", "src/rolling_stock/rolling_stock.cc",
          "src/rolling_stock/train_physics.cc"],
         [("timetable parser", "src/timetable/parsers/kss/parse_kss_timetable.cc"),
          ("vehicles", "src/rolling_stock/parse_train_series.cc")],
         technique=REF + "the generated trains the files were written from"),
    prop("T04", "A train's path follows its stops from first to last halt",
         "The path of an accepted train is a chain of interlocking routes along exactly the station routes of its stops, "
         "covering the first and the last halt; walking the train yields each node between them once, in order, stopping "
         "exactly at its planned stops, and lengths and ends agree with that walk.",
         ["inputs"], "all trains on all networks",
         "The tests walk trains of one example network, whose routes have one way each.",
         ["src/timetable/parsers/station_route_to_interlocking_route.cc", "src/timetable/train.cc",
          "src/timetable/sequence_point.cc"],
         [("path search", "src/timetable/parsers/station_route_to_interlocking_route.cc"),
          ("traversal", "src/timetable/train.cc")],
         technique=REF + "all ways along the stops, enumerated from the generated network"),
    prop("R01", "The speed profile of a train is its limits cut at every border",
         "The profile covers the walk of the train from first to last halt, cut exactly at main signals, halts and limits, "
         "with every requested event once, at its place. In each part the limit is the one in force there, from the sign or "
         "from the last signal on, and lower only as far as the train needs to brake for what follows.",
         ["inputs"], "all trains, speed limits and event types on all networks",
         "The tests compare a few intervals of one example network.",
         ["src/runtime/interval.cc", INC + "runtime/interval.h", "src/timetable/train.cc"],
         [("intervals", "src/runtime/interval.cc")],
         technique=REF + "a speed profile built from the generated signs, and braking distances"),
    prop("R02", "Running times follow from profile, stops and physics",
         "A train departs its first halt on time, then runs as fast as profile, traction, resistance and braking allow; at a "
         "halt it stays for its minimum stop and never leaves before the planned departure; elsewhere it does not stop. Every "
         "requested event gets one time, in order, and no train is refused or takes longer or shorter than physics allows.",
         ["inputs"], "all trains and stops on all networks",
         "The tests only look at whether times of one example ascend.",
         ["src/runtime/runtime.cc", "src/runtime/runtime_physics.cc", "src/rolling_stock/train_physics.cc"],
         [("phases and timestamps", "src/runtime/runtime.cc"), ("equations of motion", "src/runtime/runtime_physics.cc")],
         technique=REF + "numerical integration in finer steps"),
    prop("R03", "Driving phases obey the equations of motion",
         "Accelerating, a train gains in every half second what tractive force less resistance gives its mass, never above the "
         "wanted and its own top speed and never beyond the given distance; one too weak is refused. Braking takes it down to the "
         "target speed over exactly the distance of constant deceleration, coasting keeps the speed to the end of the distance. A "
         "train pulls and resists as all its vehicles do and is as fast as its slowest vehicle and its own limit permit.",
         ["inputs"], "all trains, speeds and distances",
         "The tests never look at a single phase of a run.",
         ["src/runtime/runtime_physics.cc", "src/rolling_stock/train_physics.cc"],
         [("the three phases", "src/runtime/runtime_physics.cc"), ("forces and top speed", "src/rolling_stock/train_physics.cc")],
         technique=REF + "the same equations over plain numbers, and the exact positions of constant deceleration"),
    prop("S01", "Delay distributions keep their probabilities",
         "A probability distribution holds exactly the probabilities added under each time and speed, whatever the order in "
         "which they came and wherever it had to grow; sums, iteration and distances agree with it. The distributions of halt "
         "and running time disruptions are within their stated ranges and add up to one.",
         ["inputs", "histories"], "all distributions and insertion orders",
         "The tests insert a few entries in ascending order.",
         [INC + "simulation/dpd.h", INC + "simulation/disruption.h", INC + "simulation/granularity.h"],
         [("growth and offsets", INC + "simulation/dpd.h"), ("iterators", INC + "simulation/dpd.h")],
         technique=REF + "an ordinary map from time and speed to probability"),
    prop("S02", "Algorithms on ordering graphs are exact",
         "Removing transitive edges from an acyclic ordering graph keeps exactly the edges that no longer path replaces, so "
         "reachability stays the same and incoming mirror outgoing edges. A cycle is found exactly when there is one and is a "
         "shortest one, and the check of exclusion paths holds exactly when all users of an exclusion set are ordered.",
         ["inputs"], "all ordering graphs",
         "The tests check hand-made graphs of a few nodes.",
         ["src/simulation/ordering/remove_transitive_edges.cc", "src/simulation/ordering/get_cycle.cc",
          "src/simulation/ordering/check_exclusion_paths.cc", INC + "utls/graph/traversal.h"],
         [("transitive reduction", "src/simulation/ordering/remove_transitive_edges.cc"),
          ("breadth first search", "src/simulation/ordering/get_cycle.cc")],
         technique=REF + "reachability closures and shortest paths of the same graph"),
    prop("S03", "The ordering graph orders the trips of a timetable",
         "Every selected trip passing a main signal has one consecutive node per interlocking route of its path, linked in "
         "order of travel. The users of an exclusion set are linked in the order in which they enter it; the graph keeps "
         "exactly those links that no longer way replaces, with incoming links mirroring outgoing ones.",
         ["inputs", "schedules"], "all timetables, filters and exclusion sets on all networks",
         "The tests build the graphs of two example timetables and look for cycles.",
         ["src/simulation/ordering/ordering_graph.cc", INC + "simulation/ordering/ordering_graph.h",
          "src/simulation/ordering/remove_transitive_edges.cc"],
         [("orderings and edges", "src/simulation/ordering/ordering_graph.cc")],
         technique=REF + "an ordering of all usages by their entry time and its transitive reduction"),
    prop("C02", "Loading does the same on any number of threads",
         "Loading infrastructures and timetables and computing exclusions, orderings and the map export gives the same result "
         "on any number of threads and processors, in every interleaving, and its threads never access the same memory at the "
         "same time without synchronisation.",
         ["schedules", "inputs"], "all interleavings of the threads that load and compute, over all networks and timetables",
         "A test sees the few interleavings of its machine and compares with expectations that hold in most of them.",
         ["src/infrastructure/exclusion", "src/timetable/parsers/kss/parse_kss_timetable.cc",
          "src/simulation/ordering/ordering_graph.cc", "include/soro/base/error.h",
          "web/server/src/modules/tiles/osm_export/osm_export.cc"],
         [("elements used by routes", "src/infrastructure/exclusion/get_exclusion.cc"),
          ("exclusion graph", "src/infrastructure/exclusion/get_exclusion_graph.cc"),
          ("timetable files", "src/timetable/parsers/kss/parse_kss_timetable.cc"),
          ("error statistics", "include/soro/base/error.h")],
         technique="thread sanitizer on every parallel part, under varied numbers of threads and perturbed schedules, and "
                   "comparison of all results with those of a single thread"),
    prop("W01", "The server replies with the loaded infrastructure",
         "Requests for stations, elements, halts, station routes, interlocking routes, exclusion sets and infrastructures are "
         "answered with exactly the content of the loaded networks: identities, names, positions, paths, bounding boxes and "
         "references. Requests for what does not exist are refused with the matching status; no request makes the server "
         "fail, and every content reply is valid JSON.",
         ["inputs"], "all infrastructures and all request targets",
         "The server has no tests.",
         ["web/server/src/modules/infrastructure", "web/server/src/soro_server.cc",
          "web/server/include/soro/server/modules/infrastructure"],
         [("request handlers", "web/server/src/modules/infrastructure"),
          ("routing of requests", "web/server/src/soro_server.cc")],
         technique=REF + "the generated network and its own derivation of paths and boxes",
         note=SAN + "The HTTP and tile libraries the server builds on are not part of the repository and replaced by "
              "stand-ins."),
    prop("W02", "The server replies with the loaded timetables and orderings",
         "Requests for timetables and orderings of trips are answered with exactly the trips, halts and order the library "
         "computes for the given filter, and with an order relation restricted to them. Requests for unknown timetables, "
         "infrastructures and unusable filters are refused, and none makes the server fail.",
         ["inputs"], "all timetables, filters and request targets",
         "The server has no tests.",
         ["web/server/src/modules/timetable", "web/server/src/modules/ordering",
          "web/server/include/soro/server/modules/timetable", "web/server/include/soro/server/modules/ordering"],
         [("timetable replies", "web/server/src/modules/timetable"), ("ordering replies", "web/server/src/modules/ordering")],
         technique=REF + "the same timetable loaded directly from its files",
         note=SAN + "The HTTP and tile libraries the server builds on are not part of the repository and replaced by "
              "stand-ins."),
    prop("W03", "Everything of an infrastructure can be found by search",
         "The search index of each infrastructure holds every station, element, station route and interlocking route under "
         "each of its names, with its kind, number and bounding box, and nothing else. Searching for a name finds what has "
         "it, a search never returns anything of another infrastructure, and search texts that are too short are refused.",
         ["inputs"], "all infrastructures and search texts",
         "The server has no tests.",
         ["web/server/src/modules/search", "web/server/include/soro/server/modules/search"],
         [("search index", "web/server/src/modules/search/search_module.cc"),
          ("search replies", "web/server/src/modules/search/serve_search.cc")],
         technique=REF + "the names and positions of the generated network",
         note=SAN + "The fuzzy matching itself is a third-party library replaced by a stand-in; its ranking is not judged."),
    prop("W04", "The map export shows the infrastructure",
         "The OpenStreetMap file of an infrastructure holds every station and element exactly once with its identity and "
         "position, joins neighbours within a station by exactly one way and borders of neighbouring stations by exactly one "
         "smooth chain of intermediate points; numbers are unique, references resolve and positions are finite. Files are "
         "exported, and tiles imported from them, exactly when missing, outdated or asked for.",
         ["inputs", "histories"], "all infrastructures and leftovers of earlier starts",
         "The server has no tests.",
         ["web/server/src/modules/tiles", "web/server/include/soro/server/modules/tiles"],
         [("export", "web/server/src/modules/tiles/osm_export/osm_export.cc"),
          ("interpolation between stations", "web/server/src/modules/tiles/osm_export/interpolation.cc"),
          ("when to export", "web/server/src/modules/tiles/tiles_module.cc")],
         technique=REF + "the neighbours, stations and positions of the loaded network",
         note=SAN + "The tile library that renders the export is not part of the repository and replaced by a stand-in."),
    prop("I13", "The exclusion graph tool writes every pair of exclusive routes once",
         "The tool writes one line for every interlocking route of an infrastructure, holding exactly the routes before it that "
         "exclude it, whatever the file held before. Without a usable infrastructure or output it says so and writes nothing.",
         ["inputs"], "all infrastructures and arguments",
         "The tool has no tests.",
         ["tools/export_exclusion_graph/src/export_exclusion_graph.cc"],
         [("options and output", "tools/export_exclusion_graph/src/export_exclusion_graph.cc")],
         technique=REF + "the exclusions loaded from the same files"),
    prop("G01", "Helpers on map data lose and invent nothing",
         "Sorting map data removes exactly the repeated nodes, ways and relations and leaves the others in the order of their "
         "numbers. Nodes, ways of a node, places in a way and tags are found exactly when they exist. A node inserted next to "
         "another one joins exactly the ways of that node, right beside it. Combining lines yields every node, way and relation "
         "of every line once, and one colour per line. Kilometre texts and distances on the globe are evaluated correctly.",
         ["inputs"], "all map data and texts",
         "The tests of the tool use a handful of small files.",
         [GO + "osm-utils", GO + "combine-lines", GO + "db-utils/find-nodes/find-nodes-toolbox.go"],
         [("sorting and removal of duplicates", GO + "osm-utils/sort-osm.go"), ("lookups and insertion", GO + "osm-utils/osm-toolbox.go"),
          ("combination of lines", GO + "combine-lines/combine-lines.go")],
         technique=GOT + "direct definitions on the same data", note=GON),
    prop("G02", "A place on a line is found from its anchors",
         "From two anchors with known kilometres, the place of a kilometre on a track is a node of that track: the anchor itself "
         "if it has this kilometre, the same node where both anchors lead to one, and else the one of both results whose position "
         "fits better. The search follows the track over the ends of its ways, in either orientation. Without usable anchors it "
         "says so; it never ends in a crash or runs forever.",
         ["inputs"], "all tracks, cuts into ways, orientations, anchors and kilometres",
         "The tests of the tool walk along one line of a single way.",
         [GO + "db-utils/find-nodes"],
         [("choice between results", GO + "db-utils/find-nodes/find-best-osm-node.go"),
          ("walk along a track", GO + "db-utils/find-nodes/go-direction.go"),
          ("continuation over way ends", GO + "db-utils/find-nodes/find-next-way.go")],
         technique=GOT + "distances along the generated track in both directions from each anchor", note=GON),
    prop("G03", "Planning data is mapped onto lines without loss",
         "Every element of the planning data of a line with enough anchors is found on the line afterwards, exactly once, with its "
         "kind, name and direction, and in the search index of its kind under its node; anchored elements lie where their anchor "
         "is. All nodes and ways of the line are kept, new nodes have unused numbers and lie on its ways, and other lines are not "
         "touched. The files of planning data are joined per line without losing or repeating a point.",
         ["inputs"], "all lines, planning data, anchors and divisions into files",
         "The tests of the tool map single elements one at a time.",
         [GO + "db-utils"],
         [("reading planning data", GO + "db-utils/db-parser.go"), ("mapping", GO + "db-utils/db-mapper.go"),
          ("anchors and elements", GO + "db-utils/mapper")],
         technique=GOT + "the elements and the track the case was generated from",
         note=GON),
    prop("G04", "The map file the tool writes is complete",
         "A run of the tool yields a file with every way, node and relation of the lines of the base map once, in order, with a "
         "colour per line, every station and halt once with its name, and the planning data and additional file merged in; the "
         "search index beside it lists exactly the stations and mapped elements. Leftovers of earlier runs change nothing. "
         "Unusable arguments and inputs are refused with an error and no output.",
         ["inputs", "histories"], "all base maps, planning data, additional files, arguments and leftovers",
         "No test runs the tool.",
         [GO + "main.go", GO + "osm-utils/generate-stations.go", GO + "osm-utils/get-refs.go", GO + "combine-lines"],
         [("the run", GO + "main.go"), ("stations", GO + "osm-utils/generate-stations.go")],
         technique=GOT + "the generated base map, read back from the output files", note=GON),
]

NOT_APPLICABLE = []

HOOKS = {"guard": "none", "enable": "no hooks: the checks observe the unmodified sources through their public interface",
         "source_commits": []}


def main():
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import props
    na = {n["property"] for n in NOT_APPLICABLE}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in ALL:
            assert len(p["title"]) <= 80, p["id"]
            assert p["id"] in props.PROPS or p["id"] in na, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"], "state": p["state"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None,
                },
            }) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": "runtime monitoring: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"] or SAN + "Inputs that are not generated are not judged.",
    } for p in ALL if p["id"] not in na]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": HOOKS,
                   "checks": checks, "not_applicable": NOT_APPLICABLE}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
