"""What runs for every property: (target, variant, cases quick, cases thorough[, options])."""

ASSUMPTIONS = [
    "third-party libraries that are absent offline are replaced by the stand-ins in /verif/shim",
    "built with g++-12; what no generated case reaches is not judged",
]


def both(target, quick, thorough, dbg=True):
    runs = [(target, "asan", quick, thorough)]
    if dbg:
        runs.append((target, "dbg", max(1, quick // 2), max(1, thorough // 2)))
    return runs


_GEN = ("Each case draws its inputs from a generator seeded with the run's seed and the case number. ")

_NET = (_GEN + "A case generates a network (stations, lines, sections with elements, switches, crosses, cross switches, "
        "kilometre jumps, line switches, borders, dead ends), writes its files and loads them with the real parser. ")

_SRV = (_NET + "The networks are written to the source folders of the server, which is started on them. ")

_GO = {"timeout": 60}
_GOA = ["the libraries of the tool (pkg/errors, urfave/cli, x/net/html/charset) are replaced by the stand-ins in /verif/go/stubs"]

PROPS = {
    "U01": {
        "runs": both("u_lazy", 20000, 200000),
        "rule": _GEN + "A case is a producer (plain, nested, mapped, failing or single-pass) with a random sequence "
                "and a consumer that reads it, abandons it early, moves it or copies it; it is non-trivial when more than "
                "two elements or one failure crossed the boundary, and distinct by sequence and consumer.",
        "assumptions": ["the function and source given to a mapped sequence outlive it (its usage contract)"],
    },
    "U02": {
        "runs": both("u_num", 8000, 100000),
        "rule": _GEN + "Numbers near every representation limit, their spellings, and texts that are no numbers; "
                "distinct by input text or value.",
    },
    "U03": {
        "runs": both("u_geo", 10000, 60000),
        "rule": _GEN + "Positions, distances and bearings over the whole sphere, boxes around point sets, planar polar "
                "forms; distinct by position.",
        "assumptions": ["the code base's own constant for pi (3.1415) is taken as given for bearings"],
    },
    "U04": {
        "runs": both("u_time", 10000, 60000),
        "rule": _GEN + "Points in time around epoch, leap days, year ends and the limits of the type, with durations of "
                "either sign; distinct by operands.",
    },
    "U05": {
        "runs": both("u_queue", 10000, 60000),
        "rule": _GEN + "A history of pushes, emplacements and pops with duplicates on integer, composite and move-only "
                "payloads; non-trivial when elements were popped in between pushes.",
    },
    "U06": {
        "runs": both("u_algo", 10000, 60000),
        "rule": _GEN + "Random sequences (empty, sorted, with duplicates, in vectors, lists, deques, sets) through every "
                "sequence algorithm against a direct definition; texts in buffers of exactly their size.",
    },
    "U07": {
        "runs": both("u_container", 10000, 60000),
        "rule": _GEN + "Random operation sequences on the containers and iterators against standard containers.",
    },
    "U08": {
        "runs": both("u_type", 6000, 30000),
        "rule": _GEN + "The whole vocabulary once, then names, mutated names and random type sets and counters; "
                "non-trivial when counters moved several times.",
    },
    "U09": {
        "runs": both("u_units", 10000, 60000),
        "rule": _GEN + "Random magnitudes in random units and integer widths; distinct by operands.",
    },
    "U10": {
        "runs": both("u_err", 6000, 30000) + [("u_err", "tsan", 60, 600)],
        "rule": _GEN + "Every error code against every other one, counters under one and several threads, assertions that "
                "hold and fail.",
    },
    "U11": {
        "runs": both("u_file", 600, 4000, dbg=False),
        "rule": _GEN + "Contents of sizes around buffer borders, all zero, text control characters or random, written "
                "several times over one file; non-trivial above ten bytes.",
    },
    "U12": {
        "runs": both("u_tmpl", 4000, 20000),
        "rule": _GEN + "Random tuples sliced at every pair of positions and visited at every index; type computations "
                "compared with the same computation on numbers.",
    },
    "U13": {
        "runs": both("u_graph", 10000, 60000),
        "rule": _GEN + "Random directed graphs (dense, sparse, chains, rings, self loops, disconnected) and start nodes; "
                "non-trivial with more than two edges.",
    },
    "U14": {
        "runs": both("u_exset", 10000, 60000),
        "rule": _GEN + "Random histories of set operations on sets of numbers clustered at word borders; every result is "
                "compared with an ordinary set.",
    },
    "U15": {
        "runs": both("u_serial", 6000, 40000),
        "rule": _GEN + "Histories of moving, swapping, replacing and growing collections of data sets; content and place of "
                "every one are compared after every step.",
    },
    "U17": {
        "runs": both("u_poly", 6000, 40000),
        "rule": _GEN + "Random polynomials up to degree four and continuous or broken piecewise functions, evaluated "
                "inside pieces, at and next to every border.",
    },

    "I01": {
        "runs": [("m_graph", "asan", 4000, 60000)],
        "rule": _NET + "Non-trivial with more than two sections, distinct by their shape.",
        "min_stats": {"merges": 100},
    },
    "I02": {
        "runs": [("m_graph", "asan", 4000, 60000)],
        "rule": _NET + "Non-trivial with more than two sections, distinct by their shape.",
        "min_stats": {"halts": 100, "signals": 100, "slopes": 20, "eotds": 20, "speed_limits": 100},
    },
    "I03": {
        "runs": [("m_graph", "asan", 4000, 60000)],
        "rule": _NET + "Non-trivial with more than two sections, distinct by their shape.",
    },
    "I04": {
        "runs": [("m_graph", "asan", 4000, 60000)],
        "rule": _NET + "Non-trivial with more than two sections, distinct by their shape.",
        "min_stats": {"border_pairs": 500},
    },
    "I05": {
        "runs": [("m_route", "asan", 4000, 60000)],
        "rule": _NET + "Station routes are random walks with random details; non-trivial with more than two routes.",
        "min_stats": {"extra_speed_limits": 200},
    },
    "I06": {
        "runs": [("m_route", "asan", 4000, 60000)],
        "rule": _NET + "Station routes are random walks; non-trivial with more than two routes.",
        "min_stats": {"successions": 500},
    },
    "I07": {
        "runs": [("m_lock", "asan", 2500, 25000)],
        "rule": _NET + "Networks with at most some thousand interlocking routes; non-trivial with more than three.",
        "min_stats": {"routes_over_three": 100},
    },
    "I08": {
        "runs": [("m_lock", "asan", 2500, 25000)],
        "rule": _NET + "Networks with at most some thousand interlocking routes; non-trivial with more than three.",
        "min_stats": {"routes_walked": 1000, "following": 100, "halts": 100},
    },

    "I10": {
        "runs": [("m_excl", "asan", 1500, 15000)],
        "rule": _NET + "Together with random exclusion set files; non-trivial with more than three interlocking routes.",
        "min_stats": {"set_files": 100, "exclusions": 2000, "many_sections": 500, "one_section": 500},
    },
    "I09": {
        "runs": [("m_fuzz", "asan", 350, 5000)],
        "rule": _NET + "Its files, or those of a timetable over it, are then damaged eight times: elements removed, repeated, "
                "renamed or moved, attributes and texts replaced, files cut or with changed bytes; each time they are loaded "
                "and what was read is followed. Non-trivial with a network that can be loaded undamaged.",
        "assumptions": ["Debug assertions may stop a debug build on damaged files; only the release behaviour is judged."],
        "min_stats": {"infrastructures_read": 600, "infrastructures_refused": 150, "timetables_read": 50,
                      "timetables_refused": 10, "trains": 100},
    },
    "I11": {
        "runs": [("m_lay", "asan", 2500, 25000)],
        "rule": _NET + "Plan coordinates for every element and a coordinates file naming some, all or none of the stations, "
                "with missing values, unknown stations, any column order and decimal commas, or no such file; non-trivial "
                "with more than two stations.",
        "assumptions": ["Turns of stations whose best two candidates are nearly equally good are not judged.",
                        "Plan coordinates are given on the ends of a section, as in the test data."],
        "min_stats": {"positions_given": 1500, "positions_between": 300, "positions_beside_one": 300, "turns_checked": 2000,
                      "without_coordinate_file": 100, "element_positions": 20000},
    },
    "T01": {
        "runs": both("u_bits", 6000, 60000),
        "rule": _GEN + "Random calendar ranges, day masks and histories of set, join and range queries.",
        "min_stats": {"partial_ranges": 500, "grown_front": 100, "grown_back": 100, "joins": 500, "equivalents": 500, "refusals": 5000},
    },
    "T02": {
        "runs": [("m_trip", "asan", 6000, 60000)],
        "rule": _GEN + "Random service days, point times reaching up to four days past midnight, and intervals whose "
                "borders lie on, next to or far from the borders of trips.",
        "min_stats": {"trips_past_midnight": 1000, "partial_intervals": 1000, "empty_intervals": 500},
    },
    "T03": {
        "runs": [("m_tt", "asan", 2500, 25000)],
        "rule": _NET + "Together with random rolling stock and a timetable over its station routes, spread over several "
                "files, in which some trains are unusable; non-trivial with more than one usable train.",
        "min_stats": {"trains": 1000, "dropped": 400, "other_files": 30, "refused": 10},
    },
    "T04": {
        "runs": [("m_tt", "asan", 2500, 25000)],
        "rule": _NET + "Together with a timetable of trains on unambiguous and ambiguous ways; non-trivial with a path of "
                "more than one interlocking route.",
        "min_stats": {"paths": 1000, "path_routes": 2000},
    },
    "R01": {
        "runs": [("m_run", "asan", 2500, 25000)],
        "rule": _NET + "Sections are up to 4 km long and richly signed with speed limits, in force from here or from the last "
                "signal, general and per route; the events asked for are a random set of element types; non-trivial with a "
                "usable train.",
        "min_stats": {"profiles": 600, "intervals": 2000, "reduced": 150, "limit_changes": 400, "initial_known": 50},
    },
    "R02": {
        "runs": [("m_run", "asan", 2500, 25000)],
        "rule": _NET + "Trains of one to three vehicles with random tractive force, resistance, weight and top speed run over "
                "sections of up to 4 km; non-trivial with a usable train.",
        "min_stats": {"runs": 600, "events": 2000, "too_weak": 30},
    },
    "R03": {
        "runs": both("u_phys", 12000, 120000),
        "rule": _GEN + "Trains of one to three vehicles with piecewise tractive force and quadratic resistance, some too weak to "
                "start, accelerate, brake and coast between random speeds over up to 20 km.",
        "assumptions": ["Inputs for which rounding decides about one step more or less, or about the piece of the tractive force, "
                        "are left out."],
        "min_stats": {"brakes": 4000, "coasts": 4000, "by_distance": 1000, "by_speed": 1500, "too_weak": 150},
    },
    "S01": {
        "runs": both("u_dpd", 3000, 30000),
        "rule": _GEN + "Random entries of one- and two-level distributions, inserted in random order.",
        "min_stats": {"grown_front": 500, "far_front": 200},
    },
    "S03": {
        "runs": [("m_ord", "asan", 2500, 25000)],
        "rule": _NET + "Together with trains over it, their trips filtered by train and interval, and random exclusion sets of "
                "its interlocking routes; non-trivial with more than one trip.",
        "assumptions": ["Users entering an exclusion set in the same second may be ordered either way; the edges of such a "
                        "graph are only checked for being mirrored."],
        "min_stats": {"trips": 2000, "nodes": 5000, "edges": 5000, "dropped_edges": 800},
    },
    "S02": {
        "runs": [("m_order", "asan", 6000, 60000)],
        "rule": _GEN + "Random ordering graphs, acyclic for the reduction, arbitrary for the search for cycles, with "
                "random exclusion sets.",
        "min_stats": {"chains": 300, "removed": 1000, "cyclic": 500, "acyclic": 300, "ordered": 100, "unordered": 100},
    },
    "C02": {
        "runs": [("w_par", "tsan", 150, 2500)],
        "rule": _NET + "Together with exclusion sets and, in most cases, a timetable in up to three files it is loaded with one "
                "thread and again with two to eight, on that or another number of processors, now and then unknown; non-trivial with more than one interlocking route.",
        "assumptions": ["The thread pool of the utl library is replaced by a stand-in that starts the given number of threads "
                        "and perturbs their order."],
        "min_stats": {"loads": 300, "threads": 800, "exclusions": 100000, "trains": 250, "ordering_nodes": 1500},
    },
    "W01": {
        "runs": [("w_srv", "asan", 2500, 25000)],
        "rule": _SRV + "Requests for everything there is, for things of other infrastructures, for numbers past the last one and "
                "for malformed paths; non-trivial with a served infrastructure.",
        "min_stats": {"elements": 700, "exclusion_sets": 80, "halts": 60, "refused": 900, "station_routes": 120,
                      "interlocking_routes": 300},
    },
    "W02": {
        "runs": [("w_srv", "asan", 1600, 16000)],
        "rule": _SRV + "With up to two timetables each, requested by interval, train filter and path; non-trivial with a served "
                "timetable.",
        "min_stats": {"timetables": 25, "graphs": 25, "graph_edges": 25, "trains": 30},
    },
    "W03": {
        "runs": [("w_srv", "asan", 2500, 25000)],
        "rule": _SRV + "Searches for names that exist, random parts of them and other texts; non-trivial with entries.",
        "min_stats": {"entries": 300, "searches": 150},
    },
    "W04": {
        "runs": [("w_srv", "asan", 3000, 30000)],
        "rule": _SRV + "Over leftovers of an earlier start, everything at one place in some cases; non-trivial with an exported "
                "file.",
        "min_stats": {"osm_files": 2000, "osm_chains": 4000, "osm_kept": 300, "osm_same_place": 300},
    },
    "I13": {
        "runs": [("m_xtool", "asan", 1200, 12000)],
        "rule": _NET + "The tool is run on its files, over leftovers of an earlier run in some cases; non-trivial with routes that "
                "exclude each other.",
        "assumptions": ["the tool is run within the process of the harness, with a stand-in for the parser of its arguments"],
        "min_stats": {"pairs": 20000, "routes": 3000, "overwritten": 100, "refused": 30},
    },
    "G01": {
        "runs": [("g_osm", "go", 4000, 40000, _GO)],
        "rule": _GEN + "Map data with random duplicates, ids, tags and ways through the helpers; directories of lines to combine; "
                "texts of kilometres; pairs of places. Non-trivial with duplicates, hits or several lines.",
        "assumptions": _GOA,
        "min_stats": {"duplicates": 4000, "insertions": 2000, "lines_combined": 500},
    },
    "G02": {
        "runs": [("g_osm", "go", 40000, 400000, _GO)],
        "rule": _GEN + "A line of up to some dozen nodes cut into ways, some stored the other way around, some nodes with further ways "
                "attached, and anchors with kilometres on it; places are sought beside, at and between them. Non-trivial with a "
                "place between nodes.",
        "assumptions": _GOA,
        "min_stats": {"sought": 8000, "same_node": 1000, "both_ends": 500, "between": 1000, "exact": 300, "no_anchors": 100},
    },
    "G03": {
        "runs": [("g_osm", "go", 4000, 40000, _GO)],
        "rule": _GEN + "Lines of track as map data and planning data in several files with points of every kind, of which none, some or "
                "all can be anchored by name; non-trivial with elements.",
        "assumptions": _GOA,
        "min_stats": {"elements": 5000, "anchors": 1000, "lines_mapped": 300, "lines_without_anchors": 50},
    },
    "G04": {
        "runs": [("g_osm", "go", 1200, 12000, _GO)],
        "rule": _GEN + "A base map with lines, stations and halts, planning data and an additional file; the tool is run on it as a "
                "process of its own, over leftovers of earlier runs, with and without mapping. Non-trivial with lines.",
        "assumptions": _GOA + ["osmium is replaced by a stand-in that does what `osmium tags-filter` documents"],
        "min_stats": {"tool_runs": 400, "stations": 300, "additional": 50, "elements": 1500, "lines_mapped": 100},
    },
}
