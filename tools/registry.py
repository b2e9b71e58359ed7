"""Per property: engines (with number of parallel shards), effort, level and what counts."""

FLOAT = "Costs are compared with a tolerance of 1e-4 (relative and absolute), above the 1e-6 the program documents as accuracy."
SEEDED = "Workloads are pseudo-random from VERIF_SEED; inputs outside the generators' ranges are not seen."


def p(rule, must_see=(), engines=None, cases=100000, quick_s=20, thorough_s=600, level="exploration", assumptions=()):
    return dict(
        rule=rule, must_see=list(must_see), engines=engines or {"lib": 8}, cases=cases, quick_s=quick_s,
        thorough_s=thorough_s, level=level, assumptions=[SEEDED] + list(assumptions),
    )


PROPS = {
    "R01": p(
        "Random maps (random, grid, line, ring, star, components, dense, tree, ladder; loops, parallel edges, zero weights) "
        "are written as files and built; all or many pairs are routed with two weightings. Non-trivial: a path of several edges was found; "
        "distinct by edges and weights.",
        ["queries", "paths", "paths_with_several_edges"], assumptions=[FLOAT]),
    "R02": p(
        "Random maps are contracted by an own contraction in random node orders (with and without witness search); both algorithms run on "
        "both graphs. Non-trivial: a found path used shortcuts; distinct by contracted edges and weights.",
        ["queries", "paths_with_shortcuts"], assumptions=[FLOAT]),
    "R03": p(
        "Maps with random (also nested, cheap, circular) shortcuts; every found path is checked edge by edge, flattened and summed up. "
        "Non-trivial: a path had shortcuts; distinct by edges and weights.",
        ["paths", "paths_with_shortcuts", "paths_with_circular_shortcuts", "nested_paths", "walks_built_by_hand"], assumptions=[FLOAT]),
    "R04": p(
        "One router is used over random histories of several graphs of different size, weightings and algorithms, each answer is compared with "
        "a fresh router's and with the history before. Non-trivial: histories with paths; distinct by history.",
        ["queries", "paths", "switches_of_graph_or_config", "changes_in_place"], assumptions=[FLOAT]),
    "G01": p(
        "Random maps in random line- and column-orders with comments, blank lines, number-formats, repeated lines are built and compared with the "
        "model. Non-trivial: more than one edge-line; distinct by edge-lines and layout.",
        ["maps", "repeated_edge_lines"]),
    "G02": p(
        "Every view (lookups by id, outgoing and incoming edges, edges between, half-edges) of built graphs is compared with the list of edges. "
        "Non-trivial: more than one edge; distinct by edges.",
        ["lookups", "nodes_without_leaving_edges", "nodes_without_arriving_edges"]),
    "G03": p(
        "Maps with contracted or arbitrary shortcuts and repeated lines in shuffled order are built, compared line by line, written and read again. "
        "Non-trivial: shortcuts were checked; distinct by edge-lines.",
        ["shortcuts", "repeated_edge_lines"]),
    "W01": p(
        "Built graphs are written with random columns; the text is parsed independently, read again and written again. Non-trivial: file was compared; "
        "distinct by the file's bytes.",
        ["written_lines_compared", "read_again", "shortcuts"]),
    "W02": p(
        "Edges of built graphs are exported with random columns; every value is compared, files are merged back. Distinct by the file's bytes.",
        ["written_lines_compared", "coordinate_or_position_values", "merged_back", "external_values"]),
    "W03": p(
        "Every writer is run on existing targets (empty, small, big, linked, dangling link, directory, previous export), on new ones and "
        "simultaneously on one; all files of the directory are compared before and after. The whole program as well, with targets being results, inputs (spelled differently), "
        "each other, previous exports or those of programs running at the same time. Distinct by case, writer and kind of target.",
        ["refused: a file", "refused: a link to a file", "exports_to_new_files", "simultaneous_exports", "programs refusing existing", "programs refusing input",
         "programs refusing same target", "programs refusing previous export", "simultaneous programs"],
        engines={"lib": 5, "cli": 3}),
    "W04": p(
        "Every writer is run with a write-fault (limit of the file-size, short write then error) at every byte of small files and around buffers, "
        "ends and random bytes of bigger ones, and with write-calls that fail once, fail from some call on, are interrupted or write only a part. "
        "The whole program exports with single files or all of them finding too little place. Distinct by the complete file's bytes and writer.",
        ["write_faults", "reported", "complete", "files_exceeding_the_buffer", "failed_or_partial_writes", "programs with place for everything",
         "programs reporting a fault of writing"], level="fault_enumeration", engines={"lib": 5, "cli": 3}),
    "M01": p(
        "Maps with random values (zero, tiny, around the accuracy, huge, negative, not-a-number) are built with and without normalising, compared, "
        "written de-normalised. Non-trivial: maps whose values were compared; distinct by edge-lines.",
        ["bad_values_refused", "means_of_zero_or_infinity_refused", "normalised_maps", "normalised_values_clamped", "special_values", "denormalised_values", "values"]),
    "M02": p(
        "Random recipes (distance, copy, conversion, calculation, constant, some of them impossible) over random maps; all metrics of all edges are recomputed. "
        "Distinct by recipes and edge-lines.",
        ["haversine", "copy", "convert", "calc", "custom", "refused", "exported_rows", "values", "columns_of_nodes", "normalised_recipes", "edge_ids_generated"]),
    "M03": p(
        "Edge-data files in random line- and column-order, with and without header, intact and damaged, are merged into random maps; all metrics of all "
        "edges are compared. Distinct by file and edge-lines.",
        ["merged_lines", "refused", "values"]),
    "W05": p(
        "Random real paths (also with shortcuts flattened before, and walks built by hand) are exported as vehicles; the file is parsed independently. The vehicles the whole program exports while evaluating, "
        "also on contracted graphs, are compared with the best paths. Distinct by the file's bytes.",
        ["vehicles", "vehicles_of_several_edges", "nodes_of_vehicles", "built_by_hand", "vehicles of the program"], engines={"lib": 6, "cli": 2}, assumptions=[FLOAT]),
    "T01": p(
        "Route-pairs are generated on random graphs (empty, disconnected, tiny) with random limits and seeds; the file is parsed independently and by the "
        "library, repeated with the same and with other seeds. Distinct by graph, limit and seed.",
        ["all_pairs", "limited_pairs", "full_limits", "other_seeds", "own_pairs_read", "graphs_without_nodes", "pairs"]),
    "X01": p(
        "Intact maps (text and binary), edge-data and route-pairs files are damaged (bytes, tokens, lines, references, ends, encodings, missing and odd files) and read; an own "
        "strict reader says whether the damage changed the meaning; read-calls fail, are interrupted or return only a part. Distinct by the damaged bytes.",
        ["maps_refused", "damaged_maps_with_intact_meaning", "route_pairs_refused", "edge_data_refused", "odd_files_refused",
         "extracts_refused", "checksums_refused", "extracts_with_missing_nodes_refused", "failed_or_partial_reads", "failed_reads_reported"]),
    "B01": p(
        "Random extracts (all street-types with their spellings, speeds, one-way tags, unknown tags, short, round and parallel ways) are written by an own "
        "encoder in random encodings (dense or plain nodes, compressed or raw, block sizes and orders, granularities, offsets) and built for random vehicles; "
        "the repository's real extract as well. Non-trivial: networks of several edges; distinct by nodes and edges.",
        ["networks", "networks_without_edges", "edges_of_the_real_extract", "Car picky", "Car not picky", "Bicycle picky", "Bicycle not picky",
         "Pedestrian picky", "Pedestrian not picky", "unprovidable_columns_refused"]),
    "B02": p(
        "The same extract is encoded in different blocks and encodings and built with differing numbers of processors, under load and several times at once; "
        "graphs and exports are compared bit by bit. Text-maps and the real extract as well. Distinct by graph.",
        ["builds", "builds_on_one_cpu", "builds_on_several_cpus", "builds_of_text_maps", "builds_of_big_text_maps", "builds_of_the_real_extract"]),
    "C01": p(
        "Random configs of all sections in random order of keys, intact (all values compared with the model) and spoiled (unknown keys and ids, missing and "
        "duplicate columns, wrong types and units), are read and used. Distinct by the config's text.",
        ["configs_with_all_values_compared", "exports_of_known_columns", "exports_of_unknown_columns_refused", "files_refused", "graphs_built"]
        + ["refused: " + x for x in ("Balancing", "EdgesInfo", "Evaluating", "Graph", "Parsing", "RoutePairs", "Routing", "columns")],
        engines={"gpl": 8}),
    "E01": p(
        "Random maps with several metrics and alternatives are explored over random considered metrics and tolerances (unlimited, tight, zero) with a reused and a "
        "fresh explorator; all answers are compared with all-pairs optima, sampled weightings and complete enumerations. The convex-hull library (CGAL) is replaced by "
        "an own brute-force one. Non-trivial: several paths explored; distinct by graph, pair and setup.",
        ["explorations", "explorations_with_alternatives", "explored_paths", "limited", "unreachable", "paths_optimal_for_a_weighting", "paths_not_dominated",
         "tolerated_optima_found", "completely_explored", "explorations_of_many_alternatives", "explored_beyond_initial_paths"],
        engines={"gpl": 8}, assumptions=[FLOAT, "The crate nd-triangulation (CGAL) is not available here; a stand-in with the same interface and id semantics is linked."]),
    "L01": p(
        "The real program evaluates random maps (plain, contracted by an own contraction) with 1 to 16 threads, with and without delays injected around futex-calls "
        "and restricted CPUs; workloads, vehicles and exit status are compared with an own shortest-path oracle (edge by edge where the best path is unique, else by "
        "conservation of flow and costs), thread numbers with each other, explored routes with the alternatives found by plain exploration. Unknown nodes make workers fail. "
        "Distinct by map and pairs, and by orders in which routes were finished.",
        ["workloads_compared_exactly", "runs_with_several_threads", "runs_with_injected_delays", "runs_on_few_cpus", "runs_with_several_chunks_of_work",
         "runs_on_contracted_graphs", "runs_with_exploration", "vehicles", "pairs_with_all_alternatives_chosen", "failing_workers", "runs_without_workers",
         "thread_numbers_compared"],
        engines={"cli": 8}, assumptions=[FLOAT, "CGAL is replaced by a stand-in when exploring."]),
    "L02": p(
        "The real program balances random maps over 0 to 12 updates with both methods, minima and zero-handling, with stand-ins for cmake and the multi-ch-constructor; "
        "every file of every iteration is read independently, and each new metric is recomputed from the files before; helping programs fail at random. "
        "Distinct by contracted graph and workloads of an iteration.",
        ["updates_by_averaging", "updates_by_correction", "updates_with_shortcuts", "balanced_graphs_compared", "finished_runs", "failing_helpers",
         "refused: no route exists", "refused: new metric is zero", "refused: the new metric is negative"],
        engines={"cli": 8}, assumptions=[FLOAT, "cmake, multi-ch-constructor and CGAL are replaced by stand-ins with the same interfaces.",
                                         "A failing end is accepted without knowing its reason, if the minimum is missing or zero, or the correction above 1."]),
    "Z01": p(
        "The real program (with and without the optional feature) is run with random sets of flags and configs, intact or spoiled in one way (28 kinds: flags, config, sections, "
        "columns, map, pairs, targets, folders, write-faults, missing feature); exit status, log and all files of the directory before and after are compared with the model. "
        "Distinct by flags, spoiling and map.",
        ["succeeded plainly", "succeeded with unrequested targets", "exported graphs compared", "exported edges compared", "exported pairs compared",
         "reported costs compared", "reported to have no path", "explored pairs reported", "routing on exported graphs", "evaluations compared"]
        + ["refused: " + x for x in ("unknown flag", "no config", "missing config", "wrong extension", "garbage config", "missing map", "broken map", "bad log-level",
                                     "existing target", "missing folder", "write-fault", "unknown node", "missing pairs", "broken pairs", "unknown metric",
                                     "existing result", "no feature", "missing section routing", "missing section graph", "missing section edges",
                                     "missing section pairs", "missing section evaluating")],
        engines={"cli": 8}, assumptions=[FLOAT, "CGAL is replaced by a stand-in when exploring."]),
    "H01": p(
        "The real wrapper is run with random configs, intact or spoiled in one way (22 kinds), on random exported maps; the commands which stand-ins of cmake and the constructor "
        "receive are compared with the config, exit status and all files with the model; the contracted map is routed on by the real program with both algorithms. "
        "Distinct by map, flags and spoiling.",
        ["contracted", "exports_for_the_contraction", "builds_of_the_tool_compared", "constructions_compared", "routed by CHDijkstra", "routed by Dijkstra",
         "routing_on_maps_with_shortcuts", "reported costs compared"]
        + ["refused: " + x for x in ("unknown key", "no section", "missing key", "wrong type", "no config", "missing config", "wrong extension", "garbage config",
                                     "bad log-level", "unknown flag", "no tool's folder", "no cmake", "cmake", "cmake-killed", "cmake-build", "multi-ch",
                                     "multi-ch-killed", "no multi-ch", "missing graph", "wrong dimension", "existing target", "missing folder")],
        engines={"cli": 8}, assumptions=[FLOAT, "cmake and the multi-ch-constructor are replaced by stand-ins with the same interfaces."]),
    "V01": p(
        "The real visualizer is run on results of the real program and on made-up ones (rows and columns in any order, big ids, unused edges, equal workloads, up to 11 iterations) "
        "with a stand-in of matplotlib recording what is drawn; all drawn points, boxes, curves, colors and the printed statistics are compared with the files. "
        "Distinct by results and style.",
        ["figures", "points_compared", "changes_compared", "colors_of_changes", "norms_compared", "made_up_results", "results_of_the_program"],
        engines={"cli": 8}, quick_s=30, assumptions=["matplotlib is replaced by a stand-in recording the calls; nothing is rendered."]),
    "A01": p(
        "Random numbers around the accuracy (tiny, huge, infinite, equal up to it), optional ones, coordinates, vectors, and matrices are compared, added, multiplied and solved; "
        "outcomes are compared with own arithmetic (determinants without rounding) and with each other. Distinct by the compared numbers.",
        ["pairs_of_numbers", "equal_up_to_accuracy", "pairs_of_vectors", "vectors_less_or_equal", "matrices", "systems_solved", "systems_without_solution"]),
}
