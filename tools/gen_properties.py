#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

D = "src/routing/dijkstra.rs"; PA = "src/routing/paths.rs"; BU = "src/network/graph/building.rs"
GR = "src/network/graph/mod.rs"; FMI = "src/io/parsing/network/graph/fmi.rs"
PBF = "src/io/parsing/network/graph/pbf.rs"; DEF = "src/defaults.rs"

p("R01", "A routing query returns a cheapest path, and none only if there is none",
  "For every parsed graph, every start and destination node and every choice of non-negative metric weights, the plain routing algorithm returns a path whose weighted cost is minimal among all paths from start to destination. It returns no path exactly when the destination is unreachable from the start, and a path without edges when start and destination are the same node. Answers are exact up to the documented comparison accuracy accumulated over the path.",
  ["inputs"], "all graphs (sinks, sources, two nodes, parallel edges, self-loops, disconnected parts, zero-weighted metrics) x all node pairs x all non-negative weightings",
  "The tests compare a few hand-made graphs and weightings with hard-coded costs; they never compare with an independent shortest-path computation on arbitrary graphs.",
  [D, GR, "src/helpers/mod.rs", "src/approximating.rs"],
  [("bidirectional search with cost bound and stop criterion", D+" Dijkstra::compute_best_path"), ("adjacency via offset arrays", GR+" EdgeAccessor::starting_from")],
  ["path returned for a query", "weighted cost of the path", "absence of a path"])
p("R02", "Routing on a contracted graph gives the same answers as on the original",
  "On every graph whose node levels and shortcuts form a correct contraction hierarchy for the chosen weighting, the contraction-aware routing algorithm finds a path exactly when the plain algorithm does, with the same weighted cost, and after expanding the shortcuts it is a real path of original edges. On a graph without shortcuts and with uniform levels the choice of algorithm never changes the cost of the answer.",
  ["inputs"], "all graphs, contraction orders and witness choices, all node pairs, all weightings consistent with the hierarchy",
  "The tests route on one contracted fixture with one weighting; the pruning by level and the stop criterion depend on order, ties and levels in ways a fixture does not reach.",
  [D, GR, BU], [("upward-only relaxation and level-sorted adjacency", D+" is_using_ch_lvl_speedup / compute_best_path"), ("edges sorted by level of the destination", BU+" GraphBuilder::finalize")],
  ["path cost of both algorithms", "flattened path"])
p("R03", "Every returned path is a real connected walk with the costs it reports",
  "Every path a query returns is a gap-free sequence of edges of the graph leading from the start to the destination; the costs it reports are the per-metric sums over its edges. Expanding its shortcuts yields a gap-free walk between the same nodes that contains no shortcut, lists the original edges in travel order, and terminates for every graph the parser accepts, with an error instead of endless work if shortcuts refer to each other in a circle.",
  ["inputs"], "all graphs with nested shortcuts of any depth (including circular ones a file can contain), all queries",
  "Tests flatten paths of two fixtures with shallow shortcuts; nesting order, depth and circular references are input-dependent.",
  [PA, D, GR], [("stack-based expansion", PA+" Path::try_flatten"), ("cost sum", PA+" Path::calc_costs"), ("path reconstruction from both predecessor trees", D+" compute_best_path")],
  ["edge sequence", "reported costs", "flattened edge sequence"])
p("R04", "A routing answer never depends on earlier queries of the same router",
  "Reusing one router object for any sequence of queries, across different graphs of any size, different weightings and both routing algorithms, gives for each query the same cost (or absence of a path) as a fresh router gives. No such sequence makes the router fail.",
  ["histories", "inputs"], "all sequences of queries (graphs growing and shrinking, reachable and unreachable targets, switching algorithms and weightings) on one router object",
  "Tests mostly use a router on one graph with few queries; stale search state only shows up after specific histories.",
  [D], [("lazy reset of touched nodes", D+" Dijkstra::init_query")],
  ["path cost of the reused router vs. a fresh router"],
  [("costs/predecessors/is_visited/touched", "search state reused between queries", D)])
p("G01", "The built graph contains exactly the nodes and edges of the map file",
  "For every well-formed map file and column order, the graph contains every distinct edge of the file and nothing else, each with the endpoints, edge-id and metric values given in its line, and exactly the nodes that occur in an edge, each with the id, coordinates and level of its line. Line order, comments, blank lines and ignored columns do not change this. A repeated line (equal up to the documented comparison accuracy) adds no edge if lines have edge-ids or no other parallel edge connects the same two nodes in that direction, and never more than the file lists; two different lines with the same edge-id are refused.",
  ["inputs", "configurations"], "all map files in the text format and all column layouts",
  "Tests check node and edge counts and a few entries of three small fixtures.",
  [FMI, "src/io/parsing/network/graph/mod.rs", BU, GR],
  [("line classification and column parsing", FMI), ("sorting, deduplication and index assignment", BU+" finalize")],
  ["nodes, edges and metrics reachable through the graph's interface"])
p("G02", "All views of the graph agree with each other for every node and edge",
  "For every built graph, node lookup by id and by position are inverse to each other; the outgoing edges listed for a node are exactly the edges that start there and the incoming edges are exactly those that end there, each edge appearing once in each direction with opposite endpoints and the same metrics. All lookups (edges of a node, edges between two nodes, edge by id, text output of the graph) are total: they never fail for any node or edge of the graph (the text output shows each edge with its own two nodes, in its own direction), including nodes without outgoing or incoming edges.",
  ["inputs"], "all graphs, in particular with trailing and leading nodes that lack outgoing or incoming edges",
  "Fixtures are strongly connected or have their sinks in harmless positions; the offset arrays are only exercised there.",
  [GR, BU, "src/network/graph/indexing.rs"],
  [("forward/backward offset arrays", BU+" finalize"), ("accessors", GR+" NodeAccessor/EdgeAccessor")],
  ["node and edge accessors, graph display"],
  [("fwd_offsets/bwd_offsets", "start of each node's edges", GR)])
p("G03", "Shortcuts keep referring to the edges they were defined by",
  "For every map file with shortcuts, in any line order, each shortcut of the built graph refers to exactly the two edges that its line named, even though edges are re-sorted and duplicates are dropped while building. Writing the graph and reading it again preserves this, and an edge is reported as a shortcut exactly when its line named two edges.",
  ["inputs", "histories"], "all files with shortcuts (forward references, nested, duplicated lines, any order), repeated write/read",
  "One contracted fixture is checked for a few edges; index remapping depends on order and duplicates.",
  [BU, FMI, "src/io/writing/network/graph/fmi.rs"],
  [("remapping of shortcut indices after sort and dedup", BU+" finalize"), ("offset of shortcut indices when shortcuts are not written", "src/io/writing/network/graph/fmi.rs")],
  ["edge pair of each shortcut"])
p("M01", "Metrics are positive, bad values are rejected, normalisation is reversible",
  "After building any graph, every metric read from the map is strictly positive and finite: a value of zero (within the documented accuracy) is replaced by the documented tiny positive value, and a negative, infinite or not-a-number value makes building fail. If normalising is requested, every metric, also a generated one, is divided by its mean, the mean stays available, and writing with de-normalising reproduces the original values; if not requested, the values are unchanged.",
  ["inputs", "configurations"], "all metric values incl. 0, negative, tiny, huge, NaN x normalisation on/off",
  "Tests use benign values and one normalised fixture.",
  [BU, GR, DEF], [("value check", BU+" finalize / check values"), ("normalising by mean", BU), ("de-normalising", "src/io/writing/network/mod.rs")],
  ["metric values", "metric means", "written values"])
p("M02", "Generated metrics equal their definition in the requested unit",
  "Every generated metric has, for each edge, the value of its definition: great-circle distance of the edge's end points, a unit conversion of an existing metric (kept or replaced), the quotient of two existing metrics in the requested time or speed unit, or the given constant; other metrics are not altered and requested ids end up under the requested name and unit. Requests the program cannot satisfy (unknown source metric, unsupported unit combination, duplicate id) are refused instead of producing other values.",
  ["inputs", "configurations"], "all generation recipes, in any order and number, over all metric values and coordinates",
  "Tests cover the recipes of two configs with hard-coded expectations.",
  [BU, "src/configs/parsing/generating/edges/mod.rs", "src/configs/parsing/generating/edges/metrics.rs", "src/configs/parsing/edges/metrics.rs"],
  [("EdgeGenerator/unit conversion", BU+" generating"), ("unit conversion table", "src/configs/parsing/edges/metrics.rs")],
  ["metric values and metric configuration of the graph"])
p("M03", "Merging edge data from a csv file assigns each value to its own edge",
  "Merging an edge-data file overwrites, for every line, exactly the named metrics of exactly the edge with that line's id, whatever the order of lines and columns and whether or not a header line is declared; all other edges and metrics keep their values. Lines with unknown ids, missing columns or unreadable values make the merge fail.",
  ["inputs", "configurations"], "all edge-data files and column layouts",
  "The existing tests merge one generated file.",
  [BU, "src/io/parsing/network/edges.rs", "src/configs/parsing/generating/edges/merge.rs"],
  [("merge by edge id", BU), ("csv line handling", "src/io/parsing/network/edges.rs")],
  ["metric values after merge"])
p("W01", "Writing a graph and reading it back yields the same graph",
  "For every graph and every selection and order of columns that keeps the information, the written map file, read with the matching column description, gives a graph with the same nodes, coordinates, levels, edges, ids, shortcuts and metrics, and writing that graph again gives the same bytes. The counts in the file match its lines, ignored columns stay placeholders, and with shortcuts disabled exactly the original edges are written.",
  ["inputs", "configurations", "histories"], "all graphs x all writable column selections x with/without shortcuts x repeated write/read cycles",
  "Tests round-trip three fixtures with fixed layouts.",
  ["src/io/writing/network/graph/fmi.rs", "src/io/writing/network/mod.rs", "src/configs/writing/network/graph/mod.rs", FMI],
  [("column-wise writer", "src/io/writing/network/mod.rs write_edges_to_file"), ("fmi writer", "src/io/writing/network/graph/fmi.rs")],
  ["written bytes", "re-read graph"])
p("W02", "Exported edge data shows the true value of every requested column",
  "In an exported edge-data file every line belongs to one edge in the graph's edge order, and every requested column shows that edge's own value: its id, the ids or positions of its two end nodes, the coordinates of its start and of its destination, its shortcut edges, its metrics. The header names the columns as requested, shortcuts are left out unless requested, and merging the file back into the graph reproduces the metrics.",
  ["inputs", "configurations"], "all graphs x all column selections and orders",
  "Tests only write an edge file and merge some columns of it again; coordinate and position columns are never compared.",
  ["src/io/writing/network/edges.rs", "src/io/writing/network/mod.rs", "src/configs/writing/network/edges.rs"],
  [("column writer", "src/io/writing/network/mod.rs")], ["written file"])
p("W03", "No export ever overwrites or alters an existing file",
  "Whenever the target file of an export (graph, edge data, route pairs, vehicle routes, balance results) already exists, the export reports an error and the existing file keeps its content, through the library and through the command-line program. Inputs (map, config, route pairs, edge data) are never modified by any operation.",
  ["inputs", "histories", "configurations"], "all exports x all kinds of existing targets (empty, non-empty, links, read by the same run)",
  "Tests delete the target before writing; the refusal is not exercised for each writer.",
  ["src/io/writing/network/graph/mod.rs", "src/io/writing/network/edges.rs", "src/io/writing/routing/random_or_all.rs", "src/io/writing/smarts.rs", "src/io/writing/evaluating_balance.rs", "src/bin/osmgraphing/mod.rs"],
  [("create_new when opening", "writers"), ("existence checks", "src/bin/osmgraphing/mod.rs")], ["result of the export", "bytes of the files"])
p("W04", "An export that reports success has written the complete file",
  "For every failure of the file system while exporting (no space, size limit, write error at any byte, be it lasting or only once), the export either reports an error or the file contains exactly the bytes that a fault-free export writes. It never reports success for a truncated file.",
  ["fault_sequences", "crash_points", "inputs"], "all writers x a write failure at every byte position",
  "No test injects write faults.",
  ["src/io/writing/network/graph/fmi.rs", "src/io/writing/network/edges.rs", "src/io/writing/routing/random_or_all.rs", "src/io/writing/smarts.rs", "src/io/writing/network/mod.rs"],
  [("buffered writer with error propagation", "writers")], ["result of the export", "bytes of the file"])
p("W05", "Exported vehicle routes follow the given paths",
  "An export of vehicle routes contains one vehicle for each given path, in their order, named after the path's start and destination, whose route lists the ids of the path's nodes in travel order from start to destination. Nothing else is contained and the file is well-formed.",
  ["inputs"], "all graphs, all lists of paths (no paths, paths without edges, long paths, parallel edges, loops)",
  "Tests do not export vehicle routes.",
  ["src/io/writing/smarts.rs", PA], [("xml writer", "src/io/writing/smarts.rs")], ["written file"])
p("B01", "OpenStreetMap data becomes the network its tags describe",
  "For every OpenStreetMap extract, the graph contains exactly the directed edges between consecutive nodes of the ways that are usable for the chosen vehicle and pickiness, in the directions given by the one-way tagging, each with the speed limit and lane count its tags or its street type's defaults imply, and node coordinates as in the extract. Ways of unknown or unsuitable type, ways with fewer than two nodes and nodes of no used way do not appear. Columns an extract does not provide are refused.",
  ["inputs", "configurations"], "all extracts, all tag combinations, all vehicle categories and both pickiness settings",
  "Tests parse one real extract and check total counts.",
  [PBF, DEF, BU], [("way filter and edge creation", PBF), ("street categories, defaults and tag parsing", DEF+" network::StreetCategory")],
  ["edges, metrics and coordinates of the graph"])
p("B02", "Building a graph is deterministic and independent of scheduling",
  "Parsing the same map with the same config always gives the identical graph: the same node order, edge order, ids, levels and bit-identical metrics, regardless of how the parallel reader threads are scheduled, how many processors exist, or how the extract's data is divided into blocks. Exports of it are byte-identical.",
  ["schedules", "inputs"], "all thread schedules of the reader, all block partitions of the same data",
  "Tests parse once per fixture.",
  [PBF, BU], [("stable sort of edges and ids", BU+" finalize")], ["digest of the graph and of the written files"])
p("T01", "Generated route pairs are valid, distinct, reachable and reproducible",
  "For every graph, limit and seed, the written route-pairs file contains only distinct pairs of different nodes with a path between them; if the number of nodes squared does not exceed the limit it contains exactly all reachable pairs, otherwise no more than the limit, and as many as the limit if that is small (at most a tenth) compared to the number of reachable pairs. The same seed gives the same file, and the seed selects the sample. Generating terminates without failing on every graph, and reading the file, or any route-pairs file with own counts, gives exactly its pairs and counts.",
  ["inputs", "configurations"], "all graphs (empty, disconnected, tiny), limits and seeds",
  "Tests generate pairs for a few fixtures and compare with stored files.",
  ["src/io/writing/routing/random_or_all.rs", "src/io/parsing/routing/routes.rs", "src/network/routes.rs"],
  [("random or exhaustive pair generation", "src/io/writing/routing/random_or_all.rs")], ["written file", "parsed pairs"])
p("X01", "Malformed maps are refused with an error, never a crash or a wrong graph",
  "For every damaged or inconsistent map, edge-data or route-pairs file (missing columns, unreadable numbers, unknown node references, shortcut references that do not exist, fewer lines than announced, truncated or corrupt binary data, wrong encoding, missing file) reading returns an error describing the problem. It never panics, hangs or returns a graph that differs from what the intact lines say; the same holds if the file system fails while reading. (A binary extract cut exactly between two of its blocks is a valid extract; additional lines after the announced ones are not read.)",
  ["inputs", "fault_sequences"], "all corruptions (bit flips, truncation, line deletion, token changes) of all input files",
  "Tests only read valid fixtures plus a handful of wrong extensions.",
  [FMI, PBF, BU, "src/io/parsing/routing/routes.rs", "src/io/parsing/routing/mod.rs"], [("error results of the parsers", FMI), ("checks when finalizing", BU)], ["result of reading: error, or a graph equal to the model of the file"])
p("C01", "A config means exactly what it says, and inconsistent configs are refused",
  "Every config is either accepted with each setting bound to the metric or column whose id it names (weights, tolerances, column order, flags, seeds, documented defaults for what is left out), independent of the order of entries, or refused with an error. Unknown keys, ids that do not exist, duplicate ids of edge columns, missing required columns and too many metrics are refused and never silently ignored or bound to something else.",
  ["configurations", "inputs"], "all configs built from the documented keys, with permutations, omissions, duplicates, unknown names",
  "Tests parse a fixed set of config files, mostly valid.",
  ["src/configs/routing.rs", "src/configs/parsing/mod.rs", "src/configs/parsing/edges/mod.rs", "src/configs/parsing/nodes/mod.rs", "src/configs/writing/network/edges.rs", "src/configs/balancing.rs", "src/configs/evaluating_balance.rs"],
  [("raw -> proto -> config conversion with checks", "src/configs")], ["config values", "error result"])
p("E01", "Exploration returns optimal alternatives within the given tolerances",
  "For every graph, pair and set of considered metrics, each explored path is a real path with correct costs, optimal for some non-negative weighting of the considered metrics, within the tolerated factor of the best possible cost in every tolerated metric, and no two are the same. If tolerances are unlimited, the best path of every single considered metric and of every equally weighted combination of considered metrics is among them (in cost), and nothing is returned exactly when the destination is unreachable. With limited tolerances, such an optimum is returned if it is tolerated. If two metrics are considered without limit, and the best paths of each and of their sum have three different costs, an optimum for every weighting of the two is among them.",
  ["inputs", "configurations", "histories"], "all graphs, pairs, metric subsets, tolerances, repeated use of one explorator",
  "The exploration code is not even compiled by the default test run (it needs the gpl feature and CGAL).",
  ["src/routing/explorating.rs", "src/helpers/algebra.rs"], [("convex-hull exploration", "src/routing/explorating.rs")], ["list of explored paths"])
p("L01", "The balancer counts every requested route exactly once, for any thread count",
  "For every graph, list of route pairs with counts, number of threads and schedule, the workload written for an edge is the number of chosen routes that use it: every requested route with a path is counted exactly as often as requested, none is lost, duplicated or attributed to a shortcut, and a worker failure makes the whole run fail. With a deterministic routing algorithm the result is independent of the number of threads and of scheduling; when exploring, every route is one of the explored alternatives, each of which can be chosen.",
  ["schedules", "inputs", "configurations"], "all thread counts, chunk sizes and interleavings of workers",
  "The balancer is not compiled by the default test run and has no concurrency test.",
  ["src/bin/osmgraphing/balancing/multithreading.rs", "src/bin/osmgraphing/mod.rs", "src/io/writing/evaluating_balance.rs", "src/io/writing/smarts.rs"],
  [("master/worker over channels", "src/bin/osmgraphing/balancing/multithreading.rs")], ["written workloads", "written vehicle routes", "exit status"])
p("L02", "The balancing metric is updated by the configured rule and stays valid",
  "After each balancing iteration the new metric of every edge is the configured combination (averaging over iterations, or correction step) of its old value and its workload divided by the mean workload of all edges (including shortcuts), raised to the configured minimum, divided by its new mean, and finite; no other metric, edge or node changes. The graph stored at the end of a run carries these values. A run leaves the results of every other run alone.",
  ["inputs", "configurations", "histories"], "all workloads, methods, corrections, minimum values, numbers of iterations",
  "The balancing code is not compiled by the default test run.",
  [DEF, "src/bin/osmgraphing/balancing/mod.rs", "src/configs/balancing.rs"], [("update rule", DEF+" balancing::update_new_metric")], ["metric of the written graphs per iteration"])
p("Z01", "The command-line program does what its flags say or exits with an error",
  "For every config and combination of flags, the program produces exactly the requested exports, with the same content as the library calls, reports for every requested route its cost or that there is none, and exits with success only if everything requested was done (evaluating a balance replaces plain routing). Any invalid input, refused target or unavailable feature leads to a failing exit status, and nothing that was not requested is written.",
  ["inputs", "configurations"], "all flag combinations, valid and invalid configs and files",
  "The program itself is never run by the tests.",
  ["src/bin/osmgraphing/mod.rs", "src/helpers/mod.rs"], [("run/parse_cmdline", "src/bin/osmgraphing/mod.rs")], ["exit status", "files", "log output"])
p("H01", "Contracting does what the config says, and keeps the optimal routes",
  "For every config of the multi-ch-constructor wrapper, the external tool is configured, built and started with exactly the configured (or documented default) dimension, accuracy, ratio, number of threads, files and flags; the wrapper exits with success only if every one of these steps succeeded, starts no step after a failed one, refuses invalid configs before starting any, and changes no file itself. A map exported in the documented layout, contracted and read again yields, for every pair of nodes and with either algorithm, the optimal costs of the original map.",
  ["inputs", "configurations", "fault_sequences"], "all configs, maps, failures of the helping programs",
  "Neither the wrapper nor the chain export, contraction, routing is run by the tests.",
  ["src/multi_ch_constructor/mod.rs", "src/multi_ch_constructor/configs.rs", "src/bin/multi-ch-constructor.rs", "src/io/writing/network/graph/fmi.rs"],
  [("build/construct_ch_graph", "src/multi_ch_constructor/mod.rs"), ("reading the contracted map", FMI)], ["arguments the helping programs receive", "exit status", "files", "reported route costs"])
p("V01", "The visualizer draws every edge's own values",
  "For every results directory as the balancer writes it (edges-info.csv and abs_workloads.csv per iteration, rows and columns in any order), the visualizer shows all consecutive iterations, and for each one every edge exactly once, at the middle between its ends (latitude and longitude scaled as at the middle latitude), with its own workload and with its own change since the iteration before. The workloads per lane-count, histograms, boxes and sorted curves consist of exactly the workloads of the used edges (workload above zero; one bin per unit between the extreme workloads), the curves over iterations show the number of used edges and the extreme workloads and changes, quantile figures are split at the quantiles they name, and printed minima, maxima, means and deviations are those of the workloads. Edges of higher workload or change are drawn above others. The color-norms map their range monotonically onto [0, 1] by the documented formula, with a center inside the range in the middle, and refuse centers outside of it; workloads are colored on a scale ending with the highest workload of all iterations. No file of the results is changed, and results with unused or equally used edges are drawn as well.",
  ["inputs", "histories"], "all results of at least one edge, orders of rows and columns, numbers of iterations, both styles, all ranges, centers and bases of the norms",
  "The visualizer isn't tested at all.",
  ["scripts/balancing/visualizer/visualizing/model.py", "scripts/balancing/visualizer/visualizing/plotting.py", "scripts/balancing/visualizer/visualizing/helpers.py", "scripts/balancing/visualizer/visualizing/simulating.py"],
  [("read_in_edge_info/read_in_workloads/delta_workloads", "scripts/balancing/visualizer/visualizing/model.py Data"), ("color-norms", "scripts/balancing/visualizer/visualizing/helpers.py"), ("figures", "scripts/balancing/visualizer/visualizing/plotting.py Machine")], ["calls of the plotting library", "printed statistics", "files of the results"])
p("A01", "Values are compared up to the documented accuracy, and calculated with exactly",
  "Two numbers compare as equal exactly if they are equal or differ by no more than the documented accuracy (up to rounding at its limit), otherwise as plain numbers do; comparing is reflexive (infinite values included), symmetric, consistent between all operators and never fails for numbers. The same holds componentwise for optional numbers and coordinates; vectors are equal (at most, at least) if all their components are. Sums, differences and dot-products are those of the components, a matrix gives the element of the asked row and column, and solving a linear system gives its solution if the system has exactly one, and nothing if a row is zero.",
  ["inputs"], "all numbers, vectors up to the supported dimension, systems",
  "The tests compare some routes' costs and metrics, all finite.",
  ["src/approximating.rs", "src/helpers/mod.rs", "src/helpers/algebra.rs"],
  [("partial_cmp/eq/cmp", "src/approximating.rs"), ("solve/index", "src/helpers/algebra.rs")], ["results of comparisons", "calculated vectors"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
