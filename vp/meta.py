"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
P = {}


def add(pid, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, hook=hook)


TLCGEN = "TLA+ specification checked with TLC; TLC-generated instances replayed in the code, recorded results checked by TLC"
TRUST = (" Trusts TLC, the replay driver and, for compiled code, g++ and the stand-in SCIP headers in /verif/shim "
         "(the SCIP library itself is the real one).")

add("C01", "The exact solver returns a cheapest prize-feasible tour",
    "For every undirected weighted graph with vertex prizes, root, quota and any combination of solver options (cuts, cost covers, cycle covers, branching rule, "
    "tailing-off settings, initial tour), solving to completion returns the edges of a simple cycle through the root over edges of the graph, with total prize at "
    "least the quota and the least total cost of all such cycles. An empty answer is given only when no such cycle exists, and the solver always terminates.",
    ["inputs", "configurations"], "all graphs, prizes, quotas, roots, vertex labels and option combinations; explored: generated instances of 3-9 vertices (thorough 10), also under other settings of SCIP (relaxations off or rare, permuted variables); and rings of up to 14 (thorough 18) gadgets (about 45 vertices)",
    "the tests solve a handful of fixed grids with a fixed option set and compare against one known optimum",
    ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "include/pctsp/algorithms.hh", "include/pctsp/cost_cover.hh",
     "pctsp/algorithms/algorithms.py", "pctsp/pypctsp.cpp"],
    [("model and plugins", "src/algorithms.cpp PCTSPcreateBasicModel, solvePrizeCollectingTSP"), ("python entry", "pctsp/algorithms/algorithms.py solve_pctsp")],
    TLCGEN, "Optimality is decided exhaustively per instance by TLC (every tour of the problem specification is enumerated, pruned by the claimed cost); instances are generated, so "
    "coverage over inputs is by bounded generation, not proof." + TRUST,
    state=[("tour", "visited vertices, current end, cost so far", "spec/PCTSP.tla")])

add("C20", "Suurballe finds a least-cost pair of edge-disjoint paths to every vertex",
    "For every asymmetric directed graph with non-negative integer arc costs and every source, each vertex reachable from the source is labelled exactly when two arc-disjoint paths "
    "from the source to it exist. For a labelled vertex the two extracted paths are simple source-to-vertex paths over arcs of the graph without a common arc, the reported cost is the sum "
    "of their arc costs, and no cheaper pair exists; for the others the cost is reported as infinite and no paths are returned.",
    ["inputs"], "all asymmetric digraphs; explored: generated digraphs of 3-60 vertices and the split digraphs of generated undirected graphs up to 13 vertices; the design of the relabelling on all digraphs of 4 (5) vertices",
    "the tests check one six-vertex example graph", ["pctsp/suurballe/suurballe.py"],
    [("iterative relabelling", "pctsp/suurballe/suurballe.py suurballe_shortest_vertex_disjoint_paths"), ("path extraction", "extract_suurballe_edge_disjoint_paths")],
    TLCGEN, "Each answer is judged by a certificate in the specification: arc-disjoint paths of the reported cost whose residual network has no negative cycle, or an arc whose removal "
    "disconnects the vertex (Menger). The relabelling algorithm itself is specified in spec/Relabel.tla and explored exhaustively; three planted mistakes of the design are refuted." + TRUST)

add("C21", "Vertex-disjoint path maps list exactly the vertices on tours, with least costs",
    "For every undirected graph and root, the map of vertex-disjoint paths and the map of their costs contain a vertex exactly when some simple cycle through the root visits it. The "
    "mapped paths are two simple root-to-vertex paths of the graph with no inner vertex in common, and the mapped cost is their total cost and the least cost of any cycle through the root and the vertex.",
    ["inputs"], "all undirected weighted graphs and roots; the root's own entry is not part of the statement; explored: generated graphs of 3-9 vertices; larger ones of up to 40 vertices by certificates",
    "no test computes these maps on a graph whose answer is known", ["pctsp/preprocessing/preprocessing.py", "pctsp/suurballe/suurballe.py"],
    [("maps", "pctsp/preprocessing/preprocessing.py undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map")],
    TLCGEN, "TLC enumerates every tour of the problem machine on each instance (pruned by the claimed costs) and compares." + TRUST)

add("C22", "Graph reductions keep exactly what a tour can use",
    "For every undirected graph, with or without self loops: removing leaves yields the largest subgraph in which every vertex has at least two neighbours other than itself; removing disconnected components "
    "yields the component of the root; removing one-connected components yields exactly the vertices that lie on some simple cycle through the root. Each result is the subgraph induced by the kept "
    "vertices with all vertex and edge attributes, the vertex degree without self loops counts the other neighbours, and the first two leave their argument unchanged.",
    ["inputs"], "all undirected graphs and roots; explored: generated graphs of 3-9 vertices with random self loops",
    "the tests use five hand-made graphs", ["pctsp/preprocessing/preprocessing.py"],
    [("reductions", "pctsp/preprocessing/preprocessing.py remove_leaves, remove_components_disconnected_from_vertex, remove_one_connected_components")],
    TLCGEN, "The kept sets are compared with the specification's pruning machine (all pruning orders) and with the set of vertices on tours." + TRUST)

add("C23", "Path-pair heuristics return the least-cost feasible tour of the given pairs",
    "Given a map of path pairs with costs, the heuristic returns the closed tour of the cheapest pair that forms a simple cycle with total prize at least the quota, and an empty list when there is none; the initialisation variant "
    "falls back to a simple cycle of greatest prize. The random variant returns the cycle of one of the pairs that do not go to the root and have at least three vertices, depends only on its seed, and raises a value error when there is no such pair. A pair closes to "
    "the first path followed by the reversed second path, without changing either, and a pair with a path that is shorter than one edge or with different ends is rejected with a value error.",
    ["inputs"], "all maps of path pairs, prizes, quotas and seeds; explored: generated maps over 3-8 vertices, and large ones of up to 40 with degenerate and repeated pairs",
    "the tests for the heuristics need data sets that are not in the repository", ["pctsp/algorithms/heuristic.py"],
    [("selection", "pctsp/algorithms/heuristic.py suurballes_heuristic, suurballes_tour_initialization, random_tour_from_disjoint_paths_map, tour_from_vertex_disjoint_paths")],
    TLCGEN, "Every answer is compared with the set of admissible tours the specification computes from the map." + TRUST)

add("C24", "Breadth-first cycle and random complete-graph tours are valid tours",
    "For every undirected graph and root, the breadth-first search returns a simple closed cycle through the root whenever one exists and nothing otherwise. "
    "On a complete graph the random tour starts and ends at the root, repeats no vertex, and stops adding vertices exactly when at least three are visited and the quota is met or all are visited; it depends only on its seed.",
    ["inputs"], "all undirected graphs (self loops allowed), roots, quotas and seeds; explored: generated graphs of 3-8 vertices, and large ones of up to 40",
    "the tests call these on data sets that are not in the repository", ["pctsp/algorithms/heuristic.py"],
    [("search", "pctsp/algorithms/heuristic.py find_cycle_from_bfs, random_tour_complete_graph")],
    TLCGEN, "Existence is decided by enumerating the tours of the problem machine; the random tour is replayed step by step through its own machine." + TRUST)

add("C07", "Vertex labels, edge order and edgeless vertices do not change the answers",
    "For every graph, renaming the vertices to other labels in the same order, or adding vertices without edges, gives the same answers (up to the renaming) from the solver's cost and from every compiled tour heuristic. "
    "Listing the same edges in another order or direction gives the same optimal cost. A root without edges is reported as an error or as no tour; no presentation crashes the process.",
    ["inputs", "configurations"], "all labels (non-negative integers), presentations and instances; explored: generated instances of 3-7 vertices, and of 16-24 vertices, five presentations each",
    "the tests use one labelling per graph and no vertex without edges", ["pctsp/pypctsp.cpp", "include/pctsp/renaming.hh", "src/graph.cpp"],
    [("bindings", "pctsp/pypctsp.cpp"), ("renaming", "include/pctsp/renaming.hh renameEdges, fillRenamedVertexMap, fillCostMapFromRenamedMap")],
    TLCGEN, "Relational: the same real code is run on several presentations of one instance and the specification's transitions say what must stay equal." + TRUST)

_H = ["include/pctsp/heuristic.hh", "src/heuristic.cpp", "pctsp/pypctsp.cpp"]
add("C12", "The unitary-gain extension inserts the best vertices while above average",
    "For every closed tour, the extension repeatedly inserts a vertex of greatest unitary gain (prize over added cost, only positive gains count) at a place where it attains it, for as long as that gain is above the average gain of all "
    "outside vertices in the first round. The result is a simple closed tour from the same start that keeps the order of the given tour and never has less prize.",
    ["inputs"], "all graphs, prizes and simple closed tours; explored: generated instances of 4-8 vertices, and sparse ones of 16-40 and 124-140; comparisons with the average within 0.005% may go either way",
    "the tests check one grid and one insertion", _H + ["pctsp/algorithms/extension_collapse.py"],
    [("extension", "include/pctsp/heuristic.hh extensionUnitaryGain, findVertexWithBiggestGain, unitaryGainOfVertex")],
    TLCGEN, "The recorded tour must be the end of some behaviour of the insertion machine (all ties explored), with gains in exact integer arithmetic." + TRUST)

add("C13", "The extension until prize-feasible stops exactly at the quota",
    "For every closed tour and quota, the extension inserts a vertex of greatest positive unitary gain at a best place until the prize of the tour is at least the quota or no vertex has a positive gain, and does nothing "
    "further. The result is a simple closed tour from the same start that keeps the order of the given tour.",
    ["inputs"], "all graphs, prizes, quotas and simple closed tours; explored: generated instances of 4-8 vertices, and sparse ones of 16-40 and 124-140",
    "the tests check one grid", _H + ["pctsp/algorithms/extension_collapse.py"],
    [("extension", "include/pctsp/heuristic.hh extensionUntilPrizeFeasible")],
    TLCGEN, "The recorded tour must be the end of some behaviour of the insertion machine." + TRUST)

add("C14", "Path extension replaces tour paths by those of least unitary loss",
    "For every closed tour from the root, step size and depth limit, the extension replaces a path of that many steps, with the root not strictly inside it, by a path outside the tour with more prize and at most the given depth, choosing the smallest unitary loss "
    "(added cost over added prize), for as long as that is below the average of the first round; a single choice in the first round is always taken. The result is a simple closed tour from the root whose prize is not lower.",
    ["inputs", "configurations"], "all graphs, tours, step sizes and depths; explored: generated instances of 4-8 vertices, and sparse ones of 16-40 and 124-140 (depth at most 2), steps 1-3, depths 1-n; for depths above 2 any improving fewest-edges path may be taken and the average rule is not decided",
    "the tests run two fixed grids with fixed parameters", _H + ["pctsp/algorithms/path_extension_collapse.py", "pctsp/algorithms/extension_collapse.py"],
    [("extension", "include/pctsp/heuristic.hh pathExtension, findExtensionPaths, chooseExtensionPathFromCandidates, swapPathsInTour")],
    TLCGEN, "The recorded tour must be the end of some behaviour of the replacement machine (all ties explored), with losses in exact integer arithmetic." + TRUST)

add("C15", "Path extension until prize-feasible stops as soon as the quota is met",
    "For every closed tour from the root and quota, the extension replaces paths of the tour by paths outside it with more prize and the smallest unitary loss until the prize of the tour is at least the quota or nothing can be replaced, "
    "and leaves a tour that already meets the quota alone. The result is a simple closed tour from the root whose prize is not lower.",
    ["inputs", "configurations"], "all graphs, tours, quotas, step sizes and depths; explored: generated instances of 4-8 vertices, and sparse ones of 16-40 and 124-140 (depth at most 2), steps 1-3, depths 1-n",
    "the tests only look at one grid where the first extension already suffices", _H + ["pctsp/algorithms/path_extension_collapse.py"],
    [("extension", "include/pctsp/heuristic.hh pathExtensionUntilPrizeFeasible, findExtensionPaths")],
    TLCGEN, "The recorded tour must be the end of some behaviour of the replacement machine." + TRUST)

add("C16", "Collapse returns the cheapest allowed shortcut, never a worse or infeasible tour",
    "For every closed tour, quota and root, collapsing closes each part of the tour that contains the root and stays below the quota by one outside vertex (or, if asked for, a shortest outside path) such that the quota is still met, and returns the cheapest such tour if it "
    "is cheaper than the given one, else the given tour. The result is a simple closed tour that starts at the root, costs no more than the given one and meets the quota if that one does; collapsing after the unitary-gain extension does the same with the extended tour.",
    ["inputs", "configurations"], "all graphs, tours, quotas and both modes; explored: generated instances of 4-7 vertices, and sparse ones of 16-40; which of several equally short outside paths is used is left open",
    "the tests collapse two fixed tours", _H + ["pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py"],
    [("collapse", "include/pctsp/heuristic.hh collapse, getSubPathOverTour, findCollapsePaths"), ("reordering", "include/pctsp/walk.hh ReorderTourFromRoot")],
    TLCGEN, "The specification walks every part of the tour and enumerates every allowed closing connection." + TRUST)

add("C17", "Path extension and collapse keeps the best feasible tour it finds",
    "For every closed tour from the root, path extension & collapse returns nothing only if the tour is below the quota and extending it with every step size up to the limit fails to reach it. Otherwise it collapses the feasible tour, then extends and collapses the best tour for "
    "every step size and keeps the cheaper one; the result is a simple closed tour from the root that meets the quota and costs no more than a feasible tour it was given.",
    ["inputs", "configurations"], "all graphs, tours, quotas, depths, step sizes and both collapse modes; explored: generated instances of 4-8 vertices, and sparse ones of 16-40 and 124-140",
    "the tests run two fixed grids", _H + ["pctsp/algorithms/path_extension_collapse.py"],
    [("composition", "include/pctsp/heuristic.hh pathExtensionCollapse")],
    TLCGEN, "The composition machine is run over recorded calls of the component heuristics, which C14-C16 judge on their own." + TRUST)

add("C18", "Walk, tour, edge-set and shortest-path helpers compute what they say",
    "For every graph, walk and edge set: total cost and prize are the sums over the walk's edges and the tour's vertices, reordering a closed tour from a root is the rotation that starts and ends at it, a walk is simple or closed exactly when it is, and edges and "
    "vertex pairs convert into each other without loss or an error names the missing edge. Shortest paths around marked vertices have the least cost of all paths that avoid the marked vertices, and are found exactly when one exists.",
    ["inputs"], "all graphs, walks, edge sets and marked sets; explored: generated instances of 3-7 vertices, and 8-14, 16-60 and 124-140", "the tests use a few fixed grids",
    ["include/pctsp/walk.hh", "include/pctsp/graph.hh", "src/graph.cpp"],
    [("walks", "include/pctsp/walk.hh"), ("graph helpers", "include/pctsp/graph.hh, src/graph.cpp")],
    TLCGEN, "Each recorded helper result is compared with the specification's definition on the same input." + TRUST)

add("C19", "Vertex renaming is a bijection onto 0..n-1 that preserves the instance",
    "For every edge list, renaming maps the vertices one-to-one onto 0..n-1, every renamed edge is the image of the edge at the same position, and translating vertices, edges and lists forth and back returns the originals. "
    "Costs and prizes keyed by old labels, in either edge direction, end up at the renamed edges and vertices, and a cost for an edge that is not in the graph is an error.",
    ["inputs"], "all edge lists and labels; explored: generated instances of 3-8 vertices, and 16-60 and 124-140", "the tests rename one four-edge list",
    ["include/pctsp/renaming.hh", "src/graph.cpp"], [("renaming", "include/pctsp/renaming.hh")],
    TLCGEN, "The recorded maps are checked against the renaming machine." + TRUST)

add("C31", "Compiled preprocessing adds self loops and weights exactly",
    "For every graph with any set of self loops, putting weights on the edges gives every self loop the prize of its vertex and every other edge zero, and zeroing the loops sets exactly their costs to zero. The test for self loops is true exactly when "
    "every vertex has one, and preparing a graph without loops gives every vertex exactly one, with cost zero and its prize as weight, and changes no other vertex or edge.",
    ["inputs"], "all graphs; explored: generated instances of 3-7 vertices, and 16-60 and 124-140", "the tests use one small graph",
    ["include/pctsp/preprocessing.hh", "src/preprocessing.cpp", "include/pctsp/graph.hh", "src/graph.cpp"], [("self loops", "src/preprocessing.cpp, src/graph.cpp addSelfLoopsToGraph, hasSelfLoopsOnAllVertices")],
    TLCGEN, "Each recorded result is compared with the specification's definition." + TRUST)

add("C32", "Searches, cycle subpaths, components and filters return exactly what they say",
    "Breadth-first search with a depth limit marks exactly the vertices within that many edges, keeps out of vertices that are marked before it, and its parents give paths with fewest edges; depth-first search marks a depth-first tree of paths no longer than the limit that misses no neighbour of a vertex above the limit. "
    "A subpath of a cycle is the part from one position forward to the other, going round the end once. The component vectors are the classes of the component numbers, the non-singular ones are those with more than one vertex, and a filtered graph has exactly the marked vertices and the edges between them.",
    ["inputs"], "all graphs, marks, depths and positions; explored: generated instances of 3-7 vertices, and 8-14, 16-60 and 124-140", "the tests search two fixed grids",
    ["include/pctsp/graph.hh", "include/pctsp/walk.hh", "src/graph.cpp"], [("searches", "include/pctsp/graph.hh breadthFirstSearch, depthFirstSearch"), ("components", "include/pctsp/graph.hh getNonSingularConnectedComponentVectors")],
    TLCGEN, "Each recorded result is compared with the specification's machine or definition." + TRUST)

add("C25", "A lab loses, repeats or mixes up no vial over any history of runs",
    "Over every history of runs, batches, interrupted runs, torn or deleted result files and two experiments sharing vials, a run executes exactly the chosen vials in order, one failing vial does not stop the others, and each success leaves its result under its own vial and experiment. "
    "The missing vials are exactly those without a readable result, the infeasible ones those whose result is below the quota, batches of any size cover every vial once, and experiments and results are read back as written. "
    "Every result is a tour of the graph the vial describes (dataset, sparsification, cost function, preprocessing) with its true cost and prize, and is the same on every run.",
    ["inputs", "histories", "crash points", "configurations"], "all vial lists and histories; explored: generated histories of 2-9 operations on 0-5 vials over graphs of 3-6 vertices, interruption at any log record, truncation of result files at any twentieth",
    "the tests run no lab", ["pctsp/lab/lab.py", "pctsp/lab/run_algorithm.py", "pctsp/vial/result.py", "pctsp/vial/experiment.py"],
    [("lab", "pctsp/lab/lab.py Lab, get_nbatches"), ("results", "pctsp/vial/result.py Result.read_from_json_file, write_to_json_file")],
    TLCGEN, "The recorded history must be a behaviour of the laboratory machine, whose state is the result file of every vial, checked after every operation." + TRUST)

add("C28", "A vial runs its own preprocessing and algorithm and reports the true result",
    "For every vial, preprocessing applies exactly the steps the vial asks for, in order, and running the vial gives the tour that its algorithm's parts lead to with the vial's parameters: Suurballe's heuristic, extension & collapse of a start tour first extended until prize-feasible, or path extension & collapse. "
    "The exact algorithm gives a cheapest tour that collects the quota for every warm start and option, or an empty result if none exists. "
    "Objective and prize are those of the reported edges, and steps or algorithms that do not exist are refused.",
    ["inputs", "configurations"], "all graphs and vials; explored: generated instances of 3-8 vertices with every heuristic, warm start and solver option",
    "no test runs a vial", ["pctsp/lab/run_algorithm.py", "pctsp/algorithms/algorithms.py"],
    [("dispatch", "pctsp/lab/run_algorithm.py run_heuristic, run_algorithm, run_preprocessing")],
    TLCGEN, "The result must be the end of the route of the dispatch machine through the recorded parts; exact results are compared with every feasible tour of the problem machine." + TRUST)

add("C26", "Result tables, CSV rows and renamed columns carry every vial's own values",
    "For every experiment and list of results, the flat dictionary and data frame of vials hold every setting of every vial under its own name and id, and results, experiments and summary statistics read back equal what was written. "
    "The summary tables and heuristic gap tables contain one row for each vial with a result, joined on the vial's own id, with the metric computed from exactly that vial's numbers; vials without a result are dropped, no number is changed by grouping or by making a table pretty.",
    ["inputs", "configurations"], "all experiments, vials and results; explored: generated lists of up to 6 vials and results in any order",
    "the tests check one vial's flat dictionary", ["pctsp/vial/vial.py", "pctsp/vial/experiment.py", "pctsp/vial/result.py", "pctsp/apps/csv_app.py", "pctsp/apps/tables_app.py"],
    [("flattening", "pctsp/vial/vial.py flatten_vial, vials_to_dataframe"), ("tables", "pctsp/apps/csv_app.py, pctsp/apps/tables_app.py")],
    TLCGEN, "Every cell of a recorded table is compared with the specification's definition of it." + TRUST)

add("C27", "Each named experiment sets up exactly its grid of vials",
    "For every experiment and data set directory, the vials set up are one for each combination of graph, cost function, quota or alpha, algorithm and option that the experiment varies, each exactly once and with its own fresh id, and every other setting at the experiment's fixed value. "
    "Quota and root are those of the data set file of that vial (alpha percent of the total prize, rounded down), heuristics carry no solver settings, exact algorithms carry all of them.",
    ["inputs", "configurations"], "all data sets and experiments; explored: every experiment of both data sets on generated data set files",
    "the tests set up no experiment", ["pctsp/compare/product_of_params.py", "pctsp/compare/params.py", "pctsp/compare/exact_experiment.py", "pctsp/compare/heuristic_experiment.py", "pctsp/compare/relaxation_experiment.py", "pctsp/compare/dryrun_experiment.py"],
    [("grids", "pctsp/compare/product_of_params.py, params.py and the experiment functions")],
    TLCGEN, "The multiset of vials is compared with the grid the specification enumerates." + TRUST)

add("C29", "Any history of commands leaves the laboratory as the commands say",
    "Over every history of commands (setup, lab, batch, slurm, missing, vial, nbatches, single runs, zip, unzip) and lost or torn result files, each command reads and writes only the files of its data set and experiment, runs exactly the vials it names, and fails without changes if a file it reads is missing. "
    "The Slurm script's tasks together run every vial of the experiment exactly once, within a time limit that covers a batch or two days, and an existing script is replaced only if asked. Running the missing vials again completes an experiment; an archive restores what it held.",
    ["inputs", "histories", "crash points", "configurations"], "all histories of commands; explored: generated histories of up to 9 commands on two data sets, three experiments and 0-5 vials",
    "the tests run no command", ["pctsp/apps/main_app.py", "pctsp/apps/utils_app.py", "pctsp/lab/lab.py"],
    [("commands", "pctsp/apps/main_app.py"), ("archives", "pctsp/apps/utils_app.py")],
    TLCGEN, "The recorded history must be a behaviour of the command machine, whose state is everything on disk; Slurm scripts are executed with stand-ins for srun and pctsp." + TRUST)

add("C33", "Data set statistics describe every instance of the data set",
    "For every graph whose root lies on a cycle, the statistics give its numbers of vertices and edges, total cost and prize, and metricness (of a largest component), the biggest prize that a least-cost pair of vertex-disjoint paths from the root to a vertex collects (each vertex once) and its ratio to the total, the greatest cost of such a pair, "
    "and the same figures for what is left when everything that lies on no cycle with the root is removed. They do not change the graph. "
    "The file of a data set has one line for every instance (graph, generation, cost function, sparsity), in order, with the statistics of exactly that instance.",
    ["inputs"], "all graphs with a total prize above zero, and data sets; explored: generated instances of 3-7 vertices with self loops, and every instance of data sets made of generated files of 4-12 vertices",
    "no test computes statistics", ["pctsp/apps/dataset_app.py"],
    [("statistics", "pctsp/apps/dataset_app.py get_graph_stats, stats_of_dataset")],
    TLCGEN, "The figures are compared with those of the problem machine's tours, enumerated by TLC; the metricness and sparsification of tspwplib are trusted for loading data set files." + TRUST)

RUNS = "every run of the solver observed from outside through SCIP events and constraint handlers of our own; "
_S = "all instances, options and points; explored: generated instances of 3-8 vertices, clustered ones of 7-11"

add("C34", "Summary tables group the runs of experiments and lose none",
    "Every summary table (tailing off, cost cover, heuristics, data sets) has one line or cell group per combination of its settings that occurs, and shows for it the number of optimal and feasible runs and the means of duration, gap, bounds, nodes and cuts over "
    "exactly the runs with these settings that have a value: infinite bounds have none, a run that proves infeasibility is not optimal, the gap of a heuristic is to the bound of its own instance, every heuristic run counts once. "
    "The table is written to its own file; a run with both cost covers is refused; writing all tables writes each table whose experiments there are, whether or not the directory exists.",
    ["inputs"], "table files of experiments with finite positive bounds or infinite ones; explored: generated files of 1-10 lines; the LaTeX styling (jinja2 is not installed) is replaced by a recorder of the table it is given",
    "no test makes a table", ["pctsp/apps/tables_app.py"],
    [("tables", "pctsp/apps/tables_app.py")],
    TLCGEN, "Means and gaps are compared exactly, in fractions of 2520. The order of lines and columns is not judged." + TRUST)

add("C02", "The mathematical program accepts exactly the feasible tours",
    "For every graph, root, prizes and quota, the 0/1 points the integer program of branch and cut accepts (its constraints together with the tests its handlers make on candidate solutions) are exactly the feasible tours: the edges and vertices of one simple cycle of the graph through the root with total prize at least the quota. "
    "The objective of an accepted point is the total cost of its edges. Every edge has one variable, every vertex one, and the root's is fixed to one.",
    ["inputs"], "all instances and all 0/1 points; explored: every point of generated instances with at most 16 variables, and points on and next to tours of instances of up to 8 vertices, and points on and next to tours of 16-40",
    "the tests check a handful of solutions of two fixed graphs", ["src/algorithms.cpp", "src/data_structures.cpp", "src/subtour_elimination.cpp", "src/cycle_cover.cpp", "src/solution.cpp", "include/pctsp/constraint.hh"],
    [("program", "src/algorithms.cpp PCTSPmodelWithoutSECs, PCTSPcreateBasicModel"), ("tests", "src/subtour_elimination.cpp scip_check, src/cycle_cover.cpp scip_check")],
    TLCGEN, "For small instances every 0/1 point is put to the real program; its verdicts are compared with the tours the problem machine closes." + TRUST)

add("C03", "Subtour elimination cuts off every subtour and no tour",
    "At every relaxed solution, each row that subtour elimination adds is violated by that solution and satisfied by every tour of the graph through the root. "
    "A solution with a piece of two or more vertices away from the root is cut off by the disjoint-tour rule, and one in which a fully visited vertex is held to the root by less than two units is cut off by the max-flow rule; both together cut off either.",
    ["inputs", "configurations"], "all instances and points; explored: generated fractional points of instances of 4-8 vertices, and every row added during whole runs on instances of 5-11 vertices",
    "the tests check the cuts of three fixed points", ["src/subtour_elimination.cpp", "src/separation.cpp", "include/pctsp/subtour_elimination.hh", "include/pctsp/separation.hh", "src/data_structures.cpp"],
    [("separation", "src/separation.cpp, src/subtour_elimination.cpp PCTSPseparateSubtour, addSubtourEliminationConstraint")],
    TLCGEN, "Validity of every recorded row is checked against every tour the problem machine closes; completeness by the specification's own cuts." + TRUST)

add("C04", "Cost covers exclude exactly what no better tour can visit",
    "Whenever a tour of cost b becomes the best known, before or during the search, the cost cover rules forbid exactly the vertices other than the root whose path cost (twice the shortest distance, or the given disjoint-path cost) is more than b, each once, and no tour of cost b or less is cut off. "
    "The number of covers is counted, per rule and separately for the tour the solver was handed; a rule that is switched off adds none.",
    ["inputs", "histories", "configurations"], "all instances, path costs and sequences of best tours; explored: generated ones with up to 3 bounds, and whole runs",
    "the tests count the covers of one fixed graph", ["include/pctsp/cost_cover.hh", "src/cost_cover.cpp", "src/algorithms.cpp"],
    [("rule", "src/cost_cover.cpp separateThenAddCostCoverInequalities, scip_exec"), ("initial covers", "src/algorithms.cpp")],
    TLCGEN, "Rows are compared exactly, and their validity with every tour of the problem machine; counts of whole runs by replaying the observed sequence of best tours." + TRUST)

add("C05", "Cycle covers cut off every piece below the quota and no feasible tour",
    "At every relaxed solution, the cycle cover rule is violated exactly when the piece of the solution around the root collects less than the quota. Each row it adds is violated by that solution and satisfied by every tour that meets the quota, and a piece of at least two vertices below the quota is cut off.",
    ["inputs"], "all instances and points; explored: generated fractional points of instances of 4-8 vertices, and rows of whole runs on instances of 5-11 vertices",
    "the tests check one fixed point", ["include/pctsp/cycle_cover.hh", "src/cycle_cover.cpp"],
    [("separation", "src/cycle_cover.cpp, include/pctsp/cycle_cover.hh")],
    TLCGEN, "Validity of every recorded row is checked against every feasible tour the problem machine closes." + TRUST)

add("C06", "The solver starts from the tour it is handed",
    "For every instance and start tour, the solver knows exactly that tour, with its vertices and its true cost, before it looks at its first relaxation if it is a feasible tour, and no solution if it is not (below the quota, not through the root, more than one cycle). Its answer is never more costly than the start tour.",
    ["inputs"], "all instances and edge sets; explored: generated instances of 3-8 vertices, 16-40 too with feasible and infeasible start tours",
    "the tests start from one tour of one graph", ["src/algorithms.cpp", "src/solution.cpp", "include/pctsp/solution.hh"],
    [("start", "src/algorithms.cpp addHeuristicVarsToSolver, solvePrizeCollectingTSP")],
    TLCGEN, "The recorded solver states must be behaviours of the start machine." + TRUST)

add("C08", "Branching strategies order the solver's rules as they say, over any history",
    "After any sequence of choices of branching strategies, the rules of the solver are ordered as the last choice says: reliability branching first; full strong branching first at every depth, then reliability branching; or full strong branching down to the given depth and reliability branching below. "
    "The default strategy changes nothing. A whole run uses the strategy and depth it was given, and the codes of the Python and compiled side agree.",
    ["histories", "configurations"], "all histories of choices; explored: generated histories of up to 5 choices with both rule sets, and whole runs",
    "the tests set two strategies once", ["src/branching.cpp", "include/pctsp/branching.hh", "pctsp/vial/model_params.py", "src/algorithms.cpp"],
    [("strategies", "src/branching.cpp setBranchingStrategy")],
    TLCGEN, "The recorded rules after every choice must agree with the machine's." + TRUST)

add("C09", "The summary of a run says what happened in the run",
    "For every run, the summary file holds the solver's final status, its bounds in the costs of the input (equal when it is optimal; the upper one is the cost of the answer), the number of nodes, and the number of cuts of each rule, which are the sums of those recorded during the run and zero for rules that are switched off. "
    "Reading a summary file, in the compiled code or in Python, gives the values that were written, an existing file is replaced, and a missing file is reported as missing.",
    ["inputs", "configurations"], "all runs and summaries; explored: generated whole runs on instances of 5-11 vertices, and 16-25 with all options, and generated summaries",
    "the tests compare no summary with its run", ["src/stats.cpp", "include/pctsp/stats.hh", "src/algorithms.cpp", "pctsp/algorithms/data_structures.py", "include/pctsp/exception.hh"],
    [("summary", "src/algorithms.cpp getSummaryStatsFromSCIP, src/stats.cpp writeSummaryStatsToYaml, readSummaryStatsFromYaml")],
    TLCGEN, RUNS.capitalize() + "the books of the specification, kept over the observed steps, must agree with the summary." + TRUST)

add("C10", "Node statistics and bounds record every node and relaxation of a run",
    "For every run, each visited node has one record with its own number, its parent, the bounds it was entered with and the number of subtour cuts of each rule that were added at it, and each solved relaxation one record with its node, the bounds at that time and an interval of time after the one before. "
    "The tables on disk hold these records in order, one row each under the right headings, with times in UTC to the millisecond.",
    ["inputs", "histories", "configurations"], "all runs and records; explored: generated whole runs on instances of 5-11 vertices, and 16-25 with all options, and generated records",
    "the tests only check that the files exist", ["src/event_handlers.cpp", "include/pctsp/event_handlers.hh", "src/node_selection.cpp", "src/stats.cpp", "src/separation.cpp"],
    [("records", "src/event_handlers.cpp NodeEventhdlr, BoundsEventHandler"), ("tables", "src/stats.cpp writeNodeStatsToCSV, writeBoundsToCSV")],
    TLCGEN, RUNS.capitalize() + "the records are compared with the specification's books over the observed steps." + TRUST)

add("C11", "A node is branched on exactly when its relaxation has tailed off",
    "For every run, window length of at least two and threshold, the subtour handler branches on a relaxation that is not a cycle exactly when the gap of that node between best tour and bound has fallen by less than the threshold over its last window of relaxations, and there is a fractional variable to branch on; never with a shorter history of that node or when tailing off is switched off. "
    "Gaps are between bounds in the same units, an infinite gap that becomes finite counts as progress.",
    ["inputs", "histories", "configurations"], "all sequences of relaxations; explored: generated whole runs on instances of 5-11 vertices, and 16-25 and generated sequences of up to 12 gaps",
    "the tests check two fixed lists of gaps", ["src/subtour_elimination.cpp", "include/pctsp/subtour_elimination.hh"],
    [("window", "src/subtour_elimination.cpp pushIntoRollingLpGapList, isNodeTailingOff, scip_enfolp")],
    TLCGEN, RUNS.capitalize() + "the window machine decides what the handler must do after every relaxation." + TRUST)

add("C30", "Log levels show exactly the messages they ask for, each once",
    "After any history of log levels, compiled code shows a message exactly if its severity is at least that of the level set last, where the levels of Python mean fatal, error, warning, info, debug and trace, and any other number info. "
    "Getting a Python logger by its name sets its level (info if none is given), and a message of at least that level is shown on exactly one line, however often that logger was got before.",
    ["histories"], "all histories of levels and messages; explored: generated histories of up to 12 steps",
    "the tests set one level", ["src/logger.cpp", "include/pctsp/logger.hh", "pctsp/utils/utils.py"],
    [("levels", "src/logger.cpp getBoostLevelFromPyLevel, PCTSPinitLogging"), ("loggers", "pctsp/utils/utils.py get_pctsp_logger")],
    TLCGEN, "The recorded history must be a behaviour of the level machine." + TRUST)

add("C35", "A solution is read back as what it is",
    "For every point of the mathematical program, the vertices read from it are those whose value is positive, in order, and the edges, pairs, support graph and solution graph those with a positive value, each once, where numerical errors count neither as a value nor against a whole one; the point is called whole exactly when all its values are. "
    "Looking up variables gives those of the edges asked for in that order and reports one that is missing; lists of positive and negative variables keep their order and signs. A graph without loops is refused.",
    ["inputs"], "all points and lists; explored: 0/1 points, points in quarters and arbitrary ones with tiny errors, on instances of 3-7 vertices, and 16-40",
    "the tests read one 0/1 point of one graph", ["src/solution.cpp", "include/pctsp/solution.hh", "src/sciputils.cpp", "include/pctsp/sciputils.hh", "src/graph.cpp", "include/pctsp/graph.hh"],
    [("reading", "src/solution.cpp, include/pctsp/solution.hh"), ("variables", "src/graph.cpp getEdgeVariables, src/sciputils.cpp")],
    TLCGEN, "The observed readings must be those of the reader of the specification." + TRUST)

add("C36", "Pictures show exactly the graph, tour or results they are made from",
    "Drawing a graph draws every edge once as a line between the places of its ends, and no other line, and every vertex at its place in the colour of its value; drawing a tour draws exactly the edges of the tour; columns and colours are those asked for. "
    "The figure of the heuristics has, for each of the two cost functions and every kappa, the gaps of all runs of each heuristic once in either half, with heuristics told apart by colour and in the legend at most once.",
    ["inputs"], "all graphs, tours and table files; explored: graphs of 2-8 vertices with their planted tours, and generated table files of 1-10 lines; writing an image (no engine for it is installed) is replaced by a recorder of the figure",
    "the tests draw nothing", ["pctsp/plot/plot_edges.py", "pctsp/plot/plot_graph.py", "pctsp/plot/plot_tour.py", "pctsp/plot/plot_vertices.py", "pctsp/apps/plot_app.py"],
    [("drawing", "pctsp/plot"), ("figure", "pctsp/apps/plot_app.py plot_heuristics_figure")],
    TLCGEN, "A pen machine follows the recorded line traces stroke by stroke; the figure is compared with the gaps of the specification of the summary tables." + TRUST)
