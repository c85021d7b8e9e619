"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
AZP = "region/p_regions/azp.py"; AU = "region/p_regions/azp_util.py"; EX = "region/p_regions/exact.py"
MX = "region/max_p_regions/exact.py"; MH = "region/max_p_regions/heuristics.py"; SK = "region/skater/skater.py"
UT = "region/util.py"; CG = "region/csgraph_utils.py"; OB = "region/objective_function.py"

prop("C01", "p-regions heuristics return complete, contiguous partitions into p regions",
 "For every symmetric contiguity graph (connected or made of several islands), every attribute table, every number of regions p between the number of islands and the number of areas, every feasible starting labelling or none, and every random outcome, fitting AZP, AZPSimulatedAnnealing, AZPBasicTabu or AZPReactiveTabu succeeds. "
 "The resulting labels_ has one label per area, uses exactly p distinct labels, and the areas sharing a label are always connected through contiguity inside their region.",
 ["inputs", "schedules", "configurations"],
 "all maps, attributes, p, starting labellings and algorithm parameters; every sequence of outcomes of the random draws",
 "The tests fit one 3x3 grid with p=2 and seed 0; the guarantee ranges over every map (islands, p=1, p=n, ties) and over every random outcome.",
 [AZP, UT, CG], [("generate_initial_sol / separate_components", UT), ("donor contiguity test before each move", AZP), ("_make_move revert", AZP)],
 ["labels_ after fit_from_scipy_sparse_matrix / fit"])
prop("C02", "every p-regions and max-p heuristic fit terminates",
 "For every map, attribute table (including identical or tied attributes), number of regions, starting labelling and random outcome, a fit of AZP, AZPBasicTabu, AZPReactiveTabu, of AZPSimulatedAnnealing with a finite max_iterations, of MaxPRegionsHeu and of Spanning_Forest ends after a bounded amount of work; no sequence of equally good moves can keep it running. "
 "AZPBasicTabu in particular stops once it has met the same zoning repetitions_before_termination more times, and AZPReactiveTabu never does more than max_iterations rounds.",
 ["inputs", "schedules"],
 "all maps with ties in the attributes, all tabu lengths, all random outcomes",
 "Tests use one map with distinct attributes, on which every algorithm happens to stop; a livelock needs ties plus a particular tabu length or random order.",
 [AZP, MH, SK], [("strict-decrease loop condition", AZP), ("visited/repetitions stop", AZP), ("max_iterations loop", AZP)],
 ["fit returning; number of objective evaluations during fit"])
prop("C03", "local search never worsens its start, and AZP ends in a local optimum",
 "For every map, attributes and feasible starting labelling, the labelling returned by AZP, AZPBasicTabu and AZPReactiveTabu has an objective value no larger than that of the starting labelling, whatever the random outcomes. "
 "The labelling returned by AZP moreover cannot be strictly improved by moving a single area into a neighbouring region of the same island without emptying or splitting its old region, unless some such single move leaves the objective value unchanged.",
 ["inputs", "schedules"],
 "all maps, integer attributes, starting labellings, objective functions (pairwise, center based) and random outcomes",
 "Tests look at one final partition on one map; they never compare start and end values nor check local optimality.",
 [AZP, AU, OB], [("AllowMoveAZP accepts only diff <= 0", AU), ("region_neighbors bookkeeping", AZP), ("repeat until no improvement", AZP)],
 ["labels_ and objective value before/after"])
prop("C04", "objective functions are exact, and update() equals the recomputed difference",
 "Pairwise objective values equal the sum of the metric over all pairs of areas in the same region, and center-based values equal the chosen reduction (over regions) of the reduction (over areas) of the distances to the region's center, for every labelling, attribute table, metric (zero between equal attribute vectors), center and reduction. "
 "For every area and every other existing recipient region that leaves the donor region non-empty, update() equals the objective of the labelling after the move minus the objective before it, and leaves labels and attributes as they were, even if the metric raises.",
 ["inputs", "configurations"],
 "all labellings, areas, recipient regions, attribute tables, metric names and callables, reductions and centers",
 "Only two doctests call the objective on one labelling each; update() has no test at all, and reductions other than sum are never used.",
 [OB, UT], [("ObjectiveFunctionPairwise.update", OB), ("ObjectiveFunctionCenter.update", OB), ("get_metric_function", UT)],
 ["return values of __call__ and update, labels afterwards"])
prop("C05", "the move-acceptance strategy is obeyed and only ever offered legal moves",
 "During every AZP fit, each move offered to the allow-move strategy concerns an area with a neighbour in the offered recipient region, whose departure leaves its current region non-empty and connected, and the labels passed along are the current, feasible partition of that island. "
 "Areas change region only through accepted offers: an accepted offer is carried out exactly, a denied one changes nothing, and the final labels_ is the starting partition with the accepted moves applied, for every acceptance policy and random outcome.",
 ["inputs", "schedules", "histories"],
 "all maps, starting labellings, random outcomes, and all acceptance policies (each decision taken both ways)",
 "No test passes a strategy of its own or looks at intermediate partitions; the guarantee is about every step of every run.",
 [AZP, AU], [("candidate computation (step 4)", AZP), ("allow_move_strategy call (step 5)", AZP), ("start_new_component", AU)],
 ["calls received by an AllowMoveStrategy given to AZP, labels_"])
prop("C06", "simulated annealing follows its acceptance rule, cooling and move counting",
 "The simulated-annealing strategy always accepts a move that does not worsen the objective, accepts a move that worsens it by d at temperature T exactly when the uniform draw is below exp(-d/T), and keeps its tracked objective value equal to the start value plus the accepted differences. "
 "Every accepted move notifies the move observers, every accepted worsening move counts as an SA-move, and the SA observers are notified once the count since the last reset has reached sa_moves_term; temperature changes take effect for all later decisions. "
 "A fit of AZPSimulatedAnnealing starts at init_temperature, multiplies the temperature by cooling_factor after each annealing step, and stops after nonmoving_steps_before_stop steps without any move.",
 ["inputs", "histories", "schedules"],
 "all sequences of proposals, temperature changes and resets, with draws just below and just above the acceptance probability",
 "Tests only check one final partition from seed 0; the acceptance law, counters and cooling are never observed.",
 [AU, AZP], [("AllowMoveAZPSimulatedAnnealing.__call__", AU), ("cooling loop (steps a-d)", AZP)],
 ["decisions, observer calls, objective_val; draws requested"])
prop("C07", "tabu searches take the best admissible move and respect the tabu list",
 "At each step AZPBasicTabu carries out, among all moves of a single area to a neighbouring region that keep the donor region non-empty and connected and are not tabu, one with the smallest objective change if that change is not positive; otherwise it may make only an improving (aspiration) move out of the tabu list. "
 "Undoing one of the last tabu_length moves made is tabu unless it is such an aspiration; AZPReactiveTabu likewise carries out in each round a best non-tabu move (never a worsening one), and the labelling AZPReactiveTabu returns is, island by island, the best it reached.",
 ["inputs", "schedules", "histories"],
 "all maps, starting labellings, attributes, tabu lengths and random outcomes",
 "Tests only compare the final partition for one map and seed; the sequence of moves is never checked (and all reactive-tabu tests fail).",
 [AZP], [("best move selection", AZP), ("tabu deque", AZP), ("aspiration", AZP)],
 ["moves accepted by the strategy, objective evaluations, labels_"])
prop("C08", "generated starting partitions are feasible for every random outcome",
 "For every contiguity graph and every number of regions p from the number of connected components to the number of areas, the generator of initial solutions yields one labelling per connected component, -1 outside it, and together they assign every area to one of exactly p contiguous regions labelled 0..p-1, for every random outcome. "
 "The p regions are split over the components so that each component gets at least one and at most as many regions as it has areas, and every such split is possible; splitting existing labels into components reproduces them exactly.",
 ["inputs", "schedules"],
 "all graphs on up to 5 areas, all p, all sequences of random draws",
 "One doctest draws one random division of a path; multi-component graphs, p=1 and p=n are never generated in tests.",
 [UT], [("generate_initial_sol", UT), ("distribute_regions_among_components", UT), ("_randomly_divide_connected_graph", UT), ("separate_components", UT)],
 ["yielded arrays"])
prop("C09", "feasibility checks accept exactly the contiguous partitions",
 "For every graph and every labelling, assert_feasible raises ValueError exactly if some region is not connected or, when a number of regions is given, if the number of distinct labels differs from it; boolean_assert_feasible returns True exactly if all regions are connected and raises on a wrong number of regions. "
 "A heuristic p-regions fit given an infeasible starting labelling (split region or wrong number of regions) raises ValueError and leaves labels_ alone, and given a feasible one accepts it, whatever non-negative integers are used as region labels.",
 ["inputs"],
 "all graphs on up to 5 areas, all labellings, all numbers of regions",
 "Four two-area examples are tested; contiguity has to be right for every graph and labelling.",
 [UT, CG, AZP], [("assert_feasible", UT), ("boolean_assert_feasible", UT), ("is_connected", CG)],
 ["ValueError / return value; labels_"])
prop("C10", "all input representations of a map give the same result",
 "For AZP, AZPSimulatedAnnealing, AZPBasicTabu, AZPReactiveTabu, PRegionsExact, MaxPRegionsExact and MaxPRegionsHeu, describing the same map as a sparse matrix, a dict, a networkx graph, a W object or a GeoDataFrame yields the same region for each area under the same random outcomes, in whatever order areas, nodes or dict entries are listed and whatever hashable, sortable names they have. "
 "Labels follow the order of the representation: matrix rows, sorted dict keys, graph.nodes(), the W's id order, or GeoDataFrame rows. "
 "Every optional argument (initial labels, objective function, metric, method, solver, cooling factor, contiguity, max_it, threshold) has the same effect through each entry point.",
 ["inputs", "configurations"],
 "all node orders of small maps, all classes x entry points x optional arguments",
 "Tests use one map whose ids are already sorted 0..n-1 and never pass most optional arguments through the alternative entry points.",
 [AZP, EX, MX, MH, UT], [("fit_from_* adapters", AZP + ", " + EX + ", " + MX + ", " + MH), ("array_from_graph, array_from_dict_values, scipy_sparse_matrix_from_dict", UT)],
 ["labels_ after each fit_from_*"])
prop("C11", "refitting an instance behaves like fitting a fresh one",
 "For every class with a fit method, after any sequence of earlier fits of the same instance, on the same or different maps and sizes, successful or failed, a further fit gives, under the same random outcomes, the labels that a newly constructed instance with the same constructor arguments gives. "
 "This includes MaxPRegionsHeu and the local-search instance passed to it, which afterwards can be used on its own as if it had never been used.",
 ["histories", "inputs", "schedules"],
 "all histories of up to two earlier fits over a menu of problems, for each class; random draws chosen identically for both instances",
 "Every test constructs a fresh object and fits it once; leftovers from earlier fits are never exercised.",
 [AZP, MH, SK, EX, MX, AU], [("reset_tabu / visited", AZP), ("allow_move_strategy wrapping", MH), ("SA strategy construction", AZP)],
 ["labels_ of the refitted instance"],
 state=[dict(name="visited, avg_it_until_rep, rep_counter, tabu", meaning="search memory of the tabu variants", where=AZP), dict(name="allow_move_strategy", meaning="acceptance rule, wrapped by MaxPRegionsHeu", where=MH)])
prop("C12", "a given random_state makes results reproducible",
 "Constructing AZP, AZPSimulatedAnnealing, AZPBasicTabu, AZPReactiveTabu or MaxPRegionsHeu (with the default local search, or one that was itself given a random_state) with a random_state that is not None (an int including 0, a str or bytes) and then fitting it yields the same labels every time, whatever happened to the random generator before, whatever other objects were fitted earlier, and in whatever process. "
 "No draw made during such a fit comes from a differently seeded or unseeded generator.",
 ["histories", "schedules", "inputs"],
 "all short histories of other activity before construct-and-fit, and all answers of the system's entropy source",
 "Tests check only that one seed leads to the optimum of a tiny map, which most seeds do.",
 [AZP, MH, UT], [("random.seed in constructors", AZP + ", " + MH)],
 ["labels_; seeding of the generator that draws come from"])
prop("C13", "fitting never modifies the caller's data",
 "No fit method of any class changes the objects the caller passed in: the adjacency matrix, attribute and spatially extensive attribute arrays, initial labels, neighbor and attribute dicts, networkx graph, W object (including its transformation and weights), GeoDataFrame, and threshold are all equal to what they were before, for every entry point and random outcome, and so do the score and find_cut methods of Spanning_Forest unless asked to make the cut. "
 "Arrays already handed out as labels_ are not altered by later fits.",
 ["inputs", "histories"],
 "all classes x entry points x argument kinds, on several maps",
 "No test compares an argument with its state before the call.",
 [AZP, EX, MX, MH, SK, UT], [("separate_components copies labels", UT), ("W.transform in SKATER", SK), ("deepcopy in find_cut", SK)],
 ["arguments before and after each fit"])
prop("C14", "invalid arguments are rejected with an exception, never with labels",
 "Every fit rejects, with ValueError, a number of regions that is zero, negative, larger than the number of areas or (for heuristics) smaller than the number of islands, an unknown method, solver, metric or contiguity, a cooling factor outside (0, 1), and, for the exact and max-p classes, dicts with differing keys or non-dict inputs; constructors reject a non-positive max_iterations, a non-positive or (other than infinity) non-integral sa_moves_term, an allow_move_strategy that is not one, and observers that are not callable. "
 "A rejected call leaves labels_ of the instance unchanged; valid spellings (solver and method names in any letter case, every documented metric name) are accepted.",
 ["inputs", "configurations"],
 "all classes x entry points x invalid values of each argument",
 "Not one test passes an invalid argument to a fit method.",
 [AZP, AU, EX, MX, MH, UT, SK], [("argument checks", UT), ("_check_method", EX), ("dict key checks", MX)],
 ["raised exception; labels_"])
prop("C15", "a fit that fails midway leaves the previous result intact",
 "If a user-supplied callable (metric, objective function, acceptance strategy, or SKATER center or reduction) raises at any of its calls, or the solver backend fails, the exception reaches the caller, the instance still holds exactly the labels of its last successful fit (or none), and all caller-supplied data are unchanged. "
 "A subsequent fit of the same instance without the failure gives the same result as a fresh instance.",
 ["fault_sequences", "histories"],
 "every position of a failure in the sequence of callable calls of a fit, for every class",
 "No test makes anything fail.",
 [AZP, EX, MX, MH, SK, OB], [("labels_ assigned last", AZP + ", " + EX + ", " + MX + ", " + MH), ("ObjectiveFunctionCenter.update", OB)],
 ["exception; labels_ afterwards; arguments"])
prop("C16", "exact p-regions solutions are feasible and optimal with all three methods",
 "For every connected or disconnected map, attribute table with one or several attributes, metric, and every p for which a contiguous partition into p regions exists, PRegionsExact with method flow, order or tree returns a complete labelling with exactly p contiguous regions. "
 "Its total within-region pairwise dissimilarity, measured between the areas' attribute vectors, equals the minimum over all such partitions, whichever optimal solution of its model the solver reports.",
 ["inputs", "configurations"],
 "all graphs on up to 5 areas, all p, attribute tables over a small alphabet with ties, all optimal solver answers reachable by secondary objectives",
 "Tests solve one 3x3 map with p=2 and with duplicated attribute columns; extremes of p, ties, islands and real multi-attribute data are never solved.",
 [EX], [("_flow", EX), ("_order", EX), ("_tree", EX)], ["labels_"])
prop("C17", "exact solvers never return labels when there is no solution",
 "If no partition satisfies the request (fewer regions than islands, or a threshold that some island cannot reach), or the solver backend reports any status other than optimal, PRegionsExact and MaxPRegionsExact raise an exception instead of producing labels, and labels_ of the instance stays as it was. "
 "MaxPRegionsHeu likewise raises when some island cannot reach the threshold.",
 ["inputs", "fault_sequences"],
 "all infeasible small instances x methods, and every solver status",
 "No test solves an infeasible instance or simulates a solver status.",
 [EX, MX, MH], [("prob.solve result status", EX + ", " + MX), ("assign_enclaves on unreachable enclaves", MH)], ["exception; labels_"])
prop("C18", "exact max-p solutions maximise regions, then minimise dissimilarity",
 "For every map, attribute table (including identical attributes), non-negative spatially extensive attributes (one or several) and threshold for which a solution exists, MaxPRegionsExact returns contiguous regions covering all areas, each reaching the threshold in every spatially extensive attribute. "
 "Their number is the maximum possible, and among all such partitions with that many regions the total within-region pairwise dissimilarity is minimal.",
 ["inputs", "configurations"],
 "all graphs on up to 4 areas (5 thorough), spatially extensive attributes and attributes over small alphabets, scalar and vector thresholds",
 "Tests solve one 2x2 map with one optimum.",
 [MX], [("threshold constraint (5)", MX), ("objective weighting 10**h", MX), ("contiguity-order constraint (4)", MX)], ["labels_"])
prop("C19", "heuristic max-p regions are contiguous, complete and reach the threshold",
 "For every map on which each island's total reaches the threshold, non-negative spatially extensive attributes (one or several), scalar or vector threshold, random outcome and every supported local search (default, AZP, AZPSimulatedAnnealing, AZPBasicTabu, AZPReactiveTabu), MaxPRegionsHeu succeeds. "
 "Its labels_ assigns every area to a contiguous region, and in every region the sum of each spatially extensive attribute is at least the threshold.",
 ["inputs", "schedules", "configurations"],
 "all graphs on up to 5 areas, small alphabets of spatially extensive attributes, thresholds, local searches; random outcomes up to a deviation bound",
 "Tests fit one 2x2 map with unit attributes and the default local search.",
 [MH, AU], [("grow_regions", MH), ("assign_enclaves", MH), ("AllowMoveAZPMaxPRegions", AU)], ["labels_"])
prop("C20", "heuristic max-p keeps the most regions it built and the best partition it found",
 "MaxPRegionsHeu returns as many regions as the largest of the max_it partitions it constructed, and its objective value is the lowest over the locally searched partitions with that many regions, so never higher than that of any constructed partition with that many regions when the local search is AZP (the default). "
 "With AZP the result cannot be strictly improved by moving one area to a neighbouring region while keeping contiguity and the threshold, unless some such move leaves the objective value unchanged.",
 ["inputs", "schedules"],
 "all small maps and thresholds, random outcomes of construction and local search",
 "Tests only check the final partition of one 2x2 map for one seed.",
 [MH, AU, AZP], [("construction loop with max_p", MH), ("best_obj_value selection", MH), ("objective_val of the wrapped strategy", AU)], ["labels_, constructed partitions"])
prop("C21", "the threshold filter blocks exactly the moves that break the threshold",
 "Wrapped around any strategy, the max-p acceptance strategy denies every move after which the donor or the recipient region would no longer reach the threshold in every spatially extensive attribute, given that they reach it before the move, also when attributes are negative or of mixed sign. "
 "It passes every other move on to the wrapped strategy, whose answer is final, and it exposes the wrapped strategy's tracked objective value and other methods.",
 ["inputs", "configurations"],
 "all labellings of small maps, spatially extensive attributes in {-1,0,1,2} with one or two columns, thresholds, areas and recipients",
 "No test calls the strategy; the one end-to-end test uses unit attributes only.",
 [AU], [("AllowMoveAZPMaxPRegions.__call__", AU), ("__getattr__ forwarding", AU)], ["return value, wrapped strategy's calls"])
prop("C22", "max-p construction builds valid regions and places every enclave",
 "For every map, non-negative spatially extensive attributes, threshold and random outcome, the growth phase returns disjoint contiguous regions that each reach the threshold, plus the list of exactly the remaining areas; each area added to a growing region is an unassigned neighbour least dissimilar to it, and growth stops as soon as the threshold is reached. "
 "Enclave assignment then adds each remaining area to a neighbouring region with the smallest total dissimilarity to it, keeping all regions contiguous and covering all areas.",
 ["inputs", "schedules"],
 "all graphs on up to 5 areas, small alphabets, every sequence of random draws",
 "Neither phase is tested on its own.",
 [MH], [("grow_regions", MH), ("find_best_area", MH), ("assign_enclaves", MH), ("find_best_region_idx", MH)], ["returned partition and enclaves; metric calls"])
prop("C23", "SKATER returns contiguous regions of the requested number and size",
 "For every symmetric W whose islands all have at least quorum areas, every data table (including ties and identical rows) and every n_clusters, Spanning_Forest.fit labels every area, with each region connected in W and of at least quorum areas, and yields exactly n_clusters regions on a connected map; with several islands it yields n_clusters (or one per island if that is more) when islands='ignore', and n_clusters plus the number of islands when islands='increase'. "
 "It yields fewer only if no edge of its remaining forest can be cut without violating the quorum, and then warns; an island smaller than the quorum on a disconnected map is rejected with ValueError.",
 ["inputs", "configurations"],
 "all graphs on up to 5 nodes, data over a small alphabet, all n_clusters and quorums, both island modes, both kinds of metric argument",
 "SKATER's only tests need a download and cannot run here; they assert nothing about the labels.",
 [SK], [("minimum spanning forest construction", SK), ("quorum check in score", SK), ("cut loop", SK)], ["current_labels_, warnings"])
prop("C24", "SKATER cuts minimum spanning forests greedily and scores regions correctly",
 "The forest SKATER starts from is a minimum spanning forest of the W graph under the given dissimilarity (so it has one tree per island, even where neighbouring areas are identical), and each cut it makes is one that minimises, over all remaining forest edges whose removal respects the quorum, the score of the resulting labelling. "
 "The score equals the reduction over regions of the reduction of the dissimilarities between areas and their region's center for any labels, is infinite if a region is below the quorum, and the trace, if requested, lists each successive labelling with its cut.",
 ["inputs", "configurations"],
 "all graphs on up to 5 nodes, data over a small alphabet, all quorums, several reductions, centers and metrics",
 "No runnable test exists for SKATER.",
 [SK], [("minimum_spanning_tree", SK), ("find_cut", SK), ("score", SK), ("make_cut", SK)], ["_trace / minimum_spanning_forest_, score return value"])
prop("C25", "conversion and graph helpers are faithful for every input",
 "The conversion helpers preserve which value belongs to which area for every order and naming of areas: dicts to arrays (sorted by key or by the given keys, including subsets and repeats), graph attributes or dicts to arrays in graph.nodes() order, neighbor dicts and W objects to adjacency matrices, data frame columns to arrays and dicts, region lists to labels. "
 "The graph helpers is_connected, neighbors and sub_adj_matrix (with and without excluded nodes), count, and find_sublist_containing agree with their definitions on every graph and node subset.",
 ["inputs"],
 "all graphs on up to 5 nodes (thorough 6), all node subsets and orders, several naming schemes",
 "Doctests use ids already sorted 0..n-1; one compares .all() of two matrices and would pass for almost anything.",
 [UT, CG], [("array_from_dict_values", UT), ("scipy_sparse_matrix_from_dict", UT), ("array_from_graph", UT), ("sub_adj_matrix", CG), ("is_connected", CG)],
 ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
