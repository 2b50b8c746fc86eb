"""Writes properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

SC="flamingpy/codes/surface_code.py"; SG="flamingpy/codes/graphs/stabilizer_graph.py"; EG="flamingpy/codes/graphs/egraph.py"
DE="flamingpy/decoders/decoder.py"; MA="flamingpy/decoders/mwpm/algos.py"; MM="flamingpy/decoders/mwpm/matching.py"
UA="flamingpy/decoders/unionfind/algos.py"; UC="flamingpy/decoders/unionfind/uf_classes.py"; CV="flamingpy/noise/cv.py"
prop("C01","The code graph is exactly the RHG lattice for its size and boundaries",
 "For every size (an integer or three integers, each at least 2) and every choice of boundary types, the graph built for the code has exactly the vertices of the RHG lattice in the box those boundaries define, each labelled primal or dual correctly, and exactly the edges joining primal and dual vertices one unit apart, wrapping around (and marked periodic) only across periodic directions. Each edge weight is the value of the supplied polarity function on that edge, or 1 without one. A slice of the lattice lists exactly the vertices with that coordinate. Sizes that are neither one nor three integers, and unknown error complexes, boundaries or backends, are refused.",
 ["inputs","configurations"],"every triple of dimensions of at least 2, every boundary combination (named or given as a sequence), every polarity",
 "tests build a few sizes and compare counts or a subset of the coordinates; the lattice has to be right for every rectangular size and every one of the 27 boundary combinations",
 [SC],[("RHG_graph","surface_code.py RHG_graph, dual_neighbours"),("str_to_bound","surface_code.py str_to_bound")],
 [("graph","vertices with type, edges with weight and periodic flag","SurfaceCode.graph / RHG_graph return value")],["graph.nodes(data)","graph.edges(data)"])
prop("C02","Stabilizers, syndrome qubits and boundary points fit the lattice",
 "For every code, the stabilizers are exactly the lattice's check cubes restricted to existing qubits (wrapping in periodic directions), the syndrome coordinates and indices are exactly the qubits those stabilizers act on, and the boundary points are exactly the syndrome qubits on the two boundaries of the code's error complex. Consequently flipping any single syndrome qubit flips exactly the stabilizers containing it: two, or one if it is a boundary point; a stabilizer's parity is the sum of its current bit values modulo 2.",
 ["inputs","configurations","histories"],"every size, error complex and boundary choice; every assignment of bit values",
 "tests check stabilizer counts for small cubes; the incidence structure has to be right for every size and boundary, and parities for every assignment of bits",
 [SC,"flamingpy/codes/stabilizer.py"],[("identify_stabilizers","surface_code.py"),("periodic_boundary_stabilizers","surface_code.py"),("identify_boundary","surface_code.py"),("parity","stabilizer.py")],
 [("{ec}_stabilizers","check operators","SurfaceCode"),("{ec}_bound_points","boundary qubits","SurfaceCode")],["Stabilizer.coords/parity","all_syndrome_coords","all_syndrome_inds"])
prop("C03","The stabilizer graph mirrors the code and its shortest paths are shortest",
 "For every code and either graph backend, the stabilizer graph has one node per stabilizer and boundary point, one edge per pair of stabilizers sharing a qubit, per stabilizer and boundary point it contains, and per boundary point and its low or high connector; after weight assignment each edge carries the current weight of its qubit (0 at the connectors). Every reported shortest path is a real path between its endpoints whose total weight is the reported length and is minimal, and paths between stabilizers never pass through a connector. The stabilizers it reports as odd are those with an odd number of flipped qubits. All this also holds of its conversion to networkx.",
 ["inputs","configurations","histories"],"every size, boundary, error complex and backend; every assignment of positive integer weights, and any sequence of reassignments",
 "tests compare the two backends with each other on a few codes with random weights; neither is compared with what the paths ought to be, and stale weights after reassignment are not considered",
 [SG],[("connect_nodes","stabilizer_graph.py"),("assign_weights","stabilizer_graph.py"),("shortest_paths_*","NxStabilizerGraph, RxStabilizerGraph")],
 [("graph","nodes, edges and weights","StabilizerGraph")],["nodes(), edges(), edge_data()","shortest_paths_without_high_low/from_low/from_high"])
prop("C04","MWPM recovery clears every syndrome",
 "For every code, every set of flipped qubits, every weight assignment with positive integer weights and every combination of stabilizer-graph and matching backends, the MWPM decoder returns a set of syndrome qubits whose flipping leaves every stabilizer with even parity; applying the recovery flips exactly those qubits. With no odd stabilizers the returned set is empty.",
 ["inputs","configurations","histories"],"all error patterns, weights, sizes, boundaries, error complexes and backends, including repeated decoding of the same code object",
 "tests decode a handful of random patterns on fixed sizes; the number of error patterns is exponential",
 [DE,MA,MM,SG],[("mwpm_decoder","mwpm/algos.py"),("recovery","decoder.py"),("with_edges_from","matching.py")],
 [("bit_val","current bit value of a qubit","code.graph.nodes")],["recovery set","bit values after recovery"])
prop("C05","MWPM recovery has minimum total weight",
 "The set of qubits returned by the MWPM decoder has the smallest total weight of all sets of qubits that clear the same syndrome, whichever matching backend (networkx, rustworkx or Lemon) is used. The matching behind it covers every odd stabilizer exactly once, and its total weight equals that minimum.",
 ["inputs","configurations"],"all syndromes and positive integer weights, on all sizes, boundaries, error complexes and backends",
 "tests compare backends with each other on a few small graphs; optimality against all alternatives is never checked",
 [MA,MM,"flamingpy/decoders/mwpm/lemon.py","flamingpy/cpp/lemonpy.cpp",SG],[("min_weight_perfect_matching","matching.py, lemon.py, lemonpy.cpp"),("with_edges_from","matching.py"),("total_weight_of","matching.py")],
 [("matching graph","odd stabilizers, virtual points and path weights","MatchingGraph")],["recovery set weight","matching, total_weight_of"])
prop("C06","Union-Find terminates and clears every syndrome, with or without erasures",
 "For every code, every set of flipped qubits and every set of erased qubits, the Union-Find decoder terminates and returns a set of syndrome qubits whose flipping leaves every stabilizer with even parity. With no odd stabilizers the returned set is empty.",
 ["inputs","configurations","histories"],"all error and erasure patterns, sizes, boundaries, error complexes and stabilizer-graph backends",
 "tests decode a few random patterns; termination and correctness depend on how clusters meet each other and the boundary, over exponentially many patterns",
 [UA,UC],[("union_find","unionfind/algos.py"),("obtain_spanning_forest, peeling","unionfind/algos.py"),("Support, Boundary","uf_classes.py")],
 [("bit_val, weight","syndrome and erasure","code.graph.nodes")],["recovery set","bit values after recovery"])
prop("C07","Errors within the correction radius of the code are always corrected",
 "Let d be the length of the shortest logical operator of the code. If t qubits are flipped with 2t < d, decoding with uniform weights succeeds, with either decoder; with the Union-Find decoder, s erased qubits (each flipped or not) and t further flipped qubits are corrected whenever 2t + s < d.",
 ["inputs","configurations"],"all patterns of flips and erasures within the radius, on every size, boundary, error complex and decoder",
 "tests only check that decoding runs, or that no noise decodes to success; the guarantee quantifies over all low-weight patterns, some of which need clusters meeting at a boundary",
 [DE,MA,UA,UC,SC],[("correct","decoder.py"),("uf_decoder","unionfind/algos.py"),("mwpm_decoder","mwpm/algos.py")],
 [],["correct() result"])
prop("C08","The verdict of error correction is the logical class of the residual error",
 "When all stabilizers are satisfied, checking the correction reports success exactly when the residual set of flipped qubits is equivalent, up to stabilizers of the opposite complex, to no error, i.e. contains no logical operator in any direction the code protects. The verdict does not change when a trivial closed loop of flips is added, it does change when a logical operator is added, and all parallel planes report the same parity. Applying a recovery, of whatever qubits, flips exactly those; its sanity check reports success exactly when no stabilizer is left odd and otherwise names exactly the odd ones.",
 ["inputs","configurations","histories"],"every closed pattern of flips (products of loops and logical operators) on every size, boundary and error complex",
 "tests check a few planted logical operators or the all-zero case; the verdict has to be invariant under all trivial loops",
 [DE],[("check_correction","decoder.py")],[],["check_correction(code, sanity_check)","correct()"])
prop("C09","Weights follow the chosen rule for every qubit, and leave nothing stale",
 "After weight assignment every syndrome qubit has the weight its rule prescribes from the current node data: 1 for uniform MWPM; 2, or -1 (erased) when two or more neighbours are p-squeezed, for uniform Union-Find; for the blueprint method -log of the error probability (1/4, 1/3, 2/5 for two, three, four p-squeezed neighbours, else the conditional phase error probability capped at 1/2 and replaced by the smallest float if zero), multiplied and rounded to an integer on request. Every stabilizer-graph edge then carries its qubit's weight, whatever assignments came before, and the blueprint method with Union-Find is refused.",
 ["inputs","configurations","histories"],"all state patterns, error probabilities, options and sequences of assignments on one code object",
 "tests check a few patterns with a fresh code; the rule depends on neighbour patterns and the history of earlier assignments",
 [DE,SG],[("assign_weights","decoder.py"),("assign_weights","stabilizer_graph.py")],[("weight","qubit weight","code.graph.nodes")],["node weights","edge_data weights"])
prop("C10","IID noise sets each bit by one draw compared with the error probability",
 "Applying IID noise gives every node of the code's graph an integer bit value 0 or 1, overwriting earlier values, that is 1 exactly when an independent uniform draw of the supplied generator, one per node, falls below the error probability; so probability 0 flips nothing, probability 1 flips everything, and the same seed reproduces the same bits. Probabilities outside [0, 1] are refused.",
 ["inputs","histories"],"all probabilities, codes, draw sequences and repeated applications",
 "tests look at statistics of a run or two; independence per node, thresholds at the draw and overwriting are not settled by sampling",
 ["flamingpy/noise/iid.py"],[("apply_noise","iid.py")],[("bit_val","bit values","code.graph.nodes")],["bit_val of all nodes"])
prop("C11","CV noise populates every mode with exactly one state, in every trial",
 "After each population of states, the p-squeezed and GKP indices partition all the modes of the graph, each node's state label is the state its index is listed under, and the p-squeezed modes are the ones supplied, or, with a swap-out probability, a fresh uniform sample whose size is a fresh binomial draw over all modes (all modes at probability 1, none at 0). This holds on every repetition on the same noise object or the same code, and supplying both indices and a probability is refused.",
 ["inputs","histories"],"all codes, swap-out probabilities, supplied index sets and any number of repeated trials, on one or several noise objects over one code",
 "tests populate once per object; Monte Carlo runs populate the same object many times",
 [CV],[("populate_states","cv.py"),("_generate_gkp_indices","cv.py"),("_generate_squeezed_indices","cv.py")],
 [("states","indices per state","CVLayer.states"),("state","label","egraph.nodes")],["p_inds, gkp_inds","node labels"])
prop("C12","Homodyne outcomes are the sampled quadratures propagated through the CZ gates",
 "In the default sampling order each mode draws zero-mean q and p noise with the standard deviations of its state (p-squeezed: q 1/sqrt(2 delta), p sqrt(delta/2); GKP: both sqrt(delta/2); perfect qubits 0), and the p outcome of a measured mode is its own p noise plus the edge-weighted sum of its neighbours' q noise, while q outcomes are unchanged; outcomes are written to exactly the requested modes and bit values are the translator of the outcomes. In two-step order the initial q values, drawn for each mode, are integer multiples of sqrt(pi) for GKP modes (uniform in [0, 2 sqrt(pi)) for p-squeezed), propagated through the gates before a draw of standard deviation sqrt(delta/2) is added, and the symplectic CZ matrix and its two application modes agree with this rule.",
 ["inputs","configurations","histories"],"all graphs with any edge weights, state patterns, deltas, index subsets, perfect qubits and both sampling orders",
 "tests compare shapes, or the code with itself; propagation has to be right for every graph, subset and weight",
 [CV,"flamingpy/cv/ops.py"],[("measure_hom","cv.py"),("_covs_sampler, _means_sampler","cv.py"),("SCZ_mat, SCZ_apply","ops.py"),("inner_decoder","cv.py")],
 [("hom_val_p, hom_val_q, bit_val","outcomes","egraph.nodes")],["hom_outcomes, bit_values","arguments of rng.normal"])
prop("C13","GKP binning snaps to the nearest multiple and error probabilities are consistent",
 "For every real x and bin width alpha, the integer and fractional parts satisfy x = n alpha + f with |f| <= alpha/2, values on a bin edge going to the lower bin, and the bit value is n mod 2 (periodic with period two bins). The conditional phase error probability lies in [0, 1], is even in and periodic (one bin) with respect to the outcome when the fractional part is used, never decreases with the distance from the bin centre or with the variance, is 1/2 at the bin edge, and scalar and array calls agree element by element. The unconditional probability is the average of the conditional one over the outcomes. For the probability, variances are those for which the summation window neither truncates the sum nor underflows; where it underflows, the requested replacement value is returned instead.",
 ["inputs"],"all outcomes (positive, negative, on and near bin edges), widths and variances, scalars and arrays of any length",
 "tests check a few outcomes and shapes; the identities are for all real inputs",
 ["flamingpy/cv/gkp.py"],[("integer_fractional, GKP_binner","gkp.py"),("Z_err, Z_err_cond","gkp.py")],[],["return values"])
prop("C14","Macronization replaces every vertex by a macronode that mirrors its edges",
 "Macronizing a graph yields, for every edge, a pair of micronodes displaced from the edge's endpoints towards each other (away from each other for periodic edges) and joined by an edge with the original attributes; the micronodes of a vertex round to that vertex, carry its attributes, are pairwise distinct, number its degree, or exactly four with padding, and are listed in the macronode dictionary, which covers every micronode exactly once. Perfect points are carried over to all their micronodes and the original graph is not modified.",
 ["inputs","configurations"],"all lattice graphs (sizes, boundaries), displacements below one half, padding on or off, with and without perfect points",
 "tests check a couple of lattices for counts",
 [EG],[("macronize","egraph.py")],[("macro_to_micro","macronode dictionary","EGraph")],["macronized graph"])
prop("C15","Macronode reduction gives each qubit its effective state, bit and error rate",
 "After macronode noise is applied, each macronode's four micronodes have body indices 1 to 4, its star is a GKP micronode whenever it contains one, and the reduced node is labelled with the star's state. The reduced bit value and error probability are the documented function of the star's p outcome and the neighbouring planets' q outcomes (with edge weights of 1 or -1 taken into account), so in the absence of noise, when every macronode contains a GKP state, every stabilizer of the reduced code is satisfied; this holds in every repeated trial and with any supplied beamsplitter network kept.",
 ["inputs","configurations","histories"],"all codes, state patterns, outcomes and repeated trials",
 "tests check labels on a small lattice and run the reduction once with random noise; the combination rule is never compared with an independent account",
 [CV,EG,"flamingpy/cv/ops.py"],[("CVMacroLayer.apply_noise","cv.py"),("_reduce_jth_macronode","cv.py"),("splitter_symp","ops.py")],
 [("bit_val, p_phase_cond, state","reduced data","reduced_graph.nodes")],["reduced_graph node data","egraph body_index"])
prop("C16","Graph indices, adjacency and macronodes stay consistent under edits",
 "Under every sequence of adding qubits, removing qubits, generating indices and generating adjacency matrices, the two index dictionaries are mutually inverse bijections between exactly the current qubits and distinct integers, existing qubits keep their index, the adjacency matrix (dense or sparse, as requested) is that of the current graph in index order, the qubits listed for a coordinate (slices, and the coordinates along an axis) are exactly the current ones there, and the macronode dictionary lists exactly the current micronodes it should. A call that is refused leaves all of this unchanged.",
 ["histories","inputs"],"all histories of add_qubit, remove_qubit, index_generator, adj_generator and macronize on plain and macronized graphs",
 "tests perform one edit on fresh graphs; consistency depends on the interleaving of edits with cached indices and matrices",
 [EG],[("add_qubit, remove_qubit","egraph.py"),("index_generator, adj_generator","egraph.py")],
 [("to_indices, to_points, adj_mat, macro_to_micro","caches","EGraph")],["attributes after each call","exceptions"])
prop("C17","LC equivalence is decided exactly and its certificates are valid",
 "Two graphs on the same ordered vertices are reported equivalent exactly when one can be turned into the other by a sequence of local complementations. When they are, the returned local Clifford, in either output form, has an invertible 2x2 binary block per qubit and maps the stabilizer space of one graph onto that of the other; graphs with different numbers of nodes, or without nodes, are reported not equivalent. The binary row reduction and null-space bases behind the decision are exact for every binary matrix.",
 ["inputs","histories"],"all pairs of simple graphs, connected or not, in both output forms and whatever adjacency form was cached before",
 "tests check fewer than ten pairs of graphs; equivalence classes are orbits over exponentially many graphs",
 ["flamingpy/utils/linalg.py",EG],[("are_lc_equivalent, search_nullspace, lc_constraint_system","linalg.py"),("is_lc_equivalent","egraph.py")],[],["return value"])
prop("C18","Graph-state generators return exactly the named graph",
 "For every positive integer n (up to 100000, rings up to 1000000), the star, complete, linear and ring generators return graphs on exactly n vertices (three-component coordinates) with exactly the edges of the star, complete, path and cycle graph respectively, a single vertex for n = 1, and the Bell pair is the two-vertex path. Anything other than a positive integer is refused with a ValueError.",
 ["inputs"],"every n and every generator","tests check a few n",
 ["flamingpy/utils/graph_states.py"],[("generators","graph_states.py")],[],["graph nodes and edges"])
prop("C19","Monte Carlo counts the failed trials, each run once, across any number of ranks",
 "Over any number of MPI ranks, every one of the requested trials is executed by exactly one rank, each trial applies fresh noise before decoding with the requested decoder and weight options, and the error count returned at the root is the number of trials whose correction failed, between 0 and the number of trials. Different trials and different ranks draw their noise from distinct random streams, and with a fixed seed and number of ranks the count is reproducible.",
 ["schedules","configurations","histories"],"all trial counts, rank counts, outcome sequences, codes, noise models and decoders",
 "tests run one rank and check only that the result is in range",
 ["flamingpy/simulations.py"],[("ec_monte_carlo, ec_mc_trial","simulations.py")],[],["returned errors","calls of apply_noise and correct"])
prop("C20","The results file gains exactly one aligned row per simulation",
 "Each simulation run appends exactly one row to the results file, creating it with one header line if and only if it does not exist, and never alters earlier lines; only the root rank writes. Every row parses as CSV with one field per header column, giving the code, noise, decoder, their arguments (whatever text they contain), the error count and the number of trials of that run, each under the column of its name.",
 ["histories","inputs"],"all sequences of simulations with any arguments (including tuples and dictionaries), with and without an existing file",
 "tests write one file with one row and scalar arguments",
 ["flamingpy/simulations.py"],[("run_ec_simulation","simulations.py")],[("results file","lines","fname")],["file content before and after"])
prop("C21","Union-Find clusters always form a consistent partition",
 "Under every sequence of unions and root look-ups, the clusters partition the nodes as the merged sets prescribe: looking up a node's root gives the same root for all nodes of a cluster and different ones across clusters, the root's size is the number of its nodes, its parity the sum of their parities modulo 2, it knows a boundary node exactly if it contains one, and parent and child links agree, with look-ups compressing paths without changing membership. Initial clusters are the connected components of the erasure; in every growth round each cluster of odd parity that does not touch the boundary grows by half an edge in all directions, edges reached twice are fully grown, and clusters only ever merge along fully grown edges.",
 ["histories","inputs"],"all sequences of unions and finds on any number of nodes with any parities and boundary marks, and all cluster growths on small stabilizer graphs",
 "tests check a few hand-built trees",
 [UC,UA],[("Node, Root, union","uf_classes.py, algos.py"),("Support, Boundary, union_find","uf_classes.py, algos.py"),("initialize_cluster_trees","algos.py")],
 [("parent, children, size, parity, boundary","cluster tree","Node, Root")],["find_root, size, parity, boundary, children"])
prop("C22","Drawing and inspecting never change what is decoded",
 "Drawing a graph, a code, a stabilizer or matching graph, a syndrome or a decoding, converting graphs for drawing, and checking corrections leave the code, its graphs, bit values, weights and the caller's options unchanged; indices and adjacency matrices that were not computed yet may be, but computed ones stay as they are. Documented drawing options do not raise. Decoding with drawing switched on returns the same recovery and verdict as with it off.",
 ["histories","configurations"],"all drawing and inspection calls, at any point of a noise-decode-recover history, for every backend",
 "tests only check that figures are produced",
 ["flamingpy/utils/viz.py",SG,MM,EG],[("draw_*","viz.py"),("to_nx","stabilizer_graph.py, matching.py")],[],["state of the code before and after","recovery with and without draw"])
prop("C23","A trial depends on its settings and random draws, not on earlier trials",
 "However many trials have been run before on a code and its noise object (of one kind), with whatever noise parameters, decoders, backends and weight options, interleaved with trials on other codes, a trial gives the same state labels, homodyne outcomes, bit values, phase error probabilities, weights, stabilizer-graph weights, odd stabilizers and minimum recovery weight as the same trial on a freshly built code and noise object with the same seed; recoveries clear the syndrome every time.",
 ["histories","configurations"],"all sequences of trials with changing seeds and settings on one code, for IID, CV and macronode noise, and every decoder and backend",
 "tests build a new code for nearly every assertion; simulations reuse one code and one noise object for millions of trials",
 [CV,"flamingpy/noise/iid.py",DE,SG,MA,UA],[("populate_states, measure_hom, apply_noise","cv.py"),("assign_weights","decoder.py, stabilizer_graph.py"),("build_match_graph","mwpm/algos.py")],
 [("node attributes","state, hom_val_p, bit_val, p_phase_cond, weight","code.graph.nodes"),("edge weights","weights of stabilizer-graph edges","StabilizerGraph.edge_data")],["node attributes and edge weights after each trial","recovery weight"])
prop("C24","CZ gates, four-splitters and permutations act as the gates they model",
 "For every graph with real edge weights and every array of quadratures, applying the CZ gates (in either mode, one- or two-dimensional, dense or sparse) leaves every q unchanged and adds the edge-weighted q of the neighbours to every p, with no loss of precision, and equals multiplication by the symplectic CZ matrix. The four-splitter matrix is the product of balanced beamsplitters on modes (1,0), (3,2), (2,0), (3,1), acting alike on q and p; for n = 4 in the ordering with all q's first, for larger multiples of four in blocks ordered q1, p1, ..., q4, p4; fewer than four modes are refused. Inverting a permutation gives the permutation that undoes it. Every circuit of these gates preserves the symplectic form, and the inputs are not modified.",
 ["inputs","histories"],"all circuits of CZ gates, four-splitters and permutations on any number of modes and any quadratures",
 "tests check the shape of the matrices and a few products; the identities are for all graphs, weights and orderings",
 ["flamingpy/cv/ops.py"],[("SCZ_mat, SCZ_apply, splitter_symp, invert_permutation","ops.py")],[],["return values"])
prop("C25","Drawings show exactly the graph, syndrome and recovery they are given",
 "A drawing of a graph state shows one point per node at its coordinates (on matplotlib y up and z into the page), one segment per edge, every node and edge in the colour asked for (a name, its own colour attribute, or by a dictionary on an attribute; else black nodes and grey edges), the value of the requested attribute at every node that has one, the title and legend asked for; plotly drawings show the same with the requested information on every node. Drawings of stabilizer and matching graphs have exactly their nodes (other than the two connectors) and edges, coloured by weight on the scale shown and labelled with their weights on request. Syndrome plots have one box around the centre of every stabilizer, red if its parity is odd and green if even, aligned with the graph if that is shown; recovery drawings mark exactly the recovery and the paths of the matching except between two virtual points. Heat maps show the matrix, curves the data with a tick at every multiple of the bin width they span; tick labels name every multiple of half the square root of pi and other numbers to the decimals asked for.",
 ["inputs","configurations"],"all graphs, attributes, colours, labels, codes, syndromes, matchings and numbers",
 "tests only check types, numbers of ticks and limits of axes for a few graphs; nothing looks at what is drawn",
 ["flamingpy/utils/viz.py"],[("draw_EGraph, draw_dec_graph, syndrome_plot, draw_decoding, plot_mat_heat_map, plot_*","viz.py"),("to_pi_string, PiFormatter","viz.py"),("draw","surface_code.py, egraph.py, stabilizer_graph.py, matching.py")],
 [],["artists of the matplotlib axes","traces of the plotly figure","tick labels"])
prop("C26","The command line runs the simulation it asks for",
 "A complete, well-formed command line of simulations.py runs exactly the requested number of trials of the named code and noise model with the given arguments, decoder and decoder arguments, and appends exactly one row saying so to the default results file. Decoder names are understood whatever their case and stand for Union-Find (uf, unionfind, union-find, union find) or matching (mwpm, minimum weight perfect matching); arguments are read as literals and never evaluated as code. A command line with a missing option, an unknown code, noise model or decoder, a non-integer number of trials or arguments that are not literals is refused and leaves the results file as it was.",
 ["inputs","configurations","histories"],"all sequences of good and bad command lines, options in any order, on a new or existing results file",
 "no test runs the command line; the code below the main guard is never executed by the test suite",
 ["flamingpy/simulations.py"],[("main block","simulations.py")],[("results file","lines","./flamingpy/.sims_data/sims_results.csv")],["file content before and after","calls of correct and apply_noise","exit"])
prop("C27","Matching backends find minimum-weight perfect matchings of any graph",
 "For a matching graph built by any sequence of edge additions (a later addition replaces the weight and path of an edge), with whole non-negative weights and any hashable nodes, that has a perfect matching, every backend (networkx, rustworkx, Lemon) returns one of least total weight, and the total weight it reports is the sum of the weights of its edges. Weights and paths of edges are those last given, in either order of the nodes; asking for an edge that does not exist is refused; conversion to networkx keeps all edges, weights and paths, and the virtual points.",
 ["inputs","histories"],"all weighted graphs with a perfect matching, all orders of additions and queries, on all three backends",
 "tests match a few complete graphs made from codes and compare the backends with each other",
 [MM,"flamingpy/decoders/mwpm/lemon.py","flamingpy/cpp/lemonpy.cpp"],[("add_edge, edge_weight, edge_path, min_weight_perfect_matching, total_weight_of, to_nx","matching.py"),("min_weight_matching","lemon.py, lemonpy.cpp")],
 [("graph","nodes, edges, weights, paths","MatchingGraph.graph")],["return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
