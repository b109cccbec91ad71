#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Only genuine conditional intensity matrices are accepted as node parameters",
 "Setting a node's conditional intensity matrices succeeds exactly when every matrix is square with the side equal to the number of node states, all entries are finite, every diagonal entry is negative, no off-diagonal entry is negative, and every row sums to zero up to floating-point rounding relative to the size of that row's rates (absolute rounding for rates below one). "
 "A rejected matrix is reported as an invalid-CIM error and leaves the node with no CIM (validating it then reports 'not initialized'), never with the old or the rejected one; an accepted one is returned back bit for bit. Neither outcome touches the node's label, domain or stored sufficient statistics.",
 ["inputs", "histories"],
 "every node cardinality >= 2, every non-empty stack of matrices of any shape and any magnitude 1e-12..1e12, every single-cell corruption of a valid stack at any position, and every sequence of accepted and rejected assignments on one node",
 "tests/params.rs tries five hand-written matrices of side 3; they never put the fault in a later slice, row or off-diagonal cell, never use NaN or infinities, never look at what remains after a rejection, and never vary the scale except with exactly representable numbers",
 ["src/params.rs"],
 [("set_cim validates and rolls back", "src/params.rs: DiscreteStatesContinousTimeParams::set_cim"),
  ("shape, diagonal and row-sum tests", "src/params.rs: validate_params")],
 ["set_cim", "validate_params", "get_cim", "get_transitions", "get_residence_time", "get_label"])

add("C02", "A network is exactly the graph its edit history describes",
 "After any sequence of node insertions, edge insertions and graph resets on a CTBN that leaves its graph initialised (by a reset or an edge), parent sets, children sets and the adjacency matrix (one for an edge, zero otherwise) all describe the same directed graph, made of exactly the edges added since the last reset or node insertion (either of which drops all edges); nodes are numbered in insertion order and keep their label and cardinality. "
 "A newly inserted node carries no parameters, adding an edge discards the parameters of its child and of no other node, and any operation that takes parents away from a node discards that node's parameters, so parameters never outlive the parent set they were given for; all other parameters stay untouched.",
 ["histories"],
 "every interleaving of add-node, add-edge (repeated edges and both directions included), reset, random-graph generation and parameter assignment on networks of 1 to about 140 nodes with mixed cardinalities",
 "tests/ctbn.rs adds one or two edges to fresh networks and reads one set; no test issues repeated edges, inserts nodes after edges, resets a populated graph, or looks at what happens to already assigned parameters",
 ["src/process/ctbn.rs", "src/process.rs"],
 [("adjacency matrix writes", "src/process/ctbn.rs: add_edge, initialize_adj_matrix, add_node"),
  ("parameter invalidation", "src/params.rs: reset_params; src/process/ctbn.rs: add_edge")],
 ["get_parent_set", "get_children_set", "get_adj_matrix", "get_node_indices", "get_number_of_nodes", "get_node"],
 [("adj_matrix", "edge present iff entry > 0, row parent, column child", "src/process/ctbn.rs"), ("nodes", "node parameters in insertion order", "src/process/ctbn.rs")])

add("C03", "Parent configurations are numbered by a bijection that every component shares",
 "For every parent set, mapping the parents' states to a parameter index is a bijection onto 0..(product of the parents' cardinalities)-1 that depends on no other variable: the mixed-radix number in which the lowest-numbered parent varies fastest. "
 "The index computed from the network's own graph equals the index computed from that same parent set given explicitly, and converting a joint-state number back to individual node states is the exact inverse of numbering over all nodes.",
 ["inputs", "configurations"],
 "every network (up to about 140 nodes, 700 states per node, 2^62 configurations), every node, every parent subset and every joint state",
 "tests/ctbn.rs checks five index values on binary nodes only, so wrong radices, wrong order and dependence on non-parents are invisible with mixed cardinalities or more than two parents, and the inverse conversion is not tested at all",
 ["src/process/ctbn.rs"],
 [("mixed-radix fold", "src/process/ctbn.rs: get_param_index_network, get_param_index_from_custom_parent_set"),
  ("inverse", "src/process/ctbn.rs: idx_to_state")],
 ["get_param_index_network", "get_param_index_from_custom_parent_set", "CtbnNetwork::idx_to_state"])

add("C04", "Amalgamation yields the exact joint generator of the network",
 "For every CTBN whose nodes all have valid CIMs, amalgamation succeeds and returns a single-node process over all joint states (numbered as in C03) with one valid intensity matrix. "
 "Its rate between two joint states that differ in exactly one node is that node's CIM rate under the parents' states in the source state, its rate between states that differ in more than one node is zero, and each diagonal entry is minus the row's off-diagonal sum; the source network is unchanged.",
 ["inputs", "configurations"],
 "every network of 1..8 nodes (joint space up to about 1500 states), cyclic graphs included, with cardinalities 2..12 and rates from 1e-9 to 1e12, zero rates included",
 "tests/ctbn.rs compares three binary networks (at most 4 nodes, acyclic) with hand-made matrices; mixed cardinalities, cycles, several parents per node with large radices and large rates are never seen",
 ["src/process/ctbn.rs"],
 [("row by row generation", "src/process/ctbn.rs: amalgamation"), ("validation", "src/params.rs: validate_params")],
 ["CtbnNetwork::amalgamation", "CtmpProcess::get_node(0)"])

add("C05", "Every sampled trajectory is a possible path of the process",
 "Sampling starts at time 0 in the requested initial state (or, if none is given, in some state inside the domains), time never decreases, consecutive samples differ in exactly one node, which stays inside its domain, and that change has a strictly positive rate in the node's CIM under its parents' states just before the change; resetting a sampler restarts it at time 0 in the requested initial state. "
 "A generated dataset has exactly the requested number of trajectories, each over all nodes, starting at time 0, with such steps strictly before the end time, and closed by one extra row at exactly the end time that repeats the last state.",
 ["inputs", "configurations", "histories"],
 "every CTBN (cycles, zero rates, up to about 140 nodes and 250 states, rates over many orders of magnitude) and every single-node Markov process incl. amalgamated ones, every initial state, seed, end time > 0, trajectory count, and any interleaving of steps and resets",
 "tests/tools.rs only counts trajectories and reads the last time stamp of one of them for a single network with strictly positive rates; no test looks at the states visited",
 ["src/sampling.rs", "src/tools.rs", "src/params.rs"],
 [("next-event loop", "src/sampling.rs: ForwardSampler::next, reset"), ("choice of the next state", "src/params.rs: get_random_state"),
  ("trajectory assembly", "src/tools.rs: trajectory_generator")],
 ["ForwardSampler as Iterator", "Sampler::reset", "trajectory_generator"])

add("C06", "Sampled trajectories follow the probability law given by the CIMs",
 "In sampled trajectories every transition x to y of a node under every parent configuration u occurs at its CIM rate per unit of time spent in (u, x): holding times are exponential with the exit rate under the current parent states, next states are chosen in proportion to the off-diagonal rates, and an initial state not given is uniform and independent over the nodes. "
 "This holds after parent changes in mid-holding-time and in every trajectory of a dataset, and the single-step generators of a node (residence time, next state, uniform state) follow the same laws.",
 ["inputs", "configurations"],
 "every CTBN and single-node Markov process in the domain of C05, every node, state and parent configuration; decided statistically with concentration bounds whose total false-alarm probability per run is below 1e-8",
 "tests/params.rs compares three empirical means for one 3-state matrix with strictly positive rates; no test checks the law of whole trajectories, of parent-dependent rates, of the re-draw after a parent changes, or with zero rates",
 ["src/sampling.rs", "src/params.rs", "src/tools.rs"],
 [("competing exponential clocks with re-draw for children", "src/sampling.rs: ForwardSampler::next"),
  ("inverse-transform draws", "src/params.rs: get_random_residence_time, get_random_state, get_random_state_uniform")],
 ["trajectory_generator", "ForwardSampler", "ParamsTrait::get_random_*"])

add("C07", "Results are a function of inputs and seed alone, on any number of threads",
 "With the same inputs and the same seed, sampling, dataset generation, random graph and parameter generation and Monte Carlo reward evaluation give bit-identical results in every run, and asking for more trajectories only appends to the dataset obtained with fewer. "
 "Structure learning, and reward evaluation with a seed, give the same result whatever the size of the thread pool that executes them and whatever else runs concurrently, and different seeds give different random streams.",
 ["inputs", "schedules", "configurations"],
 "every network, dataset, score, test and reward of the generators, thread pools of 1 to 8 threads, concurrent callers, and seeds including 0 and the largest value",
 "the tests fix seeds but never compare two runs, never vary the thread pool, and never relate two calls with different trajectory counts",
 ["src/sampling.rs", "src/tools.rs", "src/reward/reward_evaluation.rs", "src/structure_learning/score_based_algorithm.rs", "src/structure_learning/constraint_based_algorithm.rs"],
 [("ChaCha8 seeded per object", "src/sampling.rs: ForwardSampler::new; src/tools.rs generators"),
  ("order-independent parallel map", "rayon par_extend / into_par_iter in both structure learners and evaluate_state_space")],
 ["trajectory_generator", "ForwardSampler", "generate_graph", "generate_parameters", "evaluate_state", "evaluate_state_space", "fit_transform"])

add("C08", "Sufficient statistics are exact counts and times per parent configuration",
 "For any dataset, node and parent set, the transition count for (u, x, y) is the number of consecutive sample pairs in which the node goes from x to y != x while the parents are in configuration u at the start of the interval (diagonal counts are zero), and the residence time for (u, x) is the total length of the intervals that start in (u, x), with configurations numbered as in C03. "
 "Hence the statistics add up over trajectories, do not depend on the order of trajectories, on the time origin or on variables outside node and parent set, and merging a parent's states in the statistics of a larger parent set gives those of the smaller one.",
 ["inputs"],
 "every dataset of 0..many trajectories of at least one sample each (simultaneous changes, repeated rows and irregular time steps included), every node and every parent set, which need not be the network's own",
 "tests/parameter_learning.rs only looks at CIMs estimated from simulated data within 0.1; off-by-one, mis-attributed intervals and lost trajectories of small weight are below that tolerance, and statistics are never compared directly",
 ["src/parameter_learning.rs"],
 [("single pass accumulation", "src/parameter_learning.rs: sufficient_statistics")],
 ["sufficient_statistics", "get_transitions / get_residence_time of a fitted node"])

add("C09", "Maximum likelihood fitting returns counts divided by times",
 "Maximum likelihood fitting returns, for every parent configuration and state with positive residence time, off-diagonal intensities equal to transition count over residence time and a diagonal equal to minus their sum; the parent set is the given one, or the network's own when none is given. "
 "The returned node keeps the label and domain of the fitted node and carries the exact sufficient statistics used, and neither the network nor the dataset is modified.",
 ["inputs", "configurations"],
 "every dataset, every node, explicit parent sets and the network's own, with and without never-visited configurations, any cardinality (up to about 320 states, 140 nodes, 100000 configurations, 300000 rows)",
 "the tests compare eight fits on simulated data with a tolerance of 0.1 on networks of at most 3 nodes; they never pass an explicit parent set different from the network's and never check stored statistics",
 ["src/parameter_learning.rs"],
 [("element-wise ratio and diagonal", "src/parameter_learning.rs: MLE::fit")],
 ["MLE::fit"])

add("C10", "Bayesian fitting returns the smoothed estimate and always a valid CIM",
 "Bayesian fitting with prior counts alpha and prior time tau returns off-diagonal intensities (count + alpha/U) / (time + tau/U), where U is the number of parent configurations, with a diagonal equal to minus the row's off-diagonal sum, for every configuration visited or not; the parent set is the given one, or the network's own when none is given. "
 "For alpha >= 1 and tau > 0 the result is always a valid CIM that can be set on the node, with alpha = 0 and tau = 0 it coincides with maximum likelihood wherever time was spent, and the returned node keeps label and domain and carries the unsmoothed sufficient statistics.",
 ["inputs", "configurations"],
 "every dataset including empty configurations, alpha 0..1e7, tau 0..1e12, every node and parent set, sizes as in C09",
 "the tests use alpha = 1, tau = 1 on large simulated datasets where the prior is invisible at the tolerance of 0.1; unvisited configurations and strong priors are never tried",
 ["src/parameter_learning.rs"],
 [("pseudo-count scaling by the number of configurations", "src/parameter_learning.rs: BayesianApproach::fit")],
 ["BayesianApproach::fit", "set_cim on the result"])

add("C11", "Structure scores equal the closed-form marginal likelihood and its BIC penalty",
 "The log-likelihood score of a node and parent set with pseudo counts alpha and pseudo time tau, with a = alpha/U and t = tau/U for U parent configurations, is the sum over configurations u and states x of [lnG(a+M+1) + (a+1) ln t - lnG(a+1) - (a+M+1) ln(t+T)] + [lnG(a) - lnG(a+M)] + sum over states y of [lnG(a+M_y) - lnG(a)], where T and M_y are the residence time and transition counts of (u, x), M their total, and lnG the log-gamma function. "
 "The BIC score is that value minus ln(N)/2 times the number of free parameters U*k*(k-1), with k node states and N the total number of sampled intervals. Scores depend on the data only through these statistics, so reordering trajectories, shifting time or changing unrelated variables does not change them.",
 ["inputs", "configurations"],
 "every dataset with at least one interval, every node, every parent set, alpha 1..1e7, tau 1e-9..1e9",
 "tests/structure_learning.rs checks one value of each score, with tolerance 1e-3, on a single binary node without parents, two intervals, alpha = tau = 1: there a, t, U, k and the sums over configurations are all trivial",
 ["src/structure_learning/score_function.rs"],
 [("closed form", "src/structure_learning/score_function.rs: LogLikelihood::compute_score"), ("penalty", "src/structure_learning/score_function.rs: BIC::call")],
 ["LogLikelihood::call", "BIC::call"])

add("C12", "Hill climbing returns a bounded, locally optimal parent set for every node",
 "For any score function without ties, hill climbing terminates and returns for every node a parent set that does not contain the node, respects the maximum parent set size, scores at least as well as the empty set, and cannot be improved by adding (within the maximum) or removing any single parent. "
 "The result is decided node by node from the scores alone, so edges and parameters the input network had before do not influence it, and earlier edges are not kept; node labels, order and cardinalities are.",
 ["inputs", "configurations"],
 "every real-valued score over (node, parent set) (arbitrary score tables for up to 110 nodes as well as log-likelihood and BIC on generated data), every limit from 0 to more than the number of nodes, every initial graph",
 "the tests run hill climbing on two fixed datasets whose optimum is reached greedily by additions only; removals, re-additions, limits other than 1 and none, stopping too early, and initial edges are never exercised",
 ["src/structure_learning/score_based_algorithm.rs"],
 [("add/remove sweep until no improvement", "src/structure_learning/score_based_algorithm.rs: HillClimbing::fit_transform")],
 ["HillClimbing::fit_transform", "ScoreFunction::call invocations"])

add("C13", "CTPC returns the PC-stable graph implied by its two tests",
 "For every dataset covering all nodes of the network, CTPC terminates without failing and keeps parent p of node c exactly when the order-independent PC procedure does: starting from all other nodes, for separating-set sizes 0, 1, 2, ... while the candidate set is larger than that size, drop every candidate that both tests judge independent of c given one and the same separating set of that size drawn from the other candidates, candidates being updated only after the whole size has been processed. "
 "Consequently no node is its own parent, previous edges have no influence, and renumbering the variables renumbers the learned graph accordingly.",
 ["inputs", "configurations"],
 "every pattern of test decisions for up to 48 nodes and every dataset over 1..12 nodes including sparse ones (states never left, configurations never visited, transitions never seen), maximum-likelihood and Bayesian estimation, test levels 1e-9..0.3, every initial graph",
 "the tests run CTPC on two fixed rich datasets with at most three nodes, where separating sets larger than one never occur, all counts are positive and no decision is close",
 ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/hypothesis_test.rs"],
 [("level-wise candidate elimination on a snapshot", "src/structure_learning/constraint_based_algorithm.rs: CTPC::fit_transform")],
 ["CTPC::fit_transform"])

add("C14", "Independence tests decide by the documented statistics for any counts",
 "The F test declares two fitted tables equal exactly when for every state the ratio of the second exit rate to the first lies within the central 1-alpha interval of the F distribution with the two states' transition counts as degrees of freedom; the chi-squared test exactly when for every state the two-sample statistic sum over y of (sqrt(R/S) S_y - sqrt(S/R) R_y)^2 / (R_y + S_y) (R_y, S_y the two transition counts, R, S their totals) has chi-squared probability below 1-alpha with states-1 degrees of freedom. "
 "Cells without transitions in both tables contribute nothing and a state without any transition in one of the tables is no evidence against equality, so identical tables are always declared equal and no table makes a test fail. "
 "For a child, candidate parent and separating set, each test accepts independence exactly when every configuration of separating set plus parent is declared equal to the matching configuration of the separating set alone.",
 ["inputs"],
 "every pair of count tables with 2..48 states (zero cells and zero rows included, up to about 2e7 transitions from one state), every level 1e-9..0.5, and every network, child, parent, separating set (in any index order relative to the parent) and dataset",
 "tests/structure_learning.rs has three hand-written count tables with no zero off-diagonal cell and four decisions on one dataset, all far from the decision boundary",
 ["src/structure_learning/hypothesis_test.rs"],
 [("F statistic", "src/structure_learning/hypothesis_test.rs: F::compare_matrices"), ("chi-squared statistic", "src/structure_learning/hypothesis_test.rs: ChiSquare::compare_matrices"),
  ("configuration matching", "src/structure_learning/hypothesis_test.rs: HypothesisTest::call")],
 ["F::compare_matrices", "ChiSquare::compare_matrices", "HypothesisTest::call"])

add("C15", "The estimation cache is invisible",
 "For a fixed node and dataset, a fit requested through the cache returns exactly what the wrapped estimator returns for that parent set, for any sequence of parent sets in any order of sizes, however often each is requested. "
 "Hence every independence decision taken with a cache that earlier calls have filled is the one taken with a fresh cache.",
 ["histories"],
 "every sequence of requests (up to about 600) over subsets of up to 200 nodes (growing, shrinking, jumping in size, repeated), with either estimator, and an estimator that answers differently on each call for detecting a wrong entry",
 "the cache is only exercised indirectly by two CTPC datasets whose requests grow from size 0 to 2; returning a stale or foreign entry for another request pattern would go unnoticed",
 ["src/structure_learning/constraint_based_algorithm.rs"],
 [("two-level cache keyed by parent set", "src/structure_learning/constraint_based_algorithm.rs: Cache::fit")],
 ["Cache::fit"],
 [("cache_persistent_small/big", "fits for smaller / larger parent sets", "src/structure_learning/constraint_based_algorithm.rs")])

add("C16", "Random graphs have independent edges of the requested density and no self-loops",
 "A generated graph never contains a self-loop, contains every other ordered pair of nodes independently with probability equal to the density (none at density 0, all at density 1), and replaces whatever graph the network had. "
 "A density outside [0, 1] is refused when the generator is created.",
 ["inputs", "configurations"],
 "every density in [0, 1] incl. the end points, every network of 0..about 170 nodes with or without earlier edges, every seed, repeated use of one generator; frequencies decided with concentration bounds (total false-alarm probability below 1e-8)",
 "the tests look at the total edge count of one 101-node graph at density 1/3 within 5 percent; self-loops, end points, pair-wise uniformity, independence and leftover edges are not examined",
 ["src/tools.rs"],
 [("Bernoulli draw per ordered pair", "src/tools.rs: UniformGraphGenerator::generate_graph")],
 ["generate_graph", "get_parent_set", "UniformGraphGenerator::new"])

add("C17", "Random parameters are valid CIMs for the graph, with rates in the interval",
 "Random parameter generation gives every node one matrix per configuration of its current parents; each is a valid CIM accepted by validation, whose exit rates (minus the diagonal) lie in the requested interval up to rounding, spread uniformly over it, and whose off-diagonal rates are all positive. "
 "It leaves the graph unchanged, and an interval reaching below zero is refused when the generator is created.",
 ["inputs", "configurations"],
 "every network (single-node Markov processes included; up to about 120 nodes, 250 states, 20000 configurations) with any graph, every interval 0 <= a < b up to 1e12 including very narrow ones, every seed",
 "the tests validate one 4-node network and one single-node process with interval 0..7; the interval itself, the number of matrices for several mixed-cardinality parents, and large rates are never checked",
 ["src/tools.rs", "src/params.rs"],
 [("normalise, scale, recompute diagonal", "src/tools.rs: UniformParametersGenerator::generate_parameters")],
 ["generate_parameters", "validate_params", "get_cim"])

add("C18", "The factored reward is the sum of node rewards for any state and transition",
 "For any state the factored reward function's instantaneous reward is the sum over nodes of the reward of each node's current state, whether or not a previous state is given. "
 "Its transition reward is zero without a previous state or if nothing changed, and otherwise the entry (old state, new state) of the table of the one node that changed. A reward function initialised from a process has one all-zero table per node, shaped by its cardinality, and changing one node's table affects that node alone.",
 ["inputs"],
 "every network (up to about 140 nodes), every reward table (negative values included), every state and every change of one node",
 "tests/reward_function.rs uses one- and two-node networks with fixed tables; more nodes, a change in a later node, and isolation between tables are not covered",
 ["src/reward/reward_function.rs", "src/reward.rs"],
 [("sum over nodes / first differing node", "src/reward/reward_function.rs: FactoredRewardFunction::call")],
 ["FactoredRewardFunction::call", "initialize_from_network_process", "get_*_reward(_mut)"])

add("C19", "Monte Carlo reward estimates converge to the true expected reward",
 "Monte Carlo evaluation of a state is the average over simulated trajectories from that state up to the end time of the accumulated reward: instantaneous reward earned while dwelling in each state at that state's rate, plus transition rewards, each weighted by exp(-discount * t) at the time it is earned for the discounted criterion and by one for the finite horizon, so its expectation is the one given by the joint generator. "
 "It uses the maximum number of trajectories unless it stops earlier, which it does, from the fourth trajectory on, as soon as the normal-approximation probability that the average is off by more than the allowed error falls below the given level; it is linear in the reward, and a constant instantaneous reward r yields exactly r times the (discounted) horizon.",
 ["inputs", "configurations"],
 "every CTBN and single-node Markov process (expectation: up to 30 joint states; path identities: up to 40 nodes and 20000 changes per path), every reward table, initial state, horizon, discount factor > 0, error, level and iteration limit",
 "the tests use a constant instantaneous reward or none at all, so attributing dwelling reward to the wrong state, wrong discounting of intervals, and the stopping rule are invisible; expectations are checked for one network within 0.1",
 ["src/reward/reward_evaluation.rs", "src/sampling.rs", "src/reward/reward_function.rs"],
 [("accumulation and early stopping", "src/reward/reward_evaluation.rs: MonteCarloReward::evaluate_state")],
 ["MonteCarloReward::evaluate_state with user-defined RewardFunction"])

add("C20", "State-space evaluation covers all joint states; ratios compare neighbours",
 "Evaluating the whole state space returns exactly one entry for every joint state of the process, equal (with a seed) to evaluating that state alone. "
 "The neighbourhood relative reward has exactly the entries of the wrapped evaluation, and each value is the largest ratio of the state's own value to the value of any state that differs from it in at most one node, so it is at least one.",
 ["inputs", "configurations"],
 "every process of up to about 6000 joint states, every assignment of non-zero values (of any size and sign) for the wrapped evaluation (user-defined evaluators included), thread pools of several sizes",
 "the tests look up at most two states in the result and use a constant reward, for which all ratios are one; missing or misnumbered states and wrong neighbourhoods cannot show",
 ["src/reward/reward_evaluation.rs"],
 [("enumeration of joint states", "src/reward/reward_evaluation.rs: MonteCarloReward::evaluate_state_space"), ("pairwise ratio", "src/reward/reward_evaluation.rs: NeighborhoodRelativeReward::evaluate_state_space")],
 ["evaluate_state_space", "evaluate_state", "NeighborhoodRelativeReward::evaluate_state_space"])

add("C21", "Ill-formed data is refused, well-formed data is stored unchanged",
 "A trajectory is accepted exactly when it has as many time stamps as event rows, and a dataset exactly when all trajectories have the same number of variables; accepted ones give back exactly the times, events and trajectory order they were built from. "
 "Both structure learners refuse a dataset whose number of variables differs from the network's number of nodes, and the score and generator constructors refuse a negative pseudo time, a density outside [0, 1] and an interval reaching below zero.",
 ["inputs"],
 "every pair of array sizes including zero rows, every position of an odd trajectory within a dataset, every mismatch between dataset width and network size in both directions, every out-of-range constructor argument",
 "the tests try one too-short event table, one odd second trajectory, one too-small network, and four numbers; mismatches the other way round, in later trajectories or with zero rows are not tried, and stored values are not read back",
 ["src/tools.rs", "src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs", "src/structure_learning/score_function.rs"],
 [("shape checks", "src/tools.rs: Trajectory::new, Dataset::new"), ("compatibility checks", "fit_transform of both learners")],
 ["Trajectory::new", "Dataset::new", "get_time/get_events/get_trajectories", "fit_transform", "LogLikelihood::new", "BIC::new"])

add("C22", "A Markov process holds one parentless node and behaves like its source network",
 "A single-node Markov process accepts exactly one node, reports a second insertion as an error without altering the first, numbers it 0, and has no parents and no children; every operation on any other node or on edges is refused. "
 "Sampling and reward evaluation work on it like on any network: for an amalgamated CTBN they yield, up to the numbering of joint states, the same law and the same expected rewards as on the CTBN itself.",
 ["inputs", "histories", "configurations"],
 "every sequence of operations on empty and filled processes, and every amalgamated CTBN (sampling: up to about 700 joint states, rewards: up to about 24)",
 "tests/ctmp.rs checks single calls; nothing ever samples from, or evaluates a reward on, a Markov process, whether built by hand or by amalgamation",
 ["src/process/ctmp.rs", "src/sampling.rs", "src/reward/reward_evaluation.rs"],
 [("single slot", "src/process/ctmp.rs: CtmpProcess"), ("sampling over a parentless node", "src/sampling.rs: ForwardSampler::next")],
 ["CtmpProcess as NetworkProcess", "ForwardSampler", "trajectory_generator", "MonteCarloReward"],
 [("param", "the only node, once inserted", "src/process/ctmp.rs")])

add("C23", "From enough simulated data the library recovers the network it simulated",
 "For networks whose parents change their child's rates by a large factor, simulating with the library, learning the structure with hill climbing (log-likelihood or BIC) or CTPC, and fitting the parameters gives back the original parent sets, and every fitted intensity (maximum likelihood or Bayesian) converges to the true one at the statistical rate given by the time spent in its configuration. "
 "The outcome does not depend on the order in which nodes were numbered.",
 ["inputs", "configurations"],
 "generated networks of 2..20 nodes with cardinalities 2..3, up to two parents per node, strong dependencies, cycles included, time units 1e-9..1e9, with datasets large enough for every configuration to be visited hundreds of times",
 "the tests do this for two fixed networks and seeds of at most three nodes, without cycles, with node order equal to topological order and a tolerance of 0.1",
 ["src/tools.rs", "src/sampling.rs", "src/parameter_learning.rs", "src/structure_learning/score_based_algorithm.rs", "src/structure_learning/constraint_based_algorithm.rs"],
 [("simulate - learn - fit pipeline", "trajectory_generator, fit_transform, fit")],
 ["trajectory_generator", "HillClimbing / CTPC fit_transform", "MLE / BayesianApproach fit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
