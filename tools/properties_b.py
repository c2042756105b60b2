S = "causalnex/structure/"
SM = S + "structuremodel.py"
NT = S + "notears.py"
DT = S + "dynotears.py"
TR = S + "transformers.py"
DI = "causalnex/discretiser/discretiser.py"
INF = "causalnex/inference/inference.py"
NET = "causalnex/network/network.py"
EV = "causalnex/evaluation/evaluation.py"
GC = S + "data_generators/core.py"
GW = S + "data_generators/wrappers.py"
PL = "causalnex/plots/plots.py"
DS = "causalnex/plots/display.py"
VF = S + "categorical_variable_mapper.py"
PT = S + "pytorch/"
DIST = PT + "dist_type/"
SK = PT + "sklearn/"
NOTESTS = "None of the repository's tests for this module can even be imported here (its libraries are absent); upstream's sample a few fixed inputs; "

PROPERTIES = [
    dict(id="C18", title="Every edge of a StructureModel has the origin it was last given",
         statement="After any history of construction, additions, removals, copies and views, every edge of a StructureModel carries exactly one origin - the one most recently given, by default 'unknown' - together with its other data, and edges_with_origin partitions the edges. A request naming an origin other than unknown, learned or expert raises ValueError and changes nothing. Copies of every kind are StructureModels that share no edge data with the original, except that to_undirected gives an undirected networkx graph.",
         over=["inputs", "histories"], text="all sequences of StructureModel operations over all hashable nodes, all argument forms",
         why=NOTESTS + "operations are tried one at a time, on fresh models.",
         files=[SM], mech=[("validated origin on every addition", SM + ": add_edge, add_edges_from, add_weighted_edges_from, __init__")],
         observe=["StructureModel methods", "edges(data=True)", "edges_with_origin"]),
    dict(id="C19", title="Pruning by weight removes exactly the edges it should",
         statement="remove_edges_below_threshold removes exactly the edges whose absolute weight is below the threshold; threshold_till_dag ends in an acyclic graph, having removed no edge heavier than a kept one and no more than was needed to break the cycles (up to edges tied in weight). Kept edges keep all their data, and nodes never change.",
         over=["inputs"], text="all weighted models (ties, negative and zero weights, self-loops, many cycles) and all thresholds",
         why=NOTESTS + "cycles, ties and thresholds equal to a weight interact.",
         files=[SM], mech=[("absolute comparison, loop until acyclic", SM + ": remove_edges_below_threshold, threshold_till_dag")],
         observe=["StructureModel.remove_edges_below_threshold", "StructureModel.threshold_till_dag"]),
    dict(id="C20", title="Subgraph extraction returns one whole component, independent of its source",
         statement="get_target_subgraph returns exactly the weakly connected component of the given node, with all its nodes, edges and data, and raises NodeNotFound for an absent node. get_largest_subgraph returns a component with the most edges, or None if there are no edges. Results are StructureModels, and changing them never changes the original.",
         over=["inputs"], text="all models, any number of components, all hashable nodes",
         why=NOTESTS + "components are reached through either edge direction, in any shape.",
         files=[SM], mech=[("weakly connected components", SM + ": get_largest_subgraph, get_target_subgraph")],
         observe=["StructureModel.get_target_subgraph", "StructureModel.get_largest_subgraph"]),
    dict(id="C21", title="NOTEARS obeys every constraint it is given",
         statement="For any finite data, the model from_numpy and from_numpy_lasso return has one node per column and finite, non-zero edge weights; contains no self-loop, no tabu edge, no edge out of a tabu parent or into a tabu child and no edge below w_threshold; and meets the acyclicity tolerance unless the documented convergence warning was given. A threshold only removes edges from the unthresholded result. Empty or non-finite data raise ValueError, arguments are not modified, and repeating a call repeats the result.",
         over=["inputs", "configurations"], text="all data matrices (degenerate ones included), tabu sets, penalties, thresholds, tolerances and iteration limits",
         why=NOTESTS + "constraints must hold whatever path the optimiser takes.",
         files=[NT], mech=[("zero bounds for forbidden edges", NT + ": from_numpy, from_numpy_lasso"), ("augmented Lagrangian loop", NT + ": _learn_structure, _learn_structure_lasso")],
         observe=["notears.from_numpy", "notears.from_numpy_lasso"]),
    dict(id="C22", title="NOTEARS weights are the best fit for the graph's order and constraints",
         statement="The weights NOTEARS learns minimise the documented objective (mean squared error, plus the lasso penalty) among all weights allowed by the constraints and the causal order of the learned graph, to within the optimiser's tolerance; and on data whose covariance is that of a strong equal-variance linear model it recovers that model in most cases.",
         over=["inputs", "configurations"], text="all data from linear models, all tabu sets and penalties, full tolerance (defaults)",
         why=NOTESTS + "a wrong gradient or bound still returns plausible weights, and no test knows the optimum.",
         files=[NT], mech=[("objective, gradient and bounds", NT + ": _learn_structure, _learn_structure_lasso, _h and gradients")],
         observe=["notears.from_numpy", "notears.from_numpy_lasso"]),
    dict(id="C23", title="DYNOTEARS obeys every constraint it is given",
         statement="For any data, the model from_numpy_dynamic returns has one node per variable and lag, only edges that point to lag 0, finite non-zero weights, no self-loop at lag 0, no tabu edge (lag, from, to), no edge out of a tabu parent at any lag or into a tabu child, and none below w_threshold; its contemporaneous part meets the acyclicity tolerance unless the convergence warning was given. Empty data, differing numbers of rows and a number of lagged columns that is not a multiple raise ValueError; arguments are not modified and repeating a call repeats the result.",
         over=["inputs", "configurations"], text="all data, numbers of lags, tabu sets, penalties, thresholds, tolerances and iteration limits",
         why=NOTESTS + "lags, variables and constraints are interleaved in one flat vector.",
         files=[DT], mech=[("bounds per lag and pair", DT + ": from_numpy_dynamic"), ("augmented Lagrangian loop", DT + ": _learn_dynamic_structure, _reshape_wa")],
         observe=["dynotears.from_numpy_dynamic"]),
    dict(id="C24", title="DYNOTEARS weights are the best penalised fit for their order",
         statement="The weights DYNOTEARS learns minimise the documented objective - mean squared error plus lambda_w and lambda_a times the absolute contemporaneous and lagged weights - among all weights allowed by the constraints and the learned contemporaneous order, to within the optimiser's tolerance.",
         over=["inputs", "configurations"], text="all autoregressive data, numbers of lags, tabu sets and penalties, full tolerance (defaults)",
         why=NOTESTS + "no test knows the optimum.",
         files=[DT], mech=[("objective and gradient over W and A", DT + ": _learn_dynamic_structure")],
         observe=["dynotears.from_numpy_dynamic"]),
    dict(id="C25", title="Learning from data frames is learning from their arrays, under column names",
         statement="from_pandas, from_pandas_lasso and from_pandas_dynamic return the model that the array learner returns for the frame's values and the constraints translated to positions, renamed to the column labels (with lag suffixes for the dynamic one) and with every edge's origin 'learned', whatever the labels are - also integers in another order than the columns. Frames that are not numeric, not finite or empty raise ValueError, and neither frames nor constraints are modified.",
         over=["inputs", "configurations"], text="all frames, column labels, row labels, constraints; several realisations with gaps in time",
         why=NOTESTS + "label translation goes wrong only for some labels.",
         files=[NT, DT, TR], mech=[("labels to positions and back", NT + ": from_pandas, from_pandas_lasso; " + DT + ": from_pandas_dynamic")],
         observe=["notears.from_pandas", "notears.from_pandas_lasso", "dynotears.from_pandas_dynamic"],
         technique="runtime monitoring: differential oracle - the frame learner against the array learner on the same numbers, under generated labels and constraints"),
    dict(id="C26", title="Time-series windows are complete, correctly lagged and never cross gaps",
         statement="DynamicDataTransformer turns time series into exactly one row per time that has p directly preceding times in the same realisation, in order, holding the values at lags 0 to p under the documented columns; no window crosses a gap or a boundary between realisations and none is lost. Input that is unfitted, empty, non-numeric, inconsistent between realisations or not increasing in time is rejected with the documented error, and frames are not modified.",
         over=["inputs", "histories"], text="all realisations, integer time indices, gaps, p, and sequences of fit and transform",
         why=NOTESTS + "gaps and short pieces combine in ways a fixture does not.",
         files=[TR], mech=[("split at gaps, concatenate lagged pieces", TR + ": DynamicDataTransformer._cut_dataframes_on_discontinuity_points, _convert_realisations_into_dynotears_format, _concat_lags")],
         observe=["DynamicDataTransformer.fit", "DynamicDataTransformer.transform"]),
    dict(id="C27", title="Discretiser fits the documented split points and bins by them exactly",
         statement="For every method, fit computes the documented split points (equal widths, linearly interpolated quantiles, outlier and given percentiles) of whatever numbers it is given, and transform puts each value into the bucket that is the number of split points less than or equal to it, keeping the shape. Fitting again forgets the earlier data, nothing given is modified, fixed split points cannot be fitted (RuntimeError), and each documented invalid argument raises ValueError.",
         over=["inputs", "histories"], text="all numeric arrays (ties, extremes, narrow integers), methods and parameters, values at and beside split points",
         why=NOTESTS + "boundary values and overflow are not sampled.",
         files=[DI], mech=[("fit and digitise", DI + ": Discretiser.fit, transform, __init__")],
         observe=["Discretiser.fit", "Discretiser.transform", "numeric_split_points"]),
    dict(id="C28", title="Variables and feature columns correspond one to one, with validated types",
         statement="For every schema, VariableFeatureMapper assigns to each variable its own block of feature indices - as many as categories, else one - which together are exactly 0..n_features-1, and all its queries (by variable, by list, set or iterator, by name, by feature, by type) agree with each other and with the schema. validate_schema completes and restricts a schema to the nodes, rejects invalid types and never modifies its argument.",
         over=["inputs"], text="all schemas, hashable variable names, cardinalities and query forms",
         why=NOTESTS + "a shifted block is invisible in small schemas.",
         files=[VF], mech=[("blocks per type", VF + ": VariableFeatureMapper.__init__, get_indices"), ("type validation", VF + ": validate_schema")],
         observe=["VariableFeatureMapper queries", "validate_schema"]),
    dict(id="C29", title="InferenceEngine.query returns the network's exact posterior",
         statement="For every BayesianNetwork with fitted CPDs and valid names (letters, digits and underscores), whatever its states, query returns for every node one probability per state, equal to the exact marginal of the product of the network's CPDs given the observations, all zero when they are impossible. Observations of unknown nodes or states raise; networks without CPDs or with invalid names are refused with ValueError; refitting the network later does not change the engine, and observations are not modified.",
         over=["inputs", "histories"], text="all fitted networks, state types, node names and observations",
         why=NOTESTS + "node functions are assembled from rewritten code objects, whose argument order depends on names and states.",
         files=[INF], mech=[("CPDs as node functions", INF + ": _create_cpds_dict_bn, _create_node_function, _generate_bbn"), ("query", INF + ": query")],
         observe=["InferenceEngine.query"]),
    dict(id="C30", title="Interventions yield the truncated factorisation",
         statement="After do_intervention on a node that has children - with one of its states, of any hashable type, or a distribution over its states that sums to 1 up to rounding - queries with and without observations return the exact marginals of the network in which that node has no parents and the given distribution, all other CPDs unchanged. If this cuts a parent off entirely the intervention may instead be refused with ValueError.",
         over=["inputs"], text="all fitted networks, sets of intervened nodes, states and distributions, observations",
         why=NOTESTS + "interventions on integer and boolean states of one network are tried, never against the exact answer.",
         files=[INF], mech=[("replace a node's CPD", INF + ": do_intervention, _do")],
         observe=["InferenceEngine.do_intervention", "InferenceEngine.query"]),
    dict(id="C31", title="Engines follow any history of interventions, resets and refusals",
         statement="At every point of any history, an InferenceEngine answers for exactly the interventions in force - the last accepted one of each node since its reset_do, which restores the node's original CPD - and never affects its network or another engine. An intervention on a node without children in the current network, on an unknown node, or with an unknown state, missing or extra states, probabilities outside 0 to 1 or a sum other than 1 raises ValueError and changes nothing.",
         over=["histories", "inputs"], text="all sequences of interventions, resets, refused requests, queries and refits, over all networks",
         why=NOTESTS + "histories have at most two steps.",
         files=[INF], mech=[("current and original CPDs", INF + ": do_intervention, _do, reset_do")],
         observe=["InferenceEngine.do_intervention", "InferenceEngine.reset_do", "InferenceEngine.query"]),
    dict(id="C32", title="Networks are connected DAGs whose CPDs are the estimator's counts",
         statement="BayesianNetwork accepts exactly connected acyclic structures and raises ValueError otherwise. For any data, fit_cpds gives every node a table with its sorted states as rows and every combination of its parents' states as labelled columns, holding the relative frequencies in the data (plus the prior's pseudo-counts for K2 and BDeu), and replaces earlier fits. States that miss a node (KeyError) or contain nulls (ValueError) and invalid methods or priors (ValueError) are rejected without changing the network; data and structures are not modified.",
         over=["inputs", "histories"], text="all structures, state sets, data, estimators, and sequences of fits",
         why=NOTESTS + "a permuted label shows only for unequal state sets and several parents.",
         files=[NET], mech=[("states to indices and back", NET + ": node_states, _state_to_index, cpds"), ("estimator choice", NET + ": fit_cpds")],
         observe=["BayesianNetwork.cpds", "BayesianNetwork.node_states", "BayesianNetwork.fit_cpds"]),
    dict(id="C33", title="Predictions are the network's probabilities, in terms of states",
         statement="predict_probability returns one column {node}_{state} per state and one row per row of data, in its order and labels, holding the CPD entry for the row's parents, or the exact posterior given the row's other columns where parents are missing; predict returns a most likely state. Both use the node's own states as in the training data, need no column for the node itself, ignore one that is there, and do not modify the data.",
         over=["inputs"], text="all fitted networks, nodes, and sets of columns present, for rows of positive probability",
         why=NOTESTS + "states are mostly small integers that equal their indices.",
         files=[NET], mech=[("CPD lookup", NET + ": _predict_from_complete_data, _predict_probability_from_complete_data"), ("posterior", NET + ": _predict_from_incomplete_data, _predict_probability_from_incomplete_data")],
         observe=["BayesianNetwork.predict", "BayesianNetwork.predict_probability"]),
    dict(id="C34", title="Evaluation pairs every prediction with its own state's truth",
         statement="For any fitted network and test data, roc_auc returns the micro-averaged ROC curve, from (0,0) to (1,1), and the area under it of the pairs (row has the state, predicted probability of the state) over all rows and states of the node; classification_report gives per state {node}_{state} the precision, recall and support of the network's predictions. States may have any sortable type and may be absent from the test data, which is not modified.",
         over=["inputs"], text="all networks, nodes with two or more states, state values and test data",
         why=NOTESTS + "states in them sort alike as values and as text.",
         files=[EV], mech=[("column order of truth and prediction", EV + ": _build_ground_truth, roc_auc"), ("labels", EV + ": classification_report")],
         observe=["roc_auc", "classification_report"]),
    dict(id="C35", title="Random structures have the nodes, edges and weights asked for",
         statement="generate_structure and generate_structure_dynamic return StructureModels with exactly the requested nodes (0..n-1, or {var}_lag{l} for every variable and lag), acyclic within the slice and with lagged edges only into lag 0; every weight's absolute value lies in the given range (divided by w_decay per further lag) and both signs are equally likely. Full graphs have every edge; barabasi-albert graphs are connected and every node but one attaches to 1..round(degree/2) others; erdos-renyi graphs have every pair with the documented probability, in either direction. Fewer than two nodes, a minimum above the maximum and unknown graph types raise ValueError.",
         over=["inputs", "configurations"], text="all sizes, degrees, graph types, lags, non-zero weight ranges and decays, all random states",
         why=NOTESTS + "no test can see a distribution, or a rare graph.",
         files=[GC, GW], mech=[("triangular edges, permuted", GC + ": generate_structure"), ("bipartite lagged edges", GW + ": generate_structure_dynamic, _generate_inter_structure")],
         observe=["generate_structure", "generate_structure_dynamic"]),
    dict(id="C36", title="Generated data have the columns and types asked for, repeatably",
         statement="sem_generator, nonlinear_sem_generator and the generate_* functions for one type (which give what the general ones give) return n_samples rows with one finite column per continuous, 0/1 column per binary and non-negative integer column per count variable, and {node}_{k} columns holding exactly one 1 per row for a categorical one; array results have their columns in the graph's node order. The same seed repeats the result whatever happened before, and graph, schema and distributions are not modified. Cyclic graphs, unknown types, missing cardinalities, distributions that are not documented for the type and zero-inflations outside 0 to 1 raise ValueError.",
         over=["inputs", "configurations"], text="all DAGs with string or integer nodes, schemas, distributions, kernels, sizes (one row included), noise scales and seeds",
         why=NOTESTS + "types, weights, categories and sizes interact.",
         files=[GC, GW, VF], mech=[("features per variable", GC + ": _init_sem_data_gen; " + VF), ("sampling per type", GC + ": _add_continuous_noise, _sample_binary_from_latent, _sample_count_from_latent, _sample_categories_from_latent")],
         observe=["sem_generator", "nonlinear_sem_generator", "generate_continuous_data", "generate_binary_data", "generate_continuous_dataframe", "generate_binary_dataframe", "generate_categorical_dataframe", "generate_count_dataframe"]),
    dict(id="C37", title="Simulated time series follow their network and lag themselves",
         statement="In every frame of generate_dataframe_dynamic, column {v}_lag{l} is column {v}_lag0 of l rows before, and {v}_lag0 equals its drift plus the weighted columns of its parents in the network plus independent noise of the requested type and scale; without burn-in the past is 0. gen_stationary_dyn_net_and_df returns such a frame of n_samples rows with values below 1000 for the network it returns, with columns in the order of the returned names, and gives the documented warning and constant data only after max_data_gen_trials failed attempts. Unknown noise types raise ValueError.",
         over=["inputs", "histories"], text="all dynamic networks in which every variable has every lag, any number of variables and lags, noise types, drifts, burn-ins, and numbers of attempts",
         why=NOTESTS + "no test looks at the values, which went to the wrong columns for two or more lags.",
         files=[GW], mech=[("order of lagged values, weights and labels", GW + ": generate_dataframe_dynamic"), ("retries until stationary", GW + ": gen_stationary_dyn_net_and_df")],
         observe=["generate_dataframe_dynamic", "gen_stationary_dyn_net_and_df"]),
    dict(id="C38", title="Plots show the whole model with the attributes asked for last",
         statement="plot_structure returns a graph laid out with the requested program that has exactly the model's nodes and edges, whatever hashable objects the nodes are, labelled by node, each with its data overridden by the default style, then the attributes for all, then its own; graph attributes override GRAPH_STYLE, model, default styles and arguments are not modified, and without pygraphviz the documented Warning is raised. color_gradient_string gives steps+1 evenly spaced colours from exactly from_color to exactly to_color, opaque unless an alpha is given. The display functions show exactly the drawing of the graph by the given program, on the given axes or on a figure of its size, and where the library that they need is missing raise the documented ImportError when called, not when imported.",
         over=["inputs", "histories"], text="all models, attribute dictionaries and sequences of plots, all colours and numbers of steps",
         why="the repository's tests for plots cannot run here (pygraphviz is absent); upstream's plot three string nodes and try one attribute at a time.",
         files=[PL, DS], mech=[("order of overrides on a deep copy", PL + ": plot_structure, _add_attributes"), ("interpolation", PL + ": color_gradient_string"), ("display", DS + ": display_plot_ipython, display_plot_mpl")],
         observe=["plot_structure", "color_gradient_string", "display_plot_ipython", "display_plot_mpl"]),
    dict(id="C39", title="Generated data satisfy the graph's structural equations and noise",
         statement="In data of sem_generator, a continuous variable is the weighted sum of its parents' columns (an edge's own weight, applied to one category where an end is categorical; otherwise weights from the named unit-variance distribution) plus a constant intercept of the named distribution if requested, plus independent noise of the named type at scale noise_std, always 1 at roots. A binary variable thresholds that sum at 0 - where that gives a value to fewer than 5% of rows, at a quantile of it that gives each value at least 5% - a categorical one takes the largest of one sum per category, and a count is Poisson with the sum as rate (its exponential where negative), set to 0 with the zero-inflation probability. In data of nonlinear_sem_generator without noise, a continuous variable is a function of its parents, smooth for RBF and linear for DotProduct kernels, with unit variance.",
         over=["inputs", "configurations"], text="all DAGs, weights, schemas, distributions, scales, sizes and seeds",
         why=NOTESTS + "values that follow from the wrong parent, weight or scale look as random as the right ones.",
         files=[GC], mech=[("weights and parents per feature", GC + ": _create_weight_matrix, sem_generator"), ("Gaussian processes in sorted batches", GC + ": _gp_index, nonlinear_sem_generator"), ("noise", GC + ": _handle_distribution_sampling and samplers per type")],
         observe=["sem_generator", "nonlinear_sem_generator"]),
    dict(id="C40", title="The pytorch NOTEARS obeys its constraints for every mix of types",
         statement="For any numeric data and any dist_type_schema, in any order, from_numpy learns a graph with one node per column plus one per further category of a categorical column, each carrying its variable's distribution type and, if asked for, its bias, and from_pandas gives the same under column names (categories c, c1, c2, ..). No edge joins a variable to itself or is forbidden by tabu_edges, tabu_parent_nodes or tabu_child_nodes, for any category of either end; w_threshold keeps exactly the edges whose weight reaches it, a converged model is acyclic between the variables (to the resolution of single precision), and graph_collapsed sums the unthresholded weights over categories. Empty, non-finite or non-numeric data, a schema that does not match the columns, and negative counts raise ValueError, and arguments are not modified.",
         over=["inputs", "configurations"], text="all data, schemas, constraints, penalties, hidden layers, thresholds and numbers of iterations",
         why=NOTESTS + "tabu sets are never combined with expanded columns in another order.",
         files=[PT + "notears.py", PT + "core.py", DIST + "_base.py", DIST + "categorical.py"],
         mech=[("bounds of the optimiser", PT + "notears.py: from_numpy"), ("expansion of tabu sets", DIST + "_base.py: update_tabu_edges, update_tabu_nodes"), ("names of expanded columns", PT + "notears.py: from_pandas")],
         observe=["causalnex.structure.pytorch.from_numpy", "causalnex.structure.pytorch.from_pandas"]),
    dict(id="C41", title="The pytorch NOTEARS minimises the documented objective",
         statement="Every function the learner hands to its optimiser has, at all parameters, the value and the gradient of: the sum of the variables' losses, plus ridge_beta/2 and lasso_beta times the documented penalties, plus rho/2 h^2 + alpha h of the documented cyclicity h between the original variables, and each minimisation weighs the cyclicity that the one before it left more heavily. Where tabu edges leave a single causal order, the learned model is (to the optimiser's precision) the optimum of this objective: one penalised linear, logistic, multinomial, ordinal or Poisson regression per variable.",
         over=["inputs", "configurations"], text="all parameters, data, schemas, penalties and hidden layers",
         why=NOTESTS + "a wrong gradient or penalty changes learned weights without failing them.",
         files=[PT + "core.py", PT + "nonlinear.py", DIST + "_base.py"], mech=[("objective and gradient", PT + "core.py: _dual_ascent_step"), ("cyclicity", PT + "core.py: _h_func"), ("penalties", PT + "core.py: _l1_reg, _l2_reg")],
         observe=["causalnex.structure.pytorch.from_numpy", "scipy.optimize.minimize"]),
    dict(id="C42", title="A learned pytorch model reports what it computes",
         statement="For every learned model an edge's weight is the mean absolute derivative of the child's reconstruction by the parent over the training data (the absolute weight if linear) and its mean_effect the mean derivative; adj, adj_mean_effect and bias agree with the graph. reconstruct_data of any rows is the documented forward pass followed by each variable's inverse link - for one variable if its distribution type is given -, independently of the other rows, with probabilities and expected counts in range; it does not modify the rows and raises ValueError for unseen categories and negative counts.",
         over=["inputs", "configurations"], text="all data, schemas, hidden layers, constraints and new rows",
         why=NOTESTS + "reconstructions of new rows, of rows alone and of several types at once are not compared with anything.",
         files=[PT + "core.py", PT + "nonlinear.py", DIST + "ordinal.py", DIST + "categorical.py"], mech=[("average derivatives", PT + "core.py: _calculate_adj"), ("forward pass and inverse links", PT + "core.py: forward, reconstruct_data")],
         observe=["NotearsMLP.reconstruct_data", "NotearsMLP.adj", "causalnex.structure.pytorch.from_numpy"]),
    dict(id="C43", title="DAGRegressor predicts what its coefficients and data say",
         statement="For any features and settings, a linear DAGRegressor's predictions at any rows are X coef_ + intercept_ (its exponential for counts; in standardised units and back if standardize), its graph_ is what from_pandas learns from [X | y], and a dependent target has no children and its part of the model is the optimum of a penalised regression on the features. Rows of X and y are paired by position: arrays, lists, frames and series with any labels, integer data, and earlier fits of the estimator give the same model, and standardised models do not depend on units. Parameters survive clone, data, schema and constraints are not modified, and wrong parameters, non-finite or mismatched data and use before fit raise the documented errors.",
         over=["inputs", "configurations", "histories"], text="all data and containers, types of features and target, settings, and sequences of fits",
         why=NOTESTS + "all use float frames with default row labels.",
         files=[SK + "_base.py", SK + "reg.py"], mech=[("pairing, standardising, schema", SK + "_base.py: fit, predict"), ("coefficients of the target's node", SK + "_base.py: get_edges_to_node, coef_, intercept_")],
         observe=["DAGRegressor.fit", "DAGRegressor.predict", "DAGRegressor.coef_", "DAGRegressor.graph_"]),
    dict(id="C44", title="DAGClassifier predicts classes as its probabilities and data say",
         statement="classes_ are the sorted labels of the training data; predict_proba gives one probability per class in that order, summing to one - in linear models the sigmoid, softmax or ordered-logit function of X coef_ + intercept_ -, and predict a most probable label in the labels' own type. Other labels of the same order, other containers or row labels, and earlier fits to other classes do not change the probabilities; the target's part is the optimum of the penalised classification, and graph_ is what from_pandas learns from the class numbers. A single class, a continuous target, wrong parameters, and use before fit raise the documented errors; data are not modified.",
         over=["inputs", "configurations", "histories"], text="all features, labels (text, booleans, numbers), containers, target types, settings, and sequences of fits",
         why=NOTESTS + "labels are numbers in order of their codes, and an estimator is fitted once.",
         files=[SK + "clf.py", SK + "_base.py"], mech=[("labels to codes and back", SK + "clf.py: fit, predict"), ("coefficients per class", SK + "clf.py: coef_, intercept_, _target_node_names")],
         observe=["DAGClassifier.fit", "DAGClassifier.predict", "DAGClassifier.predict_proba", "DAGClassifier.coef_"]),
    dict(id="C45", title="Distribution types are the distributions they are named after",
         statement="For every schema, in any order, and all latent values: the loss of a distribution type is the mean negative log likelihood of its own column(s) (up to the documented constant) with the matching gradient, and its inverse link gives means, probabilities or rates in its own column(s), neither depending on any other column. Encoding fitted on data applies to other rows without refitting, modifies nothing and refuses unknown categories and negative counts. Tabu sets, squared weights, adjacencies, names and nodes are extended so that every category stands for its variable, and LocallyConnected maps each variable's units with its own weights.",
         over=["inputs", "configurations"], text="all data, schemas and orders, latent values, tabu sets and layer shapes",
         why=NOTESTS + "each type is tried alone on one data set.",
         files=[DIST + "_base.py", DIST + "binary.py", DIST + "categorical.py", DIST + "continuous.py", DIST + "ordinal.py", DIST + "poisson.py", PT + "nonlinear.py"],
         mech=[("losses and inverse links", DIST + "*.py: loss, inverse_link_function"), ("groups of expanded columns", DIST + "categorical.py: preprocess_X, idx_group"), ("local layers", PT + "nonlinear.py: LocallyConnected.forward")],
         observe=["DistTypeBase.loss", "DistTypeBase.inverse_link_function", "DistTypeBase.preprocess_X", "LocallyConnected.forward"]),
    dict(id="C46", title="Estimators plot the graph they learned",
         statement="plot_dag of a fitted DAGRegressor or DAGClassifier draws exactly the nodes and edges of graph_ - with enforce_dag, without the weakest edges that it takes to leave no cycle - in the given or default style, by the given program, on the given axes, a figure of the drawing's size, or as an IPython image. The estimator, its graph, the options and the default styles are not modified; an estimator that is not fitted raises NotFittedError.",
         over=["inputs", "configurations"], text="all fitted estimators and graphs, styles, programs, axes and backends",
         why=NOTESTS + "a drawing is compared with no graph.",
         files=[SK + "_base.py", PL, DS], mech=[("thresholded copy, passed to the plotting functions", SK + "_base.py: plot_dag")],
         observe=["DAGRegressor.plot_dag", "DAGClassifier.plot_dag"]),
    dict(id="C47", title="A network that joins all variables answers with its data's frequencies",
         statement="For any data, discretised or not, and any StructureModel pruned to a DAG in which every two variables are joined, the network fitted by maximum likelihood answers every query with observations that occur in the data with the relative frequencies among the matching rows, and predicts by them. After interventions on variables that take the given states under all circumstances in the data, it answers with the frequencies among rows weighted by the inverse of the frequency of what they did, and reset_do undoes it.",
         over=["inputs", "histories"], text="all data, all orders of the variables, all observed evidence, all sequences of interventions",
         why=NOTESTS + "no test follows data through all the parts of the package to an answer that is known from the data alone.",
         files=[NET, INF, SM, DI], mech=[("counts to tables to factors to marginals", NET + ": fit_cpds; " + INF + ": query, do_intervention"), ("pruning to a DAG", SM + ": remove_edges_below_threshold, get_largest_subgraph")],
         observe=["InferenceEngine.query", "BayesianNetwork.predict", "BayesianNetwork.predict_probability"]),
]

NOT_APPLICABLE = []
