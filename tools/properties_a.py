B = "causalnex/ebaybbn/bbn.py"
G = "causalnex/ebaybbn/graph.py"
U = "causalnex/ebaybbn/utils.py"
TESTS = "The 19 tests run a handful of fixed networks (sprinkler, Huang-Darwiche, earthquake) rounded to 3..5 digits; "

PROPERTIES = [
    dict(id="C01", title="Prior marginals are exact",
         statement="For every discrete Bayesian network - any DAG, any domains of hashable values, any proper conditional tables - querying without evidence returns exactly one probability for every value in the domain of every variable, and each equals the marginal of the product of the tables up to floating-point rounding. This holds whichever elimination priority or starting clique is used for the join tree.",
         over=["inputs"], text="all DAGs, domain sizes and value types, tables (including zeros and very small probabilities)",
         why=TESTS + "the claim is over all networks.",
         files=[B, U], mech=[("join-tree propagation", B + ": JoinTree.propagate, JoinTreeCliqueNode.project/absorb"), ("potentials from tables", B + ": JoinTree.initialize_potentials"), ("marginalisation", B + ": JoinTree.marginal, BBN.query")],
         observe=["BBN.query()", "JoinTree.marginal()"]),
    dict(id="C02", title="Posteriors given evidence are exact and normalised",
         statement="For every network and every evidence of positive probability, the query returns for each variable the exact conditional distribution given that evidence, however unlikely the evidence is. Each returned distribution sums to one and each observed variable has probability one on its observed value.",
         over=["inputs"], text="all networks and all evidence sets with positive probability, from one to all variables observed",
         why=TESTS + "a few evidence sets are asked of each, none of them improbable.",
         files=[B], mech=[("evidence entered in clique potentials", B + ": JoinTree.initialize_potentials step 2b"), ("normalisation per variable", B + ": BBN.query")],
         observe=["BBN.query(**evidence)"]),
    dict(id="C03", title="Zero-probability events never crash or corrupt inference",
         statement="Networks whose tables contain zeros, and evidence that is in-domain but impossible, never make a query raise, return NaN or return a negative value: exactly the impossible values get probability 0, and under impossible evidence every value of every variable does. Sampling under an impossible query raises instead of inventing a sample.",
         over=["inputs"], text="all tables with zero entries and all in-domain evidence, possible or not",
         why=TESTS + "zero divisions in message passing depend on where the zeros and the evidence fall.",
         files=[B], mech=[("0/0 guarded when absorbing", B + ": JoinTreeCliqueNode.absorb"), ("zero normaliser guarded", B + ": BBN.query"), ("no positive mass", B + ": BBN.draw_samples")],
         observe=["BBN.query(**evidence)", "BBN.draw_samples"]),
    dict(id="C04", title="Evidence is validated before it is used",
         statement="A query, validation or sampling request that mentions a variable which is not in the network raises VariableNotInGraphError, and one that gives a value outside the variable's domain (True/False when none is declared) raises VariableValueNotInDomainError, whatever else the evidence contains and in whatever order. Evidence made only of known variables and in-domain values is always accepted.",
         over=["inputs"], text="all evidence dictionaries over known and unknown names, in-domain and out-of-domain values",
         why=TESTS + "two rejected queries are tested, with one item each, and none for sampling.",
         files=[B, "causalnex/ebaybbn/exceptions.py"], mech=[("validate_keyvals", B + ": BBN.validate_keyvals, called by query and draw_samples")],
         observe=["BBN.query", "BBN.validate_keyvals", "BBN.draw_samples"]),
    dict(id="C05", title="Samples are complete, in-domain, possible and agree with the query",
         statement="For every network, every possible query and every random stream, draw_samples returns exactly the number of samples asked for, each a separate dictionary giving every variable one value of its domain, containing the query unchanged, and having positive joint probability. It never raises for a possible query, even when the random numbers are the most extreme ones the generator can return, and it does not modify the query.",
         over=["inputs", "fault_sequences"], text="all networks, possible queries, sample counts and sequences of values in [0, 1) drawn from the random generator",
         why=TESTS + "one test draws samples under ordinary random numbers; boundary draws have probability 2**-53.",
         files=[B], mech=[("cumulative selection", B + ": BBN.draw_samples")], observe=["BBN.draw_samples"]),
    dict(id="C06", title="Samples follow the network's conditional distribution",
         statement="Samples drawn by draw_samples are distributed as the joint distribution of the network conditioned on the query, and samples are independent of one another, within one call and between calls. They are drawn from Python's random numbers: after the same random.seed the same network and query give the same samples.",
         over=["inputs", "histories"], text="all networks and possible queries, any split of the samples over calls",
         why="One test compares rounded frequencies of a single small network.",
         files=[B], mech=[("sequential sampling with a result cache", B + ": BBN.draw_samples")], observe=["BBN.draw_samples"]),
    dict(id="C07", title="The join tree is a valid junction tree of the network",
         statement="For every network, connected or not, and every elimination priority, the join tree is a single tree of maximal cliques in which some clique contains each variable together with its parents, every separator is exactly the intersection of the two cliques it joins, the cliques containing any given variable are connected, and no other tree of these cliques has more variables in its separators or, with as many, a lower total cost (2 to the power of the sizes of the cliques each separator joins). Every conditional table is assigned exactly once, to a clique containing its family.",
         over=["inputs", "configurations"], text="all DAGs and all clique priority functions",
         why=TESTS + "one tree of one network is checked for its separators' ends only.",
         files=[B], mech=[("maximum spanning tree by separator size", B + ": build_join_tree, SepSet.insertable/insert"), ("assignment", B + ": JoinTree.assign_clusters")],
         observe=["build_join_tree", "BBN.build_join_tree", "JoinTree.assign_clusters"]),
    dict(id="C08", title="Moralisation and triangulation are correct",
         statement="The undirected copy of a network has exactly its edges without direction, and the moralised copy adds exactly the edges between parents of a common child, neither modifying what it copies. Triangulation returns an ordering of all nodes, adds to the graph exactly the fill edges of that ordering (leaving it chordal), and returns exactly the maximal cliques of the result, for every undirected graph and priority function; with the default priority a chordal graph gains no edge.",
         over=["inputs", "configurations"], text="all DAGs, all undirected graphs, all priority functions",
         why=TESTS + "moralisation and triangulation are compared on one graph.",
         files=[B], mech=[("make_undirected_copy, make_moralized_copy, triangulate, record_cliques", B)], observe=["make_undirected_copy", "make_moralized_copy", "triangulate"]),
    dict(id="C09", title="Propagation calibrates the join tree",
         statement="Once potentials are initialised with any evidence, the product of the clique tables is the joint distribution restricted to the evidence. After propagation from any starting clique, every clique table and every separator table holds exactly the joint probability of its assignment and the evidence, so neighbouring cliques agree, and propagating again changes nothing.",
         over=["inputs", "configurations"], text="all networks, evidence (none, possible, impossible), elimination priorities and starting cliques",
         why=TESTS + "one clique of one tree is compared after one propagation without evidence.",
         files=[B], mech=[("collect/distribute evidence", B + ": JoinTree.propagate"), ("project/absorb", B + ": JoinTreeCliqueNode")], observe=["JoinTree.initialize_potentials", "JoinTree.propagate", "potential tables"]),
    dict(id="C10", title="Answers obey the laws of probability at any network size",
         statement="On networks too large for enumeration, answers still satisfy the chain rule in both directions and the law of total probability; evidence on a variable that is d-separated does not change a posterior, and removing an unobserved leaf changes no other. Renaming variables, or permuting factors, their arguments or the domains, changes nothing, and neither does Python's hash seed.",
         over=["inputs", "configurations"], text="all networks, pairs of related queries, presentations of the same network and hash seeds",
         why=TESTS + "no test relates two queries or two presentations.",
         files=[B, U], mech=[("join-tree inference", B + ": BBN.query"), ("order-independent building", U + ": get_original_factors")], observe=["BBN.query", "build_bbn"]),
    dict(id="C11", title="The network built is the DAG the factors describe",
         statement="build_bbn gives one node per factor, names the variable that factor introduces, and makes its parents exactly the factor's other arguments, and children the converse, whatever the order of the factors and of their arguments, whatever names (different from one another) the factors have and however they are passed. The caller's list and domains are not modified.",
         over=["inputs", "configurations"], text="all factor sets that describe a DAG, in all orders",
         why=TESTS + "one graph's parents are asserted, with factors in topological order.",
         files=[B, U, G], mech=[("discovery of the introduced variable", U + ": get_original_factors"), ("connect", G), ("build_bbn", B)], observe=["build_bbn", "BBN.nodes", "BBN.vars_to_nodes"]),
    dict(id="C12", title="Conditional tables are reproduced by the network built from them",
         statement="A node function made from conditional tables takes the parents in alphabetical order followed by the variable and returns exactly the tabulated probability for every combination, whatever the order of rows, of conditions within a row and of outcomes; an assignment the table does not list is a KeyError. A network built from such tables has those parents, takes its domains from the outcomes and answers queries as the tables imply, without modifying the tables.",
         over=["inputs"], text="all complete tables over any number of parents, values and row orders",
         why=TESTS + "each table is written in one order.",
         files=[B], mech=[("make_node_func, build_bbn_from_conditionals", B)], observe=["make_node_func", "build_bbn_from_conditionals", "BBN.query"]),
    dict(id="C13", title="Queries and samples leave no trace",
         statement="The answer to a query depends only on the network and its evidence: never on earlier queries, rejected queries, samples, renderings, join trees in use, other networks built from the same factors, or what the caller did to results it was given. None of these operations changes the network or its arguments.",
         over=["histories"], text="all sequences of operations over one or several live networks",
         why="Every test starts from a fresh fixture and asks a few queries.",
         files=[B, G], mech=[("a join tree per query", B + ": BBN.query"), ("copies of mutable defaults", G + ": Node, UndirectedNode")], observe=["BBN.query", "BBN.draw_samples", "BBN.nodes"]),
    dict(id="C14", title="Concurrent use of a network gives the sequential answers",
         statement="When several threads query, sample and build networks at once, sharing network objects, each call returns what it would have returned alone, and none fails.",
         over=["schedules"], text="all interleavings of threads at the granularity of the interpreter's calls and jumps",
         why="No test uses threads.",
         files=[B], mech=[("no shared mutable state between queries", B + ": BBN.query")], observe=["BBN.query", "BBN.draw_samples", "build_bbn"]),
    dict(id="C15", title="Disconnected, isolated, wide and large networks are answered",
         statement="A query on any valid network returns the exact answer within a bounded number of steps: networks with several components or isolated variables, hundreds of variables in a chain, tree or star, and variables with many parents included. Evidence in one component does not affect another, and neither hangs nor recursion errors occur at these sizes.",
         over=["inputs"], text="all networks with any number of components, and networks of up to several hundred variables",
         why="Every network in the tests is connected and has at most eight variables.",
         files=[B], mech=[("joining components", B + ": build_join_tree"), ("graph copies", B + ": make_moralized_copy, triangulate")], observe=["build_bbn", "BBN.query"]),
    dict(id="C16", title="The graphviz source shows exactly the network",
         statement="The graphviz source of a network, whatever its factors and variables are named, is a digraph that declares every node exactly once and every parent-child edge exactly once in the right direction, and nothing else. It does not depend on the order of the factors.",
         over=["inputs"], text="all networks", why=TESTS + "one source text is compared.",
         files=[B], mech=[("get_graphviz_source", B + ": BBN.get_graphviz_source")], observe=["BBN.get_graphviz_source"]),
    dict(id="C17", title="Factor sets that are not a network are rejected, not looped on",
         statement="A set of factors with a directed cycle, with a parent that no factor introduces, with two factors for one variable or of one name, or with a factor without arguments makes build_bbn raise an error within a bounded number of steps, and valid sets still build.",
         over=["inputs"], text="all factor sets that do not describe a DAG with one factor per variable",
         why="No test gives build_bbn an invalid set.",
         files=[U, B], mech=[("no-progress detection", U + ": get_original_factors")], observe=["build_bbn"]),
]
