"""The properties: text for properties.jsonl, MANIFEST.json and the rule summary written into the evidence."""

EB = "causalnex/ebaybbn/bbn.py"
INF = "causalnex/inference/inference.py"
NET = "causalnex/network/network.py"
EV = "causalnex/evaluation/evaluation.py"
SM = "causalnex/structure/structuremodel.py"
NT = "causalnex/structure/notears.py"
DT = "causalnex/structure/dynotears.py"
PT = "causalnex/structure/pytorch/notears.py"
TR = "causalnex/structure/transformers.py"
DG = "causalnex/structure/data_generators/core.py"
DW = "causalnex/structure/data_generators/wrappers.py"
SB = "causalnex/structure/pytorch/sklearn/_base.py"
SC = "causalnex/structure/pytorch/sklearn/clf.py"
SR = "causalnex/structure/pytorch/sklearn/reg.py"
DB = "causalnex/structure/pytorch/dist_type/_base.py"
DI = "causalnex/structure/pytorch/dist_type/binary.py"
DC = "causalnex/structure/pytorch/dist_type/categorical.py"
DN = "causalnex/structure/pytorch/dist_type/continuous.py"
DO = "causalnex/structure/pytorch/dist_type/ordinal.py"
DP = "causalnex/structure/pytorch/dist_type/poisson.py"
CO = "causalnex/structure/pytorch/core.py"
NL = "causalnex/structure/pytorch/nonlinear.py"
PP = "causalnex/plots/plots.py"
PD = "causalnex/plots/display.py"
CM = "causalnex/structure/categorical_variable_mapper.py"


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, rule, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                anchors={"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech],
                         **({"observe_at": list(observe)} if observe else {}),
                         **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})},
                technique=technique, note=note, rule=rule)


SYM = "abstract interpretation of the source to path-conditioned normal forms, rule matched on the normal form"
BASE = ("Sound up to the interpreter's model of Python (DESIGN.md section 2) for the listed clauses; a shape the normaliser cannot "
        "express is reported as undecided in the evidence, not as a violation.")

PROPS = [
    prop("C01", "Querying and sampling a network never change it",
         "Marginal queries (with or without evidence), sampling, and building a join tree leave the network, its nodes, its domains, "
         "the evidence and every other object passed in unchanged. Every query works on inference structures it built itself, so its "
         "result depends only on the network and the evidence, never on earlier queries.",
         ["histories", "inputs"], "all sequences of queries and samples with any evidence on any network",
         "tests run a handful of query orders; a shared join tree, cache or default argument that leaks only shows for particular histories",
         [EB, "causalnex/ebaybbn/graph.py"],
         [("every query builds its own join tree from copies of the graph", "BBN.query / build_join_tree"),
          ("graph copies before moralisation and triangulation", "make_undirected_copy, make_moralized_copy, triangulate")],
         "interprocedural may-alias effect analysis (mutations reaching parameters, globals and shared defaults)",
         "All paths of the ten entry points with calls inlined; a write to a caller's object is accepted only when nothing in the "
         "analysis reads that attribute back. " + BASE,
         "For BBN.query, draw_samples, build_join_tree, validate_keyvals, marginal, assign_clusters and the graph copies: every "
         "mutation event is resolved to its may-alias roots; none may be a parameter, module global or shared default. The tree that "
         "potentials, propagation and marginals run on must be the one built by the same call.",
         state=[("BBN.nodes/domains", "the network", EB)]),
    prop("C02", "Invalid evidence is rejected before any inference",
         "A marginal query whose evidence names a variable that is not in the network, or gives a variable a value outside its domain "
         "(variables without a declared domain take True/False), raises the corresponding error for that and only that reason, for "
         "every piece of the evidence. The error comes before any of the evidence is used, and valid evidence is used exactly as given.",
         ["inputs"], "all networks and all evidence dictionaries, any number and position of invalid entries",
         "tests try one bad variable; acceptance conditions must match for every evidence entry",
         [EB], [("validation loop at the start of a query", "BBN.validate_keyvals")],
         SYM + " (path conditions of the raise statements compared by truth table)", BASE,
         "The path condition of each raise in BBN.query (validation inlined) must be logically equivalent to the required one for "
         "every evidence entry, precede the use of the evidence, and the dictionary validated must be the one passed on."),
    prop("C03", "Every conditional table enters the joint exactly once, correctly aligned",
         "For every network, each node's conditional table is multiplied into exactly one clique potential, one whose variables "
         "include the node and all its parents, in the position given by the table's own argument order and with the row's value of "
         "each argument. Each clique potential has one entry for every combination of its variables' domain values, and cliques "
         "without a table start at 1.",
         ["inputs"], "all networks, cliques and rows",
         "a table counted twice, dropped or misaligned cancels out in small symmetric test networks",
         [EB], [("assignment of tables to cliques", "JoinTree.assign_clusters"),
                ("initial potentials", "JoinTree.initialize_potentials")],
         SYM, BASE,
         "assign_clusters: every node considered, containment of the family in the clique, at most one assignment, no extra filter. "
         "initialize_potentials: rows = product of (variable, value) over full domains; potential = product over all assigned tables "
         "of the table applied to its own argument list; all-ones initialisation precedes it."),
    prop("C04", "Evidence removes exactly the contradicting states",
         "When evidence is given, an entry of a clique's potential becomes zero exactly if it assigns an observed variable a value "
         "other than the observed one; every other entry keeps its value, for every observed variable, and this happens after the "
         "conditional tables have been multiplied in.",
         ["inputs"], "all networks, evidence and clique entries",
         "tests use evidence on one or two binary nodes, where many wrong conditions agree with the right one",
         [EB], [("encoding of evidence", "JoinTree.initialize_potentials")], SYM, BASE,
         "The condition under which a potential entry is overwritten, its value (0) and the enumerated entries are compared with the "
         "required condition by truth table; the write must follow the construction of the potentials."),
    prop("C05", "Moralisation and triangulation keep every edge, at both ends",
         "The undirected copy of a network has all its nodes and an edge for each parent-child pair; the moral graph additionally "
         "joins every two parents of a node; triangulation eliminates every node from a copy, first joining all its remaining "
         "neighbours (also in the graph it was given), and records the node with its neighbours as a clique unless a recorded clique "
         "contains it, until no node is left. Every edge is recorded symmetrically at both of its ends, and only once.",
         ["inputs"], "all directed acyclic networks and elimination orders",
         "a missing fill-in or moral edge only breaks networks with particular loops or three or more parents",
         [EB], [("undirected copy", "make_undirected_copy"), ("moral graph", "make_moralized_copy"),
                ("elimination", "triangulate, record_cliques")], SYM, BASE,
         "Every append to a neighbour list is matched with its mirror image under the same loops and guard (only an adjacency test is "
         "allowed as guard); pairs come from all combinations of parents / of the cluster; the eliminated node is removed from all "
         "neighbours and from the working copy after fill-in; the recorded cluster is the node and its neighbours."),
    prop("C06", "Belief propagation follows the collect/distribute schedule",
         "After the potentials are initialised and before any marginal is read, a query propagates beliefs in two full phases from "
         "one and the same root clique: messages are first collected from the leaves towards the root (a clique reports only after "
         "its whole subtree has reported), then distributed from the root outwards (a clique is sent to before it sends on). Both "
         "phases visit every neighbouring clique not yet visited in that phase.",
         ["inputs", "schedules"], "all join trees and all starting cliques",
         "wrong orders still give right answers on chains and two-clique trees",
         [EB], [("phases", "JoinTree.propagate"), ("recursion", "collect_evidence, distribute_evidence"),
                ("neighbours", "JoinTreeCliqueNode.neighbouring_cliques")], SYM + "; event ordering", BASE,
         "Order and guards of unmark, collect, distribute, recursive calls and messages; visited marks reset for every clique before "
         "each phase and set before recursion; recursion over exactly the unmarked neighbours; message direction and position "
         "relative to the recursion."),
    prop("C07", "Message passing computes the Hugin update and never divides by zero",
         "A message from one clique to a neighbouring one goes through the separator between them: the separator's new table is the "
         "sum of the sender's entries that agree with each separator entry, and every entry of the receiver is multiplied by the "
         "ratio of the matching separator entry's new to its previous value. Entries that are already zero stay zero without "
         "evaluating the ratio, and nothing else is zeroed.",
         ["inputs"], "all pairs of cliques and potentials, including deterministic (0/1) tables",
         "tests avoid zero probabilities and multi-variable separators",
         [EB], [("message", "JoinTreeCliqueNode.pass_message, project, absorb"), ("key mapping", "transform")], SYM, BASE,
         "Normal forms of the separator update (a keyed sum over all sender entries), of the receiver update (entry x new / old at "
         "the transformed key), capture of the old table before it is overwritten, and the zero guard around the division."),
    prop("C08", "A query reports a normalised distribution over every state of every node",
         "The result of a query has an entry for every state of every node of the network, taken from a clique that contains the "
         "node by summing over all entries with that state. Under evidence each entry is divided by the total mass of its own "
         "variable; when that total is zero no division takes place.",
         ["inputs"], "all networks and evidence, including impossible evidence",
         "tests check chosen entries; omitted nodes, totals mixed across variables or a division by zero need specific inputs",
         [EB], [("result assembly", "BBN.query"), ("marginals", "JoinTree.marginal")], SYM, BASE,
         "The returned mapping enumerates every node and every entry of that node's marginal without filter; the divisor is a sum "
         "keyed by the entry's own variable under a non-zero guard and applied whenever there is evidence; marginal() is a keyed sum "
         "over all entries of a clique containing the node."),
    prop("C09", "Sampling draws complete, evidence-consistent samples from the conditionals",
         "Drawing n samples returns exactly n assignments, each starting as a copy of the evidence and assigning every other node "
         "exactly once, a state of that node's own distribution given everything assigned so far in that sample. The selected "
         "state's position always lies inside the node's table (also when probabilities sum to slightly less than one), and a "
         "memorised distribution is only reused for exactly the same partial assignment.",
         ["inputs", "histories"], "all networks, evidence, sample counts and random draws",
         "sampling is random: out-of-range draws and cache collisions have tiny probability per test run",
         [EB], [("ancestral sampling loop", "BBN.draw_samples")], SYM, BASE,
         "Loop count equals n; each sample copies the evidence; the node is chosen among the unassigned ones; the query receives the "
         "sample under construction; the cache key contains every variable with its value; only entries of the chosen node are "
         "candidates; the selection compares the draw with the cumulative table or accumulated mass, and its index never passes the last entry."),
    prop("C10", "Condition-controlled loops always make progress",
         "Inference, learning and graph-pruning loops terminate: on every path that repeats such a loop, the quantity its exit "
         "condition tests moves towards the exit (a counter or penalty grows, a collection grows or shrinks, an edge is removed), or "
         "an error is raised. No loop adds to or removes from the collection it is iterating over.",
         ["inputs"], "all inputs, including malformed networks that admit no solution",
         "an endless loop needs an input that takes the one path on which nothing changes",
         [EB, "causalnex/ebaybbn/utils.py", "causalnex/structure/notears.py", "causalnex/structure/dynotears.py",
          "causalnex/structure/pytorch/core.py", "causalnex/structure/structuremodel.py"],
         [("penalty escalation", "notears._learn_structure, dynotears, pytorch NotearsMLP"), ("pruning", "StructureModel.threshold_till_dag"),
          ("elimination and tree assembly", "triangulate, build_join_tree"), ("factor discovery", "get_original_factors")],
         "path enumeration over loop bodies with recognised variants (lint over the syntax tree)",
         "A loop with a recognised variant must move it on every repeating path; the random graph generators' retry loops are out of "
         "scope (their exit is a random event). Assumes the optimiser returns and the objective is finite. " + BASE,
         "For each while loop: enumerate all body paths, find the variant of each exit conjunct, require a progress step (or a "
         "contradicted conjunct, or a search loop that moves it exactly when it breaks) on every path that repeats."),
    prop("C11", "The cliques are always joined into one maximum-separator tree",
         "Each clique is a tree node of its own, every pair of cliques is a candidate separator (also pairs without common "
         "variables), and candidates are tried in order of decreasing number of shared variables. A separator is inserted only "
         "between two different trees, linking it with both of its cliques in both directions and merging the two trees, until one "
         "tree holds all cliques.",
         ["inputs"], "all sets of cliques, including disconnected networks",
         "wrong separator order or dropped candidates break the running intersection only on networks with several loops or components",
         [EB], [("assembly", "build_join_tree"), ("separator", "SepSet")], SYM, BASE,
         "Candidate pool = SepSet over all 2-combinations of the cliques, unfiltered; sort key starts with the negated mass; mass = "
         "number of shared variables; insertion guarded by the different-trees test; insert() links both cliques both ways, merges "
         "all nodes and drops the other tree; the loop runs until n-1 insertions."),
    prop("C12", "Networks built from conditional tables are wired by argument name",
         "Building a network from conditional tables gives every variable a node whose table contains every row and state with its "
         "own probability, keyed by its parents in alphabetical order and then its own state, looked up in exactly that argument "
         "order. Its parents are the nodes of all its other arguments (recorded at both ends), its domain is the set of its states. "
         "A network keeps the nodes it is given, by name, and the given domains.",
         ["inputs"], "all sets of conditional tables, in any order of rows and parents",
         "tests give parents in alphabetical order already, and few rows",
         [EB, "causalnex/ebaybbn/utils.py"],
         [("table function", "make_node_func"), ("wiring", "build_bbn, connect, get_original_factors"), ("domains", "build_bbn_from_conditionals")],
         SYM, BASE,
         "Normal forms of the table (keyed by sorted parents then own state; all rows, all states), of the argument order (names in "
         "key order), of the lookup closure, of the domain set, of both connect() lists (guarded only by 'not itself') and of the "
         "introducing-factor rule."),

    prop("C13", "Interventions are validated first and then replace exactly one table",
         "InferenceEngine.do_intervention raises ValueError exactly when the node is an argument of no other node's function (it has "
         "no children), the probabilities do not sum to 1, one lies outside [0, 1], or the given states are not exactly the node's "
         "original states; in that case nothing in the engine has changed. Otherwise the node's table becomes the given distribution "
         "without conditions (a single state means probability 1 for the equal state and 0 for the others), every other table and the "
         "caller's mapping stay as they were, and the engine is rebuilt from the new tables, so the next query answers for them.",
         ["inputs", "histories"], "all engines, nodes, states and distributions, in any sequence of interventions and resets",
         "tests intervene once or twice on a three-node network; partial updates before a failing check and stale engines need particular sequences",
         [INF], [("intervention", "InferenceEngine.do_intervention / _do"), ("rebuild", "InferenceEngine._generate_bbn")],
         SYM + " (raise conditions compared with the required ones by case analysis); effect analysis for atomicity", BASE,
         "The disjunction of the path conditions of all raises must equal the required one; no effect on the engine precedes a raise; "
         "the only table write is tables[node] = {s: {(): p}} for all given pairs, unconditional; build_bbn is called after it on newly "
         "made functions with the domains; no in-place edit of any table and no write of the originals.",
         state=[("_cpds / _cpds_original / _bbn", "current tables, original tables, inference network", INF)]),
    prop("C14", "Resetting an intervention restores the original distribution",
         "After InferenceEngine.reset_do(node) the node's table is the one the engine was created with, and the engine has been "
         "rebuilt, whatever interventions, resets and queries came before. The original tables are kept apart from the current ones and "
         "no operation ever changes them or edits a table in place; constructing an engine and querying it change neither the Bayesian "
         "network, nor the engine, nor the observations passed in.",
         ["histories"], "all sequences of interventions, resets and queries",
         "aliasing between current and original tables only shows after particular sequences",
         [INF], [("reset", "InferenceEngine.reset_do"), ("original tables", "InferenceEngine._create_cpds_dict_bn")],
         "interprocedural may-alias effect analysis; normal forms of the reset", BASE,
         "reset_do writes tables[observation] = originals[observation] unconditionally and rebuilds afterwards; the originals are a "
         "different object from the tables; in every method no mutation event targets the originals or the inside of a table; "
         "constructor and query have no effect on the network, the observations or the state.",
         state=[("_cpds_original", "tables at construction", INF)]),
    prop("C15", "Queries answer for every node, from exactly the given observations",
         "InferenceEngine.query passes all given observations, unchanged, to the inference network, and returns for every node of "
         "the network a mapping of its own from each of its states to the probability inferred for that node and state, none left "
         "out. An engine is only created for networks whose node names all match ^[0-9a-zA-Z_]+$ and that have CPDs; otherwise "
         "ValueError is raised before anything is built.",
         ["inputs"], "all networks and observations, including falsy states and observed nodes",
         "tests look up a few nodes; dropped or misplaced answers for some state or node go unnoticed",
         [INF], [("query", "InferenceEngine.query"), ("constructor checks", "InferenceEngine.__init__")], SYM, BASE,
         "The keyword arguments of every engine call are the observations themselves, and the call conditions cover all non-empty "
         "observations; the returned mapping has result[key[0]][key[1]] = answer[key] for every key without filter, with one fresh "
         "mapping per node; raise conditions of the constructor equal the required ones and precede build_bbn."),
    prop("C16", "Inference tables, domains and functions agree in names, states and order",
         "For every fitted network the inference tables hold, for each node, state and parent configuration, the CPD entry of that "
         "row and column, keyed by (parent, parent state) pairs in the CPD's column order; a node's domain is the list of its CPD's "
         "states. Each node gets one function whose arguments are the node and then its parents in the order of the table's keys, "
         "and which returns the current table's entry for the values of its own arguments.",
         ["inputs"], "all networks, any number and order of parents and states",
         "a permuted parent order is invisible on tables with one parent or symmetric values",
         [INF], [("tables", "InferenceEngine._create_cpds_dict_bn"), ("domains", "InferenceEngine._generate_domains_bn"),
                 ("functions", "InferenceEngine._create_node_function(s)")], SYM, BASE,
         "Normal forms of the three mappings built by the constructor and of the body of the generated functions are compared with "
         "reference terms after rewriting pandas spellings (.loc[r][c] / .loc[r, c] / .at, index / index.values / tolist)."),
    prop("C17", "Only connected acyclic structures become networks, with all their edges",
         "BayesianNetwork(structure) raises ValueError exactly when the structure has more than one weakly connected component or "
         "contains a cycle. Otherwise the network's model contains every edge of the structure, the network's nodes and edges are those "
         "of the model, none left out, `structure` returns the structure that was given, and that structure is not modified.",
         ["inputs"], "all structures",
         "tests build a few small graphs; an edge filtered out or a cycle or component count let through depends on the shape of the graph",
         [NET], [("constructor", "BayesianNetwork.__init__"), ("nodes, edges, structure", "BayesianNetwork properties")],
         SYM + " (raise conditions compared with the required ones); effect analysis", BASE,
         "Raise conditions of the constructor must equal `more than one weak component` or `not a DAG`; an unconditional call adds all of "
         "structure.edges to the model kept by the network; nodes/edges are unfiltered lists of the model's; no effect on the structure."),
    prop("C18", "Node states are validated before they are stored, and numbered in sorted order",
         "Setting node_states raises KeyError exactly if a node of the network is missing and ValueError exactly if some state of any "
         "node is null; in either case the previous states stay in place. Otherwise every node's states are stored, numbered 0, 1, ... in "
         "sorted order, and node_states reports for every node the set of its states. fit_node_states does the same with all distinct "
         "values of every column of the data, which it does not modify, and returns the network.",
         ["inputs", "histories"], "all node state mappings, all data frames, including refits with invalid data",
         "tests use complete data; the position of a null, the order of a set and a failed refit matter",
         [NET], [("node_states setter and getter", "BayesianNetwork.node_states"), ("fit_node_states", "BayesianNetwork.fit_node_states")],
         SYM + " (raise conditions compared with the required ones); effect ordering for atomicity", BASE,
         "Raise conditions must equal the required ones for every node and state, the assignment of the states must come after all of "
         "them and be unconditional, its value must be {n: {v: k for k, v in enumerate(sorted(states of n))}} over all nodes given, and "
         "fit_node_states must pass all unique values of all columns through the same code.",
         state=[("_node_states", "node -> state -> index", NET)]),
    prop("C19", "CPD fitting dispatches on validated options and uses the network's own states",
         "fit_cpds raises ValueError exactly for an unknown method, or for a Bayesian fit with an unknown prior, before anything is fitted. "
         "MaximumLikelihoodEstimator and BayesianEstimator are used exactly when asked for, on the network's own columns only, every value "
         "mapped to its node's state index, with the full list of state indices of every node (also states absent from this data) and, "
         "for the Bayesian one, the prior and equivalent sample size given. The data is not modified, the node states stay as they were "
         "and the network is returned; fit_node_states_and_cpds fits states and then probabilities with the same arguments.",
         ["inputs"], "all data frames, methods, priors and sample sizes",
         "tests compare a few fitted tables; a dropped argument, state list or validation only shows for particular options and unseen states",
         [NET], [("fit_cpds", "BayesianNetwork.fit_cpds"), ("state indices", "BayesianNetwork._state_to_index")], SYM, BASE,
         "Path conditions and keyword arguments of every call of the model's fit are compared with the reference dispatch; column writes "
         "before it with t[c] = t[c].map(states of c) for all columns; no effect on data or on the network's attributes."),
    prop("C20", "Predictions use the node's own table, by parent name, and return states",
         "BayesianNetwork.predict looks the prediction up in the node's CPD exactly when all parents are columns of the data: per row, the "
         "most probable state of the column selected by that row's parent states in sorted parent order (the order of the CPD's column "
         "levels), or of the single column for a node without parents. Otherwise it asks the model, with every column mapped to state "
         "indices and the predicted node left out, and maps the returned index back to the state. The result has the single column "
         "{node}_prediction; data and network are not modified.",
         ["inputs"], "all data frames, column orders, parents and states of any type",
         "tests predict on a small data set with integer-like states; wrong parent order or unmapped indices can go unnoticed there",
         [NET], [("predict", "BayesianNetwork.predict and its two helpers")], SYM, BASE,
         "The two ways, their condition, the per-row lookup term, the frame handed to the model, the mapping back and the column name "
         "are compared with the reference terms (several accepted spellings); effect analysis for data and network."),
    prop("C21", "Predicted probabilities are labelled with the state they belong to",
         "BayesianNetwork.predict_probability returns one column {node}_{state} for every state of the node. With all parents given, each "
         "row holds the node's CPD entry of that state and of that row's parent states (parents in sorted order); otherwise the model's "
         "column for the state's index, renamed to that very state. Data and network are not modified.",
         ["inputs"], "all data frames, parents, and states of any type",
         "tests use states that equal their indices; swapped labels then change nothing",
         [NET], [("predict_probability", "BayesianNetwork.predict_probability and its two helpers")], SYM, BASE,
         "As for predictions: dispatch condition, written columns and values, selection and renaming of the model's columns by the same "
         "state -> index mapping."),
    prop("C22", "CPD tables list states and parent combinations in the model's index order",
         "BayesianNetwork.cpds has one table for every CPD of the model. Row i is labelled with the state whose index is i, and the columns "
         "are the product of the parents' states in index order, named and ordered like the CPD's own variables after the first; the "
         "values are the model's values in that shape. Reading the tables does not change the network.",
         ["inputs"], "all fitted networks, any number and order of parents and states",
         "on small symmetric tables permuted labels look right",
         [NET], [("cpds", "BayesianNetwork.cpds")], SYM, BASE,
         "The values, shape, row labels (sorted states, the order in which they are numbered), column product and column names of every "
         "table are compared with the reference terms, in several accepted spellings; no effect on the network."),
    prop("C23", "Evaluation pairs every predicted value with the truth of the same state",
         "roc_auc compares, for every row and every state of the node (also states absent from the test data, whose truth is 0), the "
         "indicator of that state with the predicted probability of that same state, and returns the list of (fpr, tpr) points and the "
         "area under them. classification_report compares the node's column with the predicted states, over all states of the node, each "
         "reported under the name {node}_{state} of that very state. Neither changes the data or the network.",
         ["inputs"], "all networks, nodes, states (numbers, text, any order) and test data, with or without all states",
         "tests use states whose sorted order, order of appearance and alphabetical order coincide",
         [EV], [("roc", "roc_auc"), ("report", "classification_report")], SYM + "; effect analysis", BASE,
         "The two arguments of roc_curve must be the flattened indicator and probability frames with the same state sequence as columns; "
         "labels and target_names of the report must be the same sequence of states; missing states are added with 0; no effect on inputs."),
    prop("C24", "Every edge of a structure model carries a validated origin",
         "Creating a StructureModel from data, add_edge, add_edges_from and add_weighted_edges_from raise ValueError for an origin other "
         "than unknown, learned or expert, before anything in the graph has changed. Otherwise they add all the given edges with the given "
         "attributes (and weights), in the given direction, and record the given origin (unknown unless one is given) on every edge added "
         "whose own attributes do not name one. edges_with_origin lists exactly the edges recorded with that origin and changes nothing.",
         ["inputs", "histories"], "all graphs, edges, origins and sequences of calls",
         "tests add a few edges; an origin lost on re-adding an edge, or validated too late, needs a particular sequence",
         [SM], [("constructor", "StructureModel.__init__"), ("adding edges", "add_edge, add_edges_from, add_weighted_edges_from"),
                ("listing", "edges_with_origin")], SYM, BASE,
         "Raise conditions equal `origin not in the three words` and precede the call of the graph library; that call is unconditional and "
         "receives the edges, weight name, attributes and the origin; the constructor writes the origin on every edge after loading the "
         "data; the listing filters on equality of the recorded origin."),
    prop("C25", "Thresholding and subgraphs select exactly the edges and nodes they promise",
         "remove_edges_below_threshold removes exactly the edges whose absolute weight is less than the threshold, and nothing else. "
         "threshold_till_dag removes, while the graph has a cycle, one edge of smallest absolute weight, and nothing else. "
         "get_target_subgraph returns an independent copy of the weakly connected component that contains the node and raises NodeNotFound "
         "exactly for nodes not in the graph; get_largest_subgraph returns an independent copy of the weakly connected component with the "
         "most edges, or None if there is no edge. Neither changes the graph.",
         ["inputs"], "all weighted graphs, thresholds and nodes",
         "tests have few edges and no ties, negative weights at the threshold, or components where node and edge counts disagree",
         [SM], [("thresholds", "remove_edges_below_threshold, threshold_till_dag"), ("subgraphs", "get_target_subgraph, get_largest_subgraph")],
         SYM, BASE,
         "The removal calls with their loops, conditions and arguments, the returned terms of the two subgraph methods (loop-carried "
         "maximum with its start value and comparison), and the raise conditions are compared with the reference ones in several spellings."),
    prop("C26", "Linear structure learning never yields a forbidden edge or a self-loop",
         "from_numpy and from_numpy_lasso pin every diagonal weight, every tabu edge (source, target), every weight leaving a tabu parent "
         "node and every weight entering a tabu child node to zero, and leave every other weight free (for the lasso variant: both signs "
         "non-negative without an upper limit). The returned adjacency matrix reads each weight at the position its bounds describe, row = "
         "source and column = target. from_pandas and from_pandas_lasso translate the tabu lists from column names to those positions.",
         ["inputs"], "all data, numbers of variables and combinations of tabu edges, parents and children",
         "tests forbid a few edges that often would not be learned anyway; a transposed or dropped bound shows only for particular data",
         [NT], [("bounds", "from_numpy, from_numpy_lasso"), ("optimiser call and unpacking", "_learn_structure, _learn_structure_lasso"),
                ("translation", "from_pandas, from_pandas_lasso")],
         SYM + "; index algebra over the layout of the optimised vector", BASE,
         "The list of bounds given to the optimiser is read as a tree of counted loops; block sizes are compared as polynomials in d and the "
         "condition of each bound by truth table with the required one. The returned matrix is traced back to offsets and strides in the "
         "optimised vector. The tabu arguments of the pandas variants are compared with position translations over the frame's columns."),
    prop("C27", "Dynamic structure learning never yields a forbidden edge",
         "from_numpy_dynamic pins, for the intra-slice weights, self-loops, tabu edges of lag 0, edges from tabu parents and edges into tabu "
         "children to zero, and for the weights of lag k the tabu edges of lag k, edges from tabu parents and edges into tabu children "
         "(self-dependence across lags stays allowed); every other weight is free, both signs non-negative. Each non-zero weight becomes "
         "the edge from {source}_lag{k} to {target}_lag0 with exactly that weight, and all lagged nodes exist. from_pandas_dynamic "
         "translates the tabu lists from column names to positions.",
         ["inputs"], "all data, numbers of variables, numbers of lags and tabu lists",
         "tests use few lags and variables; a mix-up of the packing order between bounds and weights needs two or more lags to show",
         [DT], [("bounds", "from_numpy_dynamic"), ("packing", "_reshape_wa"), ("edges", "_matrices_to_structure_model")],
         SYM + "; index algebra over the layout of the optimised vector", BASE,
         "As for the linear learners, with blocks 2·d·d (lag 0) and p times 2·d·d; the matrices handed to the structure must read the same "
         "positions, and the edges added are compared with the reference loops after splitting stacked row numbers into lag and variable."),
    prop("C28", "Structures learned from data frames name every node by its column",
         "from_pandas, from_pandas_lasso and from_pandas_dynamic learn from the values of all columns in the frame's order and pass every "
         "option on under its own name. The result has all columns (or all column_lag{k} names) as nodes, every learned edge between the "
         "columns it was learned for with its weight, and origin 'learned'. The data frames and tabu lists are not modified.",
         ["inputs"], "all frames (any column labels and order), series lists and options",
         "tests use default options and columns whose labels equal their positions or sort order",
         [NT, DT], [("names and options", "from_pandas, from_pandas_lasso, from_pandas_dynamic")], SYM + "; effect analysis", BASE,
         "Arguments of the learner call and the node and edge additions of the result are compared with the reference forms; effect analysis "
         "for the inputs."),
    prop("C29", "Learners reject unusable data before learning",
         "from_numpy, from_numpy_lasso and their pandas variants raise ValueError exactly for empty data, NaN or infinite values (and "
         "non-numeric columns); from_numpy_dynamic exactly for an empty X or Xlags, differing numbers of rows, or a number of lagged columns "
         "that is not a multiple of the number of variables. The check precedes the optimisation.",
         ["inputs"], "all arrays and frames",
         "tests try one bad value; the conditions must be exact for every position and combination",
         [NT, DT], [("validation", "from_numpy, from_numpy_lasso, from_pandas, from_pandas_lasso, from_numpy_dynamic")],
         SYM + " (path conditions of the raise statements compared by truth table)", BASE,
         "The path condition of ValueError must be equivalent to the required one and the raise must precede the call of the optimiser."),
    prop("C30", "Learners warn when not converged and drop exactly the weights below threshold",
         "The optimisation loop of from_numpy, from_numpy_lasso and from_numpy_dynamic stops early exactly when the acyclicity value is "
         "within h_tol, and warns exactly when the last of max_iter iterations ends with a value above h_tol. Before the structure is built, "
         "exactly the weights whose absolute value is below w_threshold (of every returned matrix) are set to zero.",
         ["inputs"], "all data, tolerances, iteration limits and thresholds",
         "needs runs that fail to converge in the last iteration, and negative weights near the threshold",
         [NT, DT], [("loop", "_learn_structure, _learn_structure_lasso, _learn_dynamic_structure"), ("threshold", "w_est[abs(w_est) < w_threshold] = 0")],
         SYM, BASE + " Whether the weights equal to the threshold are kept is not fixed (the learners differ).",
         "The warning's path condition, the loop's exit condition, and the key, value and position of the thresholding write are compared "
         "with the required ones."),
    prop("C31", "The dynamic transformer lines up every row with exactly its own past",
         "DynamicDataTransformer.transform cuts every series where its time index jumps by more than one, and within each stretch (never "
         "across one) puts beside every row from the p-th on the rows 1 to p steps before it. With return_df the columns are named "
         "{column}_lag0 in fitted order, then {column}_lag{k} lag by lag, in the order of the values; otherwise the pair X, Xlags is returned. "
         "Columns are selected by name in the order of the fit. fit and transform reject empty lists, non-frames, non-numeric columns, "
         "differing columns or types, unordered or non-integer indices, and transform missing columns or use before fit; a rejected fit "
         "changes nothing. The series are not modified.",
         ["inputs"], "all lists of series, gaps in the time index, numbers of lags and column orders",
         "tests use few lags and one gap; an off-by-one at a gap or a swapped lag order needs other series to show",
         [TR], [("validation", "DynamicDataTransformer.fit, transform"), ("windows and names", "DynamicDataTransformer.transform")],
         SYM + "; effect analysis", BASE + " Index steps below one (repeated time stamps) are not judged.",
         "The arrays returned are normalised to windows of rows with polynomial bounds, stacked over lags and stretches, and compared with the "
         "reference; column names likewise. Every validation is compared on its own, with all other tests assumed to pass."),
    prop("C32", "The library only refers to names, arguments and attributes that exist",
         "In every module: each name resolves to a definition, an import or a builtin; what is imported from causalnex exists there; no local "
         "variable is used on a path where nothing can have assigned it; every call of one of the library's own functions, methods or "
         "constructors fits its signature; attributes read from self are set somewhere; message templates receive every field they use; only "
         "exceptions are raised or caught; and functions whose result is used (or declared) return one. So no operation, its error paths "
         "included, ends in a NameError, UnboundLocalError, AttributeError, KeyError or TypeError of the library's own plumbing.",
         ["inputs"], "every function, branch and error path of the package",
         "error paths and rare branches are seldom executed by a test; a message template without its field turns a clear error into a KeyError",
         [EB, INF, NET, EV, SM, NT, DT, TR], [("scoping and signatures", "every function of every module")],
         "scope resolution (symbol tables), definite-unassignment dataflow, call binding against resolved signatures, attribute-definition check",
         "Calls through values whose class is not known, attributes of classes with bases outside the package, and third-party APIs are not judged.",
         "Scopes come from Python's symbol tables; assignments flow forward through branches, loops, handlers; callees are resolved through "
         "imports, method resolution order and super(); templates are parsed with string.Formatter."),
    prop("C33", "The discretiser puts every value in the bucket its split points define",
         "Discretiser(...) raises ValueError exactly for an unknown method, a missing argument of the method, an outlier_percentile outside "
         "[0, 0.5), percentile split points outside [0, 1], or unsorted split points, and keeps its arguments as given. fit sets the split "
         "points of its method from all the data: uniform min + i*(max-min)/k, quantile the i/k quantiles (i = 1..k-1), outlier the p and 1-p "
         "quantiles, percentiles the given quantiles; it returns the discretiser and raises RuntimeError for method fixed, whose points it "
         "never touches. transform gives each value the number of split points at most equal to it. Neither changes the data.",
         ["inputs"], "all methods, argument combinations, data and numbers of buckets",
         "tests use a few data sets; boundary values, two buckets, repeated fits and aliasing of the caller's array need particular inputs",
         ["causalnex/discretiser/discretiser.py"], [("arguments", "Discretiser.__init__"), ("split points", "Discretiser.fit"), ("buckets", "Discretiser.transform")],
         SYM + " with an arithmetic normal form (Laurent polynomials over order statistics, element-wise ranges)", BASE +
         " The interpolation numpy uses between data points is taken from numpy's default.",
         "Raise conditions are compared with the required disjunction; split points per method with reference terms after normalising "
         "arithmetic, ranges, sorting and spelling of the order statistics; effects on the data by alias analysis."),
    prop("C34", "NOTEARS-MLP learning checks its data and sets the model up as documented",
         "structure.pytorch.from_numpy raises ValueError exactly for empty data, for data check_array rejects (NaN, infinity), and for a "
         "dist_type_schema whose keys are not exactly the column positions. Each column gets the distribution type its schema entry names "
         "(continuous without schema). Each type in turn preprocesses the data, then the tabu edges and nodes, on the results of the type before it; "
         "hidden_layer_units defaults to [0] when None or empty. A weight's bounds are (0, 0) on the diagonal and for tabu edges, tabu parents and tabu "
         "children and (None, None) otherwise, one per weight of the first layer in its flattened order. The options reach the model and the caller's data is unchanged.",
         ["inputs"], "all data, schemas, tabu sets and options",
         "no test of this module runs without torch; schemas with several types, tabu sets next to expanded columns and bounds layouts need particular combinations",
         [PT], [("checks, types, preprocessing, bounds", "from_numpy")],
         SYM, BASE + " torch's and scikit-learn's own behaviour is taken as documented.",
         "The normal forms of the checks, of the per-type loops (as folds) and of the arguments that reach the learner are matched on every path."),
    prop("C35", "NOTEARS-MLP's structure carries names, weights, effects and types of its nodes",
         "The structure structure.pytorch.from_numpy returns has one edge per non-zero entry of the learned adjacency, origin learned, its weight the "
         "entry and its mean_effect the mean-effect entry at the same position; each node has its bias (if learned) and the distribution type(s) of its column; edges at or "
         "below w_threshold are removed; the learner and the graph with categories collapsed are attached. from_pandas rejects non-numeric "
         "columns, turns named tabu edges, nodes and schema into positions, and relabels nodes, edges, attributes and the collapsed graph to the "
         "column names, without sharing the caller's objects.",
         ["inputs"], "all data, column names and options",
         "no test of this module runs without torch; attributes of nodes and edges after relabelling need particular names and types",
         [PT], [("graph and attributes", "from_numpy"), ("names", "from_pandas")],
         SYM, BASE + " torch's and pandas' own behaviour is taken as documented.",
         "Events building the returned graph (nodes, edges, attributes, thresholding) are compared by normal form with reference events on every path."),
    prop("C36", "NOTEARS and DYNOTEARS minimise their documented score with its own gradient",
         "For the data, notears minimises 1/(2n)*|X - XW|^2 (Frobenius norm), the lasso variant adds beta times the sum of the split weights, DYNOTEARS minimises "
         "1/(2n)*|X - XW - Xlags*A|^2 plus lambda_w and lambda_a times the split intra- and inter-slice weights; each adds rho/2*h^2 + alpha*h with h = trace(exp(W o W)) - d. "
         "The gradient handed to the optimiser is the exact derivative of that score, entry by entry, in the order of the vector. rho starts at 1 and grows tenfold while h has "
         "not dropped to a quarter of the last round's h (up to 1e20), alpha starts at 0 and grows by rho*h after a round, every attempt starts from the last round's "
         "solution, and the rounds end once h <= h_tol or after max_iter of them. Evaluating the score changes neither the data nor the vector.",
         ["inputs"], "all data, sizes, lags and penalties",
         "a wrong gradient or penalty still converges to something on small examples; no test of this module runs in the sandbox's suite",
         [NT, DT], [("scores", "_learn_structure"), ("dynamic score", "_learn_dynamic_structure")],
         "symbolic matrix calculus over the abstract values of the callbacks", BASE + " numpy's and scipy's documented matrix functions are taken as such.",
         "The callbacks given to scipy.optimize.minimize are interpreted once with a symbolic vector; score and gradient become polynomials in traces of matrix "
         "words, Hadamard products, matrix exponentials and norms. The score is compared with the documented one, and its derivative, taken by rule, with the gradient, "
         "block by block with each block's place in the vector. The loops' carried variables are compared with the reference rounds."),
    prop("C37", "Random structures are acyclic, of the type asked for, weighted in range",
         "generate_structure returns a graph over num_nodes nodes with no directed cycle for every graph type: edges are drawn in the strict lower triangle only (each with "
         "probability degree/(num_nodes-1), or by preferential attachment to the nodes before, or all of them) and the nodes are then permuted as rows and columns alike. "
         "Every edge's weight has a magnitude between |w_min| and |w_max| and a random sign. Fewer than two nodes, an unknown graph type and |w_min| > |w_max| raise ValueError.",
         ["inputs"], "all sizes, degrees, graph types and weight ranges",
         "a diagonal entry or a permutation of rows only gives a cycle in some draws; no test of this module runs in the sandbox's suite",
         [DG], [("structure", "generate_structure")], SYM, BASE,
         "The returned model's matrix, every write into the edge flags, the weights and the bag of nodes, what a round of attachment hands to the next, and the conditions of "
         "each ValueError are compared with the reference in normal form; each random draw appears as often, under the same conditions."),
    prop("C38", "Generated data follow the structural equations, type by type",
         "sem_generator and nonlinear_sem_generator produce each node's values from its parents' values only, parents first: the weighted sum plus intercept (one per feature), or a "
         "Gaussian process sample with the given kernel, unit variance and batches conditioned on the batch before; then noise of the distribution asked for (standard deviation 1 for "
         "root nodes) and the type's link: sign for binary with both classes in at least 5%, one-hot argmax for categories, zero-inflated Poisson for counts. Given edge weights are "
         "used, missing ones drawn; the same seed gives the same draws; the graph, schema and distributions passed in are unchanged. Cycles, unknown distributions and zero inflation "
         "outside [0, 1] raise ValueError.",
         ["inputs"], "all graphs, schemas, distributions, kernels, noise levels and seeds",
         "sampled data look plausible whatever column a weight or a parent comes from; no test of this module runs in the sandbox's suite",
         [DG], [("linear", "sem_generator"), ("non-linear", "nonlinear_sem_generator")], SYM,
         BASE + " With and without intercept are two analyses. The distributions themselves are the random library's.",
         "Every write of node values, edge weights and intercepts is compared with the reference equations (per variable type, with its conditions), as are the values handed from "
         "batch to batch, the loop conditions of the count sampler, the returned columns, the ValueError conditions, the number of draws and the seeding before the first draw."),
    prop("C39", "Variables and features are mapped to each other without loss",
         "validate_schema gives exactly the graph's nodes their type or the default, and rejects unknown types and categories without a number. The mapper puts binary, "
         "continuous and count variables first and then one feature per category, numbered in that order; a variable's indices are the places of its own features, features, types "
         "and names are looked up consistently, and what the mapper does not know raises ValueError. Neither changes the schema or the mapper.",
         ["inputs", "histories"], "all schemas, node names and look-ups",
         "an index off by one or a type order swapped shows only for mixed schemas; no test of this module runs in the sandbox's suite",
         [CM], [("schema", "validate_schema"), ("mapper", "VariableFeatureMapper")], SYM, BASE,
         "The validated schema, the feature list, the index table and the answer and exception conditions of each look-up are compared with the reference after both are expressed over "
         "the schema's entries; may-alias effects show that look-ups change nothing."),
    prop("C40", "Data generation helpers ask for the type, noise and columns they promise",
         "generate_continuous/binary/count/categorical_data(frame) use the linear model without a kernel and the kernel's otherwise, for all nodes with their type, passing on sample "
         "size, distribution (or zero inflation), noise, intercept, seed and kernel; the categorical one asks for n_categories classes. The array variants return the columns in the "
         "order of the graph's nodes.",
         ["inputs"], "all graphs, sizes, distributions and kernels",
         "a parameter that is dropped falls back to a default that most calls use; no test of this module runs in the sandbox's suite",
         [DW], [("helpers", "generate_continuous_data, generate_binary_data, generate_*_dataframe")], SYM, BASE,
         "The calls of the generators, with every argument, and the returned columns are compared with the reference under both kernel cases."),
    prop("C41", "Generated time series obey their network and come from stationary trials",
         "generate_structure_dynamic has every node at lags 0..p, weighted edges only from lagged nodes to present ones or among present ones (acyclic), inter-slice weights "
         "drawn in range and divided by w_decay**(lag-1). generate_dataframe_dynamic computes each present value from drift, present parents, lagged parents and noise, every lag column "
         "holding the past of its own variable, and returns n_samples rows after the burn-in. gen_stationary_dyn_net_and_df passes its arguments on, uses up one trial each time, drops "
         "the burn-in, and returns a constant frame with a warning only when no trial is left; unknown types raise ValueError.",
         ["inputs"], "all sizes, lags, graph types and noise types",
         "lags written to the wrong columns only show with two or more lags and are statistically plausible; no test of this module runs in the sandbox's suite",
         [DW], [("network", "generate_structure_dynamic"), ("series", "generate_dataframe_dynamic"), ("trials", "gen_stationary_dyn_net_and_df")], SYM, BASE,
         "The nodes and edges added, the matrices written, the value of each time step, the history handed from step to step and the result are compared with the reference; for the "
         "trials: arguments, rows asked for and kept, result order, the counter's update and the condition of the constant frame."),
    prop("C42", "DAG estimators learn the structure their parameters ask for",
         "DAGRegressor/DAGClassifier.fit hand from_pandas the features followed by the target, their distribution types (the target's own; features continuous by default), alpha, "
         "beta, threshold, tabu edges, children and parents (with the target added when it is dependent), hidden units, intercept and extra arguments. With standardize, exactly the "
         "continuous columns and a continuous target are scaled, and the scalers kept; a DAG is enforced exactly if asked. Classes are encoded; one class is an error. X, y and "
         "the constructor's parameters are never changed; bad parameters are rejected.",
         ["inputs"], "all data, schemas and parameter combinations",
         "aliasing of the caller's data and combinations of options only show in particular inputs; no test of this module runs in the sandbox's suite",
         [SB, SC, SR], [("fit", "DAGBase.fit"), ("classes", "DAGClassifier.fit"), ("target", "DAGRegressor.fit")], SYM, BASE,
         "Each argument of from_pandas, each write into the prepared data, each attribute kept, the order of the steps and what the writes may alias are compared with the reference."),
    prop("C43", "DAG estimators predict and report from the fitted structure",
         "predict scales the columns fit scaled with fit's scaler (without touching X or truncating integers), reconstructs the data, reads off the target's columns and undoes the "
         "target's scaling exactly if it was scaled. predict_proba gives one column per class, predict the class of highest probability. coef_ are mean effects and "
         "feature_importances_ weights of the edges into the target (zero without an edge, one row per class), intercept_ the target's bias or zero.",
         ["inputs", "histories"], "all fitted estimators and data",
         "wrong units, columns or classes give plausible numbers; no test of this module runs in the sandbox's suite",
         [SB, SC], [("predict", "DAGBase.predict"), ("proba", "DAGClassifier.predict_proba"), ("edges", "DAGBase.get_edges_to_node")], SYM, BASE,
         "Results and writes, as terms over the input and the fitted state, are compared with the reference."),
    prop("C44", "Distribution types encode columns, tabu constraints and names alike",
         "A categorical column becomes one column per category: the first in its place, the others at the end in order. Tabu edges, tabu nodes, names and nodes of the column extend to all "
         "categories, and edges between categories are tabu. Ordinal columns become positions with thresholds the log cumulative odds of fitted data; Poisson columns must not be negative. "
         "Encoders are fitted only when asked, and inputs (data, tabu lists) are not modified.",
         ["inputs"], "all data, column types and tabu constraints",
         "a tabu edge of one category or a shifted column index shows only for particular data; the suite has no test of it",
         [DB, DC, DO, DP, DI], [("columns", "DistTypeCategorical.preprocess_X"), ("tabu", "ExpandColumnsMixin.update_tabu_edges"), ("thresholds", "DistTypeOrdinal.preprocess_X")], SYM, BASE,
         "What each method returns and writes, as terms over data and stored state, is compared with the reference; writes to inputs are effects on parameters."),
    prop("C45", "Distribution types score and transform predictions by their own law",
         "loss is half the mean squared error (continuous), the mean cross entropy of logits (binary) or categories (categorical), the mean Poisson likelihood of log rates, or the mean likelihood "
         "of ordered categories; loss changes neither data nor predictions. inverse_link_function maps only the type's own columns (sigmoid, softmax, exp) and hands on all others. "
         "modify_h and collapse_adj add the edges of all categories to those of the column.",
         ["inputs"], "all data, predictions and column types", "a wrong axis or a lost column gives plausible numbers; torch is not installed where the suite runs",
         [DI, DC, DN, DO, DP], [("loss", "DistTypeCategorical.loss"), ("link", "DistTypeBinary.inverse_link_function"), ("cycles", "DistTypeCategorical.modify_h")], SYM, BASE,
         "Results and in-place writes, in one spelling of torch, numpy and arithmetic, are compared with the reference."),
    prop("C46", "The NOTEARS network computes its documented predictions and strengths",
         "forward applies the first layer, then per hidden layer sigmoid, layer normalisation and each node's own weights; _h_func is tr((I + W∘W/d)^d) - d over the original columns after every "
         "type's modify_h; the l1 and l2 terms are means times the number of features. adj and adj_mean_effect run from parent to child. reconstruct_data encodes without refitting, predicts, "
         "and applies every link. fit steps until h <= h_tol or rho >= rho_max.",
         ["inputs", "histories"], "all networks, weights and data", "a transposed matrix or a refitted encoder gives numbers of the right shape; torch is not installed where the suite runs",
         [CO, NL], [("predict", "NotearsMLP.forward"), ("acyclicity", "NotearsMLP._h_func"), ("strength", "NotearsMLP._calculate_adj"), ("fit", "NotearsMLP.fit")], SYM, BASE,
         "Results, writes, loop-carried values and stop conditions, as terms, are compared with the reference."),
    prop("C47", "A step of NOTEARS training minimises its augmented Lagrangian within bounds",
         "A dual ascent step minimises the sum of all types' losses plus rho/2·h² + alpha·h plus the ridge and lasso terms, over the flat vector of all parameters, with gradient propagated from "
         "that same objective (cleared before, read after) and each parameter's own bounds in the same order. rho grows tenfold while h stays above a quarter of the last; alpha moves by rho·h; "
         "the h returned is that of the parameters found.",
         ["inputs", "histories"], "all data, penalties, bounds and states of the optimiser",
         "a gradient or bound in the wrong place still converges to something; torch is not installed where the suite runs",
         [CO], [("step", "NotearsMLP._dual_ascent_step")], SYM, BASE,
         "The function handed to the optimiser is interpreted over a symbolic vector; its value, gradient, writes and the order of its effects are compared with the reference."),
    prop("C48", "Plots leave the structure alone and override attributes in documented order",
         "plot_structure returns a styled copy and never changes the structure or the shared style tables. Every node carries the default, all-node, label and specific attributes, later ones "
         "overriding earlier ones; edges and the graph likewise. A colour gradient has steps + 1 colours with equal shares, starts at from_color, ends exactly at to_color, and treats "
         "a colour without alpha as opaque. display_plot_ipython and display_plot_mpl draw the plot they are given with the layout program asked for, the latter on the axes given or on new ones.",
         ["inputs"], "all structures, attribute tables, colours, step counts and layout programs",
         "a wrong override order or a mutated default table shows only for overlapping attributes or on the second call; pygraphviz is not installed where the suite runs",
         [PP, PD], [("plot", "plot_structure"), ("gradient", "color_gradient_string"), ("display", "display_plot_ipython")], SYM, BASE,
         "The attribute tables handed to the plot are compared as merged dictionaries with the documented order; effects on the structure and on module tables are excluded; the gradient's bounds and steps are compared as terms."),
    prop("C49", "No call leaves traces in shared tables, defaults or process-wide settings",
         "Calling a function, method or constructor of the package leaves module tables, class attributes and default arguments as they were: two objects built with default arguments share no state "
         "that either changes, and a second call with the same arguments does not depend on the first. No call changes process-wide settings (warning filters, library options, environment, "
         "numerical error modes, the seed of a random generator), except np.random.seed with a seed the caller passed. Remembered (cached) results depend on nothing that can change and are not shared mutable objects.",
         ["inputs", "histories"], "all functions of the package, all sequences of calls",
         "the first call looks right: only a later call, in a history no test runs, sees what an earlier one left behind",
         [EB, "causalnex/ebaybbn/graph.py", DG, SB], [("graph", "Node.__init__"), ("bbn", "build_bbn"), ("network", "BayesianNetwork.__init__"), ("sampling", "generate_structure")], SYM, BASE,
         "Every function is interpreted on its own; the may-alias roots of every mutation are computed, and none may be a module table, class attribute or default; attributes that hold a shared object are "
         "matched with all changes of an attribute of that name; settings are looked up in the resolved calls and assignments of the source."),
]


def na(id, title, statement, over, text, why, files, reason):
    return dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                anchors={"files": list(files), "mechanism": [{"name": "computation", "where": files[0]}]}, reason=reason)


NOT_APPLICABLE = [
    na("N01", "Probabilities agree with exact arithmetic up to rounding",
       "Marginals, likelihoods and learned probabilities differ from their exact values by no more than accumulated rounding.",
       ["inputs"], "all networks and data", "tests compare a few networks with a tolerance", [EB, INF, NET],
       "rounding depends on run-time magnitudes; no static bound in reach (the formulas themselves are C03, C04, C06, C18)"),
    na("N02", "Structure learning converges to an acyclic optimum",
       "For data that fit a model, the learners end with h below the tolerance at a local optimum of the score.",
       ["inputs"], "all data and penalties", "tests sample a few data sets", [NT, DT, PT],
       "convergence of numerical optimisation on run-time data is not decidable from the source (score, gradient, rounds and the warning are C30, C36)"),
    na("N03", "Samples follow the distributions asked for",
       "Data drawn from a network or a structural model have the joint distribution it defines.",
       ["inputs"], "all models", "statistical tests have limited power", [EB, DG],
       "a statement about the random library's outputs; the use of each draw is C09, C37, C38, C41"),
    na("N04", "Score of a classifier's report reflects its predictions numerically",
       "ROC curves and areas equal those of the pooled scores.",
       ["inputs"], "all models and test data", "computed by scikit-learn", [EV],
       "the curve is computed by an external library at run time; which columns and truths it receives is C23"),
    na("N05", "Queries finish in time and memory linear in the join tree",
       "Inference takes no more than the cost of its largest clique.",
       ["inputs"], "all networks", "tests use tiny networks", [EB],
       "cost depends on run-time sizes; termination of the loops is C10, the elimination order C11"),
]
