"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
R = "Python/research/scripts/relnet/"
D = "Python/research/scripts/demo/"
E = "Python/research/scripts/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "A sample's identity is exactly its content",
  "Two samples of one network compare equal, hash alike and replace each other as set members and dictionary keys exactly when they hold the same valued nodes and the same relations between the same nodes (including a relation's direction), however and in whatever order each was constructed. The name given to a sample never affects its identity, and samples with different content are never confused, even when their printed text coincides.",
  ["inputs", "histories"], "every pair of samples over every vocabulary of hashable labels and every construction route (relation by relation, whole edge set, joining, value replacement, extending an existing sample, reversed orders)",
  "The tests compare a handful of hand-written samples with string labels built one way; they do not vary route, order or label type.",
  [R+"sample_graph.py", R+"graph_components.py"],
  [("content-based equality and hashing", R+"sample_graph.py SampleGraph.__eq__/__hash__"), ("component interning", R+"graph_components.py BuilderComponentsProvider.get_node/get_edge")],
  ["sample ==, hash(), set/dict membership"])

p("C02", "Construction accepts exactly the valid samples and builds what was asked",
  "A sample under construction accepts a relation exactly when it joins two declared values of two different declared variables, the relation is declared (a directed one running between those two variables), that pair of nodes is not already related, and the sample stays connected; everything else is refused with an error. A whole edge set given to a fresh builder is accepted exactly when its edges satisfy the same rules together, at most one relation per pair and, unless the caller waives the check, forming one connected graph. The built sample contains exactly the nodes and relations that were accepted, and its stated variables, values and single-node/empty flags agree with them.",
  ["inputs", "histories"], "every sequence of valid and invalid construction requests over every vocabulary",
  "Tests exercise one or two refusals per method on fixed graphs; acceptance must be exact for every graph shape, label and sequence.",
  [R+"sample_graph.py", R+"graph_components.py"],
  [("endpoint, vocabulary and connectivity validation", R+"sample_graph.py SampleGraphBuilder.add_relation/build_from_edges/is_edges_connected/validate_endpoints"), ("vocabulary checks", R+"graph_components.py BuilderComponentsProvider.get_node/get_edge")],
  ["result or error of each construction call", "nodes, edges, variables, values, flags of the built sample"])

p("C03", "Joining samples yields exactly their union, or is refused",
  "Joining a sample into a sample under construction produces exactly the union of both node sets and both relation sets whenever the two share at least one node (or nothing was added yet), agree on the value of every variable they share, and never put different relations between the same two nodes. In every other case the join is refused with an error, and the outcome does not depend on the order in which compatible samples are joined or on the order of relations inside them. Joining all samples of a set succeeds exactly when their union is connected and consistent, whatever order they were added in, and yields that union with the counts of all of them. The pre-check for relation conflicts answers true exactly when no pair of nodes carries different relations in the two, and the value pre-check of a set of samples answers true exactly when no two of them disagree on a shared variable.",
  ["inputs", "histories"], "every sequence of samples joined into one builder, every set of samples joined as a whole",
  "Tests join two or three tiny samples; the internal multi-round edge attachment depends on iteration order and graph shape that they never vary.",
  [R+"sample_graph.py", R+"sample_set.py"],
  [("round-based edge attachment with conflict checks", R+"sample_graph.py SampleGraphBuilder.join_sample/can_sample_be_joined"), ("joining a whole set", R+"sample_set.py SampleSet.make_joined_sample/can_join_samples/is_all_values_match")],
  ["built sample after join", "error of refused join", "conflict pre-check result"])

p("C04", "Built objects are immutable snapshots",
  "Once a sample, sample set, relation graph, conditional graph, folded graph or activation graph has been built, nothing done later - continuing to use or reusing the builder it came from, builders derived from it, copies of builders, editing collections it returned or collections passed to create the network, or running any query on it - changes anything observable about it. Builders derived or copied from one another evolve independently of each other.",
  ["histories"], "every interleaving of builds with later operations on shared builders, copies and returned collections",
  "Aliasing shows only after a later operation on a different object; tests build an object, look at it once and drop it.",
  [R+"sample_graph.py", R+"sample_set.py", R+"sample_space.py", R+"relation_graph.py", R+"graph_components.py"],
  [("copy on build / copy on derive", R+"sample_set.py SampleSet.__init__/SampleSetBuilder.__init__/copy; "+R+"sample_graph.py SampleGraphBuilder.build/__copy__; SampleGraph.builder"), ("fresh result collections", R+"sample_set.py Samples.items/samples")],
  ["full observable snapshot of every live object, re-taken after every later operation"])

p("C05", "A refused operation leaves no trace",
  "When adding a relation, building from an edge set, joining a sample, adding or removing one outcome, generating all outcomes on a non-empty builder, or replacing values is refused with an error, the object it was called on behaves afterwards exactly as if the refused call had never been made. In particular a failed join or a failed edge-set build adds none of its nodes or relations, and later valid operations succeed or fail as they would have without it.",
  ["histories", "inputs"], "every history that mixes refused and accepted operations",
  "Tests check that the error is raised and then discard the object; partial effects appear only in what follows.",
  [R+"sample_graph.py", R+"sample_set.py", R+"relation_graph.py"],
  [("validate before mutate", R+"sample_graph.py SampleGraphBuilder.add_relation/join_sample/build_from_edges; "+R+"sample_set.py SampleSetBuilder.add/remove; "+R+"relation_graph.py RelationGraphBuilder.add_outcome")],
  ["object state before and after each refused call", "continuation of the history"])

p("C06", "Outcome counting is exact over every history",
  "After any history of adding (one or many), removing (one or many), merging, copying, filtering and searching, each sample set reports for every distinct sample exactly the sum of the counts added and not removed, its length is the exact sum of its counts, and probabilities are count divided by length and sum to one. Two sample sets are equal (and then hash alike) exactly when they hold the same samples with the same counts, merging is commutative and associative, and counts stay exact integers at any magnitude. Membership questions about values and variables agree with the contents.",
  ["histories", "inputs"], "every sequence of multiset operations and every count magnitude",
  "Tests run one operation on two or three samples with small counts.",
  [R+"sample_set.py", R+"sample_space.py", R+"relation_graph.py"],
  [("count accumulation", R+"sample_set.py SampleSetBuilder.add/add_all/remove/remove_all, SampleSet.union/filter_samples/probabilities/probability_of"), ("outcome accumulation", R+"relation_graph.py RelationGraphBuilder.add_outcome/add_outcomes/build_sample"), ("search", R+"sample_space.py SampleSpace.find_for_values")],
  ["contents, length, equality, hash, probabilities after every operation"],
  [("count map", "sample -> multiplicity", R+"sample_set.py Samples._samples")])

p("C07", "Generating all outcomes enumerates every connected sample exactly once",
  "Generating all possible outcomes of a network yields every connected sample graph over its variables - one value per included variable, at most one declared relation per pair of nodes, including all single-node samples - exactly once with count one, and nothing else. Generation is refused on a builder that already holds outcomes. The identifiers a builder hands out are integers that never repeat.",
  ["inputs", "configurations"], "every vocabulary (numbers of variables, values per variable and relations, any labels)",
  "Tests compare against a literal list for a couple of vocabularies; the odometer and value replacement loops must be right for every shape.",
  [R+"relation_graph.py", R+"sample_graph.py"],
  [("edge-configuration odometer and value replacement", R+"relation_graph.py RelationGraphBuilder.generate_all_possible_outcomes"), ("value replacement", R+"sample_graph.py SampleGraph.transform_with_replaced_values")],
  ["the generated outcome set and counts"])

p("C08", "Conditioning keeps exactly the outcomes consistent with the evidence",
  "Conditioning a relation graph on an evidence sample keeps, with unchanged counts, exactly the outcomes that contain the whole evidence (all its nodes and all its relations) or share no variable with it, and drops every other outcome. The evidence is remembered unchanged, conditioning on the same evidence again changes nothing, and on outcomes that mention all evidence variables conditioning on two overlapping evidences one after the other equals conditioning on their union.",
  ["inputs", "histories"], "every relation graph and every evidence sample",
  "Tests use one small graph and two evidences.",
  [R+"relation_graph.py", R+"conditional_graph.py", R+"sample_graph.py"],
  [("subgraph-or-disjoint filter", R+"relation_graph.py RelationGraph.conditional_graph"), ("containment", R+"sample_graph.py SampleGraph.is_subgraph")],
  ["outcomes of the conditional graph"])

p("C09", "Marginal probabilities are exact relative frequencies",
  "For every requested variable that occurs in the outcomes, the reported marginal of each of its values equals the total count of outcomes holding that value divided by the total count of outcomes holding the variable; with unobserved mass requested, the divisor is the total count of all outcomes and the remaining share is reported as unobserved. Variables that were not requested or never occur are not reported, every reported distribution sums to one, and values that never occur get no probability. This holds for every non-empty relation or conditional graph whose outcomes give each variable at most one value and whose values are not the reserved marker for unobserved.",
  ["inputs"], "every set of outcomes, counts of any size, any subset of requested variables, both modes, relation and conditional graphs",
  "Tests check one three-variable example with small counts.",
  [R+"sample_space.py"],
  [("group counts then normalise", R+"sample_space.py SampleSpace.marginal_variables_probability")],
  ["the returned distributions"])

p("C10", "The folded graph aggregates outcomes exactly",
  "The folded graph of any relation or conditional graph has exactly one node per variable that occurs and one edge per pair of variables related in some outcome; each node lists exactly the occurring values with their total counts, each edge exactly the occurring relations between values with their total counts, and nothing else. Each node's unobserved count is the total minus the counts of its values, and its marginal distribution gives every declared value its count divided by the total, plus the unobserved share, summing to one.",
  ["inputs"], "every set of outcomes and counts, on relation and conditional graphs",
  "Tests fold two small graphs.",
  [R+"sample_space.py", R+"folded_graph.py", R+"variables_graph.py"],
  [("node and edge accumulation", R+"sample_space.py SampleSpace.folded_graph"), ("marginals", R+"folded_graph.py FoldedNode.unobserved_count/marginal_distribution, FoldedGraph.folded_node")],
  ["nodes, edges, counts and marginals of the folded graph"])

p("C11", "Activation weights are the exact similarity-weighted frequencies",
  "For every conditional graph with non-empty evidence and outcomes, the activation graph has one node for every declared variable, listing every declared value; a value in the evidence weighs the share of outcomes containing it, any other value weighs the sum, over outcomes in which it is reachable from the evidence through relations allowed by the filter, of the outcome's count times its similarity to the evidence, divided by the total count. Each edge between variables lists every traversed relation (and every evidence relation) with the total count of the outcomes contributing it, and nodes and edges are marked as queried exactly when they belong to the evidence. Without a filter every relation is allowed.",
  ["inputs", "configurations"], "every conditional graph, evidence and relation filter",
  "Tests check literal weights on a few graphs without long paths, cycles or mixed filters.",
  [R+"conditional_graph.py", R+"activation_graph.py", R+"sample_graph.py"],
  [("weight accumulation", R+"conditional_graph.py ConditionalGraph.activation_graph"), ("layered reachability", R+"sample_graph.py SampleGraph.external_nodes/belt_nodes"), ("similarity", R+"sample_graph.py SampleGraph.similarity")],
  ["nodes, weights, edges, relation counts and query marks of the activation graph"])

p("C12", "Factorisation and grouping partition the outcomes and lose no count",
  "Grouping intersecting samples splits a sample set into disjoint groups that together hold every sample with its count, such that two samples are in one group exactly when a chain of samples links them in which neighbours relate a common pair of variables, single-node samples being grouped by their variable; each group is keyed by the variables it spans. Factorising does the same for a factorised space and is refused exactly when the space contains an empty outcome or two outcomes that relate a common pair of variables without relating the same pairs; the test for being factorised answers true exactly when factorising succeeds, and the test for being joined answers true exactly when all outcomes cover the same variables.",
  ["inputs"], "every sample set, any labels (also variables whose label is itself iterable), any overlap structure",
  "Tests group four or five samples with one-letter variables.",
  [R+"sample_set.py", R+"sample_space.py", R+"relation_graph.py"],
  [("transitive merge of groups", R+"sample_set.py SampleSet.group_intersecting"), ("factor split", R+"sample_space.py SampleSpace.factorized"), ("predicates", R+"relation_graph.py RelationGraph.is_factorized/is_joined")],
  ["groups, factors, predicates, refusals"])

p("C13", "Joining all factors gives exactly the product distribution",
  "For a factorised relation graph whose factors are linked through shared variables, making the joined graph yields exactly one outcome for every globally consistent choice of one outcome per factor - the union of the chosen outcomes - with count equal to the exact product of their counts, and no other outcome (so none at all when the factors contradict each other). Factors without shared variables are refused. The result is a joined distribution, does not depend on the order of outcomes or variables, and the original graph is unchanged.",
  ["inputs", "configurations"], "every factor graph (chains, trees, stars, cycles, cliques), any value sets, zero patterns and counts of any size",
  "Tests join two or three factors of a chain; loops, larger products and zero patterns are never tried.",
  [R+"relation_graph.py", R+"sample_set.py", R+"sample_space.py"],
  [("variable-by-variable elimination", R+"relation_graph.py RelationGraph.make_joined"), ("join of consistent samples", R+"sample_set.py SampleSet.can_join_samples/make_joined_sample, SampleSetBuilder.join_sample_set")],
  ["outcomes and counts of the joined graph"])

p("C14", "Joining on variables replaces exactly the matching outcomes by their products",
  "Joining a relation graph on one variable leaves every outcome that does not mention the variable untouched and replaces those that do by all unions of one outcome from each group of intersecting outcomes whose values all agree, each with the product of its members' counts (equal results accumulating). Joining a factorised graph on several variables gives the same as joining on them one after another in any order (as long as no step leaves a joined variable without an agreeing combination), and joining on no variable given means joining on all that occur. The original graph is unchanged and the result carries the requested name or else the original name.",
  ["inputs", "configurations"], "every relation graph and every variable or set of variables",
  "Tests join one two-factor chain.",
  [R+"relation_graph.py", R+"sample_set.py"],
  [("cross join of groups", R+"relation_graph.py RelationGraph.joined_on_variables"), ("grouping and value agreement", R+"sample_set.py SampleSet.group_intersecting/is_all_values_match")],
  ["outcomes and counts of the result"])

p("C15", "Inference agrees with exact Bayesian and Markov network inference",
  "When a connected Bayesian network (each family encoded as a star of directed relations, roots as single nodes) or a connected pairwise Markov network is encoded as factor outcomes with counts proportional to its tables, zero entries omitted, joining the factors, conditioning on any evidence of positive probability that the outcomes can express, and reading off the marginals gives exactly (up to floating-point rounding) the posterior distribution of every variable computed from the tables. Conditioning step by step on parts of the evidence gives the same posterior as conditioning at once.",
  ["inputs", "configurations", "histories"], "every network structure, table and evidence",
  "The repository only has manual experiment scripts with one fixed network each and no test of the whole chain.",
  [R+"relation_graph.py", R+"sample_space.py", R+"conditional_graph.py", "Python/research/scripts/experiments/comparing_with_bayes_network.py", "Python/research/scripts/experiments/comparing_with_markov_network.py"],
  [("join, condition, marginalise", R+"relation_graph.py RelationGraph.make_joined/conditional_graph; "+R+"sample_space.py marginal_variables_probability")],
  ["posterior marginals at the end of the chain"])

p("C16", "Structural queries on a sample answer exactly",
  "On every sample: containment in another sample, the value of a variable, presence of a value or variable, the neighbours of a node (optionally through given relations only) with the connecting relation, the belt around a set of nodes, all nodes reachable outward from a set of nodes with the relations that lead back to the previous layer, the part of the sample spanned by given variables, and the related variable pairs are exactly those of the underlying graph. Similarity is the size of the common content divided by the size of the combined content: symmetric, between zero and one, and one exactly for equal content. Replacing values returns the same structure with exactly the given variables' values substituted, leaving the original as it was.",
  ["inputs"], "every sample, node set, variable set and relation filter",
  "Tests use two small samples with string labels; layers, cycles, filters and falsy labels are not covered.",
  [R+"sample_graph.py"],
  [("graph queries", R+"sample_graph.py SampleGraph.is_subgraph/value_for_variable/neighboring_values/belt_nodes/external_nodes/variables_subgraph_hash/edges_endpoint_variables/similarity/transform_with_replaced_values/have_value/have_variable/values/single_node_variable")],
  ["returned values"])

p("C17", "Networks do not mix: components of one network are refused by another",
  "A sample, evidence or sample set created in one network is refused by every operation of another network that would combine them (adding outcomes, joining, merging sets, conditioning, conflict pre-check), even if both networks have identical vocabularies and the content is equal, and objects derived within one network (by building, joining, conditioning, replacing values, generating, filtering, or through their builders) remain usable with it. Compatibility checks answer true exactly when both come from the same network.",
  ["histories", "configurations"], "every combination of operations across two or more networks",
  "Tests check three of these refusals once.",
  [R+"sample_graph.py", R+"sample_set.py", R+"relation_graph.py", R+"sample_space.py"],
  [("identity of the component source", R+"sample_graph.py SampleGraph.is_compatible; "+R+"sample_set.py Samples.is_compatible")],
  ["acceptance or refusal of cross-network operations"])

p("C18", "Results do not depend on hash seed, insertion order or earlier work",
  "Given the same vocabulary and the same multiset of outcomes, every result - conditional, folded and activation graphs, marginals, factors, groups, joined graphs, generated outcomes, printed samples of explicitly named or content-named outcomes, descriptions - is the same whatever the interpreter's hash seed, the order in which variables, relations and outcomes were declared or added, and whatever queries were made before on the same or other networks (floating-point results up to rounding).",
  ["configurations", "histories", "inputs"], "every hash seed, declaration and insertion order, and preceding workload",
  "Each test process sees one hash seed and one order.",
  [R+"relation_graph.py", R+"sample_set.py", R+"sample_space.py", R+"conditional_graph.py"],
  [("order-free set and dictionary processing", R+"sample_set.py; "+R+"relation_graph.py; "+R+"sample_space.py")],
  ["canonical digest of all results across interpreter processes"])

p("C19", "Visualisations show exactly the graph they are asked to show",
  "The page rendered for a sample, for the outcomes of a relation or conditional graph, for a folded graph and for an activation graph contains exactly one visual node per node of the shown graph (per outcome, when outcomes are shown, plus the evidence when there is one; unobserved declared variables too, for folded and activation graphs) and exactly one visual edge per relation, joining the right nodes and labelled with the right values, relations, counts and weights. Variables that never occur are marked gray, parts of the query are marked, and the shade of an activated variable follows its greatest weight. Showing a graph does not change it and writes only the page named after it, in the size asked for.",
  ["inputs"], "every graph whose nodes have distinct printed labels and no empty outcome",
  "The repository only has manual scripts that open a browser; nothing checks the contents.",
  [R+"sample_graph.py", R+"sample_space.py", R+"folded_graph.py", R+"activation_graph.py"],
  [("rendering", R+"sample_graph.py SampleGraph.visualize; "+R+"sample_space.py SampleSpace.visualize_outcomes; "+R+"folded_graph.py FoldedGraph.visualize; "+R+"activation_graph.py ActivationGraph.visualize")],
  ["nodes and edges handed to the renderer"])

p("C20", "Views, descriptions and round trips are faithful",
  "The edge-set view of a sample rebuilds an equal sample, extending from a sample's or graph's own builder without further changes rebuilds an equal one, and converting a conditional graph to a relation graph keeps all outcomes and counts. Edge-set listings, printed samples, text views, automatic names, representations and descriptions list exactly the contents - every outcome with its count, every node and relation once, in a stable sorted order - and the reported occurring variables, values and relations are exactly those in the outcomes.",
  ["inputs"], "every sample and graph, named or not, with any labels",
  "Tests compare literal strings for two or three samples.",
  [R+"sample_graph.py", R+"sample_space.py", R+"relation_graph.py", R+"conditional_graph.py", R+"graph_components.py", R+"variables_graph.py"],
  [("views", R+"sample_graph.py SampleGraph.edges_set_view/text_view/name/builder; "+R+"sample_space.py outcomes_as_edges_sets/print_samples/included_variables/included_relations/builder/relation_graph; "+R+"relation_graph.py RelationGraph.describe; "+R+"conditional_graph.py ConditionalGraph.describe")],
  ["returned views and strings; rebuilt objects"])

p("C21", "Pacman: score and outcome follow the rules in every game",
  "In every legal play the score changes by exactly minus one per Pacman move, plus ten per pellet eaten, plus 500 for the last pellet, plus 200 per scared ghost caught, minus 500 for every ghost that is not scared and touches Pacman; food and capsules disappear exactly when Pacman reaches them and never return. The game is won exactly when the last pellet is eaten and lost exactly when an unscared ghost comes within the collision distance before that, never both, and no move is possible afterwards. A printed state shows exactly these things at their places, and the score.",
  ["histories", "inputs"], "every board and every sequence of legal moves",
  "There are no tests for the game.",
  [D+"pacman.py", D+"game.py"],
  [("turn resolution", D+"pacman.py GameState.generateSuccessor, PacmanRules.applyAction/consume, GhostRules.checkDeath/collide")],
  ["score, food, capsules, win/lose flags after every move"])

p("C22", "Pacman: agents only make legal moves and never enter walls",
  "Legal moves offered to Pacman are exactly stopping plus the directions without a wall next to it; a ghost on a grid point may go in any open direction but not stop and not reverse unless that is its only way, and between grid points an agent can only continue. Moves outside that list are refused, accepted moves displace the agent by exactly its speed (half for a scared ghost), a scared ghost recovers after 40 of its own moves on a grid point, a caught ghost restarts from its start position unscared, and no agent is ever inside a wall.",
  ["histories", "inputs"], "every board and every sequence of legal and attempted illegal moves",
  "There are no tests for the game.",
  [D+"pacman.py", D+"game.py", D+"util.py"],
  [("legal actions and displacement", D+"game.py Actions.getPossibleActions, Configuration.generateSuccessor; "+D+"pacman.py PacmanRules.getLegalActions, GhostRules.getLegalActions/applyAction/decrementTimer/placeGhost")],
  ["legal moves, refusals, positions, directions and timers after every move"])

p("C23", "Pacman: computing a successor never alters an existing state",
  "Computing successors, asking for legal moves, hashing, printing or deep-copying a game state leaves that state and every state computed earlier exactly as it was, and the same move from an equal state always gives an equal result, whatever the caller does with the lists of moves it was given. A deep copy equals its original in every observable respect (including being won or lost) and shares nothing with it; equal states hash alike, and states that differ in position, direction, timers, food, capsules or score are unequal.",
  ["histories"], "every tree of states explored from any board",
  "There are no tests for the game; aliasing of shared boards shows only in later states.",
  [D+"pacman.py", D+"game.py"],
  [("copy on write of state data", D+"game.py GameStateData.__init__/deepCopy, AgentState.copy, Grid.copy; "+D+"pacman.py GameState.__init__/deepCopy, PacmanRules.consume")],
  ["snapshots of all live states after every operation"])

p("C24", "Pacman: the game loop is fair, faithful and contains failing agents",
  "The game asks agents strictly in turn, each on its own private copy of the current state, applies exactly the moves they return, shows every resulting state, records them in order so that replaying the record reproduces the final state, stops at the first won or lost state and then notifies every agent that wants it. With failure catching on, an agent that raises an error, makes an illegal move or exceeds its time ends the game as crashed, with no further moves, without the error escaping, and leaves no pending alarm or changed signal handler or output stream behind; time spent at startup, in observing and in choosing is charged to the agent that spent it, and the game ends exactly when an agent exceeds its total time or its allowed number of slow moves. Without failure catching the agent's own error reaches the caller from every callback, with the output streams restored, and no time limit applies. What muted agents print is kept per agent and not shown; what anybody else prints is shown.",
  ["histories", "fault_sequences", "schedules"], "every agent behaviour, including faults at every callback and turn",
  "There are no tests for the game; faults at particular turns need injection.",
  [D+"game.py", D+"util.py", D+"pacman.py"],
  [("control loop", D+"game.py Game.run/_agentCrash/mute/unmute; "+D+"util.py TimeoutFunction; "+D+"pacman.py ClassicGameRules, runGames")],
  ["event log of agent, display and rule callbacks", "process signal state"])

p("C25", "Pacman: boards are read faithfully and grids round-trip",
  "Reading a board text places every wall, pellet, capsule and agent exactly where the text shows it (bottom row is y=0), Pacman first and ghosts after in order, and a game starts from exactly that board with at most the requested number of ghosts. Packing a grid to integers and unpacking gives the same grid for every size, copies are independent, counting and listing agree with the cells, and grids are equal exactly when they have the same size and cells (and then hash alike). Blanks around the lines of a board file are no part of the board. Loading a board by name finds it in the current folder or the nearest of its three parent folders and never changes the current folder, whether it is found, missing or malformed.",
  ["inputs", "configurations"], "every board text, grid size and content, and working directory",
  "There are no tests for the game.",
  [D+"layout.py", D+"game.py", D+"pacman.py"],
  [("text parsing", D+"layout.py Layout.processLayoutText/processLayoutChar, getLayout, tryToLoad"), ("bit packing", D+"game.py Grid.packBits/_unpackBits, reconstituteGrid"), ("initial state", D+"game.py GameStateData.initialize")],
  ["parsed board, initial state, packed form, working directory"])

p("C26", "Pacman utilities: containers, counters and sampling keep their contracts",
  "Stacks are last-in first-out, queues first-in first-out, priority queues return lowest priority first (ties in insertion order) and an update only ever lowers an item's priority. Counters default to zero and add, subtract, multiply, normalise, rank and copy as vectors; normalising preserves ratios and sums to one. Sampling returns an item of the distribution whose cumulative interval contains the random draw, for every distribution and draw, and nearest grid point, distances, matrix helpers and direction tables are mutually consistent.",
  ["histories", "inputs"], "every operation sequence, distribution and random draw",
  "There are no tests for the utilities.",
  [D+"util.py", D+"game.py"],
  [("containers", D+"util.py Stack/Queue/PriorityQueue/PriorityQueueWithFunction"), ("vectors", D+"util.py Counter, normalize"), ("sampling", D+"util.py sample/nSample/chooseFromDistribution/getProbability"), ("direction algebra", D+"game.py Directions, Actions")],
  ["results of every operation against a reference container"])

p("C27", "Pacman agents choose only legal moves with the documented probabilities",
  "A random ghost gives every legal move the same probability; a directional ghost gives the moves that bring it nearest to Pacman (farthest while it is scared) the configured extra share split evenly and spreads the rest evenly over all legal moves; in both cases probabilities sum to one and the chosen move is legal whenever a legal move exists, else stopping. The keyboard agent returns the legal move the held keys ask for, otherwise keeps its last move if still legal, obeys the stop key, and always returns a legal move.",
  ["inputs", "histories"], "every reachable state, key sequence and random draw",
  "There are no tests for the agents.",
  [D+"ghostAgents.py", D+"keyboardAgents.py", D+"util.py"],
  [("distributions", D+"ghostAgents.py RandomGhost/DirectionalGhost.getDistribution"), ("key handling", D+"keyboardAgents.py KeyboardAgent.getAction/getMove")],
  ["distribution and chosen action"])

p("C28", "Pacman: the window mirrors the game",
  "After every update the pellets, capsules, moved agent (its place and heading, and for a ghost the colour that tells whether it is scared) and score drawn in the window match the state shown, the images of the agents that did not move stay as they were, and walls, highlighted cells and belief distributions are drawn exactly as given. Showing a state never changes it, and the window is closed when the display finishes. Key queries report exactly the keys held down, and each key pressed since the previous query exactly once (a focus change forgets both); a click is reported once, with its place and button.",
  ["histories", "inputs"], "every board, every sequence of moves shown and every sequence of key presses and releases",
  "There are no tests for the display.",
  [D+"graphicsDisplay.py", D+"graphicsUtils.py"],
  [("incremental redraw", D+"graphicsDisplay.py PacmanGraphics.initialize/update/movePacman/moveGhost/removeFood/removeCapsule/updateDistributions"), ("key state", D+"graphicsUtils.py keys_pressed/keys_waiting/_keypress/_keyrelease")],
  ["items on the (recording) canvas after every update", "key queries"])

p("C29", "Parts of graphs are values that compare by content",
  "Value nodes, relations (plain and directed), relation edges, and the nodes, edges and graphs of the variables, folded and activation views are equal exactly when they are of the same kind and have the same content - variable and value, unordered pair of ends and relation, source, target and label, counts, weights, query marks - however they were made and whatever they print as; equal nodes and edges hash alike, and comparing with anything else is false rather than an error. An edge knows its two ends, gives for each the opposite one and refuses any other node. Built graphs and their parts refuse to be copied. A network hands out a node or relation for exactly the declared variables, values and relations, and a directed relation only between its own ends.",
  ["inputs"], "every label, content and pair of components",
  "Tests compare a few components with plain string labels.",
  [R+"graph_components.py", R+"variables_graph.py", R+"folded_graph.py", R+"activation_graph.py"],
  [("component equality", R+"graph_components.py ValueNode/RelationEdge/DirectedRelation __eq__ and __hash__, RelationEdge.opposite_endpoint"), ("derived equality", R+"variables_graph.py, folded_graph.py, activation_graph.py __eq__ and __hash__"), ("vocabulary", R+"graph_components.py BuilderComponentsProvider.get_node/get_edge")],
  ["equality, hash, ends and refusals of every component"])

p("C30", "Experiments: encodings are faithful and comparisons notice differences",
  "For every set of tables (of any cardinalities and entries representable with the chosen factor) the Bayesian and the Markov experiment encode one and the same model twice - as relation graph, with exactly one outcome per table entry, counted by that entry, and as pgmpy network, with exactly that entry at the same place; an entry that is no whole number of units is refused rather than rounded. Their comparisons of joint distributions, inference and separation succeed when the two encodings describe the same distribution and fail whenever they do not, be it by the smallest unit in one entry, a missing influence or a direct link. The shipped comparisons succeed, and the shipped coin-toss examples show exactly the outcomes of the shipped record, of that record given the first coins, and of its joint. The counted size of an outcome space equals the number of outcomes generated for it. Coin-toss records yield exactly one counted outcome per distinct toss or pair of tosses, with the relation that tells which coin came first, and the enumeration of typed graphs lists every graph without isolated nodes exactly once.",
  ["inputs"], "every set of tables, every toss record",
  "The experiments have no tests, and each runs on a single hand-made set of tables.",
  [E+"experiments/comparing_with_bayes_network.py", E+"experiments/comparing_with_markov_network.py", E+"experiments/random_variables_distribution_for_all_outcomes.py", E+"examples/building_net_from_coin_toss.py", E+"examples/building_net_with_conditional_probability.py", E+"examples/building_net_with_joint_probability.py", E+"experiments/outcomes_space_power.py", E+"playaround/number_of_subgraphs.py"],
  [("encoding", E+"experiments/comparing_with_bayes_network.py make_relation_graph/make_bayes_network, comparing_with_markov_network.py make_relation_graph/make_markov_network"), ("comparison", E+"experiments/comparing_with_bayes_network.py comparing_joint_probability/comparing_inference/comparing_d_separation, comparing_with_markov_network.py comparing_variable_joint_probability/comparing_inference/relation_graph_separation")],
  ["encoded outcomes and factor entries", "success or failure of every comparison"])

p("C31", "Command line and series of games",
  "For every command line, board and agent module on the search path: what is read is what was asked for - the board of that name, the agent class from the first module on PYTHONPATH (then the current folder) that offers it, passing over modules that cannot be imported, its options as strings (a bare option as 1), as many ghost agents as asked, numbered from 1, the chosen display with its zoom and pace, the number of games and training games, recording, exception handling and time limit, with the documented defaults for whatever is absent; with a fixed seed every draw from then on repeats, without it the random state is left alone. Unknown boards or agents, left-over words, malformed numbers and the keyboard agent without a window are refused. A series plays exactly the asked number of games on one unchanged board; agents find the chosen display as _display of the main module; training games come first, run on a quiet display, announce nothing and appear in no result; every other game is shown, announced once, returned in order, and the printed scores, average, win rate and record are those of exactly these games; every game is recorded when asked. A failing agent ends only its own game when failures are to be caught, and reaches the caller otherwise. The demo starts one game of the keyboard Pacman against random ghosts on the shipped board.",
  ["inputs", "histories", "faults"], "every command line, search path and series of games",
  "The demo has no tests; options interact (training, quiet displays, recording, failures, seeds) and the order of modules on the path matters.",
  [D+"pacman.py", D+"demo.py"],
  [("command line", D+"pacman.py readCommand, loadAgent, parseAgentArgs"), ("series", D+"pacman.py runGames, ClassicGameRules.newGame"), ("demo", D+"demo.py main")],
  ["arguments read from a command line", "games, displays, records and summary of a series"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
