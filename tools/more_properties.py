COLL = [SRC + "nodes/collections.cpp", INC + "nodes/collections.hpp"]
NUM = [SRC + "nodes/numbers.cpp", INC + "nodes/numbers.hpp"]
GRAPH = [SRC + "graph.cpp", INC + "graph.hpp"]
p("P12", "Collections always hold valid contents",
  "In every reachable state a list or set decision holds pairwise different integers of its range, as many as its declared sizes allow, and a "
  "list of fixed size holds a permutation. The parts of a disjoint collection together hold every element of the range exactly once. This holds for "
  "the default contents, for any given valid contents, and after any moves, including the default random ones, accepted or rejected.",
  HIST, "all kinds of collections and size limits (also empty ones), all valid initial contents, all sequences of moves with all arguments and all "
  "outcomes of random choices, commits and reverts",
  "the contents are kept as a permutation of which only a part is visible; particular sequences of growth, shrinkage and exchange matter",
  COLL, [("list and set decisions", SRC + "nodes/collections.cpp CollectionNode"), ("disjoint lists", SRC + "nodes/collections.cpp DisjointListsNode"),
         ("disjoint bit-sets", SRC + "nodes/collections.cpp DisjointBitSetsNode"), ("storage", SRC + "nodes/collections.cpp CollectionStateData")],
  observe_at="contents and sizes of the decision (or of all parts) after initialisation, moves, propagation, commit and revert")
p("P13", "Integer and binary decisions stay within their bounds",
  "In every reachable state every element of an integer (binary) decision is an integer within the decision's lower and upper bound (0 or 1). Setting "
  "an element to a value outside the bounds is refused and changes nothing; any other value is taken. The default contents and default random moves "
  "respect the bounds too.",
  HIST, "all bounds (negative, mixed, wide, single value), shapes, contents, values offered, moves and outcomes of random choices",
  "tests use few bounds; overflow, negative bounds and conversions matter at extremes",
  NUM, [("bounds", SRC + "nodes/numbers.cpp IntegerNode"), ("moves", SRC + "nodes/numbers.cpp BinaryNode, IntegerNode"), ("storage", INC + "nodes/numbers.hpp NumberNode")],
  observe_at="elements of the decision after initialisation and every move; whether a value was refused")
p("P14", "Given initial contents are accepted exactly if they are valid",
  "Initialising a decision of the C++ core with given contents succeeds exactly if the contents are valid for it (values integral, in range, pairwise different or "
  "covering the range where required, of the right number), and then the decision holds exactly these contents. Otherwise an error is "
  "raised and the decision is still uninitialised, so it can be initialised with other contents.",
  ["inputs"], "all kinds of decisions, all contents including fractions, infinities, not-a-number, duplicates, out-of-range and too many or too few values",
  "the space of invalid contents is unbounded; tests try a few of each kind",
  COLL + NUM, [("collections", SRC + "nodes/collections.cpp *::initialize_state"), ("numbers", SRC + "nodes/numbers.cpp NumberNode::initialize_state")],
  observe_at="whether initialisation raises, and the state before and after")
p("P15", "Ill-formed symbols are refused and leave the model unchanged",
  "Adding to a model of the C++ core a symbol whose operands or parameters are not supported (shapes that do not match, axes or indices out of range, bounds that exclude everything, missing operands, "
  "possible division by zero, cycles, locked models and the like) raises an error instead of crashing, exactly in these cases. The model, its symbols and their "
  "links are then as before, and the model remains usable.",
  ["inputs"], "all kinds of symbols, operands of all supported numbers of dimensions, fixed or dynamic, parameters in and around the valid ranges",
  "combinations of operands and parameters are many, and traces left behind by a refused symbol only show in later use",
  GRAPH + NODES, [("construction of symbols", SRC + "nodes/*.cpp constructors"), ("adding symbols", INC + "graph.hpp Graph::emplace_node")],
  observe_at="whether construction raises; nodes, predecessors and successors before and after; evaluation of the model afterwards")
p("P16", "Evaluation order and descendants follow the dependencies",
  "In a locked model every symbol comes after all symbols it depends on, decisions are numbered first in the order they were added, and no symbol is lost or duplicated; unlocking, adding and "
  "locking again keeps this. The symbols reported as affected by a set of decisions are exactly these decisions and the symbols that depend on any of them.",
  ["inputs"], "all acyclic models, all sets of decisions",
  "order and reachability must be right for every graph; tests use a handful of small graphs",
  GRAPH, [("topological sort", SRC + "graph.cpp Graph::topological_sort"), ("descendants", SRC + "graph.cpp Graph::descendants")],
  observe_at="order of the model's nodes, topological indices, list of descendants")
p("P17", "Removing unused symbols keeps everything that matters",
  "Removing unused symbols removes exactly the symbols that are not decisions, not needed (directly or not) by the objective or a constraint, and not observed from outside where "
  "observers are respected. The links among the remaining symbols are as before without the removed ones, and the remaining symbols have "
  "the same values as before; observers of removed symbols are told.",
  ["inputs"], "all models, choices of objective and constraints, observers, with or without respecting observers",
  "what may be removed depends on the whole graph; dangling links only show on later use",
  GRAPH, [("removal", SRC + "graph.cpp Graph::remove_unused_nodes")],
  observe_at="nodes, links, order, values and objective after removal")
p("P18", "Symbols can be evaluated on demand and reset consistently",
  "Evaluating one symbol in a state initialises exactly the symbols it depends on that were not initialised yet, and leaves the others alone. Resetting a symbol uninitialises exactly it and "
  "everything that depends on it, so that evaluating again gives the values that follow from the decisions' present contents.",
  HIST, "all models, all choices of initialised decisions, of evaluated symbols and reset symbols, all contents",
  "whether stale values survive depends on the graph and on what was evaluated before",
  GRAPH, [("on-demand evaluation", SRC + "graph.cpp Graph::recursive_initialize"), ("reset", SRC + "graph.cpp Graph::recursive_reset")],
  observe_at="which symbols have state data, and their values")
p("P19", "Slices select what Python slices select",
  "Fitting a slice with any (possibly missing or negative) start, stop and step to a length gives the same elements in the same order as Python's slice of that length, and the number of "
  "elements it reports is right. A step of zero and a negative length are refused.",
  ["inputs"], "all starts, stops, steps, lengths, given or missing",
  "end points clip differently for positive and negative steps; tests sample a few",
  [SRC + "array.cpp", INC + "array.hpp"], [("fitting", SRC + "array.cpp, " + INC + "array.hpp Slice::fit"), ("number of elements", INC + "array.hpp Slice::size")],
  observe_at="start, stop, step and size of the fitted slice")
p("P20", "Iteration and random access visit exactly the elements of an array",
  "Iterating over any array or view, contiguous or strided, visits its elements in row-major order. Moving an iterator by any distance, the distance between iterators, their comparison and element "
  "access by position all agree with that order, and none of them changes the iterators compared.",
  ["inputs"], "all shapes and strides (also negative), all positions and distances, all views of reachable states",
  "carry across dimensions happens at particular positions only",
  [INC + "array.hpp", SRC + "array.cpp"], [("iterator", INC + "array.hpp ArrayIterator"), ("views", INC + "array.hpp Array::View, Array::view")],
  observe_at="elements read through iterators and views against the underlying memory")
p("P21", "Merging recorded changes keeps their net effect",
  "Merging a valid list of changes of an array leaves at most one change per position, in the order of positions, telling the net change from the first previous value to the last value. Positions "
  "that were appended and removed again disappear, and applying the merged list has the same effect as applying the original one.",
  HIST, "all lists of changes, with repeated positions, appends and removals",
  "tests try a few lists; combinations of appends and removals at several positions matter",
  [SRC + "utils.cpp", INC + "utils.hpp", INC + "array.hpp"], [("merging", SRC + "utils.cpp deduplicate_diff"), ("order of changes", INC + "array.hpp Update")],
  observe_at="list of changes after merging")
p("P22", "Proposals, objective and feasibility reflect the model",
  "A proposal calls the acceptance function once with the fully updated state and the result is kept exactly if it says so; otherwise the state is as before. The energy equals the value of the objective (zero without one), and a state is "
  "feasible exactly if every constraint is non-zero.",
  HIST, "all models, choices of objective and constraints, decision values, proposed changes and answers of the acceptance function",
  "depends on the combination of model, proposal and answer",
  GRAPH, [("proposals", SRC + "graph.cpp Graph::propose"), ("energy and feasibility", SRC + "graph.cpp Graph::energy, Graph::feasible")],
  observe_at="state seen by the acceptance function, state afterwards, energy, feasibility")
p("P23", "Moves on decisions do exactly what they say",
  "Each move (exchange, rotation, growing, shrinking, moving elements between or within parts, setting, flipping, clipping) changes the decision exactly as documented and nothing else, and its "
  "result tells whether anything changed.",
  HIST, "all decisions, contents, positions and values, also sequences of moves within one proposal",
  "moves interact within a proposal; tests apply a few",
  COLL + NUM + [SRC + "nodes/_state.hpp"], [("moves of collections", SRC + "nodes/collections.cpp"), ("moves of numbers", SRC + "nodes/numbers.cpp"), ("buffer", SRC + "nodes/_state.hpp ArrayStateData")],
  observe_at="contents of the decision before and after, and the returned value")
p("P24", "States of one model are independent of each other",
  "Several states of the same model can be used side by side: initialising, moving, committing or reverting in one state changes no array's shape, values or pending changes in another, whatever the interleaving.",
  HIST, "all symbol kinds, contents of the states, interleavings of proposals",
  "anything kept in the symbol instead of the state shows only when states are interleaved",
  [INC + "graph.hpp", INC + "state.hpp"] + NODES, [("state data per symbol", INC + "state.hpp"), ("per-symbol state", SRC + "nodes/*.cpp")],
  observe_at="shape, values and changes of every array in one state while another is used")

PY = "dwave/optimization/"
p("P25", "A saved model loads as the same model with the same states",
  "Saving any model with any of its states and loading it again gives a model with the same symbols, links, objective, constraints and decision contents, "
  "whose symbols have the same values in each state.",
  ["inputs"], "all models of serialisable symbols, all states, with and without saving states",
  "tests round-trip a few models", [PY + "_model.pyx", PY + "symbols.pyx"],
  [("saving and loading", PY + "_model.pyx into_file, from_file"), ("per-symbol data", PY + "symbols.pyx _into_zipfile, _from_zipfile")],
  observe_at="the loaded model and its states")
p("P26", "A locked model cannot be changed until every lock is released",
  "While at least one lock on a model is held, adding symbols, constraints or an objective raises an error; after the last one is released the model can be changed again.",
  ["histories"], "all sequences of locking and unlocking, nested and across context managers", "tests use one or two nestings",
  [PY + "_model.pyx", PY + "model.py"], [("lock count", PY + "_model.pyx lock, unlock, is_locked")], observe_at="errors raised by changing operations")
p("P27", "States of a model are independent and resizing keeps the others",
  "Resizing, clearing or setting the contents of one state of a model leaves the other states as they were, and reading a symbol in a state reads that state only.",
  ["histories"], "all sequences of resizing, setting and reading", "tests use one or two states",
  [PY + "states.pyx"], [("container", PY + "states.pyx States")], observe_at="contents read through the Python symbols")
p("P28", "Generated models state the documented optimisation problem",
  "For all valid input data each generator returns a model whose objective and constraints, in every state, equal the documented cost and feasibility of the solution that the state describes.",
  ["inputs"], "all generators and all valid data", "tests check one small instance each",
  [PY + "generators.py"], [("generators", PY + "generators.py")], observe_at="objective and constraints of generated models in any state")
p("P29", "Python indexing of symbols selects what numpy selects",
  "Indexing a symbol with any supported combination of integers, slices, ellipsis and symbols gives what numpy gives on its present contents, and any other index raises an error.",
  ["inputs"], "all index expressions", "tests sample index expressions",
  [PY + "_model.pyx"], [("dispatch", PY + "_model.pyx ArraySymbol.__getitem__")], observe_at="shape and contents of the indexed symbol")
p("P30", "Shape, position and fraction arithmetic is exact",
  "Broadcasting two shapes gives the common shape that numpy gives, or an error exactly when there is none; converting a multi-dimensional index into a position and back "
  "returns the index. Fractions are kept reduced with a positive denominator, and their products, quotients and comparisons are exact; a number is reported as integral exactly if it is one, and "
  "compensated sums equal the exact sum where that is representable.",
  ["inputs"], "all shapes, indices, fractions and numbers", "tests check single values; reduction, signs, zeros and the alignment of dimensions have many cases",
  [SRC + "array.cpp", SRC + "utils.cpp", INC + "utils.hpp"],
  [("broadcasting and positions", SRC + "array.cpp broadcast_shape, unravel_index, ravel_multi_index"), ("fractions and sums", INC + "utils.hpp fraction, double_kahan"), ("integrality", SRC + "utils.cpp is_integer")],
  observe_at="results of these functions")
