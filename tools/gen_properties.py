#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python for readability)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
INC = "dwave/optimization/include/dwave-optimization/"
SRC = "dwave/optimization/src/"
OUT = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if isinstance(kw.get("observe_at"), str):
        kw["observe_at"] = [kw["observe_at"]]
    a.update(kw)
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})


HIST = ["histories", "inputs"]
NODES = [SRC + "nodes/" + f for f in ("mathematical.cpp", "indexing.cpp", "manipulation.cpp", "flow.cpp", "quadratic_model.cpp",
                                      "collections.cpp", "numbers.cpp", "testing.cpp")]
p("P01", "Incrementally updated values equal a from-scratch evaluation",
  "After any sequence of moves on a model's decisions is propagated (and earlier proposals were committed or reverted), every "
  "array of the model has exactly the shape and values that a fresh state initialised with the same decision contents has.",
  HIST, "all symbol kinds and their supported operand shapes, all contents of the decisions, all sequences of moves, with "
  "commits and reverts in between",
  "incremental update code takes different branches depending on old value, new value, position, growth and shrinkage; tests "
  "sample a few histories per symbol",
  [SRC + "graph.cpp"] + NODES,
  [("propagation of changes along the model graph", SRC + "graph.cpp Graph::propagate"),
   ("per-symbol incremental update", SRC + "nodes/*.cpp, *::propagate"),
   ("per-symbol evaluation from scratch", SRC + "nodes/*.cpp, *::initialize_state")],
  observe_at="shape and buffer of every array after propagation, against a second state initialised from the same decisions")
p("P02", "Rejecting a proposal restores the exact previous state",
  "Reverting any propagated proposal gives every array of the model back its previous shape and values and leaves no pending "
  "change; a later proposal behaves as if the reverted one had never been made.",
  HIST, "all symbol kinds, contents, proposals of one or more moves, and follow-up proposals",
  "tests revert a handful of moves; a forgotten piece of per-symbol bookkeeping only shows in particular histories",
  [SRC + "graph.cpp", INC + "state.hpp"] + NODES,
  [("undoing the recorded changes", SRC + "nodes/*.cpp, *::revert"), ("revert of all changed symbols", SRC + "graph.cpp Graph::revert")],
  observe_at="shape, values, diff and size difference of every array after a revert and after the next proposal")
p("P03", "Accepting a proposal makes exactly the proposed state current",
  "Committing any propagated proposal leaves every array's shape and values as they were proposed and leaves no pending change; a "
  "later proposal starts from, and when reverted returns to, the committed state.",
  HIST, "all symbol kinds, contents, proposals of one or more moves, and follow-up proposals that are committed or reverted",
  "stale bookkeeping after a commit only shows in a later proposal of a particular form",
  [SRC + "graph.cpp", INC + "state.hpp"] + NODES,
  [("folding the recorded changes", SRC + "nodes/*.cpp, *::commit"), ("commit of all changed symbols", SRC + "graph.cpp Graph::commit")],
  observe_at="shape, values, diff and size difference of every array after a commit and after the next proposal")
p("P04", "Reported changes of an array explain exactly how it changed",
  "For every propagated proposal, applying an array's reported list of changes in order to its previous contents gives its present "
  "contents: each change names a position that exists, appends and removals happen only at the end, and the recorded previous value is "
  "the value that was there. The reported change in size is the difference between the present and the previous size.",
  HIST, "all symbol kinds, contents, and proposals of one or more moves",
  "successors consume these lists; tests look at the final values of a few models, so a wrong old value or order can stay hidden",
  [INC + "array.hpp"] + NODES,
  [("change records", INC + "array.hpp Update"), ("lists of changes", SRC + "nodes/*.cpp, *::diff and *::size_diff")],
  observe_at="diff and size_diff of every array after propagation, against contents before and after")
p("P05", "Declared value bounds and kinds of an array hold in every state",
  "In every reachable state each element of an array lies between the minimum and the maximum the array declares, is an integer if the "
  "array is declared integral, and is 0 or 1 if it is declared logical.",
  HIST, "all symbol kinds, declared ranges of their operands (negative, mixed, positive), contents and moves",
  "bounds are computed from the operands' bounds by case analysis on signs; tests check few combinations and never against values",
  [SRC + "nodes/mathematical.cpp", SRC + "nodes/indexing.cpp", SRC + "nodes/flow.cpp", SRC + "nodes/manipulation.cpp",
   SRC + "nodes/constants.cpp", INC + "nodes/mathematical.hpp"],
  [("bounds of arithmetic", SRC + "nodes/mathematical.cpp *::min, *::max, *::integral"),
   ("bounds of selections", SRC + "nodes/flow.cpp, nodes/indexing.cpp, nodes/manipulation.cpp")],
  observe_at="every element of every array after initialisation and after every propagation")
p("P06", "Declared shapes and size bounds hold in every state",
  "In every reachable state an array's shape agrees with its declared shape in every fixed dimension, its size is the product of its "
  "shape, and the size lies within the minimum and maximum size information derived for it. Arrays that the library judges to have equal "
  "shape do have equal shapes.",
  HIST, "all symbol kinds with fixed or dynamic operands, all slices, sizes and moves",
  "size information is derived symbolically through chains of symbols; whether it is sound depends on all sizes the operands can take",
  [SRC + "array.cpp", INC + "array.hpp", SRC + "nodes/indexing.cpp", SRC + "nodes/manipulation.cpp", SRC + "nodes/collections.cpp",
   SRC + "nodes/mathematical.cpp"],
  [("size information and its substitution", SRC + "array.cpp SizeInfo::substitute"), ("shape comparison", SRC + "array.cpp array_shape_equal"),
   ("sizes of slices", SRC + "nodes/indexing.cpp BasicIndexingNode::sizeinfo")],
  observe_at="shape and size of every array after initialisation and after every propagation")
p("P07", "Element-wise symbols compute their documented function",
  "In every reachable state each element of an element-wise symbol (arithmetic, comparison, logical, modulus, rounding-free division, square "
  "root, absolute value, selection by condition, n-ary forms) equals the documented function of the corresponding operand elements, with "
  "scalars and one-element arrays applied to every element.",
  HIST, "all element-wise symbols, operand shapes (fixed, scalar, dynamic, strided), contents and moves",
  "the function has to hold for every operand value including negative, zero and equal operands; tests sample a few",
  [SRC + "nodes/mathematical.cpp", SRC + "nodes/flow.cpp"],
  [("functors", SRC + "nodes/mathematical.cpp"), ("broadcast of scalars", SRC + "nodes/mathematical.cpp BinaryOpNode"),
   ("selection", SRC + "nodes/flow.cpp WhereNode")],
  observe_at="every element of the symbol against the mathematical definition over the operands' elements")
p("P08", "Reductions fold all elements, with their initial value",
  "In every reachable state a sum, product, minimum, maximum, any or all over an array equals the fold of all its present elements starting "
  "from the initial value if one was given, and a sum along one axis equals the sums of the elements along that axis.",
  HIST, "all reductions, operand shapes (fixed, dynamic, possibly empty, strided), initial values, contents and moves",
  "reductions keep running totals, zero counts and cached extrema that are only wrong after particular sequences of values",
  [SRC + "nodes/mathematical.cpp"],
  [("full reductions", SRC + "nodes/mathematical.cpp ReduceNode"), ("reductions along an axis", SRC + "nodes/mathematical.cpp PartialReduceNode")],
  observe_at="value of the reduction against the fold of the operand's elements")
p("P09", "Indexing and permutation select the elements numpy would select",
  "In every reachable state a slice, an integer index, an index by arrays, or a permutation of rows and columns has the shape and elements "
  "that numpy gives for the same index on the array's present contents.",
  HIST, "all supported index forms and mixtures, array shapes up to four dimensions, dynamic arrays, contents of arrays and of index arrays, moves",
  "the code maps positions forwards and backwards through strides, with special cases for dynamic axes; errors show for particular shapes and index orders",
  [SRC + "nodes/indexing.cpp", INC + "nodes/indexing.hpp", INC + "array.hpp"],
  [("slices", SRC + "nodes/indexing.cpp BasicIndexingNode"), ("indexing by arrays", SRC + "nodes/indexing.cpp AdvancedIndexingNode"),
   ("permutations", SRC + "nodes/indexing.cpp PermutationNode")],
  observe_at="shape and elements of the indexed array against an independent implementation of the numpy rules")
p("P10", "Concatenation, reshaping and size reproduce their operands exactly",
  "In every reachable state a concatenation holds its operands one after the other along the chosen axis, a reshaped array holds the same elements in "
  "row-major order under the new shape, and the size of an array equals its present number of elements.",
  HIST, "all axes, shapes up to four dimensions, numbers of operands, contents and moves",
  "positions are computed from shapes and strides; tests use few shapes",
  [SRC + "nodes/manipulation.cpp", INC + "nodes/manipulation.hpp"],
  [("concatenation", SRC + "nodes/manipulation.cpp ConcatenateNode"), ("reshape", SRC + "nodes/manipulation.cpp ReshapeNode"),
   ("size", SRC + "nodes/manipulation.cpp SizeNode")],
  observe_at="shape and elements against the operands' elements")
p("P11", "A quadratic model's value is the sum of its terms",
  "In every reachable state the value of a quadratic model symbol equals the sum of its linear biases times the variables and its quadratic biases times "
  "the products of the variable pairs, however the biases were added.",
  HIST, "all contents of the variables, all sets of linear and quadratic terms (any order of the pair, repeated additions), all moves",
  "the value is updated from neighbourhoods per changed variable; several variables changing together and duplicated changes matter",
  [SRC + "nodes/quadratic_model.cpp", INC + "nodes/quadratic_model.hpp"],
  [("evaluation and updates", SRC + "nodes/quadratic_model.cpp QuadraticModelNode"), ("storage of biases", SRC + "nodes/quadratic_model.cpp QuadraticModel")],
  observe_at="value of the symbol against the sum over all terms")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_properties.py")).read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_properties.py")) else None
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
