"""Which harness entries decide which property, and within which bounds."""
import re

ASSUMPTIONS = [
    "integer-valued inputs within the stated ranges; doubles are handled exactly as dyadic rationals while they stay "
    "within 2^53 in magnitude, quotients and square roots symbolically; zeros are taken as +0",
    "allocation never fails; one thread",
    "the sources are compiled with NDEBUG by clang 18 at -O1 (no vectorisation, no fp contraction) and the IR is executed "
    "with libstdc++ inlined; a handful of libc/libm functions are modelled by the executor",
]

B_STATE = ("arrays of at most 4 elements (dynamic ones: 0-3 rows), element values anywhere in the small integer ranges of the "
           "harness, 1-2 moves in a first proposal, then commit or revert, then one move in a second proposal")

# what the scripted entries (lg_*, md_*, *_w*) add
B_WIDE = ("; further, on models with arrays of up to 12 elements and tables of up to 25 entries, and on nine complete models (tours, assignment, routing, "
          "packing, scheduling and the like): a fixed set of longer histories (2-4 proposals of 1-4 moves, which moves is fixed by the script, not explored) whose "
          "values are symbolic up to a budget of a few per script, in part followed by any one move")

B_STATE += B_WIDE

PROPS = {}


def P(pid, files, quick=None, thorough=None, **kw):
    PROPS[pid] = dict(files=files, quick=quick, thorough=thorough, **kw)


def files(pid, tier):
    return list(PROPS[pid]["files"])


def wanted(pid, tier, file, entry):
    rx = PROPS[pid].get(tier)
    if rx is None:
        return True
    return re.fullmatch(rx, entry) is not None


# entries whose path count is out of proportion to what they add; thorough only
BIG = (r"op_(mod_same|where_dyn2?|where_const|abs_mat|square_mat|(not|logical|square)_strd|(and|or|eq|max2|min2)_same)|"
       r"re_(all|any|min|max)_(strd|mat)|re_prod_(ifrac|ivec|idyn|idyn2|strd|mat|dyn)|re_(all|any|min)_ivec|"
       r"ai_(m_ij_var|m_row_d|m_row|m_col|d_elem|d_elem_d|vscal|vint|vdyn|c_0[12]|c_02[sd])|bi_(mat_23|mat_32|chain_unb|vec_int|vec_2)|co_vec")
BIG4 = r"ai_m_ij_var|bi_mat_(23|32)"


def but(rx):
    return r"(?!(?:" + rx + r")$).*"


STATE = ["h_ops", "h_reduce", "h_index", "h_shape", "h_dec", "h_model"]
P("P01", STATE, but(BIG), bounds=B_STATE)
P("P02", STATE, but(BIG), bounds=B_STATE)
P("P03", STATE, but(BIG), bounds=B_STATE)
P("P04", STATE, but(BIG4), bounds=B_STATE)
P("P05", STATE, but(BIG4), bounds=B_STATE)
P("P06", STATE, but(BIG4), bounds=B_STATE)
P("P07", ["h_ops", "h_model"], bounds=B_STATE)
P("P08", ["h_reduce", "h_model"], bounds=B_STATE)
P("P09", ["h_index", "h_model"], bounds=B_STATE)
P("P10", ["h_shape"], r"(co|sh|sz)_.*", r"(co|sh|sz)_.*", bounds=B_STATE)
P("P11", ["h_shape"], r"qm_.*", r"qm_.*", bounds=B_STATE)
B_COLL = ("collections over up to 4 elements, disjoint collections of up to 3 elements in up to 3 parts, number arrays of up to 4 elements; "
          "every valid initial contents (up to symmetry of values for disjoint ones) or the default; 1-2 proposals of 1-2 moves, each any "
          "mutator with any valid argument or the default random move with arbitrary outcomes of its random choices; further, over up to 9 elements, "
          "3-6 fixed scripts of up to 9 moves followed by any one move")
P("P12", ["h_coll"], r"cl_.*", r"cl_.*", bounds=B_COLL)
P("P13", ["h_coll"], r"nu_.*", r"nu_.*", bounds=B_COLL)
P("P23", ["h_coll"], r"mv_.*", r"mv_.*", bounds=B_COLL)
P("P14", ["h_init"], r"is_.*", r"is_.*", bounds="decisions of up to 3 elements; given contents of 0-4 numbers, each any half-integer in and around the valid range, for "
  "numbers also NaN, infinities and huge values; decisions of 5-9 elements with valid contents of which any two numbers (for bit-sets: a column and one more) are replaced by any such numbers")
P("P15", ["h_init"], r"il_.*", r"il_.*", bounds="every kind of symbol with operands of 0-2 dimensions (fixed, empty, dynamic) of up to 4 elements and parameters in and "
  "around the valid range (integer bounds: any 32-bit value)")
B_TWO = ("the models of the state-evolution harnesses (arrays of at most 4 elements); two states with independent contents, one move in each, "
         "commit in one and revert in the other, then another move in each, interleaved")
P("P24", STATE, but(BIG), bounds=B_TWO)
B_NET = ("models of up to 5 (thorough: 6) scalar symbols, every way of choosing decisions, unary, binary and n-ary symbols and their operands "
         "(also operands newer than the symbol), decision values in -3..4; further 5-20 fixed larger models (8-13 symbols) with symbolic decision values")
P("P16", ["h_graph"], r"gt_.*", r"gt_.*", bounds=B_NET)
P("P17", ["h_graph"], r"(gr|gt_parts).*", r"(gr|gt_parts).*", bounds=B_NET + "; every choice of objective, constraint, observers and lock")
P("P18", ["h_graph"], r"gz_.*", r"gz_.*", bounds=B_NET + "; every choice of given decisions, evaluated symbol and reset symbol")
P("P22", ["h_graph"], r"gp_.*", r"gp_.*", bounds=B_NET + "; every choice of objective, up to two constraints, one or two proposals of one or two decisions")
P("P19", ["h_util"], r"sl_.*", r"sl_.*", bounds="start, stop, step and length anywhere in -2^61..2^61 for the end points; for the number of elements lengths up to 6 with "
  "start, stop and step in -8..8, and any step beyond")
P("P20", ["h_util", "h_index", "h_shape"], r"it_.*|(bi|ai|co|sh)_.*", r"it_.*|(bi|ai|co|sh)_.*", bounds="strided layouts of 1-4 dimensions with up to 18 elements (positive and negative strides), "
  "every pair of positions; views of all slices of arrays up to 3x3 and 2x2x2, and of the arrays in the indexing and shape harnesses")
P("P21", ["h_util"], r"dd_.*", r"dd_.*", bounds="up to 2 elements before, up to 4 (thorough: 5) changes, each any update, placement or removal, with values in 0..3; fixed lists of 12, 24 and 50 changes with symbolic values within a budget")

PYX = ("it lives in Cython code compiled to C++ that runs on the CPython and numpy C APIs: neither that IR (interpreter objects, reference counts, numpy arrays) nor "
       "the Cython source can be executed symbolically with the tools here; ")
NOT_APPLICABLE = {
    "P25": PYX + "the format additionally goes through zip and numpy files",
    "P26": PYX + "the counting of locks is spread over Python context managers and weak references",
    "P27": PYX + "the states container is a Cython class over Python lists and weak references",
    "P28": "the generators are Python functions over numpy arrays that call into the Cython classes; symbolic execution of Python (CrossHair) cannot "
           "follow compiled extension types. The C++ core of such models (tours, assignment, routing, packing, flow shops) is covered by the md_* entries of P01-P09",
    "P29": PYX + "the index handling dispatches on Python types before it reaches the C++ symbols (whose behaviour P09 and P19 cover)",
}
P("P30", ["h_util"], r"ut_.*", r"ut_.*", bounds="shapes of 0-3 dimensions, each dimension 0-9 (0-3 where both shapes together have more than three dimensions, 0-2 beyond four); positions in arrays of 1-4 dimensions of up to 4; fractions with "
  "numerators in -8..8 and denominators in -6..6 and factors in -6..6; quarter-integers up to 1,000,000; sums of 6 half-integers up to 1000")
