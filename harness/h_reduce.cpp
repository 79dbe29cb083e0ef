// Reductions: full (with and without initial value) and along one axis.
#include "h_common.hpp"

enum { R_SUM, R_PROD, R_MAX, R_MIN, R_ANY, R_ALL };
static double fold(int op, double acc, double v) {
    switch (op) {
        case R_SUM: return acc + v;
        case R_PROD: return acc * v;
        case R_MAX: return vp_ite(acc >= v, acc, v);
        case R_MIN: return vp_ite(acc <= v, acc, v);
        case R_ANY: return vp_ite((acc != 0) | (v != 0), 1, 0);
        default: return vp_ite((acc != 0) & (v != 0), 1, 0);
    }
}
// kinds of predecessor
static ArrayNode* pred(Scn& s, int kind, int lo, int hi) {
    switch (kind) {
        case 0: return s.integer({2}, lo, hi);
        case 1: return s.integer({2, 1}, lo, hi);
        case 2: return s.dyn(0, lo, hi, 0, 2);
        case 3: return s.dyn(2, lo, hi, 0, 1);
        case 4: { auto p = s.integer({2, 2}, lo, hi); return s.add<BasicIndexingNode>(p, Slice(), ssize_t(1)); }
        case 5: return s.binary({3});
        case 6: return s.set(3);
        case 7: return s.dlists(2, 2)[1];
        case 8: return s.dyn(0, lo, hi, 0, 3, 0, 3);
        case 9: return s.dyn(0, lo, hi, 0, 2, 0, 2, 0.5);
        case 10: return s.integer({}, lo, hi);
        case 12: return s.integer({2, 4}, lo, hi);
        case 13: return s.dyn(0, lo, hi, 0, 9, 3, 7);
        case 14: return s.dyn(2, lo, hi, 0, 5, 1, 3);
        case 15: { auto p = s.integer({3, 4}, lo, hi); return s.add<BasicIndexingNode>(p, Slice(0, 3, 2), Slice(1, 4)); }
        default: return s.list(3, 1, 3);
    }
}
template <class N>
static void reduce(int op, int kind, int lo, int hi, bool has_init, int ilo, int ihi, Cfg c = {}) {
    Scn s;
    ArrayNode* x = pred(s, kind, lo, hi);
    double init = has_init ? vp_num("initial", ilo, ihi) : 0;
    N* y = has_init ? s.add<N>(x, init) : s.add<N>(x);
    s.oracle = [=](State& st) {
        Vec v = rd(x, st), r = rd(y, st);
        double acc;
        size_t from = 0;
        if (has_init) acc = init;
        else if (op == R_MAX || op == R_MIN) { acc = v.at(0); from = 1; }
        else acc = (op == R_PROD || op == R_ALL) ? 1 : 0;
        if (op == R_ANY || op == R_ALL) acc = vp_ite(acc != 0, 1, 0);
        for (size_t i = from; i < v.size(); ++i) acc = fold(op, acc, v[i]);
        vp_check(r.size() == 1 && y->ndim() == 0, "P08", "a full reduction is a scalar");
        vp_check(r[0] == acc, "P08", "value of a full reduction");
    };
    s.run(c);
}
#define RED(N, op, nm, lo, hi)                                                           \
    ENTRY re_##nm##_vec() { reduce<N>(op, 0, lo, hi, false, 0, 0); }                     \
    ENTRY re_##nm##_mat() { reduce<N>(op, 1, lo, hi, false, 0, 0); }                     \
    ENTRY re_##nm##_strd() { reduce<N>(op, 4, lo, hi, false, 0, 0); }                    \
    ENTRY re_##nm##_bin() { reduce<N>(op, 5, 0, 1, false, 0, 0); }                       \
    ENTRY re_##nm##_scal() { reduce<N>(op, 10, lo, hi, false, 0, 0); }                   \
    ENTRY re_##nm##_ivec() { reduce<N>(op, 0, lo, hi, true, -2, 3); }                    \
    ENTRY re_##nm##_idyn() { reduce<N>(op, 2, lo, hi, true, -3, 3); }                    \
    ENTRY re_##nm##_idyn2() { reduce<N>(op, 3, lo, hi, true, 0, 4); }                    \
    ENTRY re_##nm##_idyn3() { reduce<N>(op, 8, lo, hi, true, -9, -5, {2, 0}); }          \
    ENTRY re_##nm##_ifrac() { reduce<N>(op, 9, lo, hi, true, -1, 1, {1, 1}); }           \
    ENTRY re_##nm##_iset() { reduce<N>(op, 6, 0, 2, true, 1, 1, {1, 1}); }               \
    ENTRY re_##nm##_idlist() { reduce<N>(op, 7, 0, 2, true, 0, 2, {1, 1}); }             \
    ENTRY lg_##nm##_mat() { reduce<N>(op, 12, lo, hi, false, 0, 0, few()); }             \
    ENTRY lg_##nm##_idyn() { reduce<N>(op, 13, lo, hi, true, -2, 2, few()); }            \
    ENTRY lg_##nm##_idyn2() { reduce<N>(op, 14, lo, hi, true, -2, 2, few()); }           \
    ENTRY lg_##nm##_strd() { reduce<N>(op, 15, lo, hi, true, -2, 2, few()); }
RED(SumNode, R_SUM, sum, -4, 5)
RED(ProdNode, R_PROD, prod, -2, 3)
RED(MaxNode, R_MAX, max, -4, 3)
RED(MinNode, R_MIN, min, -4, 3)
RED(AnyNode, R_ANY, any, -1, 1)
RED(AllNode, R_ALL, all, -1, 1)
#define REDD(N, op, nm, lo, hi)                                                          \
    ENTRY re_##nm##_dyn() { reduce<N>(op, 2, lo, hi, false, 0, 0); }                     \
    ENTRY re_##nm##_dyn2() { reduce<N>(op, 3, lo, hi, false, 0, 0); }                    \
    ENTRY re_##nm##_dyn3() { reduce<N>(op, 8, lo, hi, false, 0, 0, {2, 0}); }            \
    ENTRY re_##nm##_pos() { reduce<N>(op, 2, 1, 3, false, 0, 0, {1, 0}); }               \
    ENTRY re_##nm##_neg() { reduce<N>(op, 2, -3, -2, false, 0, 0, {1, 0}); }             \
    ENTRY re_##nm##_list() { reduce<N>(op, 11, 0, 2, false, 0, 0, {1, 0}); }
REDD(SumNode, R_SUM, sum, -4, 5)
REDD(ProdNode, R_PROD, prod, -2, 3)
REDD(AnyNode, R_ANY, any, -1, 1)
REDD(AllNode, R_ALL, all, -1, 1)

// factors that do not divide exactly
ENTRY re_prod_wide() { reduce<ProdNode>(R_PROD, 0, 1, 60, false, 0, 0, {1, 0}); }
ENTRY re_prod_one() { reduce<ProdNode>(R_PROD, 10, 1, 60, true, 1, 3, {2, 0}); }

// ---- along one axis -----------------------------------------------------------
static void partial(Shape shape, ssize_t axis, int kind, Cfg c) {
    Scn s;
    ArrayNode* x;
    if (kind == 0) {
        x = s.integer(shape, -3, 4);
    } else {  // every second row of a larger array
        Shape big = shape;
        big[0] = 2 * big[0] - 1;
        auto p = s.integer(big, -3, 4);
        if (shape.size() == 2) x = s.add<BasicIndexingNode>(p, Slice(0, big[0], 2), Slice());
        else x = s.add<BasicIndexingNode>(p, Slice(0, big[0], 2));
    }
    auto y = s.add<PartialSumNode>(x, axis);
    s.oracle = [=](State& st) {
        Vec v = rd(x, st), r = rd(y, st);
        Shape want;
        ssize_t outer = 1, inner = 1, k = shape[axis];
        for (ssize_t i = 0; i < ssize_t(shape.size()); ++i) {
            if (i != axis) want.push_back(shape[i]);
            if (i < axis) outer *= shape[i];
            if (i > axis) inner *= shape[i];
        }
        vp_check(eqs(rdshape(y, st), want), "P08", "shape of a partial sum");
        bool ok = ssize_t(r.size()) == outer * inner;
        for (ssize_t o = 0; o < outer && ok; ++o)
            for (ssize_t i = 0; i < inner; ++i) {
                double acc = 0;
                for (ssize_t j = 0; j < k; ++j) acc = acc + v[(o * k + j) * inner + i];
                ok = ok & (r[o * inner + i] == acc);
            }
        vp_check(ok, "P08", "value of a partial sum");
    };
    s.run(c);
}
ENTRY lg_psum_34_0() { partial({3, 4}, 0, 0, scripts()); }
ENTRY lg_psum_34_1() { partial({3, 4}, 1, 0, scripts()); }
ENTRY lg_psum_234_0() { partial({2, 3, 4}, 0, 0, scripts()); }
ENTRY lg_psum_234_1() { partial({2, 3, 4}, 1, 0, scripts()); }
ENTRY lg_psum_234_2() { partial({2, 3, 4}, 2, 0, scripts()); }
ENTRY lg_psum_strd() { partial({3, 3}, 1, 1, scripts()); }
ENTRY re_psum_22_0() { partial({2, 2}, 0, 0, {2, 1}); }
ENTRY re_psum_22_1() { partial({2, 2}, 1, 0, {2, 1}); }
ENTRY re_psum_13_0() { partial({1, 3}, 0, 0, {1, 1}); }
ENTRY re_psum_23_1() { partial({2, 3}, 1, 0, {1, 0}); }
ENTRY re_psum_32_0() { partial({3, 2}, 0, 0, {1, 0}); }
ENTRY re_psum_3_0() { partial({3}, 0, 0, {1, 1}); }
ENTRY re_psum_222_0() { partial({2, 2, 2}, 0, 0, {1, 0}); }
ENTRY re_psum_222_1() { partial({2, 2, 2}, 1, 0, {1, 0}); }
ENTRY re_psum_232_1() { partial({2, 3, 2}, 1, 0, {1, 0}); }
ENTRY re_psum_223_2() { partial({2, 2, 3}, 2, 0, {1, 0}); }
ENTRY re_psum_312_0() { partial({3, 1, 2}, 0, 0, {1, 0}); }
ENTRY re_psum_2212_1() { partial({2, 2, 1, 2}, 1, 0, {1, 0}); }
ENTRY re_psum_strd_0() { partial({2, 2}, 0, 1, {1, 0}); }
ENTRY re_psum_strd_1() { partial({2, 2}, 1, 1, {1, 0}); }
ENTRY re_psum_strd_v() { partial({2}, 0, 1, {1, 1}); }
