// Element-wise symbols: unary, binary, n-ary, where.
#include "h_common.hpp"

// independent oracles (written as the NumPy meaning of each symbol)
namespace o {
inline double add(double a, double b) { return a + b; }
inline double sub(double a, double b) { return a - b; }
inline double mul(double a, double b) { return a * b; }
inline double div(double a, double b) { return a / b; }
inline double mx(double a, double b) { return vp_ite(a >= b, a, b); }
inline double mn(double a, double b) { return vp_ite(a <= b, a, b); }
inline double le(double a, double b) { return vp_ite(a <= b, 1, 0); }
inline double eq(double a, double b) { return vp_ite(a == b, 1, 0); }
inline double land(double a, double b) { return vp_ite((a != 0) & (b != 0), 1, 0); }
inline double lor(double a, double b) { return vp_ite((a != 0) | (b != 0), 1, 0); }
inline double lxor(double a, double b) { return vp_ite((a != 0) != (b != 0), 1, 0); }
inline double neg(double a) { return 0 - a; }
inline double abs(double a) { return vp_ite(a < 0, 0 - a, a); }
inline double sq(double a) { return a * a; }
inline double lnot(double a) { return vp_ite(a == 0, 1, 0); }
inline double lgc(double a) { return vp_ite(a == 0, 0, 1); }
}  // namespace o

// r == a mod b with the sign of the divisor (NumPy); 0 for a zero divisor
static bool is_mod(double r, double a, double b) {
    int64_t ia = int64_t(a), ib = int64_t(b), ir = int64_t(r);
    if (double(ir) != r) return false;
    if (ib == 0) return ir == 0;
    int64_t m = ia % ib;
    if (m != 0 && ((m < 0) != (ib < 0))) m += ib;
    return ir == m;
}

// ---- unary ------------------------------------------------------------------
template <class N>
static void unary(int kind, double (*f)(double), int lo, int hi, Cfg c = {}) {
    Scn s;
    ArrayNode* x;
    switch (kind) {
        case 0: x = s.integer({2}, lo, hi); break;
        case 1: x = s.integer({1, 2}, lo, hi); break;
        case 2: x = s.dyn(0, lo, hi, 0, 2); break;
        case 3: x = s.dyn(2, lo, hi, 0, 2); break;
        case 4: x = s.dyn(0, lo, hi, 0, 2, 0, 2, 0.5); break;
        case 5: x = s.integer({}, lo, hi); break;
        case 7: x = s.integer({2, 4}, lo, hi); break;
        case 8: x = s.dyn(0, lo, hi, 0, 9, 3, 7); break;
        default: {  // strided parent
            auto p = s.integer({3}, lo, hi);
            x = s.add<BasicIndexingNode>(p, Slice(0, 3, 2));
        }
    }
    N* y = s.add<N>(x);
    s.oracle = [=](State& st) {
        Vec a = rd(x, st), b = rd(y, st);
        bool ok = a.size() == b.size();
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) ok = ok & (b[i] == f(a[i]));
        vp_check(ok, "P07", "element-wise unary result");
        vp_check(eqs(rdshape(x, st), rdshape(y, st)), "P07", "element-wise unary result shape");
    };
    s.run(c);
}
#define UNARY(N, nm, f)                              \
    ENTRY op_##nm##_vec() { unary<N>(0, f, -6, 5); } \
    ENTRY op_##nm##_mat() { unary<N>(1, f, -5, 6); } \
    ENTRY op_##nm##_dyn() { unary<N>(2, f, -6, 2); } \
    ENTRY op_##nm##_dyn2() { unary<N>(3, f, 1, 6); } \
    ENTRY op_##nm##_frac() { unary<N>(4, f, -5, 3); }\
    ENTRY op_##nm##_scal() { unary<N>(5, f, -9, -2); }\
    ENTRY op_##nm##_strd() { unary<N>(6, f, -3, 3); }\
    ENTRY lg_##nm##_mat() { unary<N>(7, f, -99, 90, few()); } \
    ENTRY lg_##nm##_dyn() { unary<N>(8, f, -99, 90, few()); }
UNARY(NegativeNode, neg, o::neg)
UNARY(AbsoluteNode, abs, o::abs)
UNARY(SquareNode, square, o::sq)
UNARY(NotNode, not, o::lnot)
UNARY(LogicalNode, logical, o::lgc)

static void sqrt_scn(int kind) {
    Scn s;
    ArrayNode* x;
    switch (kind) {
        case 0: x = s.integer({3}, 0, 40); break;
        default: x = s.dyn(0, 1, 30, 0, 3); break;
    }
    auto y = s.add<SquareRootNode>(x);
    s.oracle = [=](State& st) {
        Vec a = rd(x, st), b = rd(y, st);
        vp_check(a.size() == b.size(), "P07", "sqrt size");
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) vp_check(b[i] == std::sqrt(a[i]), "P07", "sqrt value");
    };
    s.run({1, 1});
}
ENTRY op_sqrt_vec() { sqrt_scn(0); }
ENTRY op_sqrt_dyn() { sqrt_scn(1); }

// ---- binary -----------------------------------------------------------------
static double bc(const Vec& v, size_t i) { return v.size() == 1 ? v[0] : v[i]; }
struct Ops2 {
    ArrayNode* a;
    ArrayNode* b;
};
static Ops2 operands(Scn& s, int kind, int alo, int ahi, int blo, int bhi) {
    switch (kind) {
        case 0: return {s.integer({2}, alo, ahi), s.integer({2}, blo, bhi)};                   // same shape
        case 1: return {s.integer({}, alo, ahi), s.integer({2}, blo, bhi)};                    // scalar op array
        case 2: return {s.integer({2, 1}, alo, ahi), s.integer({}, blo, bhi)};                 // array op scalar
        case 3: return {s.dyn(0, alo, ahi, 0, 2), s.integer({}, blo, bhi)};                    // dynamic op scalar
        case 4: return {s.integer({}, alo, ahi), s.dyn(0, blo, bhi, 0, 2)};                    // scalar op dynamic
        case 5: return {s.dyn(2, alo, ahi, 0, 2), s.scalar(bhi)};                              // dynamic 2-D op constant
        case 6: { auto x = s.integer({2}, std::max(alo, blo), std::min(ahi, bhi)); return {x, x}; }  // both operands the same node
        case 7: {  // size-one array broadcast against a dynamic array
            auto x = s.integer({1}, alo, ahi);
            auto d = s.dyn(0, blo, bhi, 0, 2);
            return {x, d};
        }
        case 8: {  // strided operands
            auto p = s.integer({2, 2}, alo, ahi);
            auto q = s.integer({4}, blo, bhi);
            return {s.add<BasicIndexingNode>(p, Slice(), ssize_t(1)), s.add<BasicIndexingNode>(q, Slice(0, 4, 2))};
        }
        case 10: return {s.integer({}, alo, ahi), s.integer({}, blo, bhi)};                    // two scalars
        case 12: return {s.integer({2, 4}, alo, ahi), s.integer({2, 4}, blo, bhi)};
        case 13: return {s.dyn(0, alo, ahi, 0, 9, 3, 7), s.integer({}, blo, bhi)};
        case 11: return {s.integer({}, alo, ahi), s.scalar(vp_num("c", blo, bhi))};            // scalar op symbolic constant
        default: {  // symbolic constant
            Vec c{vp_num("c", blo, bhi), vp_num("c", blo, bhi)};
            return {s.integer({2}, alo, ahi), s.constant(c, {2})};
        }
    }
}
template <class N>
static void binary(int kind, double (*f)(double, double), int alo, int ahi, int blo, int bhi, Cfg c = {}) {
    Scn s;
    auto [a, b] = operands(s, kind, alo, ahi, blo, bhi);
    N* y = s.add<N>(a, b);
    s.oracle = [=](State& st) {
        Vec va = rd(a, st), vb = rd(b, st), vy = rd(y, st);
        const bool a1 = a->size() == 1, b1 = b->size() == 1;
        size_t n = a1 ? vb.size() : va.size();
        bool ok = vy.size() == n;
        for (size_t i = 0; i < n && i < vy.size(); ++i) ok = ok & (vy[i] == f(a1 ? va[0] : va[i], b1 ? vb[0] : vb[i]));
        vp_check(ok, "P07", "element-wise binary result");
        Shape sh = rdshape(y, st), sa = rdshape(a, st), sb = rdshape(b, st);
        // the broadcast shape
        Shape want = sa.size() >= sb.size() ? sa : sb;
        {
            Shape& small = sa.size() >= sb.size() ? sb : sa;
            for (size_t i = 0; i < small.size(); ++i) {
                ssize_t& w = want[want.size() - 1 - i];
                if (w == 1) w = small[small.size() - 1 - i];
            }
        }
        vp_check(eqs(sh, want), "P07", "element-wise binary result shape");
    };
    s.run(c);
}
#define BINARY(N, nm, f)                                              \
    ENTRY op_##nm##_same() { binary<N>(0, f, -5, 5, -3, 6, {1, 1}); } \
    ENTRY op_##nm##_sarr() { binary<N>(1, f, -5, 5, -3, 6, {1, 1}); } \
    ENTRY op_##nm##_arrs() { binary<N>(2, f, -5, -2, -3, 6, {1, 1}); }\
    ENTRY op_##nm##_dyns() { binary<N>(3, f, -5, 5, 2, 6, {1, 1}); }  \
    ENTRY op_##nm##_sdyn() { binary<N>(4, f, -4, 1, -7, -2, {1, 1}); }\
    ENTRY op_##nm##_dyn2() { binary<N>(5, f, -4, 1, -7, 3, {2, 1}); } \
    ENTRY op_##nm##_self() { binary<N>(6, f, -4, 3, -7, 3, {2, 1}); } \
    ENTRY op_##nm##_1dyn() { binary<N>(7, f, -2, 4, -3, 2, {1, 1}); } \
    ENTRY op_##nm##_strd() { binary<N>(8, f, -2, 4, -3, 2, {1, 0}); } \
    ENTRY op_##nm##_cnst() { binary<N>(9, f, -4, 4, -3, 3, {1, 0}); } \
    ENTRY lg_##nm##_mat() { binary<N>(12, f, -99, 90, -90, 99, few()); } \
    ENTRY lg_##nm##_dyn() { binary<N>(13, f, -99, 90, -90, 99, few()); }
BINARY(AddNode, add, o::add)
BINARY(SubtractNode, sub, o::sub)
BINARY(MultiplyNode, mul, o::mul)
BINARY(MaximumNode, max2, o::mx)
BINARY(MinimumNode, min2, o::mn)
BINARY(LessEqualNode, le, o::le)
BINARY(EqualNode, eq, o::eq)
BINARY(AndNode, and, o::land)
BINARY(OrNode, or, o::lor)
BINARY(XorNode, xor, o::lxor)

ENTRY lg_div() { binary<DivideNode>(12, o::div, -60, 60, 2, 9, few()); }
ENTRY op_div_same() { binary<DivideNode>(0, o::div, -6, 6, 2, 5, {1, 1}); }
ENTRY op_div_sneg() { binary<DivideNode>(2, o::div, -6, 6, -4, -1, {1, 1}); }
ENTRY op_div_sarr() { binary<DivideNode>(1, o::div, 1, 6, 1, 4, {1, 1}); }
ENTRY op_div_dyn() { binary<DivideNode>(3, o::div, -6, 6, 1, 4, {1, 1}); }
ENTRY op_div_sdyn() { binary<DivideNode>(4, o::div, -6, -1, 2, 4, {1, 1}); }

static void modulus(int kind, int alo, int ahi, int blo, int bhi, Cfg c = {1, 1}) {
    Scn s;
    auto [a, b] = operands(s, kind, alo, ahi, blo, bhi);
    auto y = s.add<ModulusNode>(a, b);
    s.oracle = [=](State& st) {
        Vec va = rd(a, st), vb = rd(b, st), vy = rd(y, st);
        const bool a1 = a->size() == 1, b1 = b->size() == 1;
        size_t n = a1 ? vb.size() : va.size();
        vp_check(n == vy.size(), "P07", "modulus size");
        for (size_t i = 0; i < n && i < vy.size(); ++i)
            vp_check(is_mod(vy[i], a1 ? va[0] : va[i], b1 ? vb[0] : vb[i]), "P07", "modulus value");
    };
    s.run(c);
}
ENTRY lg_mod() { modulus(12, -30, 30, -9, 9, few()); }
ENTRY op_mod_scal() { modulus(10, -7, 7, -3, 3); }
ENTRY op_mod_cnst() { modulus(11, -9, 9, -4, 4); }
ENTRY op_mod_same() { modulus(0, -3, 3, -2, 2); }
ENTRY op_mod_sarr() { modulus(1, -3, 3, -2, 2); }
ENTRY op_mod_arrs() { modulus(2, -3, 3, 1, 3); }
ENTRY op_mod_dyns() { modulus(3, -7, 7, -4, -1); }

// ---- n-ary ------------------------------------------------------------------
template <class N>
static void nary(int kind, double (*f)(double, double), int lo, int hi, Cfg c) {
    Scn s;
    std::vector<ArrayNode*> in;
    switch (kind) {
        case 0: in = {s.integer({2}, lo, hi), s.integer({2}, lo, hi), s.integer({2}, lo, hi)}; break;
        case 1: in = {s.integer({}, lo, hi), s.scalar(2), s.integer({}, lo, hi)}; break;
        case 2: { auto x = s.integer({2, 2}, lo, hi); in = {x, x}; break; }
        case 3: in = {s.integer({2}, lo, hi)}; break;
        case 5: in = {s.integer({6}, lo, hi), s.integer({6}, lo, hi), s.integer({6}, lo, hi), s.constant({1, 2, 3, 4, 5, 6}, {6}), s.integer({6}, lo, hi)}; break;
        default: { auto p = s.integer({4}, lo, hi); in = {s.add<BasicIndexingNode>(p, Slice(0, 4, 2)), s.add<BasicIndexingNode>(p, Slice(1, 4, 2))}; break; }
    }
    auto y = s.add<N>(std::span<ArrayNode*>(in));
    s.oracle = [=](State& st) {
        Vec vy = rd(y, st);
        Vec acc = rd(in[0], st);
        for (size_t k = 1; k < in.size(); ++k) {
            Vec v = rd(in[k], st);
            for (size_t i = 0; i < acc.size(); ++i) acc[i] = f(acc[i], v[i]);
        }
        vp_check(eqv(acc, vy), "P07", "n-ary result");
        vp_check(eqs(rdshape(y, st), rdshape(in[0], st)), "P07", "n-ary result shape");
    };
    s.run(c);
}
#define NARY(N, nm, f, lo, hi)                                  \
    ENTRY op_##nm##_3() { nary<N>(0, f, lo, hi, {1, 0}); }      \
    ENTRY op_##nm##_sc() { nary<N>(1, f, lo, hi, {2, 1}); }     \
    ENTRY op_##nm##_xx() { nary<N>(2, f, lo, hi, {1, 1}); }     \
    ENTRY op_##nm##_1() { nary<N>(3, f, lo, hi, {2, 1}); }      \
    ENTRY op_##nm##_st() { nary<N>(4, f, lo, hi, {1, 1}); }     \
    ENTRY lg_##nm() { nary<N>(5, f, 3 * lo, 3 * hi, few()); }
NARY(NaryAddNode, nadd, o::add, -5, 5)
NARY(NaryMaximumNode, nmax, o::mx, -5, 5)
NARY(NaryMinimumNode, nmin, o::mn, -5, 5)
NARY(NaryMultiplyNode, nmul, o::mul, -3, 3)

// an n-ary symbol that grows one operand at a time
ENTRY op_nary_addnode() {
    Scn s;
    auto a = s.integer({2}, -3, 3), b = s.integer({2}, -3, 3);
    auto y = s.add<NaryAddNode>(a);
    y->add_node(b);
    s.oracle = [=](State& st) {
        Vec va = rd(a, st), vb = rd(b, st), vy = rd(y, st);
        vp_check(vy.size() == 2 && (bool(vy[0] == va[0] + vb[0]) & bool(vy[1] == va[1] + vb[1])), "P07", "n-ary add after add_node");
    };
    s.run({1, 1});
}

// ---- where ------------------------------------------------------------------
static void where(int kind) {
    Scn s;
    ArrayNode *c, *x, *y;
    switch (kind) {
        case 0: c = s.binary({2}); x = s.integer({2}, -4, 0); y = s.constant({3, 7}, {2}); break;
        case 1: c = s.binary({}); x = s.constant({-4, 2}, {2}); y = s.integer({2}, -1, 6); break;
        case 2: c = s.binary({}); x = s.dyn(0, -4, 0, 0, 1); y = s.dyn(0, -1, 6, 0, 2); break;
        case 3: c = s.integer({}, -1, 2); x = s.dyn(2, -2, 2, 0, 1); y = s.dyn(2, 3, 4, 0, 1); break;
        case 6: c = s.integer({}, -1, 2); x = s.constant({-4, 2}, {2}); y = s.constant({5, 2}, {2}); break;
        case 7: c = s.set(2); c = s.add<SizeNode>(c); x = s.constant({-4, 2}, {2}); y = s.constant({5, 2}, {2}); break;
        case 8: c = s.integer({2, 3}, -2, 2); x = s.integer({2, 3}, -40, 30); y = s.integer({2, 3}, 20, 90); break;
        case 9: c = s.integer({}, -1, 2); x = s.dyn(0, -40, 30, 0, 7, 2, 5); y = s.dyn(0, 20, 90, 0, 7, 2, 5); break;
        case 10: c = s.integer({}, -1, 2); x = s.dyn(2, -40, 30, 0, 4, 1, 3); y = s.dyn(2, 20, 90, 0, 4, 1, 3); break;
        case 5: c = s.binary({1}); x = s.integer({1}, -4, 0); y = s.integer({1}, 1, 6); break;
        default: c = s.integer({1, 2}, -1, 1); x = s.integer({1, 2}, -2, 2); y = s.constant({1, -7}, {1, 2}); break;
    }
    auto w = s.add<WhereNode>(c, x, y);
    s.oracle = [=](State& st) {
        Vec vc = rd(c, st), vx = rd(x, st), vy = rd(y, st), vw = rd(w, st);
        if (c->size() == 1) {
            bool t = vc[0] != 0;
            bool ok = t ? eqv(vw, vx) : eqv(vw, vy);
            vp_check(ok, "P07", "where with a scalar condition");
            vp_check(eqs(rdshape(w, st), t ? rdshape(x, st) : rdshape(y, st)), "P07", "where shape");
        } else {
            bool ok = vw.size() == vc.size();
            for (size_t i = 0; i < vc.size() && i < vw.size(); ++i) ok = ok & (vw[i] == vp_ite(vc[i] != 0, vx[i], vy[i]));
            vp_check(ok, "P07", "where with an array condition");
        }
    };
    if (kind >= 8) return s.run(few(12, 2, 3));
    s.run({kind >= 6 ? 2 : 1, 1});
}
ENTRY lg_where_arr() { where(8); }
ENTRY lg_where_dyn() { where(9); }
ENTRY lg_where_dyn2() { where(10); }
ENTRY op_where_twice() { where(6); }
ENTRY op_where_size() { where(7); }
ENTRY op_where_arr() { where(0); }
ENTRY op_where_scal() { where(1); }
ENTRY op_where_dyn() { where(2); }
ENTRY op_where_dyn2() { where(3); }
ENTRY op_where_one() { where(5); }
ENTRY op_where_const() { where(4); }
