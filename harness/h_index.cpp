// Basic indexing, advanced indexing and permutations.
#include <variant>
#include "h_common.hpp"

// the indices range(n)[a:b:c] selects, written from the Python definition
struct PySlice {
    std::optional<int> a, b;
    int c = 1;
};
static std::vector<ssize_t> py(const PySlice& s, ssize_t n) {
    std::vector<ssize_t> out;
    ssize_t a = s.a ? *s.a : 0, b = s.b ? *s.b : n;
    if (a < 0) a += n;
    if (a < 0) a = 0;
    if (b < 0) b += n;
    if (b > n) b = n;
    for (ssize_t i = a; i < b; i += s.c) out.push_back(i);
    return out;
}
using Ix = std::variant<PySlice, int>;
static BasicIndexingNode::slice_or_int conv(const Ix& x) {
    if (std::holds_alternative<int>(x)) return ssize_t(std::get<int>(x));
    auto& s = std::get<PySlice>(x);
    auto o = [](std::optional<int> v) -> std::optional<ssize_t> {
        if (!v) return std::nullopt;
        return ssize_t(*v);
    };
    return Slice(o(s.a), o(s.b), ssize_t(s.c));
}
static void basic_oracle(State& st, const ArrayNode* x, const ArrayNode* y, const std::vector<Ix>& ix) {
    if (!vp_prop("P09")) return;
    Vec v = rd(x, st), r = rd(y, st);
    Shape sh = rdshape(x, st), want;
    std::vector<std::vector<ssize_t>> sel;
    for (size_t k = 0; k < ix.size(); ++k) {
        if (std::holds_alternative<int>(ix[k])) {
            ssize_t i = std::get<int>(ix[k]);
            sel.push_back({i < 0 ? i + sh[k] : i});
        } else {
            sel.push_back(py(std::get<PySlice>(ix[k]), sh[k]));
            want.push_back(sel.back().size());
        }
    }
    vp_check(eqs(rdshape(y, st), want), "P09", "shape of an indexed array");
    Vec e;
    std::function<void(size_t, ssize_t)> rec = [&](size_t k, ssize_t flat) {
        if (k == sel.size()) { e.push_back(v[flat]); return; }
        for (ssize_t i : sel[k]) rec(k + 1, flat * sh[k] + i);
    };
    rec(0, 0);
    vp_check(eqv(r, e), "P09", "values of an indexed array");
    vp_check(y->size(st) == ssize_t(e.size()), "P09", "size of an indexed array");
}
static BasicIndexingNode* slice(Scn& s, ArrayNode* x, const std::vector<Ix>& ix) {
    std::vector<BasicIndexingNode::slice_or_int> v;
    for (auto& i : ix) v.push_back(conv(i));
    return s.add<BasicIndexingNode>(x, v);
}
static void basic(Scn& s, ArrayNode* x, std::vector<Ix> ix, Cfg c) {
    auto y = slice(s, x, ix);
    // the indices recovered from the node select the same elements
    if (vp_prop("P09")) {
        auto z = s.add<BasicIndexingNode>(x, y->infer_indices());
        auto prev = y;
        s.oracle = [=](State& st) {
            basic_oracle(st, x, y, ix);
            vp_check(eqs(rdshape(z, st), rdshape(prev, st)) && eqv(rd(z, st), rd(prev, st)), "P09",
                     "indices recovered from an indexed array select something else");
        };
    }
    s.run(c);
}
static std::optional<int> pick_opt(const char* nm, int lo, int hi) {
    int k = vp_pick(nm, lo, hi + 1);
    if (k == hi + 1) return std::nullopt;
    return k;
}
#define ND std::nullopt
#define SL(a, b, c) PySlice{a, b, c}
#define ALL SL(ND, ND, 1)

// every slice of a vector with 3 elements
static void all_slices(int step, int b) {
    Scn s;
    auto x = s.integer({3}, -4, 4);
    PySlice p{pick_opt("start", -b, b), pick_opt("stop", -b, b), step};
    basic(s, x, {p}, {1, 0});
}
ENTRY bi_vec_1() { all_slices(1, 4); }
ENTRY bi_vec_2() { all_slices(2, 4); }
ENTRY bi_vec_3() { all_slices(3, 4); }
ENTRY bi_vec_5() {
    Scn s;
    auto x = s.integer({5}, 0, 3);
    PySlice p{pick_opt("start", 0, 2), pick_opt("stop", -2, -1), int(vp_pick("step", 1, 3))};
    basic(s, x, {p}, {1, 0});
}
ENTRY bi_vec_int() { Scn s; auto x = s.integer({3}, -4, 4); basic(s, x, {int(vp_pick("at", -3, 2))}, {2, 1}); }
ENTRY bi_vec_h1() { Scn s; auto x = s.integer({3}, -4, 4); basic(s, x, {SL(1, ND, 1)}, {2, 1}); }
ENTRY bi_vec_h2() { Scn s; auto x = s.integer({4}, 0, 4); basic(s, x, {SL(1, ND, 2)}, {2, 1}); }

// matrices
static Ix menu(const char* nm, int n) {
    switch (vp_pick(nm, 0, 7)) {
        case 0: return ALL;
        case 1: return int(vp_pick("at", -n, n - 1));
        case 2: return SL(1, ND, 1);
        case 3: return SL(-1, ND, 1);
        case 4: return SL(ND, ND, 2);
        case 5: return SL(ND, -1, 1);
        case 6: return SL(1, ND, 2);
        default: return SL(2, 1, 1);
    }
}
static void mat(Shape sh, Cfg c) {
    Scn s;
    auto x = s.integer(sh, -3, 3);
    std::vector<Ix> ix;
    for (auto n : sh) ix.push_back(menu("ix", n));
    basic(s, x, ix, c);
}
ENTRY bi_mat_23() { mat({2, 3}, {1, 0}); }
ENTRY bi_mat_32() { mat({3, 2}, {1, 0}); }
#define MAT(nm, sh0, sh1, i0, i1) \
    ENTRY bi_m##nm() { Scn s; auto x = s.integer({sh0, sh1}, -3, 3); basic(s, x, {i0, i1}, {2, 1}); }
MAT(a, 2, 2, ALL, 1)
MAT(b, 2, 2, 0, ALL)
MAT(c, 2, 3, ALL, SL(ND, ND, 2))
MAT(d, 3, 2, SL(ND, ND, 2), ALL)
MAT(e, 3, 2, SL(1, ND, 1), SL(1, ND, 1))
MAT(f, 2, 3, SL(1, ND, 1), SL(ND, -1, 1))
MAT(g, 2, 2, 1, 1)
#define CUB(nm, a, b, c, i0, i1, i2) \
    ENTRY bi_c##nm() { Scn s; auto x = s.integer({a, b, c}, 0, 3); basic(s, x, {i0, i1, i2}, {1, 0}); }
CUB(a, 2, 2, 2, ALL, 1, ALL)
CUB(b, 2, 2, 2, ALL, ALL, 0)
CUB(c, 2, 3, 2, 1, SL(1, ND, 1), ALL)
CUB(d, 2, 3, 2, ALL, SL(ND, ND, 2), SL(1, ND, 1))
CUB(e, 3, 2, 2, SL(ND, ND, 2), 0, ALL)
CUB(f, 2, 2, 3, ALL, SL(1, ND, 1), SL(ND, ND, 2))

// dynamic vectors: every slice with small parameters, one move
static void all_dyn(int step) {
    Scn s;
    auto x = s.dyn(0, 0, 3, 0, 3);
    s.decs[0].grow_rows = 2;
    PySlice p{pick_opt("start", -2, 2), pick_opt("stop", -2, 3), step};
    basic(s, x, {p}, {1, 0});
}
ENTRY bi_dyn_1() { all_dyn(1); }
ENTRY bi_dyn_2() { all_dyn(2); }
ENTRY bi_dyn_3() { all_dyn(3); }
// and histories for representative ones
#define DYN(nm, p) \
    ENTRY bi_d##nm() { Scn s; auto x = s.dyn(0, 0, 3, 0, 3, 1, 2); s.decs[0].grow_rows = 2; basic(s, x, {p}, {2, 1}); }
DYN(a, ALL)
DYN(b, SL(1, ND, 1))
DYN(c, SL(-1, ND, 1))
DYN(d, SL(ND, 2, 1))
DYN(e, SL(ND, -1, 1))
DYN(f, SL(1, -1, 1))
DYN(g, SL(-2, -1, 1))
DYN(h, SL(1, 2, 1))
DYN(i, SL(ND, ND, 2))
DYN(j, SL(1, ND, 2))
DYN(k, SL(ND, -1, 2))
DYN(l, SL(-2, 2, 1))
// longer proposals: a change that is undone, or an element removed and put back
#define DYNL(nm, p) \
    ENTRY bi_e##nm() { Scn s; auto x = s.dyn(0, 0, 1, 0, 3, 2, 3); basic(s, x, {p}, {3, 0}); }
DYNL(a, SL(1, ND, 1))
DYNL(b, SL(ND, -1, 1))
DYNL(c, SL(-2, ND, 1))
DYNL(d, SL(1, 2, 1))
DYNL(e, SL(ND, ND, 2))
// dynamic matrices
#define DYM(nm, r, i0, i1) \
    ENTRY bi_g##nm() { Scn s; auto x = s.dyn(r, 0, 3, 0, 2); basic(s, x, {i0, i1}, {2, 1}); }
DYM(a, 2, ALL, 1)
DYM(b, 2, SL(1, ND, 1), ALL)
DYM(c, 2, SL(-1, ND, 1), ALL)
DYM(d, 2, SL(-1, ND, 1), 0)
DYM(e, 2, SL(ND, 1, 1), 1)
DYM(f, 2, SL(ND, -1, 1), ALL)
DYM(g, 3, ALL, SL(ND, ND, 2))
DYM(h, 3, SL(1, ND, 1), SL(1, ND, 1))
DYM(i, 2, SL(ND, ND, 2), 1)
DYM(j, 1, SL(ND, -1, 1), 0)
ENTRY bi_dmat_any() {
    Scn s;
    auto x = s.dyn(2, 0, 3, 0, 3);
    PySlice p{pick_opt("start", -1, 1), pick_opt("stop", -1, 1), int(vp_pick("step", 1, 2))};
    Ix q = ALL;
    int k = vp_pick("col", 0, 2);
    if (k < 2) q = k;
    basic(s, x, {p, q}, {1, 0});
}
ENTRY bi_g3() { Scn s; auto x = s.dyn3(2, 2, 0, 3, 0, 2); basic(s, x, {SL(1, ND, 1), 1, ALL}, {1, 0}); }
ENTRY bi_g3b() { Scn s; auto x = s.dyn3(2, 2, 0, 3, 0, 2); basic(s, x, {ALL, ALL, 1}, {1, 0}); }
// collections
ENTRY bi_set() { Scn s; auto x = s.set(3); basic(s, x, {SL(1, ND, 1)}, {2, 1}); }
ENTRY bi_set_neg() { Scn s; auto x = s.set(3); basic(s, x, {SL(-1, ND, 1)}, {1, 1}); }
ENTRY bi_list() { Scn s; auto x = s.list(3, 1, 3); basic(s, x, {SL(ND, 2, 1)}, {1, 1}); }
ENTRY bi_dlist() { Scn s; auto x = s.dlists(3, 2); basic(s, x[0], {SL(ND, -1, 1)}, {1, 1}); }
// slices of slices, and what is said about their sizes
static void chain(int smin, int smax, bool known) {
    Scn s;
    ArrayNode* x;
    if (known) x = s.dyn(0, 0, 1, smin, smax);
    else {
        auto p = s.g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, 0.0, 1.0, true);
        Dec d{K_DYN}; d.node = p; d.dy = p; d.lo = 0; d.hi = 1; d.smin = 0; d.smax = smax; d.s0min = 0; d.s0max = smax;
        s.decs.push_back(d); s.watch.push_back(p);
        x = p;
    }
    auto m = [&](const char* nm) -> PySlice {
        switch (vp_pick(nm, 0, 8)) {
            case 0: return SL(ND, ND, 2);
            case 1: return SL(1, ND, 1);
            case 2: return SL(1, ND, 2);
            case 3: return SL(ND, -1, 1);
            case 4: return SL(-2, ND, 1);
            case 5: return SL(1, 3, 1);
            case 6: return SL(-3, -1, 1);
            case 7: return SL(ND, 2, 1);
            default: return SL(-3, 2, 1);
        }
    };
    PySlice p = m("first"), q = m("second");
    auto y = slice(s, x, {p}), z = slice(s, x, {q});
    ArrayNode* w = nullptr;
    if (y->contiguous()) w = slice(s, y, {q});
    s.oracle = [=](State& st) {
        basic_oracle(st, x, y, {p});
        basic_oracle(st, x, z, {q});
        if (w) basic_oracle(st, y, w, {q});
    };
    s.run({1, 0});
}
ENTRY bi_chain() { chain(0, 4, true); }
ENTRY bi_chain_min() { chain(2, 4, true); }
ENTRY bi_chain_unb() { chain(0, 4, false); }
// consecutive elements, as in a tour: s[:-1] and s[1:] always pair up
ENTRY bi_tour() {
    Scn s;
    auto x = s.set(3);
    auto a = slice(s, x, {SL(ND, -1, 1)}), b = slice(s, x, {SL(1, ND, 1)});
    auto k = s.binary({});
    auto c = s.add<WhereNode>(k, a, b);
    s.oracle = [=](State& st) {
        Vec v = rd(x, st), r = rd(c, st);
        bool first = rd(k, st)[0] != 0;
        bool ok = r.size() == (v.empty() ? 0 : v.size() - 1);
        for (size_t i = 0; ok && i < r.size(); ++i) ok = ok & (r[i] == vp_ite(first, v[i], v[i + 1]));
        vp_check(ok, "P09", "consecutive elements");
    };
    s.run({1, 1});
}
// sizes of slices of matrices, and of what is computed from them
ENTRY bi_dmat_sizes() {
    Scn s;
    auto x = s.dyn(2, 0, 1, 0, 3);
    auto y = slice(s, x, {SL(1, ND, 1), ALL});
    auto z = slice(s, y, {SL(ND, 1, 1), 1});
    auto w = slice(s, x, {SL(ND, ND, 2), ALL});
    auto v = slice(s, x, {ALL, 0});
    auto u = s.add<NegativeNode>(y);
    s.oracle = [=](State& st) {
        basic_oracle(st, x, y, {SL(1, ND, 1), ALL});
        basic_oracle(st, y, z, {SL(ND, 1, 1), 1});
        basic_oracle(st, x, w, {SL(ND, ND, 2), ALL});
        basic_oracle(st, x, v, {ALL, 0});
        (void)u;
    };
    s.run({1, 0});
}

// larger arrays
#define LB(nm, sh, ...) ENTRY bi_w##nm() { Scn s; auto x = s.integer(Shape sh, -90, 90); basic(s, x, {__VA_ARGS__}, scripts()); }
LB(1, ({9}), SL(2, ND, 3))
LB(2, ({9}), SL(-7, -1, 2))
LB(3, ({4, 5}), SL(1, ND, 2), SL(ND, -1, 3))
LB(4, ({4, 5}), ALL, 3)
LB(5, ({4, 5}), -2, SL(1, ND, 2))
LB(6, ({3, 4, 3}), SL(ND, ND, 2), 2, ALL)
LB(7, ({3, 4, 3}), ALL, SL(1, ND, 2), SL(1, ND, 1))
LB(8, ({2, 2, 3, 2}), 1, ALL, SL(ND, ND, 2), ALL)
#define LD(nm, row, ...) ENTRY bi_x##nm() { Scn s; auto x = s.dyn(row, 0, 90, 0, 8, 2, 6); basic(s, x, {__VA_ARGS__}, few(8, 3, 3)); }
LD(1, 0, SL(2, ND, 1))
LD(2, 0, SL(ND, -2, 1))
LD(3, 0, SL(-4, -1, 1))
LD(4, 0, SL(1, ND, 3))
LD(5, 0, SL(-5, 4, 1))
LD(6, 3, SL(1, -1, 1), SL(ND, ND, 2))
LD(7, 3, SL(-3, ND, 1), 2)
LD(8, 3, SL(ND, 4, 1), ALL)
ENTRY bi_xset() { Scn s; auto x = s.set(8, 1, 7); basic(s, x, {SL(2, -1, 1)}, scripts(12)); }
ENTRY bi_xdl() { Scn s; auto x = s.dlists(8, 3); basic(s, x[1], {SL(1, ND, 1)}, scripts(12)); }

// ---- advanced indexing ----------------------------------------------------------
using Adv = std::vector<ArrayNode*>;  // nullptr: ':'
static void adv_oracle(State& st, const ArrayNode* x, const ArrayNode* y, const Adv& ix) {
    if (!vp_prop("P09")) return;
    Vec v = rd(x, st), r = rd(y, st);
    Shape sh = rdshape(x, st);
    // NumPy: adjacent index arrays put their axis in place, otherwise in front
    int first = -1, last = -1, cnt = 0;
    std::vector<Vec> iv(ix.size());
    Shape ish;
    for (size_t k = 0; k < ix.size(); ++k)
        if (ix[k]) {
            if (first < 0) { first = k; ish = rdshape(ix[k], st); }
            else vp_check(eqs(ish, rdshape(ix[k], st)), "P09", "index arrays of different shapes");
            last = k;
            ++cnt;
            iv[k] = rd(ix[k], st);
        }
    const bool adjacent = last - first + 1 == cnt;
    ssize_t m = ish.empty() ? 1 : ish[0];
    // order in which output axes vary: -1 is the axis of the index arrays
    std::vector<int> axes;
    if (!adjacent) axes.push_back(-1);
    for (size_t k = 0; k < ix.size(); ++k) {
        if (ix[k]) { if (int(k) == first && adjacent) axes.push_back(-1); }
        else axes.push_back(k);
    }
    Shape want;
    for (int a : axes) {
        if (a >= 0) want.push_back(sh[a]);
        else for (auto q : ish) want.push_back(q);
    }
    vp_check(eqs(rdshape(y, st), want), "P09", "shape of an array indexed by arrays");
    Vec e;
    std::vector<ssize_t> pos(ix.size(), 0);
    ssize_t j = 0;
    std::function<void(size_t)> rec = [&](size_t k) {
        if (k == axes.size()) {
            ssize_t flat = 0;
            for (size_t d = 0; d < ix.size(); ++d)
                flat = flat * sh[d] + (ix[d] ? ssize_t(iv[d][j]) : pos[d]);
            e.push_back(v.at(flat));
            return;
        }
        if (axes[k] < 0) { for (j = 0; j < m; ++j) rec(k + 1); return; }
        for (pos[axes[k]] = 0; pos[axes[k]] < sh[axes[k]]; ++pos[axes[k]]) rec(k + 1);
    };
    rec(0);
    vp_check(eqv(r, e), "P09", "values of an array indexed by arrays");
}
static AdvancedIndexingNode* advnode(Scn& s, ArrayNode* x, const Adv& ix) {
    std::vector<AdvancedIndexingNode::array_or_slice> v;
    for (auto i : ix) {
        if (i) v.push_back(i);
        else v.push_back(Slice());
    }
    return s.add<AdvancedIndexingNode>(x, v);
}
static void adv(Scn& s, ArrayNode* x, Adv ix, Cfg c) {
    auto y = advnode(s, x, ix);
    s.oracle = [=](State& st) { adv_oracle(st, x, y, ix); };
    s.run(c);
}
static Vec seq(int n) {
    Vec v;
    for (int i = 0; i < n; ++i) v.push_back(10 + i * i);
    return v;
}
#define AV(nm, cfg, body) ENTRY ai_##nm() { Scn s; body; adv(s, x, ix, Cfg cfg); }
#define C_ , 
AV(clist, ({2, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.list(3)})
AV(cset, ({2, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.set(3)})
AV(cint, ({2, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.integer({2}, 0, 2)})
AV(cscal, ({2, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.integer({}, 0, 2)})
AV(cdyn, ({2, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.dyn(0, 0, 2, 0, 2)})
AV(cdlist, ({1, 1}), auto x = s.constant(seq(3), {3}); Adv ix{s.dlists(3, 2)[1]})
AV(vint, ({1, 1}), auto x = s.integer({3}, -3, 3); Adv ix{s.integer({2}, 0, 2)})
AV(vscal, ({2, 1}), auto x = s.integer({3}, -3, 3); Adv ix{s.integer({}, 0, 2)})
AV(vdyn, ({1, 1}), auto x = s.integer({2}, -3, 3); Adv ix{s.dyn(0, 0, 1, 0, 2)})
AV(vself, ({2, 1}), auto x = s.integer({2}, 0, 1); Adv ix{x})
AV(m_ij, ({1, 1}), auto x = s.constant(seq(4), {2 C_ 2}); Adv ix{s.integer({2}, 0, 1) C_ s.integer({2}, 0, 1)})
AV(m_ij_var, ({1, 0}), auto x = s.integer({2 C_ 2}, 0, 3); Adv ix{s.integer({2}, 0, 1) C_ s.integer({2}, 0, 1)})
AV(m_set2, ({2, 1}), auto x = s.constant(seq(9), {3 C_ 3}); auto i = s.set(3); Adv ix{i C_ i})
AV(m_row, ({1, 1}), auto x = s.integer({2 C_ 2}, 0, 3); Adv ix{s.integer({2}, 0, 1) C_ nullptr})
AV(m_row_s, ({1, 1}), auto x = s.integer({2 C_ 2}, 0, 3); Adv ix{s.integer({}, 0, 1) C_ nullptr})
AV(m_row_d, ({1, 1}), auto x = s.integer({2 C_ 2}, 0, 2); Adv ix{s.dyn(0, 0, 1, 0, 2) C_ nullptr})
AV(m_row_d23, ({1, 0}), auto x = s.integer({2 C_ 3}, 0, 2); Adv ix{s.dyn(0, 0, 1, 0, 2) C_ nullptr})
AV(m_col, ({1, 1}), auto x = s.integer({2 C_ 2}, 0, 3); Adv ix{nullptr C_ s.integer({2}, 0, 1)})
AV(m_col_s, ({1, 1}), auto x = s.integer({2 C_ 2}, 0, 3); Adv ix{nullptr C_ s.integer({}, 0, 1)})
AV(m_col_23, ({1, 0}), auto x = s.integer({2 C_ 3}, 0, 3); Adv ix{nullptr C_ s.integer({2}, 0, 2)})
AV(m_crow_l, ({2, 0}), auto x = s.constant(seq(6), {3 C_ 2}); Adv ix{s.list(3) C_ nullptr})
AV(m_ccol_l, ({2, 0}), auto x = s.constant(seq(6), {2 C_ 3}); Adv ix{nullptr C_ s.list(3)})
AV(c_0, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{s.integer({2}, 0, 1) C_ nullptr C_ nullptr})
AV(c_1, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{nullptr C_ s.integer({2}, 0, 1) C_ nullptr})
AV(c_2, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{nullptr C_ nullptr C_ s.integer({2}, 0, 1)})
AV(c_01, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); auto i = s.integer({2}, 0, 1); auto j = s.list(2); Adv ix{i C_ j C_ nullptr})
AV(c_12, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); auto i = s.integer({2}, 0, 1); auto j = s.list(2); Adv ix{nullptr C_ i C_ j})
AV(c_02, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); auto i = s.integer({2}, 0, 1); auto j = s.list(2); Adv ix{i C_ nullptr C_ j})
AV(c_02d, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); auto i = s.dyn(0, 0, 1, 0, 2); Adv ix{i C_ nullptr C_ i})
AV(c_1_23, ({1, 0}), auto x = s.constant(seq(12), {2 C_ 3 C_ 2}); Adv ix{nullptr C_ s.integer({2}, 0, 2) C_ nullptr})
AV(c_2s, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{nullptr C_ nullptr C_ s.integer({}, 0, 1)})
AV(c_1s, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{nullptr C_ s.integer({}, 0, 1) C_ nullptr})
AV(c_02s, ({1, 0}), auto x = s.integer({2 C_ 2 C_ 2}, 0, 3); Adv ix{s.integer({}, 0, 1) C_ nullptr C_ s.integer({}, 0, 1)})
// indexing a dynamic array
AV(d_col, ({1, 1}), auto x = s.dyn(2, 0, 3, 0, 2); Adv ix{nullptr C_ s.integer({2}, 0, 1)})
AV(d_col_3, ({1, 0}), auto x = s.dyn(3, 0, 3, 0, 2); Adv ix{nullptr C_ s.integer({2}, 0, 2)})
AV(d_elem, ({2, 1}), auto x = s.dyn(0, 0, 3, 2, 3); Adv ix{s.integer({2}, 0, 1)})
AV(d_elem_s, ({2, 1}), auto x = s.dyn(0, 0, 3, 2, 3); Adv ix{s.integer({}, 0, 1)})
AV(d_elem_d, ({1, 1}), auto x = s.dyn(0, 0, 3, 2, 3); Adv ix{s.dyn(0, 0, 1, 0, 2)})
AV(d_row, ({1, 1}), auto x = s.dyn(2, 0, 3, 1, 2); auto i = s.integer({}, 0, 0); Adv ix{i C_ nullptr})
AV(d_row2, ({1, 0}), auto x = s.dyn(2, 0, 3, 2, 3); auto i = s.integer({2}, 0, 1); Adv ix{i C_ nullptr})
// larger arrays
// (the smallest and largest of many symbols is hard for the solver: only some are, for the bounds)
#define SYMC(nm, n) Vec nm##v; for (int i = 0; i < (n); ++i) nm##v.push_back(entry_of(i, -90, 90));
AV(wl, (scripts(8)), SYMC(x, 8) auto x = s.constant(xv, {8}); Adv ix{s.list(8)})
AV(ws, (scripts(8)), SYMC(x, 8) auto x = s.constant(xv, {8}); Adv ix{s.set(8, 1, 7)})
AV(wd, (scripts(8)), SYMC(x, 8) auto x = s.constant(xv, {8}); Adv ix{s.dlists(8, 3)[1]})
AV(wll, (scripts(8)), SYMC(x, 25) auto x = s.constant(xv, {5 C_ 5}); auto i = s.list(5); auto j = s.list(5); Adv ix{i C_ j})
AV(wss, (scripts(8)), SYMC(x, 25) auto x = s.constant(xv, {5 C_ 5}); auto i = s.set(5); Adv ix{i C_ i})
AV(wrow, (scripts(8)), SYMC(x, 15) auto x = s.constant(xv, {5 C_ 3}); Adv ix{s.set(5) C_ nullptr})
AV(wcol, (scripts(8)), SYMC(x, 15) auto x = s.constant(xv, {3 C_ 5}); Adv ix{nullptr C_ s.list(5)})
AV(wcube, (scripts(8)), SYMC(x, 27) auto x = s.constant(xv, {3 C_ 3 C_ 3}); auto i = s.list(3); auto j = s.list(3); Adv ix{i C_ nullptr C_ j})
AV(wvar, (few(8, 2, 2)), auto x = s.integer({6}, -90, 90); Adv ix{s.list(6)})
AV(wvari, (few(8, 2, 2)), auto x = s.integer({6}, -90, 90); Adv ix{s.integer({4}, 0, 5)})
AV(wvars, (few(8, 2, 2)), auto x = s.integer({4 C_ 3}, -90, 90); Adv ix{s.set(4) C_ nullptr})
// sizes of what is indexed by dynamic arrays
ENTRY ai_sizes() {
    Scn s;
    auto x = s.constant(seq(6), {3, 2});
    auto i = s.set(3, 1, 3);
    auto y = advnode(s, x, {i, nullptr});
    auto a = slice(s, i, {SL(ND, ND, 2)});
    auto z = advnode(s, x, {a, nullptr});
    auto w = slice(s, y, {ALL, 1});
    auto neg = s.add<NegativeNode>(y);
    (void)w; (void)neg;
    s.oracle = [=](State& st) {
        adv_oracle(st, x, y, {i, nullptr});
        adv_oracle(st, x, z, {a, nullptr});
    };
    s.run({1, 0});
}

// ---- permutations -----------------------------------------------------------------
static void perm(Shape sh, Cfg c) {
    Scn s;
    ssize_t total = 1;
    for (auto k : sh) total *= k;
    Vec base;
    for (ssize_t i = 0; i < total; ++i) base.push_back(7 + 3 * i + (i % 2));
    auto x = s.constant(base, sh);
    auto o = s.list(sh[0]);
    auto y = s.add<PermutationNode>(x, o);
    s.oracle = [=](State& st) {
        Vec p = rd(o, st), r = rd(y, st), e;
        for (ssize_t f = 0; f < total; ++f) {
            ssize_t rem = f, flat = 0, mul = 1;
            for (ssize_t ax = ssize_t(sh.size()) - 1; ax >= 0; --ax) {
                flat += ssize_t(p[rem % sh[ax]]) * mul;
                mul *= sh[ax];
                rem /= sh[ax];
            }
            e.push_back(base[flat]);
        }
        vp_check(eqv(r, e), "P09", "values of a permuted array");
        vp_check(eqs(rdshape(y, st), sh), "P09", "shape of a permuted array");
    };
    s.run(c);
}
ENTRY pm_w1() { perm({7}, scripts(8)); }
ENTRY pm_w2() { perm({5, 5}, scripts(8)); }
ENTRY pm_w3() { perm({3, 3, 3}, scripts(8)); }
ENTRY pm_1() { perm({3}, {2, 1}); }
ENTRY pm_2() { perm({3, 3}, {2, 1}); }
ENTRY pm_3() { perm({2, 2, 2}, {2, 1}); }
