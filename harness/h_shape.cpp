// Concatenate, reshape, size, and quadratic models.
#include "h_common.hpp"

// ---- concatenate -----------------------------------------------------------------
static void concat(Scn& s, std::vector<ArrayNode*> in, ssize_t axis, Cfg c) {
    auto y = s.add<ConcatenateNode>(in, axis);
    s.oracle = [=](State& st) {
        if (!vp_prop("P10")) return;
        Shape want = rdshape(in[0], st);
        want[axis] = 0;
        for (auto a : in) want[axis] += rdshape(a, st)[axis];
        vp_check(eqs(rdshape(y, st), want), "P10", "shape of a concatenation");
        ssize_t outer = 1, inner = 1;
        for (ssize_t i = 0; i < axis; ++i) outer *= want[i];
        for (ssize_t i = axis + 1; i < ssize_t(want.size()); ++i) inner *= want[i];
        Vec e, r = rd(y, st);
        std::vector<Vec> v;
        for (auto a : in) v.push_back(rd(a, st));
        for (ssize_t o = 0; o < outer; ++o)
            for (size_t k = 0; k < in.size(); ++k) {
                ssize_t w = rdshape(in[k], st)[axis] * inner;
                for (ssize_t i = 0; i < w; ++i) e.push_back(v[k][o * w + i]);
            }
        vp_check(eqv(r, e), "P10", "values of a concatenation");
    };
    s.run(c);
}
#define CC(nm, ax, cfg, ...) ENTRY co_##nm() { Scn s; concat(s, {__VA_ARGS__}, ax, Cfg cfg); }
CC(vec, 0, ({2, 1}), s.integer({2}, -3, 3), s.integer({2}, -3, 3))
CC(vec3, 0, ({1, 1}), s.integer({1}, -3, 3), s.integer({2}, -3, 3), s.integer({1}, 5, 7))
CC(one, 0, ({2, 1}), s.integer({2}, -3, 3))
CC(m0, 0, ({1, 1}), s.integer({1, 2}, -3, 3), s.integer({2, 2}, -3, 3))
CC(m1, 1, ({1, 1}), s.integer({2, 1}, -3, 3), s.integer({2, 2}, -3, 3))
CC(m1c, 1, ({2, 1}), s.integer({2, 2}, -3, 3), s.constant({1, 2}, {2, 1}))
CC(c0, 0, ({1, 0}), s.integer({1, 2, 2}, -3, 3), s.integer({1, 2, 2}, -3, 3))
CC(c1, 1, ({1, 0}), s.integer({2, 1, 2}, -3, 3), s.integer({2, 2, 2}, -3, 3))
CC(c2, 2, ({1, 0}), s.integer({2, 2, 1}, -3, 3), s.integer({2, 2, 2}, -3, 3))
CC(mix, 0, ({1, 1}), s.integer({2}, -3, 3), s.binary({2}))
CC(w0, 0, (scripts()), s.integer({2, 3}, -90, 90), s.integer({3, 3}, -90, 90), s.integer({1, 3}, -90, 90))
CC(w1, 1, (scripts()), s.integer({3, 2}, -90, 90), s.integer({3, 4}, -90, 90), s.integer({3, 1}, -90, 90))
CC(w2, 1, (scripts()), s.integer({2, 3, 2}, -90, 90), s.integer({2, 1, 2}, -90, 90), s.integer({2, 2, 2}, -90, 90))
CC(w3, 2, (scripts()), s.integer({2, 2, 3}, -90, 90), s.integer({2, 2, 1}, -90, 90))
ENTRY co_same() { Scn s; auto x = s.integer({2}, -3, 3); concat(s, {x, x}, 0, {2, 1}); }
ENTRY co_strd() {
    Scn s;
    auto p = s.integer({2, 2}, -3, 3);
    auto x = s.add<BasicIndexingNode>(p, Slice(), ssize_t(1));
    auto q = s.integer({1}, -3, 3);
    concat(s, {q, x}, 0, {1, 1});
}
ENTRY co_list() { Scn s; auto x = s.list(2); auto z = s.list(3); concat(s, {x, z}, 0, {1, 1}); }

// ---- reshape ----------------------------------------------------------------------
static void reshape(Shape from, Shape to, Cfg c) {
    Scn s;
    auto x = s.integer(from, -4, 4);
    auto y = s.add<ReshapeNode>(x, Shape(to));
    auto z = s.add<NegativeNode>(y);
    s.oracle = [=](State& st) {
        vp_check(eqs(rdshape(y, st), to), "P10", "shape of a reshaped array");
        vp_check(eqv(rd(x, st), rd(y, st)), "P10", "values of a reshaped array");
        (void)z;
    };
    s.run(c);
}
ENTRY sh_w1() { reshape({12}, {3, 4}, scripts()); }
ENTRY sh_w2() { reshape({3, 4}, {2, 3, 2}, scripts()); }
ENTRY sh_4_22() { reshape({4}, {2, 2}, {2, 1}); }
ENTRY sh_22_4() { reshape({2, 2}, {4}, {2, 1}); }
ENTRY sh_23_32() { reshape({2, 3}, {3, 2}, {1, 1}); }
ENTRY sh_1_s() { reshape({1}, {}, {2, 1}); }
ENTRY sh_s_111() { reshape({}, {1, 1, 1}, {2, 1}); }
ENTRY sh_8_222() { reshape({8}, {2, 2, 2}, {1, 0}); }
ENTRY sh_slice() {
    Scn s;
    auto x = s.integer({3, 2}, -4, 4);
    auto p = s.add<BasicIndexingNode>(x, Slice(1, std::nullopt), Slice());
    auto y = s.add<ReshapeNode>(p, Shape{4});
    auto w = s.add<BasicIndexingNode>(y, Slice(std::nullopt, std::nullopt, 2));
    s.oracle = [=](State& st) {
        vp_check(eqs(rdshape(y, st), Shape{4}), "P10", "shape of a reshaped array");
        vp_check(eqv(rd(p, st), rd(y, st)), "P10", "values of a reshaped array");
        Vec v = rd(x, st);
        vp_check(eqv(rd(w, st), {v[2], v[4]}), "P10|P09", "slice of a reshaped array");
    };
    s.run({1, 1});
}

// ---- size --------------------------------------------------------------------------
static void size(Scn& s, ArrayNode* x, Cfg c) {
    auto y = s.add<SizeNode>(x);
    auto z = s.add<NegativeNode>(y);
    s.oracle = [=](State& st) {
        (void)z;
        vp_check(y->ndim() == 0 && rd(y, st).size() == 1, "P10", "the size is a scalar");
        vp_check(rd(y, st)[0] == double(rd(x, st).size()), "P10", "value of the size");
    };
    s.run(c);
}
ENTRY sz_wdyn() { Scn s; auto x = s.dyn(3, 0, 2, 0, 5, 1, 3); size(s, x, scripts(8)); }
ENTRY sz_wset() { Scn s; auto x = s.set(9, 2, 8); size(s, x, scripts(8)); }
ENTRY sz_wdlist() { Scn s; auto x = s.dlists(8, 3); size(s, x[2], scripts(8)); }
ENTRY sz_dyn() { Scn s; auto x = s.dyn(0, 0, 2, 0, 3); s.decs[0].grow_rows = 2; size(s, x, {2, 1}); }
ENTRY sz_dyn2() { Scn s; auto x = s.dyn(2, 0, 2, 0, 2); size(s, x, {2, 1}); }
ENTRY sz_set() { Scn s; auto x = s.set(3, 1, 3); size(s, x, {2, 1}); }
ENTRY sz_list() { Scn s; auto x = s.list(3, 0, 2); size(s, x, {1, 1}); }
ENTRY sz_dlist() { Scn s; auto x = s.dlists(3, 2); size(s, x[1], {1, 1}); }
ENTRY sz_int() { Scn s; auto x = s.integer({2, 2}, 0, 3); size(s, x, {1, 1}); }
ENTRY sz_slice() {
    Scn s;
    auto x = s.set(4, 1, 4);
    static const std::optional<ssize_t> N;
    Slice c[] = {Slice(1, N), Slice(N, -1), Slice(-2, N), Slice(N, N, 2), Slice(1, 3), Slice(N, 3, 2), Slice(-3, -1), Slice(-3, 2)};
    auto p = s.add<BasicIndexingNode>(x, c[vp_pick("slice", 0, 7)]);
    size(s, p, {1, 0});
}
ENTRY sz_slice2() {
    Scn s;
    auto x = s.dyn(2, 0, 1, 0, 3);
    static const std::optional<ssize_t> N;
    Slice c[] = {Slice(1, N), Slice(N, -1), Slice(-2, N), Slice(N, N, 2), Slice(1, 3), Slice(N, 1)};
    ArrayNode* p = vp_pick("col", 0, 1) ? s.add<BasicIndexingNode>(x, c[vp_pick("slice", 0, 5)], ssize_t(1))
                                        : s.add<BasicIndexingNode>(x, c[vp_pick("slice", 0, 5)], Slice());
    size(s, p, {1, 0});
}
ENTRY sz_adv() {
    Scn s;
    auto i = s.set(3);
    auto x = s.constant({1, 2, 3, 4, 5, 6}, {3, 2});
    auto p = s.add<AdvancedIndexingNode>(x, i, Slice());
    size(s, p, {1, 1});
}

// ---- quadratic models ----------------------------------------------------------------
// value = sum_i lin_i x_i + sum_i sq_i x_i^2 + sum_{i<j} q_ij x_i x_j
struct Q {
    ssize_t n;
    Vec lin, sq;
    std::vector<Vec> q;
    double value(const Vec& x) const {
        double acc = 0;
        for (ssize_t i = 0; i < n; ++i) {
            acc = acc + lin[i] * x[i] + sq[i] * (x[i] * x[i]);
            for (ssize_t j = i + 1; j < n; ++j) acc = acc + q[i][j] * (x[i] * x[j]);
        }
        return acc;
    }
};
static void qm(int kind, ssize_t n, bool symbolic, Cfg c) {
    Scn s;
    ArrayNode* x;
    switch (kind) {
        case 0: x = s.binary({n}); break;
        case 1: x = s.integer({n}, -2, 2); break;
        case 2: x = s.list(n); break;
        default: {
            auto p = s.integer({n, 2}, -1, 2);
            x = s.add<BasicIndexingNode>(p, Slice(), ssize_t(1));
        }
    }
    Q q{n, Vec(n), Vec(n), std::vector<Vec>(n, Vec(n))};
    QuadraticModel m{int(n)};
    Vec lin2(n), sq2(n);
    std::vector<int> rows, cols;
    Vec qs;
    for (ssize_t i = 0; i < n; ++i) {
        q.lin[i] = symbolic ? vp_num("lin", -2, 2) : double(2 * i - 3);
        q.sq[i] = symbolic ? vp_num("sq", -1, 2) : double(1 - 3 * (i % 2));
        for (ssize_t j = i + 1; j < n; ++j) q.q[i][j] = symbolic ? vp_num("quad", -2, 2) : double(i + 2 * j - 4);
    }
    // biases are given one by one, in bulk, in either order, set and added to
    for (ssize_t i = 0; i < n; ++i) {
        if (i % 2) m.set_linear(i, q.lin[i]);
        else { m.add_linear(i, 5); m.add_linear(i, q.lin[i] - 6); lin2[i] = 1; }
        if (i % 2) m.add_quadratic(i, i, q.sq[i]);
        else { m.set_quadratic(i, i, 7); m.set_quadratic(i, i, q.sq[i] - 1); sq2[i] = 1; }
        for (ssize_t j = i + 1; j < n; ++j) {
            if ((i + j) % 2) m.set_quadratic(j, i, q.q[i][j]);
            else { m.set_quadratic(i, j, q.q[i][j] - 3); rows.push_back(j); cols.push_back(i); qs.push_back(3); }
        }
    }
    m.add_linear(lin2.data());
    m.add_squares(sq2.data());
    m.add_quadratic(ssize_t(qs.size()), rows.data(), cols.data(), qs.data());
    if (vp_prop("P11")) {
        bool ok = m.num_variables() == n;
        Vec l(n), sq(n);
        m.get_linear(l.data());
        m.get_squares(sq.data());
        for (ssize_t i = 0; i < n; ++i) {
            ok = ok & (m.get_linear(i) == q.lin[i]) & (l[i] == q.lin[i]) & (sq[i] == q.sq[i]) & (m.get_quadratic(i, i) == q.sq[i]);
            for (ssize_t j = i + 1; j < n; ++j) ok = ok & (m.get_quadratic(i, j) == q.q[i][j]) & (m.get_quadratic(j, i) == q.q[i][j]);
        }
        vp_check(ok, "P11", "biases read back from a quadratic model");
        ssize_t k = m.num_interactions();
        vp_check(k == n * (n - 1) / 2, "P11", "number of interactions of a quadratic model");
        std::vector<int> r(k), cc(k);
        Vec v(k);
        m.get_quadratic(r.data(), cc.data(), v.data());
        bool okq = true;
        for (ssize_t i = 0; i < k; ++i) okq = okq & (r[i] < cc[i]) & (v[i] == q.q[r[i]][cc[i]]);
        vp_check(okq, "P11", "interactions read back from a quadratic model");
    }
    auto y = s.add<QuadraticModelNode>(x, std::move(m));
    auto z = s.add<NegativeNode>(y);
    s.oracle = [=](State& st) {
        (void)z;
        vp_check(y->ndim() == 0 && rd(y, st)[0] == q.value(rd(x, st)), "P11", "value of a quadratic model");
    };
    s.run(c);
}
ENTRY qm_bin() { qm(0, 3, false, {2, 1}); }
ENTRY qm_bin_sym() { qm(0, 3, true, {1, 0}); }
ENTRY qm_bin4() { qm(0, 4, false, {1, 0}); }
ENTRY qm_int() { qm(1, 2, false, {2, 1}); }
ENTRY qm_int_sym() { qm(1, 2, true, {1, 0}); }
ENTRY qm_int3() { qm(1, 3, false, {1, 0}); }
ENTRY qm_list() { qm(2, 3, false, {1, 1}); }
ENTRY qm_strd() { qm(3, 2, false, {1, 1}); }
ENTRY qm_wbin() { qm(0, 6, false, few(8, 3, 0)); }
ENTRY qm_wint() { qm(1, 5, false, few(8, 2, 1)); }
ENTRY qm_wlist() { qm(2, 6, false, scripts(8)); }
// sparse interactions
ENTRY qm_sparse() {
    Scn s;
    auto x = s.integer({4}, -1, 2);
    QuadraticModel m(4);
    m.set_quadratic(3, 0, 2);
    m.add_quadratic(1, 3, -1);
    m.set_linear(2, 4);
    vp_check(m.num_interactions() == 2 && m.get_quadratic(0, 3) == 2 && m.get_quadratic(0, 1) == 0 && m.get_quadratic(2, 1) == 0, "P11", "sparse interactions");
    auto y = s.add<QuadraticModelNode>(x, std::move(m));
    s.oracle = [=](State& st) {
        Vec v = rd(x, st);
        vp_check(rd(y, st)[0] == 2 * (v[0] * v[3]) - v[1] * v[3] + 4 * v[2], "P11", "value of a quadratic model");
    };
    s.run({1, 1});
}
