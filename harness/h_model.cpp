// Small versions of typical models: several kinds of symbols on top of each other.
#include "h_common.hpp"

static const std::optional<ssize_t> N;
static Vec table(ssize_t n, int lo = 0, int hi = 30) {
    Vec v;
    // in larger tables a few entries are symbolic
    for (ssize_t i = 0; i < n; ++i)
        v.push_back(n <= 4 || (5 * i + 2) % n < (vp_prop("P05") ? 1 : 3) ? vp_num("table", lo, hi) : double(lo + (7 * i + 3) % (hi - lo + 1)));
    return v;
}
static void value(Scn& s, const ArrayNode* y, std::function<double(State&)> f, Cfg c) {
    s.oracle = [=](State& st) {
        if (!(vp_prop("P07") || vp_prop("P08") || vp_prop("P09"))) return;
        Vec v = rd(y, st);
        vp_check(v.size() == 1 && bool(v[0] == f(st)), "P07|P08|P09", "value of a composed model");
    };
    s.run(c);
}
// round trip
static void tsp(ssize_t n, Cfg c) {
    Scn s;
    auto x = s.list(n);
    Vec d = table(n * n);
    auto m = s.constant(d, {n, n});
    auto a = s.add<BasicIndexingNode>(x, Slice(N, -1)), b = s.add<BasicIndexingNode>(x, Slice(1, N));
    auto last = s.add<BasicIndexingNode>(x, ssize_t(-1)), first = s.add<BasicIndexingNode>(x, ssize_t(0));
    auto path = s.add<SumNode>(s.add<AdvancedIndexingNode>(m, a, b));
    auto back = s.add<AdvancedIndexingNode>(m, last, first);
    auto y = s.add<AddNode>(path, back);
    value(s, y, [=](State& st) {
        Vec v = rd(x, st);
        double acc = 0;
        for (ssize_t i = 0; i < n; ++i) acc = acc + d[ssize_t(v[i]) * n + ssize_t(v[(i + 1) % n])];
        return acc;
    }, c);
}
ENTRY md_tsp() { tsp(3, {2, 1}); }
ENTRY md_tspw() { tsp(6, scripts(8)); }
// quadratic assignment
static void qap(ssize_t n, Cfg c) {
    Scn s;
    auto x = s.list(n);
    Vec d = table(n * n), w = table(n * n, 1, 3);
    auto p = s.add<PermutationNode>(s.constant(d, {n, n}), x);
    auto y = s.add<SumNode>(s.add<MultiplyNode>(s.constant(w, {n, n}), p));
    value(s, y, [=](State& st) {
        Vec v = rd(x, st);
        double acc = 0;
        for (ssize_t i = 0; i < n; ++i)
            for (ssize_t j = 0; j < n; ++j) acc = acc + w[i * n + j] * d[ssize_t(v[i]) * n + ssize_t(v[j])];
        return acc;
    }, c);
}
ENTRY md_qap() { qap(2, {2, 1}); }
ENTRY md_qapw() { qap(4, scripts(6)); }
// routes of several vehicles
static void cvrp(ssize_t n, ssize_t k, Cfg c) {
    Scn s;
    auto r = s.dlists(n, k);
    Vec d = table(n * n), depot = table(n), dem = table(n, 1, 5);
    auto m = s.constant(d, {n, n});
    auto q = s.constant(depot, {n}), w = s.constant(dem, {n});
    std::vector<ArrayNode*> parts;
    for (auto x : r) {
        parts.push_back(s.add<SumNode>(s.add<AdvancedIndexingNode>(q, s.add<BasicIndexingNode>(x, Slice(N, 1)))));
        parts.push_back(s.add<SumNode>(s.add<AdvancedIndexingNode>(q, s.add<BasicIndexingNode>(x, Slice(-1, N)))));
        parts.push_back(s.add<SumNode>(s.add<AdvancedIndexingNode>(m, s.add<BasicIndexingNode>(x, Slice(N, -1)), s.add<BasicIndexingNode>(x, Slice(1, N)))));
        s.add<LessEqualNode>(s.add<SumNode>(s.add<AdvancedIndexingNode>(w, x)), s.scalar(7));
    }
    auto y = s.add<NaryAddNode>(std::span<ArrayNode*>(parts));
    value(s, y, [=](State& st) {
        double acc = 0;
        for (auto x : r) {
            Vec v = rd(x, st);
            if (v.empty()) continue;
            acc = acc + depot[ssize_t(v.front())] + depot[ssize_t(v.back())];
            for (size_t i = 0; i + 1 < v.size(); ++i) acc = acc + d[ssize_t(v[i]) * n + ssize_t(v[i + 1])];
        }
        return acc;
    }, c);
}
ENTRY md_cvrp() { cvrp(2, 2, {1, 1}); }
ENTRY md_cvrpw() { cvrp(6, 3, scripts(6)); }
// selection of items under a capacity
static void knapsack(ssize_t n, Cfg c, bool set) {
    Scn s;
    Vec v = table(n), w = table(n, 1, 5);
    ArrayNode *x, *y;
    if (set) {
        x = s.set(n);
        y = s.add<SumNode>(s.add<AdvancedIndexingNode>(s.constant(v, {n}), x));
        s.add<LessEqualNode>(s.add<SumNode>(s.add<AdvancedIndexingNode>(s.constant(w, {n}), x)), s.scalar(6));
    } else {
        x = s.binary({n});
        y = s.add<SumNode>(s.add<MultiplyNode>(s.constant(v, {n}), x));
        s.add<LessEqualNode>(s.add<SumNode>(s.add<MultiplyNode>(x, s.constant(w, {n}))), s.scalar(6));
    }
    value(s, y, [=](State& st) {
        Vec a = rd(x, st);
        double acc = 0;
        if (set) for (double e : a) acc = acc + v[ssize_t(e)];
        else for (ssize_t i = 0; i < n; ++i) acc = acc + v[i] * a[i];
        return acc;
    }, c);
}
ENTRY md_knap() { knapsack(3, {1, 0}, true); }
ENTRY md_knapw() { knapsack(7, scripts(8), true); }
ENTRY md_knapb() { knapsack(2, {1, 1}, false); }
ENTRY md_knapbw() { knapsack(7, few(8, 2, 0), false); }
// completion times: chains of maxima over rows picked by a list
static void shop(ssize_t n, Cfg c) {
    Scn s;
    auto x = s.list(n);
    Vec t;
    for (ssize_t i = 0; i < 2 * n; ++i) t.push_back(n > 2 && i >= 2 ? double((5 * i) % 7) : vp_num("time", 0, 9));
    auto m = s.constant(t, {2, n});
    std::vector<ArrayNode*> row;
    for (ssize_t k = 0; k < 2; ++k) row.push_back(s.add<AdvancedIndexingNode>(m, s.scalar(double(k)), s.add<BasicIndexingNode>(x, ssize_t(0))));
    ArrayNode *a = row[0], *b = s.add<AddNode>(row[0], row[1]);
    for (ssize_t j = 1; j < n; ++j) {
        auto at = s.add<BasicIndexingNode>(x, j);
        a = s.add<AddNode>(a, s.add<AdvancedIndexingNode>(m, s.scalar(0), at));
        b = s.add<AddNode>(s.add<MaximumNode>(a, b), s.add<AdvancedIndexingNode>(m, s.scalar(1), at));
    }
    value(s, b, [=](State& st) {
        Vec v = rd(x, st);
        double e = 0, f = 0;
        for (ssize_t j = 0; j < n; ++j) {
            e = e + t[ssize_t(v[j])];
            f = vp_ite(e >= f, e, f) + t[n + ssize_t(v[j])];
        }
        return f;
    }, c);
}
ENTRY md_shop() { shop(2, {1, 1}); }
ENTRY md_shopw() { shop(4, scripts(6)); }
// no two jobs at the same time
ENTRY md_jobs() {
    Scn s;
    auto x = s.integer({2}, 0, 9);
    auto a = s.add<BasicIndexingNode>(x, ssize_t(0)), b = s.add<BasicIndexingNode>(x, ssize_t(1));
    auto p = s.add<LessEqualNode>(s.add<AddNode>(a, s.scalar(3)), b), q = s.add<LessEqualNode>(s.add<AddNode>(b, s.scalar(2)), a);
    auto y = s.add<OrNode>(p, q);
    auto z = s.add<MaxNode>(x);
    (void)z;
    value(s, y, [=](State& st) {
        Vec v = rd(x, st);
        return vp_ite((v[0] + 3 <= v[1]) | (v[1] + 2 <= v[0]), 1, 0);
    }, {1, 1});
}
// bins as disjoint sets
static void bins(ssize_t n, ssize_t k, Cfg c) {
    Scn s;
    auto r = s.dbits(n, k);
    Vec w = table(n, 1, 9);
    auto m = s.constant(w, {n});
    std::vector<ArrayNode*> used;
    for (auto x : r) {
        used.push_back(s.add<AnyNode>(x));
        s.add<LessEqualNode>(s.add<SumNode>(s.add<MultiplyNode>(m, x)), s.scalar(10));
    }
    auto y = s.add<NaryAddNode>(std::span<ArrayNode*>(used));
    value(s, y, [=](State& st) {
        double acc = 0;
        for (auto x : r) {
            bool any = false;
            for (double e : rd(x, st)) any = any | (e != 0);
            acc = acc + vp_ite(any, 1, 0);
        }
        return acc;
    }, c);
}
ENTRY md_bins() { bins(2, 2, {1, 1}); }
ENTRY md_binsw() { bins(6, 3, scripts(8)); }
// choices that depend on sizes and sums of dynamic arrays
static void choice(ssize_t n, Cfg c) {
    Scn s;
    auto x = s.set(n);
    Vec w = table(n, -9, 9);
    auto e = s.add<AdvancedIndexingNode>(s.constant(w, {n}), x);
    auto few = s.add<LessEqualNode>(s.add<SizeNode>(x), s.scalar(double(n / 2)));
    ArrayNode *sq = s.add<SquareNode>(e), *ng = s.add<NegativeNode>(e);
    auto y = s.add<SumNode>(s.add<WhereNode>(few, sq, ng));
    auto sl = s.add<BasicIndexingNode>(e, Slice(1, N));
    s.add<SumNode>(s.add<AbsoluteNode>(sl));
    value(s, y, [=](State& st) {
        Vec v = rd(x, st);
        bool f = ssize_t(v.size()) <= n / 2;
        double acc = 0;
        for (double i : v) acc = acc + vp_ite(f, w[ssize_t(i)] * w[ssize_t(i)], 0 - w[ssize_t(i)]);
        return acc;
    }, c);
}
ENTRY md_choice() { choice(2, {2, 1}); }
ENTRY md_choicew() { choice(5, scripts(3)); }
// tables of variables: reshaped, concatenated, summed along axes
static void grid(Cfg c, int lo, int hi) {
    Scn s;
    auto x = s.integer({2, 3}, lo, hi);
    auto b = s.binary({2});
    auto r = s.add<ReshapeNode>(x, Shape{6});
    auto t = s.add<ReshapeNode>(r, Shape{3, 2});
    auto ps = s.add<PartialSumNode>(t, 0);
    auto cc = s.add<ConcatenateNode>(std::vector<ArrayNode*>{ps, b, r}, ssize_t(0));
    auto y = s.add<SumNode>(s.add<MultiplyNode>(cc, cc));
    value(s, y, [=](State& st) {
        Vec v = rd(x, st), q = rd(b, st);
        double e = v[0] + v[2] + v[4], o = v[1] + v[3] + v[5], acc = e * e + o * o;
        for (double z : q) acc = acc + z * z;
        for (double z : v) acc = acc + z * z;
        return acc;
    }, c);
}
ENTRY md_grid() { grid({1, 0}, -2, 2); }
ENTRY md_gridw() { grid(few(6, 2, 1), -9, 9); }
