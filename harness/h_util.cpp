// Slices (P19), iterators and views (P20), merging of recorded changes (P21).
#include "h_common.hpp"

// ---- slices ------------------------------------------------------------------
// what Python's slice.indices(n) gives
struct Ind { ssize_t start, stop, step; };
static ssize_t clip(ssize_t v, ssize_t n, ssize_t lower, ssize_t upper) {
    if (v < 0) {
        v += n;
        return v < lower ? lower : v;
    }
    return v > upper ? upper : v;
}
static Ind indices(std::optional<ssize_t> a, std::optional<ssize_t> b, std::optional<ssize_t> c, ssize_t n) {
    ssize_t step = c.value_or(1);
    ssize_t lower = step < 0 ? -1 : 0, upper = step < 0 ? n - 1 : n;
    return {a ? clip(*a, n, lower, upper) : (step < 0 ? upper : lower), b ? clip(*b, n, lower, upper) : (step < 0 ? lower : upper), step};
}
static constexpr ssize_t BIG = ssize_t(1) << 61;
static std::optional<ssize_t> opt(const char* has, const char* name, ssize_t lo, ssize_t hi) {
    if (!vp_pick(has, 0, 1)) return std::nullopt;
    return vp_int(name, lo, hi);
}
static void fit(ssize_t maxn, ssize_t lo, ssize_t hi, bool len) {
    auto a = opt("has_start", "start", lo, hi), b = opt("has_stop", "stop", lo, hi), c = opt("has_step", "step", lo, hi);
    ssize_t n = vp_int("n", 0, maxn);
    if (c && *c == 0) return;
    Slice s(a, b, c);
    Slice f = s.fit(n), g = s.fit_at(n);
    Ind want = indices(a, b, c, n);
    // a fitted slice selects the elements of range(start, stop, step); for an
    // empty one its end points do not matter
    bool empty = want.step > 0 ? want.start >= want.stop : want.start <= want.stop;
    bool fempty = f.step > 0 ? f.start >= f.stop : f.start <= f.stop;
    vp_check(f == g, "P19", "both ways to fit a slice agree");
    vp_check((empty & fempty) | ((f.start == want.start) & (f.stop == want.stop) & (f.step == want.step)), "P19",
             "a fitted slice differs from Python's slice.indices()");
    if (len) {
        ssize_t k = f.size();
        ssize_t dist = want.step > 0 ? want.stop - want.start : want.start - want.stop;
        ssize_t st = want.step > 0 ? want.step : -want.step;
        for (ssize_t m = 0; m <= maxn; ++m) {
            // len(range(...)) == m
            bool is = m == 0 ? dist <= 0 : (dist > 0) & ((m - 1) * st < dist) & (dist <= m * st);
            vp_check((k == m) == is, "P19", "the length of a slice differs from Python's");
        }
        vp_check((k >= 0) & (k <= maxn), "P19", "the length of a slice exceeds the array");
    }
    vp_reach("end");
}
ENTRY sl_fit() { fit(BIG, -BIG, BIG, false); }
ENTRY sl_len() { fit(6, -8, 8, true); }
ENTRY sl_lenbig() {
    // steps far beyond the array
    ssize_t n = vp_int("n", 0, 5);
    ssize_t c = vp_int("step", -BIG, BIG);
    vp_assume((c > 8) | (c < -8));
    Slice s(std::nullopt, std::nullopt, c);
    Slice f = s.fit(n);
    vp_check(ssize_t(f.size()) == (n > 0 ? 1 : 0), "P19", "the length of a slice with a large step");
    vp_check((n == 0) | (f.start == (c > 0 ? 0 : n - 1)), "P19", "the first element of a slice with a large step");
}
ENTRY sl_bad() {
    bool threw = false;
    ssize_t n = vp_int("n", -3, -1);
    try {
        Slice(0, 2).fit_at(n);
    } catch (std::invalid_argument&) {
        threw = true;
    }
    vp_check(threw, "P19", "a negative length is refused");
}
ENTRY sl_zero() {
    bool threw = false;
    auto a = opt("has_start", "start", -3, 3), b = opt("has_stop", "stop", -3, 3);
    try {
        Slice s(a, b, 0);
        (void)s.fit_at(3);
    } catch (std::invalid_argument&) {
        threw = true;
    }
    vp_check(threw, "P19", "a step of zero is refused");
}
ENTRY sl_empty() {
    // the slice that leaves everything as it is
    auto a = opt("has_start", "start", -3, 3), b = opt("has_stop", "stop", -3, 3), c = opt("has_step", "step", -2, 2);
    if (c && *c == 0) return;
    Slice s(a, b, c);
    bool none = (!a || *a == 0) & !b & (!c || *c == 1);
    vp_check(s.empty() == none, "P19", "recognising the slice that keeps everything");
    vp_check(s == Slice(a, b, c), "P19", "equality of slices");
}

// ---- iterators ----------------------------------------------------------------
using It = Array::const_iterator;
// elements in row-major order of a strided array
static std::vector<ssize_t> offsets(const Shape& shape, const Shape& strides) {
    std::vector<ssize_t> out{0};
    for (size_t ax = 0; ax < shape.size(); ++ax) {
        std::vector<ssize_t> next;
        for (ssize_t o : out)
            for (ssize_t i = 0; i < shape[ax]; ++i) next.push_back(o + i * strides[ax]);
        out = next;
    }
    return out;
}
static void strided(Shape shape, Shape strides, ssize_t base, ssize_t cells) {
    Vec buf;
    for (ssize_t i = 0; i < cells; ++i) buf.push_back(double(10 + i));
    Shape bytes;
    for (auto s : strides) bytes.push_back(s * ssize_t(sizeof(double)));
    auto offs = offsets(shape, strides);
    const ssize_t n = offs.size();
    It begin(buf.data() + base, shape.size(), shape.data(), bytes.data());
    // any sequence of two jumps
    ssize_t p = vp_pick("p", 0, n), q = vp_pick("q", 0, n);
    It a = begin;
    bool single = vp_pick("single", 0, 1);
    if (single) for (ssize_t i = 0; i < p; ++i) ++a;
    else a += p;
    It b = a;
    if (single) {
        for (ssize_t i = p; i < q; ++i) b++;
        for (ssize_t i = p; i > q; --i) --b;
    } else if (vp_pick("minus", 0, 1)) b -= p - q;
    else b = b + (q - p);
    if (p < n) vp_check(a.get() == buf.data() + base + offs[p] && *a == buf[base + offs[p]] && begin[p] == *a, "P20", "an iterator reaches another element");
    if (q < n) vp_check(b.get() == buf.data() + base + offs[q] && *b == buf[base + offs[q]], "P20", "an iterator reaches another element");
    vp_check((b - a) == q - p && (a - b) == p - q && (b - begin) == q, "P20", "distance between iterators");
    vp_check((a == b) == (p == q) && (a != b) == (p != q), "P20", "equality of iterators");
    vp_check((a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q), "P20", "order of iterators");
    // moving on after the comparisons, and assignment
    It c;
    c = b;
    b += p - q;
    vp_check(b == a && c - a == q - p, "P20", "a copied iterator is independent");
    if (p < n) vp_check(*b == *a, "P20", "an iterator returns to its element");
    vp_reach("end");
}
ENTRY it_1d() { strided({5}, {1}, 0, 5); }
ENTRY it_1d2() { strided({4}, {3}, 1, 12); }
ENTRY it_1dneg() { strided({4}, {-2}, 7, 8); }
ENTRY it_2d() { strided({3, 2}, {4, 2}, 1, 13); }
ENTRY it_2dnarrow() { strided({3, 1}, {4, 1}, 1, 12); }
ENTRY it_2drow() { strided({1, 4}, {8, 2}, 0, 8); }
ENTRY it_2dneg() { strided({2, 3}, {-6, 2}, 6, 12); }
ENTRY it_3d() { strided({2, 2, 2}, {9, 4, 2}, 0, 17); }
ENTRY it_3dgap() { strided({2, 1, 3}, {12, 6, 2}, 1, 24); }
ENTRY it_3dw() { strided({3, 2, 3}, {-20, 7, 2}, 40, 60); }
ENTRY it_4d() { strided({2, 1, 3, 2}, {30, 15, 5, 2}, 0, 60); }
ENTRY it_masked() {
    double fill = 99;
    Vec buf, mask;
    for (int i = 0; i < 4; ++i) {
        buf.push_back(10 + i);
        mask.push_back(vp_pick("masked", 0, 1));
    }
    It it(buf.data(), mask.data(), &fill);
    ssize_t p = vp_pick("p", 0, 3), q = vp_pick("q", 0, 3);
    auto want = [&](ssize_t i) { return mask[i] ? fill : buf[i]; };
    It a = it + p;
    vp_check(*a == want(p) && it[p] == want(p), "P20", "masked iterator");
    a += q - p;
    vp_check(*a == want(q) && a - it == q, "P20", "masked iterator");
    if (q > 0) {
        --a;
        vp_check(*a == want(q - 1), "P20", "masked iterator");
        a++;
        vp_check(*a == want(q), "P20", "masked iterator");
    }
    vp_reach("end");
}
// views of arrays made by basic indexing, at any slices
static void viewed(Shape shape) {
    Scn s;
    ssize_t n = 1;
    for (auto x : shape) n *= x;
    auto x = s.integer(shape, 0, 100);
    s.decs[0].lo = 0;
    std::vector<BasicIndexingNode::slice_or_int> idx;
    for (auto d : shape) {
        ssize_t a = vp_pick("a", 0, d - 1), b = vp_pick("b", a + 1, d);
        if (vp_pick("int", 0, 1)) idx.push_back(a);
        else idx.push_back(Slice(a, b, vp_pick("step", 1, 2)));
    }
    auto y = s.g.emplace_node<BasicIndexingNode>(x, idx);
    s.watch.push_back(y);
    s.g.topological_sort();
    State st = s.g.empty_state();
    Vec v;
    for (ssize_t i = 0; i < n; ++i) v.push_back(double(i));
    x->initialize_state(st, v);
    s.g.initialize_state(st);
    s.check_view(st);
    vp_check(y->len(st) == ssize_t(8 * rd(y, st).size()) && y->len() == y->len(st), "P20", "length in bytes");
    if (y->contiguous()) {
        // contiguous means that the elements lie side by side
        Vec w = rd(y, st);
        bool ok = true;
        for (size_t i = 0; i < w.size(); ++i) ok = ok && y->buff(st)[i] == w[i];
        vp_check(ok, "P20", "an array is said to be contiguous but is not");
    }
    vp_reach("end");
}
ENTRY it_view1() { viewed({4}); }
ENTRY it_view2() { viewed({3, 3}); }
ENTRY it_view3() { viewed({2, 2, 2}); }

// ---- merging of changes ----------------------------------------------------------------
static void merge(ssize_t maxn, int steps, Script* script = nullptr) {
    ssize_t n = script ? maxn : vp_pick("n", 0, maxn);
    Vec old, now;
    for (ssize_t i = 0; i < n; ++i) old.push_back(script ? script->num(0, 3) : vp_num("old", 0, 3));
    now = old;
    std::vector<Update> diff;
    if (script) {
        // many changes, with repeated positions
        for (int k = 0; k < steps; ++k) {
            ssize_t op = script->rnd(5);
            if (op == 0) {
                double v = script->num(0, 3);
                diff.push_back(Update::placement(now.size(), v));
                now.push_back(v);
            } else if (op == 1 && !now.empty()) {
                diff.push_back(Update::removal(now.size() - 1, now.back()));
                now.pop_back();
            } else if (!now.empty()) {
                ssize_t i = script->rnd(now.size());
                double v = script->num(0, 3);
                diff.emplace_back(i, now[i], v);
                now[i] = v;
            }
        }
        steps = 0;
        maxn = 60;
    }
    for (int k = 0; k < steps; ++k) {
        int op = vp_pick("op", 0, 3);
        if (op == 0) break;
        if (op == 1) {
            double v = vp_num("v", 0, 3);
            diff.push_back(Update::placement(now.size(), v));
            now.push_back(v);
        } else if (op == 2) {
            vp_assume(!now.empty());
            diff.push_back(Update::removal(now.size() - 1, now.back()));
            now.pop_back();
        } else {
            vp_assume(!now.empty());
            ssize_t i = vp_pick("i", 0, now.size() - 1);
            double v = vp_num("v", 0, 3);
            diff.emplace_back(i, now[i], v);
            now[i] = v;
        }
    }
    deduplicate_diff(diff);
    // every entry of an index tells its net change, and there is at most one
    std::vector<bool> seen(maxn + steps + 1, false);
    bool sorted = true, ok = true;
    for (size_t k = 0; k < diff.size(); ++k) {
        const Update& u = diff[k];
        if (k) sorted = sorted && diff[k - 1].index < u.index;
        bool before = u.index < ssize_t(old.size()), after = u.index < ssize_t(now.size());
        seen[u.index] = true;
        ok = ok & (u.placed() == !before) & (u.removed() == !after);
        if (before && !u.placed()) ok = ok & (u.old == old[u.index]);
        if (after && !u.removed()) ok = ok & (u.value == now[u.index]);
    }
    vp_check(sorted, "P21", "merged changes are not in order, one per index");
    vp_check(ok, "P21", "a merged change differs from the net change");
    bool none = true;
    for (size_t i = 0; i < seen.size(); ++i) {
        if (seen[i]) continue;
        bool before = i < old.size(), after = i < now.size();
        none = none && before == after;
        if (before && after) none = none & (old[i] == now[i]);
    }
    vp_check(none, "P21", "a change is lost by merging");
    vp_reach("end");
}
ENTRY dd_w12() { Script r(vp_pick("script", 1, 12), 3); merge(4, 12, &r); }
ENTRY dd_w24() { Script r(vp_pick("script", 1, 12), 3); merge(6, 24, &r); }
ENTRY dd_w50() { Script r(vp_pick("script", 1, 12), 3); merge(3, 50, &r); }
ENTRY dd_any3() { merge(2, 3); }
ENTRY dd_any4() { merge(1, vp_prop("DEEP") ? 5 : 4); }
ENTRY dd_fixed() {
    // updates only, repeatedly at the same places
    Vec old, now;
    for (int i = 0; i < 3; ++i) old.push_back(vp_num("old", 0, 3));
    now = old;
    std::vector<Update> diff;
    int steps = vp_prop("DEEP") ? 5 : 4;
    for (int k = 0; k < steps; ++k) {
        ssize_t i = vp_pick("i", 0, 2);
        double v = vp_num("v", 0, 3);
        diff.emplace_back(i, now[i], v);
        now[i] = v;
    }
    deduplicate_diff(diff);
    Vec w = old;
    bool ok = true;
    for (size_t k = 0; k < diff.size(); ++k) {
        if (k) ok = ok && diff[k - 1].index < diff[k].index;
        ok = ok & (diff[k].old == w[diff[k].index]);
        w[diff[k].index] = diff[k].value;
    }
    vp_check(ok, "P21", "merged changes are not in order, one per index, from the old value");
    vp_check(eqv(w, now), "P21", "merged changes do not lead to the new values");
    vp_reach("end");
}

// ---- arithmetic of shapes, positions and fractions -----------------------------------
ENTRY ut_broadcast() {
    std::vector<ssize_t> a, b;
    ssize_t na = vp_pick("na", 0, 3), nb = vp_pick("nb", 0, 3), hi = na + nb > 4 ? 2 : na + nb > 3 ? 3 : 9;
    for (ssize_t i = 0; i < na; ++i) a.push_back(vp_int("a", 0, hi));
    for (ssize_t i = 0; i < nb; ++i) b.push_back(vp_int("b", 0, hi));
    // numpy: align at the end; equal, or one of them 1
    std::vector<ssize_t> want;
    bool ok = true;
    for (ssize_t i = std::max(na, nb); i > 0; --i) {
        ssize_t x = i <= na ? a[na - i] : 1, y = i <= nb ? b[nb - i] : 1;
        ok = ok & ((x == y) | (x == 1) | (y == 1));
        want.push_back(x == 1 ? y : x);
    }
    bool threw = false;
    std::vector<ssize_t> got;
    try {
        got = broadcast_shape(std::span<const ssize_t>(a), std::span<const ssize_t>(b));
    } catch (std::invalid_argument&) {
        threw = true;
    }
    vp_check(threw == !ok, "P30", "shapes are refused exactly if they cannot be broadcast");
    if (!threw) {
        bool same = got.size() == want.size();
        for (size_t i = 0; same && i < got.size(); ++i) vp_check(got[i] == want[i], "P30", "the broadcast shape");
        vp_check(same, "P30", "the number of dimensions of the broadcast shape");
        vp_reach("broadcast");
    } else vp_reach("refused");
}
ENTRY ut_ravel() {
    ssize_t nd = vp_pick("ndim", 1, 4);
    std::vector<ssize_t> dims, strides(nd);
    ssize_t size = 1;
    for (ssize_t i = 0; i < nd; ++i) dims.push_back(vp_pick("dim", 1, nd > 3 ? 3 : 4));
    for (ssize_t i = nd - 1; i >= 0; --i) {
        strides[i] = size * ssize_t(sizeof(double));
        size *= dims[i];
    }
    std::vector<ssize_t> ix;
    ssize_t flat = 0;
    for (ssize_t i = 0; i < nd; ++i) {
        ix.push_back(vp_int("ix", 0, dims[i] - 1));
        flat = flat * dims[i] + ix[i];
    }
    vp_check(ravel_multi_index(std::span<const ssize_t>(strides), std::span<const ssize_t>(ix)) == flat, "P30", "position of a multi-index");
    auto back = unravel_index(std::span<const ssize_t>(strides), flat);
    bool ok = ssize_t(back.size()) == nd;
    vp_check(ok, "P30", "number of indices of a position");
    for (ssize_t i = 0; i < nd; ++i) vp_check(back[i] == ix[i], "P30", "indices of a position");
    vp_reach("end");
}
static void frac_is(const fraction& f, ssize_t num, ssize_t den, const char* what) {
    vp_check((f.numerator() * den == num * f.denominator()) & (f.denominator() > 0), "P30", what);
    bool reduced = true;
    for (ssize_t d = 2; d <= 7; ++d) reduced = reduced & !((f.numerator() % d == 0) & (f.denominator() % d == 0));
    vp_check(reduced & (f.numerator() != 0 || f.denominator() == 1), "P30", "fractions are reduced");
}
ENTRY ut_fraction() {
    ssize_t a = vp_int("a", -8, 8), b = vp_int("b", -6, 6), n = vp_int("n", -6, 6);
    bool threw = false;
    fraction f;
    try {
        f = fraction(a, b);
    } catch (std::invalid_argument&) {
        threw = true;
    }
    vp_check(threw == (b == 0), "P30", "a denominator of zero is refused");
    if (threw) return vp_reach("refused");
    frac_is(f, a, b, "value of a fraction");
    vp_check((f == a) == (a == a * b), "P30", "comparing a fraction with a number");
    vp_check(ssize_t(f) == a / b, "P30", "fractions are cut to a whole number");
    switch (vp_pick("op", 0, 3)) {
        case 0: frac_is(f * n, a * n, b, "product of a fraction and a number"); break;
        case 1: {
            bool refused = false;
            fraction q;
            try {
                q = f / n;
            } catch (std::invalid_argument&) {
                refused = true;
            }
            vp_check(refused == (n == 0), "P30", "dividing by zero is refused");
            if (!refused) frac_is(q, a, b * n, "quotient of a fraction and a number");
            break;
        }
        case 2: {
            fraction g(n, 4);
            g *= f;
            frac_is(g, a * n, b * 4, "product of fractions");
            break;
        }
        default: {
            fraction g(n, 2);
            vp_check((f == g) == (a * 2 == n * b), "P30", "comparing fractions");
            vp_check((f == n) == (a == n * b), "P30", "comparing a fraction with a number");
        }
    }
    vp_reach("end");
}
ENTRY ut_integral() {
    double v = 0.25 * vp_num("v", -4000000, 4000000);
    vp_check(is_integer(v) == (std::floor(v) == v), "P30", "integral numbers");
    vp_check(!is_integer(std::numeric_limits<double>::quiet_NaN()) && !is_integer(0.1) && !is_integer(-1e-300) && is_integer(1e300), "P30", "integral numbers");
}
ENTRY ut_sum() {
    // compensated sums of numbers whose sums are exact
    double_kahan s(vp_num("s", -1000, 1000));
    double want = s.value();
    for (int i = 0; i < 5; ++i) {
        double x = 0.5 * vp_num("x", -1000, 1000);
        if (vp_pick("minus", 0, 1)) {
            s -= x;
            want -= x;
        } else {
            s += x;
            want += x;
        }
    }
    vp_check(double(s) == want && s == want && s == double_kahan(want), "P30", "compensated sum");
}
ENTRY ut_sum_big() {
    // what a plain sum loses
    double_kahan s(9007199254740992.0);
    ssize_t k = vp_pick("k", 1, 6);
    for (ssize_t i = 0; i < k; ++i) s += 1;
    double got = double(s) - 9007199254740992.0;
    vp_check(got == k || got == k - 1 || got == k + 1, "P30", "compensated sum of a large and small numbers");
}
