// Initial states are accepted exactly if valid (P14); ill-formed symbols are
// rejected and leave the model as it was (P15).
#include <limits>

#include "h_common.hpp"

// ---- initial states --------------------------------------------------------------
// half-integers around the valid range
static double half(int lo, int hi) { return 0.5 * vp_num("v", 2 * lo, 2 * hi); }
static bool integral(double v) { return std::floor(v) == v; }

template <class F>
static bool refused(F f) {
    try {
        f();
    } catch (std::invalid_argument&) {
        return true;
    }
    return false;
}
// a refused initial state can be retried
static void retry(Scn& s, State& st) {
    vp_check(!st[s.decs[0].node->topological_index()], "P14", "a refused initial state leaves the state unset");
    s.g.initialize_state(st);
    vp_reach("refused");
}

static void is_coll(bool list, ssize_t n, ssize_t mn, ssize_t mx, ssize_t maxk) {
    Scn s;
    CollectionNode* c;
    if (list) c = s.list(n, mn, mx); else c = s.set(n, mn, mx);
    State st = s.g.empty_state();
    ssize_t k = vp_pick("k", 0, maxk);
    Vec v;
    for (ssize_t i = 0; i < k; ++i) v.push_back(half(-1, n));
    bool ok = k >= mn && k <= mx;
    for (ssize_t i = 0; i < k; ++i) {
        ok = ok & integral(v[i]) & (v[i] >= 0) & (v[i] < n);
        for (ssize_t j = 0; j < i; ++j) ok = ok & (v[i] != v[j]);
    }
    bool r = refused([&] { c->initialize_state(st, v); });
    vp_check(r == !ok, "P14", "initial contents of a collection are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        vp_check(eqv(rd(c, st), v), "P14", "initial contents of a collection");
        vp_reach("accepted");
    }
}
ENTRY is_list() { is_coll(true, 3, 3, 3, 4); }
ENTRY is_listv() { is_coll(true, 3, 1, 2, 3); }
ENTRY is_set() { is_coll(false, 2, 0, 2, 3); }
ENTRY is_set3() { is_coll(false, 3, 1, 2, 3); }
ENTRY is_empty() { is_coll(true, 0, 0, 0, 1); }

static void is_num(bool bin, Shape shape, int lo, int hi) {
    Scn s;
    IntegerNode* x;
    if (bin) x = s.binary(shape); else x = s.integer(shape, lo, hi);
    ssize_t n = x->size();
    State st = s.g.empty_state();
    ssize_t k = vp_pick("k", 0, n + 1);
    Vec v;
    bool special = false;
    for (ssize_t i = 0; i < k; ++i) v.push_back(half(lo - 2, hi + 2));
    if (k > 0 && vp_pick("special", 0, 1)) {
        const double inf = std::numeric_limits<double>::infinity();
        double c[] = {std::numeric_limits<double>::quiet_NaN(), inf, -inf, 1e300, -1e300, 0.1};
        v[vp_pick("at", 0, k - 1)] = c[vp_pick("which", 0, 5)];
        special = true;
    }
    bool ok = k == n && !special;
    if (!special)
        for (double e : v) ok = ok & integral(e) & (e >= lo) & (e <= hi);
    bool how = vp_pick("range", 0, 1);
    bool r = refused([&] {
        if (how) x->initialize_state(st, std::span<const double>(v));
        else x->initialize_state(st, Vec(v));
    });
    vp_check(r == !ok, "P14", "initial contents of numbers are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        vp_check(eqv(rd(x, st), v), "P14", "initial contents of numbers");
        vp_reach("accepted");
    }
}
ENTRY is_int() { is_num(false, {2}, -3, 4); }
ENTRY is_int1() { is_num(false, {}, 2, 5); }
ENTRY is_intmat() { is_num(false, {1, 2}, -2, -1); }
ENTRY is_bin() { is_num(true, {2}, 0, 1); }
ENTRY is_wide() { is_num(false, {1}, -2000000000, 2000000000); }

static void is_dl(ssize_t n, ssize_t m, ssize_t maxk) {
    Scn s;
    s.dlists(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    ssize_t lists = vp_pick("lists", m - 1, m + 1);
    std::vector<Vec> c(lists);
    Vec all;
    bool ok = lists == m;
    for (auto& v : c) {
        ssize_t k = vp_pick("k", 0, std::min<ssize_t>(maxk, n + 1 - ssize_t(all.size())));
        for (ssize_t i = 0; i < k; ++i) {
            v.push_back(half(-1, n));
            all.push_back(v.back());
        }
    }
    ok = ok && ssize_t(all.size()) == n;
    for (size_t i = 0; i < all.size(); ++i) {
        ok = ok & integral(all[i]) & (all[i] >= 0) & (all[i] < n);
        for (size_t j = 0; j < i; ++j) ok = ok & (all[i] != all[j]);
    }
    bool r = refused([&] { d.dl->initialize_state(st, c); });
    vp_check(r == !ok, "P14", "initial contents of disjoint lists are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        s.g.initialize_state(st);
        for (ssize_t l = 0; l < m; ++l) vp_check(eqv(rd(d.parts[l], st), c[l]), "P14", "initial contents of disjoint lists");
        vp_reach("accepted");
    }
}
ENTRY is_dl2() { is_dl(2, 2, 3); }
ENTRY is_dl1() { is_dl(3, 1, 3); }
ENTRY is_dl0() { is_dl(0, 2, 1); }

static void is_db(ssize_t n, ssize_t m) {
    Scn s;
    s.dbits(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    ssize_t sets = vp_pick("sets", m - 1, m + 1);
    std::vector<Vec> c(sets);
    bool ok = sets == m;
    ssize_t odd = vp_pick("oddset", 0, sets);  // this one has another length (sets: none)
    for (ssize_t l = 0; l < sets; ++l) {
        ssize_t k = n;
        if (l == odd) {
            k = vp_pick("k", 0, n + 1);
            ok = ok && k == n;
        }
        for (ssize_t i = 0; i < k; ++i) c[l].push_back(l == 0 && i == 0 ? half(-1, 2) : vp_num("b", 0, 2));
    }
    if (ok) {
        for (ssize_t i = 0; i < n; ++i) {
            double sum = 0;
            for (auto& v : c) {
                ok = ok & ((v[i] == 0) | (v[i] == 1));
                sum += v[i];
            }
            ok = ok & (sum == 1);
        }
    }
    bool r = refused([&] { d.db->initialize_state(st, c); });
    vp_check(r == !ok, "P14", "initial contents of disjoint sets are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        s.g.initialize_state(st);
        for (ssize_t l = 0; l < m; ++l) vp_check(eqv(rd(d.parts[l], st), c[l]), "P14", "initial contents of disjoint sets");
        vp_reach("accepted");
    }
}
ENTRY is_db2() { is_db(2, 2); }
ENTRY is_db1() { is_db(2, 1); }
ENTRY is_db3() { is_db(1, 3); }

// larger decisions: a valid assignment of which any two numbers are replaced by anything
static void is_collw(bool list, ssize_t n, ssize_t mn, ssize_t mx, ssize_t mul) {
    Scn s;
    CollectionNode* c;
    if (list) c = s.list(n, mn, mx); else c = s.set(n, mn, mx);
    State st = s.g.empty_state();
    ssize_t k = vp_pick("k", std::max<ssize_t>(mn - 1, 2), std::min(mx + 1, n));
    Vec v;
    for (ssize_t i = 0; i < k; ++i) v.push_back(double((i * mul + 1) % n));
    ssize_t a = vp_pick("a", 0, k - 2), b = vp_pick("b", a + 1, k - 1);
    v[a] = half(-1, n);
    v[b] = half(-1, n);
    bool ok = k >= mn && k <= mx;
    for (ssize_t i = 0; i < k; ++i) {
        ok = ok & integral(v[i]) & (v[i] >= 0) & (v[i] < n);
        for (ssize_t j = 0; j < i; ++j) ok = ok & (v[i] != v[j]);
    }
    bool r = refused([&] { c->initialize_state(st, v); });
    vp_check(r == !ok, "P14", "initial contents of a collection are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        vp_check(eqv(rd(c, st), v), "P14", "initial contents of a collection");
        vp_reach("accepted");
    }
}
ENTRY is_wlist() { is_collw(true, 6, 6, 6, 5); }
ENTRY is_wlistv() { is_collw(true, 7, 2, 5, 3); }
ENTRY is_wset() { is_collw(false, 6, 1, 4, 5); }

static void is_numw(bool bin, Shape shape, int lo, int hi) {
    Scn s;
    IntegerNode* x;
    if (bin) x = s.binary(shape); else x = s.integer(shape, lo, hi);
    ssize_t n = x->size();
    State st = s.g.empty_state();
    ssize_t k = n + vp_pick("k", -1, 1);
    Vec v;
    for (ssize_t i = 0; i < k; ++i) v.push_back(i % 2 ? lo : hi);
    ssize_t a = vp_pick("a", 0, k - 2), b = vp_pick("b", a + 1, k - 1);
    v[a] = half(lo - 2, hi + 2);
    v[b] = half(lo - 2, hi + 2);
    bool ok = k == n;
    for (double e : v) ok = ok & integral(e) & (e >= lo) & (e <= hi);
    bool r = refused([&] { x->initialize_state(st, Vec(v)); });
    vp_check(r == !ok, "P14", "initial contents of numbers are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        vp_check(eqv(rd(x, st), v), "P14", "initial contents of numbers");
        vp_reach("accepted");
    }
}
ENTRY is_wint() { is_numw(false, {2, 3}, -5, 9); }
ENTRY is_wbin() { is_numw(true, {2, 1, 3}, 0, 1); }

static void is_dlw(ssize_t n, ssize_t m) {
    Scn s;
    s.dlists(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    // sizes of the lists: some partition of the n elements, chosen by `cut`
    ssize_t cut = vp_pick("cut", 0, n);
    ssize_t lists = m + vp_pick("lists", -1, 1);
    std::vector<Vec> c(lists);
    for (ssize_t i = 0; i < n; ++i) c[i < cut ? 0 : 1 + i % (lists - 1)].push_back(double((i * 5 + 2) % n));
    std::vector<double*> at;
    for (auto& v : c)
        for (auto& e : v) at.push_back(&e);
    ssize_t a = vp_pick("a", 0, n - 2), b = vp_pick("b", a + 1, n - 1);
    *at[a] = half(-1, n);
    *at[b] = half(-1, n);
    bool ok = lists == m;
    for (ssize_t i = 0; i < n; ++i) {
        ok = ok & integral(*at[i]) & (*at[i] >= 0) & (*at[i] < n);
        for (ssize_t j = 0; j < i; ++j) ok = ok & (*at[i] != *at[j]);
    }
    bool r = refused([&] { d.dl->initialize_state(st, c); });
    vp_check(r == !ok, "P14", "initial contents of disjoint lists are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        s.g.initialize_state(st);
        for (ssize_t l = 0; l < m; ++l) vp_check(eqv(rd(d.parts[l], st), c[l]), "P14", "initial contents of disjoint lists");
        vp_reach("accepted");
    }
}
ENTRY is_wdl() { is_dlw(6, 3); }

static void is_dbw(ssize_t n, ssize_t m) {
    Scn s;
    s.dbits(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    std::vector<Vec> c(m, Vec(n, 0.0));
    for (ssize_t i = 0; i < n; ++i) c[(i * 2 + 1) % m][i] = 1;
    // one column is anything, and one further number
    ssize_t col = vp_pick("col", 0, n - 1);
    for (ssize_t l = 0; l < m; ++l) c[l][col] = half(-1, 2);
    ssize_t a = vp_pick("a", 0, m - 1), b = vp_pick("b", 0, n - 1);
    if (b != col) c[a][b] = half(-1, 2);
    bool ok = true;
    for (ssize_t i = 0; i < n; ++i) {
        double sum = 0;
        for (auto& v : c) {
            ok = ok & ((v[i] == 0) | (v[i] == 1));
            sum += v[i];
        }
        ok = ok & (sum == 1);
    }
    bool r = refused([&] { d.db->initialize_state(st, c); });
    vp_check(r == !ok, "P14", "initial contents of disjoint sets are accepted exactly if valid");
    if (r) retry(s, st);
    else {
        s.g.initialize_state(st);
        for (ssize_t l = 0; l < m; ++l) vp_check(eqv(rd(d.parts[l], st), c[l]), "P14", "initial contents of disjoint sets");
        vp_reach("accepted");
    }
}
ENTRY is_wdb() { is_dbw(5, 3); }

// ---- ill-formed symbols ---------------------------------------------------------------
struct Ill : Scn {
    // tries to add a symbol; asserts that it is refused exactly if `bad`, and
    // that a refused symbol leaves no trace in the model
    template <class F>
    void tryadd(bool bad, F f) {
        ssize_t nodes = g.num_nodes(), decisions = g.num_decisions(), cons = g.num_constraints();
        const ArrayNode* obj = g.objective();
        std::vector<std::pair<size_t, size_t>> deg;
        for (auto& n : g.nodes()) deg.push_back({n->predecessors().size(), n->successors().size()});
        bool threw = false;
        try {
            f();
        } catch (std::exception&) {
            threw = true;
        }
        vp_check(threw == bad, "P15", bad ? "an ill-formed symbol is accepted" : "a well-formed symbol is refused");
        if (threw) {
            vp_check(g.num_nodes() == nodes && g.num_decisions() == decisions && g.num_constraints() == cons && g.objective() == obj, "P15",
                     "a refused symbol changes the model");
            bool ok = true;
            for (size_t i = 0; i < deg.size(); ++i)
                ok = ok && g.nodes()[i]->predecessors().size() == deg[i].first && g.nodes()[i]->successors().size() == deg[i].second;
            vp_check(ok, "P15", "a refused symbol stays attached to its operands");
            vp_reach("refused");
        } else vp_reach("accepted");
        // the model can still be used
        for (auto& d : decs)
            if (d.kind != K_DL && d.kind != K_DB) g.emplace_node<NegativeNode>(const_cast<ArrayNode*>(dynamic_cast<const ArrayNode*>(d.node)));
        State st = g.initialize_state();
        std::vector<const Node*> src;
        for (auto& d : decs) {
            if ((d.kind == K_INT || d.kind == K_BIN) && d.n > 0) {
                d.in->set_value(st, 0, d.hi);
                src.push_back(d.node);
            }
        }
        auto ch = Graph::descendants(st, src);
        g.propagate(st, std::span<const Node*>(ch));
        g.revert(st, std::span<const Node*>(ch));
    }
};

ENTRY il_integer() {
    Ill s;
    int lo = int(vp_int("lo", INT32_MIN, INT32_MAX)), hi = int(vp_int("hi", INT32_MIN, INT32_MAX));
    bool bad = (lo > hi) | (lo < -2000000000) | (hi > 2000000000);
    s.tryadd(bad, [&] { s.g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, lo, hi); });
}
ENTRY il_integer1() {
    Ill s;
    int b = int(vp_int("b", INT32_MIN, INT32_MAX));
    if (vp_pick("lower", 0, 1)) {
        s.tryadd((b < -2000000000) | (b > 2000000000), [&] { s.g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, b); });
    } else {
        s.tryadd((b < 0) | (b > 2000000000), [&] { s.g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{2}, std::nullopt, b); });
    }
}
ENTRY il_coll() {
    Ill s;
    ssize_t n = vp_pick("n", -1, 3), mn = vp_int("min", -2, 4), mx = vp_int("max", -2, 4);
    bool bad = (mn < 0) | (mx < 0) | (mn > mx) | (mx > n);
    if (vp_pick("list", 0, 1)) s.tryadd(bad, [&] { s.g.emplace_node<ListNode>(n, mn, mx); });
    else s.tryadd(bad, [&] { s.g.emplace_node<SetNode>(n, mn, mx); });
}
ENTRY il_coll1() {
    Ill s;
    ssize_t n = vp_pick("n", -2, 2);
    if (vp_pick("list", 0, 1)) s.tryadd(n < 0, [&] { s.g.emplace_node<ListNode>(n); });
    else s.tryadd(n < 0, [&] { s.g.emplace_node<SetNode>(n); });
}
ENTRY il_disjoint() {
    Ill s;
    ssize_t n = vp_pick("n", -2, 2), m = vp_pick("m", -2, 2);
    bool bad = n < 0 || m < 1;
    if (vp_pick("list", 0, 1)) s.tryadd(bad, [&] { s.g.emplace_node<DisjointListsNode>(n, m); });
    else s.tryadd(bad, [&] { s.g.emplace_node<DisjointBitSetsNode>(n, m); });
}
ENTRY il_parts() {
    // no more parts than declared
    Ill s;
    ssize_t m = vp_pick("m", 1, 2), have = vp_pick("have", 0, m);
    if (vp_pick("list", 0, 1)) {
        auto p = s.g.emplace_node<DisjointListsNode>(2, m);
        for (ssize_t i = 0; i < have; ++i) s.g.emplace_node<DisjointListNode>(p);
        s.tryadd(have == m, [&] { s.g.emplace_node<DisjointListNode>(p); });
    } else {
        auto p = s.g.emplace_node<DisjointBitSetsNode>(2, m);
        for (ssize_t i = 0; i < have; ++i) s.g.emplace_node<DisjointBitSetNode>(p);
        s.tryadd(have == m, [&] { s.g.emplace_node<DisjointBitSetNode>(p); });
    }
}
// operands of various shapes
static ArrayNode* operand(Ill& s, const char* name, int kinds) {
    switch (vp_pick(name, 0, kinds)) {
        case 0: return s.integer({}, 1, 3);
        case 1: return s.integer({2}, 1, 3);
        case 2: return s.integer({3}, 1, 3);
        case 3: return s.integer({1}, 1, 3);
        case 4: return s.integer({2, 2}, 1, 3);
        case 5: return s.set(3, 1, 2);
        case 6: return s.integer({2, 1}, 1, 3);
        case 7: return s.integer({3, 2}, 1, 3);
        default: return s.integer({0}, 1, 3);
    }
}
static bool sameshape(const ArrayNode* a, const ArrayNode* b) { return std::ranges::equal(a->shape(), b->shape()); }

ENTRY il_binary() {
    Ill s;
    auto a = operand(s, "a", 5), b = operand(s, "b", 5);
    bool bad = !(a->size() == 1 || b->size() == 1) && (a->dynamic() || b->dynamic() || !sameshape(a, b));
    switch (vp_pick("op", 0, 3)) {
        case 0: s.tryadd(bad, [&] { s.g.emplace_node<AddNode>(a, b); }); break;
        case 1: s.tryadd(bad, [&] { s.g.emplace_node<LessEqualNode>(a, b); }); break;
        case 2: s.tryadd(bad, [&] { s.g.emplace_node<MaximumNode>(a, b); }); break;
        default: s.tryadd(bad, [&] { s.g.emplace_node<ModulusNode>(a, b); });
    }
}
ENTRY il_divide() {
    Ill s;
    int lo = int(vp_int("lo", -3, 3)), hi = int(vp_int("hi", -3, 3));
    vp_assume(lo <= hi);
    auto a = s.integer({2}, 1, 3);
    auto b = s.integer({2}, lo, hi);
    s.decs.clear();
    s.tryadd((lo <= 0) & (hi >= 0), [&] { s.g.emplace_node<DivideNode>(a, b); });
}
ENTRY il_nary() {
    Ill s;
    auto a = operand(s, "a", 5), b = operand(s, "b", 5), c = operand(s, "c", 2);
    bool bad = a->dynamic() || b->dynamic() || !sameshape(a, b) || !sameshape(a, c);
    std::vector<ArrayNode*> v{a, b, c};
    if (vp_pick("add", 0, 1)) s.tryadd(bad, [&] { s.g.emplace_node<NaryAddNode>(std::span<ArrayNode*>(v)); });
    else s.tryadd(bad, [&] { s.g.emplace_node<NaryMaximumNode>(std::span<ArrayNode*>(v)); });
}
ENTRY il_nary0() {
    Ill s;
    auto a = operand(s, "a", 5);
    std::vector<ArrayNode*> v;
    if (vp_pick("none", 0, 1)) s.tryadd(true, [&] { s.g.emplace_node<NaryMultiplyNode>(std::span<ArrayNode*>(v)); });
    else s.tryadd(a->dynamic(), [&] { s.g.emplace_node<NaryMultiplyNode>(a); });
}
ENTRY il_nary_add() {
    Ill s;
    auto a = s.integer({2}, 1, 3);
    auto b = operand(s, "b", 5);
    auto y = s.g.emplace_node<NaryAddNode>(a);
    auto z = s.g.emplace_node<NegativeNode>(y);
    auto w = s.g.emplace_node<AddNode>(a, z);
    auto v = s.g.emplace_node<AbsoluteNode>(a);
    switch (vp_pick("what", 0, 4)) {
        case 0: s.tryadd(b->dynamic() || !sameshape(a, b), [&] { y->add_node(b); }); break;
        // an operand must not depend on the symbol
        case 1: s.tryadd(true, [&] { y->add_node(y); }); break;
        case 2: s.tryadd(true, [&] { y->add_node(z); }); break;
        case 3: s.tryadd(true, [&] { y->add_node(w); }); break;
        default: s.tryadd(false, [&] { y->add_node(v); });
    }
}
ENTRY il_nary_locked() {
    // a locked model cannot be modified
    Ill s;
    auto a = s.integer({2}, 1, 3);
    auto c = s.integer({2}, 1, 3);
    auto y = s.g.emplace_node<NaryAddNode>(a);
    auto z = s.g.emplace_node<NegativeNode>(y);
    auto w = s.g.emplace_node<AbsoluteNode>(a);
    if (vp_pick("locked", 0, 1)) s.g.topological_sort();
    bool locked = s.g.topologically_sorted();
    bool threw = false;
    try {
        y->add_node(vp_pick("what", 0, 1) ? (ArrayNode*)c : (ArrayNode*)w);
    } catch (std::exception&) {
        threw = true;
    }
    vp_check(threw == locked, "P15", "a locked model refuses new operands");
    vp_check(y->predecessors().size() == (threw ? 1 : 2), "P15", "a refused operand changes the model");
    if (threw) vp_reach("refused"); else vp_reach("accepted");
    State st = s.g.initialize_state();
    (void)z;
}
ENTRY il_concat() {
    Ill s;
    auto a = operand(s, "a", 6), b = operand(s, "b", 7);
    ssize_t axis = vp_pick("axis", -1, 2);
    bool bad = a->dynamic() || b->dynamic() || a->ndim() != b->ndim() || axis < 0 || axis >= a->ndim();
    for (ssize_t i = 0; !bad && i < a->ndim(); ++i) bad = i != axis && a->shape()[i] != b->shape()[i];
    std::vector<ArrayNode*> v{a, b};
    s.tryadd(bad, [&] { s.g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(v), axis); });
}
ENTRY il_concat0() {
    Ill s;
    auto a = operand(s, "a", 7);
    std::vector<ArrayNode*> v;
    if (vp_pick("none", 0, 1)) s.tryadd(true, [&] { s.g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(v), 0); });
    else {
        v.push_back(a);
        ssize_t axis = vp_pick("axis", -1, 2);
        s.tryadd(a->dynamic() || axis < 0 || axis >= a->ndim(), [&] { s.g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(v), axis); });
    }
}
ENTRY il_reshape() {
    Ill s;
    auto a = operand(s, "a", 7);
    Shape to;
    switch (vp_pick("to", 0, 6)) {
        case 0: to = {}; break;
        case 1: to = {2}; break;
        case 2: to = {1, 3}; break;
        case 3: to = {2, 2}; break;
        case 4: to = {6}; break;
        case 5: to = {-1}; break;
        default: to = {1, 1, 1};
    }
    ssize_t n = 1;
    for (auto x : to) n *= x;
    bool bad = a->dynamic() || (!to.empty() && to[0] < 0) || n != a->size();
    s.tryadd(bad, [&] { s.g.emplace_node<ReshapeNode>(a, Shape(to)); });
}
ENTRY il_reshape_strd() {
    Ill s;
    auto a = s.integer({2, 2}, 0, 1);
    auto b = s.g.emplace_node<BasicIndexingNode>(a, Slice(), ssize_t(1));
    s.tryadd(true, [&] { s.g.emplace_node<ReshapeNode>(b, Shape{2, 1}); });
}
ENTRY il_partial() {
    Ill s;
    auto a = operand(s, "a", 8);
    ssize_t axis = vp_pick("axis", -1, 2);
    bool bad = a->dynamic() || a->size() < 1 || axis < 0 || axis >= a->ndim();
    s.tryadd(bad, [&] { s.g.emplace_node<PartialSumNode>(a, axis); });
}
ENTRY il_partial_span() {
    Ill s;
    auto a = operand(s, "a", 4);
    Shape ax;
    ssize_t k = vp_pick("k", 0, 2);
    for (ssize_t i = 0; i < k; ++i) ax.push_back(vp_pick("axis", -1, 2));
    bool bad = k != 1 || ax[0] < 0 || ax[0] >= a->ndim();
    s.tryadd(bad, [&] { s.g.emplace_node<PartialSumNode>(a, std::span<const ssize_t>(ax)); });
}
ENTRY il_reduce() {
    Ill s;
    auto a = operand(s, "a", 8);
    bool bad = a->dynamic() || a->size() < 1;
    switch (vp_pick("op", 0, 5)) {
        case 0: s.tryadd(bad, [&] { s.g.emplace_node<MaxNode>(a); }); break;
        case 1: s.tryadd(bad, [&] { s.g.emplace_node<MinNode>(a); }); break;
        case 2: s.tryadd(false, [&] { s.g.emplace_node<SumNode>(a); }); break;
        case 3: s.tryadd(false, [&] { s.g.emplace_node<ProdNode>(a); }); break;
        case 4: s.tryadd(false, [&] { s.g.emplace_node<MaxNode>(a, 2); }); break;
        default: s.tryadd(false, [&] { s.g.emplace_node<AnyNode>(a); });
    }
}
ENTRY il_where() {
    Ill s;
    auto x = operand(s, "x", 5), y = operand(s, "y", 5), c = operand(s, "c", 5);
    bool bad = !sameshape(x, y);
    if (c->size() != 1) bad = bad || !sameshape(c, x) || c->dynamic();
    s.tryadd(bad, [&] { s.g.emplace_node<WhereNode>(c, x, y); });
}
ENTRY il_where_null() {
    Ill s;
    auto x = s.integer({2}, 0, 1);
    ArrayNode* none = nullptr;
    int k = vp_pick("k", 0, 2);
    s.tryadd(true, [&] { s.g.emplace_node<WhereNode>(k == 0 ? none : x, k == 1 ? none : x, k == 2 ? none : x); });
}
ENTRY il_slice() {
    Ill s;
    auto a = operand(s, "a", 7);
    ssize_t k = vp_pick("k", 0, 3);
    std::vector<BasicIndexingNode::slice_or_int> idx;
    bool bad = k != a->ndim();
    for (ssize_t i = 0; i < k; ++i) {
        int how = vp_pick("how", 0, 3);
        if (how == 0) idx.push_back(Slice());
        else if (how == 1) { idx.push_back(Slice(std::nullopt, std::nullopt, -1)); bad = true; }
        else if (how == 2) idx.push_back(Slice(-1, std::nullopt, 2));
        else {
            ssize_t at = vp_int("at", -4, 3);
            idx.push_back(at);
            if (i < a->ndim()) {
                if (i == 0 && a->dynamic()) bad = true;
                else bad = bad | (at >= a->shape()[i]) | (at < -a->shape()[i]);
            }
        }
    }
    s.tryadd(bad, [&] { s.g.emplace_node<BasicIndexingNode>(a, idx); });
}
ENTRY il_slice_strd() {
    Ill s;
    auto a = s.integer({2, 2}, 0, 1);
    auto b = s.g.emplace_node<BasicIndexingNode>(a, Slice(), ssize_t(1));
    s.tryadd(true, [&] { s.g.emplace_node<BasicIndexingNode>(b, Slice(0, 1)); });
}
ENTRY il_slicestep() {
    bool threw = false;
    try {
        Slice s(vp_pick("a", -2, 2), vp_pick("b", -2, 2), 0);
    } catch (std::exception&) {
        threw = true;
    }
    vp_check(threw, "P15", "a slice with step 0 is refused");
}
ENTRY il_adv() {
    Ill s;
    auto a = s.integer({3, 2}, 0, 1);
    int lo = int(vp_int("lo", -2, 2)), hi = int(vp_int("hi", -2, 4));
    vp_assume(lo <= hi);
    auto i = s.integer({2}, lo, hi);
    s.decs.pop_back();
    ssize_t axis = vp_pick("axis", 0, 1);
    bool bad = (lo < 0) | (hi >= (axis ? 2 : 3));
    if (axis) s.tryadd(bad, [&] { s.g.emplace_node<AdvancedIndexingNode>(a, Slice(), i); });
    else s.tryadd(bad, [&] { s.g.emplace_node<AdvancedIndexingNode>(a, i, Slice()); });
}
ENTRY il_adv_form() {
    Ill s;
    auto a = operand(s, "a", 7);
    vp_assume(a->ndim() > 0);
    ssize_t k = vp_pick("k", 0, 3);
    // index arrays: of 2 or 3 elements, two-dimensional, or a set
    ArrayNode* ix[] = {s.integer({2}, 0, 0), s.integer({3}, 0, 0), s.integer({1, 2}, 0, 0), s.set(1)};
    std::vector<AdvancedIndexingNode::array_or_slice> idx;
    const ArrayNode* first = nullptr;
    bool bad = k != a->ndim(), any = false;
    int arrays = 0;
    for (ssize_t i = 0; i < k; ++i) {
        int how = vp_pick("how", 0, 4);
        if (how == 4) idx.push_back(Slice());
        else {
            idx.push_back(ix[how]);
            ++arrays;
            any = true;
            if (how == 2) bad = true;
            if (first && !array_shape_equal(first, ix[how])) bad = true;
            if (!first) first = ix[how];
        }
    }
    if (!any) bad = true;
    // [:, dynamic array]: the result would be dynamic in another axis than the first
    if (k == 2 && arrays == 1 && idx[0].index() != 0 && first == ix[3]) bad = true;
    // an array index on a dynamic axis needs a known minimum size, which the set has (1)
    if (a->dynamic() && k == 1 && !any) bad = true;
    s.tryadd(bad, [&] { s.g.emplace_node<AdvancedIndexingNode>(a, idx); });
}
ENTRY il_perm() {
    Ill s;
    auto c2 = s.constant({1, 2, 3, 4}, {2, 2});
    auto c23 = s.constant({1, 2, 3, 4, 5, 6}, {2, 3});
    auto c0 = s.scalar(3);
    auto d = s.integer({2, 2}, 0, 1);
    auto l2 = s.list(2);
    ArrayNode* ords[] = {l2, s.list(3), s.set(2), s.integer({2}, 0, 1), s.integer({2}, -1, 1), s.integer({2}, 0, 2), s.integer({1, 2}, 0, 1)};
    int k = vp_pick("array", 0, 3), o = vp_pick("order", 0, 6);
    ArrayNode* arr = k == 0 ? (ArrayNode*)c2 : k == 1 ? (ArrayNode*)c23 : k == 2 ? (ArrayNode*)c0 : (ArrayNode*)d;
    s.tryadd(!(k == 0 && (o == 0 || o == 3)), [&] { s.g.emplace_node<PermutationNode>(arr, ords[o]); });
}
ENTRY il_qm() {
    Ill s;
    auto a = operand(s, "a", 5);
    int n = vp_pick("n", -1, 3);
    bool bad = n < 0 || a->dynamic() || a->ndim() != 1 || a->shape()[0] != n;
    s.tryadd(bad, [&] { s.g.emplace_node<QuadraticModelNode>(a, QuadraticModel(n)); });
}
ENTRY il_objective() {
    Ill s;
    auto a = operand(s, "a", 8);
    s.tryadd(a->size() != 1, [&] { s.g.set_objective(a); });
}
ENTRY il_constraint() {
    Ill s;
    ArrayNode* a = operand(s, "a", 8);
    bool logical = vp_pick("logical", 0, 1);
    if (logical) a = s.g.emplace_node<LogicalNode>(a);
    s.tryadd(!logical || a->size() != 1, [&] { s.g.add_constraint(a); });
}
ENTRY il_locked() {
    Ill s;
    auto a = s.integer({2}, 0, 1);
    s.g.topological_sort();
    bool unlock = vp_pick("unlock", 0, 1);
    if (unlock) s.g.reset_topological_sort();
    ssize_t n = s.g.num_nodes();
    bool threw = false;
    try {
        if (vp_pick("decision", 0, 1)) s.g.emplace_node<ListNode>(2);
        else s.g.emplace_node<NegativeNode>(a);
    } catch (std::logic_error&) {
        threw = true;
    }
    vp_check(threw == !unlock, "P15", "a locked model refuses new symbols");
    if (threw) vp_check(s.g.num_nodes() == n && a->successors().empty(), "P15", "a refused symbol changes the model");
    State st = s.g.initialize_state();
}
