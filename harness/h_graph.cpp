// The model graph: evaluation order and descendants (P16), removal of unused
// symbols (P17), lazy evaluation and resetting (P18), proposals with an
// acceptance function, objective and feasibility (P22).
//
// Models are built by symbolic choices: every step adds a scalar decision, or a
// symbol whose operands are any of the earlier ones.
#include <set>

#include "h_common.hpp"

// choices are symbolic, or made by a script (larger models)
static Script* script = nullptr;
static ssize_t pk(const char* name, ssize_t lo, ssize_t hi) { return script ? lo + script->rnd(hi - lo + 1) : vp_pick(name, lo, hi); }
struct Scripted {
    Script r;
    explicit Scripted(int n) : r(vp_pick("script", 1, vp_prop("DEEP") ? 10 * n : n), 0) { script = &r; }
    ~Scripted() { script = nullptr; }
};

struct Net {
    Graph g;
    struct N {
        ArrayNode* p;
        int kind;  // 0 decision, 1 negative, 2 add, 3 n-ary add, 4 logical
        std::vector<int> ops;
        IntegerNode* in = nullptr;
        const Node* node = nullptr;
        N(ArrayNode* p, int kind, std::vector<int> ops, IntegerNode* in = nullptr) : p(p), kind(kind), ops(ops), in(in), node(p) {}
    };
    std::vector<N> n;
    static constexpr int LO = -3, HI = 4;

    int decision() {
        auto p = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, LO, HI);
        n.push_back({p, 0, {}, p});
        return n.size() - 1;
    }
    int bdecision() {
        auto p = g.emplace_node<BinaryNode>(std::initializer_list<ssize_t>{});
        n.push_back({p, 0, {}, p});
        return n.size() - 1;
    }
    double any(int d) const { return n[d].in->upper_bound() == HI ? vp_num("v", LO, HI) : vp_num("v", 0, 1); }
    int neg(int a) { n.push_back({g.emplace_node<NegativeNode>(n[a].p), 1, {a}}); return n.size() - 1; }
    int add(int a, int b) { n.push_back({g.emplace_node<AddNode>(n[a].p, n[b].p), 2, {a, b}}); return n.size() - 1; }
    int nary(int a) { n.push_back({g.emplace_node<NaryAddNode>(n[a].p), 3, {a}}); return n.size() - 1; }
    int logical(int a) { n.push_back({g.emplace_node<LogicalNode>(n[a].p), 4, {a}}); return n.size() - 1; }

    // a symbol with any operands; kinds: 1 negative, 2 .. add, 3 .. n-ary, 4 .. decision
    void grow(int kinds) {
        int k = n.size();
        switch (pk("kind", 1, kinds)) {
            case 1: neg(pk("a", 0, k - 1)); break;
            case 2: { int a = pk("a", 0, k - 1); add(a, pk("b", a, k - 1)); break; }
            case 3: nary(pk("a", 0, k - 1)); break;
            default: decision();
        }
    }
    // x is y or depends on y
    bool depends(int x, int y) const {
        if (x == y) return true;
        for (int o : n[x].ops)
            if (depends(o, y)) return true;
        return false;
    }
    // gives the first n-ary symbol another operand, possibly one newer than itself
    void late() {
        for (size_t i = 0; i < n.size(); ++i) {
            if (n[i].kind != 3) continue;
            int o = pk("late", -1, n.size() - 1);
            if (o < 0) return;
            vp_assume(!depends(o, i));
            static_cast<NaryAddNode*>(n[i].p)->add_node(n[o].p);
            n[i].ops.push_back(o);
            return;
        }
    }
    double eval(int i, const Vec& dec) const {
        switch (n[i].kind) {
            case 0: return dec[i];
            case 1: return -eval(n[i].ops[0], dec);
            case 4: return eval(n[i].ops[0], dec) != 0;
            default: {
                double s = 0;
                for (int o : n[i].ops) s += eval(o, dec);
                return s;
            }
        }
    }
    double val(int i, const State& st) const { return n[i].p->view(st).front(); }
    bool has(const State& st, int i) const {
        ssize_t t = n[i].p->topological_index();
        return t < ssize_t(st.size()) && st[t] != nullptr;
    }
    int id(const Node* p) const {
        for (size_t i = 0; i < n.size(); ++i)
            if (n[i].node == p) return i;
        return -1;
    }
    void check_order() {
        bool ok = g.topologically_sorted() && g.num_nodes() == ssize_t(n.size()), before = true;
        ssize_t d = 0;
        for (ssize_t k = 0; k < g.num_nodes(); ++k) {
            const Node* p = g.nodes()[k].get();
            ok = ok && p->topological_index() == k;
            for (auto q : p->predecessors()) before = before && q->topological_index() < k;
        }
        vp_check(ok, "P16", "the positions of the sorted symbols are not 0, 1, ...");
        vp_check(before, "P16", "a symbol comes before one of its operands");
        bool dec = true;
        for (auto& x : n) {
            if (x.kind == 0) {
                dec = dec && x.p->topological_index() == d && g.decisions()[d] == dynamic_cast<DecisionNode*>(x.p);
                ++d;
            }
        }
        vp_check(dec && d == g.num_decisions(), "P16", "the decisions are not first, in the order in which they were added");
    }
};

static void order(int steps, int kinds) {
    Net t;
    t.decision();
    for (int k = 0; k < steps; ++k) t.grow(kinds);
    t.late();
    State st = t.g.empty_state();
    t.check_order();
    t.g.initialize_state(st);
    // descendants of any set of decisions
    std::vector<int> dec;
    for (size_t i = 0; i < t.n.size(); ++i)
        if (t.n[i].kind == 0) dec.push_back(i);
    std::vector<const Node*> src;
    std::set<int> want;
    for (int d : dec) {
        if (dec.size() > 1 && !pk("source", 0, 1)) continue;
        src.push_back(t.n[d].p);
        for (size_t i = 0; i < t.n.size(); ++i)
            if (t.depends(i, d)) want.insert(i);
    }
    if (pk("reverse", 0, 1)) std::reverse(src.begin(), src.end());
    for (int again = 0; again < 2; ++again) {
        auto ch = Graph::descendants(st, src);
        std::set<int> got;
        bool sorted = true, once = true;
        for (size_t i = 0; i < ch.size(); ++i) {
            if (i) sorted = sorted && ch[i - 1]->topological_index() < ch[i]->topological_index();
            once = once && got.insert(t.id(ch[i])).second;
        }
        vp_check(got == want, "P16", "the descendants are not exactly the symbols that depend on the sources");
        vp_check(sorted && once, "P16", "the descendants are not in evaluation order, each once");
    }
    vp_reach("descendants");
    // unlocking, adding a symbol and locking again
    t.g.reset_topological_sort();
    vp_check(!t.g.topologically_sorted(), "P16", "resetting the order unlocks");
    t.neg(t.n.size() - 1);
    if (pk("newdec", 0, 1)) {
        t.decision();
        t.add(t.n.size() - 2, t.n.size() - 1);
    }
    t.g.topological_sort();
    t.check_order();
    vp_reach("end");
}
ENTRY gt_order3() { order(3, 4); }
ENTRY gt_order4() { order(vp_prop("DEEP") ? 5 : 4, 2); }
ENTRY gt_w9() { Scripted r(60); order(9, 4); }
ENTRY gt_w13() { Scripted r(40); order(13, 4); }
ENTRY gt_nary4() {
    // an n-ary sum whose further operand may be newer
    Net t;
    t.decision();
    t.nary(0);
    for (int k = 0; k < (vp_prop("DEEP") ? 4 : 3); ++k) t.grow(2);
    t.late();
    State st = t.g.empty_state();
    t.check_order();
    t.n[0].in->initialize_state(st, Vec{vp_num("v", Net::LO, Net::HI)});
    t.g.initialize_state(st);
    Vec dec(t.n.size(), 0);
    dec[0] = t.val(0, st);
    bool ok = true;
    for (size_t i = 0; i < t.n.size(); ++i) ok = ok & (t.val(i, st) == t.eval(i, dec));
    vp_check(ok, "P16", "values evaluated in the order");
    auto old = dec[0];
    t.n[0].in->set_value(st, 0, vp_num("to", Net::LO, Net::HI));
    auto ch = Graph::descendants(st, {t.n[0].p});
    t.g.propagate(st, std::span<const Node*>(ch));
    dec[0] = t.val(0, st);
    ok = true;
    for (size_t i = 0; i < t.n.size(); ++i) ok = ok & (t.val(i, st) == t.eval(i, dec));
    vp_check(ok, "P16", "values propagated in the order");
    (void)old;
    vp_reach("end");
}
// parts of disjoint collections
ENTRY gt_parts() {
    Graph g;
    auto x = g.emplace_node<IntegerNode>(std::initializer_list<ssize_t>{}, 0, 1);
    auto nx = g.emplace_node<NegativeNode>(x);
    bool lists = pk("lists", 0, 1);
    Node* p;
    if (lists) p = g.emplace_node<DisjointListsNode>(2, 2);
    else p = g.emplace_node<DisjointBitSetsNode>(2, 2);
    std::vector<Node*> parts;
    for (int i = 0; i < 2; ++i) {
        if (lists) parts.push_back(g.emplace_node<DisjointListNode>(dynamic_cast<DisjointListsNode*>(p)));
        else parts.push_back(g.emplace_node<DisjointBitSetNode>(dynamic_cast<DisjointBitSetsNode*>(p)));
    }
    auto a = g.emplace_node<SumNode>(dynamic_cast<ArrayNode*>(parts[pk("which", 0, 1)]));
    auto y = g.emplace_node<AddNode>(a, nx);
    State st = g.initialize_state();
    bool ok = x->topological_index() == 0 && p->topological_index() == 1;
    for (auto& q : g.nodes())
        for (auto o : q->predecessors()) ok = ok && o->topological_index() < q->topological_index();
    vp_check(ok, "P16", "order with the parts of a disjoint collection");
    auto ch = Graph::descendants(st, {p});
    vp_check(ch.size() == 5 && ch[0] == p, "P16", "descendants of a disjoint collection");
    for (auto q : {(const Node*)parts[0], (const Node*)parts[1], (const Node*)a, (const Node*)y})
        vp_check(std::find(ch.begin(), ch.end(), q) != ch.end(), "P16", "descendants of a disjoint collection");
    // its parts stay
    ssize_t removed = g.remove_unused_nodes(true);
    vp_check(removed == 3 && g.num_nodes() == 4, "P17", "the parts of a disjoint collection are not removed");
    State st2 = g.initialize_state();
    vp_reach("end");
}

// ---- removal of unused symbols -------------------------------------------------------
static void removal(int steps, int roles, bool listeners) {
    Net t;
    t.decision();
    if (roles > 1) t.bdecision();
    else t.decision();
    for (int k = 0; k < steps; ++k) t.grow(2);
    const int m = t.n.size();
    int obj = pk("objective", -1, roles > 1 && !script ? 0 : m - 1);
    std::set<int> keep{0, 1};
    if (obj >= 0) { t.g.set_objective(t.n[obj].p); keep.insert(obj); }
    std::vector<ArrayNode*> cons;
    std::vector<int> ls;
    for (int k = 0; k < roles; ++k) {
        int con = pk("constraint", -1, m - 1);
        if (con < 0) continue;
        int l = roles > 1 && con == 1 ? 1 : t.logical(con);
        keep.insert(l);
        ls.push_back(l);
    }
    if (ls.size() > 1 && pk("swap", 0, 1)) std::swap(ls[0], ls[1]);
    for (int l : ls) {
        t.g.add_constraint(t.n[l].p);
        cons.push_back(t.n[l].p);
    }
    bool ignore = false;
    std::vector<std::shared_ptr<bool>> listen(t.n.size());
    if (listeners) {
        ignore = pk("ignore", 0, 1);
        for (int i = 0; i < m; ++i) {
            if (!pk("listen", 0, 1)) continue;
            listen[i] = t.n[i].p->expired_ptr();
            if (!ignore) keep.insert(i);
        }
    }
    int locked = pk("locked", 0, 1);
    if (locked) t.g.topological_sort();
    std::set<int> want;
    for (int k : keep)
        for (size_t i = 0; i < t.n.size(); ++i)
            if (t.depends(k, i)) want.insert(i);
    ssize_t removed = t.g.remove_unused_nodes(ignore);
    std::set<int> got;
    for (auto& p : t.g.nodes()) got.insert(t.id(p.get()));
    vp_check(got == want, "P17", "the symbols that stay are not exactly the used ones");
    vp_check(removed == ssize_t(t.n.size() - want.size()), "P17", "number of removed symbols");
    if (got != want) return;
    vp_check(!t.g.topologically_sorted(), "P17", "the model is unlocked");
    for (size_t i = 0; i < t.n.size(); ++i)
        if (listen[i]) vp_check(*listen[i] == !want.count(i), "P17", "an observer of a removed symbol is notified, and only then");
    // the links of the remaining symbols
    bool links = true;
    for (int i : want) {
        std::vector<int> a, b = t.n[i].ops, s, s2;
        for (auto p : t.n[i].p->predecessors()) a.push_back(t.id(p));
        for (auto& sv : t.n[i].p->successors()) s.push_back(t.id(sv.ptr));
        for (int j : want)
            for (int o : t.n[j].ops)
                if (o == i) s2.push_back(j);
        std::sort(s.begin(), s.end());
        links = links && a == b && s == s2;
    }
    vp_check(links, "P17", "the links between the remaining symbols");
    vp_check(t.g.objective() == (obj >= 0 ? t.n[obj].p : nullptr) && std::ranges::equal(t.g.constraints(), cons) && t.g.num_decisions() == 2, "P17",
             "objective, constraints and decisions stay");
    // the model still evaluates
    State st = t.g.empty_state();
    Vec dec(t.n.size(), 0);
    for (int d = 0; d < 2; ++d) {
        dec[d] = t.any(d);
        t.n[d].in->initialize_state(st, Vec{dec[d]});
    }
    t.g.initialize_state(st);
    bool ok = true;
    for (int i : want) ok = ok & (t.val(i, st) == t.eval(i, dec));
    dec[0] = vp_num("to", Net::LO, Net::HI);
    t.n[0].in->set_value(st, 0, dec[0]);
    t.g.propose(st, {t.n[0].p});
    for (int i : want) ok = ok & (t.val(i, st) == t.eval(i, dec));
    vp_check(ok, "P17", "the values of the remaining symbols");
    // nothing more to remove
    listen.clear();
    if (!listeners) vp_check(t.g.remove_unused_nodes(ignore) == 0, "P17", "a second removal finds unused symbols");
    vp_reach("end");
}
ENTRY gr_roles() { removal(vp_prop("DEEP") ? 3 : 2, 1, false); }
ENTRY gr_cons() { removal(vp_prop("DEEP") ? 2 : 1, 2, false); }
ENTRY gr_cons3() { removal(1, 3, false); }
ENTRY gr_obj() { removal(3, 0, false); }
ENTRY gr_listen() { removal(2, 0, true); }
ENTRY gr_w9() { Scripted r(60); removal(9, 1, false); }
ENTRY gr_w9c() { Scripted r(60); removal(8, 3, false); }
ENTRY gr_w9l() { Scripted r(60); removal(9, 2, true); }
ENTRY gr_shared() {
    // a constraint that is also the objective, or the same constraint twice
    Net t;
    t.decision();
    int a = t.neg(0), l = t.logical(a), b = t.neg(l), c = t.neg(a);
    if (pk("objective", 0, 1)) t.g.set_objective(t.n[l].p);
    int k = pk("constraints", 0, 2);
    for (int i = 0; i < k; ++i) t.g.add_constraint(t.n[l].p);
    bool used = t.g.objective() || k;
    vp_check(t.g.remove_unused_nodes() == (used ? 2 : 4), "P17", "shared roles");
    vp_check(t.g.num_nodes() == (used ? 3 : 1), "P17", "shared roles");
    (void)b; (void)c;
    State st = t.g.initialize_state();
    vp_reach("end");
}

// ---- lazy evaluation ----------------------------------------------------------------------
static void lazy(int steps) {
    Net t;
    t.decision();
    t.decision();
    for (int k = 0; k < steps; ++k) t.grow(2);
    const int m = t.n.size();
    bool threw = false;
    State st;
    if (pk("unsorted", 0, 1)) {
        try {
            Graph::recursive_initialize(st, t.n[m - 1].p);
        } catch (std::logic_error&) {
            threw = true;
        }
        vp_check(threw, "P18", "evaluating a symbol of an unlocked model is refused");
        return;
    }
    t.g.topological_sort();
    if (pk("full", 0, 1)) st = t.g.empty_state();
    Vec dec(m, 0);
    std::vector<bool> set(m, false);
    for (int d = 0; d < 2; ++d) {
        if (!pk("explicit", 0, 1)) continue;
        if (ssize_t(st.size()) < 2) st.resize(2);
        dec[d] = vp_num("v", Net::LO, Net::HI);
        t.n[d].in->initialize_state(st, Vec{dec[d]});
        set[d] = true;
    }
    auto check = [&](const char* what) {
        bool has = true, ok = true;
        for (int d = 0; d < 2; ++d)
            if (set[d] && t.has(st, d)) dec[d] = t.val(d, st);
        for (int i = 0; i < m; ++i) {
            has = has && t.has(st, i) == set[i];
            if (t.has(st, i)) ok = ok & (t.val(i, st) == t.eval(i, dec));
        }
        vp_check(has, "P18", what);
        vp_check(ok, "P18", "the values of lazily evaluated symbols");
    };
    Vec given = dec;
    std::vector<bool> was = set;
    int x = pk("target", 0, m - 1);
    Graph::recursive_initialize(st, t.n[x].p);
    for (int i = 0; i < m; ++i)
        if (t.depends(x, i)) set[i] = true;
    check("lazy evaluation reaches exactly the symbol and what it depends on");
    for (int d = 0; d < 2; ++d)
        if (was[d]) vp_check(dec[d] == given[d], "P18", "lazy evaluation changes given contents");
    // give a decision other contents
    int d = pk("reset", 0, 1);
    Graph::recursive_reset(st, t.n[d].p);
    for (int i = 0; i < m; ++i)
        if (t.depends(i, d)) set[i] = false;
    check("a reset clears exactly the symbol and what depends on it");
    if (ssize_t(st.size()) < 2) st.resize(2);
    dec[d] = vp_num("new", Net::LO, Net::HI);
    t.n[d].in->initialize_state(st, Vec{dec[d]});
    set[d] = true;
    double nv = dec[d];
    int y = pk("target2", 2, m - 1);
    Graph::recursive_initialize(st, t.n[y].p);
    for (int i = 0; i < m; ++i)
        if (t.depends(y, i)) set[i] = true;
    check("lazy evaluation after a reset");
    vp_check(dec[d] == nv, "P18", "contents given after a reset");
    // the rest, all at once
    st.resize(m);
    t.g.initialize_state(st);
    for (int i = 0; i < m; ++i) set[i] = true;
    check("evaluation of the remaining symbols");
    vp_reach("end");
}
ENTRY gz_lazy2() { lazy(2); }
ENTRY gz_lazy3() { lazy(vp_prop("DEEP") ? 3 : 1); }

ENTRY gz_w8() { Scripted r(60); lazy(8); }

// resetting an intermediate symbol
ENTRY gz_middle() {
    Net t;
    t.decision();
    for (int k = 0; k < 3; ++k) t.grow(2);
    State st = t.g.empty_state();
    Vec dec(4, 0);
    dec[0] = vp_num("v", Net::LO, Net::HI);
    t.n[0].in->initialize_state(st, Vec{dec[0]});
    t.g.initialize_state(st);
    int x = pk("x", 1, 3);
    Graph::recursive_reset(st, t.n[x].p);
    bool ok = true;
    for (int i = 0; i < 4; ++i) ok = ok && t.has(st, i) == !t.depends(i, x);
    vp_check(ok, "P18", "a reset clears exactly the symbol and what depends on it");
    t.g.initialize_state(st);
    bool same = true;
    for (int i = 0; i < 4; ++i) same = same & (t.val(i, st) == t.eval(i, dec));
    vp_check(same, "P18", "evaluation after a reset");
    vp_reach("end");
}
ENTRY gz_parts() {
    // the parts of a disjoint collection follow it
    Scn s;
    auto l = s.dlists(2, 2);
    auto y = s.add<SumNode>(l[pk("which", 0, 1)]);
    s.g.topological_sort();
    State st;
    Graph::recursive_initialize(st, y);
    vp_check(st[s.decs[0].node->topological_index()] != nullptr, "P18", "lazy evaluation of a disjoint list");
    Graph::recursive_reset(st, s.decs[0].node);
    bool ok = true;
    for (auto& p : st) ok = ok && p == nullptr;
    vp_check(ok, "P18", "a reset of a disjoint list");
    s.decs[0].init(st);
    st.resize(s.g.num_nodes());
    Graph::recursive_initialize(st, y);
    s.g.initialize_state(st);
    double a = 0;
    for (double v : rd(static_cast<const ArrayNode*>(y->predecessors()[0] == l[0] ? l[0] : l[1]), st)) a += v;
    vp_check(y->view(st).front() == a, "P18", "lazy evaluation of a disjoint list");
    vp_reach("end");
}

// ---- proposals ----------------------------------------------------------------------------
static void proposal(int steps, int rounds, int ncon) {
    Net t;
    t.decision();
    t.decision();
    for (int k = 0; k < steps; ++k) t.grow(2);
    const int m = t.n.size();
    int obj = pk("objective", 0, m - 1);
    if (!obj) obj = -1;
    else t.g.set_objective(t.n[obj].p);
    std::vector<int> con;
    for (int c = 0; c < ncon; ++c) {
        int on = pk("constraint", c ? 1 : obj > 1 && ncon > 1 ? 2 : -1, m - 1);
        if (on < 0) break;
        con.push_back(t.logical(on));
        t.g.add_constraint(t.n[con.back()].p);
    }
    State st = t.g.empty_state();
    Vec dec(m, 0);
    for (int d = 0; d < 2; ++d) {
        dec[d] = vp_num("v", Net::LO, Net::HI);
        t.n[d].in->initialize_state(st, Vec{dec[d]});
    }
    t.g.initialize_state(st);
    auto check = [&](const Graph& g, const State& s, const Vec& dv, const char* what) {
        bool ok = true, feas = true;
        for (size_t i = 0; i < t.n.size(); ++i) ok = ok & (t.val(i, s) == t.eval(i, dv));
        vp_check(ok, "P22", what);
        vp_check(g.energy(s) == (obj < 0 ? 0 : t.eval(obj, dv)), "P22", "energy is not the value of the objective");
        for (int c : con) feas = feas & (t.eval(c, dv) != 0);
        vp_check(g.feasible(s) == feas, "P22", "feasible is not the conjunction of the constraints");
    };
    check(t.g, st, dec, "values after initialisation");
    for (int r = 0; r < rounds; ++r) {
        Vec now = dec;
        std::vector<const Node*> src;
        int who = pk("who", 1, 3);
        for (int d = 1; d >= 0; --d) {
            if (!(who >> d & 1)) continue;
            now[d] = vp_num("to", Net::LO, Net::HI);
            t.n[d].in->set_value(st, 0, now[d]);
            src.push_back(t.n[d].p);
        }
        bool accept = pk("accept", 0, 1);
        int calls = 0;
        t.g.propose(st, src, [&](const Graph& g, State& s) {
            ++calls;
            vp_check(&g == &t.g && &s == &st, "P22", "the acceptance function judges the proposed state");
            check(g, s, now, "the acceptance function sees other values");
            return accept;
        });
        vp_check(calls == 1, "P22", "the acceptance function is asked once");
        if (accept) dec = now;
        check(t.g, st, dec, accept ? "values after an accepted proposal" : "values after a rejected proposal");
        bool nodiff = true;
        for (auto& x : t.n) nodiff = nodiff && x.p->diff(st).empty();
        vp_check(nodiff, "P22", "changes remain pending after a proposal");
    }
    vp_reach("end");
}
ENTRY gp_two() { proposal(vp_prop("DEEP") ? 2 : 1, 1, 2); }
ENTRY gp_net() { proposal(2, 1, 1); }
ENTRY gp_rounds() { proposal(1, 2, 1); }
ENTRY gp_w8() { Scripted r(20); proposal(8, 2, 3); }
ENTRY gp_default() {
    // without an acceptance function proposals are accepted; the objective can be taken back
    Net t;
    t.decision();
    int a = t.neg(0);
    t.g.set_objective(t.n[a].p);
    bool unset = pk("unset", 0, 1);
    if (unset) t.g.set_objective(nullptr);
    State st = t.g.empty_state();
    t.n[0].in->initialize_state(st, Vec{vp_num("v", Net::LO, Net::HI)});
    t.g.initialize_state(st);
    double to = vp_num("to", Net::LO, Net::HI);
    t.n[0].in->set_value(st, 0, to);
    t.g.propose(st, {t.n[0].p});
    vp_check(t.g.energy(st) == (unset ? 0 : -to), "P22", "energy after a proposal");
    vp_check(t.g.feasible(st), "P22", "a model without constraints is feasible");
    vp_reach("end");
}
ENTRY gp_dynamic() {
    // a model with collections
    Scn s;
    auto l = s.set(3, 0, 3);
    auto x = s.integer({}, -2, 2);
    auto sum = s.add<SumNode>(l);
    auto y = s.add<AddNode>(sum, x);
    auto size = s.add<SizeNode>(l);
    auto le = s.add<LessEqualNode>(size, s.scalar(1));
    s.g.set_objective(y);
    s.g.add_constraint(le);
    State st = s.g.empty_state();
    for (auto& d : s.decs) d.init(st);
    s.g.initialize_state(st);
    auto energy = [&](const State& q) { double e = rd(x, q)[0]; for (double v : rd(l, q)) e += v; return e; };
    auto feas = [&](const State& q) { return rd(l, q).size() <= 1; };
    for (int r = 0; r < 2; ++r) {
        double e0 = s.g.energy(st);
        bool f0 = s.g.feasible(st);
        vp_check(e0 == energy(st) && f0 == feas(st), "P22", "energy and feasibility");
        size_t d = pk("who", 0, 1);
        s.decs[d].move(st, false);
        bool better = pk("better", 0, 1);
        double e1 = 0;
        s.g.propose(st, {s.decs[d].node}, [&](const Graph& g, State& q) {
            e1 = g.energy(q);
            vp_check(e1 == energy(q) && g.feasible(q) == feas(q), "P22", "energy and feasibility of a proposal");
            return better ? e1 < e0 : e1 >= e0;
        });
        bool accepted = better ? e1 < e0 : e1 >= e0;
        vp_check(s.g.energy(st) == (accepted ? e1 : e0), "P22", "energy after a decided proposal");
        if (!accepted) vp_check(s.g.feasible(st) == f0, "P22", "feasibility after a rejected proposal");
    }
    vp_reach("end");
}
