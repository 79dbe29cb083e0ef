// Decision variables: collections, disjoint collections and numbers.
#include "h_common.hpp"

// An arbitrary source of random bits: the leading four bits of the first draws
// are any odd number, so every outcome of a choice among up to 8 is possible and
// rejection sampling ends at once; later draws are constant.
struct SymGen {
    using result_type = uint32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    int k = 0, lim = 8;
    result_type operator()() {
        if (k++ >= lim) return 0x50000000u;
        return result_type(1 + 2 * vp_int("rnd", 0, 7)) << 28;
    }
};
// A source of random bits whose i-th draw, forked on, ranges over r[i] numbers
// that make a choice among r[i] take every outcome.
struct ForkGen {
    using result_type = uint32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    std::vector<ssize_t> r;
    size_t k = 0;
    result_type operator()() {
        if (k >= r.size() || r[k] < 2) { ++k; return 0x50000000u; }
        ssize_t n = r[k++];
        return result_type(((16 * vp_pick("rnd", 0, n - 1) + n - 1) / n) | 1) << 28;
    }
};
static void default_move(const Dec& d, State& st) {
    ForkGen gen;
    switch (d.kind) {
        case K_LIST: gen.r = {d.co->size(st), d.co->size(st)}; break;
        case K_SET:
            if (d.co->size(st) < d.smax) gen.r = {2, d.smax - d.co->size(st)};
            else gen.r = {2};
            break;
        case K_DB: gen.r = {d.db->num_disjoint_sets(), d.db->num_disjoint_sets(), d.n}; break;
        default: {
            // two draws per real number, of which the second is the leading part
            ssize_t m = d.dl->num_disjoint_lists(), big = 1, any = 0;
            for (ssize_t l = 0; l < m; ++l) {
                ssize_t k = d.dl->get_disjoint_list_size(st, l);
                big = std::max(big, k);
                if (!k) continue;
                gen.r.push_back(1);
                gen.r.push_back(any++ ? 3 : 1);
            }
            gen.r.push_back(m);
            gen.r.push_back(big);
            gen.r.push_back(big + 1);
        }
    }
    RngAdaptor rng(std::move(gen));
    dynamic_cast<const Decision*>(d.node)->default_move(st, rng);
}

static Vec sorted(Vec v) { std::sort(v.begin(), v.end()); return v; }

// ---- invariants ------------------------------------------------------------------
static void inv(Scn& s, State& st) {
    for (auto& d : s.decs) {
        switch (d.kind) {
            case K_LIST:
            case K_SET: {
                Vec v = rd(d.co, st);
                vp_check(ssize_t(v.size()) >= d.smin && ssize_t(v.size()) <= d.smax, "P12", "number of elements of a collection");
                bool ok = true;
                for (size_t i = 0; i < v.size(); ++i) {
                    ok = ok & (v[i] >= 0) & (v[i] < d.n) & (std::floor(v[i]) == v[i]);
                    for (size_t j = 0; j < i; ++j) ok = ok & (v[i] != v[j]);
                }
                vp_check(ok, "P12", "elements of a collection are distinct and in range");
                break;
            }
            case K_DL: {
                Vec all;
                for (size_t l = 0; l < d.parts.size(); ++l) {
                    Vec v = rd(d.parts[l], st);
                    vp_check(ssize_t(v.size()) == d.dl->get_disjoint_list_size(st, l), "P12", "reported size of a disjoint list");
                    all.insert(all.end(), v.begin(), v.end());
                }
                all = sorted(all);
                bool ok = ssize_t(all.size()) == d.n;
                for (ssize_t i = 0; ok && i < d.n; ++i) ok = all[i] == double(i);
                vp_check(ok, "P12", "disjoint lists partition the range");
                break;
            }
            case K_DB: {
                Vec cnt(d.n, 0);
                bool ok = true;
                for (size_t l = 0; l < d.parts.size(); ++l) {
                    Vec v = rd(d.parts[l], st);
                    ok = ok && ssize_t(v.size()) == d.n;
                    for (ssize_t i = 0; ok && i < d.n; ++i) {
                        ok = ok && (v[i] == 0 || v[i] == 1);
                        cnt[i] += v[i];
                        if (v[i] == 1) vp_check(d.db->get_containing_set_index(st, i) == ssize_t(l), "P12", "containing set of an element");
                    }
                }
                for (double c : cnt) ok = ok && c == 1;
                vp_check(ok, "P12", "disjoint sets partition the range");
                break;
            }
            case K_INT:
            case K_BIN: {
                Vec v = rd(d.in, st);
                bool ok = ssize_t(v.size()) == d.n;
                for (double x : v) ok = ok & (x >= d.lo) & (x <= d.hi) & (std::floor(x) == x);
                vp_check(ok, "P13", "numbers are integers within their bounds");
                bool okg = true;
                for (size_t i = 0; i < v.size(); ++i) okg = okg & (d.in->get_value(st, i) == v[i]);
                vp_check(okg, "P13", "value read back");
                break;
            }
            default: break;
        }
    }
}

// any valid initial contents, or the default ones
static void init_any(Scn& s, State& st) {
    for (auto& d : s.decs) {
        int how = vp_pick("init", 0, 1);
        if (how == 0) {
            d.node->initialize_state(st);
            switch (d.kind) {
                case K_LIST: {
                    Vec v = rd(d.co, st);
                    bool ok = ssize_t(v.size()) == d.smax;
                    for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i] == double(i);
                    vp_check(ok, "P12", "default contents of a list");
                    break;
                }
                case K_SET: {
                    Vec v = rd(d.co, st);
                    bool ok = ssize_t(v.size()) == d.smin;
                    for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i] == double(i);
                    vp_check(ok, "P12", "default contents of a set");
                    break;
                }
                default: break;
            }
            continue;
        }
        if (d.kind == K_LIST || d.kind == K_SET) {
            ssize_t k = vp_pick("size0", d.smin, d.smax);
            Vec left, v;
            for (ssize_t i = 0; i < d.n; ++i) left.push_back(i);
            for (ssize_t i = 0; i < k; ++i) {
                ssize_t e = vp_pick("el", 0, left.size() - 1);
                v.push_back(left[e]);
                left.erase(left.begin() + e);
            }
            d.co->initialize_state(st, v);
            vp_check(eqv(rd(d.co, st), v), "P12", "given contents of a collection");
        } else {
            d.init(st);
        }
    }
}

static void coll(Scn& s, int steps, int moves) {
    if (vp_prop("DEEP")) moves += 1;
    State st = s.g.empty_state();
    init_any(s, st);
    // successors are initialised as late as possible: the disjoint arrays
    s.g.initialize_state(st);
    inv(s, st);
    for (int step = 0; step < steps; ++step) {
        auto snap = s.snapshot(st);
        std::vector<const Node*> src;
        for (auto& d : s.decs) {
            for (int m = 0; m < moves; ++m) {
                if (m == 0 && vp_pick("default", 0, 1)) {
                    default_move(d, st);
                } else {
                    vp_assume(d.n > 0);
                    d.move(st, step > 0 || m > 0);
                }
                inv(s, st);
            }
            src.push_back(d.node);
        }
        auto changed = Graph::descendants(st, src);
        s.g.propagate(st, std::span<const Node*>(changed));
        inv(s, st);
        s.check_static(st);
        if (vp_pick("commit", 0, 1)) s.g.commit(st, std::span<const Node*>(changed));
        else {
            s.g.revert(st, std::span<const Node*>(changed));
            s.check_same(st, snap, "P12|P13", "reverting did not restore the decision");
        }
        inv(s, st);
    }
    vp_reach("end");
}
// larger collections: a script, then any move at all
static void collw(Scn& s, int n, int budget = 0) {
    s.g.topological_sort();
    State st = s.g.empty_state();
    Script r(vp_pick("script", 1, n), budget);
    for (auto& d : s.decs) scripted_init(d, st, r);
    s.g.initialize_state(st);
    inv(s, st);
    for (int step = 0; step < 3; ++step) {
        auto snap = s.snapshot(st);
        for (auto& d : s.decs) {
            for (ssize_t m = 1 + r.rnd(3); m > 0; --m) {
                scripted_move(d, st, r);
                inv(s, st);
            }
            if (step == 2) d.move(st, false);
        }
        std::vector<const Node*> src;
        for (auto& d : s.decs) src.push_back(d.node);
        auto changed = Graph::descendants(st, src);
        s.g.propagate(st, std::span<const Node*>(changed));
        inv(s, st);
        if (r.rnd(2)) s.g.commit(st, std::span<const Node*>(changed));
        else {
            s.g.revert(st, std::span<const Node*>(changed));
            s.check_same(st, snap, "P12|P13", "reverting did not restore the decision");
        }
        inv(s, st);
    }
    vp_reach("end");
}
ENTRY cl_wlist() { Scn s; s.list(6); collw(s, 4); }
ENTRY cl_wlistv() { Scn s; s.list(7, 2, 6); collw(s, 4); }
ENTRY cl_wset() { Scn s; s.set(7); collw(s, 4); }
ENTRY cl_wdl() { Scn s; s.dlists(6, 3); collw(s, 4); }
ENTRY cl_wdb() { Scn s; s.dbits(6, 3); collw(s, 4); }
ENTRY cl_list3() { Scn s; s.list(3); coll(s, 2, 1); }
ENTRY cl_list3b() { Scn s; s.list(3); coll(s, 1, 2); }
ENTRY cl_list4() { Scn s; s.list(4); coll(s, 1, 1); }
ENTRY cl_listv() { Scn s; s.list(3, 1, 2); coll(s, 2, 1); }
ENTRY cl_listv2() { Scn s; s.list(3, 0, 3); coll(s, 1, 2); }
ENTRY cl_set3() { Scn s; s.set(3); coll(s, 1, 2); }
ENTRY cl_set3b() { Scn s; s.set(3, 1, 2); coll(s, 2, 1); }
ENTRY cl_set4() { Scn s; s.set(4, 2, 3); coll(s, 1, 1); }
ENTRY cl_setfix() { Scn s; s.set(3, 2, 2); coll(s, 2, 1); }
ENTRY cl_empty() { Scn s; if (vp_pick("k", 0, 1)) s.list(0); else s.set(0); coll(s, 2, 1); }
ENTRY cl_empty2() { Scn s; if (vp_pick("k", 0, 1)) s.list(2, 0, 0); else s.set(2, 0, 0); coll(s, 2, 1); }
ENTRY cl_one() { Scn s; if (vp_pick("k", 0, 1)) s.list(1); else s.set(1); coll(s, 2, 1); }
ENTRY cl_dl1() { Scn s; s.dlists(2, 1); coll(s, 2, 1); }
ENTRY cl_dl2() { Scn s; s.dlists(3, 2); coll(s, 1, 2); }
ENTRY cl_dl2b() { Scn s; s.dlists(2, 2); coll(s, 2, 1); }
ENTRY cl_dl3() { Scn s; s.dlists(2, 3); coll(s, 1, 2); }
ENTRY cl_dl0() { Scn s; s.dlists(0, 2); coll(s, 2, 1); }
ENTRY cl_db1() { Scn s; s.dbits(2, 1); coll(s, 2, 1); }
ENTRY cl_db2() { Scn s; s.dbits(3, 2); coll(s, 2, 1); }
ENTRY cl_db2b() { Scn s; s.dbits(2, 2); coll(s, 1, 3); }
ENTRY cl_db3() { Scn s; s.dbits(2, 3); coll(s, 1, 2); }
ENTRY cl_db0() { Scn s; s.dbits(0, 2); coll(s, 2, 1); }
ENTRY cl_two() { Scn s; s.list(2); s.set(2); coll(s, 1, 1); }

// ---- numbers ---------------------------------------------------------------------
static void number(Scn& s, int steps, int moves) {
    State st = s.g.empty_state();
    SymGen gen;
    gen.lim = 5;
    RngAdaptor rng(std::move(gen));
    for (auto& d : s.decs) {
        switch (vp_pick("init", 0, 2)) {
            case 0: {
                d.node->initialize_state(st);
                double want = d.lo <= 0 && d.hi >= 0 ? 0 : d.lo;
                Vec v = rd(d.in, st);
                bool ok = true;
                for (double x : v) ok = ok & (x == want);
                vp_check(ok, "P13", "default value of a number");
                break;
            }
            case 1: d.in->initialize_state(st, rng); break;
            default: d.init(st);
        }
    }
    s.g.initialize_state(st);
    inv(s, st);
    for (int step = 0; step < steps; ++step) {
        auto snap = s.snapshot(st);
        std::vector<const Node*> src;
        for (auto& d : s.decs) {
            for (int m = 0; m < moves; ++m) {
                switch (vp_pick("how", 0, 2)) {
                    case 0: dynamic_cast<const Decision*>(d.node)->default_move(st, rng); break;
                    case 1: {
                        vp_assume(d.n > 0);
                        d.move(st, m > 0);
                        break;
                    }
                    default: {
                        // any 32-bit value at all: refused unless within bounds, and then nothing changes
                        vp_assume(d.n > 0);
                        ssize_t i = vp_pick("i", 0, d.n - 1);
                        int to = int(vp_int("any", INT32_MIN, INT32_MAX));
                        bool valid = (to >= d.lo) & (to <= d.hi);
                        Vec before = rd(d.in, st);
                        bool refused = false;
                        try {
                            d.in->set_value(st, i, to);
                        } catch (std::invalid_argument&) {
                            refused = true;
                        }
                        vp_check(refused == !valid, "P13", "a value is refused exactly if it is out of bounds");
                        if (refused) vp_check(eqv(rd(d.in, st), before), "P13", "a refused value changes nothing");
                        else vp_check(rd(d.in, st)[i] == double(to), "P13|P23", "value set");
                    }
                }
                inv(s, st);
            }
            src.push_back(d.node);
        }
        auto changed = Graph::descendants(st, src);
        s.g.propagate(st, std::span<const Node*>(changed));
        inv(s, st);
        if (vp_pick("commit", 0, 1)) s.g.commit(st, std::span<const Node*>(changed));
        else {
            s.g.revert(st, std::span<const Node*>(changed));
            s.check_same(st, snap, "P13", "reverting did not restore the decision");
        }
        inv(s, st);
    }
    vp_reach("end");
}
ENTRY nu_int() { Scn s; s.integer({2}, -3, 5); number(s, 1, 2); }
ENTRY nu_int1() { Scn s; s.integer({}, -3, 5); number(s, 2, 1); }
ENTRY nu_pos() { Scn s; s.integer({2}, 2, 6); number(s, 2, 1); }
ENTRY nu_neg() { Scn s; s.integer({2}, -6, -2); number(s, 1, 1); }
ENTRY nu_one() { Scn s; s.integer({2}, 4, 4); number(s, 1, 2); }
ENTRY nu_mat() { Scn s; s.integer({2, 2}, 0, 3); number(s, 1, 1); }
ENTRY nu_wide() { Scn s; s.integer({1}, -2000000000, 2000000000); number(s, 1, 1); }
ENTRY nu_wide2() { Scn s; s.integer({1}, 0, 2000000000); number(s, 1, 1); }
ENTRY nu_bin() { Scn s; s.binary({2}); number(s, 1, 2); }
ENTRY nu_bin1() { Scn s; s.binary({}); number(s, 2, 1); }
ENTRY nu_binmat() { Scn s; s.binary({2, 2}); number(s, 1, 1); }
ENTRY nu_none() { Scn s; if (vp_pick("k", 0, 1)) s.integer({0}, -3, 5); else s.binary({0, 2}); number(s, 2, 1); }
ENTRY nu_two() { Scn s; s.integer({1}, -1, 2); s.binary({1}); number(s, 1, 1); }
ENTRY nu_wint() { Scn s; s.integer({2, 4}, -3, 5); collw(s, 4, 2); }
ENTRY nu_wbin() { Scn s; s.binary({3, 3}); collw(s, 4, 2); }
ENTRY nu_default_bounds() {
    Graph g;
    Shape sh{1};
    auto a = g.emplace_node<IntegerNode>();
    auto b = g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh));
    auto c = g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh), -7);
    auto d = g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh), std::nullopt, 9);
    auto e = g.emplace_node<BinaryNode>(std::span<const ssize_t>(sh));
    auto is = [](NumberNode* n, double lo, double hi) {
        vp_check(n->lower_bound() == lo && n->upper_bound() == hi && n->min() == lo && n->max() == hi && n->integral(), "P13", "default bounds");
    };
    is(a, 0, 2000000000); is(b, 0, 2000000000); is(c, -7, 2000000000); is(d, 0, 9); is(e, 0, 1);
    vp_check(a->ndim() == 0 && a->size() == 1, "P13", "default shape");
}

// ---- moves do what they say -----------------------------------------------------------
// choices come from a script where one is set, and are free otherwise
static Script* SC = nullptr;
static ssize_t pk(const char* name, ssize_t lo, ssize_t hi) { return SC ? lo + SC->rnd(hi - lo + 1) : vp_pick(name, lo, hi); }
static bool need(bool c) {
    if (!SC) vp_assume(c);
    return c;
}
static Vec rot(Vec v, ssize_t dest, ssize_t src) {
    double x = v[src];
    v.erase(v.begin() + src);
    v.insert(v.begin() + dest, x);
    return v;
}
static Vec shuffled(ssize_t n, ssize_t k) {
    Vec left, v;
    for (ssize_t i = 0; i < n; ++i) left.push_back(i);
    for (ssize_t i = 0; i < k; ++i) {
        ssize_t e = i + 1 < n ? pk("el", 0, left.size() - 1) : 0;
        v.push_back(left[e]);
        left.erase(left.begin() + e);
    }
    return v;
}
// with `scripts`: all but the last move follow one of that many scripts
static void mv_coll(bool list, ssize_t n, ssize_t mn, ssize_t mx, int moves, int scripts = 0) {
    Scn s;
    Script script(scripts ? vp_pick("script", 1, scripts) : 0, 0);
    SC = scripts ? &script : nullptr;
    CollectionNode* c;
    if (list) c = s.list(n, mn, mx); else c = s.set(n, mn, mx);
    State st = s.g.empty_state();
    c->initialize_state(st, shuffled(n, pk("size0", mn, mx)));
    for (int m = 0; m < moves; ++m) {
        if (m == moves - 1) SC = nullptr;
        Vec v = rd(c, st);
        ssize_t k = v.size();
        switch (pk("mv", 0, 3)) {
            case 0: {
                ssize_t i = pk("i", 0, n - 1), j = pk("j", 0, n - 1);
                c->exchange(st, i, j);
                Vec w = rd(c, st);
                vp_check(w.size() == v.size(), "P23", "exchange keeps the size");
                bool ok = true;
                for (ssize_t x = 0; x < k; ++x) {
                    if (x != i && x != j) ok = ok && w[x] == v[x];
                    else if (i == j) ok = ok && w[x] == v[x];
                    else if (i < k && j < k) ok = ok && w[x] == v[x == i ? j : i];
                    else for (double y : v) ok = ok && w[x] != y;  // a value that was not in the collection
                }
                vp_check(ok, "P23", "exchange swaps two elements");
                // exchanging once more restores
                if (pk("twice", 0, 1)) {
                    c->exchange(st, j, i);
                    vp_check(eqv(rd(c, st), v), "P23", "exchanging twice restores");
                }
                break;
            }
            case 1: {
                if (!need(k > 0)) break;
                ssize_t i = pk("i", 0, k - 1), j = pk("j", 0, k - 1);
                c->rotate(st, i, j);
                vp_check(eqv(rd(c, st), rot(v, i, j)), "P23", "rotate moves one element to its destination and shifts those between");
                break;
            }
            case 2: {
                if (!need(k < mx)) break;
                c->grow(st);
                Vec w = rd(c, st);
                bool ok = w.size() == v.size() + 1;
                for (ssize_t x = 0; ok && x < k; ++x) ok = w[x] == v[x] && w[k] != v[x];
                vp_check(ok, "P23", "grow appends one new element");
                break;
            }
            default: {
                if (!need(k > mn)) break;
                c->shrink(st);
                v.pop_back();
                vp_check(eqv(rd(c, st), v), "P23", "shrink removes the last element");
            }
        }
    }
    vp_reach("end");
}
ENTRY mv_list() { mv_coll(true, 4, 4, 4, 1); }
ENTRY mv_list3() { mv_coll(true, 3, 3, 3, 2); }
ENTRY mv_listv() { mv_coll(true, 3, 1, 3, 2); }
ENTRY mv_set() { mv_coll(false, 3, 0, 3, 2); }
ENTRY mv_set4() { mv_coll(false, 4, 1, 3, 1); }
ENTRY mv_wlist() { mv_coll(true, 8, 8, 8, 5, 3); }
ENTRY mv_wlistv() { mv_coll(true, 8, 2, 7, 6, 5); }
ENTRY mv_wset() { mv_coll(false, 7, 0, 6, 6, 5); }

static void mv_dlists(ssize_t n, ssize_t m, int moves, int scripts = 0) {
    Scn s;
    Script script(scripts ? vp_pick("script", 1, scripts) : 0, 0);
    SC = scripts ? &script : nullptr;
    s.dlists(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    Vec p = shuffled(n, n);
    std::vector<Vec> c;
    ssize_t at = 0;
    for (ssize_t l = 0; l < m; ++l) {
        ssize_t to = l + 1 < m ? at + pk("cut", 0, n - at) : n;
        c.push_back(Vec(p.begin() + at, p.begin() + to));
        at = to;
    }
    d.dl->initialize_state(st, c);
    s.g.initialize_state(st);
    for (int mv = 0; mv < moves; ++mv) {
        if (mv == moves - 1) SC = nullptr;
        int k = int(pk("mv", 0, 3));
        ssize_t l = pk("l", 0, m - 1), o = (l + (m > 2 ? pk("o", 1, m - 1) : 1)) % m;
        ssize_t sz = c[l].size(), so = c[o].size();
        if (!need(sz > 0)) continue;
        if (k == 0) {
            ssize_t i = pk("i", 0, sz - 1), j = pk("j", 0, sz - 1);
            d.dl->swap_in_list(st, l, i, j);
            std::swap(c[l][i], c[l][j]);
        } else if (k == 1) {
            ssize_t i = pk("i", 0, sz - 1), j = pk("j", 0, sz - 1);
            d.dl->rotate_in_list(st, l, i, j);
            c[l] = rot(c[l], i, j);
        } else if (k == 2) {
            ssize_t i = pk("i", 0, sz - 1), j = pk("j", 0, so);
            d.dl->pop_to_list(st, l, i, o, j);
            double x = c[l][i];
            c[l].erase(c[l].begin() + i);
            c[o].insert(c[o].begin() + j, x);
        } else {
            Vec a = c[l], b = c[o];
            d.dl->set_state(st, l, b);
            d.dl->set_state(st, o, a);
            std::swap(c[l], c[o]);
        }
        for (int x = 0; x < m; ++x) {
            vp_check(eqv(rd(d.parts[x], st), c[x]), "P23", "disjoint lists after a move");
            vp_check(d.dl->get_disjoint_list_size(st, x) == ssize_t(c[x].size()), "P23", "size of a disjoint list after a move");
        }
    }
}
ENTRY mv_dl() { mv_dlists(3, 2, vp_prop("DEEP") ? 3 : 2); }
ENTRY mv_wdl() { mv_dlists(7, 3, 6, 5); }
static void mv_dbits(ssize_t n, ssize_t m, int moves, int scripts = 0) {
    Scn s;
    Script script(scripts ? vp_pick("script", 1, scripts) : 0, 0);
    SC = scripts ? &script : nullptr;
    s.dbits(n, m);
    auto& d = s.decs[0];
    State st = s.g.empty_state();
    if (scripts) scripted_init(d, st, script); else d.init(st);
    s.g.initialize_state(st);
    for (int mv = 0; mv < moves; ++mv) {
        if (mv == moves - 1) SC = nullptr;
        std::vector<Vec> c;
        for (auto p : d.parts) c.push_back(rd(p, st));
        ssize_t from = pk("from", 0, m - 1), to = pk("to", 0, m - 1), e = pk("e", 0, n - 1);
        d.db->swap_between_sets(st, from, to, e);
        std::swap(c[from][e], c[to][e]);
        for (int x = 0; x < m; ++x) vp_check(eqv(rd(d.parts[x], st), c[x]), "P23", "disjoint sets after a move");
    }
}
ENTRY mv_db() { mv_dbits(2, 3, 2); }
ENTRY mv_wdb() { mv_dbits(6, 4, 5, 3); }
static void mv_num(bool bin, Shape shape, int moves = 2, int scripts = 0) {
    Scn s;
    Script script(scripts ? vp_pick("script", 1, scripts) : 0, 2);
    SC = scripts ? &script : nullptr;
    IntegerNode* x;
    BinaryNode* b = nullptr;
    if (bin) x = b = s.binary(shape); else x = s.integer(shape, -5, 5);
    ssize_t n = x->size();
    State st = s.g.empty_state();
    if (scripts) scripted_init(s.decs[0], st, script); else s.decs[0].init(st);
    for (int m = 0; m < moves; ++m) {
        if (m == moves - 1) SC = nullptr;
        Vec v = rd(x, st), w = v;
        ssize_t i = pk("i", 0, n - 1);
        bool ret, expect;
        switch (pk("mv", 0, bin ? 4 : 1)) {
            case 0: {
                int to = SC ? int(SC->rnd(bin ? 2 : 11)) - (bin ? 0 : 5) : int(vp_int("to", bin ? 0 : -5, bin ? 1 : 5));
                expect = v[i] != double(to);
                ret = x->set_value(st, i, to);
                w[i] = to;
                break;
            }
            case 1: {
                ssize_t j = pk("j", 0, n - 1);
                expect = v[i] != v[j];
                ret = x->exchange(st, i, j);
                std::swap(w[i], w[j]);
                break;
            }
            case 2: b->flip(st, i); w[i] = 1 - w[i]; ret = expect = true; break;
            case 3: expect = v[i] == 0; ret = b->set(st, i); w[i] = 1; break;
            default: expect = v[i] == 1; ret = b->unset(st, i); w[i] = 0; break;
        }
        vp_check(eqv(rd(x, st), w), "P23", "numbers after a move");
        vp_check(ret == expect, "P23", "a move reports whether it changed anything");
    }
}
ENTRY mv_int() { mv_num(false, {3}); }
ENTRY mv_intmat() { mv_num(false, {2, 2}); }
ENTRY mv_bin() { mv_num(true, {3}); }
ENTRY mv_wint() { mv_num(false, {2, 4}, 4, 3); }
ENTRY mv_wbin() { mv_num(true, {3, 3}, 5, 3); }
ENTRY mv_linear() {
    Scn s;
    Shape sh{2, 3};
    auto x = s.integer(sh, 0, 9);
    // position (column, row) of the row-major array
    for (ssize_t r = 0; r < 2; ++r)
        for (ssize_t c = 0; c < 3; ++c) vp_check(x->linear_index(c, r) == r * 3 + c, "P23", "linear index");
}
