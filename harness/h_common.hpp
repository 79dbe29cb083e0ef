// Generic scenario driver.  A scenario is a model whose decisions get symbolic
// contents; the driver performs symbolic moves, propagates, commits / reverts
// and asserts the state-evolution properties over every array in the model.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <vector>

#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/nodes/testing.hpp"
#include "vp.hpp"

namespace dwo = dwave::optimization;
using namespace dwave::optimization;
using Vec = std::vector<double>;
using Shape = std::vector<ssize_t>;

// ---- reading an array the way a consumer of the buffer does ---------------
inline Vec rd(const ArrayNode* a, const State& st) {
    Vec out;
    auto shp = a->shape(st);
    auto str = a->strides();
    const char* b = reinterpret_cast<const char*>(a->buff(st));
    const ssize_t nd = a->ndim();
    ssize_t total = 1;
    for (ssize_t i = 0; i < nd; ++i) total *= shp[i];
    for (ssize_t f = 0; f < total; ++f) {
        ssize_t rem = f, off = 0;
        for (ssize_t ax = nd - 1; ax >= 0; --ax) {
            off += (rem % shp[ax]) * str[ax];
            rem /= shp[ax];
        }
        out.push_back(*reinterpret_cast<const double*>(b + off));
    }
    return out;
}
inline Shape rdshape(const ArrayNode* a, const State& st) {
    auto s = a->shape(st);
    return Shape(s.begin(), s.end());
}
inline bool eqv(const Vec& a, const Vec& b) {
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok = ok & (a[i] == b[i]);
    return ok;
}
inline bool eqs(const Shape& a, const Shape& b) { return a == b; }

// ---- decisions --------------------------------------------------------------
enum Kind { K_INT, K_BIN, K_DYN, K_LIST, K_SET, K_DL, K_DB };
struct Dec {
    Kind kind;
    const Node* node = nullptr;
    const IntegerNode* in = nullptr;
    const BinaryNode* bi = nullptr;
    const DynamicArrayTestingNode* dy = nullptr;
    const CollectionNode* co = nullptr;
    const DisjointListsNode* dl = nullptr;
    const DisjointBitSetsNode* db = nullptr;
    std::vector<const ArrayNode*> parts;  // the DisjointList / DisjointBitSet arrays
    int lo = 0, hi = 0;                   // element range
    double scale = 1;                     // DYN: elements are scale * integer
    ssize_t n = 0;                        // number of elements / universe
    ssize_t row = 1;                      // DYN: elements per row
    ssize_t smin = 0, smax = 0;           // DYN rows / collection sizes
    ssize_t s0min = 0, s0max = 0;         // initial size range
    ssize_t grow_rows = 1;                // DYN: max rows added by one move

    double val() const { return scale == 1 ? vp_num("val", lo, hi) : scale * vp_num("val", lo, hi); }

    void init(State& st) const {
        switch (kind) {
            case K_INT:
            case K_BIN: {
                Vec v;
                for (ssize_t i = 0; i < n; ++i) v.push_back(vp_num("init", lo, hi));
                in->initialize_state(st, std::move(v));
                break;
            }
            case K_DYN: {
                ssize_t r = vp_pick("rows0", s0min, s0max);
                Vec v;
                for (ssize_t i = 0; i < r * row; ++i) v.push_back(val());
                dy->initialize_state(st, std::span<const double>(v));
                break;
            }
            case K_LIST:
            case K_SET: {
                ssize_t k = s0min == s0max ? s0min : vp_pick("size0", s0min, s0max);
                Vec v;
                for (ssize_t i = 0; i < k; ++i) v.push_back(double(n - 1 - i));
                co->initialize_state(st, v);
                break;
            }
            case K_DL: {
                ssize_t m = dl->num_disjoint_lists();
                std::vector<Vec> c(m);
                ssize_t e = 0;
                for (ssize_t l = 0; l < m; ++l) {
                    ssize_t k = (l == m - 1) ? n - e : vp_pick("len0", 0, n - e);
                    for (ssize_t i = 0; i < k; ++i) c[l].push_back(double(n - 1 - e++));
                }
                dl->initialize_state(st, c);
                break;
            }
            case K_DB: {
                ssize_t m = db->num_disjoint_sets();
                std::vector<Vec> c(m, Vec(n, 0));
                for (ssize_t e = 0; e < n; ++e) c[vp_pick("set0", 0, m - 1)][e] = 1;
                db->initialize_state(st, c);
                break;
            }
        }
    }
    // some valid contents
    void init_fixed(State& st) const {
        switch (kind) {
            case K_INT:
            case K_BIN: {
                Vec v;
                for (ssize_t i = 0; i < n; ++i) v.push_back(i % 2 ? lo : hi);
                in->initialize_state(st, std::move(v));
                break;
            }
            case K_DYN: {
                Vec v;
                for (ssize_t i = 0; i < s0max * row; ++i) v.push_back(scale * (i % 2 ? lo : hi));
                dy->initialize_state(st, std::span<const double>(v));
                break;
            }
            case K_LIST:
            case K_SET: {
                Vec v;
                for (ssize_t i = 0; i < s0max; ++i) v.push_back(double(i));
                co->initialize_state(st, v);
                break;
            }
            case K_DL: {
                std::vector<Vec> c(dl->num_disjoint_lists());
                for (ssize_t e = 0; e < n; ++e) c[0].push_back(double(e));
                dl->initialize_state(st, c);
                break;
            }
            case K_DB: {
                std::vector<Vec> c(db->num_disjoint_sets(), Vec(n, 0));
                for (ssize_t e = 0; e < n; ++e) c[0][e] = 1;
                db->initialize_state(st, c);
                break;
            }
        }
    }
    // copy the present contents of the decision in `from` into the fresh state `to`
    void transfer(const State& from, State& to) const {
        switch (kind) {
            case K_INT:
            case K_BIN: in->initialize_state(to, rd(in, from)); break;
            case K_DYN: { Vec v = rd(dy, from); dy->initialize_state(to, std::span<const double>(v)); break; }
            case K_LIST:
            case K_SET: co->initialize_state(to, rd(co, from)); break;
            case K_DL: {
                std::vector<Vec> c;
                for (auto p : parts) c.push_back(rd(p, from));
                dl->initialize_state(to, c);
                break;
            }
            case K_DB: {
                std::vector<Vec> c;
                for (auto p : parts) c.push_back(rd(p, from));
                db->initialize_state(to, c);
                break;
            }
        }
    }
    // A full move ranges over every mutator of the decision; a light one (used
    // for the follow-up moves of a proposal, unless exploring deeply) over a
    // representative subset of them.
    void move(State& st, bool light) const {
        if (vp_prop("DEEP")) light = false;
        switch (kind) {
            case K_INT: {
                if (light) {
                    in->set_value(st, n > 1 ? (n - 1) * vp_pick("i", 0, 1) : 0, int(vp_int("to", lo, hi)));
                    break;
                }
                ssize_t i = vp_pick("i", 0, n - 1);
                if (n >= 2 && vp_pick("mv", 0, 1)) {
                    in->exchange(st, i, (i + 1) % n);
                } else {
                    in->set_value(st, i, int(vp_int("to", lo, hi)));
                }
                break;
            }
            case K_BIN: {
                if (light) {
                    bi->flip(st, n > 1 ? (n - 1) * vp_pick("i", 0, 1) : 0);
                    break;
                }
                int k = vp_pick("mv", 0, n >= 2 ? 3 : 2);
                ssize_t i = vp_pick("i", 0, n - 1);
                if (k == 0) bi->flip(st, i);
                else if (k == 1) bi->set(st, i);
                else if (k == 2) bi->unset(st, i);
                else bi->exchange(st, i, (i + 1) % n);
                break;
            }
            case K_DYN: {
                ssize_t size = dy->size(st);
                ssize_t rows = size / row;
                // 0 set, 1 shrink, 2.. grow by k-1 rows
                int k = vp_pick("mv", 0, 1 + (light ? 1 : grow_rows));
                if (k == 0) {
                    vp_assume(rows > 0);
                    dy->set(st, light ? (rows - 1) * row : vp_pick("i", 0, size - 1), val());
                } else if (k == 1) {
                    vp_assume(rows > smin);
                    dy->shrink(st);
                } else {
                    vp_assume(rows + (k - 1) <= smax);
                    Vec v;
                    for (ssize_t i = 0; i < row * (k - 1); ++i) v.push_back(val());
                    dy->grow(st, std::span<const double>(v));
                }
                break;
            }
            case K_LIST:
            case K_SET: {
                const bool var = smin != smax;
                ssize_t size = co->size(st);
                if (light) {
                    int k = vp_pick("mv", 0, var ? 2 : 0);
                    if (k == 0) {
                        vp_assume(n > 1);
                        co->exchange(st, 0, n - 1);
                    } else if (k == 1) {
                        vp_assume(size < smax);
                        co->grow(st);
                    } else {
                        vp_assume(size > smin);
                        co->shrink(st);
                    }
                    break;
                }
                int k = vp_pick("mv", 0, var ? 3 : 1);
                if (k == 0) co->exchange(st, vp_pick("i", 0, n - 1), vp_pick("j", 0, n - 1));
                else if (k == 1) {
                    vp_assume(size > 1);
                    co->rotate(st, vp_pick("i", 0, size - 1), vp_pick("j", 0, size - 1));
                } else if (k == 2) {
                    vp_assume(size < smax);
                    co->grow(st);
                } else {
                    vp_assume(size > smin);
                    co->shrink(st);
                }
                break;
            }
            case K_DL: {
                ssize_t m = dl->num_disjoint_lists();
                if (light) {
                    ssize_t l = vp_pick("l", 0, m - 1), l2 = (l + 1) % m;
                    vp_assume(dl->get_disjoint_list_size(st, l) > 0);
                    dl->pop_to_list(st, l, 0, l2, 0);
                    break;
                }
                int k = vp_pick("mv", 0, 3);
                ssize_t l = vp_pick("l", 0, m - 1);
                ssize_t sz = dl->get_disjoint_list_size(st, l);
                vp_assume(sz > 0);
                if (k == 0) dl->swap_in_list(st, l, vp_pick("i", 0, sz - 1), vp_pick("j", 0, sz - 1));
                else if (k == 1) dl->rotate_in_list(st, l, vp_pick("i", 0, sz - 1), vp_pick("j", 0, sz - 1));
                else if (k == 2) {
                    ssize_t l2 = vp_pick("l2", 0, m - 1);
                    vp_assume(l != l2);
                    ssize_t s2 = dl->get_disjoint_list_size(st, l2);
                    dl->pop_to_list(st, l, vp_pick("i", 0, sz - 1), l2, vp_pick("j", 0, s2));
                } else {
                    // take the last element of list l over to the end of list l2 by set_state
                    ssize_t l2 = vp_pick("l2", 0, m - 1);
                    vp_assume(l != l2);
                    Vec a = rd(parts[l], st), b = rd(parts[l2], st);
                    b.insert(b.begin() + vp_pick("j", 0, b.size()), a.back());
                    a.pop_back();
                    dl->set_state(st, l, a);
                    dl->set_state(st, l2, b);
                }
                break;
            }
            case K_DB: {
                ssize_t m = db->num_disjoint_sets();
                if (light) {
                    db->swap_between_sets(st, 0, m - 1, n - 1);
                    break;
                }
                db->swap_between_sets(st, vp_pick("l", 0, m - 1), vp_pick("l2", 0, m - 1), vp_pick("i", 0, n - 1));
                break;
            }
        }
    }
};

// ---- scripts: fixed longer sequences of moves on larger arrays ----------------
// A script fixes which decision moves how and where; the values are symbolic, up
// to a budget where the code compares them (further ones are fixed).
// one entry of a large table: any number in lo..hi; where the bounds of values are the
// question, only some entries are symbolic (minima over many symbolic numbers are hard)
inline double entry_of(ssize_t i, int lo, int hi) {
    if (vp_prop("P05") && i % 8 != 3) return double(lo + (i * 37 + 11) % (hi - lo + 1));
    return vp_num("entry", lo, hi);
}
struct Script {
    uint64_t x;
    int budget;
    explicit Script(uint64_t seed, int budget) : x(seed * 0x9e3779b97f4a7c15ull + 12345), budget(budget) {}
    ssize_t rnd(ssize_t n) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        return ssize_t((x >> 33) % uint64_t(n));
    }
    double num(int lo, int hi) {
        ssize_t k = rnd(hi - lo + 1);
        if (budget > 0 && rnd(3)) {
            --budget;
            return vp_num("val", lo, hi);
        }
        return double(lo + k);
    }
    int integer(int lo, int hi) {
        ssize_t k = rnd(hi - lo + 1);
        if (budget > 0 && rnd(3)) {
            --budget;
            return int(vp_int("to", lo, hi));
        }
        return int(lo + k);
    }
    std::vector<ssize_t> perm(ssize_t n) {
        std::vector<ssize_t> p(n);
        for (ssize_t i = 0; i < n; ++i) p[i] = i;
        for (ssize_t i = n - 1; i > 0; --i) std::swap(p[i], p[rnd(i + 1)]);
        return p;
    }
};
inline void scripted_init(const Dec& d, State& st, Script& r) {
    switch (d.kind) {
        case K_INT:
        case K_BIN: {
            Vec v;
            for (ssize_t i = 0; i < d.n; ++i) v.push_back(r.num(d.lo, d.hi));
            d.in->initialize_state(st, std::move(v));
            break;
        }
        case K_DYN: {
            ssize_t rows = d.s0min + r.rnd(d.s0max - d.s0min + 1);
            Vec v;
            for (ssize_t i = 0; i < rows * d.row; ++i) v.push_back(d.scale * r.num(d.lo, d.hi));
            d.dy->initialize_state(st, std::span<const double>(v));
            break;
        }
        case K_LIST:
        case K_SET: {
            ssize_t k = d.s0min + r.rnd(d.s0max - d.s0min + 1);
            auto p = r.perm(d.n);
            d.co->initialize_state(st, Vec(p.begin(), p.begin() + k));
            break;
        }
        case K_DL: {
            std::vector<Vec> c(d.dl->num_disjoint_lists());
            for (ssize_t e : r.perm(d.n)) c[r.rnd(c.size())].push_back(double(e));
            d.dl->initialize_state(st, c);
            break;
        }
        case K_DB: {
            std::vector<Vec> c(d.db->num_disjoint_sets(), Vec(d.n, 0));
            for (ssize_t e = 0; e < d.n; ++e) c[r.rnd(c.size())][e] = 1;
            d.db->initialize_state(st, c);
            break;
        }
    }
}
inline void scripted_move(const Dec& d, State& st, Script& r) {
    switch (d.kind) {
        case K_INT:
            if (d.n >= 2 && r.rnd(3) == 0) d.in->exchange(st, r.rnd(d.n), r.rnd(d.n));
            else { ssize_t i = r.rnd(d.n); d.in->set_value(st, i, r.integer(d.lo, d.hi)); }
            break;
        case K_BIN: {
            ssize_t k = r.rnd(4), i = r.rnd(d.n), j = r.rnd(d.n);
            if (k == 0) d.bi->flip(st, i);
            else if (k == 1) d.bi->set(st, i);
            else if (k == 2) d.bi->unset(st, i);
            else d.bi->exchange(st, i, j);
            break;
        }
        case K_DYN: {
            ssize_t size = d.dy->size(st), rows = size / d.row, k = r.rnd(4);
            if (k == 0 && rows > d.smin) d.dy->shrink(st);
            else if ((k == 1 && rows < d.smax) || (rows == 0 && d.smax > 0)) {
                ssize_t m = 1 + r.rnd(std::min<ssize_t>(2, d.smax - rows));
                Vec v;
                for (ssize_t i = 0; i < m * d.row; ++i) v.push_back(d.scale * r.num(d.lo, d.hi));
                d.dy->grow(st, std::span<const double>(v));
            } else if (rows) {
                ssize_t i = r.rnd(size);
                d.dy->set(st, i, d.scale * r.num(d.lo, d.hi));
            }
            break;
        }
        case K_LIST:
        case K_SET: {
            ssize_t size = d.co->size(st), k = r.rnd(5);
            if (k == 0 && size < d.smax) d.co->grow(st);
            else if (k == 1 && size > d.smin) d.co->shrink(st);
            else if (k == 2 && size > 1) d.co->rotate(st, r.rnd(size), r.rnd(size));
            else if (d.n > 0) d.co->exchange(st, r.rnd(d.n), r.rnd(d.n));
            break;
        }
        case K_DL: {
            ssize_t m = d.dl->num_disjoint_lists(), l = r.rnd(m), k = r.rnd(5);
            while (d.dl->get_disjoint_list_size(st, l) == 0) l = (l + 1) % m;
            ssize_t sz = d.dl->get_disjoint_list_size(st, l);
            ssize_t i = r.rnd(sz), j = r.rnd(sz), l2 = r.rnd(m);
            if (k == 0 || m == 1) d.dl->swap_in_list(st, l, i, j);
            else if (k == 1) d.dl->rotate_in_list(st, l, i, j);
            else {
                if (l == l2) l2 = (l + 1) % m;
                ssize_t s2 = d.dl->get_disjoint_list_size(st, l2), to = r.rnd(s2 + 1);
                if (k < 4) d.dl->pop_to_list(st, l, i, l2, to);
                else {
                    Vec a = rd(d.parts[l], st), b = rd(d.parts[l2], st);
                    b.insert(b.begin() + to, a[i]);
                    a.erase(a.begin() + i);
                    d.dl->set_state(st, l, a);
                    d.dl->set_state(st, l2, b);
                }
            }
            break;
        }
        case K_DB: {
            ssize_t m = d.db->num_disjoint_sets();
            d.db->swap_between_sets(st, r.rnd(m), r.rnd(m), r.rnd(d.n));
            break;
        }
    }
}

struct Snap {
    Vec vals;
    Shape shape;
};

struct Cfg {
    int moves1 = 2;      // up to this many moves in the first proposal
    int moves2 = 1;      // ... in the second (0: no second proposal)
    bool all_move = false;  // every decision moves in every proposal
    bool full = false;      // the moves of the first proposal range over every mutator
    int scripts = 0;        // > 0: this many scripts instead
    int budget = 2;      // of a script: how many symbolic values initially, and then in all
    int budget2 = 2;
};

inline Cfg scripts(int n = 4) { Cfg c; c.scripts = n; c.budget = c.budget2 = 2; return c; }
inline Cfg then_any(int n) { Cfg c = scripts(n); c.full = true; return c; }
inline Cfg few(int n = 6, int init = 2, int moves = 2) { Cfg c; c.scripts = n; c.budget = init; c.budget2 = moves; return c; }

struct Scn {
    Graph g;
    std::vector<Dec> decs;
    std::vector<const ArrayNode*> watch;
    // asserts the documented meaning of the model's symbols in a state
    std::function<void(State&)> oracle;

    IntegerNode* integer(Shape shape, int lo, int hi) {
        auto p = g.emplace_node<IntegerNode>(std::span<const ssize_t>(shape), lo, hi);
        Dec d{K_INT}; d.node = p; d.in = p; d.lo = lo; d.hi = hi; d.n = p->size();
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    BinaryNode* binary(Shape shape) {
        auto p = g.emplace_node<BinaryNode>(std::span<const ssize_t>(shape));
        Dec d{K_BIN}; d.node = p; d.in = p; d.bi = p; d.lo = 0; d.hi = 1; d.n = p->size();
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    // dynamic array with rows of `row` elements (0: one-dimensional)
    DynamicArrayTestingNode* dyn(ssize_t row, int lo, int hi, ssize_t smin, ssize_t smax, ssize_t s0min = -1,
                                 ssize_t s0max = -1, double scale = 1) {
        ssize_t r = row ? row : 1;
        DynamicArrayTestingNode* p;
        bool integral = scale == 1;
        if (row)
            p = g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, row}, scale * lo, scale * hi,
                                                        integral, smin * r, smax * r);
        else
            p = g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, scale * lo, scale * hi,
                                                        integral, smin * r, smax * r);
        Dec d{K_DYN}; d.node = p; d.dy = p; d.lo = lo; d.hi = hi; d.row = r; d.smin = smin; d.smax = smax;
        d.s0min = s0min < 0 ? smin : s0min; d.s0max = s0max < 0 ? smax : s0max; d.scale = scale;
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    // dynamic array with rows of shape (r0, r1)
    DynamicArrayTestingNode* dyn3(ssize_t r0, ssize_t r1, int lo, int hi, ssize_t smin, ssize_t smax) {
        auto p = g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, r0, r1}, double(lo),
                                                         double(hi), true, smin * r0 * r1, smax * r0 * r1);
        Dec d{K_DYN}; d.node = p; d.dy = p; d.lo = lo; d.hi = hi; d.row = r0 * r1; d.smin = smin; d.smax = smax;
        d.s0min = smin; d.s0max = smax;
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    ListNode* list(ssize_t n, ssize_t mn, ssize_t mx) {
        auto p = g.emplace_node<ListNode>(n, mn, mx);
        Dec d{K_LIST}; d.node = p; d.co = p; d.n = n; d.lo = 0; d.hi = n - 1; d.smin = mn; d.smax = mx; d.s0min = mn; d.s0max = mx;
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    ListNode* list(ssize_t n) { return list(n, n, n); }
    SetNode* set(ssize_t n, ssize_t mn, ssize_t mx) {
        auto p = g.emplace_node<SetNode>(n, mn, mx);
        Dec d{K_SET}; d.node = p; d.co = p; d.n = n; d.lo = 0; d.hi = n - 1; d.smin = mn; d.smax = mx; d.s0min = mn; d.s0max = mx;
        decs.push_back(d); watch.push_back(p);
        return p;
    }
    SetNode* set(ssize_t n) { return set(n, 0, n); }
    std::vector<DisjointListNode*> dlists(ssize_t n, ssize_t m) {
        auto p = g.emplace_node<DisjointListsNode>(n, m);
        Dec d{K_DL}; d.node = p; d.dl = p; d.n = n; d.lo = 0; d.hi = n - 1;
        std::vector<DisjointListNode*> out;
        for (ssize_t i = 0; i < m; ++i) { out.push_back(g.emplace_node<DisjointListNode>(p)); d.parts.push_back(out.back()); watch.push_back(out.back()); }
        decs.push_back(d);
        return out;
    }
    std::vector<DisjointBitSetNode*> dbits(ssize_t n, ssize_t m) {
        auto p = g.emplace_node<DisjointBitSetsNode>(n, m);
        Dec d{K_DB}; d.node = p; d.db = p; d.n = n; d.lo = 0; d.hi = 1;
        std::vector<DisjointBitSetNode*> out;
        for (ssize_t i = 0; i < m; ++i) { out.push_back(g.emplace_node<DisjointBitSetNode>(p)); d.parts.push_back(out.back()); watch.push_back(out.back()); }
        decs.push_back(d);
        return out;
    }
    ConstantNode* constant(Vec v, Shape shape) {
        auto p = g.emplace_node<ConstantNode>(v.data(), std::span<const ssize_t>(shape));
        // ConstantNode(double*, shape) does not copy; keep the data alive
        keep.push_back(std::move(v));
        watch.push_back(p);
        return p;
    }
    ConstantNode* scalar(double v) { auto p = g.emplace_node<ConstantNode>(v); watch.push_back(p); return p; }
    std::vector<Vec> keep;

    template <class N, class... A>
    N* add(A&&... a) {
        N* p = g.emplace_node<N>(std::forward<A>(a)...);
        watch.push_back(p);
        return p;
    }

    std::vector<Snap> snapshot(const State& st) const {
        std::vector<Snap> out;
        for (auto a : watch) out.push_back({rd(a, st), rdshape(a, st)});
        return out;
    }

    // P05 and P06
    void check_static(State& st) {
        if (vp_prop("P05")) {
            for (auto a : watch) {
                Vec v = rd(a, st);
                double mn = a->min(), mx = a->max();
                bool in = a->integral(), lg = a->logical();
                bool ok = true, oki = true;
                for (double x : v) {
                    ok = ok & (x >= mn) & (x <= mx);
                    if (in) oki = oki & (std::floor(x) == x);
                    if (lg) oki = oki & ((x == 0) | (x == 1));
                }
                vp_check(ok, "P05", "a value lies outside the declared minimum/maximum");
                vp_check(oki, "P05", "a value is not integral/logical although declared so");
                vp_check(mn <= mx, "P05", "declared minimum exceeds declared maximum");
            }
        }
        if (vp_prop("P06")) {
            for (auto a : watch) {
                Shape sh = rdshape(a, st);
                auto decl = a->shape();
                ssize_t prod = 1;
                for (auto x : sh) prod *= x;
                vp_check(a->size(st) == prod, "P06", "size differs from the product of the shape");
                vp_check(ssize_t(sh.size()) == a->ndim() && ssize_t(decl.size()) == a->ndim(), "P06", "wrong number of dimensions");
                for (size_t i = 0; i < sh.size() && i < decl.size(); ++i) {
                    if (i == 0 && decl[0] < 0) continue;
                    vp_check(decl[i] == sh[i], "P06", "shape differs from the declared shape");
                }
                vp_check(a->dynamic() == (a->ndim() > 0 && decl[0] < 0), "P06", "dynamic flag inconsistent with shape");
                if (!a->dynamic()) vp_check(a->size() == prod, "P06", "declared fixed size differs from actual");
                SizeInfo si = a->sizeinfo();
                check_sizeinfo(a, si, prod, st);
                if (a->dynamic()) {
                    check_sizeinfo(a, si.substitute(1), prod, st);
                    check_sizeinfo(a, si.substitute(10), prod, st);
                }
            }
            for (size_t i = 0; i < watch.size(); ++i)
                for (size_t j = i + 1; j < watch.size(); ++j) {
                    if (array_shape_equal(watch[i], watch[j])) {
                        vp_check(eqs(rdshape(watch[i], st), rdshape(watch[j], st)), "P06", "arrays judged of equal shape differ in shape");
                        vp_reach("shape_equal_pair");
                    }
                }
        }
    }
    void check_sizeinfo(const ArrayNode* a, const SizeInfo& si, ssize_t actual, State& st) {
        if (si.min) vp_check(*si.min <= actual, "P06", "size is below the declared minimum size");
        if (si.max) vp_check(*si.max >= actual, "P06", "size is above the declared maximum size");
        if (si.multiplier == 0) {
            vp_check(si.offset == actual, "P06", "size differs from the declared constant size");
        }
    }

    void check_view(State& st) {
        if (!vp_prop("P20")) return;
        for (auto a : watch) {
            Vec v = rd(a, st);
            auto view = a->view(st);
            vp_check(view.size() == ssize_t(v.size()), "P20", "view size");
            bool ok = true;
            ssize_t k = 0;
            auto it = view.begin(), end = view.end();
            for (; k < ssize_t(v.size()) && it != end; ++it, ++k) ok = ok & (*it == v[k]);
            vp_check(ok && k == ssize_t(v.size()) && it == end, "P20", "iteration differs from the buffer's contents");
            vp_check(end - view.begin() == ssize_t(v.size()), "P20", "iterator distance differs from size");
            bool ok2 = true;
            for (size_t i = 0; i < v.size(); ++i) ok2 = ok2 & (view[i] == v[i]);
            vp_check(ok2, "P20", "random access differs from the buffer's contents");
        }
    }

    void check_fresh(State& st, const char* tag, const char* msg) {
        bool need = false;
        {   // only pay for the second evaluation when the tag is being decided
            std::string t(tag);
            size_t p = 0;
            while (p <= t.size()) {
                size_t q = t.find('|', p);
                if (q == std::string::npos) q = t.size();
                need = need | vp_prop(t.substr(p, q - p).c_str());
                p = q + 1;
            }
        }
        if (!need) return;
        State st2 = g.empty_state();
        for (auto& d : decs) d.transfer(st, st2);
        g.initialize_state(st2);
        for (auto a : watch) {
            vp_check(eqs(rdshape(a, st), rdshape(a, st2)), tag, msg);
            vp_check(eqv(rd(a, st), rd(a, st2)), tag, msg);
        }
    }

    void check_diff(State& st, const std::vector<Snap>& snap) {
        if (!vp_prop("P04")) return;
        for (size_t w = 0; w < watch.size(); ++w) {
            auto a = watch[w];
            Vec v = snap[w].vals;
            bool ok = true, okold = true;
            for (const Update& u : a->diff(st)) {
                ssize_t size = v.size();
                if (u.placed()) {
                    if (!(u.index == size)) { ok = false; break; }
                    v.push_back(u.value);
                } else if (u.removed()) {
                    if (!(u.index == size - 1) || size == 0) { ok = false; break; }
                    okold = okold & (u.old == v.back());
                    v.pop_back();
                } else {
                    if (!((u.index >= 0) & (u.index < size))) { ok = false; break; }
                    okold = okold & (u.old == v[u.index]);
                    v[u.index] = u.value;
                }
            }
            vp_check(ok, "P04", "diff places/removes/updates at an impossible position");
            if (!ok) continue;
            vp_check(okold, "P04", "diff records a wrong previous value");
            vp_check(eqv(v, rd(a, st)), "P04", "applying the diff to the previous contents does not give the present contents");
            vp_check(a->size_diff(st) == ssize_t(a->size(st)) - ssize_t(snap[w].vals.size()), "P04", "size_diff is not the change in size");
        }
    }
    void check_nodiff(State& st, const char* tag, const char* msg) {
        for (auto a : watch) {
            vp_check(a->diff(st).size() == 0, tag, msg);
            vp_check(a->size_diff(st) == 0, tag, msg);
        }
    }
    void check_same(State& st, const std::vector<Snap>& snap, const char* tag, const char* msg) {
        for (size_t w = 0; w < watch.size(); ++w) {
            vp_check(eqs(rdshape(watch[w], st), snap[w].shape), tag, msg);
            vp_check(eqv(rd(watch[w], st), snap[w].vals), tag, msg);
            vp_check(ssize_t(watch[w]->size(st)) == ssize_t(snap[w].vals.size()), tag, msg);
        }
    }

    // P24: proposals on two states interleave
    void run_states() {
        g.topological_sort();
        State a = g.empty_state(), b = g.empty_state();
        for (auto& d : decs) d.init(a);
        g.initialize_state(a);
        auto a0 = snapshot(a);
        for (auto& d : decs) {
            if (vp_prop("DEEP")) d.init(b);
            else d.init_fixed(b);
        }
        g.initialize_state(b);
        {
            // what an array reports about one state stays valid when asked about another
            std::vector<std::span<const ssize_t>> spans;
            std::vector<Array::View> views;
            for (auto w : watch) {
                spans.push_back(w->shape(a));
                views.push_back(w->view(a));
            }
            for (auto w : watch) {
                (void)w->shape(b);
                (void)w->view(b);
            }
            for (size_t w = 0; w < watch.size(); ++w) {
                vp_check(Shape(spans[w].begin(), spans[w].end()) == a0[w].shape, "P24", "the shape in one state changes by asking for the shape in another");
                Vec v;
                for (auto x : views[w]) v.push_back(x);
                vp_check(eqv(v, a0[w].vals), "P24", "a view of one state changes by making one of another");
            }
        }
        auto b0 = snapshot(b);
        check_same(a, a0, "P24", "initialising one state changes another");
        std::vector<const Node*> sa{decs.front().node}, sb{decs.back().node};
        decs.front().move(a, true);
        decs.back().move(b, true);
        auto ca = Graph::descendants(a, sa);
        auto cb = Graph::descendants(b, sb);
        g.propagate(a, std::span<const Node*>(ca));
        auto a1 = snapshot(a);
        g.propagate(b, std::span<const Node*>(cb));
        check_same(a, a1, "P24", "a proposal on one state changes another");
        auto b1 = snapshot(b);
        g.commit(a, std::span<const Node*>(ca));
        check_same(b, b1, "P24", "committing one state changes another");
        g.revert(b, std::span<const Node*>(cb));
        check_same(a, a1, "P24", "reverting one state changes another");
        check_same(b, b0, "P24", "reverting a state is disturbed by another state");
        check_fresh(a, "P24", "the values of a state depend on another state");
        check_fresh(b, "P24", "the values of a state depend on another state");
        if (!vp_prop("DEEP")) return vp_reach("end");
        // the roles swapped, from the histories so far
        decs.back().move(a, true);
        decs.front().move(b, true);
        ca = Graph::descendants(a, sb);
        cb = Graph::descendants(b, sa);
        g.propagate(b, std::span<const Node*>(cb));
        g.propagate(a, std::span<const Node*>(ca));
        check_fresh(a, "P24", "the values of a state depend on another state");
        check_fresh(b, "P24", "the values of a state depend on another state");
        vp_reach("end");
    }

    void run_script(const Cfg& c) {
        g.topological_sort();
        State st = g.empty_state();
        const bool deep = vp_prop("DEEP");
        Script r(vp_pick("script", 1, deep ? 5 * c.scripts : c.scripts), c.budget);
        for (auto& d : decs) scripted_init(d, st, r);
        g.initialize_state(st);
        check_static(st);
        check_view(st);
        if (oracle) oracle(st);
        r.budget = c.budget2;
        const bool hist = vp_prop("P01") || vp_prop("P02") || vp_prop("P03") || vp_prop("P04");
        const int rounds = deep ? 6 : hist ? 4 : 2;
        const char* ftag = "P01";
        for (int round = 0; round < rounds; ++round) {
            auto snap = snapshot(st);
            std::vector<const Node*> src;
            for (ssize_t k = 1 + r.rnd(4); k > 0; --k) {
                auto& d = decs[r.rnd(decs.size())];
                scripted_move(d, st, r);
                if (std::find(src.begin(), src.end(), d.node) == src.end()) src.push_back(d.node);
            }
            // at the end any move at all
            if (c.full && round == rounds - 1 && decs.size() == 1) decs[0].move(st, false);
            auto changed = Graph::descendants(st, src);
            g.propagate(st, std::span<const Node*>(changed));
            check_fresh(st, ftag, "incremental values differ from a from-scratch evaluation");
            check_diff(st, snap);
            check_static(st);
            check_view(st);
            if (oracle) oracle(st);
            if (r.rnd(2)) {
                auto now = snapshot(st);
                g.commit(st, std::span<const Node*>(changed));
                check_same(st, now, "P03", "committing changed the proposed contents");
                check_nodiff(st, "P03", "pending changes remain after a commit");
                ftag = "P01|P03";
            } else {
                g.revert(st, std::span<const Node*>(changed));
                check_same(st, snap, "P02", "reverting did not restore the previous contents");
                check_nodiff(st, "P02", "pending changes remain after a revert");
                ftag = "P01|P02|P03";
            }
        }
        vp_reach("end_of_script");
    }

    void run(Cfg c = {}) {
        if (c.scripts && !vp_prop("P24")) return run_script(c);
        if (c.scripts) return;
        if (vp_prop("P24")) return run_states();
        g.topological_sort();
        State st = g.empty_state();
        for (auto& d : decs) d.init(st);
        g.initialize_state(st);
        check_static(st);
        check_view(st);
        check_nodiff(st, "P04|P18", "diff not empty after initialisation");
        if (oracle) oracle(st);
        // only the properties about histories need more than one proposal
        if (!(vp_prop("P01") || vp_prop("P02") || vp_prop("P03") || vp_prop("P04"))) {
            c.moves2 = 0;
            if (!vp_prop("DEEP") && (vp_prop("P05") || vp_prop("P06"))) c.moves1 = std::min(c.moves1, 1);
        }
        const bool deep = vp_prop("DEEP");
        // unless exploring deeply, P02 follows move, revert, move, and P03 move,
        // commit, move, revert, move
        int nsteps = 2;
        if (vp_prop("P03")) {
            nsteps = 3;
            if (!deep) c.moves1 = 1;
        }
        if (vp_prop("P04") && !deep) c.moves2 = 0;
        const char* ftag = "P01";
        size_t who = 0;
        for (int step = 0; step < nsteps; ++step) {
            int maxm = step ? c.moves2 : c.moves1;
            if (!maxm) break;
            auto snap = snapshot(st);
            std::vector<const Node*> src;
            if (decs.size() == 1 || c.all_move) {
                for (auto& d : decs) {
                    int k = maxm == 1 ? 1 : int(vp_pick("nmoves", 1, maxm));
                    for (int i = 0; i < k; ++i) d.move(st, (i > 0 && !c.full) || step > 0 || !src.empty());
                    src.push_back(d.node);
                }
            } else if (step == 0 || (deep && step == 1)) {
                // any non-empty subset of the decisions moves
                for (auto& d : decs) {
                    int k = int(vp_pick("nmoves", 0, src.empty() || deep ? maxm : 1));
                    if (!k) continue;
                    for (int i = 0; i < k; ++i) d.move(st, i > 0 || step > 0 || !src.empty() || vp_prop("P03"));
                    src.push_back(d.node);
                }
                vp_assume(!src.empty());
            } else {
                if (step == 1 || deep) who = vp_pick("who", 0, decs.size() - 1);
                else who = (who + 1) % decs.size();
                auto& d = decs[who];
                d.move(st, true);
                src.push_back(d.node);
            }
            auto changed = Graph::descendants(st, src);
            g.propagate(st, std::span<const Node*>(changed));
            check_fresh(st, ftag, "incremental values differ from a from-scratch evaluation");
            check_diff(st, snap);
            check_static(st);
            check_view(st);
            if (oracle) oracle(st);
            vp_reach(step == 2 ? "third_proposal" : step ? "second_proposal" : "first_proposal");
            bool last = step == nsteps - 1 || c.moves2 == 0;
            if (last && ((!vp_prop("P02") && !vp_prop("P03")) || (step == nsteps - 1 && !deep))) break;
            bool commit;
            if (deep || !(vp_prop("P02") || vp_prop("P03"))) commit = vp_pick("commit", 0, 1);
            else commit = vp_prop("P03") && step == 0;
            if (commit) {
                auto now = snapshot(st);
                g.commit(st, std::span<const Node*>(changed));
                check_same(st, now, "P03", "committing changed the proposed contents");
                check_nodiff(st, "P03", "pending changes remain after a commit");
                ftag = "P01|P03";
            } else {
                g.revert(st, std::span<const Node*>(changed));
                check_same(st, snap, "P02", "reverting did not restore the previous contents");
                check_nodiff(st, "P02", "pending changes remain after a revert");
                ftag = "P01|P02|P03";
            }
        }
        vp_reach("end");
    }
};
