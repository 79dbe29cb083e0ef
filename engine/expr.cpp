#include "expr.hpp"

#include <algorithm>
#include <cstring>

std::vector<SymInfo> g_syms;
std::vector<char> g_symBound;
std::vector<i128> g_symVal;
uint32_t g_substEpoch = 0;

static const i128 LIM = (i128)1 << 100;
static i128 clampI(i128 v) { return v > LIM ? LIM : v < -LIM ? -LIM : v; }
static i128 satMul(i128 a, i128 b) {
    i128 r;
    if (__builtin_mul_overflow(a, b, &r)) return ((a < 0) != (b < 0)) ? -LIM : LIM;
    return clampI(r);
}
static i128 satAdd(i128 a, i128 b) { return clampI(a + b); }

static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}

static uint64_t hashE(const Expr& e) {
    uint64_t h = (uint64_t)e.k * 7919;
    h = mix(h, (uint64_t)e.c);
    h = mix(h, (uint64_t)(e.c >> 64));
    for (E x : e.a) h = mix(h, x->id);
    for (auto& m : e.m) {
        h = mix(h, (uint64_t)m.c);
        for (E x : m.a) h = mix(h, x->id + 77);
    }
    return h;
}
static bool sameE(const Expr& x, const Expr& y) {
    if (x.k != y.k || x.c != y.c || x.a != y.a || x.m.size() != y.m.size()) return false;
    for (size_t i = 0; i < x.m.size(); ++i)
        if (x.m[i].c != y.m[i].c || x.m[i].a != y.m[i].a) return false;
    return true;
}
static std::unordered_multimap<uint64_t, E> g_table;
static uint32_t g_next = 1;

static E intern(Expr&& e) {
    e.h = hashE(e);
    auto r = g_table.equal_range(e.h);
    for (auto it = r.first; it != r.second; ++it)
        if (sameE(*it->second, e)) return it->second;
    e.id = g_next++;
    E p = new Expr(std::move(e));
    g_table.emplace(p->h, p);
    return p;
}

static Expr raw(K k) {
    Expr e;
    e.k = k;
    e.id = 0;
    e.h = 0;
    return e;
}

E ic(i128 v) {
    Expr e = raw(K::ICONST);
    e.c = e.lo = e.hi = v;
    return intern(std::move(e));
}
E mkSym(const std::string& name, i128 lo, i128 hi) {
    Expr e = raw(K::SYM);
    e.c = (i128)g_syms.size();
    e.lo = lo;
    e.hi = hi;
    E p = intern(std::move(e));
    g_syms.push_back({name, p});
    g_symBound.push_back(0);
    g_symVal.push_back(0);
    return p;
}

// ---- polynomials -----------------------------------------------------------

struct P {
    i128 c = 0;
    std::vector<Mono> m;
};
static bool monoLess(const std::vector<E>& x, const std::vector<E>& y) {
    if (x.size() != y.size()) return x.size() < y.size();
    for (size_t i = 0; i < x.size(); ++i)
        if (x[i] != y[i]) return x[i]->id < y[i]->id;
    return false;
}
static P toP(E e) {
    P p;
    switch (e->k) {
        case K::ICONST: p.c = e->c; break;
        case K::POLY: p.c = e->c; p.m = e->m; break;
        case K::SYM:
            if (g_symBound[(size_t)e->c]) {
                p.c = g_symVal[(size_t)e->c];
                break;
            }
            [[fallthrough]];
        default: p.m.push_back({1, {e}});
    }
    return p;
}
static void chk(i128 v) {
    if (v > LIM || v < -LIM) throw Unsupported("coefficient overflow");
}
static void monoIv(const Mono& m, i128& lo, i128& hi) {
    lo = hi = 1;
    for (size_t i = 0; i < m.a.size();) {
        size_t j = i;
        while (j < m.a.size() && m.a[j] == m.a[i]) ++j;
        int p = (int)(j - i);
        i128 al = m.a[i]->lo, ah = m.a[i]->hi;
        i128 l = 1, h = 1;
        if (p % 2 == 0) {
            i128 mx = std::max(al < 0 ? -al : al, ah < 0 ? -ah : ah);
            i128 mn = (al <= 0 && ah >= 0) ? 0 : std::min(al < 0 ? -al : al, ah < 0 ? -ah : ah);
            for (int q = 0; q < p; ++q) l = satMul(l, mn), h = satMul(h, mx);
        } else {
            for (int q = 0; q < p; ++q) l = satMul(l, q ? (al < 0 ? -al : al) : al), h = satMul(h, q ? (ah < 0 ? -ah : ah) : ah);
        }
        i128 c1 = satMul(lo, l), c2 = satMul(lo, h), c3 = satMul(hi, l), c4 = satMul(hi, h);
        lo = std::min(std::min(c1, c2), std::min(c3, c4));
        hi = std::max(std::max(c1, c2), std::max(c3, c4));
        i = j;
    }
    i128 x = satMul(lo, m.c), y = satMul(hi, m.c);
    lo = std::min(x, y);
    hi = std::max(x, y);
}
static E fromP(P&& p) {
    chk(p.c);
    if (p.m.empty()) return ic(p.c);
    if (p.m.size() == 1 && p.c == 0 && p.m[0].c == 1 && p.m[0].a.size() == 1) return p.m[0].a[0];
    Expr e = raw(K::POLY);
    e.c = p.c;
    e.lo = e.hi = p.c;
    for (auto& m : p.m) {
        chk(m.c);
        i128 l, h;
        monoIv(m, l, h);
        e.lo = satAdd(e.lo, l);
        e.hi = satAdd(e.hi, h);
    }
    if (e.lo <= -LIM || e.hi >= LIM) throw Unsupported("integer range beyond 2^100");
    e.m = std::move(p.m);
    return intern(std::move(e));
}
static P addP(const P& a, const P& b, i128 f) {
    P r;
    i128 t;
    if (__builtin_mul_overflow(b.c, f, &t)) throw Unsupported("overflow");
    r.c = a.c + t;
    size_t i = 0, j = 0;
    while (i < a.m.size() || j < b.m.size()) {
        if (j == b.m.size() || (i < a.m.size() && monoLess(a.m[i].a, b.m[j].a))) {
            r.m.push_back(a.m[i++]);
        } else if (i == a.m.size() || monoLess(b.m[j].a, a.m[i].a)) {
            r.m.push_back({b.m[j].c * f, b.m[j].a});
            ++j;
        } else {
            i128 c = a.m[i].c + b.m[j].c * f;
            if (c) r.m.push_back({c, a.m[i].a});
            ++i, ++j;
        }
    }
    return r;
}
E mkAdd(E a, E b) {
    if (a->k == K::ICONST && b->k == K::ICONST) return ic(a->c + b->c);
    return fromP(addP(toP(a), toP(b), 1));
}
E mkSub(E a, E b) {
    if (a == b) return ic(0);
    return fromP(addP(toP(a), toP(b), -1));
}
E mkMulC(E a, i128 c) {
    if (c == 0) return ic(0);
    return fromP(addP(P{}, toP(a), c));
}
static E mkOMul(E a, E b) {
    if (a->id > b->id) std::swap(a, b);
    Expr e = raw(K::OMUL);
    e.a = {a, b};
    Mono m{1, {a, b}};
    monoIv(m, e.lo, e.hi);
    if (e.lo <= -LIM || e.hi >= LIM) throw Unsupported("integer range beyond 2^100");
    return intern(std::move(e));
}
E mkMul(E a, E b) {
    if (a->k == K::ICONST) return mkMulC(b, a->c);
    if (b->k == K::ICONST) return mkMulC(a, b->c);
    if (a->k == K::ITE && b->k == K::ITE && a->a[0] == b->a[0])
        return mkIte(a->a[0], mkMul(a->a[1], b->a[1]), mkMul(a->a[2], b->a[2]));
    P x = toP(a), y = toP(b);
    size_t nx = x.m.size() + (x.c != 0), ny = y.m.size() + (y.c != 0);
    if (nx * ny > 64) return mkOMul(a, b);
    P r;
    r.c = 0;
    i128 t;
    if (__builtin_mul_overflow(x.c, y.c, &t)) throw Unsupported("overflow");
    r.c = t;
    std::vector<Mono> all;
    for (auto& m : x.m) {
        for (auto& n : y.m) {
            if (__builtin_mul_overflow(m.c, n.c, &t)) throw Unsupported("overflow");
            Mono q{t, m.a};
            q.a.insert(q.a.end(), n.a.begin(), n.a.end());
            std::sort(q.a.begin(), q.a.end(), [](E u, E v) { return u->id < v->id; });
            // idempotent 0/1 atoms
            for (size_t i = 0; i + 1 < q.a.size();) {
                if (q.a[i] == q.a[i + 1] && q.a[i]->lo >= 0 && q.a[i]->hi <= 1)
                    q.a.erase(q.a.begin() + i);
                else
                    ++i;
            }
            if (q.a.size() > 12) return mkOMul(a, b);
            all.push_back(q);
        }
        if (y.c) all.push_back({m.c * y.c, m.a});
    }
    if (x.c)
        for (auto& n : y.m) all.push_back({n.c * x.c, n.a});
    std::sort(all.begin(), all.end(), [](const Mono& u, const Mono& v) { return monoLess(u.a, v.a); });
    for (auto& m : all) {
        if (!r.m.empty() && r.m.back().a == m.a) {
            r.m.back().c += m.c;
            if (!r.m.back().c) r.m.pop_back();
        } else
            r.m.push_back(m);
    }
    return fromP(std::move(r));
}

// ---- booleans ---------------------------------------------------------------

E mkTrue() {
    static E t = intern(raw(K::TRUE_));
    return t;
}
E mkFalse() {
    static E t = intern(raw(K::FALSE_));
    return t;
}
E mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
E mkNot(E a) {
    switch (a->k) {
        case K::TRUE_: return mkFalse();
        case K::FALSE_: return mkTrue();
        case K::NOT: return a->a[0];
        case K::LE0: return mkLe0(mkSub(ic(1), a->a[0]));
        default: break;
    }
    Expr e = raw(K::NOT);
    e.a = {a};
    return intern(std::move(e));
}
E mkAnd(E a, E b) {
    if (a == b) return a;
    if (a->k == K::FALSE_ || b->k == K::FALSE_) return mkFalse();
    if (a->k == K::TRUE_) return b;
    if (b->k == K::TRUE_) return a;
    if (mkNot(a) == b) return mkFalse();
    // absorption
    if (b->k == K::AND && (b->a[0] == a || b->a[1] == a)) return b;
    if (a->k == K::AND && (a->a[0] == b || a->a[1] == b)) return a;
    if (b->k == K::OR && (b->a[0] == a || b->a[1] == a)) return a;
    if (a->k == K::OR && (a->a[0] == b || a->a[1] == b)) return b;
    if (a->id > b->id) std::swap(a, b);
    Expr e = raw(K::AND);
    e.a = {a, b};
    return intern(std::move(e));
}
E mkOr(E a, E b) {
    if (a == b) return a;
    if (a->k == K::TRUE_ || b->k == K::TRUE_) return mkTrue();
    if (a->k == K::FALSE_) return b;
    if (b->k == K::FALSE_) return a;
    if (mkNot(a) == b) return mkTrue();
    if (b->k == K::OR && (b->a[0] == a || b->a[1] == a)) return b;
    if (a->k == K::OR && (a->a[0] == b || a->a[1] == b)) return a;
    if (a->id > b->id) std::swap(a, b);
    Expr e = raw(K::OR);
    e.a = {a, b};
    return intern(std::move(e));
}
E mkBIte(E c, E a, E b) {
    if (a == b) return a;
    if (c->k == K::TRUE_) return a;
    if (c->k == K::FALSE_) return b;
    if (a->k == K::TRUE_) return mkOr(c, b);
    if (a->k == K::FALSE_) return mkAnd(mkNot(c), b);
    if (b->k == K::TRUE_) return mkOr(mkNot(c), a);
    if (b->k == K::FALSE_) return mkAnd(c, a);
    return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
}
static i128 gcdI(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
static i128 floorDiv(i128 a, i128 b) {  // b > 0
    i128 q = a / b;
    if (a % b != 0 && (a < 0)) --q;
    return q;
}
static bool isConstB(E e) { return e->k == K::TRUE_ || e->k == K::FALSE_; }

E mkLe0(E p) {
    if (p->hi <= 0) return mkTrue();
    if (p->lo > 0) return mkFalse();
    P q = toP(p);
    if (q.m.empty()) return mkBool(q.c <= 0);
    i128 g = 0;
    for (auto& m : q.m) g = gcdI(g, m.c);
    if (g > 1) {
        for (auto& m : q.m) m.c /= g;
        q.c = -floorDiv(-q.c, g);
    }
    if (q.m.size() == 1 && q.m[0].a.size() == 1 && q.m[0].a[0]->k == K::ITE) {
        E t = q.m[0].a[0];
        i128 co = q.m[0].c;
        E r1 = mkLe0(mkAdd(mkMulC(t->a[1], co), ic(q.c)));
        E r2 = mkLe0(mkAdd(mkMulC(t->a[2], co), ic(q.c)));
        if (isConstB(r1) || isConstB(r2) || r1 == r2) return mkBIte(t->a[0], r1, r2);
    }
    p = fromP(std::move(q));
    if (p->hi <= 0) return mkTrue();
    if (p->lo > 0) return mkFalse();
    Expr e = raw(K::LE0);
    e.a = {p};
    return intern(std::move(e));
}
E mkEq0(E p) {
    if (p->lo > 0 || p->hi < 0) return mkFalse();
    if (p->lo == 0 && p->hi == 0) return mkTrue();
    P q = toP(p);
    if (q.m.empty()) return mkBool(q.c == 0);
    i128 g = 0;
    for (auto& m : q.m) g = gcdI(g, m.c);
    if (g > 1) {
        if (q.c % g != 0) return mkFalse();
        for (auto& m : q.m) m.c /= g;
        q.c /= g;
    }
    if (q.m[0].c < 0) {
        for (auto& m : q.m) m.c = -m.c;
        q.c = -q.c;
    }
    if (q.m.size() == 1 && q.m[0].a.size() == 1 && q.m[0].a[0]->k == K::ITE) {
        E t = q.m[0].a[0];
        E r1 = mkEq0(mkAdd(t->a[1], ic(q.c)));
        E r2 = mkEq0(mkAdd(t->a[2], ic(q.c)));
        if (isConstB(r1) || isConstB(r2) || r1 == r2) return mkBIte(t->a[0], r1, r2);
    }
    p = fromP(std::move(q));
    if (p->lo > 0 || p->hi < 0) return mkFalse();
    Expr e = raw(K::EQ0);
    e.a = {p};
    return intern(std::move(e));
}
E boolToInt(E b) { return mkIte(b, ic(1), ic(0)); }
E intToBool(E i) { return mkNot(mkEq0(i)); }

static E rawIte(E c, E a, E b) {
    Expr e = raw(K::ITE);
    e.a = {c, a, b};
    e.lo = std::min(a->lo, b->lo);
    e.hi = std::max(a->hi, b->hi);
    return intern(std::move(e));
}
E mkIte(E c, E a, E b) {
    if (a == b) return a;
    if (c->k == K::TRUE_) return a;
    if (c->k == K::FALSE_) return b;
    if (c->k == K::NOT) return mkIte(c->a[0], b, a);
    if (a->k == K::ITE && a->a[0] == c) a = a->a[1];
    if (b->k == K::ITE && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    // canonical orientation for LE0 conditions (negation is also LE0)
    if (c->k == K::LE0) {
        E n = mkNot(c);
        if (n->id < c->id) {
            std::swap(a, b);
            c = n;
            if (c->k == K::TRUE_) return a;
            if (c->k == K::FALSE_) return b;
        }
    }
    E d = mkSub(a, b);
    if (d->k == K::ICONST) {
        if (d->c == 0) return b;
        E atom = rawIte(c, ic(1), ic(0));
        return mkAdd(b, mkMulC(atom, d->c));
    }
    // ite(x==k, x, k) etc. are left to the solver
    return rawIte(c, a, b);
}

// exact monomial division
static bool polyDiv(E a, E b, E* out) {
    P pa = toP(a), pb = toP(b);
    if (pb.c != 0 || pb.m.size() != 1 || pa.c != 0) return false;
    const Mono& d = pb.m[0];
    P r;
    for (auto& m : pa.m) {
        if (m.c % d.c) return false;
        Mono q{m.c / d.c, {}};
        size_t j = 0;
        for (E x : m.a) {
            if (j < d.a.size() && d.a[j] == x)
                ++j;
            else
                q.a.push_back(x);
        }
        if (j != d.a.size()) return false;
        // idempotent atoms may have been collapsed: refuse in that case
        for (E x : d.a)
            if (x->lo >= 0 && x->hi <= 1) return false;
        if (q.a.empty())
            r.c += q.c;
        else
            r.m.push_back(q);
    }
    std::sort(r.m.begin(), r.m.end(), [](const Mono& u, const Mono& v) { return monoLess(u.a, v.a); });
    *out = fromP(std::move(r));
    return true;
}

E mkSDiv(E a, E b) {
    if (a->k == K::ICONST && b->k == K::ICONST) return ic(a->c / b->c);
    if (b->k == K::ICONST && b->c == 1) return a;
    if (b->k == K::ICONST && b->c == -1) return mkMulC(a, -1);
    if (a->k == K::ICONST && a->c == 0) return a;
    if (b->k == K::ICONST) {
        P p = toP(a);
        bool all = p.c % b->c == 0;
        for (auto& m : p.m) all = all && m.c % b->c == 0;
        if (all) {
            p.c /= b->c;
            for (auto& m : p.m) m.c /= b->c;
            return fromP(std::move(p));
        }
    }
    E r;
    if (polyDiv(a, b, &r)) return r;
    Expr e = raw(K::SDIV);
    e.a = {a, b};
    if (b->k == K::ICONST) {
        i128 x = a->lo / b->c, y = a->hi / b->c;
        e.lo = std::min(x, y);
        e.hi = std::max(x, y);
    } else {
        i128 m = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi);
        e.lo = -m;
        e.hi = m;
        if (a->lo >= 0 && b->lo >= 0) e.lo = 0;
    }
    return intern(std::move(e));
}
E mkSRem(E a, E b) {
    if (a->k == K::ICONST && b->k == K::ICONST) return ic(a->c % b->c);
    if (b->k == K::ICONST) {
        i128 m = b->c < 0 ? -b->c : b->c;
        if (a->lo > -m && a->hi < m) return a;
        P p = toP(a);
        bool all = p.c % m == 0;
        for (auto& q : p.m) all = all && q.c % m == 0;
        if (all) return ic(0);
    }
    Expr e = raw(K::SREM);
    e.a = {a, b};
    i128 m = std::max(b->lo < 0 ? -b->lo : b->lo, b->hi < 0 ? -b->hi : b->hi) - 1;
    if (m < 0) m = 0;
    i128 ma = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi);
    m = std::min(m, ma);
    e.lo = a->lo < 0 ? -m : 0;
    e.hi = a->hi > 0 ? m : 0;
    return intern(std::move(e));
}
E mkWrap(E a, int bits) {
    i128 lo = -((i128)1 << (bits - 1)), hi = ((i128)1 << (bits - 1)) - 1;
    if (a->lo >= lo && a->hi <= hi) return a;
    if (a->k == K::ICONST) {
        unsigned __int128 v = (unsigned __int128)a->c;
        v &= (((unsigned __int128)1 << bits) - 1);
        i128 r = (i128)v;
        if (r > hi) r -= ((i128)1 << bits);
        return ic(r);
    }
    // a single fixed offset of 2^bits (unsigned values seen as signed) stays generic
    i128 mod = (i128)1 << bits;
    for (i128 k : {(i128)-1, (i128)1}) {
        i128 s = k * mod;
        if (a->lo + s >= lo && a->hi + s <= hi) return mkAdd(a, ic(s));
    }
    if (a->lo <= -LIM || a->hi >= LIM) {
        // keep exactness: translation of the argument is modulo 2^bits, so fine
    }
    Expr e = raw(K::WRAP);
    e.c = bits;
    e.a = {a};
    e.lo = lo;
    e.hi = hi;
    return intern(std::move(e));
}
E mkUnsigned(E a, int bits) {
    if (a->lo >= 0) return a;
    if (a->hi < 0) return mkAdd(a, ic((i128)1 << bits));
    return mkAdd(a, mkMulC(mkIte(mkLe(a, ic(-1)), ic(1), ic(0)), (i128)1 << bits));
}
E mkBit(K k, E a, E b, int bits) {
    if (a->k == K::ICONST && b->k == K::ICONST) {
        i128 r = k == K::BAND ? (a->c & b->c) : k == K::BOR ? (a->c | b->c) : (a->c ^ b->c);
        return ic(r);
    }
    if (a->k == K::ICONST) std::swap(a, b);
    if (b->k == K::ICONST) {
        if (k == K::BAND) {
            if (b->c == 0) return b;
            if (b->c == -1) return a;
            i128 m = b->c;
            if (m > 0 && (m & (m + 1)) == 0 && a->lo >= 0 && a->hi <= m) return a;
            if (m == 1 && a->k == K::POLY) {
                bool even = a->c % 2 == 0;
                for (auto& t : a->m) even = even && t.c % 2 == 0;
                if (even) return ic(0);
            }
        } else if (k == K::BOR) {
            if (b->c == 0) return a;
            if (b->c == -1) return b;
        } else {
            if (b->c == 0) return a;
            if (b->c == -1) return mkSub(ic(-1), a);
            if (b->c == 1 && a->lo >= 0 && a->hi <= 1) return mkSub(ic(1), a);
        }
    }
    if (a == b) return k == K::BXOR ? ic(0) : a;
    if (a->lo >= 0 && a->hi <= 1 && b->lo >= 0 && b->hi <= 1) {
        E x = intToBool(a), y = intToBool(b);
        return boolToInt(k == K::BAND ? mkAnd(x, y) : k == K::BOR ? mkOr(x, y) : mkBIte(x, mkNot(y), y));
    }
    if (a->id > b->id) std::swap(a, b);
    Expr e = raw(k);
    e.c = bits;
    e.a = {a, b};
    int w = std::max(bitsFor(a->lo, a->hi), bitsFor(b->lo, b->hi));
    e.lo = -((i128)1 << (w - 1));
    e.hi = ((i128)1 << (w - 1)) - 1;
    if (k == K::BAND) {
        if (a->lo >= 0) e.lo = 0, e.hi = std::min(e.hi, a->hi);
        if (b->lo >= 0) e.lo = 0, e.hi = std::min(e.hi, b->hi);
    } else if (a->lo >= 0 && b->lo >= 0)
        e.lo = 0;
    return intern(std::move(e));
}
E mkFloorShift(E a, int s) {
    if (s == 0) return a;
    if (a->k == K::ICONST) return ic(a->c >> s);
    P p = toP(a);
    i128 d = (i128)1 << s;
    bool all = true;
    for (auto& m : p.m) all = all && m.c % d == 0;
    if (all) {
        for (auto& m : p.m) m.c /= d;
        p.c = p.c >> s;
        return fromP(std::move(p));
    }
    i128 lo = a->lo >> s, hi = a->hi >> s;
    if (lo == hi) return ic(lo);
    Expr e = raw(K::FLOORSH);
    e.c = s;
    e.a = {a};
    e.lo = lo;
    e.hi = hi;
    return intern(std::move(e));
}

// ---- substitution -------------------------------------------------------------

static std::unordered_map<E, E> g_sub;
static uint32_t g_subEpochSeen = 0;
static bool g_anyBound = false;
static E substRec(E e) {
    switch (e->k) {
        case K::ICONST:
        case K::TRUE_:
        case K::FALSE_: return e;
        case K::SYM: return g_symBound[(size_t)e->c] ? ic(g_symVal[(size_t)e->c]) : e;
        default: break;
    }
    auto it = g_sub.find(e);
    if (it != g_sub.end()) return it->second;
    E r = nullptr;
    if (e->k == K::POLY) {
        r = ic(e->c);
        bool ch = false;
        for (auto& m : e->m)
            for (E x : m.a)
                if (substRec(x) != x) ch = true;
        if (!ch)
            r = e;
        else
            for (auto& m : e->m) {
                E t = ic(m.c);
                for (E x : m.a) t = mkMul(t, substRec(x));
                r = mkAdd(r, t);
            }
    } else {
        std::vector<E> n;
        bool ch = false;
        for (E x : e->a) {
            n.push_back(substRec(x));
            ch = ch || n.back() != x;
        }
        if (!ch)
            r = e;
        else
            switch (e->k) {
                case K::ITE: r = mkIte(n[0], n[1], n[2]); break;
                case K::SDIV: r = (n[1]->k == K::ICONST && n[1]->c == 0) ? ic(0) : mkSDiv(n[0], n[1]); break;
                case K::SREM: r = (n[1]->k == K::ICONST && n[1]->c == 0) ? ic(0) : mkSRem(n[0], n[1]); break;
                case K::WRAP: r = mkWrap(n[0], (int)e->c); break;
                case K::BAND:
                case K::BOR:
                case K::BXOR: r = mkBit(e->k, n[0], n[1], (int)e->c); break;
                case K::FLOORSH: r = mkFloorShift(n[0], (int)e->c); break;
                case K::OMUL: r = mkMul(n[0], n[1]); break;
                case K::LE0: r = mkLe0(n[0]); break;
                case K::EQ0: r = mkEq0(n[0]); break;
                case K::NOT: r = mkNot(n[0]); break;
                case K::AND: r = mkAnd(n[0], n[1]); break;
                case K::OR: r = mkOr(n[0], n[1]); break;
                case K::FINT: r = fInt(n[0], (int)e->c); break;
                case K::FDIV: r = (n[1]->k == K::ICONST && n[1]->c == 0) ? e : mkFDiv(n[0], n[1]); break;
                case K::FSQRT: r = mkFSqrt(n[0]); break;
                default: r = e;
            }
    }
    g_sub[e] = r;
    return r;
}
E subst(E e) {
    if (g_subEpochSeen != g_substEpoch) {
        g_sub.clear();
        g_subEpochSeen = g_substEpoch;
        g_anyBound = true;
    }
    if (!g_anyBound) return e;
    return substRec(e);
}

// ---- floats ---------------------------------------------------------------------

static const i128 FMAX = (i128)1 << 53;

E fInt(E e, int k) {
    // normalise scale of constants / common factors of two
    while (k > 0) {
        P p = toP(e);
        bool even = p.c % 2 == 0;
        for (auto& m : p.m) even = even && m.c % 2 == 0;
        if (!even) break;
        p.c /= 2;
        for (auto& m : p.m) m.c /= 2;
        e = fromP(std::move(p));
        --k;
    }
    if (e->lo < -FMAX || e->hi > FMAX) throw Unsupported("floating point magnitude beyond exact range");
    Expr x = raw(K::FINT);
    x.c = k;
    x.a = {e};
    return intern(std::move(x));
}
bool fConstToFint(double d, E* out) {
    if (!std::isfinite(d)) return false;
    if (std::fabs(d) > 9007199254740992.0) return false;
    int k = 0;
    double v = d;
    while (v != std::floor(v)) {
        v *= 2;
        if (++k > 24) return false;
        if (std::fabs(v) > 9007199254740992.0) return false;
    }
    *out = fInt(ic((i128)(long long)v), k);
    return true;
}
static void align(E a, E b, E& x, E& y, int& k) {
    k = (int)std::max(a->c, b->c);
    x = mkMulC(a->a[0], (i128)1 << (k - (int)a->c));
    y = mkMulC(b->a[0], (i128)1 << (k - (int)b->c));
}
static void needFint(E a, E b) {
    if (a->k != K::FINT || b->k != K::FINT) throw Unsupported("inexact floating point arithmetic on symbolic data");
}
static bool fZero(E a) { return a->k == K::FINT && a->a[0]->k == K::ICONST && a->a[0]->c == 0; }
static bool fOne(E a) { return a->k == K::FINT && a->c == 0 && a->a[0]->k == K::ICONST && a->a[0]->c == 1; }
E fAdd(E a, E b) {
    if (fZero(a)) return b;
    if (fZero(b)) return a;
    needFint(a, b);
    E x, y;
    int k;
    align(a, b, x, y, k);
    return fInt(mkAdd(x, y), k);
}
E fSub(E a, E b) {
    if (fZero(b)) return a;
    if (a == b) return fInt(ic(0), 0);
    if (fZero(a)) return fNeg(b);
    needFint(a, b);
    E x, y;
    int k;
    align(a, b, x, y, k);
    return fInt(mkSub(x, y), k);
}
E fMul(E a, E b) {
    if (fOne(a)) return b;
    if (fOne(b)) return a;
    if (fZero(a)) return a;
    if (fZero(b)) return b;
    needFint(a, b);
    return fInt(mkMul(a->a[0], b->a[0]), (int)(a->c + b->c));
}
E fNeg(E a) {
    if (a->k == K::FINT) return fInt(mkMulC(a->a[0], -1), (int)a->c);
    if (a->k == K::FDIV) return mkFDiv(mkMulC(a->a[0], -1), a->a[1]);
    throw Unsupported("fneg");
}
E fIte(E c, E a, E b) {
    if (a == b) return a;
    if (c->k == K::TRUE_) return a;
    if (c->k == K::FALSE_) return b;
    if (a->k != K::FINT || b->k != K::FINT) {
        auto asDiv = [](E e, E& n, E& d) {
            if (e->k == K::FDIV) { n = e->a[0]; d = e->a[1]; return true; }
            if (e->k == K::FINT) { n = e->a[0]; d = ic((i128)1 << (int)e->c); return true; }
            return false;
        };
        E n1, d1, n2, d2;
        if (asDiv(a, n1, d1) && asDiv(b, n2, d2)) return mkFDiv(mkIte(c, n1, n2), mkIte(c, d1, d2));
        throw Unsupported("ite over inexact floats");
    }
    E x, y;
    int k;
    align(a, b, x, y, k);
    return fInt(mkIte(c, x, y), k);
}
E mkFDiv(E n, E d) {
    if (d->k == K::ICONST) {
        i128 v = d->c;
        if (v < 0) {
            n = mkMulC(n, -1);
            v = -v;
            d = ic(v);
        }
        if ((v & (v - 1)) == 0) {
            int k = 0;
            while (((i128)1 << k) < v) ++k;
            return fInt(n, k);
        }
    }
    const i128 L = (i128)1 << 24;
    if (n->lo < -L || n->hi > L || d->lo < -L || d->hi > L) throw Unsupported("division operands too large");
    if (n->k == K::ICONST && n->c == 0) return fInt(n, 0);
    E r;
    if (polyDiv(n, d, &r)) return fInt(r, 0);
    Expr x = raw(K::FDIV);
    x.a = {n, d};
    return intern(std::move(x));
}
E mkFSqrt(E e) {
    if (e->lo < 0 || e->hi > ((i128)1 << 48)) throw Unsupported("sqrt argument range");
    if (e->k == K::ICONST) {
        double d = std::sqrt((double)e->c);
        E o;
        if (fConstToFint(d, &o)) return o;
    }
    Expr x = raw(K::FSQRT);
    x.a = {e};
    return intern(std::move(x));
}
static E relE(int rel, E p) {  // p REL 0
    return rel == 0 ? mkEq0(p) : rel == 1 ? mkLe0(mkAdd(p, ic(1))) : mkLe0(p);
}
// sign of an expression known to be nonzero denominators: multiply out
static E cmpRat(int rel, E n1, E d1, E n2, E d2) {
    // n1/d1 REL n2/d2
    E l = mkMul(n1, d2), r = mkMul(n2, d1);
    E p = mkSub(l, r);
    if (rel == 0) return mkEq0(p);
    E dd = mkMul(d1, d2);
    E pos = relE(rel, p), neg = relE(rel, mkMulC(p, -1));
    if (dd->lo > 0) return pos;
    if (dd->hi < 0) return neg;
    return mkBIte(mkLe(ic(1), dd), pos, neg);
}
static bool asRat(E e, E& n, E& d) {
    if (e->k == K::FDIV) {
        n = e->a[0];
        d = e->a[1];
        return true;
    }
    if (e->k == K::FINT && e->c <= 20) {
        n = e->a[0];
        d = ic((i128)1 << (int)e->c);
        const i128 L = (i128)1 << 26;
        return n->lo >= -L && n->hi <= L;
    }
    return false;
}
E fCmp(int rel, E a, E b) {
    if (a == b) return mkBool(rel != 1);
    if (a->k == K::FINT && b->k == K::FINT) {
        E x, y;
        int k;
        align(a, b, x, y, k);
        return relE(rel, mkSub(x, y));
    }
    if (a->k == K::FSQRT && b->k == K::FSQRT) return relE(rel, mkSub(a->a[0], b->a[0]));
    if (a->k == K::FSQRT && b->k == K::FINT && b->c == 0) {
        // sqrt(e) REL y, y integer: sqrt of a small integer rounds to an integer only if exact
        E y = b->a[0];
        E sq = mkMul(y, y);
        E nonneg = mkLe(ic(0), y);
        if (rel == 0) return mkAnd(nonneg, mkEq(a->a[0], sq));
        return mkAnd(nonneg, relE(rel, mkSub(a->a[0], sq)));
    }
    if (b->k == K::FSQRT && a->k == K::FINT && a->c == 0) {
        if (rel == 0) return fCmp(0, b, a);
        return mkNot(fCmp(rel == 1 ? 2 : 1, b, a));
    }
    E n1, d1, n2, d2;
    if (asRat(a, n1, d1) && asRat(b, n2, d2)) return cmpRat(rel, n1, d1, n2, d2);
    throw Unsupported("comparison of inexact floats");
}
// find p/q with fl(p/q) == c and small q
static bool ratApprox(double c, i128& p, i128& q) {
    double x = std::fabs(c);
    if (!(x < 1e6)) return false;
    i128 h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    double y = x;
    for (int it = 0; it < 40; ++it) {
        double fl = std::floor(y);
        if (fl > 1e9) return false;
        i128 a = (i128)(long long)fl;
        i128 h2 = a * h1 + h0, k2 = a * k1 + k0;
        if (h2 > (1 << 24) || k2 > (1 << 24)) return false;
        h0 = h1, h1 = h2, k0 = k1, k1 = k2;
        if ((double)(long long)h1 / (double)(long long)k1 == x) {
            p = c < 0 ? -h1 : h1;
            q = k1;
            return true;
        }
        double f = y - fl;
        if (f == 0) return false;
        y = 1 / f;
    }
    return false;
}
E fCmpC(int rel, E a, double c) {
    if (std::isnan(c)) return mkFalse();
    if (std::isinf(c)) {
        if (rel == 0) return mkFalse();
        return mkBool(c > 0);
    }
    E o;
    if (fConstToFint(c, &o)) {
        if (a->k != K::FSQRT || o->c == 0) return fCmp(rel, a, o);
    }
    if (a->k == K::FINT) {
        double s = std::ldexp(c, (int)a->c);
        E e = a->a[0];
        if (!std::isfinite(s) || std::fabs(s) > 1e18) {
            if (rel == 0) return mkFalse();
            return mkBool(c > 0);
        }
        double fl = std::floor(s);
        bool exact = fl == s;
        i128 f = (i128)(long long)fl;
        if (rel == 0) return exact ? mkEq(e, ic(f)) : mkFalse();
        if (rel == 2) return mkLe(e, ic(f));
        return exact ? mkLt(e, ic(f)) : mkLe(e, ic(f));
    }
    if (a->k == K::FSQRT) {
        E e = a->a[0];
        // monotone: find number of integers n in [0, 2^48] with sqrt(n) REL c
        auto ok = [&](i128 n, int r) {
            double v = std::sqrt((double)(long long)n);
            return r == 1 ? v < c : v <= c;
        };
        auto thr = [&](int r) {  // largest n with ok, or -1
            i128 lo = -1, hi = (i128)1 << 49;
            while (hi - lo > 1) {
                i128 m = (lo + hi) / 2;
                if (ok(m, r)) lo = m; else hi = m;
            }
            return lo;
        };
        if (rel == 0) return mkAnd(mkLe(e, ic(thr(2))), mkNot(mkLe(e, ic(thr(1)))));
        return mkLe(e, ic(thr(rel)));
    }
    if (a->k == K::FDIV) {
        i128 p, q;
        if (std::fabs(c) > 2e7) {
            if (rel == 0) return mkFalse();
            return mkBool(c > 0);
        }
        if (ratApprox(c, p, q)) return cmpRat(rel, a->a[0], a->a[1], ic(p), ic(q));
    }
    throw Unsupported("comparison of inexact float with constant");
}
E fCmpCrev(int rel, double c, E a) {
    if (std::isnan(c)) return mkFalse();
    if (rel == 0) return fCmpC(0, a, c);
    return mkNot(fCmpC(rel == 1 ? 2 : 1, a, c));
}

// ---- evaluation -------------------------------------------------------------------

int bitsFor(i128 lo, i128 hi) {
    int w = 1;
    while (w < 126 && (lo < -((i128)1 << (w - 1)) || hi > ((i128)1 << (w - 1)) - 1)) ++w;
    return w;
}
i128 Eval::ev(E e) {
    switch (e->k) {
        case K::ICONST: return e->c;
        case K::TRUE_: return 1;
        case K::FALSE_: return 0;
        case K::SYM: return (size_t)e->c < asg.size() ? asg[(size_t)e->c] : e->lo;
        default: break;
    }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    i128 r = 0;
    switch (e->k) {
        case K::POLY: {
            r = e->c;
            for (auto& m : e->m) {
                i128 t = m.c;
                for (E x : m.a) t *= ev(x);
                r += t;
            }
            break;
        }
        case K::ITE: r = ev(e->a[0]) ? ev(e->a[1]) : ev(e->a[2]); break;
        case K::SDIV: { i128 d = ev(e->a[1]); r = d ? ev(e->a[0]) / d : 0; break; }
        case K::SREM: { i128 d = ev(e->a[1]); r = d ? ev(e->a[0]) % d : 0; break; }
        case K::WRAP: r = mkWrap(ic(ev(e->a[0])), (int)e->c)->c; break;
        case K::BAND: r = ev(e->a[0]) & ev(e->a[1]); break;
        case K::BOR: r = ev(e->a[0]) | ev(e->a[1]); break;
        case K::BXOR: r = ev(e->a[0]) ^ ev(e->a[1]); break;
        case K::FLOORSH: r = ev(e->a[0]) >> (int)e->c; break;
        case K::OMUL: r = ev(e->a[0]) * ev(e->a[1]); break;
        case K::LE0: r = ev(e->a[0]) <= 0; break;
        case K::EQ0: r = ev(e->a[0]) == 0; break;
        case K::NOT: r = !ev(e->a[0]); break;
        case K::AND: r = ev(e->a[0]) && ev(e->a[1]); break;
        case K::OR: r = ev(e->a[0]) || ev(e->a[1]); break;
        default: throw Unsupported("eval");
    }
    memo[e] = r;
    return r;
}

std::string i128str(i128 v) {
    if (v == 0) return "0";
    bool n = v < 0;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s;
    while (u) {
        s += (char)('0' + (int)(u % 10));
        u /= 10;
    }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
std::string show(E e, int d) {
    if (d == 0) return "…";
    switch (e->k) {
        case K::ICONST: return i128str(e->c);
        case K::TRUE_: return "true";
        case K::FALSE_: return "false";
        case K::SYM: return g_syms[(size_t)e->c].name;
        case K::POLY: {
            std::string s = "(" + i128str(e->c);
            for (auto& m : e->m) {
                s += " + " + i128str(m.c);
                for (E x : m.a) s += "*" + show(x, d - 1);
            }
            return s + ")";
        }
        default: {
            static const char* names[] = {"ic", "poly", "sym", "ite", "sdiv", "srem", "wrap", "and", "or", "xor", "shr", "mul", "T", "F", "le0", "eq0", "not", "and", "or", "fint", "fdiv", "fsqrt"};
            std::string s = std::string(names[(int)e->k]) + "(";
            for (E x : e->a) s += show(x, d - 1) + ",";
            return s + ")";
        }
    }
}
