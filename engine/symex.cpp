// A symbolic executor for LLVM 18 bitcode.  Usage:
//   symex MODULE.bc --out DIR [--prop TAG] [--jobs N] [--timeout S] [--entry NAME]...
// Every entry is a void() function of a harness.  Control flow on symbolic
// conditions forks the process (one process per path prefix); every branch
// feasibility question and every assertion is decided by z3.
#include <errno.h>
#include <fcntl.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cfloat>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include <z3++.h>

#include "expr.hpp"

using namespace llvm;
typedef uint64_t u64;
typedef unsigned __int128 u128;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ shared stats

enum { MAXE = 2048, MAXF = 16384, MAXL = 16384, MAXMSG = 160 };
struct EntryStats {
    long paths, completed, assumed_away, inconclusive, violations, forks;
    long q_branch, q_assert, q_conc, sat, unsat, unknown, witnessed, refuted_before;
    long asserts_checked, asserts_syntactic;
    long instrs;
    long inputs;
    double solver_s, wall_s;
    int timed_out;
    int crashed;
};
struct LabelRec {
    int entry;
    int kind;  // 0 reach, 1 inconclusive reason, 2 assertion label
    long count;
    char msg[MAXMSG];
};
struct Shared {
    sem_t tokens;
    sem_t lock;
    int nentries;
    EntryStats st[MAXE];
    unsigned char fn[MAXF];
    int nlabels;
    LabelRec lab[MAXL];
    int nviol;
    long nsample[MAXE];
    uint64_t unsat[1 << 21];  // hashes of formulas the solver has refuted in this run
};
static Shared* SH;
static int CUR = 0;
static EntryStats& ST() { return SH->st[CUR]; }
#define INC(f) __atomic_fetch_add(&ST().f, 1, __ATOMIC_RELAXED)
#define ADD(f, n) __atomic_fetch_add(&ST().f, (n), __ATOMIC_RELAXED)

static void label(int kind, const char* msg) {
    sem_wait(&SH->lock);
    for (int i = 0; i < SH->nlabels; ++i)
        if (SH->lab[i].entry == CUR && SH->lab[i].kind == kind && !strncmp(SH->lab[i].msg, msg, MAXMSG - 1)) {
            SH->lab[i].count++;
            sem_post(&SH->lock);
            return;
        }
    if (SH->nlabels < MAXL) {
        auto& l = SH->lab[SH->nlabels++];
        l.entry = CUR;
        l.kind = kind;
        l.count = 1;
        strncpy(l.msg, msg, MAXMSG - 1);
    }
    sem_post(&SH->lock);
}
static double g_deadline;
static std::string g_out, g_prop;
static bool g_deep = false;
static std::string g_entryName;
static double g_queryLimit = 30;
static long g_instrLimit = 40000000L;
struct HangErr {};
static int g_maxViol = 3;

// ------------------------------------------------------------------ solver

struct Solver {
    z3::context c;
    std::unique_ptr<z3::solver> s;
    std::unordered_map<E, z3::expr> tr;      // integer atoms at natural width, bools
    std::unordered_map<E, z3::expr> proxy;
    std::vector<i128> model;                 // assignment satisfying the path condition
    std::unordered_set<E> known;
    std::vector<E> path;

    void init() {
        s = std::make_unique<z3::solver>(c, "QF_BV");
    }
    z3::expr bvc(i128 v, int w) {
        u128 u = (u128)v;
        if (w < 128) u &= (((u128)1 << w) - 1);
        std::string d;
        if (!u) d = "0";
        while (u) {
            d += char('0' + (int)(u % 10));
            u /= 10;
        }
        std::reverse(d.begin(), d.end());
        return c.bv_val(d.c_str(), w);
    }
    z3::expr fit(const z3::expr& e, int w) {
        int n = e.get_sort().bv_size();
        if (n == w) return e;
        if (n < w) return z3::sext(e, w - n);
        return e.extract(w - 1, 0);
    }
    z3::expr ti(E e, int w) {  // value modulo 2^w
        if (e->k == K::ICONST) return bvc(e->c, w);
        if (e->k == K::POLY) {
            z3::expr r = bvc(e->c, w);
            bool first = e->c == 0;
            for (auto& m : e->m) {
                z3::expr t = fit(atom(m.a[0]), w);
                for (size_t i = 1; i < m.a.size(); ++i) t = t * fit(atom(m.a[i]), w);
                if (m.c != 1) t = t * bvc(m.c, w);
                if (first) {
                    r = t;
                    first = false;
                } else
                    r = r + t;
            }
            return r;
        }
        return fit(atom(e), w);
    }
    int W(E e) { return bitsFor(e->lo, e->hi); }
    z3::expr nat(E e) {
        if (e->k == K::POLY) {
            auto it = tr.find(e);
            if (it != tr.end()) return it->second;
            z3::expr r = ti(e, W(e));
            tr.emplace(e, r);
            return r;
        }
        return ti(e, W(e));
    }
    z3::expr atom(E e) {
        auto it = tr.find(e);
        if (it != tr.end()) return it->second;
        z3::expr r(c);
        switch (e->k) {
            case K::ICONST: return bvc(e->c, W(e));
            case K::POLY: return nat(e);
            case K::SYM: {
                int w = W(e);
                r = c.bv_const(("s" + std::to_string((long)e->c)).c_str(), w);
                if (e->lo != -((i128)1 << (w - 1))) s->add(z3::sge(r, bvc(e->lo, w)));
                if (e->hi != ((i128)1 << (w - 1)) - 1) s->add(z3::sle(r, bvc(e->hi, w)));
                break;
            }
            case K::ITE: {
                int w = W(e);
                r = z3::ite(tb(e->a[0]), ti2(e->a[1], w), ti2(e->a[2], w));
                break;
            }
            case K::SDIV:
            case K::SREM: {
                int w = std::max(W(e->a[0]), W(e->a[1])) + 1;
                z3::expr x = ti2(e->a[0], w), y = ti2(e->a[1], w);
                z3::expr q(c);
                bool nn = e->a[0]->lo >= 0 && e->a[1]->lo >= 0;
                if (e->k == K::SDIV)
                    q = nn ? z3::udiv(x, y) : (x / y);
                else
                    q = nn ? z3::urem(x, y) : z3::srem(x, y);
                r = fit(q, W(e));
                break;
            }
            case K::WRAP: r = ti(e->a[0], (int)e->c); break;
            case K::BAND:
            case K::BOR:
            case K::BXOR: {
                int w = std::max(W(e->a[0]), W(e->a[1]));
                z3::expr x = ti2(e->a[0], w), y = ti2(e->a[1], w);
                r = e->k == K::BAND ? (x & y) : e->k == K::BOR ? (x | y) : (x ^ y);
                r = fit(r, W(e));
                break;
            }
            case K::FLOORSH: {
                int w = W(e->a[0]);
                r = fit(z3::ashr(ti2(e->a[0], w), bvc(e->c, w)), W(e));
                break;
            }
            case K::OMUL: {
                int w = W(e);
                r = ti2(e->a[0], w) * ti2(e->a[1], w);
                break;
            }
            default: throw Unsupported("translate int");
        }
        tr.emplace(e, r);
        return r;
    }
    // exact value at width w >= natural width is a sign extension of the natural one;
    // for narrower w it is a truncation
    z3::expr ti2(E e, int w) { return fit(nat(e), w); }
    z3::expr tb(E e) {
        auto it = tr.find(e);
        if (it != tr.end()) return it->second;
        z3::expr r(c);
        switch (e->k) {
            case K::TRUE_: return c.bool_val(true);
            case K::FALSE_: return c.bool_val(false);
            case K::LE0: {
                z3::expr x = nat(e->a[0]);
                r = z3::sle(x, bvc(0, x.get_sort().bv_size()));
                break;
            }
            case K::EQ0: {
                z3::expr x = nat(e->a[0]);
                r = x == bvc(0, x.get_sort().bv_size());
                break;
            }
            case K::NOT: r = !tb(e->a[0]); break;
            case K::AND: r = tb(e->a[0]) && tb(e->a[1]); break;
            case K::OR: r = tb(e->a[0]) || tb(e->a[1]); break;
            default: throw Unsupported("translate bool");
        }
        tr.emplace(e, r);
        return r;
    }
    z3::expr lit(E e) {
        auto it = proxy.find(e);
        if (it != proxy.end()) return it->second;
        z3::expr b = tb(e);
        z3::expr p = c.bool_const(("p" + std::to_string(e->id)).c_str());
        s->add(z3::implies(p, b));
        proxy.emplace(e, p);
        return p;
    }
    i128 getVal(z3::model& m, E sym) {
        auto it = tr.find(sym);
        if (it == tr.end()) return (size_t)sym->c < model.size() ? model[(size_t)sym->c] : sym->lo;
        z3::expr v = m.eval(it->second, true);
        std::string str = Z3_get_numeral_string(c, v);
        u128 u = 0;
        for (char ch : str) u = u * 10 + (u128)(ch - '0');
        int w = v.get_sort().bv_size();
        i128 r = (i128)u;
        if (r >= ((i128)1 << (w - 1))) r -= ((i128)1 << w);
        return r;
    }
    std::unordered_map<E, std::vector<int>> supp;
    const std::vector<int>& support(E e) {
        auto it = supp.find(e);
        if (it != supp.end()) return it->second;
        std::vector<int> r;
        auto add = [&](E x) {
            for (int i : support(x))
                if (std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
        };
        if (e->k == K::SYM) r.push_back((int)e->c);
        for (E x : e->a) add(x);
        for (auto& m : e->m)
            for (E x : m.a) add(x);
        return supp[e] = r;
    }
    // Look for an assignment near the current model that satisfies the path
    // condition and cond, by evaluation.  A success shows satisfiability; a
    // failure shows nothing and the question goes to the solver.
    bool witness(E cond, std::vector<i128>* out) {
        const std::vector<int>& sy = support(cond);
        if (sy.size() > 6) return false;
        std::vector<i128> a(g_syms.size());
        for (size_t i = 0; i < a.size(); ++i)
            a[i] = g_symBound[i] ? g_symVal[i] : i < model.size() ? model[i] : g_syms[i].e->lo;
        auto works = [&]() {
            {
                Eval ev(a);
                if (!ev.ev(cond)) return false;
            }
            Eval ev(a);
            for (size_t i = path.size(); i-- > 0;)
                if (!ev.ev(path[i])) return false;
            return true;
        };
        for (int i : sy) {
            if (g_symBound[i]) continue;
            E e = g_syms[i].e;
            i128 keep = a[i];
            std::vector<i128> cand;
            if (e->hi - e->lo < 12) {
                for (i128 v = e->lo; v <= e->hi; ++v) cand.push_back(v);
            } else {
                cand = {keep + 1, keep - 1, e->lo, e->hi, 0, 1};
                for (int j : sy)
                    if (j != i) cand.push_back(a[j]);
            }
            for (i128 v : cand) {
                if (v < e->lo || v > e->hi || v == keep) continue;
                a[i] = v;
                if (works()) {
                    *out = a;
                    return true;
                }
            }
            a[i] = keep;
        }
        return false;
    }
    // Structural hash, the same in every process.
    std::unordered_map<E, uint64_t> shash;
    static uint64_t mx(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        h *= 0xc4ceb9fe1a85ec53ull;
        return h ^ (h >> 29);
    }
    uint64_t sh(E e) {
        auto it = shash.find(e);
        if (it != shash.end()) return it->second;
        uint64_t h = mx(0x1234567, (uint64_t)e->k);
        h = mx(h, (uint64_t)e->c);
        h = mx(h, (uint64_t)(e->c >> 64));
        if (e->k == K::SYM) {
            h = mx(h, (uint64_t)e->lo);
            h = mx(h, (uint64_t)e->hi);
        }
        if (e->k == K::AND || e->k == K::OR) h = mx(h, mx(7, sh(e->a[0])) + mx(7, sh(e->a[1])));
        else
            for (E x : e->a) h = mx(h, sh(x));
        uint64_t sum = 0;
        for (auto& m : e->m) {
            uint64_t g = mx(mx(99, (uint64_t)m.c), (uint64_t)(m.c >> 64)), t = 0;
            for (E x : m.a) t += mx(3, sh(x));
            sum += mx(g, t);
        }
        h = mx(h, sum);
        shash.emplace(e, h);
        return h;
    }
    // Hash of cond together with the path conditions that share symbols with it
    // (transitively).  The others are satisfiable by themselves, so they do not
    // influence the answer.
    uint64_t key(E cond) {
        std::vector<char> in(g_syms.size(), 0);
        for (int i : support(cond)) in[i] = 1;
        std::vector<E> rest;
        for (E p : path) {
            E q = subst(p);
            if (q->k != K::TRUE_) rest.push_back(q);
        }
        uint64_t sum = 0;
        std::unordered_set<E> used;
        for (bool more = true; more;) {
            more = false;
            for (E q : rest) {
                if (used.count(q)) continue;
                bool t = false;
                for (int i : support(q)) t = t || in[i];
                if (!t) continue;
                used.insert(q);
                more = true;
                for (int i : support(q)) in[i] = 1;
                sum += mx(0xabcdef, sh(q));
            }
        }
        uint64_t k = mx(sum, sh(cond));
        return k ? k : 1;
    }
    static constexpr uint64_t NC = 1 << 21;
    bool refuted(uint64_t k) {
        for (uint64_t i = k % NC, n = 0; n < 64; ++n, i = (i + 1) % NC) {
            uint64_t v = __atomic_load_n(&SH->unsat[i], __ATOMIC_RELAXED);
            if (v == k) return true;
            if (!v) return false;
        }
        return false;
    }
    void remember(uint64_t k) {
        for (uint64_t i = k % NC, n = 0; n < 64; ++n, i = (i + 1) % NC) {
            uint64_t v = 0;
            if (__atomic_compare_exchange_n(&SH->unsat[i], &v, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || v == k) return;
        }
    }
    size_t asserted = 0;
    // 1 sat (new model in out), 0 unsat, -1 unknown
    int query(E cond, std::vector<i128>* out, long EntryStats::*ctr, bool branch) {
        if (branch && witness(cond, out)) {
            INC(witnessed);
            return 1;
        }
        const uint64_t k = key(cond);
        if (refuted(k)) {
            INC(refuted_before);
            return 0;
        }
        __atomic_fetch_add(&(ST().*ctr), 1, __ATOMIC_RELAXED);
        double t0 = now();
        for (; asserted < path.size(); ++asserted) s->add(tb(path[asserted]));
        z3::expr_vector as(c);
        as.push_back(lit(cond));
        double left = g_deadline - t0;
        if (left < 0.05) left = 0.05;
        z3::params ps(c);
        ps.set("timeout", (unsigned)(std::min(left, g_queryLimit) * 1000));
        s->set(ps);
        z3::check_result r = z3::unknown;
        try {
            r = s->check(as);
        } catch (z3::exception&) {
        }
        double dt = now() - t0;
        sem_wait(&SH->lock);
        ST().solver_s += dt;
        sem_post(&SH->lock);
        if (dt > 3 && getenv("SYMEX_SLOW")) fprintf(stderr, "[slow %.1fs] %s\n", dt, show(cond, 5).substr(0, 600).c_str());
        if (r == z3::sat) {
            INC(sat);
            z3::model m = s->get_model();
            std::vector<i128> a(g_syms.size());
            for (size_t i = 0; i < g_syms.size(); ++i) {
                a[i] = getVal(m, g_syms[i].e);
                if (g_symBound[i]) a[i] = g_symVal[i];
            }
            // cross-check the solver's model with the evaluator
            Eval ev(a);
            if (!ev.ev(cond)) {
                label(1, "internal: solver model does not satisfy the condition");
                fprintf(stderr, "MODEL MISMATCH %s\n", show(cond, 8).c_str());
                return -1;
            }
            *out = a;
            return 1;
        }
        if (r == z3::unsat) {
            INC(unsat);
            remember(k);
            return 0;
        }
        INC(unknown);
        return -1;
    }
    void learn(E c) {
        if (!known.insert(c).second) return;
        if (c->k == K::AND) {
            learn(c->a[0]);
            learn(c->a[1]);
        }
        if (c->k == K::NOT && c->a[0]->k == K::OR) {
            learn(mkNot(c->a[0]->a[0]));
            learn(mkNot(c->a[0]->a[1]));
        }
        if (c->k == K::EQ0) {
            E p = c->a[0];
            E sym = nullptr;
            i128 v = 0;
            if (p->k == K::SYM)
                sym = p;
            else if (p->k == K::POLY && p->m.size() == 1 && p->m[0].a.size() == 1 && p->m[0].c == 1 && p->m[0].a[0]->k == K::SYM) {
                sym = p->m[0].a[0];
                v = -p->c;
            }
            if (sym && !g_symBound[(size_t)sym->c]) {
                g_symBound[(size_t)sym->c] = 1;
                g_symVal[(size_t)sym->c] = v;
                ++g_substEpoch;
            }
        }
    }
    // cond is to hold on this path; the current model must satisfy it
    void assume(E cond, bool implied = false) {
        if (cond->k == K::TRUE_) return;
        if (!implied) {
            path.push_back(cond);
        }
        learn(cond);
    }
};
static Solver* SOL;

// ------------------------------------------------------------------ process tree

static std::vector<pid_t> g_kids;
static bool g_hasToken = true;

[[noreturn]] static void endPath() {
    for (pid_t p : g_kids) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ST().crashed = 1;
    }
    _exit(0);
}
static void flushInstr();
[[noreturn]] static void finishPath(const char* inconclusive) {
    flushInstr();
    INC(paths);
    if (inconclusive) {
        INC(inconclusive);
        label(1, inconclusive);
    }
    if (!g_kids.empty()) {
        // release our token while waiting for children that run concurrently
        if (g_hasToken) sem_post(&SH->tokens);
        for (pid_t p : g_kids) {
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ST().crashed = 1;
        }
        _exit(0);
    }
    if (g_hasToken) sem_post(&SH->tokens);
    _exit(0);
}
// Allocation.  Freed blocks are not reused across a fork, so that a path writes
// to fresh pages instead of to pages it shares with other paths.
static struct {
    void* free[65];
    char *cur, *end;
} g_pool;
static bool g_loading = true;
static void poolForget() { memset(g_pool.free, 0, sizeof g_pool.free); }
void* operator new(size_t n) {
    size_t c = (n + 15) / 16;
    if (c > 64 || c == 0) {
        char* p = (char*)malloc(n + 16);
        if (!p) abort();
        *(size_t*)p = 0;
        return p + 16;
    }
    if (void* p = g_pool.free[c]) {
        g_pool.free[c] = *(void**)p;
        return p;
    }
    size_t sz = c * 16 + 16;
    if (g_pool.cur + sz > g_pool.end || !g_pool.cur) {
        // while loading the program: huge pages, which are cheap to share after a fork
        size_t chunk = g_loading ? 16u << 20 : 1u << 18;
        g_pool.cur = (char*)mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_pool.cur == MAP_FAILED) abort();
        if (g_loading) madvise(g_pool.cur, chunk, MADV_HUGEPAGE);
        g_pool.end = g_pool.cur + chunk;
    }
    char* p = g_pool.cur;
    g_pool.cur += sz;
    *(size_t*)p = c;
    return p + 16;
}
void operator delete(void* q) noexcept {
    if (!q) return;
    char* p = (char*)q - 16;
    size_t c = *(size_t*)p;
    if (!c) {
        free(p);
        return;
    }
    *(void**)q = g_pool.free[c];
    g_pool.free[c] = q;
}
void operator delete(void* q, size_t) noexcept { operator delete(q); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, size_t) noexcept { operator delete(q); }

// returns true in the child
static bool splitProcess() {
    if (now() > g_deadline) {
        ST().timed_out = 1;
        finishPath("time limit");
    }
    INC(forks);
    flushInstr();
    bool conc = sem_trywait(&SH->tokens) == 0;
    pid_t p = fork();
    poolForget();
    if (p < 0) {
        if (conc) sem_post(&SH->tokens);
        finishPath("fork failed");
    }
    if (p == 0) {
        g_kids.clear();
        g_hasToken = true;  // child owns a token: the acquired one or the parent's
        return true;
    }
    if (conc) {
        g_kids.push_back(p);
    } else {
        // hand our token to the child and wait for it; it posts it back
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            ST().crashed = 1;
            sem_post(&SH->tokens);
        }
        while (sem_wait(&SH->tokens) < 0 && errno == EINTR) {}
    }
    if (now() > g_deadline) {
        ST().timed_out = 1;
        finishPath("time limit");
    }
    return false;
}

// ------------------------------------------------------------------ inputs & violations

struct Input {
    std::string name;
    E e;  // symbol or constant
};
static std::vector<Input> g_inputs;

static void writeViolation(const char* tag, const std::string& msg, const std::vector<i128>& asg) {
    INC(violations);
    sem_wait(&SH->lock);
    int n = SH->nviol++;
    sem_post(&SH->lock);
    if (n > 200) return;
    char f[600];
    snprintf(f, sizeof f, "%s/cex-%s-%03d.txt", g_out.c_str(), g_entryName.c_str(), n);
    FILE* o = fopen(f, "w");
    if (!o) return;
    fprintf(o, "entry %s\n", g_entryName.c_str());
    fprintf(o, "prop %s\n", g_prop.c_str());
    fprintf(o, "deep %d\n", (int)g_deep);
    fprintf(o, "tag %s\n", tag);
    std::string m1 = msg;
    for (char& ch : m1)
        if (ch == '\n') ch = ' ';
    fprintf(o, "msg %s\n", m1.c_str());
    Eval ev(asg);
    for (auto& i : g_inputs) fprintf(o, "in %s %s\n", i.name.c_str(), i128str(ev.ev(i.e)).c_str());
    fclose(o);
}

// a concrete instance of every 2^k-th completed path, for validation against
// the natively compiled code
static int g_samples = 0;
static void writeSample() {
    if (!g_samples) return;
    sem_wait(&SH->lock);
    long n = ++SH->nsample[CUR];
    sem_post(&SH->lock);
    if ((n & (n - 1)) || n > (1L << (g_samples - 1))) return;
    char f[600];
    snprintf(f, sizeof f, "%s/path-%s-%07ld.txt", g_out.c_str(), g_entryName.c_str(), n);
    FILE* o = fopen(f, "w");
    if (!o) return;
    fprintf(o, "entry %s\nprop %s\ndeep %d\n", g_entryName.c_str(), g_prop.c_str(), (int)g_deep);
    Eval ev(SOL->model);
    for (auto& i : g_inputs) fprintf(o, "in %s %s\n", i.name.c_str(), i128str(ev.ev(i.e)).c_str());
    fclose(o);
}

// Decide a symbolic condition on the current path, forking when both sides are feasible.
static bool decide(E cond) {
    cond = subst(cond);
    if (cond->k == K::TRUE_) return true;
    if (cond->k == K::FALSE_) return false;
    if (SOL->known.count(cond)) return true;
    E neg = mkNot(cond);
    if (SOL->known.count(neg)) return false;
    Eval ev(SOL->model);
    bool cur = ev.ev(cond) != 0;
    E here = cur ? cond : neg, other = cur ? neg : cond;
    std::vector<i128> m2;
    int r = SOL->query(other, &m2, &EntryStats::q_branch, true);
    if (r == 0) {
        SOL->assume(here, true);
        return cur;
    }
    if (r < 0) {
        label(1, "solver unknown on a branch");
        INC(inconclusive);
        SOL->assume(here);
        return cur;
    }
    if (splitProcess()) {
        SOL->model = m2;
        SOL->assume(other);
        return !cur;
    }
    SOL->assume(here);
    return cur;
}
static i128 concretize(E e) {
    for (int i = 0; i < 100000; ++i) {
        e = subst(e);
        if (e->k == K::ICONST) return e->c;
        Eval ev(SOL->model);
        i128 v = ev.ev(e);
        if (decide(mkEq(e, ic(v)))) return v;
    }
    throw Unsupported("concretize");
}

// ------------------------------------------------------------------ values

enum class VK : uint8_t { UNDEF, CI, SI, CF, CL, SF, AGG };
struct Val {
    VK k = VK::UNDEF;
    union {
        i128 i;
        double d;
        long double l;
        E e;
    };
    std::shared_ptr<std::vector<Val>> agg;
    Val() : i(0) {}
    static Val I(i128 v) {
        Val r;
        r.k = VK::CI;
        r.i = v;
        return r;
    }
    static Val D(double v) {
        Val r;
        r.k = VK::CF;
        r.d = v;
        return r;
    }
    static Val L(long double v) {
        Val r;
        r.k = VK::CL;
        r.l = v;
        return r;
    }
    static Val S(E e) {
        Val r;
        if (e->k == K::ICONST) {
            r.k = VK::CI;
            r.i = e->c;
        } else if (e->k == K::TRUE_ || e->k == K::FALSE_) {
            r.k = VK::CI;
            r.i = e->k == K::TRUE_;
        } else {
            r.k = VK::SI;
            r.e = e;
        }
        return r;
    }
    static Val F(E e, bool isLD = false) {
        Val r;
        if (e->k == K::FINT && e->a[0]->k == K::ICONST) {
            double d = std::ldexp((double)(long long)e->a[0]->c, -(int)e->c);
            return isLD ? L(d) : D(d);
        }
        r.k = VK::SF;
        r.e = e;
        return r;
    }
    static Val A(std::vector<Val> v) {
        Val r;
        r.k = VK::AGG;
        r.agg = std::make_shared<std::vector<Val>>(std::move(v));
        return r;
    }
    bool conc() const { return k == VK::CI || k == VK::CF || k == VK::CL || k == VK::UNDEF; }
};
static i128 sgn(i128 v, int bits) {
    if (bits >= 128) return v;
    if (bits == 1) return v & 1;
    u128 u = (u128)v & (((u128)1 << bits) - 1);
    i128 r = (i128)u;
    if (r >= ((i128)1 << (bits - 1))) r -= ((i128)1 << bits);
    return r;
}
static u128 uns(i128 v, int bits) { return bits >= 128 ? (u128)v : (u128)v & (((u128)1 << bits) - 1); }

// integer expression of a value (not i1)
static E ei(const Val& v) {
    if (v.k == VK::CI) return ic(v.i);
    if (v.k == VK::SI) {
        if (v.e->isBool()) return boolToInt(v.e);
        return v.e;
    }
    if (v.k == VK::UNDEF) return ic(0);
    throw Unsupported("floating bits used as integer");
}
static E eb(const Val& v) {
    if (v.k == VK::CI) return mkBool(v.i & 1);
    if (v.k == VK::SI) return v.e->isBool() ? v.e : intToBool(v.e);
    if (v.k == VK::UNDEF) return mkFalse();
    throw Unsupported("value used as bool");
}

// ------------------------------------------------------------------ memory

struct Cell {
    uint32_t size;
    Val v;
};
struct Obj {
    u64 base = 0, size = 0;
    char kind = 'h';
    std::vector<uint8_t> b;
    std::map<u64, Cell> sym;
};
struct MemErr {
    std::string what;
};
static std::map<u64, Obj*> g_mem;
static u64 g_bump = 0x100000000ull;
static Obj* g_mru[4];
static int g_mruN = 0;

static Obj* allocObj(u64 size, char kind, u64 align = 16) {
    if (align < 16) align = 16;
    g_bump = (g_bump + align - 1) / align * align;
    Obj* o = new Obj;
    o->base = g_bump;
    o->size = size;
    o->kind = kind;
    o->b.assign(size, kind == 'g' ? 0 : 0xCD);
    g_bump += size + 64;
    g_mem[o->base] = o;
    return o;
}
static void freeObj(Obj* o) {
    for (auto& m : g_mru)
        if (m == o) m = nullptr;
    g_mem.erase(o->base);
    delete o;
}
static Obj* findObj(u64 a) {
    for (Obj* o : g_mru)
        if (o && a >= o->base && a < o->base + o->size) return o;
    auto it = g_mem.upper_bound(a);
    if (it == g_mem.begin()) return nullptr;
    --it;
    Obj* o = it->second;
    if (a >= o->base && (a < o->base + o->size)) {
        g_mru[g_mruN++ & 3] = o;
        return o;
    }
    return nullptr;
}
static Obj* objFor(u64 a, u64 n, const char* what) {
    Obj* o = findObj(a);
    if (!o || a + n > o->base + o->size) {
        char buf[200];
        snprintf(buf, sizeof buf, "invalid %s of %llu bytes at %#llx", what, (unsigned long long)n, (unsigned long long)a);
        throw MemErr{buf};
    }
    return o;
}
static void dropCells(Obj* o, u64 off, u64 n) {
    if (o->sym.empty()) return;
    auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
    while (it != o->sym.end() && it->first < off + n) {
        if (it->first + it->second.size <= off) {
            ++it;
            continue;
        }
        if (it->first < off || it->first + it->second.size > off + n) {
            // partial overwrite of a symbolic integer cell: split into bytes
            u64 f = it->first;
            Cell c = it->second;
            o->sym.erase(it);
            if (c.v.k != VK::SI) throw Unsupported("partial overwrite of symbolic float");
            E e = mkUnsigned(ei(c.v), c.size * 8);
            for (uint32_t i = 0; i < c.size; ++i) {
                if (f + i >= off && f + i < off + n) continue;
                E by = mkWrap(mkBit(K::BAND, mkFloorShift(e, 8 * i), ic(255), 64), 8);
                Val v = Val::S(by);
                if (v.k == VK::CI)
                    o->b[f + i] = (uint8_t)v.i;
                else
                    o->sym[f + i] = Cell{1, v};
            }
            it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
            continue;
        }
        it = o->sym.erase(it);
    }
}
static const Cell* cellAt(Obj* o, u64 off, u64 n, bool& overlap) {
    overlap = false;
    if (o->sym.empty()) return nullptr;
    auto it = o->sym.lower_bound(off >= 16 ? off - 16 : 0);
    for (; it != o->sym.end() && it->first < off + n; ++it) {
        if (it->first + it->second.size <= off) continue;
        if (it->first == off && it->second.size == n) return &it->second;
        overlap = true;
        return nullptr;
    }
    return nullptr;
}

// ------------------------------------------------------------------ decoded code

struct Op {
    int slot;  // >=0 register, else constant index -(n+1)
};
struct DInst {
    unsigned opc;
    const Instruction* I;
    int dst = -1;
    std::vector<Op> ops;
    std::vector<int> succ;  // block indices
    int ty = 0;             // type class: 0 other,1 int,2 ptr,3 double,4 fp80,5 float
    int bits = 0;
    u64 size = 0;  // mem size for load/store/alloca elem
    // gep
    i128 goff = 0;
    std::vector<std::pair<Op, i128>> gidx;
    Function* callee = nullptr;
    Intrinsic::ID iid = Intrinsic::not_intrinsic;
};
struct DPhi {
    int dst;
    std::vector<std::pair<int, Op>> in;
};
struct DBlock {
    std::vector<DPhi> phis;
    std::vector<DInst> ins;
    const BasicBlock* bb;
};
struct DFunc {
    Function* F;
    int nslots = 0;
    std::vector<DBlock> bl;
    std::vector<Val> consts;
    int index;
};

struct Frame {
    std::vector<Val> r;
    std::vector<Obj*> allocas;
    std::vector<Val> varargs;
};

struct ExcRec {
    u64 obj;
    u64 tinfo;
    u64 dtor;
};

static Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, DFunc*> g_dec;
static std::unordered_map<const GlobalVariable*, u64> g_gaddr;
static std::unordered_map<const Function*, u64> g_faddr;
static std::unordered_map<u64, Function*> g_fAt;
static std::unordered_map<u64, std::string> g_gname;
static std::unordered_map<const Function*, int> g_findex;
static long g_instr = 0;
static long g_instrTotal = 0;
static bool g_unwinding = false;
static ExcRec g_exc;
static std::vector<ExcRec> g_caught;
static std::unordered_map<u64, ExcRec> g_excByObj;
static std::unordered_map<u64, std::string> g_excMsg;
static std::map<u64, int> g_typeids;
static int g_depth = 0;

static void flushInstr() {
    ADD(instrs, g_instr);
    g_instrTotal += g_instr;
    g_instr = 0;
}

static int tyClass(Type* t) {
    if (t->isIntegerTy()) return 1;
    if (t->isPointerTy()) return 2;
    if (t->isDoubleTy()) return 3;
    if (t->isX86_FP80Ty()) return 4;
    if (t->isFloatTy()) return 5;
    return 0;
}

static Val constVal(const Constant* c);

static u64 globalAddr(const GlobalVariable* g) {
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    throw Unsupported("unknown global");
}
static u64 funcAddr(const Function* f) {
    auto it = g_faddr.find(f);
    if (it != g_faddr.end()) return it->second;
    u64 a = 0x10000 + 16 * (u64)g_faddr.size();
    g_faddr[f] = a;
    g_fAt[a] = const_cast<Function*>(f);
    return a;
}
static Val zeroOf(Type* t) {
    switch (tyClass(t)) {
        case 1:
        case 2: return Val::I(0);
        case 3:
        case 5: return Val::D(0);
        case 4: return Val::L(0);
    }
    std::vector<Val> v;
    if (auto* s = dyn_cast<StructType>(t))
        for (Type* e : s->elements()) v.push_back(zeroOf(e));
    else if (auto* a = dyn_cast<ArrayType>(t))
        for (u64 i = 0; i < a->getNumElements(); ++i) v.push_back(zeroOf(a->getElementType()));
    else if (auto* a = dyn_cast<FixedVectorType>(t))
        for (u64 i = 0; i < a->getNumElements(); ++i) v.push_back(zeroOf(a->getElementType()));
    return Val::A(v);
}
static Val constVal(const Constant* c) {
    if (auto* x = dyn_cast<ConstantInt>(c)) {
        APInt a = x->getValue();
        int b = a.getBitWidth();
        if (b > 128) throw Unsupported("wide constant");
        u128 u = a.getRawData()[0];
        if (b > 64) u |= (u128)a.getRawData()[1] << 64;
        return Val::I(sgn((i128)u, b));
    }
    if (auto* x = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isX86_FP80Ty()) {
            APInt a = x->getValueAPF().bitcastToAPInt();
            long double l = 0;
            memcpy(&l, a.getRawData(), 10);
            return Val::L(l);
        }
        if (c->getType()->isFloatTy()) return Val::D(x->getValueAPF().convertToFloat());
        return Val::D(x->getValueAPF().convertToDouble());
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::I((i128)globalAddr(g));
    if (auto* f = dyn_cast<Function>(c)) return Val::I((i128)funcAddr(f));
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(e);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
                Val b = constVal(cast<Constant>(gep->getPointerOperand()));
                return Val::I(b.i + off.getSExtValue());
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast: return constVal(e->getOperand(0));
            case Instruction::Trunc: return Val::I(sgn(constVal(e->getOperand(0)).i, e->getType()->getIntegerBitWidth()));
            case Instruction::Sub: return Val::I(sgn(constVal(e->getOperand(0)).i - constVal(e->getOperand(1)).i, e->getType()->getIntegerBitWidth()));
            case Instruction::Add: return Val::I(sgn(constVal(e->getOperand(0)).i + constVal(e->getOperand(1)).i, e->getType()->getIntegerBitWidth()));
            default: throw Unsupported("constant expression");
        }
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < d->getNumElements(); ++i) v.push_back(constVal(d->getElementAsConstant(i)));
        return Val::A(v);
    }
    if (auto* d = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < d->getNumOperands(); ++i) v.push_back(constVal(cast<Constant>(d->getOperand(i))));
        return Val::A(v);
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Unsupported("constant " + s);
}

// ------------------------------------------------------------------ load / store

static void storeVal(u64 addr, const Val& v, Type* t);
static Val loadVal(u64 addr, Type* t);

static void storeScalarObj(Obj* o, u64 off, const Val& v, int tc, int bits, u64 size) {
    dropCells(o, off, size);
    uint8_t* p = o->b.data() + off;
    switch (v.k) {
        case VK::CI: {
            u128 u = (u128)v.i;
            if (bits == 1) u &= 1;
            memcpy(p, &u, size > 16 ? 16 : size);
            break;
        }
        case VK::CF:
            if (tc == 5) {
                float f = (float)v.d;
                memcpy(p, &f, 4);
            } else
                memcpy(p, &v.d, 8);
            break;
        case VK::CL: memcpy(p, &v.l, 10); break;
        case VK::UNDEF: memset(p, 0xCD, size); break;
        case VK::SI:
            o->sym[off] = Cell{(uint32_t)size, v.e->isBool() ? Val::S(boolToInt(v.e)) : v};
            break;
        case VK::SF: o->sym[off] = Cell{(uint32_t)size, v}; break;
        default: throw Unsupported("store");
    }
}
static Val loadScalarObj(Obj* o, u64 off, int tc, int bits, u64 size) {
    bool ov;
    if (const Cell* c = cellAt(o, off, size, ov)) {
        Val v = c->v;
        if (bits == 1 && tc == 1 && v.k == VK::SI) v = Val::S(eb(v));
        return v;
    }
    if (ov) {
        // compose from bytes / sub-cells (little endian)
        if (tc == 3 || tc == 4 || tc == 5) throw Unsupported("float load over mixed cells");
        E acc = ic(0);
        u64 i = 0;
        while (i < size) {
            bool ov2;
            const Cell* c = nullptr;
            u64 n = 0;
            for (u64 w : {8, 4, 2, 1})
                if (i + w <= size && (c = cellAt(o, off + i, w, ov2))) {
                    n = w;
                    break;
                }
            if (c) {
                acc = mkAdd(acc, mkMulC(mkUnsigned(ei(c->v), (int)n * 8), (i128)1 << (8 * i)));
                i += n;
                continue;
            }
            cellAt(o, off + i, 1, ov2);
            if (ov2) {
                // inside a bigger cell
                auto it = o->sym.upper_bound(off + i);
                --it;
                E e = mkUnsigned(ei(it->second.v), it->second.size * 8);
                E by = mkBit(K::BAND, mkFloorShift(e, (int)(8 * (off + i - it->first))), ic(255), 64);
                acc = mkAdd(acc, mkMulC(by, (i128)1 << (8 * i)));
            } else
                acc = mkAdd(acc, ic((i128)o->b[off + i] << (8 * i)));
            ++i;
        }
        Val v = Val::S(mkWrap(acc, (int)size * 8));
        if (bits == 1 && v.k == VK::SI) v = Val::S(eb(v));
        return v;
    }
    const uint8_t* p = o->b.data() + off;
    switch (tc) {
        case 1:
        case 2: {
            u128 u = 0;
            memcpy(&u, p, size > 16 ? 16 : size);
            return Val::I(sgn((i128)u, bits));
        }
        case 3: {
            double d;
            memcpy(&d, p, 8);
            return Val::D(d);
        }
        case 5: {
            float f;
            memcpy(&f, p, 4);
            return Val::D(f);
        }
        case 4: {
            long double l = 0;
            memcpy(&l, p, 10);
            return Val::L(l);
        }
    }
    throw Unsupported("load type");
}
static int bitsOf(Type* t) { return t->isIntegerTy() ? (int)t->getIntegerBitWidth() : t->isPointerTy() ? 64 : 0; }

static void storeVal(u64 addr, const Val& v, Type* t) {
    int tc = tyClass(t);
    if (tc) {
        u64 sz = DL->getTypeStoreSize(t);
        Obj* o = objFor(addr, sz, "write");
        storeScalarObj(o, addr - o->base, v, tc, bitsOf(t), sz);
        return;
    }
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) storeVal(addr + sl->getElementOffset(i), (*v.agg)[i], s->getElementType(i));
        return;
    }
    Type* et = nullptr;
    u64 n = 0;
    if (auto* a = dyn_cast<ArrayType>(t)) et = a->getElementType(), n = a->getNumElements();
    else if (auto* a = dyn_cast<FixedVectorType>(t)) et = a->getElementType(), n = a->getNumElements();
    else throw Unsupported("store type");
    u64 es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; ++i) storeVal(addr + i * es, (*v.agg)[i], et);
}
static Val loadVal(u64 addr, Type* t) {
    int tc = tyClass(t);
    if (tc) {
        u64 sz = DL->getTypeStoreSize(t);
        Obj* o = objFor(addr, sz, "read");
        return loadScalarObj(o, addr - o->base, tc, bitsOf(t), sz);
    }
    std::vector<Val> v;
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) v.push_back(loadVal(addr + sl->getElementOffset(i), s->getElementType(i)));
        return Val::A(v);
    }
    Type* et = nullptr;
    u64 n = 0;
    if (auto* a = dyn_cast<ArrayType>(t)) et = a->getElementType(), n = a->getNumElements();
    else if (auto* a = dyn_cast<FixedVectorType>(t)) et = a->getElementType(), n = a->getNumElements();
    else throw Unsupported("load type");
    u64 es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; ++i) v.push_back(loadVal(addr + i * es, et));
    return Val::A(v);
}
static u64 readPtr(u64 a) {
    Obj* o = objFor(a, 8, "read");
    Val v = loadScalarObj(o, a - o->base, 2, 64, 8);
    if (v.k == VK::SI) return (u64)concretize(v.e);
    return (u64)v.i;
}
static uint32_t read32(u64 a) {
    Obj* o = objFor(a, 4, "read");
    return (uint32_t)loadScalarObj(o, a - o->base, 1, 32, 4).i;
}
static void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj* s = objFor(src, n, "read");
    Obj* d = objFor(dst, n, "write");
    u64 so = src - s->base, doff = dst - d->base;
    std::vector<std::pair<u64, Cell>> cells;
    if (!s->sym.empty()) {
        auto it = s->sym.lower_bound(so >= 16 ? so - 16 : 0);
        for (; it != s->sym.end() && it->first < so + n; ++it) {
            if (it->first + it->second.size <= so) continue;
            if (it->first < so || it->first + it->second.size > so + n) throw Unsupported("memcpy splits a symbolic cell");
            cells.push_back({it->first - so + doff, it->second});
        }
    }
    dropCells(d, doff, n);
    memmove(d->b.data() + doff, s->b.data() + so, n);
    for (auto& c : cells) d->sym[c.first] = c.second;
}

static Val mergeVal(E c, const Val& a, const Val& b, bool& ok) {
    ok = true;
    if ((a.k == VK::CI || a.k == VK::SI) && (b.k == VK::CI || b.k == VK::SI)) {
        if (a.k == VK::CI && b.k == VK::CI && a.i == b.i) return a;
        bool bl = (a.k == VK::SI && a.e->isBool()) || (b.k == VK::SI && b.e->isBool());
        if (bl) return Val::S(mkBIte(c, eb(a), eb(b)));
        return Val::S(mkIte(c, ei(a), ei(b)));
    }
    auto fe = [&](const Val& v, E* o) {
        if (v.k == VK::SF) {
            *o = v.e;
            return true;
        }
        if (v.k == VK::CF) return fConstToFint(v.d, o);
        if (v.k == VK::CL && v.l == (double)v.l) return fConstToFint((double)v.l, o);
        return false;
    };
    if (a.k == VK::CF && b.k == VK::CF && memcmp(&a.d, &b.d, 8) == 0) return a;
    E x, y;
    if ((a.k == VK::CF || a.k == VK::SF || a.k == VK::CL) && fe(a, &x) && fe(b, &y)) {
        if ((x->k == K::FINT && y->k == K::FINT) || x == y) return Val::F(fIte(c, x, y), a.k == VK::CL || b.k == VK::CL);
        if (x->k != K::FSQRT && y->k != K::FSQRT) return Val::F(fIte(c, x, y));
    }
    ok = false;
    return Val();
}

// ------------------------------------------------------------------ memory through symbolic addresses

static void memViolation(const std::string& what, const std::vector<i128>& m);

static void symAddrPrep(E& a, u64 size, const char* what, Obj*& o) {
    a = subst(a);
    Eval ev(SOL->model);
    u64 v = (u64)ev.ev(a);
    o = findObj(v);
    if (!o || v + size > o->base + o->size) {
        char buf[128];
        snprintf(buf, sizeof buf, "invalid %s of %llu bytes (address depends on input)", what, (unsigned long long)size);
        memViolation(buf, SOL->model);
        finishPath(nullptr);
    }
    E in = mkAnd(mkLe(ic((i128)o->base), a), mkLe(a, ic((i128)(o->base + o->size - size))));
    if (in->k == K::TRUE_ || SOL->known.count(in)) return;
    std::vector<i128> m2;
    int r = SOL->query(mkNot(in), &m2, &EntryStats::q_branch, true);
    if (r == 0) {
        SOL->assume(in, true);
        return;
    }
    if (r > 0) {
        Eval e2(m2);
        u64 v2 = (u64)e2.ev(a);
        Obj* o2 = findObj(v2);
        if (o2 && v2 + size <= o2->base + o2->size) {
            // several objects: explore the other one in a child
            if (splitProcess()) {
                SOL->model = m2;
                SOL->assume(mkNot(in));
                symAddrPrep(a, size, what, o);
                return;
            }
            SOL->assume(in);
            return;
        }
        char buf[128];
        snprintf(buf, sizeof buf, "invalid %s of %llu bytes (address depends on input)", what, (unsigned long long)size);
        memViolation(buf, m2);
        SOL->assume(in);
        return;
    }
    label(1, "solver unknown on an address");
    INC(inconclusive);
    SOL->assume(in);
}
// feasible offsets by interval and congruence
static std::vector<u64> candOffsets(E a, Obj* o, u64 size) {
    i128 lo = std::max<i128>(a->lo, (i128)o->base), hi = std::min<i128>(a->hi, (i128)(o->base + o->size - size));
    i128 step = 1;
    i128 rem = 0;
    if (a->k == K::POLY) {
        i128 g = 0;
        for (auto& m : a->m) {
            i128 x = g, y = m.c < 0 ? -m.c : m.c;
            while (y) {
                i128 t = x % y;
                x = y;
                y = t;
            }
            g = x;
        }
        if (g > 1) {
            step = g;
            rem = a->c % g;
        }
    }
    if (step == 1 && a->k == K::ITE) step = 1;
    std::vector<u64> r;
    for (i128 x = lo; x <= hi; ++x)
        if ((x - rem) % step == 0) {
            r.push_back((u64)(x - (i128)o->base));
            x += step - 1;
        }
    return r;
}
static const size_t MAXCAND = 40;

static Val loadSym(E a, Type* t) {
    int tc = tyClass(t);
    u64 sz = DL->getTypeStoreSize(t);
    if (!tc || tc == 2) return loadVal((u64)concretize(a), t);
    Obj* o;
    symAddrPrep(a, sz, "read", o);
    if (a->k == K::ICONST) return loadVal((u64)a->c, t);
    auto c = candOffsets(a, o, sz);
    if (c.empty() || c.size() > MAXCAND || (sz > 1 && c.size() > 1 && c[1] - c[0] < sz)) return loadVal((u64)concretize(a), t);
    Val acc;
    bool first = true;
    for (size_t i = c.size(); i-- > 0;) {
        Val v = loadScalarObj(o, c[i], tc, bitsOf(t), sz);
        if (first) {
            acc = v;
            first = false;
            continue;
        }
        E cond = mkEq(a, ic((i128)(o->base + c[i])));
        if (cond->k == K::FALSE_) continue;
        bool ok;
        acc = mergeVal(cond, v, acc, ok);
        if (!ok) return loadVal((u64)concretize(a), t);
    }
    return acc;
}
static void storeSym(E a, const Val& v, Type* t) {
    int tc = tyClass(t);
    u64 sz = DL->getTypeStoreSize(t);
    if (!tc || tc == 2) return storeVal((u64)concretize(a), v, t);
    Obj* o;
    symAddrPrep(a, sz, "write", o);
    if (a->k == K::ICONST) return storeVal((u64)a->c, v, t);
    auto c = candOffsets(a, o, sz);
    if (c.empty() || c.size() > MAXCAND || (sz > 1 && c.size() > 1 && c[1] - c[0] < sz)) return storeVal((u64)concretize(a), v, t);
    std::vector<std::pair<u64, Val>> upd;
    for (u64 off : c) {
        E cond = mkEq(a, ic((i128)(o->base + off)));
        if (cond->k == K::FALSE_) continue;
        Val old = loadScalarObj(o, off, tc, bitsOf(t), sz);
        bool ok;
        Val n = mergeVal(cond, v, old, ok);
        if (!ok) return storeVal((u64)concretize(a), v, t);
        upd.push_back({off, n});
    }
    for (auto& u : upd) storeScalarObj(o, u.first, u.second, tc, bitsOf(t), sz);
}

// ------------------------------------------------------------------ RTTI

static std::string gnameAt(u64 a) {
    auto it = g_gname.find(a);
    return it == g_gname.end() ? "" : it->second;
}
static const std::map<std::string, std::string>& stdBases() {
    static const std::map<std::string, std::string> m = {
            {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"},     {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
            {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
            {"_ZTISt9bad_alloc", "_ZTISt9exception"},            {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"},   {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt10bad_typeid", "_ZTISt9exception"},          {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
            {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    };
    return m;
}
struct BaseRef {
    u64 ti;
    i128 off;
    bool virt;
    bool isExternName = false;
    std::string name;
};
static std::vector<BaseRef> basesOf(u64 ti) {
    std::vector<BaseRef> r;
    std::string n = gnameAt(ti);
    auto it = stdBases().find(n);
    if (it != stdBases().end()) {
        r.push_back({0, 0, false, true, it->second});
        return r;
    }
    if (n == "_ZTISt9exception") return r;
    u64 vp = readPtr(ti);
    std::string vn = gnameAt(vp - 16);
    if (vn.find("si_class_type_info") != std::string::npos) {
        r.push_back({readPtr(ti + 16), 0, false, false, ""});
    } else if (vn.find("vmi_class_type_info") != std::string::npos) {
        uint32_t cnt = read32(ti + 20);
        for (uint32_t i = 0; i < cnt; ++i) {
            u64 b = readPtr(ti + 24 + 16 * i);
            long long fl = (long long)readPtr(ti + 32 + 16 * i);
            r.push_back({b, fl >> 8, (fl & 1) != 0, false, ""});
        }
    }
    return r;
}
static bool tiEq(u64 a, u64 b) {
    if (a == b) return true;
    std::string x = gnameAt(a), y = gnameAt(b);
    return !x.empty() && x == y;
}
static bool derives(u64 ti, u64 base) {
    if (tiEq(ti, base)) return true;
    std::string bn = gnameAt(base);
    for (auto& b : basesOf(ti)) {
        if (b.isExternName) {
            std::string n = b.name;
            while (true) {
                if (n == bn) return true;
                auto it = stdBases().find(n);
                if (it == stdBases().end()) return false;
                n = it->second;
            }
        }
        if (derives(b.ti, base)) return true;
    }
    return false;
}
static void subobjects(u64 ti, u64 addr, u64 dst, std::set<u64>& out) {
    if (tiEq(ti, dst)) {
        out.insert(addr);
        return;
    }
    for (auto& b : basesOf(ti)) {
        if (b.isExternName) continue;
        u64 a = addr;
        if (b.virt)
            a = addr + readPtr(readPtr(addr) + (u64)(long long)b.off);
        else
            a = addr + (u64)(long long)b.off;
        subobjects(b.ti, a, dst, out);
    }
}
static u64 dynCast(u64 p, u64 dst) {
    u64 vt = readPtr(p);
    u64 whole = p + readPtr(vt - 16);
    u64 ti = readPtr(vt - 8);
    std::set<u64> out;
    subobjects(ti, whole, dst, out);
    return out.size() == 1 ? *out.begin() : 0;
}

// ------------------------------------------------------------------ interpreter

static Val callFunction(Function* F, std::vector<Val>& args, Frame* caller);

static DFunc* decode(Function* F) {
    auto it = g_dec.find(F);
    if (it != g_dec.end()) return it->second;
    auto* D = new DFunc;
    D->F = F;
    g_dec[F] = D;
    D->index = g_findex[F];
    std::unordered_map<const llvm::Value*, int> slot;
    for (auto& a : F->args()) slot[&a] = D->nslots++;
    std::unordered_map<const BasicBlock*, int> bi;
    int n = 0;
    for (auto& b : *F) {
        bi[&b] = n++;
        for (auto& i : b)
            if (!i.getType()->isVoidTy()) slot[&i] = D->nslots++;
    }
    std::unordered_map<const llvm::Value*, int> cidx;
    auto mkop = [&](const llvm::Value* v) -> Op {
        auto s = slot.find(v);
        if (s != slot.end()) return Op{s->second};
        auto c = cidx.find(v);
        if (c != cidx.end()) return Op{-(c->second + 1)};
        Val cv;
        if (auto* k = dyn_cast<Constant>(v)) cv = constVal(k);
        D->consts.push_back(cv);
        int id = (int)D->consts.size() - 1;
        cidx[v] = id;
        return Op{-(id + 1)};
    };
    for (auto& b : *F) {
        DBlock db;
        db.bb = &b;
        for (auto& i : b) {
            if (auto* ph = dyn_cast<PHINode>(&i)) {
                DPhi p;
                p.dst = slot[&i];
                for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) p.in.push_back({bi[ph->getIncomingBlock(k)], mkop(ph->getIncomingValue(k))});
                db.phis.push_back(p);
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            DInst d;
            d.opc = i.getOpcode();
            d.I = &i;
            if (!i.getType()->isVoidTy()) d.dst = slot[&i];
            Type* t = i.getType();
            switch (d.opc) {
                case Instruction::Br: {
                    auto* br = cast<BranchInst>(&i);
                    if (br->isConditional()) d.ops.push_back(mkop(br->getCondition()));
                    for (unsigned k = 0; k < br->getNumSuccessors(); ++k) d.succ.push_back(bi[br->getSuccessor(k)]);
                    break;
                }
                case Instruction::Switch: {
                    auto* sw = cast<SwitchInst>(&i);
                    d.ops.push_back(mkop(sw->getCondition()));
                    d.bits = bitsOf(sw->getCondition()->getType());
                    d.succ.push_back(bi[sw->getDefaultDest()]);
                    for (auto c : sw->cases()) {
                        d.succ.push_back(bi[c.getCaseSuccessor()]);
                        d.ops.push_back(mkop(c.getCaseValue()));
                    }
                    break;
                }
                case Instruction::Invoke:
                case Instruction::Call: {
                    auto* cb = cast<CallBase>(&i);
                    d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!d.callee)
                        if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) d.callee = dyn_cast<Function>(al->getAliaseeObject());
                    for (auto& a : cb->args()) {
                        if (a->getType()->isMetadataTy()) {
                            d.ops.push_back(Op{0});
                            continue;
                        }
                        d.ops.push_back(mkop(a.get()));
                    }
                    if (d.callee)
                        d.iid = d.callee->getIntrinsicID();
                    else if (!cb->isInlineAsm())
                        d.ops.push_back(mkop(cb->getCalledOperand()));
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) {
                        d.succ.push_back(bi[iv->getNormalDest()]);
                        d.succ.push_back(bi[iv->getUnwindDest()]);
                    }
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto* gep = cast<GEPOperator>(&i);
                    d.ops.push_back(mkop(gep->getPointerOperand()));
                    for (auto g = gep_type_begin(gep), e = gep_type_end(gep); g != e; ++g) {
                        if (auto* st = g.getStructTypeOrNull()) {
                            d.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(g.getOperand())->getZExtValue());
                        } else {
                            i128 sz = DL->getTypeAllocSize(g.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(g.getOperand()))
                                d.goff += sz * ci->getSExtValue();
                            else
                                d.gidx.push_back({mkop(g.getOperand()), sz});
                        }
                    }
                    break;
                }
                default:
                    for (auto& o : i.operands())
                        if (!isa<BasicBlock>(o)) d.ops.push_back(mkop(o.get()));
            }
            if (d.opc == Instruction::Load) {
                d.ty = tyClass(t);
                d.bits = bitsOf(t);
                d.size = DL->getTypeStoreSize(t);
            } else if (d.opc == Instruction::Store) {
                Type* st = i.getOperand(0)->getType();
                d.ty = tyClass(st);
                d.bits = bitsOf(st);
                d.size = DL->getTypeStoreSize(st);
            } else if (d.opc == Instruction::Alloca) {
                auto* al = cast<AllocaInst>(&i);
                d.size = DL->getTypeAllocSize(al->getAllocatedType());
            } else if (d.opc != Instruction::Switch) {
                d.ty = tyClass(t);
                d.bits = bitsOf(t);
                if (d.opc == Instruction::ICmp) d.bits = bitsOf(i.getOperand(0)->getType());
                if (d.opc == Instruction::FCmp) d.ty = tyClass(i.getOperand(0)->getType());
            }
            db.ins.push_back(std::move(d));
        }
        D->bl.push_back(std::move(db));
    }
    return D;
}

static bool g_stopOnMem = true;
static void memViolation(const std::string& what, const std::vector<i128>& m) {
    if (ST().violations >= g_maxViol) {
        INC(violations);
        return;
    }
    writeViolation("MEM", what, m);
}

static E fe(const Val& v) {
    if (v.k == VK::SF) return v.e;
    E o;
    if (v.k == VK::CF && fConstToFint(v.d, &o)) return o;
    if (v.k == VK::CL && v.l == (long double)(double)v.l && fConstToFint((double)v.l, &o)) return o;
    throw Unsupported("mix of symbolic and non-dyadic/non-finite float arithmetic");
}
static bool isF(const Val& v) { return v.k == VK::CF || v.k == VK::CL || v.k == VK::SF; }
static bool nonFinite(const Val& v) { return (v.k == VK::CF && !std::isfinite(v.d)) || (v.k == VK::CL && !std::isfinite(v.l)); }

static Val toF(const Val& v) {  // bits reinterpretation int->float for pass-through
    if (v.k == VK::UNDEF) return Val::D(0);
    if (v.k == VK::CI) {
        double d;
        u64 u = (u64)v.i;
        memcpy(&d, &u, 8);
        return Val::D(d);
    }
    return v;
}

static Val fbin1(unsigned opc, Val a, Val b, int ty) {
    if (!isF(a)) a = toF(a);
    if (!isF(b)) b = toF(b);
    if (a.k == VK::CF && b.k == VK::CF) {
        double x = a.d, y = b.d, r;
        switch (opc) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: r = fmod(x, y);
        }
        if (ty == 5) r = (float)r;
        return Val::D(r);
    }
    if (a.k == VK::CL && b.k == VK::CL) {
        long double x = a.l, y = b.l, r;
        switch (opc) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: r = fmodl(x, y);
        }
        return Val::L(r);
    }
    bool ld = ty == 4;
    if (ty == 5) throw Unsupported("float arithmetic");
    // non finite with a (finite) symbolic
    if (nonFinite(a) || nonFinite(b)) {
        double x = a.k == VK::SF ? 1.0 : (a.k == VK::CL ? (double)a.l : a.d);
        double y = b.k == VK::SF ? 1.0 : (b.k == VK::CL ? (double)b.l : b.d);
        if (opc == Instruction::FAdd || opc == Instruction::FSub) {
            double r = opc == Instruction::FAdd ? x + y : x - y;
            return ld ? Val::L(r) : Val::D(r);
        }
        if (std::isnan(x) || std::isnan(y)) return ld ? Val::L(NAN) : Val::D(NAN);
        if (opc == Instruction::FMul) {
            const Val& s = a.k == VK::SF ? a : b;
            double inf = a.k == VK::SF ? y : x;
            E z = fInt(ic(0), 0);
            if (decide(fCmp(0, s.e, z))) return ld ? Val::L(NAN) : Val::D(NAN);
            bool neg = decide(fCmp(1, s.e, z));
            double r = neg ? -inf : inf;
            return ld ? Val::L(r) : Val::D(r);
        }
        if (opc == Instruction::FDiv && b.k != VK::SF) return ld ? Val::L(0) : Val::D(0);
        throw Unsupported("non-finite arithmetic with symbolic operand");
    }
    E x = fe(a), y = fe(b);
    switch (opc) {
        case Instruction::FAdd: return Val::F(fAdd(x, y), ld);
        case Instruction::FSub: return Val::F(fSub(x, y), ld);
        case Instruction::FMul: return Val::F(fMul(x, y), ld);
        case Instruction::FDiv: {
            if (y->k != K::FINT || x->k != K::FINT) throw Unsupported("division of inexact floats");
            E n = x->a[0], d = y->a[0];
            if (decide(mkEq0(d))) {
                // x/0: the sign of a zero is not tracked, +0 is assumed
                double r = NAN;
                if (!decide(mkEq0(n))) r = decide(fCmp(1, x, fInt(ic(0), 0))) ? -INFINITY : INFINITY;
                return ld ? Val::L(r) : Val::D(r);
            }
            n = subst(n);
            d = subst(d);
            int sh = (int)y->c - (int)x->c;  // (n/2^kx)/(d/2^ky)
            if (sh > 0) n = mkMulC(n, (i128)1 << sh);
            if (sh < 0) d = mkMulC(d, (i128)1 << -sh);
            if (n->k == K::ICONST && d->k == K::ICONST) {
                double r = (double)(long long)n->c / (double)(long long)d->c;
                return ld ? Val::L((long double)(long long)n->c / (long long)d->c) : Val::D(r);
            }
            // exact quotient?
            E q = mkFDiv(n, d);
            if (q->k == K::FINT) return Val::F(q, ld);
            E rem = mkEq0(mkSRem(n, d));
            if (rem->k != K::FALSE_) {
                std::vector<i128> m2;
                bool ex = rem->k == K::TRUE_ || SOL->known.count(rem);
                if (!ex) {
                    Eval ev(SOL->model);
                    if (ev.ev(rem)) ex = SOL->query(mkNot(rem), &m2, &EntryStats::q_branch, true) == 0;
                }
                if (ex) return Val::F(fInt(mkSDiv(n, d), 0), ld);
            }
            if (ld) throw Unsupported("inexact long double division");
            return Val::F(q);
        }
        case Instruction::FRem: {
            if (y->k != K::FINT || x->k != K::FINT) throw Unsupported("fmod of inexact floats");
            if (decide(mkEq0(y->a[0]))) return ld ? Val::L(NAN) : Val::D(NAN);
            int k = (int)std::max(x->c, y->c);
            E n = mkMulC(subst(x->a[0]), (i128)1 << (k - (int)x->c)), d = mkMulC(subst(y->a[0]), (i128)1 << (k - (int)y->c));
            return Val::F(fInt(mkSRem(n, d), k), ld);
        }
    }
    throw Unsupported("fp op");
}
// the concrete double of a symbolic one, forking over its feasible values
static Val concretizeF(const Val& v) {
    if (v.k != VK::SF) return v;
    E e = v.e;
    if (e->k == K::FINT) return Val::D(std::ldexp((double)(long long)concretize(e->a[0]), -(int)e->c));
    if (e->k == K::FDIV) {
        double n = (double)(long long)concretize(e->a[0]), d = (double)(long long)concretize(e->a[1]);
        return Val::D(n / d);
    }
    if (e->k == K::FSQRT) return Val::D(std::sqrt((double)(long long)concretize(e->a[0])));
    throw Unsupported("concretisation of a float");
}
static Val fbin(unsigned opc, Val a, Val b, int ty) {
    try {
        return fbin1(opc, a, b, ty);
    } catch (Unsupported&) {
        if (ty != 3 || !isF(a) || !isF(b)) throw;
        // inexact arithmetic is not handled symbolically: split over the values
        Val x = concretizeF(a), y = concretizeF(b);
        if (x.k != VK::CF || y.k != VK::CF) throw;
        return fbin1(opc, x, y, ty);
    }
}

static Val fcmpVal(CmpInst::Predicate p, Val a, Val b) {
    if (!isF(a)) a = toF(a);
    if (!isF(b)) b = toF(b);
    if (p == CmpInst::FCMP_FALSE) return Val::I(0);
    if (p == CmpInst::FCMP_TRUE) return Val::I(1);
    if (a.k != VK::SF && b.k != VK::SF) {
        long double x = a.k == VK::CL ? a.l : (long double)a.d, y = b.k == VK::CL ? b.l : (long double)b.d;
        bool un = std::isnan(x) || std::isnan(y);
        bool r;
        switch (p) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break;
            case CmpInst::FCMP_OGT: r = !un && x > y; break;
            case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break;
            case CmpInst::FCMP_OLE: r = !un && x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            default: r = un || x != y;
        }
        return Val::I(r);
    }
    auto cd = [](const Val& v) { return v.k == VK::CL ? (double)v.l : v.d; };
    bool un = (a.k != VK::SF && std::isnan(cd(a))) || (b.k != VK::SF && std::isnan(cd(b)));
    if (un) return Val::I(p == CmpInst::FCMP_UNO || p >= CmpInst::FCMP_UEQ ? 1 : 0);
    if (p == CmpInst::FCMP_ORD) return Val::I(1);
    if (p == CmpInst::FCMP_UNO) return Val::I(0);
    auto rel = [&](int r, const Val& x, const Val& y) -> E {
        if (x.k == VK::SF && y.k == VK::SF) return fCmp(r, x.e, y.e);
        if (x.k == VK::SF) return fCmpC(r, x.e, cd(y));
        return fCmpCrev(r, cd(x), y.e);
    };
    switch (p) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: return Val::S(rel(0, a, b));
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: return Val::S(mkNot(rel(0, a, b)));
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: return Val::S(rel(1, a, b));
        case CmpInst::FCMP_OLE:
        case CmpInst::FCMP_ULE: return Val::S(rel(2, a, b));
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: return Val::S(rel(1, b, a));
        default: return Val::S(rel(2, b, a));
    }
}

static Val icmpVal(CmpInst::Predicate p, const Val& a, const Val& b, int bits) {
    if (a.k == VK::CI && b.k == VK::CI) {
        i128 x = a.i, y = b.i;
        u128 ux = uns(x, bits), uy = uns(y, bits);
        bool r;
        switch (p) {
            case CmpInst::ICMP_EQ: r = ux == uy; break;
            case CmpInst::ICMP_NE: r = ux != uy; break;
            case CmpInst::ICMP_UGT: r = ux > uy; break;
            case CmpInst::ICMP_UGE: r = ux >= uy; break;
            case CmpInst::ICMP_ULT: r = ux < uy; break;
            case CmpInst::ICMP_ULE: r = ux <= uy; break;
            case CmpInst::ICMP_SGT: r = x > y; break;
            case CmpInst::ICMP_SGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = x < y; break;
            default: r = x <= y;
        }
        return Val::I(r);
    }
    if (bits == 1) {
        E x = eb(a), y = eb(b);
        if (p == CmpInst::ICMP_EQ) return Val::S(mkBIte(x, y, mkNot(y)));
        if (p == CmpInst::ICMP_NE) return Val::S(mkBIte(x, mkNot(y), y));
        throw Unsupported("i1 order comparison");
    }
    E x = ei(a), y = ei(b);
    if (CmpInst::isUnsigned(p)) {
        x = mkUnsigned(x, bits);
        y = mkUnsigned(y, bits);
    }
    switch (p) {
        case CmpInst::ICMP_EQ: return Val::S(mkEq(x, y));
        case CmpInst::ICMP_NE: return Val::S(mkNot(mkEq(x, y)));
        case CmpInst::ICMP_UGT:
        case CmpInst::ICMP_SGT: return Val::S(mkLt(y, x));
        case CmpInst::ICMP_UGE:
        case CmpInst::ICMP_SGE: return Val::S(mkLe(y, x));
        case CmpInst::ICMP_ULT:
        case CmpInst::ICMP_SLT: return Val::S(mkLt(x, y));
        default: return Val::S(mkLe(x, y));
    }
}

static Val ibin(unsigned opc, const Val& a, const Val& b, int bits) {
    if (a.conc() && b.conc() && (a.k == VK::CI || a.k == VK::UNDEF) && (b.k == VK::CI || b.k == VK::UNDEF)) {
        i128 x = a.i, y = b.i, r = 0;
        switch (opc) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = (i128)((u128)x * (u128)y); break;
            case Instruction::UDiv:
                if (!y) throw MemErr{"integer division by zero"};
                r = (i128)(uns(x, bits) / uns(y, bits));
                break;
            case Instruction::SDiv:
                if (!y) throw MemErr{"integer division by zero"};
                r = x / y;
                break;
            case Instruction::URem:
                if (!y) throw MemErr{"integer division by zero"};
                r = (i128)(uns(x, bits) % uns(y, bits));
                break;
            case Instruction::SRem:
                if (!y) throw MemErr{"integer division by zero"};
                r = x % y;
                break;
            case Instruction::Shl: r = (i128)(uns(x, bits) << (int)uns(y, bits)); break;
            case Instruction::LShr: r = (i128)(uns(x, bits) >> (int)uns(y, bits)); break;
            case Instruction::AShr: r = x >> (int)uns(y, bits); break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
        }
        return Val::I(sgn(r, bits));
    }
    if (bits == 1) {
        E x = eb(a), y = eb(b);
        switch (opc) {
            case Instruction::And:
            case Instruction::Mul: return Val::S(mkAnd(x, y));
            case Instruction::Or: return Val::S(mkOr(x, y));
            case Instruction::Xor:
            case Instruction::Add:
            case Instruction::Sub: return Val::S(mkBIte(x, mkNot(y), y));
        }
        throw Unsupported("i1 op");
    }
    E x = ei(a), y = ei(b);
    switch (opc) {
        case Instruction::Add: return Val::S(mkWrap(mkAdd(x, y), bits));
        case Instruction::Sub: return Val::S(mkWrap(mkSub(x, y), bits));
        case Instruction::Mul: return Val::S(mkWrap(mkMul(x, y), bits));
        case Instruction::Shl: {
            int s = (int)(b.k == VK::CI ? b.i : concretize(y));
            return Val::S(mkWrap(mkMulC(x, (i128)1 << s), bits));
        }
        case Instruction::LShr: {
            int s = (int)(b.k == VK::CI ? b.i : concretize(y));
            return Val::S(mkWrap(mkFloorShift(mkUnsigned(x, bits), s), bits));
        }
        case Instruction::AShr: {
            int s = (int)(b.k == VK::CI ? b.i : concretize(y));
            return Val::S(mkFloorShift(x, s));
        }
        case Instruction::And: return Val::S(mkBit(K::BAND, x, y, bits));
        case Instruction::Or: return Val::S(mkBit(K::BOR, x, y, bits));
        case Instruction::Xor: return Val::S(mkBit(K::BXOR, x, y, bits));
        case Instruction::UDiv:
        case Instruction::URem:
            x = mkUnsigned(x, bits);
            y = mkUnsigned(y, bits);
            [[fallthrough]];
        case Instruction::SDiv:
        case Instruction::SRem: {
            if (decide(mkEq0(y))) throw MemErr{"integer division by zero"};
            x = subst(x);
            y = subst(y);
            E r = (opc == Instruction::SDiv || opc == Instruction::UDiv) ? mkSDiv(x, y) : mkSRem(x, y);
            return Val::S(mkWrap(r, bits));
        }
    }
    throw Unsupported("int op");
}

// Bitwise operation on the representations of doubles of which only the sign
// bit is used afterwards (std::signbit(a) != std::signbit(b) and the like).
// Zeros are taken as +0.
static Val signBits(const Instruction* I, const Val& a, const Val& b) {
    for (const User* u : I->users()) {
        auto* c = dyn_cast<ICmpInst>(u);
        auto* k = c ? dyn_cast<ConstantInt>(c->getOperand(1)) : nullptr;
        bool ok = k && ((c->getPredicate() == CmpInst::ICMP_SLT && k->isZero()) || (c->getPredicate() == CmpInst::ICMP_SGT && k->isMinusOne()));
        if (!ok) throw Unsupported("floating bits used as integer");
    }
    auto sb = [](const Val& v) -> E {
        if (v.k == VK::SF) return fCmp(1, v.e, fInt(ic(0), 0));
        if (v.k == VK::CF) return mkBool(std::signbit(v.d));
        if (v.k == VK::CI) return mkBool(v.i < 0);
        throw Unsupported("floating bits used as integer");
    };
    E x = sb(a), y = sb(b), r;
    switch (I->getOpcode()) {
        case Instruction::And: r = mkAnd(x, y); break;
        case Instruction::Or: r = mkOr(x, y); break;
        case Instruction::Xor: r = mkBIte(x, mkNot(y), y); break;
        default: throw Unsupported("floating bits used as integer");
    }
    return Val::S(mkMulC(boolToInt(r), -1));
}

static Val getOp(const DFunc* D, Frame& f, Op o) { return o.slot >= 0 ? f.r[o.slot] : D->consts[-o.slot - 1]; }
static const Val& refOp(const DFunc* D, Frame& f, Op o) { return o.slot >= 0 ? f.r[o.slot] : D->consts[-o.slot - 1]; }

static u64 cptr(const Val& v) {
    if (v.k == VK::CI) return (u64)v.i;
    if (v.k == VK::SI) return (u64)concretize(ei(v));
    if (v.k == VK::UNDEF) return 0xCDCDCDCDull;
    throw Unsupported("pointer from float");
}
static i128 cint(const Val& v) {
    if (v.k == VK::CI) return v.i;
    if (v.k == VK::SI) return concretize(ei(v));
    if (v.k == VK::UNDEF) return 0;
    throw Unsupported("integer from float");
}
static std::string cstr(u64 a) {
    std::string s;
    for (int i = 0; i < 4096; ++i) {
        Obj* o = objFor(a + i, 1, "read");
        Val v = loadScalarObj(o, a + i - o->base, 1, 8, 1);
        char c = (char)cint(v);
        if (!c) break;
        s += c;
    }
    return s;
}
static void doThrow(ExcRec e) {
    g_exc = e;
    g_excByObj[e.obj] = e;
    g_unwinding = true;
}
static u64 externGlobal(const std::string& name) {
    if (auto* g = M->getNamedGlobal(name)) {
        auto it = g_gaddr.find(g);
        if (it != g_gaddr.end()) return it->second;
    }
    static std::map<std::string, u64> made;
    auto it = made.find(name);
    if (it != made.end()) return it->second;
    Obj* o = allocObj(256, 'g');
    made[name] = o->base;
    g_gname[o->base] = name;
    return o->base;
}
static void throwStd(const char* tiName, const std::string& msg) {
    Obj* o = allocObj(64, 'x');
    std::fill(o->b.begin(), o->b.end(), 0);
    g_excMsg[o->base] = msg;
    doThrow({o->base, externGlobal(tiName), 0});
}

// ---- intrinsics and library functions. Returns false if not handled.
static bool intrinsic(DInst& d, std::vector<Val>& a, Val& out) {
    auto mm = [&](bool isMax, bool sign) {
        int b = d.bits;
        if (a[0].k == VK::CI && a[1].k == VK::CI) {
            bool lt = sign ? a[0].i < a[1].i : uns(a[0].i, b) < uns(a[1].i, b);
            out = (lt == isMax) ? a[1] : a[0];
            return;
        }
        E x = ei(a[0]), y = ei(a[1]);
        E ux = sign ? x : mkUnsigned(x, b), uy = sign ? y : mkUnsigned(y, b);
        E lt = mkLt(ux, uy);
        out = Val::S(isMax ? mkIte(lt, y, x) : mkIte(lt, x, y));
    };
    switch (d.iid) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing:
        case Intrinsic::prefetch: return true;
        case Intrinsic::invariant_start: out = Val::I(0); return true;
        case Intrinsic::stacksave: out = Val::I(0); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::expect: out = a[0]; return true;
        case Intrinsic::is_constant: out = Val::I(0); return true;
        case Intrinsic::objectsize: out = Val::I(-1); return true;
        case Intrinsic::memcpy:
        case Intrinsic::memmove: {
            u64 n = (u64)cint(a[2]);
            if (n) copyMem(cptr(a[0]), cptr(a[1]), n);
            return true;
        }
        case Intrinsic::memset: {
            u64 n = (u64)cint(a[2]);
            if (!n) return true;
            u64 p = cptr(a[0]);
            Obj* o = objFor(p, n, "write");
            int v = (int)cint(a[1]);
            dropCells(o, p - o->base, n);
            memset(o->b.data() + (p - o->base), v, n);
            return true;
        }
        case Intrinsic::umax: mm(true, false); return true;
        case Intrinsic::umin: mm(false, false); return true;
        case Intrinsic::smax: mm(true, true); return true;
        case Intrinsic::smin: mm(false, true); return true;
        case Intrinsic::abs: {
            if (a[0].k == VK::CI) out = Val::I(sgn(a[0].i < 0 ? -a[0].i : a[0].i, d.bits));
            else {
                E x = ei(a[0]);
                out = Val::S(mkWrap(mkIte(mkLe(x, ic(-1)), mkMulC(x, -1), x), d.bits));
            }
            return true;
        }
        case Intrinsic::cttz:
        case Intrinsic::ctlz:
        case Intrinsic::ctpop: {
            int b = d.bits;
            u64 v = (u64)uns(cint(a[0]), b);
            int r = 0;
            if (d.iid == Intrinsic::ctpop) r = __builtin_popcountll(v);
            else if (d.iid == Intrinsic::cttz) {
                while (r < b && !((v >> r) & 1)) ++r;
            } else {
                while (r < b && !((v >> (b - 1 - r)) & 1)) ++r;
            }
            out = Val::I(sgn(r, b));
            return true;
        }
        case Intrinsic::bswap: {
            u64 v = (u64)uns(cint(a[0]), d.bits), r = 0;
            for (int i = 0; i < d.bits / 8; ++i) r |= ((v >> (8 * i)) & 255) << (d.bits - 8 - 8 * i);
            out = Val::I(sgn((i128)r, d.bits));
            return true;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            int b = d.bits;
            u128 x = uns(cint(a[0]), b), y = uns(cint(a[1]), b);
            int s = (int)(uns(cint(a[2]), b) % b);
            u128 r = d.iid == Intrinsic::fshl ? (s ? (x << s) | (y >> (b - s)) : x) : (s ? (x << (b - s)) | (y >> s) : y);
            out = Val::I(sgn((i128)r, b));
            return true;
        }
        case Intrinsic::usub_sat: {
            E x = mkUnsigned(ei(a[0]), d.bits), y = mkUnsigned(ei(a[1]), d.bits);
            out = Val::S(mkWrap(mkIte(mkLe(x, y), ic(0), mkSub(x, y)), d.bits));
            return true;
        }
        case Intrinsic::uadd_sat: {
            E x = mkUnsigned(ei(a[0]), d.bits), y = mkUnsigned(ei(a[1]), d.bits);
            E s = mkAdd(x, y), mx = ic(((i128)1 << d.bits) - 1);
            out = Val::S(mkWrap(mkIte(mkLe(s, mx), s, mx), d.bits));
            return true;
        }
        case Intrinsic::umul_with_overflow:
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::smul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow: {
            int b = bitsOf(d.I->getOperand(0)->getType());
            bool sg = d.iid == Intrinsic::smul_with_overflow || d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow;
            E x = ei(a[0]), y = ei(a[1]);
            if (!sg) x = mkUnsigned(x, b), y = mkUnsigned(y, b);
            bool mul = d.iid == Intrinsic::umul_with_overflow || d.iid == Intrinsic::smul_with_overflow;
            bool add = d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow;
            if (mul && x->k == K::ICONST && y->k == K::ICONST) {
                i128 r;
                bool ov = __builtin_mul_overflow(x->c, y->c, &r);
                i128 lo = sg ? -((i128)1 << (b - 1)) : 0, hi = sg ? ((i128)1 << (b - 1)) - 1 : ((i128)1 << b) - 1;
                ov = ov || r < lo || r > hi;
                out = Val::A({Val::I(sgn((i128)((u128)x->c * (u128)y->c), b)), Val::I(ov)});
                return true;
            }
            E r = mul ? mkMul(x, y) : add ? mkAdd(x, y) : mkSub(x, y);
            i128 lo = sg ? -((i128)1 << (b - 1)) : 0, hi = sg ? ((i128)1 << (b - 1)) - 1 : ((i128)1 << b) - 1;
            E in = mkAnd(mkLe(ic(lo), r), mkLe(r, ic(hi)));
            out = Val::A({Val::S(mkWrap(r, b)), Val::S(mkNot(in))});
            return true;
        }
        case Intrinsic::fabs: {
            if (a[0].k == VK::CF) out = Val::D(std::fabs(a[0].d));
            else if (a[0].k == VK::CL) out = Val::L(fabsl(a[0].l));
            else {
                E x = a[0].e;
                if (x->k == K::FINT) {
                    E i = x->a[0];
                    out = Val::F(fInt(mkIte(mkLe(i, ic(-1)), mkMulC(i, -1), i), (int)x->c));
                } else if (x->k == K::FSQRT)
                    out = a[0];
                else {
                    E n = x->a[0], dd = x->a[1];
                    out = Val::F(mkFDiv(mkIte(mkLe(n, ic(-1)), mkMulC(n, -1), n), mkIte(mkLe(dd, ic(-1)), mkMulC(dd, -1), dd)));
                }
            }
            return true;
        }
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::trunc:
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::round:
        case Intrinsic::roundeven: {
            auto f = [&](double v) {
                switch (d.iid) {
                    case Intrinsic::floor: return std::floor(v);
                    case Intrinsic::ceil: return std::ceil(v);
                    case Intrinsic::trunc: return std::trunc(v);
                    case Intrinsic::round: return std::round(v);
                    default: return std::nearbyint(v);
                }
            };
            if (a[0].k == VK::CF) out = Val::D(f(a[0].d));
            else if (a[0].k == VK::SF && a[0].e->k == K::FINT && a[0].e->c == 0) out = a[0];
            else if (a[0].k == VK::SF && a[0].e->k == K::FINT) {
                E i = a[0].e->a[0];
                int k = (int)a[0].e->c;
                E fl = mkFloorShift(i, k);
                E ce = mkMulC(mkFloorShift(mkMulC(i, -1), k), -1);
                switch (d.iid) {
                    case Intrinsic::floor: out = Val::F(fInt(fl, 0)); break;
                    case Intrinsic::ceil: out = Val::F(fInt(ce, 0)); break;
                    case Intrinsic::trunc: out = Val::F(fInt(mkIte(mkLe(i, ic(-1)), ce, fl), 0)); break;
                    case Intrinsic::round: {
                        // half away from zero
                        E h = ic((i128)1 << (k - 1));
                        E p = mkFloorShift(mkAdd(i, h), k);
                        E n = mkMulC(mkFloorShift(mkAdd(mkMulC(i, -1), h), k), -1);
                        out = Val::F(fInt(mkIte(mkLe(i, ic(-1)), n, p), 0));
                        break;
                    }
                    default: throw Unsupported("rint on fractional symbolic");
                }
            } else
                throw Unsupported("rounding of inexact symbolic float");
            return true;
        }
        case Intrinsic::fmuladd:
        case Intrinsic::fma: {
            int ty = tyClass(d.I->getType());
            out = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], ty), a[2], ty);
            return true;
        }
        case Intrinsic::minnum:
        case Intrinsic::maxnum:
        case Intrinsic::minimum:
        case Intrinsic::maximum: {
            bool mx = d.iid == Intrinsic::maxnum || d.iid == Intrinsic::maximum;
            Val lt = fcmpVal(CmpInst::FCMP_OLT, a[0], a[1]);
            bool ok;
            Val x = mx ? a[1] : a[0], y = mx ? a[0] : a[1];
            out = mergeVal(eb(lt), x, y, ok);
            if (!ok) out = decide(eb(lt)) ? x : y;
            return true;
        }
        case Intrinsic::sqrt: {
            if (a[0].k == VK::CF) out = Val::D(std::sqrt(a[0].d));
            else if (a[0].k == VK::SF && a[0].e->k == K::FINT && a[0].e->c == 0) {
                E i = a[0].e->a[0];
                if (decide(mkLe(i, ic(-1)))) out = Val::D(NAN);
                else {
                    i = subst(i);
                    if (i->lo < 0) i = mkIte(mkLe(i, ic(-1)), ic(0), i);
                    if (i->lo < 0) throw Unsupported("sqrt range");
                    out = Val::F(mkFSqrt(i));
                }
            } else
                throw Unsupported("sqrt");
            return true;
        }
        case Intrinsic::pow:
        case Intrinsic::powi: {
            if (a[0].k == VK::CF && a[1].k == VK::CF) {
                out = Val::D(std::pow(a[0].d, a[1].d));
                return true;
            }
            throw Unsupported("pow");
        }
        case Intrinsic::is_fpclass: {
            int m = (int)a[1].i;
            if (a[0].k == VK::CF) {
                int c;
                switch (std::fpclassify(a[0].d)) {
                    case FP_NAN: c = 3; break;
                    case FP_INFINITE: c = std::signbit(a[0].d) ? 4 : 512; break;
                    case FP_ZERO: c = std::signbit(a[0].d) ? 32 : 64; break;
                    case FP_SUBNORMAL: c = std::signbit(a[0].d) ? 16 : 128; break;
                    default: c = std::signbit(a[0].d) ? 8 : 256;
                }
                out = Val::I((m & c) != 0);
                return true;
            }
            if (a[0].k == VK::SF) {
                E z = fInt(ic(0), 0);
                E r = mkFalse();
                if (m & 8) r = mkOr(r, fCmp(1, a[0].e, z));
                if (m & 256) r = mkOr(r, fCmp(1, z, a[0].e));
                if (m & 96) r = mkOr(r, fCmp(0, a[0].e, z));
                out = Val::S(r);
                return true;
            }
            throw Unsupported("is_fpclass");
        }
        case Intrinsic::eh_typeid_for: {
            u64 ti = cptr(a[0]);
            auto it = g_typeids.find(ti);
            int id = it == g_typeids.end() ? (g_typeids[ti] = (int)g_typeids.size() + 1) : it->second;
            out = Val::I(id);
            return true;
        }
        case Intrinsic::trap:
        case Intrinsic::ubsantrap: throw MemErr{"trap"};
        default: return false;
    }
}

static bool tagEnabled(const std::string& t) {
    if (g_prop.empty() || t.empty() || t == "*") return true;
    // tag may list several properties separated by '|'
    size_t p = 0;
    while (p <= t.size()) {
        size_t q = t.find('|', p);
        if (q == std::string::npos) q = t.size();
        if (t.substr(p, q - p) == g_prop) return true;
        p = q + 1;
    }
    return false;
}

static void hostCheck(const Val& c, const std::string& tag, const std::string& msg) {
    if (!tagEnabled(tag)) return;
    INC(asserts_checked);
    label(2, (tag + ": " + msg).c_str());
    if (c.k == VK::CI) {
        if (c.i & 1) {
            INC(asserts_syntactic);
            return;
        }
        if (ST().violations < g_maxViol) writeViolation(tag.c_str(), msg, SOL->model);
        else INC(violations);
        finishPath(nullptr);
    }
    E cond = subst(eb(c));
    if (cond->k == K::TRUE_ || SOL->known.count(cond)) {
        INC(asserts_syntactic);
        return;
    }
    std::vector<i128> m2;
    int r;
    Eval ev(SOL->model);
    if (!ev.ev(cond)) {
        m2 = SOL->model;
        r = 1;
    } else
        r = SOL->query(mkNot(cond), &m2, &EntryStats::q_assert, false);
    if (r == 0) {
        SOL->assume(cond, true);
        return;
    }
    if (r < 0) {
        INC(inconclusive);
        label(1, "solver unknown on an assertion");
        return;
    }
    if (ST().violations < g_maxViol) writeViolation(tag.c_str(), msg, m2);
    else INC(violations);
    finishPath(nullptr);
}

static bool library(const std::string& n, std::vector<Val>& a, Val& out, Frame* fr) {
    // ---- harness interface
    if (n.compare(0, 3, "vp_") == 0) {
        if (n == "vp_int" || n == "vp_num") {
            std::string nm = cstr(cptr(a[0]));
            i128 lo = cint(a[1]), hi = cint(a[2]);
            if (lo > hi) {
                INC(assumed_away);
                finishPath(nullptr);
            }
            E s = lo == hi ? ic(lo) : mkSym(nm, lo, hi);
            if (s->k == K::SYM) {
                SOL->model.resize(g_syms.size(), 0);
                SOL->model[(size_t)s->c] = lo <= 0 && hi >= 0 ? 0 : lo;
            }
            g_inputs.push_back({nm, s});
            INC(inputs);
            out = n == "vp_int" ? Val::S(s) : Val::F(fInt(s, 0));
            return true;
        }
        if (n == "vp_assume") {
            E c = subst(eb(a[0]));
            if (c->k == K::TRUE_) return true;
            if (c->k == K::FALSE_) {
                INC(assumed_away);
                finishPath(nullptr);
            }
            Eval ev(SOL->model);
            if (!ev.ev(c)) {
                std::vector<i128> m2;
                int r = SOL->query(c, &m2, &EntryStats::q_branch, true);
                if (r == 0) {
                    INC(assumed_away);
                    finishPath(nullptr);
                }
                if (r < 0) finishPath("solver unknown on an assumption");
                SOL->model = m2;
            }
            SOL->assume(c);
            return true;
        }
        if (n == "vp_check") {
            hostCheck(a[0], cstr(cptr(a[1])), cstr(cptr(a[2])));
            return true;
        }
        if (n == "vp_fix") {
            out = Val::I(cint(a[0]));
            return true;
        }
        if (n == "vp_prop") {
            std::string t = cstr(cptr(a[0]));
            out = Val::I(t == "DEEP" ? g_deep : tagEnabled(t));
            return true;
        }
        if (n == "vp_reach") {
            label(0, cstr(cptr(a[0])).c_str());
            return true;
        }
        if (n == "vp_ite") {
            bool ok;
            out = mergeVal(eb(a[0]), a[1], a[2], ok);
            if (!ok) out = decide(eb(a[0])) ? a[1] : a[2];
            return true;
        }
        if (n == "vp_trace") {
            if (getenv("SYMEX_TRACE")) {
                std::string v;
                if (a[1].k == VK::CI) v = i128str(a[1].i);
                else if (a[1].k == VK::CF) v = std::to_string(a[1].d);
                else if (a[1].k == VK::SI || a[1].k == VK::SF) v = show(a[1].e);
                fprintf(stderr, "[trace] %s %s\n", cstr(cptr(a[0])).c_str(), v.c_str());
            }
            return true;
        }
        if (n == "vp_native") {
            out = Val::I(0);
            return true;
        }
        return false;
    }
    // ---- memory
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") {
        u64 s = (u64)cint(a[0]);
        if (s > (1ull << 26)) {
            if (n == "malloc" || n.find("nothrow") != std::string::npos) {
                out = Val::I(0);
                return true;
            }
            throwStd("_ZTISt9bad_alloc", "bad_alloc");
            return true;
        }
        Obj* o = allocObj(s ? s : 1, 'h');
        o->size = s ? s : 1;
        out = Val::I((i128)o->base);
        return true;
    }
    if (n == "calloc") {
        u64 s = (u64)cint(a[0]) * (u64)cint(a[1]);
        Obj* o = allocObj(s ? s : 1, 'h');
        std::fill(o->b.begin(), o->b.end(), 0);
        out = Val::I((i128)o->base);
        return true;
    }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvSt11align_val_t") {
        u64 p = cptr(a[0]);
        if (!p) return true;
        auto it = g_mem.find(p);
        if (it == g_mem.end() || it->second->kind != 'h') throw MemErr{"invalid or double free"};
        freeObj(it->second);
        return true;
    }
    if (n == "memcpy" || n == "memmove") {
        u64 k = (u64)cint(a[2]);
        if (k) copyMem(cptr(a[0]), cptr(a[1]), k);
        out = a[0];
        return true;
    }
    if (n == "bcmp" || n == "memcmp") {
        u64 k = (u64)cint(a[2]), p = cptr(a[0]), q = cptr(a[1]);
        i128 r = 0;
        for (u64 i = 0; i < k && !r; ++i) {
            Obj* o = objFor(p + i, 1, "read");
            Obj* o2 = objFor(q + i, 1, "read");
            bool ov;
            u64 step = 1;
            // compare symbolic 8-byte cells as a unit (equality only)
            const Cell *c1 = cellAt(o, p + i - o->base, 8, ov), *c2 = cellAt(o2, q + i - o2->base, 8, ov);
            if ((c1 || c2) && i + 8 <= k) {
                Type* i64 = Type::getInt64Ty(M->getContext());
                Val x = loadVal(p + i, i64), y = loadVal(q + i, i64);
                bool same;
                if (isF(x) || isF(y)) {
                    if (x.k == VK::CI) x = toF(x);
                    if (y.k == VK::CI) y = toF(y);
                    same = decide(eb(fcmpVal(CmpInst::FCMP_OEQ, x, y)));
                } else
                    same = decide(mkEq(ei(x), ei(y)));
                if (!same) {
                    if (n == "memcmp") throw Unsupported("memcmp order on symbolic data");
                    r = 1;
                }
                step = 8;
            } else {
                i128 x = cint(loadScalarObj(o, p + i - o->base, 1, 8, 1)), y = cint(loadScalarObj(o2, q + i - o2->base, 1, 8, 1));
                x &= 255;
                y &= 255;
                r = x < y ? -1 : x > y;
            }
            i += step - 1;
        }
        out = Val::I(r);
        return true;
    }
    if (n == "strlen") {
        out = Val::I((i128)cstr(cptr(a[0])).size());
        return true;
    }
    if (n == "strcmp") {
        out = Val::I(strcmp(cstr(cptr(a[0])).c_str(), cstr(cptr(a[1])).c_str()));
        return true;
    }
    if (n == "memchr") {
        u64 p = cptr(a[0]), k = (u64)cint(a[2]);
        int c = (int)cint(a[1]) & 255;
        out = Val::I(0);
        for (u64 i = 0; i < k; ++i) {
            Obj* o = objFor(p + i, 1, "read");
            if ((cint(loadScalarObj(o, p + i - o->base, 1, 8, 1)) & 255) == c) {
                out = Val::I((i128)(p + i));
                break;
            }
        }
        return true;
    }
    // ---- C++ runtime
    if (n == "__cxa_atexit" || n == "_ZSt21ios_base_library_initv" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") {
        out = Val::I(0);
        return true;
    }
    if (n == "__cxa_guard_acquire") {
        Obj* o = objFor(cptr(a[0]), 8, "read");
        u64 off = cptr(a[0]) - o->base;
        out = Val::I(o->b[off] ? 0 : 1);
        return true;
    }
    if (n == "__cxa_guard_release") {
        Obj* o = objFor(cptr(a[0]), 8, "write");
        o->b[cptr(a[0]) - o->base] = 1;
        return true;
    }
    if (n == "__cxa_guard_abort") return true;
    if (n == "__cxa_allocate_exception") {
        Obj* o = allocObj((u64)cint(a[0]), 'x');
        out = Val::I((i128)o->base);
        return true;
    }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw") {
        doThrow({cptr(a[0]), cptr(a[1]), cptr(a[2])});
        return true;
    }
    if (n == "__cxa_begin_catch") {
        u64 p = cptr(a[0]);
        g_caught.push_back(g_excByObj[p]);
        out = Val::I((i128)p);
        return true;
    }
    if (n == "__cxa_get_exception_ptr") {
        out = a[0];
        return true;
    }
    if (n == "__cxa_end_catch") {
        if (!g_caught.empty()) g_caught.pop_back();
        return true;
    }
    if (n == "__cxa_rethrow") {
        if (g_caught.empty()) throw MemErr{"rethrow without exception"};
        doThrow(g_caught.back());
        return true;
    }
    if (n == "_Unwind_Resume") {
        doThrow(g_excByObj[cptr(a[0])]);
        return true;
    }
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort") throw MemErr{"program terminated (std::terminate/abort)"};
    if (n == "__cxa_pure_virtual") throw MemErr{"pure virtual call"};
    if (n == "__assert_fail") throw MemErr{"assertion failure: " + cstr(cptr(a[0]))};
    if (n == "_ZSt20__glibcxx_assert_failPKciS0_S0_" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") throw MemErr{"libstdc++ assertion failure"};
    if (n == "__dynamic_cast") {
        u64 p = cptr(a[0]);
        out = Val::I(p ? (i128)dynCast(p, cptr(a[2])) : 0);
        return true;
    }
    if (n.compare(0, 4, "_ZNS") == 0 || n.compare(0, 4, "_ZNK") == 0 || n.compare(0, 3, "_ZS") == 0) {
        static const std::map<std::string, std::string> ctors = {
                {"_ZNSt11logic_errorC1EPKc", "c"},      {"_ZNSt12domain_errorC1EPKc", "c"},
                {"_ZNSt12length_errorC1EPKc", "c"},     {"_ZNSt12out_of_rangeC1EPKc", "c"},
                {"_ZNSt16invalid_argumentC1EPKc", "c"}, {"_ZNSt13runtime_errorC1EPKc", "c"},
                {"_ZNSt14overflow_errorC1EPKc", "c"},   {"_ZNSt11range_errorC1EPKc", "c"},
        };
        if (ctors.count(n)) {
            g_excMsg[cptr(a[0])] = cstr(cptr(a[1]));
            return true;
        }
        if (n.find("C1ERKNSt7__cxx1112basic_string") != std::string::npos || n.find("C2ERKNSt7__cxx1112basic_string") != std::string::npos) {
            u64 s = cptr(a[1]);
            try {
                g_excMsg[cptr(a[0])] = cstr(readPtr(s));
            } catch (...) {
            }
            return true;
        }
        if (n.find("errorC2EPKc") != std::string::npos || n.find("argumentC2EPKc") != std::string::npos || n.find("rangeC2EPKc") != std::string::npos) {
            g_excMsg[cptr(a[0])] = cstr(cptr(a[1]));
            return true;
        }
        if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev" || n == "_ZNSt11logic_errorD1Ev" || n == "_ZNSt11logic_errorD2Ev" || n == "_ZNSt12domain_errorD1Ev" || n == "_ZNSt12length_errorD1Ev" ||
            n == "_ZNSt12out_of_rangeD1Ev" || n == "_ZNSt16invalid_argumentD1Ev" || n == "_ZNSt13runtime_errorD1Ev" || n == "_ZNSt13runtime_errorD2Ev" || n == "_ZNSt14overflow_errorD1Ev")
            return true;
        static const std::map<std::string, std::string> throws = {
                {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
                {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
                {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
                {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
                {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
                {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
                {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
                {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
                {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
                {"_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"},
                {"_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"},
                {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
        };
        auto it = throws.find(n);
        if (it != throws.end()) {
            throwStd(it->second.c_str(), n);
            return true;
        }
        if (n == "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm" || n == "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm") {
            static const u64 primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061};
            u64 self = cptr(a[0]);
            Type* f32 = Type::getFloatTy(M->getContext());
            Type* i64 = Type::getInt64Ty(M->getContext());
            double ml = loadVal(self, f32).d;
            auto next = [&](u64 k) {
                for (u64 p : primes)
                    if (p >= k) {
                        storeVal(self + 8, Val::I((i128)(u64)std::floor(p * ml)), i64);
                        return p;
                    }
                throw Unsupported("hash table too large");
            };
            if (n.find("next_bkt") != std::string::npos) {
                out = Val::I((i128)next((u64)cint(a[1])));
                return true;
            }
            u64 nb = (u64)cint(a[1]), ne = (u64)cint(a[2]), ni = (u64)cint(a[3]);
            u64 nr = (u64)cint(loadVal(self + 8, i64));
            if (ne + ni > nr) {
                double mb = std::max<u64>(ne + ni, nr ? 0 : 11) / ml;
                if (mb >= nb) {
                    u64 k = next(std::max<u64>((u64)std::floor(mb) + 1, nb * 2));
                    out = Val::A({Val::I(1), Val::I((i128)k)});
                    return true;
                }
                storeVal(self + 8, Val::I((i128)(u64)std::floor(nb * ml)), i64);
            }
            out = Val::A({Val::I(0), Val::I(0)});
            return true;
        }
        if (n == "_ZSt11_Hash_bytesPKvmm") {
            u64 p = cptr(a[0]), k = (u64)cint(a[1]);
            u64 h = (u64)cint(a[2]);
            // any deterministic function of the bytes is a valid hash
            for (u64 i = 0; i < k; ++i) {
                Obj* o = objFor(p + i, 1, "read");
                bool ov;
                cellAt(o, p + i - o->base, 1, ov);
                if (ov && k == 8 && i == 0) {
                    // a double: fork over its feasible values
                    Val v = concretizeF(toF(loadVal(p, Type::getDoubleTy(M->getContext()))));
                    u64 u;
                    memcpy(&u, &v.d, 8);
                    for (int b = 0; b < 8; ++b) h = h * 1099511628211ull + (u >> (8 * b) & 255);
                    break;
                }
                if (ov) throw Unsupported("hash of symbolic float");
                h = h * 1099511628211ull + (u64)(cint(loadScalarObj(o, p + i - o->base, 1, 8, 1)) & 255);
            }
            out = Val::I(sgn((i128)h, 64));
            return true;
        }
        if (n == "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base" || n == "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base") {
            // node: color(0) parent(8) left(16) right(24)
            u64 x = cptr(a[0]);
            if (readPtr(x + 24)) {
                x = readPtr(x + 24);
                while (readPtr(x + 16)) x = readPtr(x + 16);
            } else {
                u64 y = readPtr(x + 8);
                while (x == readPtr(y + 24)) {
                    x = y;
                    y = readPtr(y + 8);
                }
                if (readPtr(x + 24) != y) x = y;
            }
            out = Val::I((i128)x);
            return true;
        }
        if (n == "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base" || n == "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base") {
            u64 x = cptr(a[0]);
            if (read32(x) == 0 && readPtr(readPtr(x + 8) + 8) == x)
                x = readPtr(x + 24);
            else if (readPtr(x + 16)) {
                u64 y = readPtr(x + 16);
                while (readPtr(y + 24)) y = readPtr(y + 24);
                x = y;
            } else {
                u64 y = readPtr(x + 8);
                while (x == readPtr(y + 16)) {
                    x = y;
                    y = readPtr(y + 8);
                }
                x = y;
            }
            out = Val::I((i128)x);
            return true;
        }
        if (n == "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_") {
            // insertion without rebalancing keeps a valid binary search tree
            Type* i64 = Type::getInt64Ty(M->getContext());
            auto wr = [&](u64 ad, u64 v) { storeVal(ad, Val::I((i128)v), i64); };
            bool left = cint(a[0]) & 1;
            u64 x = cptr(a[1]), p = cptr(a[2]), h = cptr(a[3]);
            wr(x + 8, p);
            wr(x + 16, 0);
            wr(x + 24, 0);
            storeVal(x, Val::I(1), Type::getInt32Ty(M->getContext()));  // black, so never mistaken for the header
            if (left) {
                wr(p + 16, x);
                if (p == h) {
                    wr(h + 8, x);
                    wr(h + 24, x);
                } else if (p == readPtr(h + 16))
                    wr(h + 16, x);
            } else {
                wr(p + 24, x);
                if (p == readPtr(h + 24)) wr(h + 24, x);
            }
            return true;
        }
        if (n == "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_") throw Unsupported("rb-tree erase");
        if (n == "_ZNSt6thread20hardware_concurrencyEv") {
            out = Val::I(1);
            return true;
        }
        // ostream output is not modelled
        return false;
    }
    // ---- libc / libm
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "pthread_mutex_init" || n == "pthread_mutex_destroy") {
        out = Val::I(0);
        return true;
    }
    if (n == "fmod") {
        out = fbin(Instruction::FRem, a[0], a[1], 3);
        return true;
    }
    if (n == "modf") {
        u64 p = cptr(a[1]);
        Type* dt = Type::getDoubleTy(M->getContext());
        if (a[0].k == VK::CF) {
            double ip, r = std::modf(a[0].d, &ip);
            storeVal(p, Val::D(ip), dt);
            out = Val::D(r);
        } else if (a[0].e->k == K::FINT && a[0].e->c == 0) {
            storeVal(p, a[0], dt);
            out = Val::D(0);
        } else if (a[0].e->k == K::FINT) {
            E i = a[0].e->a[0];
            int k = (int)a[0].e->c;
            E fl = mkFloorShift(i, k), ce = mkMulC(mkFloorShift(mkMulC(i, -1), k), -1);
            E t = mkIte(mkLe(i, ic(-1)), ce, fl);
            storeVal(p, Val::F(fInt(t, 0)), dt);
            out = Val::F(fInt(mkSub(i, mkMulC(t, (i128)1 << k)), k));
        } else if (a[0].e->k == K::FDIV) {
            E nn = a[0].e->a[0], dd = a[0].e->a[1];
            E q = mkSDiv(nn, dd), r = mkSRem(nn, dd);
            storeVal(p, Val::F(fInt(q, 0)), dt);
            // only the (non-)zeroness of the fractional part is exact
            if (decide(mkEq0(r))) out = Val::D(0);
            else out = Val::F(mkFDiv(r, dd));
        } else
            throw Unsupported("modf");
        return true;
    }
    if (n == "sqrt" || n == "floor" || n == "ceil" || n == "round" || n == "trunc" || n == "fabs" || n == "rint" || n == "nearbyint" || n == "fmin" || n == "fmax" || n == "pow") {
        static const std::map<std::string, Intrinsic::ID> im = {{"sqrt", Intrinsic::sqrt}, {"floor", Intrinsic::floor}, {"ceil", Intrinsic::ceil}, {"round", Intrinsic::round}, {"trunc", Intrinsic::trunc}, {"fabs", Intrinsic::fabs}, {"rint", Intrinsic::rint}, {"nearbyint", Intrinsic::nearbyint}, {"fmin", Intrinsic::minnum}, {"fmax", Intrinsic::maxnum}, {"pow", Intrinsic::pow}};
        DInst d;
        d.iid = im.at(n);
        d.I = nullptr;
        return intrinsic(d, a, out);
    }
    if (n == "nextafter") {
        if (a[0].k == VK::CF && a[1].k == VK::CF) {
            out = Val::D(std::nextafter(a[0].d, a[1].d));
            return true;
        }
        throw Unsupported("nextafter");
    }
    if (n == "log" || n == "exp" || n == "log2" || n == "sin" || n == "cos") {
        if (a[0].k == VK::CF) {
            double v = a[0].d;
            out = Val::D(n == "log" ? std::log(v) : n == "exp" ? std::exp(v) : n == "log2" ? std::log2(v) : n == "sin" ? std::sin(v) : std::cos(v));
            return true;
        }
        throw Unsupported(n);
    }
    if (n == "logl") {
        if (a[0].k == VK::CL) {
            out = Val::L(logl(a[0].l));
            return true;
        }
        throw Unsupported("logl");
    }
    if (n == "ldiv" || n == "lldiv" || n == "div") {
        int b = n == "div" ? 32 : 64;
        Val q = ibin(Instruction::SDiv, a[0], a[1], b), r = ibin(Instruction::SRem, a[0], a[1], b);
        if (n == "div") {
            E e = mkAdd(mkUnsigned(ei(q), 32), mkMulC(ei(r), (i128)1 << 32));
            out = Val::S(mkWrap(e, 64));
        } else
            out = Val::A({q, r});
        return true;
    }
    if (n == "getenv" || n == "secure_getenv") {
        out = Val::I(0);
        return true;
    }
    return false;
}

static Val runFunction(DFunc* D, std::vector<Val>& args);

static Val callAny(Function* F, std::vector<Val>& args, DInst* d) {
    if (!F->isDeclaration()) {
        if (++g_depth > 400) throw Unsupported("call depth");
        DFunc* D = decode(F);
        Val v = runFunction(D, args);
        --g_depth;
        return v;
    }
    Val out;
    std::string n = F->getName().str();
    if (library(n, args, out, nullptr)) return out;
    throw Unsupported("external function " + n);
}

static Val castVal(DInst& d, Val v, DFunc* D, Frame& f) {
    Type* st = d.I->getOperand(0)->getType();
    int sb = bitsOf(st);
    switch (d.opc) {
        case Instruction::Trunc:
            if (v.k == VK::CI) return Val::I(sgn(v.i, d.bits));
            if (v.k == VK::SF) throw Unsupported("trunc of float bits");
            if (d.bits == 1) {
                E e = ei(v);
                if (e->lo >= 0 && e->hi <= 1) return Val::S(intToBool(e));
                return Val::S(intToBool(mkBit(K::BAND, e, ic(1), sb)));
            }
            return Val::S(mkWrap(ei(v), d.bits));
        case Instruction::ZExt:
            if (v.k == VK::CI) return Val::I((i128)uns(v.i, sb));
            if (sb == 1) return Val::S(boolToInt(eb(v)));
            return Val::S(mkUnsigned(ei(v), sb));
        case Instruction::SExt:
            if (v.k == VK::CI) return Val::I(sb == 1 ? -(v.i & 1) : v.i);
            if (sb == 1) return Val::S(mkMulC(boolToInt(eb(v)), -1));
            return v;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: return v;
        case Instruction::BitCast: {
            int a = tyClass(st), b = d.ty;
            if (b == 3 && a == 1) return toF(v);
            if (b == 1 && a == 3) {
                if (v.k == VK::CF) {
                    i128 r = 0;
                    u64 u;
                    memcpy(&u, &v.d, 8);
                    r = sgn((i128)u, 64);
                    return Val::I(r);
                }
            }
            return v;
        }
        case Instruction::SIToFP:
        case Instruction::UIToFP: {
            if (v.k == VK::CI) {
                i128 x = d.opc == Instruction::SIToFP ? (sb == 1 ? -(v.i & 1) : v.i) : (i128)uns(v.i, sb);
                return d.ty == 4 ? Val::L((long double)x) : Val::D(d.ty == 5 ? (double)(float)x : (double)x);
            }
            E e;
            if (sb == 1) e = d.opc == Instruction::SIToFP ? mkMulC(boolToInt(eb(v)), -1) : boolToInt(eb(v));
            else e = d.opc == Instruction::SIToFP ? ei(v) : mkUnsigned(ei(v), sb);
            if (e->lo < -9007199254740992LL || e->hi > 9007199254740992LL) {
                i128 x = concretize(e);
                return d.ty == 4 ? Val::L((long double)x) : Val::D((double)x);
            }
            return Val::F(fInt(e, 0), d.ty == 4);
        }
        case Instruction::FPToSI:
        case Instruction::FPToUI: {
            if (!isF(v)) v = toF(v);
            if (v.k == VK::CF || v.k == VK::CL) {
                long double x = v.k == VK::CF ? (long double)v.d : v.l;
                if (std::isnan(x) || x >= 18446744073709551616.0L || x <= -9223372036854775809.0L) return Val::I(sgn((i128)((u128)1 << (d.bits - 1)), d.bits));
                return Val::I(sgn((i128)x, d.bits));
            }
            E e = v.e;
            if (e->k == K::FINT) {
                E i = e->a[0];
                int k = (int)e->c;
                if (k) {
                    E fl = mkFloorShift(i, k), ce = mkMulC(mkFloorShift(mkMulC(i, -1), k), -1);
                    i = mkIte(mkLe(i, ic(-1)), ce, fl);
                }
                return Val::S(mkWrap(i, d.bits));
            }
            if (e->k == K::FDIV) return Val::S(mkWrap(mkSDiv(e->a[0], e->a[1]), d.bits));
            throw Unsupported("fptosi of inexact float");
        }
        case Instruction::FPExt:
            if (!isF(v)) v = toF(v);
            if (v.k == VK::CF) return d.ty == 4 ? Val::L(v.d) : v;
            return v;
        case Instruction::FPTrunc:
            if (!isF(v)) v = toF(v);
            if (v.k == VK::CL) return Val::D(d.ty == 5 ? (double)(float)v.l : (double)v.l);
            if (v.k == VK::CF) return Val::D((float)v.d);
            return v;
        case Instruction::Freeze: return v;
    }
    throw Unsupported("cast");
}

static Val runFunction(DFunc* D, std::vector<Val>& args) {
    SH->fn[D->index] = 1;
    Frame f;
    f.r.resize(D->nslots);
    size_t na = std::min<size_t>(args.size(), D->F->arg_size());
    for (size_t i = 0; i < na; ++i) f.r[i] = args[i];
    // byval arguments would need a copy; clang's C++ ABI passes such objects by explicit temporaries
    for (auto& a : D->F->args())
        if (a.hasByValAttr()) {
            Type* t = a.getParamByValType();
            u64 sz = DL->getTypeAllocSize(t);
            Obj* o = allocObj(sz, 's');
            f.allocas.push_back(o);
            copyMem(o->base, cptr(f.r[a.getArgNo()]), sz);
            f.r[a.getArgNo()] = Val::I((i128)o->base);
        }
    int bb = 0, prev = -1;
    Val ret;
    std::vector<Val> phitmp;
    auto leave = [&]() {
        for (Obj* o : f.allocas) freeObj(o);
    };
    std::vector<Val> cargs;
    while (true) {
        DBlock& B = D->bl[bb];
        if (!B.phis.empty()) {
            phitmp.clear();
            for (auto& p : B.phis) {
                for (auto& in : p.in)
                    if (in.first == prev) {
                        phitmp.push_back(refOp(D, f, in.second));
                        break;
                    }
            }
            for (size_t i = 0; i < B.phis.size(); ++i) f.r[B.phis[i].dst] = phitmp[i];
        }
        int next = -1;
        for (DInst& d : B.ins) {
            ++g_instr;
            if ((g_instr & 0xFFFF) == 0) {
                if (g_instr + g_instrTotal > g_instrLimit) throw HangErr{};
                if (now() > g_deadline) {
                    ST().timed_out = 1;
                    finishPath("time limit");
                }
            }
            switch (d.opc) {
                case Instruction::Ret:
                    if (!d.ops.empty()) ret = getOp(D, f, d.ops[0]);
                    leave();
                    return ret;
                case Instruction::Br:
                    if (d.ops.empty())
                        next = d.succ[0];
                    else {
                        const Val& c = refOp(D, f, d.ops[0]);
                        bool t = c.k == VK::CI ? (c.i & 1) : decide(eb(c));
                        next = t ? d.succ[0] : d.succ[1];
                    }
                    break;
                case Instruction::Switch: {
                    Val c = getOp(D, f, d.ops[0]);
                    next = d.succ[0];
                    if (c.k == VK::CI) {
                        for (size_t i = 1; i < d.ops.size(); ++i)
                            if (refOp(D, f, d.ops[i]).i == c.i) {
                                next = d.succ[i];
                                break;
                            }
                    } else {
                        for (size_t i = 1; i < d.ops.size(); ++i)
                            if (decide(eb(icmpVal(CmpInst::ICMP_EQ, c, refOp(D, f, d.ops[i]), d.bits)))) {
                                next = d.succ[i];
                                break;
                            }
                    }
                    break;
                }
                case Instruction::Unreachable: throw MemErr{"unreachable code reached"};
                case Instruction::Alloca: {
                    u64 n = (u64)cint(refOp(D, f, d.ops[0]));
                    Obj* o = allocObj(d.size * n, 's');
                    f.allocas.push_back(o);
                    f.r[d.dst] = Val::I((i128)o->base);
                    break;
                }
                case Instruction::Load: {
                    const Val& p = refOp(D, f, d.ops[0]);
                    if (p.k == VK::SI) {
                        f.r[d.dst] = loadSym(ei(p), d.I->getType());
                    } else if (d.ty) {
                        u64 a = cptr(p);
                        Obj* o = objFor(a, d.size, "read");
                        f.r[d.dst] = loadScalarObj(o, a - o->base, d.ty, d.bits, d.size);
                        if (d.ty >= 3) {
                            if (!isF(f.r[d.dst])) f.r[d.dst] = toF(f.r[d.dst]);
                        }
                    } else
                        f.r[d.dst] = loadVal(cptr(p), d.I->getType());
                    break;
                }
                case Instruction::Store: {
                    const Val& v = refOp(D, f, d.ops[0]);
                    const Val& p = refOp(D, f, d.ops[1]);
                    if (p.k == VK::SI) {
                        storeSym(ei(p), v, d.I->getOperand(0)->getType());
                    } else if (d.ty) {
                        u64 a = cptr(p);
                        Obj* o = objFor(a, d.size, "write");
                        storeScalarObj(o, a - o->base, v, d.ty, d.bits, d.size);
                    } else
                        storeVal(cptr(p), v, d.I->getOperand(0)->getType());
                    break;
                }
                case Instruction::GetElementPtr: {
                    const Val& b = refOp(D, f, d.ops[0]);
                    bool con = b.k == VK::CI;
                    for (auto& g : d.gidx) con = con && refOp(D, f, g.first).k == VK::CI;
                    if (con) {
                        i128 a = b.i + d.goff;
                        for (auto& g : d.gidx) a += refOp(D, f, g.first).i * g.second;
                        f.r[d.dst] = Val::I(sgn(a, 64));
                    } else {
                        E a = mkAdd(ei(b), ic(d.goff));
                        for (auto& g : d.gidx) a = mkAdd(a, mkMulC(ei(refOp(D, f, g.first)), g.second));
                        f.r[d.dst] = Val::S(mkWrap(a, 64));
                    }
                    break;
                }
                case Instruction::ICmp: {
                    Val a = getOp(D, f, d.ops[0]), b = getOp(D, f, d.ops[1]);
                    if (a.k == VK::SF || b.k == VK::SF) {
                        // equality of float bits
                        auto p = cast<ICmpInst>(d.I)->getPredicate();
                        if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) throw Unsupported("icmp on float bits");
                        f.r[d.dst] = fcmpVal(p == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_UNE, a, b);
                        break;
                    }
                    if (a.k == VK::UNDEF) a = Val::I(0);
                    if (b.k == VK::UNDEF) b = Val::I(0);
                    f.r[d.dst] = icmpVal(cast<ICmpInst>(d.I)->getPredicate(), a, b, d.bits);
                    break;
                }
                case Instruction::FCmp: f.r[d.dst] = fcmpVal(cast<FCmpInst>(d.I)->getPredicate(), getOp(D, f, d.ops[0]), getOp(D, f, d.ops[1])); break;
                case Instruction::Add:
                case Instruction::Sub:
                case Instruction::Mul:
                case Instruction::UDiv:
                case Instruction::SDiv:
                case Instruction::URem:
                case Instruction::SRem:
                case Instruction::Shl:
                case Instruction::LShr:
                case Instruction::AShr:
                case Instruction::And:
                case Instruction::Or:
                case Instruction::Xor:
                    if (!d.bits) throw Unsupported("vector arithmetic");
                    if (d.bits == 64 && (refOp(D, f, d.ops[0]).k == VK::SF || refOp(D, f, d.ops[1]).k == VK::SF)) {
                        f.r[d.dst] = signBits(d.I, getOp(D, f, d.ops[0]), getOp(D, f, d.ops[1]));
                        break;
                    }
                    f.r[d.dst] = ibin(d.opc, refOp(D, f, d.ops[0]), refOp(D, f, d.ops[1]), d.bits);
                    break;
                case Instruction::FAdd:
                case Instruction::FSub:
                case Instruction::FMul:
                case Instruction::FDiv:
                case Instruction::FRem: f.r[d.dst] = fbin(d.opc, getOp(D, f, d.ops[0]), getOp(D, f, d.ops[1]), d.ty); break;
                case Instruction::FNeg: {
                    Val v = getOp(D, f, d.ops[0]);
                    if (!isF(v)) v = toF(v);
                    f.r[d.dst] = v.k == VK::CF ? Val::D(-v.d) : v.k == VK::CL ? Val::L(-v.l) : Val::F(fNeg(v.e), d.ty == 4);
                    break;
                }
                case Instruction::Select: {
                    const Val& c = refOp(D, f, d.ops[0]);
                    Val a = getOp(D, f, d.ops[1]), b = getOp(D, f, d.ops[2]);
                    if (c.k == VK::CI || c.k == VK::UNDEF) {
                        f.r[d.dst] = (c.i & 1) ? a : b;
                        break;
                    }
                    E cond = subst(eb(c));
                    if (d.ty == 2 && !(a.k == VK::CI && b.k == VK::CI && a.i == b.i)) {
                        f.r[d.dst] = decide(cond) ? a : b;
                        break;
                    }
                    if (SOL->known.count(cond)) {
                        f.r[d.dst] = a;
                        break;
                    }
                    if (SOL->known.count(mkNot(cond))) {
                        f.r[d.dst] = b;
                        break;
                    }
                    bool ok;
                    Val r = mergeVal(cond, a, b, ok);
                    f.r[d.dst] = ok ? r : (decide(cond) ? a : b);
                    break;
                }
                case Instruction::ExtractValue: {
                    auto* x = cast<ExtractValueInst>(d.I);
                    Val v = getOp(D, f, d.ops[0]);
                    for (unsigned i : x->indices()) {
                        Val t = (*v.agg)[i];
                        v = t;
                    }
                    f.r[d.dst] = v;
                    break;
                }
                case Instruction::InsertValue: {
                    auto* x = cast<InsertValueInst>(d.I);
                    Val v = getOp(D, f, d.ops[0]);
                    Val n = Val::A(*v.agg);
                    Val* cur = &n;
                    ArrayRef<unsigned> idx = x->getIndices();
                    for (size_t i = 0; i < idx.size(); ++i) {
                        if (i + 1 == idx.size())
                            (*cur->agg)[idx[i]] = getOp(D, f, d.ops[1]);
                        else {
                            (*cur->agg)[idx[i]] = Val::A(*(*cur->agg)[idx[i]].agg);
                            cur = &(*cur->agg)[idx[i]];
                        }
                    }
                    f.r[d.dst] = n;
                    break;
                }
                case Instruction::ExtractElement: f.r[d.dst] = (*getOp(D, f, d.ops[0]).agg)[(size_t)cint(refOp(D, f, d.ops[1]))]; break;
                case Instruction::InsertElement: {
                    Val n = Val::A(*getOp(D, f, d.ops[0]).agg);
                    (*n.agg)[(size_t)cint(refOp(D, f, d.ops[2]))] = getOp(D, f, d.ops[1]);
                    f.r[d.dst] = n;
                    break;
                }
                case Instruction::ShuffleVector: {
                    auto* sv = cast<ShuffleVectorInst>(d.I);
                    Val a = getOp(D, f, d.ops[0]), b = getOp(D, f, d.ops[1]);
                    std::vector<Val> r;
                    for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? (*a.agg)[0] : m < (int)a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
                    f.r[d.dst] = Val::A(r);
                    break;
                }
                case Instruction::AtomicRMW: {
                    auto* x = cast<AtomicRMWInst>(d.I);
                    u64 p = cptr(refOp(D, f, d.ops[0]));
                    Type* t = x->getType();
                    Val old = loadVal(p, t), v = getOp(D, f, d.ops[1]), n;
                    switch (x->getOperation()) {
                        case AtomicRMWInst::Add: n = ibin(Instruction::Add, old, v, bitsOf(t)); break;
                        case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, old, v, bitsOf(t)); break;
                        case AtomicRMWInst::Xchg: n = v; break;
                        default: throw Unsupported("atomicrmw");
                    }
                    storeVal(p, n, t);
                    f.r[d.dst] = old;
                    break;
                }
                case Instruction::AtomicCmpXchg: {
                    u64 p = cptr(refOp(D, f, d.ops[0]));
                    Type* t = d.I->getOperand(1)->getType();
                    Val old = loadVal(p, t);
                    bool eq = decide(mkEq(ei(old), ei(refOp(D, f, d.ops[1]))));
                    if (eq) storeVal(p, refOp(D, f, d.ops[2]), t);
                    f.r[d.dst] = Val::A({old, Val::I(eq)});
                    break;
                }
                case Instruction::Fence: break;
                case Instruction::LandingPad: {
                    auto* lp = cast<LandingPadInst>(d.I);
                    int sel = 0;
                    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                        Val c = getOp(D, f, d.ops[i]);
                        if (lp->isCatch(i)) {
                            u64 ti = cptr(c);
                            if (!ti || derives(g_exc.tinfo, ti)) {
                                auto it = g_typeids.find(ti);
                                sel = it == g_typeids.end() ? (g_typeids[ti] = (int)g_typeids.size() + 1) : it->second;
                                break;
                            }
                        } else {
                            bool match = true;
                            if (c.k == VK::AGG)
                                for (auto& t : *c.agg)
                                    if (derives(g_exc.tinfo, cptr(t))) match = false;
                            if (match) {
                                sel = -1;
                                break;
                            }
                        }
                    }
                    f.r[d.dst] = Val::A({Val::I((i128)g_exc.obj), Val::I(sel)});
                    break;
                }
                case Instruction::Resume: {
                    Val v = getOp(D, f, d.ops[0]);
                    doThrow(g_excByObj[cptr((*v.agg)[0])]);
                    leave();
                    return Val();
                }
                case Instruction::Call:
                case Instruction::Invoke: {
                    std::vector<Val> ca;
                    size_t n = d.ops.size();
                    Function* F = d.callee;
                    if (!F && cast<CallBase>(d.I)->isInlineAsm()) {
                        // empty asm barriers only
                        throw Unsupported("inline asm");
                    }
                    if (!F) {
                        u64 a = cptr(refOp(D, f, d.ops[n - 1]));
                        auto it = g_fAt.find(a);
                        if (it == g_fAt.end()) throw MemErr{"call through an invalid function pointer"};
                        F = it->second;
                        --n;
                    }
                    ca.reserve(n);
                    for (size_t i = 0; i < n; ++i) {
                        if (d.ops[i].slot == 0 && D->nslots == 0) {
                            ca.push_back(Val());
                            continue;
                        }
                        ca.push_back(refOp(D, f, d.ops[i]));
                    }
                    Val rv;
                    if (d.iid != Intrinsic::not_intrinsic) {
                        if (!intrinsic(d, ca, rv)) throw Unsupported("intrinsic " + F->getName().str());
                    } else
                        rv = callAny(F, ca, &d);
                    if (g_unwinding) {
                        if (d.opc == Instruction::Invoke) {
                            const BasicBlock* lpb = D->bl[d.succ[1]].bb;
                            const LandingPadInst* lp = lpb->getLandingPadInst();
                            bool take = lp->isCleanup();
                            for (unsigned i = 0; i < lp->getNumClauses() && !take; ++i) {
                                if (lp->isCatch(i)) {
                                    u64 ti = cptr(constVal(cast<Constant>(lp->getClause(i))));
                                    take = !ti || derives(g_exc.tinfo, ti);
                                } else
                                    take = true;
                            }
                            if (take) {
                                g_unwinding = false;
                                next = d.succ[1];
                                break;
                            }
                        }
                        leave();
                        return Val();
                    }
                    if (d.dst >= 0) {
                        f.r[d.dst] = rv;
                        if (d.ty >= 3 && !isF(rv) && rv.k != VK::AGG) f.r[d.dst] = toF(rv);
                    }
                    if (d.opc == Instruction::Invoke) next = d.succ[0];
                    break;
                }
                default: f.r[d.dst] = castVal(d, getOp(D, f, d.ops[0]), D, f);
            }
            if (next >= 0) break;
        }
        if (next < 0) throw Unsupported("fell off block");
        prev = bb;
        bb = next;
    }
}

// ------------------------------------------------------------------ main

static void initGlobals() {
    for (auto& F : *M) {
        funcAddr(&F);
        int n = (int)g_findex.size();
        if (n >= MAXF) {
            fprintf(stderr, "too many functions\n");
            exit(3);
        }
        g_findex[&F] = n;
    }
    for (auto& g : M->globals()) {
        Type* t = g.getValueType();
        u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 256;
        if (g.isDeclaration()) sz = std::max<u64>(sz, 256);
        Obj* o = allocObj(sz ? sz : 1, 'g', 16);
        std::fill(o->b.begin(), o->b.end(), 0);
        g_gaddr[&g] = o->base;
        g_gname[o->base] = g.getName().str();
        if (g.getName() == "__libc_single_threaded") o->b[0] = 1;
    }
    for (auto& g : M->globals())
        if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
            try {
                storeVal(g_gaddr[&g], constVal(g.getInitializer()), g.getValueType());
            } catch (Unsupported& u) {
                fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.what());
            }
        }
}
static void runCtors() {
    auto* g = M->getNamedGlobal("llvm.global_ctors");
    if (!g || !g->hasInitializer()) return;
    auto* ca = dyn_cast<ConstantArray>(g->getInitializer());
    if (!ca) return;
    for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(cs->getOperand(1))) {
            std::vector<Val> none;
            callAny(F, none, nullptr);
        }
    }
}

static void runEntry(const std::string& name) {
    g_entryName = name;
    Function* F = M->getFunction(name);
    if (!F) finishPath("entry not found");
    std::vector<Val> none;
    std::string why;
    try {
        callAny(F, none, nullptr);
        if (g_unwinding) {
            std::string m = "uncaught exception " + gnameAt(g_exc.tinfo);
            if (g_excMsg.count(g_exc.obj)) m += ": " + g_excMsg[g_exc.obj];
            if (ST().violations < g_maxViol) writeViolation("EXC", m, SOL->model);
            else INC(violations);
            finishPath(nullptr);
        }
        INC(completed);
        writeSample();
        finishPath(nullptr);
    } catch (Unsupported& u) {
        finishPath((std::string("unsupported: ") + u.what()).c_str());
    } catch (HangErr&) {
        if (ST().violations < g_maxViol) writeViolation("HANG", "the operation does not finish", SOL->model);
        else INC(violations);
        finishPath(nullptr);
    } catch (MemErr& m) {
        if (ST().violations < g_maxViol) writeViolation("MEM", m.what, SOL->model);
        else INC(violations);
        finishPath(nullptr);
    } catch (z3::exception& e) {
        finishPath((std::string("z3: ") + e.msg()).c_str());
    }
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32) {
            r += ' ';
            continue;
        }
        r += c;
    }
    return r;
}

int main(int argc, char** argv) {
    std::string mod;
    std::vector<std::string> entries;
    int jobs = 8;
    double timeout = 600, etimeout = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out") g_out = argv[++i];
        else if (a == "--prop") g_prop = argv[++i];
        else if (a == "--deep") g_deep = true;
        else if (a == "--samples") g_samples = atoi(argv[++i]);
        else if (a == "--query-limit") g_queryLimit = atof(argv[++i]);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--timeout") timeout = atof(argv[++i]);
        else if (a == "--entry-timeout") etimeout = atof(argv[++i]);
        else if (a == "--entry") entries.push_back(argv[++i]);
        else if (a == "--max-violations") g_maxViol = atoi(argv[++i]);
        else mod = a;
    }
    rlimit rl{512u << 20, RLIM_INFINITY};
    getrlimit(RLIMIT_STACK, &rl);
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(SH, 0, sizeof(Shared));
    sem_init(&SH->tokens, 1, jobs);
    sem_init(&SH->lock, 1, 1);
    double t0 = now();
    double hard = t0 + timeout;
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(mod, err, ctx);
    if (!m) {
        err.print("symex", errs());
        return 3;
    }
    M = m.get();
    DL = &M->getDataLayout();
    SOL = new Solver;
    SOL->init();
    initGlobals();
    g_deadline = hard;
    mkdir(g_out.c_str(), 0755);
    try {
        runCtors();
    } catch (Unsupported& u) {
        fprintf(stderr, "static initialisation: %s\n", u.what());
        return 3;
    } catch (MemErr& u) {
        fprintf(stderr, "static initialisation: %s\n", u.what.c_str());
        return 3;
    }
    g_loading = false;
    g_pool.cur = g_pool.end = nullptr;
    poolForget();
    if (entries.size() > MAXE) { fprintf(stderr, "too many entries\n"); exit(3); }
    SH->nentries = (int)entries.size();
    // one process per entry; each holds a token
    std::map<pid_t, int> running;
    std::vector<double> started(entries.size());
    size_t nexte = 0;
    while (nexte < entries.size() || !running.empty()) {
        if (nexte < entries.size()) {
            // wait for a token, reaping meanwhile
            timespec ts;
            clock_gettime(CLOCK_REALTIME, &ts);
            ts.tv_nsec += 20000000;
            if (ts.tv_nsec >= 1000000000) ts.tv_sec++, ts.tv_nsec -= 1000000000;
            if (sem_timedwait(&SH->tokens, &ts) == 0) {
                CUR = (int)nexte;
                started[nexte] = now();
                pid_t p = fork();
                if (p == 0) {
                    g_deadline = hard;
                    if (etimeout > 0) g_deadline = std::min(hard, now() + etimeout);
                    if (now() > hard) {
                        ST().timed_out = 1;
                        finishPath("time limit");
                    }
                    runEntry(entries[nexte]);
                }
                running[p] = (int)nexte;
                ++nexte;
            }
        }
        int st;
        pid_t p;
        while ((p = waitpid(-1, &st, nexte < entries.size() ? WNOHANG : 0)) > 0) {
            auto it = running.find(p);
            if (it != running.end()) {
                int e = it->second;
                SH->st[e].wall_s = now() - started[e];
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) SH->st[e].crashed = 1;
                running.erase(it);
            }
            if (nexte < entries.size()) break;
            if (running.empty()) break;
        }
    }
    FILE* o = fopen((g_out + "/result.json").c_str(), "w");
    fprintf(o, "{\"wall_s\": %.3f, \"entries\": [", now() - t0);
    for (size_t i = 0; i < entries.size(); ++i) {
        auto& s = SH->st[i];
        fprintf(o, "%s\n {\"name\": \"%s\", \"paths\": %ld, \"completed\": %ld, \"assumed_away\": %ld, \"inconclusive\": %ld, \"violations\": %ld, \"forks\": %ld, \"queries_branch\": %ld, \"queries_assert\": %ld, \"sat\": %ld, \"unsat\": %ld, \"unknown\": %ld, \"witnessed\": %ld, \"refuted_before\": %ld, \"asserts\": %ld, \"asserts_by_rewriting\": %ld, \"instructions\": %ld, \"symbolic_inputs\": %ld, \"solver_s\": %.3f, \"wall_s\": %.3f, \"timed_out\": %d, \"crashed\": %d, ", i ? "," : "",
                entries[i].c_str(), s.paths, s.completed, s.assumed_away, s.inconclusive, s.violations, s.forks, s.q_branch, s.q_assert, s.sat, s.unsat, s.unknown, s.witnessed, s.refuted_before, s.asserts_checked, s.asserts_syntactic, s.instrs, s.inputs, s.solver_s, s.wall_s, s.timed_out, s.crashed);
        const char* names[] = {"reached", "inconclusive_reasons", "assertions"};
        for (int k = 0; k < 3; ++k) {
            fprintf(o, "%s\"%s\": {", k ? ", " : "", names[k]);
            bool first = true;
            for (int j = 0; j < SH->nlabels; ++j)
                if (SH->lab[j].entry == (int)i && SH->lab[j].kind == k) {
                    fprintf(o, "%s\"%s\": %ld", first ? "" : ", ", jesc(SH->lab[j].msg).c_str(), SH->lab[j].count);
                    first = false;
                }
            fprintf(o, "}");
        }
        fprintf(o, "}");
    }
    fprintf(o, "],\n \"functions\": [");
    bool first = true;
    for (auto& kv : g_findex)
        if (SH->fn[kv.second]) {
            fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(kv.first->getName().str()).c_str());
            first = false;
        }
    fprintf(o, "]}\n");
    fclose(o);
    return 0;
}
