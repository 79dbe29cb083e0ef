// Hash-consed symbolic terms.
//
// Integers are *mathematical* integers carrying an interval; machine arithmetic
// that may leave the machine range is wrapped explicitly (WRAP).  Doubles are
// represented by exact dyadic integers (FINT: e * 2^-k, |e| <= 2^53), by exact
// quotients of small integers (FDIV) and by square roots of integers (FSQRT);
// every other floating point result on symbolic data is "unsupported" and ends
// the path as not covered.
#pragma once
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef __int128 i128;

struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};

enum class K : uint8_t {
    // integer sort
    ICONST, POLY, SYM, ITE, SDIV, SREM, WRAP, BAND, BOR, BXOR, FLOORSH, OMUL,
    // bool sort
    TRUE_, FALSE_, LE0, EQ0, NOT, AND, OR,
    // float sort
    FINT, FDIV, FSQRT,
};

struct Expr;
typedef const Expr* E;

struct Mono {
    i128 c;
    std::vector<E> a;
};

struct Expr {
    K k;
    uint32_t id;
    uint64_t h;
    i128 lo = 0, hi = 0;  // interval (integers)
    i128 c = 0;           // constant / poly constant / wrap bits / shift / scale / sym id
    std::vector<E> a;     // children
    std::vector<Mono> m;  // poly terms
    bool isInt() const { return k <= K::OMUL; }
    bool isBool() const { return k >= K::TRUE_ && k <= K::OR; }
    bool isFP() const { return k >= K::FINT; }
};

struct SymInfo {
    std::string name;
    E e;
};

extern std::vector<SymInfo> g_syms;  // SYM id -> info
extern std::vector<char> g_symBound;
extern std::vector<i128> g_symVal;   // when bound by the path condition to a constant
extern uint32_t g_substEpoch;

E ic(i128 v);
E mkSym(const std::string& name, i128 lo, i128 hi);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMulC(E a, i128 c);
E mkMul(E a, E b);
E mkIte(E c, E a, E b);
E mkSDiv(E a, E b);  // caller guarantees b != 0
E mkSRem(E a, E b);
E mkWrap(E a, int bits);          // to signed range
E mkUnsigned(E a, int bits);      // signed repr -> unsigned math value
E mkBit(K k, E a, E b, int bits);
E mkFloorShift(E a, int s);       // floor(a / 2^s)
E mkTrue();
E mkFalse();
E mkBool(bool b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkLe0(E p);
E mkEq0(E p);
inline E mkLe(E a, E b) { return mkLe0(mkSub(a, b)); }
inline E mkLt(E a, E b) { return mkLe0(mkAdd(mkSub(a, b), ic(1))); }
inline E mkEq(E a, E b) { return mkEq0(mkSub(a, b)); }
E mkBIte(E c, E a, E b);  // bool ite
E boolToInt(E b);
E intToBool(E i);  // i != 0
E subst(E e);      // apply constant bindings of symbols

// floats
E fInt(E e, int scale);
bool fConstToFint(double d, E* out);  // finite, small dyadic
E fAdd(E a, E b);
E fSub(E a, E b);
E fMul(E a, E b);
E fNeg(E a);
E fIte(E c, E a, E b);  // both FINT
E mkFDiv(E num, E den);
E mkFSqrt(E e);
// a REL b.  rel: 0 eq, 1 lt, 2 le
E fCmp(int rel, E a, E b);
E fCmpC(int rel, E a, double c);        // a REL c (c finite or inf, not nan)
E fCmpCrev(int rel, double c, E a);     // c REL a

// evaluation under an assignment of symbols
struct Eval {
    const std::vector<i128>& asg;
    std::unordered_map<E, i128> memo;
    explicit Eval(const std::vector<i128>& a) : asg(a) {}
    i128 ev(E e);
};
int bitsFor(i128 lo, i128 hi);  // signed width
std::string i128str(i128 v);
std::string show(E e, int depth = 6);
