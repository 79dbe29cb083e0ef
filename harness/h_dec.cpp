// Histories of moves on each kind of decision, with a few dependent symbols.
#include "h_common.hpp"

static ArrayNode* table(Scn& s, ssize_t n) {
    Vec v;
    for (ssize_t i = 0; i < n; ++i) v.push_back(n > 4 ? entry_of(i, -90, 90) : double((7 * i + 3) % 5) - 1);
    return s.constant(v, {n});
}
static void coll(Scn& s, ArrayNode* x, ssize_t n, Cfg c) {
    auto y = s.add<AdvancedIndexingNode>(table(s, n), x);
    s.add<SumNode>(y);
    s.add<SizeNode>(x);
    s.run(c);
}
ENTRY dc_list() { Scn s; auto x = s.list(3); coll(s, x, 3, {2, 1, false, true}); }
ENTRY dc_listv() { Scn s; auto x = s.list(3, 1, 3); coll(s, x, 3, {2, 1, false, true}); }
ENTRY dc_listv4() { Scn s; auto x = s.list(4, 1, 3); coll(s, x, 4, {1, 1}); }
ENTRY dc_set() { Scn s; auto x = s.set(3); coll(s, x, 3, {2, 1, false, true}); }
ENTRY dc_set4() { Scn s; auto x = s.set(4, 2, 3); coll(s, x, 4, {1, 1}); }
ENTRY dc_dl() {
    Scn s;
    auto x = s.dlists(3, 2);
    s.add<SumNode>(s.add<AdvancedIndexingNode>(table(s, 3), x[0]));
    s.add<SizeNode>(x[1]);
    s.run({2, 1, false, true});
}
ENTRY dc_dl3() {
    Scn s;
    auto x = s.dlists(2, 3);
    s.add<SumNode>(x[0]);
    s.add<SumNode>(s.add<AdvancedIndexingNode>(table(s, 2), x[2]));
    s.run({1, 1});
}
ENTRY dc_dl1() { Scn s; auto x = s.dlists(3, 1); s.add<SumNode>(x[0]); s.run({2, 1, false, true}); }
ENTRY dc_db() {
    Scn s;
    auto x = s.dbits(3, 2);
    s.add<SumNode>(s.add<MultiplyNode>(table(s, 3), x[0]));
    s.add<SumNode>(x[1]);
    s.run({2, 1, false, true});
}
ENTRY dc_db3() {
    Scn s;
    auto x = s.dbits(2, 3);
    s.add<SumNode>(x[2]);
    s.add<MultiplyNode>(x[0], x[1]);
    s.run({2, 1, false, true});
}
ENTRY dc_int() { Scn s; auto x = s.integer({3}, -2, 2); s.add<SumNode>(x); s.run({2, 1, false, true}); }
ENTRY dc_bin() { Scn s; auto x = s.binary({3}); s.add<SumNode>(x); s.run({2, 1, false, true}); }
ENTRY dc_two() {
    Scn s;
    auto x = s.list(3), z = s.list(3);
    s.add<AddNode>(x, z);
    s.run({1, 1});
}

// longer histories
ENTRY dc_wlist() { Scn s; auto x = s.list(7); coll(s, x, 7, then_any(4)); }
ENTRY dc_wlistv() { Scn s; auto x = s.list(7, 2, 6); coll(s, x, 7, then_any(4)); }
ENTRY dc_wset() { Scn s; auto x = s.set(7); coll(s, x, 7, then_any(4)); }
ENTRY dc_wdl() {
    Scn s;
    auto x = s.dlists(7, 3);
    s.add<SumNode>(s.add<AdvancedIndexingNode>(table(s, 7), x[0]));
    s.add<SumNode>(s.add<AdvancedIndexingNode>(table(s, 7), x[2]));
    s.add<SizeNode>(x[1]);
    s.run(then_any(4));
}
ENTRY dc_wdb() {
    Scn s;
    auto x = s.dbits(7, 3);
    s.add<SumNode>(s.add<MultiplyNode>(table(s, 7), x[0]));
    s.add<SumNode>(x[1]);
    s.add<AddNode>(x[1], x[2]);
    s.run(then_any(4));
}
ENTRY dc_wint() { Scn s; auto x = s.integer({2, 4}, -90, 90); s.add<SumNode>(x); s.run(few(10, 3, 3)); }
ENTRY dc_wbin() { Scn s; auto x = s.binary({8}); s.add<SumNode>(x); s.run(few(10, 3, 0)); }
