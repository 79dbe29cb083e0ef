// Interface between harnesses and the symbolic executor.  Under the executor
// these are intrinsics; for replays harness/native.cpp implements them by
// reading concrete values.
#pragma once
#include <cstdint>
extern "C" {
// a fresh symbolic integer in [lo, hi]
int64_t vp_int(const char* name, int64_t lo, int64_t hi);
// a fresh symbolic integer-valued double in [lo, hi]
double vp_num(const char* name, int64_t lo, int64_t hi);
void vp_assume(bool c);
// assertion belonging to property `tag` ("A|B" belongs to A and to B)
void vp_check(bool c, const char* tag, const char* msg);
// fork over the feasible values of x, return it as a concrete number
int64_t vp_fix(int64_t x);
// is property tag being decided in this run
bool vp_prop(const char* tag);
void vp_reach(const char* label);
double vp_ite(bool c, double a, double b);
void vp_trace(const char* what, double v);
bool vp_native();
}
inline int64_t vp_pick(const char* name, int64_t lo, int64_t hi) { return vp_fix(vp_int(name, lo, hi)); }
#define ENTRY extern "C" void
