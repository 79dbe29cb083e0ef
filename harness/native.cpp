// Concrete counterpart of the executor's intrinsics: re-runs one harness entry
// natively (compiled from the real sources, with AddressSanitizer) on the
// values of a counterexample file.
//   exit 42: an assertion of the property fails    43: exception escapes
//   exit 77: AddressSanitizer                      50: assumption fails / inputs differ
//   exit 0 : the entry ran to its end
#include <dlfcn.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "vp.hpp"

static std::vector<std::pair<std::string, long long>> g_in;
static size_t g_next = 0;
static std::string g_prop;
static bool g_deep = false;

static long long next(const char* name) {
    if (g_next >= g_in.size() || g_in[g_next].first != name) {
        printf("DIVERGED input %zu '%s'\n", g_next, name);
        fflush(stdout);
        _Exit(50);
    }
    return g_in[g_next++].second;
}
static bool enabled(const std::string& t) {
    if (g_prop.empty()) return true;
    std::stringstream ss(t);
    std::string p;
    while (std::getline(ss, p, '|'))
        if (p == g_prop || p == "*" || p.empty()) return true;
    return false;
}
extern "C" {
int64_t vp_int(const char* name, int64_t, int64_t) { return next(name); }
double vp_num(const char* name, int64_t, int64_t) { return (double)next(name); }
void vp_assume(bool c) {
    if (c) return;
    printf("DIVERGED assumption\n");
    fflush(stdout);
    _Exit(50);
}
void vp_check(bool c, const char* tag, const char* msg) {
    if (c || !enabled(tag)) return;
    printf("FAILED %s: %s\n", tag, msg);
    fflush(stdout);
    _Exit(42);
}
int64_t vp_fix(int64_t x) { return x; }
bool vp_prop(const char* tag) { return !strcmp(tag, "DEEP") ? g_deep : enabled(tag); }
void vp_reach(const char*) {}
double vp_ite(bool c, double a, double b) { return c ? a : b; }
void vp_trace(const char* what, double v) { printf("trace %s %g\n", what, v); }
bool vp_native() { return true; }
}

int main(int argc, char** argv) {
    std::ifstream f(argv[1]);
    std::string line, entry;
    while (std::getline(f, line)) {
        std::stringstream ss(line);
        std::string k;
        ss >> k;
        if (k == "entry") ss >> entry;
        else if (k == "prop") ss >> g_prop;
        else if (k == "deep") { int d; ss >> d; g_deep = d; }
        else if (k == "in") {
            std::string n;
            long long v;
            ss >> n >> v;
            g_in.push_back({n, v});
        }
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!fn) {
        printf("no entry %s\n", entry.c_str());
        return 51;
    }
    std::set_terminate([] {
        printf("FAILED EXC: exception escapes\n");
        fflush(stdout);
        _Exit(43);
    });
    try {
        fn();
    } catch (std::exception& e) {
        printf("FAILED EXC: %s\n", e.what());
        fflush(stdout);
        _Exit(43);
    }
    printf("COMPLETED\n");
    fflush(stdout);
    _Exit(0);
}
