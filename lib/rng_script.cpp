// Scripted replacement for the only randomness seam of the backend, double randomDouble01().
// The repository's random.cpp is compiled with -DrandomDouble01=real_randomDouble01 and still
// provides the real generator (mode 0).
#include <vector>
#include <cstddef>
#include "random.h"
extern double real_randomDouble01();
static int    g_mode = 0;
static std::vector<double> g_script;
static size_t g_pos = 0;
static long   g_draws = 0;
static long   g_overrun = 0;
static double g_fallback = 0.5;
static std::vector<double> g_log;
static int g_logging = 0;
double randomDouble01()
{
    ++g_draws;
    double v;
    if (g_mode == 0) { v = real_randomDouble01(); }
    else if (g_pos < g_script.size()) { v = g_script[g_pos++]; }
    else { ++g_overrun; v = g_fallback; }
    if (g_logging) { g_log.push_back(v); }
    return v;
}
extern "C" {
__attribute__((visibility("default"))) void vp_rng_mode(int m) { g_mode = m; }
__attribute__((visibility("default"))) void vp_rng_set(const double * p, int n, double fallback)
{ g_script.assign(p, p + n); g_pos = 0; g_overrun = 0; g_fallback = fallback; g_mode = 1; }
__attribute__((visibility("default"))) long vp_rng_draws() { return g_draws; }
__attribute__((visibility("default"))) long vp_rng_pos() { return (long)g_pos; }
__attribute__((visibility("default"))) long vp_rng_overrun() { return g_overrun; }
__attribute__((visibility("default"))) void vp_rng_log(int on) { g_logging = on; g_log.clear(); }
__attribute__((visibility("default"))) int vp_rng_getlog(double * p, int n)
{ int i = 0; for (; i < n && i < (int)g_log.size(); ++i) p[i] = g_log[i]; return (int)g_log.size(); }
__attribute__((visibility("default"))) double vp_rng_real() { return real_randomDouble01(); }
}
