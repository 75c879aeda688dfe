// Drives the real RateTable with every short operation sequence around its generation boundaries.
// usage: driver <generations to cross> <length of the sequences>; prints "ok states transitions" or "BAD ...".
#include "ratetable.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <map>
#include <string>
static const long GEN = 1024, CAP = 8 * 1024;
static long states = 0, trans = 0;
static int kind;
static ratekey key(long n)
{
    switch (kind)
    {
        case 0: return n;                                  // neighbouring keys
        case 1: return ((ratekey)n) << 32;                 // equal low halves
        case 2: return (ratekey)n * 0x9E3779B97F4A7C15UL;  // spread over 64 bits
        case 3: return ~(ratekey)0 - n;                    // the largest keys
        default: return (ratekey)n * 1031UL * 2053UL;      // multiples of common table sizes
    }
}
static double val(long n) { return 0.5 + 3.0 * n; }
static std::string hist;
static bool bad(const char *what, long n, long k)
{
    printf("BAD %s: key kind %d, %ld keys stored, key number %ld, last operations %s\n", what, kind, n, k, hist.c_str());
    return true;
}
// keys 0..n-1 were stored in this order: what is held must be a suffix of at least 7 generations and at most the capacity
static bool check(RateTable & t, long n, bool full)
{
    ++states;
    long lo = -1;
    long from = full ? 0 : (n > CAP + 2 * GEN ? n - CAP - 2 * GEN : 0);
    // the newest key and everything of the last seven generations is still there
    long must = n - 7 * GEN; if (must < 0) must = 0;
    long step = full ? 1 : 97;
    for (long k = must; k < n; k += (k + step < n ? step : (k == n - 1 ? 1 : n - 1 - k)))
    {
        ++trans;
        if (t.stored(key(k)) < 0) return bad("a key of the last seven generations is lost", n, k);
        if (t.retrieve(key(k)) != val(k)) return bad("a stored value changed", n, k);
    }
    // the held keys are a suffix
    bool held = false;
    long count = 0;
    for (long k = from; k < n; k += step)
    {
        ++trans;
        bool h = t.stored(key(k)) >= 0;
        if (held && !h) return bad("an older key outlived a newer one", n, k);
        if (h && t.retrieve(key(k)) != val(k)) return bad("a stored value changed", n, k);
        held = held || h;
        if (h) { if (lo < 0) lo = k; count += step; }
    }
    if (lo >= 0 && n - lo > CAP) return bad("more keys are held than the capacity", n, lo);
    for (long k = n; k < n + 3; ++k) if (t.stored(key(k)) >= 0) return bad("a key that was never stored is reported as stored", n, k);
    return false;
}
int main(int argc, char **argv)
{
    int gens = atoi(argv[1]), len = atoi(argv[2]);
    for (kind = 0; kind < 5; ++kind)
    {
        // plain histories: after every single store
        RateTable t;
        long n = 0;
        hist = "stores";
        for (; n < gens * GEN + 5; )
        {
            t.store(key(n), val(n)); ++n; ++trans;
            long d = n % GEN;
            if (check(t, n, d <= 1 || d >= GEN - 1)) return 1;
        }
        // all sequences of (new key, the last key again, look-up of a new / an old key) around the generation boundaries
        for (int g = 1; g <= gens; ++g)
            for (long off = 1; off <= len; ++off)
            {
                RateTable base;
                long m = g * GEN - off;
                for (long k = 0; k < m; ++k) base.store(key(k), val(k));
                long total = 1; for (int i = 0; i < len; ++i) total *= 3;
                for (long code = 0; code < total; ++code)
                {
                    if (g > 2 && g < gens - 1 && (code % 5)) continue;
                    RateTable c(base);
                    long x = code, k = m;
                    hist = "";
                    for (int i = 0; i < len; ++i, x /= 3)
                    {
                        ++trans;
                        if (x % 3 == 0) { c.store(key(k), val(k)); ++k; hist += "new "; }
                        else if (x % 3 == 1) { c.store(key(k - 1), val(k - 1)); hist += "same "; }
                        else { hist += "look "; if (c.stored(key(k)) >= 0) { bad("a key that was never stored is reported as stored", k, k); return 1; }
                               if (c.stored(key(k - 1)) < 0 || c.retrieve(key(k - 1)) != val(k - 1)) { bad("the newest key is not found", k, k - 1); return 1; } }
                    }
                    // a repeated store may use up one place more, so allow the boundary to be off by the number of repeats
                    ++states;
                    for (long q = k - 6 * GEN > 0 ? k - 6 * GEN : 0; q < k; q += 193)
                        if (c.stored(key(q)) < 0 || c.retrieve(key(q)) != val(q)) { bad("a recent key is lost or changed", k, q); return 1; }
                    for (long q = k > len + 2 ? k - len - 2 : 0; q < k; ++q)
                        if (c.stored(key(q)) < 0 || c.retrieve(key(q)) != val(q)) { bad("a recent key is lost or changed", k, q); return 1; }
                }
            }
    }
    printf("ok %ld %ld\n", states, trans);
    return 0;
}
