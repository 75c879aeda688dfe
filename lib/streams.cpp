// Reference streams of the standard generators: prints n canonical doubles (as hexadecimal floats).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
template <class G> void go(int seed, int n) { G g; g.seed(seed); for (int i = 0; i < n; ++i) printf("%a\n", std::generate_canonical<double, 32>(g)); }
int main(int, char ** v)
{
    const int seed = atoi(v[2]), n = atoi(v[3]);
    if (!strcmp(v[1], "MT")) go<std::mt19937>(seed, n);
    else if (!strcmp(v[1], "MINSTD")) go<std::minstd_rand>(seed, n);
    else if (!strcmp(v[1], "RANLUX24")) go<std::ranlux24>(seed, n);
    else if (!strcmp(v[1], "RANLUX48")) go<std::ranlux48>(seed, n);
    else return 1;
    return 0;
}
