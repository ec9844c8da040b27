// C02: irreducibility / primitivity verdicts.
#include "common.hpp"
#include "factors.inc"
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
using namespace vf;
using namespace NTL;

static Log *lg;

static std::vector<ZZ> factorSmall(int n) {          // prime divisors of 2^n-1, n <= 40
    std::vector<ZZ> r;
    uint64_t m = (UINT64_C(1) << n) - 1;
    for (uint64_t d = 2; d * d <= m; d++)
        if (m % d == 0) { r.push_back(ZZ((long)d)); while (m % d == 0) m /= d; }
    if (m > 1) r.push_back(ZZ((long)m));
    return r;
}
static std::vector<ZZ> factorKnown(int n) {
    std::vector<ZZ> r;
    for (size_t i = 0; i < sizeof(known_factors) / sizeof(known_factors[0]); i++)
        if (known_factors[i].n == n)
            for (int j = 0; known_factors[i].p[j]; j++) r.push_back(conv<ZZ>(known_factors[i].p[j]));
    return r;
}
static std::vector<std::string> strs(const std::vector<ZZ>& f) {
    std::vector<std::string> r;
    for (size_t i = 0; i < f.size(); i++) { std::ostringstream s; s << f[i]; r.push_back(s.str()); }
    return r;
}

static void askIrred(const GF2X& p, double w = 1) {
    lg->session(w);
    Ev e("irred"); e.poly("p", p).b("r", MTToolBox::isIrreducible(p)); lg->put(e);
}
static void askMersenne(const GF2X& p, double w = 1) {
    lg->session(w);
    Ev e("mprime"); e.poly("p", p).b("r", MTToolBox::isPrime(p)); lg->put(e);
}
// the same object is asked many questions (histories)
static MTToolBox::AlgorithmPrimitivity *defaultObj;
static void askDefault(const GF2X& p, int degree, double w = 1) {
    lg->session(w);
    bool r = (p == 0 || !(*defaultObj)(degree, p)) ? MTToolBox::MersennePrimitivity(degree, p) : (*defaultObj)(degree, p);
    Ev e("default"); e.poly("p", p).i("deg", degree).b("r", r).b("r2", (*defaultObj)(degree, p)); lg->put(e);
}
// asks the three factor-list variants about p
static void askFactors(const GF2X& p, int degree, const std::vector<ZZ>& f, double w = 1, int rot = 0) {
    lg->session(w);
    std::vector<ZZ> g;                       // the order of the factors is immaterial
    for (size_t i = 0; i < f.size(); i++) g.push_back(f[(i + rot) % f.size()]);
    Vec<ZZ> z; z.SetLength(g.size());
    for (size_t i = 0; i < g.size(); i++) z[i] = g[i];
    std::vector<std::string> s = strs(g);
    std::vector<const char *> c;
    for (size_t i = 0; i < s.size(); i++) c.push_back(s[i].c_str());
    c.push_back(0);
    bool r1 = MTToolBox::isPrime(p, degree, z);
    bool r2 = MTToolBox::isPrime(p, degree, &c[0]);
    MTToolBox::AlgorithmPrimitivity obj(&c[0]);
    bool r3 = obj(degree, p);
    bool r4 = obj(degree, p);
    ZZ m = power2_ZZ(degree) - 1;
    std::ostringstream es; es << '[';
    for (size_t i = 0; i < f.size(); i++) {
        if (i) es << ',';
        ZZ q = m / f[i];
        es << '['; bool first = true;
        for (long b = 0; b < NumBits(q); b++) if (bit(q, b)) { if (!first) es << ','; first = false; es << b; }
        es << ']';
    }
    es << ']';
    Ev e("fprime");
    e.poly("p", p).i("deg", degree).raw("es", es.str()).b("zz", r1).b("str", r2).b("obj", r3).b("obj2", r4);
    lg->put(e);
}
static bool primitive(const GF2X& p, const std::vector<ZZ>& f) {
    long n = deg(p);
    if (!IterIrredTest(p)) return false;
    ZZ m = power2_ZZ(n) - 1;
    for (size_t i = 0; i < f.size(); i++) { GF2X x; PowerXMod(x, m / f[i], p); if (IsOne(x)) return false; }
    return true;
}
// minimal polynomial of x^k modulo p
static GF2X ofPower(const GF2X& p, const ZZ& k) {
    GF2XModulus F(p);
    GF2X b, r; PowerXMod(b, k, F);
    MinPolyMod(r, b, F);
    return r;
}

int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    defaultObj = new MTToolBox::AlgorithmPrimitivity();
    // all polynomials of small degree
    int top = a.thorough ? 9 : 7;
    for (uint64_t v = 0; v < (UINT64_C(1) << (top + 1)); v++) {
        GF2X p = polyOf(v);
        askIrred(p); askMersenne(p);
        int n = (int)deg(p);
        askDefault(p, n); 
        if (g.below(4) == 0) askDefault(p, n + g.in(-2, 2));
        if (n >= 2) {
            askFactors(p, n, factorSmall(n), 1, g.below(3));
            if (g.below(8) == 0) { int d = g.in(2, 9); askFactors(p, d, factorSmall(d)); }
        }
    }
    // medium degrees: irreducible, reducible without small factors, all orders
    int k = a.thorough ? 4 : 1;
    for (int n = top + 1; n <= 36; n++) {
        std::vector<ZZ> f = factorSmall(n);
        for (int i = 0; i < 2 * k; i++) {
            GF2X p = randIrred(g, n);
            askIrred(p, 3); askMersenne(p, 3); askDefault(p, n, 3);
            askFactors(p, n, f, 20, g.below(5));
            GF2X q = randIrred(g, g.in(2, n - 2));
            q *= randIrred(g, n - (int)deg(q));
            askIrred(q, 3); askFactors(q, n, f, 20); askMersenne(q, 3); askDefault(q, n, 3);
            if (g.below(3) == 0) askDefault(p, n + 1, 3);
            if (g.below(3) == 0) askFactors(p, n - 1, factorSmall(n - 1), 3);
        }
        GF2X p;
        do p = randIrred(g, n); while (!primitive(p, f));
        askFactors(p, n, f, 20);
        for (size_t i = 0; i < f.size(); i++) {      // fails for exactly one prime
            GF2X q = ofPower(p, f[i]);
            if (deg(q) == n) askFactors(q, n, f, 20, g.below((int)f.size()));
        }
        // squares and the reciprocal
        GF2X sq = p * p; askIrred(sq, 5); askDefault(sq, 2 * n, 5);
        GF2X rv; reverse(rv, p); askFactors(rv, n, f, 20); askIrred(rv, 3);
    }
    // degrees that are / are not Mersenne exponents
    int ms[] = {31, 61, 89, 107, 127, 64, 63, 77, 90, 128};
    for (size_t i = 0; i < sizeof(ms) / sizeof(ms[0]); i++) {
        GF2X p = randIrred(g, ms[i]);
        askMersenne(p, 100); askIrred(p, 100); askDefault(p, ms[i], 100);
        GF2X q = randPoly(g, ms[i]); askMersenne(q, 100); askIrred(q, 100);
        GF2X x = randIrred(g, ms[i] / 3) * randIrred(g, ms[i] - ms[i] / 3); askMersenne(x, 100); askIrred(x, 100); askDefault(x, ms[i], 60);
    }
    if (a.thorough) { GF2X p; SetCoeff(p, 521); SetCoeff(p, 32); SetCoeff(p, 0); askMersenne(p, 3000); askIrred(p, 3000); }
    // the degrees with shipped tables: one polynomial per prime
    int ns[] = {128, 160, 192};
    for (int t = 0; t < (a.thorough ? 3 : 2); t++) {
        int n = ns[t];
        std::vector<ZZ> f = factorKnown(n);
        GF2X p;
        do p = randIrred(g, n); while (!primitive(p, f));
        askFactors(p, n, f, 3000);
        int done = 0;
        for (size_t i0 = 0; i0 < f.size(); i0++) {
            size_t i = (i0 + a.seed) % f.size();
            GF2X q = ofPower(p, f[i]);
            if (deg(q) == n && IterIrredTest(q)) {
                askFactors(q, n, f, 2000, g.below((int)f.size()));
                if (++done >= (a.thorough ? 50 : t == 0 ? 9 : 3)) break;
            }
        }
        askFactors(randPoly(g, n), n, f, 500);
    }
    return 0;
}
