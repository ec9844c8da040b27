// Parameter sets of every kind for the searches.
#ifndef VERIF_MEMBERS_HPP
#define VERIF_MEMBERS_HPP
#include "toy.hpp"
#include "factors.inc"
namespace vf {
using namespace NTL;
static std::vector<ZZ> factorsOf(int n) {
    std::vector<ZZ> r;
    if (n <= 40) {
        uint64_t m = (UINT64_C(1) << n) - 1;
        for (uint64_t d = 2; d * d <= m; d++)
            if (m % d == 0) { r.push_back(ZZ((long)d)); while (m % d == 0) m /= d; }
        if (m > 1) r.push_back(ZZ((long)m));
        return r;
    }
    for (size_t i = 0; i < sizeof(known_factors) / sizeof(known_factors[0]); i++)
        if (known_factors[i].n == n)
            for (int j = 0; known_factors[i].p[j]; j++) r.push_back(conv<ZZ>(known_factors[i].p[j]));
    return r;
}
static bool primitive(const GF2X& p, const std::vector<ZZ>& f) {
    ZZ m = power2_ZZ(deg(p)) - 1;
    for (size_t i = 0; i < f.size(); i++) { GF2X x; PowerXMod(x, m / f[i], p); if (IsOne(x)) return false; }
    return true;
}
static GF2X randIrredFast(Rng& g, int d) { return randIrred(g, d); }
// a machine with this characteristic polynomial
static Lin withPoly(Rng& g, const GF2X& p, int w) {
    Lin l; l.n = (int)deg(p);
    l.A = companion(p);
    if (l.n <= 64) l.A = conjugate(g, l.A);
    l.C = randRows(g, w, l.n);
    while (l.C[0].none()) l.C[0] = randVec(g, l.n);
    return l;
}
static GF2X cofactor(Rng& g, int d, bool withX) {
    GF2X c; SetCoeff(c, 0);
    while (d > 0) {
        int s = g.in(1, d > 5 ? 5 : d);
        GF2X h = s == 1 ? polyOf(withX && g.coin() ? 2 : 3) : randIrred(g, s);
        c *= h; d -= s;
    }
    return c;
}
template<class U> static Lin memberIrr(Rng& g, int kind, int n, const std::vector<ZZ>& f) {
    int w = width<U>();
    switch (kind) {
    case 0: case 1: {                               // primitive
        GF2X p; do p = randIrred(g, n); while (!primitive(p, f));
        return withPoly(g, p, w); }
    case 2: {                                       // irreducible, not primitive (if there is one)
        GF2X p; int tries = 0;
        do p = randIrred(g, n); while (primitive(p, f) && ++tries < 60);
        return withPoly(g, p, w); }
    case 3: {                                       // reducible of full degree
        int d = g.in(1, n - 1);
        GF2X p = randIrred(g, d) * randIrred(g, n - d);
        return withPoly(g, p, w); }
    case 4: {                                       // maximal component smaller than the state
        int d = n / 2;
        GF2X h = randIrred(g, d);
        Lin l; l.n = n; l.A = blockDiag(companion(h), companion(d * 2 == n ? h : randIrred(g, n - d)));
        if (n <= 64) l.A = conjugate(g, l.A);
        l.C = randRows(g, w, n); while (l.C[0].none()) l.C[0] = randVec(g, n);
        return l; }
    case 5: {                                       // anything
        Lin l; l.n = n; l.A = randMat(g, n); l.C = randRows(g, w, n);
        while (l.C[0].none()) l.C[0] = randVec(g, n);
        return l; }
    default: {                                      // an irreducible part only
        GF2X p = randIrred(g, n - 1);
        p *= polyOf(g.coin() ? 2 : 3);
        return withPoly(g, p, w); }
    }
}
static BV applyPoly(const Lin& l, const GF2X& p, const BV& s) {
    BV r, x = s;
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) r ^= x; x = mulv(l.A, x); }
    return r;
}
static int lsbDegree(const Lin& l, const BV& s) {
    Vec<GF2> v; v.SetLength(2 * l.n);
    BV x = s;
    for (int i = 0; i < 2 * l.n; i++) { x = mulv(l.A, x); v[i] = dot(l.C[0], x); }
    GF2X p; MinPolySeq(p, v, l.n);
    return (int)deg(p);
}
template<class U> static Lin memberRed(Rng& g, int kind, int n, int mexp) {
    int w = width<U>();
    GF2X f = randIrred(g, mexp), q = cofactor(g, n - mexp, kind == 6);
    Lin l;
    switch (kind) {
    case 0: case 1: case 6: {
        GF2X p = f * q; l = withPoly(g, p, w);
        int best = -1;
        for (int i = 0; i < 12; i++) { BV s = randVec(g, n); int d = lsbDegree(l, s); if (d > best && s.any()) { best = d; l.s0 = s; } }
        return l; }
    case 2: {                                       // seed state has no large part
        GF2X p = f * q; l = withPoly(g, p, w);
        do l.s0 = applyPoly(l, f, randVec(g, n)); while (l.s0.none() && n > mexp);
        if (l.s0.none()) l.s0.set(0);
        return l; }
    case 3: {                                       // seed state lies in the large part
        GF2X p = f * q; l = withPoly(g, p, w);
        do l.s0 = applyPoly(l, q, randVec(g, n)); while (l.s0.none());
        return l; }
    case 4: {                                       // factor of a neighbouring degree
        int d = mexp + (g.coin() && mexp < n ? 1 : -1);
        GF2X p = randIrred(g, d) * cofactor(g, n - d, false);
        l = withPoly(g, p, w);
        l.s0 = randVec(g, n); l.s0.set(0); return l; }
    default: {                                      // no large factor
        GF2X p = randIrred(g, mexp / 2) * randIrred(g, mexp - mexp / 2) * q;
        l = withPoly(g, p, w);
        l.s0 = randVec(g, n); l.s0.set(0); return l; }
    }
}
}
#endif
