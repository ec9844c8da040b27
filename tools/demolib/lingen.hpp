// A small linear generator over at most 64 state bits, for the demonstrations.
#ifndef LINGEN_HPP
#define LINGEN_HPP
#include <stdint.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include <stdexcept>
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/TemperingCalculatable.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/ParameterGenerator.hpp>
typedef std::vector<uint64_t> Mat;              // row i: the bits whose sum is the new bit i
struct Machine { int n; Mat A, C; int tag; };
static inline uint64_t apply(const Mat& m, uint64_t s) {
    uint64_t r = 0;
    for (size_t i = 0; i < m.size(); i++) r |= (uint64_t)__builtin_parityll(m[i] & s) << i;
    return r;
}
// companion machine of a polynomial given as a word with its leading bit (degree < 64)
static inline Mat companion(uint64_t f) {
    int n = 63 - __builtin_clzll(f);
    Mat A(n, 0);
    for (int i = 0; i < n; i++) A[i] = (i ? (uint64_t)1 << (i - 1) : 0) ^ (((f >> i) & 1) << (n - 1));
    return A;
}
static inline Mat direct(const Mat& a, const Mat& b) {
    Mat r(a);
    for (size_t i = 0; i < b.size(); i++) r.push_back(b[i] << a.size());
    return r;
}
static inline NTL::GF2X poly(uint64_t f) { NTL::GF2X p; for (int i = 0; i < 64; i++) if ((f >> i) & 1) SetCoeff(p, i); return p; }
struct List : public MTToolBox::ParameterGenerator {
    std::vector<uint64_t> v; size_t at;
    List(std::initializer_list<uint64_t> x) : v(x), at(0) {}
    uint32_t getUint32() { return (uint32_t)getUint64(); }
    uint64_t getUint64() { return at < v.size() ? v[at++] : 0; }
    void seed(uint64_t) { at = 0; }
};
template<class U> class LinGen : public MTToolBox::ReducibleTemperingCalculatable<U> {
public:
    std::vector<Machine> ms; int cur; uint64_t st; int mexp; uint64_t start;
    std::vector<int> sh; std::vector<uint64_t> pat, act; bool latch, rev; U par;
    LinGen(std::vector<Machine> m, int mx = 0) : ms(m), cur(0), st(1), mexp(mx), start(0), latch(false), rev(false), par(0) {}
    LinGen(const LinGen& o) : MTToolBox::AbstractGenerator<U>(), MTToolBox::RecursionSearchable<U>(),
        MTToolBox::EquidistributionCalculatable<U>(), MTToolBox::ReducibleGenerator<U>(),
        MTToolBox::TemperingCalculatable<U>(), MTToolBox::ReducibleTemperingCalculatable<U>(),
        ms(o.ms), cur(o.cur), st(o.st), mexp(o.mexp), start(o.start), sh(o.sh), pat(o.pat), act(o.act), latch(o.latch), rev(o.rev), par(o.par) {}
    void temper(std::vector<int> s, bool l) { sh = s; pat.assign(s.size(), 0); act = pat; latch = l; }
    const Machine& m() const { return ms[cur]; }
    U out() const {
        U y = (U)apply(m().C, st);
        for (size_t i = 0; i < act.size(); i++) y = (U)(y ^ ((U)(y << sh[i]) & (U)act[i]));
        return y;
    }
    U generate() { st = apply(m().A, st); return out(); }
    U generate(int len) {
        U y = generate(); const int w = sizeof(U) * 8;
        if (rev) { U r = 0; for (int i = 0; i < w; i++) if ((y >> i) & 1) r = (U)(r | (U)1 << (w - 1 - i)); y = r; }
        if (len < w) y = (U)(y >> (w - len) << (w - len));
        return y;
    }
    void seed(U v) { st = start ? start : ((uint64_t)v * UINT64_C(0x9E3779B97F4A7C15) >> (64 - m().n)); if (!st) st = 1; }
    int bitSize() const { return m().n; }
    void setUpParam(MTToolBox::ParameterGenerator& g) { cur = (int)(g.getUint32() % ms.size()); }
    const std::string getHeaderString() { return "lingen"; }
    const std::string getParamString() { std::ostringstream s; s << cur; return s.str(); }
    MTToolBox::EquidistributionCalculatable<U> *clone() const { return new LinGen(*this); }
    void add(MTToolBox::EquidistributionCalculatable<U>& o) { st ^= dynamic_cast<LinGen&>(o).st; }
    void setZero() { st = 0; }
    bool isZero() const { return st == 0; }
    void setTemperingPattern(U mask, U p, int i) { pat[i] = (pat[i] & ~(uint64_t)mask) | (p & mask); if (!latch) act = pat; }
    void setUpTempering() { act = pat; }
    void setReverseOutput() { rev = true; }
    void resetReverseOutput() { rev = false; }
    bool isReverseOutput() { return rev; }
    void setOneBit(int b) { st = (uint64_t)1 << b; }
    U getParityValue() const { return (U)st; }
    void setParityValue(U p) { par = p; }
    int getMexp() const { return mexp; }
};
// rank-based k(v): the v leading output bits of k consecutive outputs
template<class U> static int dimension(const Machine& m, int v) {
    const int w = sizeof(U) * 8; int best = 0;
    for (int k = 1; k * v <= m.n; k++) {
        std::vector<uint64_t> rows(m.n, 0);       // one row per starting state bit: k*v observed bits
        std::vector<uint64_t> vec;
        for (int b = 0; b < m.n; b++) {
            uint64_t s = (uint64_t)1 << b, r = 0; int at = 0;
            for (int i = 0; i < k; i++) { s = apply(m.A, s); U y = (U)apply(m.C, s);
                for (int j = 0; j < v; j++) r |= (uint64_t)((y >> (w - 1 - j)) & 1) << at++; }
            vec.push_back(r);
        }
        int rank = 0; uint64_t piv[64] = {0};
        for (size_t i = 0; i < vec.size(); i++) { uint64_t x = vec[i];
            for (int b = 63; b >= 0 && x; b--) if ((x >> b) & 1) { if (piv[b]) x ^= piv[b]; else { piv[b] = x; rank++; x = 0; } } }
        if (rank < k * v) break;
        best = k;
    }
    return best;
}
static inline uint64_t rnd() { static uint64_t x = 88172645463325252ULL; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static inline int fail(const char *s) { printf("FAIL: %s\n", s); return 1; }
#endif
