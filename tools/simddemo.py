SIMD = r'''
// a linear generator of 128-bit words with the start and weight modes; brute force over all its states
#include "lingen.hpp"
#include "samples/%(dir)s/w128.hpp"
#include "samples/%(dir)s/%(alg)s.hpp"
using namespace MTToolBox;
typedef unsigned __int128 Q;
static const int OWN = %(own)d, G = 128 / OWN;
struct Simd {
    const Machine *m; uint64_t st; int sm, wm; Q prev;
    Simd(const Machine& x) : m(&x), st(1), sm(0), wm(G), prev(0) {}
    Q out(uint64_t s) const { Q y = 0; for (int b = 0; b < 128; b++) y |= (Q)__builtin_parityll(m->C[b] & s) << b; return y; }
    w128_t generate() {
        Q last = out(st); st = ::apply(m->A, st); Q now = out(st);
        Q r = sm == 0 ? now : (last >> (sm * OWN)) | (now << ((G - sm) * OWN));
        Q keep = wm >= G ? 0 : ~(Q)0 << (wm * OWN);
        Q y = (r & ~keep) | (prev & keep); prev = r;
        w128_t w; memcpy(&w, &y, 16); return w;
    }
    void add(const Simd& o) { st ^= o.st; prev ^= o.prev; }
    void setZero() { st = 0; prev = 0; }
    bool isZero() const { return st == 0 && (wm >= G || (prev >> (wm * OWN)) == 0); }
    int bitSize() const { return m->n; }
    void setStartMode(int x) { sm = x; }
    void setWeightMode(int x) { wm = x; prev = 0; }
    const std::string getParamString() const { return "simd"; }
};
// rank of integers start..start+k-1 of the stream, v leading bits each, over the state space
static bool full(const Machine& m, int start, int k, int v, int lw, int top, bool lsb) {
    std::vector<uint64_t> basis(m.n, 0);
    for (int i = start; i < start + k; i++) for (int r = 0; r < v; r++) {
        int L = 128 / lw, b = (i %% L) * lw + (lsb ? r : top - r);
        uint64_t f = 0;                                   // the functional, on the unit states
        for (int e = 0; e < m.n; e++) { uint64_t s = (uint64_t)1 << e; for (int t = 0; t < i / L; t++) s = ::apply(m.A, s); f |= (uint64_t)__builtin_parityll(m.C[b] & s) << e; }
        bool in = false;
        for (int e = 0; e < m.n && f; e++) if ((f >> e) & 1) { if (basis[e]) f ^= basis[e]; else { basis[e] = f; in = true; f = 0; } }
        if (!in) return false;
    }
    return true;
}
static int expect(const Machine& m, int v, int lw, int top, bool lsb) {
    int L = 128 / lw, k = 1 << 20;
    for (int sm = 0; sm < L; sm++) {
        int best = 0;
        for (int w = 1; w <= L; w++) {
            int e = 0;
            while ((e + 1) * L * v <= m.n && full(m, (sm + w) %% L, (e + 1) * L, v, lw, top, lsb)) e++;
            best = std::max(best, L * e - (L - w));
        }
        k = std::min(k, best);
    }
    return k;
}
static Machine machine(int style, int lw) {
    Machine m; m.A = companion(0x2000000000fULL & 0x3ffffff ? 0x200009ULL : 0); m.n = 21;    // x^21+x^3+1, irreducible
    m.C.assign(128, 0);
    for (int b = 0; b < 128; b++) m.C[b] = rnd() & 0x1fffff;
    int L = 128 / lw;
    if (style %% 3 == 1) { int a = rnd() %% L, c = (a + 1) %% L; for (int r = 0; r < lw; r++) m.C[c * lw + r] = m.C[a * lw + r]; }
    if (style %% 3 == 2) { int a = rnd() %% L, c = (a + 1) %% L; for (int r = 0; r < lw; r++) { uint64_t u = m.C[a * lw + r], z = 0; for (int e = 0; e < 21; e++) z |= (uint64_t)__builtin_parityll(u & ::apply(m.A, (uint64_t)1 << e)) << e; m.C[c * lw + r] = z; } }
    return m;
}
'''
def simd(d): return SIMD.replace("0x2000000000fULL & 0x3ffffff ? 0x200009ULL : 0","0x200005ULL").replace("x^21+x^3+1","x^21+x^2+1") % d
