// C21 / C22: 128-bit words measured as streams of 32/64-bit integers (SFMT) or 52-bit fractions (dSFMT).
#include <cmath>
#include "common.hpp"
#ifdef DSFMT
#include "samples/dSFMTdc/w128.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
typedef MTToolBox::dSFMT Shipped;
static const int OWN = 64;
#else
#include "samples/sfmtdc/w128.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp"
typedef MTToolBox::sfmt Shipped;
static const int OWN = 32;
#endif
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/period.hpp>
using namespace vf;
using namespace NTL;
typedef MTToolBox::w128_t w128;
static Log *lg;
static const int G = 128 / OWN;

struct Mach { int n; std::vector<BV> A, C; };
// a user's generator: words from any linear machine, with the start and weight modes
class Simd {
public:
    std::shared_ptr<Mach> m; BV st; int sm, wm; w128 prev;
    Simd(std::shared_ptr<Mach> x) : m(x), sm(0), wm(G) { prev = wordOf<w128>(0); }
    u128 out(const BV& s) const { u128 y = 0; for (int b = 0; b < 128; b++) if (dot(m->C[b], s)) y |= (u128)1 << b; return y; }
    w128 generate() {
        u128 last = out(st);
        st = mulv(m->A, st);
        u128 now = out(st), r = sm == 0 ? now : (last >> (sm * OWN)) | (now << ((G - sm) * OWN));
        u128 keep = wm >= G ? 0 : ~(u128)0 << (wm * OWN);
        u128 y = (r & ~keep) | (bitsOf(prev) & keep);
        prev = wordOf<w128>(r);
        return wordOf<w128>(y);
    }
    void add(const Simd& o) { st ^= o.st; prev = wordOf<w128>(bitsOf(prev) ^ bitsOf(o.prev)); }
    void setZero() { st.reset(); prev = wordOf<w128>(0); }
    bool isZero() const { return st.none() && (wm >= G || (bitsOf(prev) >> (wm * OWN)) == 0); }
    int bitSize() const { return m->n; }
    void setStartMode(int x) { sm = x; }
    void setWeightMode(int x) { wm = x; prev = wordOf<w128>(0); }
    const std::string getParamString() const { return "simd"; }
};
static void mul(std::vector<BV>& r, const std::vector<BV>& A) { for (size_t i = 0; i < r.size(); i++) { BV x; for (size_t j = 0; j < A.size(); j++) if (r[i][j]) x ^= A[j]; r[i] = x; } }
static std::shared_ptr<Mach> toy(Rng& g, int n, const GF2X& f, int style) {
    std::shared_ptr<Mach> m(new Mach);
    m->n = n; m->A = companion(f);
    if (g.coin()) m->A = conjugate(g, m->A);
    m->C.resize(128);
    for (int b = 0; b < 128; b++) m->C[b] = randVec(g, n, style == 1 ? 15 : 50);
    std::vector<BV> v(m->C);
    int L = G, lw = OWN;
    if (style == 2) {                 // a lane repeats another one some words later
        int a = g.below(L), b = (a + g.in(1, L - 1)) % L, k = g.below(3);
        for (int i = 0; i < k; i++) mul(v, m->A);
        for (int r = 0; r < lw; r++) if (g.below(8)) m->C[b * lw + r] = v[a * lw + r];
    } else if (style == 3) {          // a shift register: every integer shows consecutive terms of one sequence
        BV u = randVec(g, n);
        std::vector<BV> x(1, u);
        int step = g.in(1, lw < 64 ? 9 : 20);
        for (int i = 0; i < 128; i++) {
            int l = i / lw, r = lw - 1 - i % lw;
            std::vector<BV> y(1, u);
            int t = l * step + r;
            for (int k = 0; k < t; k++) mul(y, m->A);
            m->C[i] = y[0];
        }
    } else if (style == 4) {          // few leading bits are good
        for (int b = 0; b < 128; b++) if (g.below(3)) m->C[b] = m->C[g.below(128)];
        if (g.coin()) { int l = g.below(L); for (int r = 0; r < lw; r++) if (g.coin()) m->C[l * lw + r].reset(); }
    } else if (style == 5) {          // one lane only
        int l = g.below(L);
        for (int b = 0; b < 128; b++) if (b / lw != l) m->C[b].reset();
    }
    return m;
}
template<class X> static std::vector<u128> outsOf(const X& g, int n) {
    X c(g);
    c.setStartMode(0); c.setWeightMode(G);
    std::vector<u128> v;
    for (int i = 0; i < n; i++) v.push_back(bitsOf(c.generate()));
    return v;
}
struct Cfg { int L, stride, top, vmax; bool lsb; };
template<class X> static void run(Rng& g, const Beh& b, X& x, int d, const GF2X& f, const Cfg& c) {
    lg->session((double)d * d * c.vmax * c.L);
    int horizon = d + d / c.L + 4 + 70;
    std::vector<u128> o = outsOf(x, horizon);
    x.setStartMode(0); x.setWeightMode(G);
    { Ev e("stream"); e.i("own", OWN).i("lanes", c.L).i("stride", c.stride).i("top", c.top).b("lsb", c.lsb).i("vmax", c.vmax).i("d", d).i("sm", 0).i("wm", G).poly("f", f).words("outs", o); lg->put(e); }
    auto gen = [&] { w128 w = x.generate(); Ev e("gen"); e.word("w", w); lg->put(e); };
    gen();
    int per = c.stride / OWN;         // own lanes per measured lane
    std::vector<int> veq(c.vmax + 4);
#ifdef DSFMT
    MTToolBox::DSFMTInfo info; info.bitSize = 128; info.elementNo = 2;
#else
    MTToolBox::SIMDInfo info; info.bitSize = 128; info.bitMode = c.stride; info.elementNo = c.L;
#endif
    int left = 60;
    for (size_t i = 0; i < b.size(); i++) {
        int a = b[i][2], bb = b[i][3];
        switch (b[i][0]) {
        case 1: while (a-- > 0 && left-- > 0) gen(); break;
        case 2: { int sm = a % G, wm = (bb - 1) % G + 1; x.setStartMode(sm); x.setWeightMode(wm); Ev e("modes"); e.i("sm", sm).i("wm", wm); lg->put(e); break; }
        case 3: {
            int sm = (a % c.L), wm = (bb - 1) % c.L + 1, cl = b[i][1];
            int v = cl == 0 ? 1 : cl == 1 ? g.in(1, c.vmax) : cl == 2 ? std::min(c.vmax, g.in(1, 1 + d / c.L)) : std::min(c.vmax, 2);
            X work(x);
            work.setStartMode(sm * per); work.setWeightMode(wm * per); work.generate();
#ifdef DSFMT
            MTToolBox::AlgorithmDSFMTEquidistribution<w128, X> q(work, v, info, x.bitSize());
#else
            MTToolBox::AlgorithmSIMDEquidistribution<w128, X> q(work, v, info, x.bitSize(), c.lsb);
#endif
            int n = q.get_equidist(v);
            Ev e("blocks"); e.i("v", v).i("s", sm + wm).i("n", n); lg->put(e);
            break; }
        case 4: {
            int len = a == 0 ? c.vmax : g.in(1, c.vmax), mexp = d;
#ifdef DSFMT
            int sum = MTToolBox::calc_dSFMT_equidistribution<w128, X>(x, veq.data(), len, info, mexp);
#else
            int sum = MTToolBox::calc_SIMD_equidistribution<w128, X>(x, veq.data(), len, info, mexp, c.lsb);
#endif
            std::vector<int> ks(veq.begin(), veq.begin() + len);
            Ev e("measure"); e.i("vmax", len).i("mexp", mexp).ints("ks", ks).i("sum", sum); lg->put(e);
            gen(); left--;
            break; }
        }
    }
    gen();
}
static Cfg config(Rng& g) {
    Cfg c;
#ifdef DSFMT
    c.L = 2; c.stride = 64; c.top = 51; c.lsb = false; c.vmax = g.coin() ? 52 : g.in(1, 52);
#else
    c.stride = g.coin() ? 32 : 64; c.L = 128 / c.stride; c.top = c.stride - 1; c.lsb = g.below(3) == 0; c.vmax = g.coin() ? c.stride : g.in(1, c.stride);
#endif
    return c;
}
// a parameter set, and the part of its states that belongs to a simple irreducible factor of moderate degree
static void shipped(Rng& g, const Beh& b, int lo, int hi) {
    for (int tries = 0; tries < 400; tries++) {
#ifdef DSFMT
        int m = g.in(336, 500);
#else
        int m = g.in(256, 500);
#endif
        Shipped x(m);
        MTToolBox::MersenneTwister64 mt(g.next());
        x.setUpParam(mt);
        x.seed(wordOf<w128>((u128)g.next() | ((u128)g.next() << 64)));
        for (int i = 0; i < 5; i++) x.generate();
        int n = x.bitSize();
        std::vector<u128> o = outsOf(x, 2 * n + 8);
        GF2X p(0, 1);
        for (int bit = 0; bit < 128 && deg(p) < n; bit += 5) {
            Vec<GF2> q; q.SetLength(2 * n);
            for (int i = 0; i < 2 * n; i++) q[i] = (long)((o[i] >> bit) & 1);
            GF2X r; MinPolySeq(r, q, n);
            p = p * (r / GCD(p, r));
        }
        vec_pair_GF2X_long fs;
        CanZass(fs, p);
        GF2X f;
        for (long k = 0; k < fs.length(); k++) if (fs[k].b == 1 && deg(fs[k].a) >= lo && deg(fs[k].a) <= hi && deg(fs[k].a) > deg(f)) f = fs[k].a;
        if (deg(f) < lo || IsZero(coeff(f, 0))) continue;
        // q(A) x, with everything but f removed
        GF2X q = p / f;
        Shipped y(x); y.setZero();
        { Shipped w(x); for (long i = 0; i <= deg(q); i++) { if (IsOne(coeff(q, i))) y.add(w); w.generate(); } }
        for (int i = 0; i < 3; i++) y.generate();
        o = outsOf(y, (int)deg(f) * 3);
        bool ok = false, none = true;
        for (size_t i = 0; i < o.size(); i++) if (o[i]) none = false;
        if (none) continue;
        ok = true;
        for (size_t t = 0; ok && t + deg(f) < o.size(); t++) { u128 s = 0; for (long i = 0; i <= deg(f); i++) if (IsOne(coeff(f, i))) s ^= o[t + i]; if (s) ok = false; }
        if (!ok) continue;            // bits outside the sampled ones show more: not the component
        run<Shipped>(g, b, y, (int)deg(f), f, config(g));
        return;
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    Quiet quiet;
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        if (k % 5 == 4) { shipped(g, bs[k], 12, a.thorough ? 60 : 40); continue; }
        int n = k % 7 == 0 ? g.in(2, 9) : k % 11 == 1 ? g.in(a.thorough ? 60 : 40, a.thorough ? 90 : 56) : g.in(10, 36);
        GF2X f; do f = randIrred(g, n); while (IsZero(coeff(f, 0)));
        Simd x(toy(g, n, f, g.below(6)));
        do x.st = randVec(g, n); while (x.st.none());
        std::vector<u128> o = outsOf(x, 2 * n + 4);
        bool none = true;
        for (size_t i = 0; i < o.size(); i++) if (o[i]) none = false;
        if (none) continue;
        run<Simd>(g, bs[k], x, n, f, config(g));
    }
    return 0;
}
