// C10: equidistribution of the maximal-period part of a reducible generator.
#include "samples/sfmtdc/w128.hpp"
#include "toy.hpp"
#include "shipped.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;

static BV apply(const Lin& l, const GF2X& p, const BV& s) {
    BV r, x = s;
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) r ^= x; x = mulv(l.A, x); }
    return r;
}
template<class U, class G> static void ask(Rng& g, G& gen, const GF2X& f, int v, int d, Ev& e) {
    std::vector<int> ks(v);
    int s, s1, kv;
    { MTToolBox::AlgorithmReducibleEquidistribution<U, G> q(gen, f, v, d); s = q.get_all_equidist(&ks[0]); }
    { MTToolBox::AlgorithmReducibleEquidistribution<U, G> q(gen, f, v, d); kv = q.get_equidist(&s1); }
    e.poly("f", f).i("w", width<U>()).i("v", v).i("d", d).ints("ks", ks).i("sum", s).i("kv", kv).i("sumv", s1);
}
template<class U> static void toyCase(Rng& g, int n, int m, int style) {
    int w = width<U>();
    Lin l; l.n = n;
    GF2X f, q(0, 1);
    do f = randIrred(g, m); while (IsZero(coeff(f, 0)));
    while (deg(q) < n - m) {
        int s = g.in(1, std::min<int>(6, n - m - (int)deg(q)));
        GF2X h = s == 1 ? polyOf(style == 3 && g.coin() ? 2 : 3) : randIrred(g, s);
        if (h == f) { if (s == 1) continue; else continue; }
        q *= h;
    }
    if (style == 1 && n > m) l.A = conjugate(g, blockDiag(companion(f), companion(q)));
    else { GF2X p = f * q; l.A = conjugate(g, companion(p)); }
    l.C = randRows(g, w, n);
    if (style == 2) for (int i = 0; i < w; i++) if (g.below(3)) l.C[i] = randVec(g, n, 6);
    if (style == 4) for (int i = 0; i < w; i++) if (g.below(3) == 0) l.C[i] = l.C[w - 1];
    Toy<U> toy(single(l), m);
    BV s;
    for (int tries = 0; ; tries++) {              // the factor must show in some output bit
        s = randVec(g, n);
        if (g.below(4) == 0) s = apply(l, q, s);
        BV part = apply(l, q, s);
        bool vis = false;
        for (int i = 0; i < w && !vis; i++) { BV x = part; for (int k = 0; k < m && !vis; k++) { x = mulv(l.A, x); vis = dot(l.C[i], x); } }
        if (vis) break;
        if (tries > 50) return;
    }
    lg->session((double)n * n * w + 300);
    Ev mc("machine"); mc.mat("A", l.A).mat("C", l.C); lg->put(mc);
    toy.st = s; Ev pl("place"); pl.vec("s", s); lg->put(pl);
    for (int r = 0; r < 2; r++) {
        Ev e("part");
        ask<U>(g, toy, f, g.below(4) ? w : g.in(1, w), g.below(4) ? m : m + g.in(1, 9), e);
        e.vec("s", toy.st); lg->put(e);
        for (int k = g.below(3); k > 0; k--) { U o = toy.generate(); Ev x("gen"); x.word("w", o); lg->put(x); }
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    int reps = a.thorough ? 8 : 2;
    for (int r = 0; r < reps; r++)
        for (int style = 0; style < 5; style++) {
            for (int i = 0; i < 10; i++) { int n = g.in(2, 26), m = g.in(2, n); toyCase<uint16_t>(g, n, m, style); }
            for (int i = 0; i < 8; i++) { int n = g.in(4, 36), m = g.in(n / 2, n); toyCase<uint32_t>(g, n, m, style); }
            for (int i = 0; i < 4; i++) { int n = g.in(4, 30), m = g.in(n / 2, n); toyCase<uint64_t>(g, n, m, style); }
            for (int i = 0; i < 2; i++) { int n = g.in(3, 20), m = g.in(n / 2, n); toyCase<MTToolBox::w128_t>(g, n, m, style); }
        }
    Quiet quiet;                              // a small shipped generator
    int mexps[] = {89, 107};
    for (int i = 0; i < (a.thorough ? 2 : 1); i++) {
        int m = mexps[i];
        RMT64Search t(m, (uint64_t)5);
        MTToolBox::MersenneTwister64 src(a.seed + 3);
        GF2X p, f;
        int tries = 0;
        for (; tries < 20000; tries++) {
            t.setUpParam(src); t.seed(1);
            f = p = polyOfBit<uint64_t>(t, t.bitSize());
            if (deg(p) < m) continue;
            vec_pair_GF2X_long fs;
            CanZass(fs, p);
            bool ok = false;
            for (long k = 0; k < fs.length(); k++) if (deg(fs[k].a) == m && fs[k].b == 1) { f = fs[k].a; ok = true; }
            if (ok) break;
        }
        if (tries == 20000) continue;
        t.setTemperingPattern(~UINT64_C(0), src.getUint64(), 0);
        t.setTemperingPattern(~UINT64_C(0), src.getUint64(), 1);
        lg->session(3e6);
        Ev e("partshipped");
        e.words("outs", peek<uint64_t>(t, 3 * t.bitSize()));
        ask<uint64_t>(g, t, f, 64, m, e);
        e.words("after", outputs<uint64_t>(t, 3 * t.bitSize()));
        lg->put(e);
    }
    return 0;
}
