// C07: whole-output characteristic polynomial and annihilation, sessions generated by TLC.
#include "samples/sfmtdc/w128.hpp"
#include "toy.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;

static Lin build(Rng& g, int kind, int n, int w, GF2X& f, GF2X& q) {
    Lin l; l.n = n;
    q = GF2X(0, 1);
    int d = kind == 0 ? n : g.in(1, n);
    do f = randIrred(g, d); while (IsZero(coeff(f, 0)));
    int left = n - d;
    std::vector<GF2X> parts;
    while (left > 0) {
        int s = g.in(1, left > 6 ? 6 : left);
        GF2X h; do h = randIrred(g, s); while (IsZero(coeff(h, 0)));
        if (kind == 3 && s == deg(f)) h = f;              // repeated factor
        parts.push_back(h); left -= s; q *= h;
    }
    if (kind == 4) { do { l.A = randMat(g, n); std::vector<BV> i; if (invert(l.A, i)) break; } while (1);
    } else if (kind == 2) {                               // derogatory: block diagonal of companions
        l.A = companion(f);
        for (size_t i = 0; i < parts.size(); i++) l.A = blockDiag(l.A, companion(parts[i]));
        l.A = conjugate(g, l.A);
    } else { GF2X p = f * q; l.A = conjugate(g, companion(p)); }
    int dens = g.below(3) == 0 ? 8 : 50;                  // sparse rows see only part of the state
    l.C.resize(w);
    for (int i = 0; i < w; i++) l.C[i] = g.below(4) == 0 ? BV() : randVec(g, n, dens);
    return l;
}
static BV apply(const Lin& l, const GF2X& p, const BV& s) {
    BV r, x = s;
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) r ^= x; x = mulv(l.A, x); }
    return r;
}
template<class U> static void session(Rng& g, const Beh& b, int kind, int n) {
    GF2X f, q;
    Lin l = build(g, kind, n, width<U>(), f, q);
    Toy<U> toy(single(l), (int)deg(f));
    lg->session((double)n * n * width<U>());
    Ev m("machine"); m.mat("A", l.A).mat("C", l.C); lg->put(m);
    GF2X full = f * q;
    auto place = [&](const BV& s) { toy.st = s; Ev e("place"); e.vec("s", s); lg->put(e); };
    place(randVec(g, n));
    for (size_t i = 0; i < b.size(); i++) {
        int a = b[i][2], c = b[i][3];
        switch (b[i][0]) {
        case 1: {
            BV s = randVec(g, n);
            if (a == 1) s = BV();
            if (a == 2) s = apply(l, f, s);
            if (a == 3) s = apply(l, q, s);
            place(s); break; }
        case 2:
            for (int k = 0; k < a; k++) { U w = toy.generate(); Ev e("gen"); e.word("w", w); lg->put(e); }
            break;
        case 3: {
            GF2X p;
            if (a == 0) p = full;
            if (a == 1) p = f;
            if (a == 2) p = q;
            if (a == 3) p = randPoly(g, c == 0 ? g.in(0, 3) : c == 1 ? n : 2 * n + g.below(9));
            if (a == 4 && c == 0) p = GF2X();
            if (a == 4 && c == 1) p = GF2X(0, 1);
            if (a == 4 && c == 2) p = GF2X(g.in(1, n), 1);
            if (a == 5) p = randPoly(g, g.in(60, 70));    // beyond a machine word
            if (a == 6) p = randPoly(g, g.in(1, 40));
            MTToolBox::annihilate<U>(&toy, p);
            Ev e("annih"); e.poly("p", p).vec("s", toy.st); lg->put(e);
            break; }
        case 4: {
            GF2X p(0, 1);
            if (a == 1) p = f;
            if (a == 2) p = q;
            BV keep = toy.st;
            if (kind == 4) p = GF2X(0, 1);
            if (kind == 2 && a == 2) p = GF2X(0, 1);      // q need not divide the minimal polynomial
            Ev e("chr"); e.poly("p0", p);
            MTToolBox::calcCharacteristicPolynomial<U>((MTToolBox::ReducibleGenerator<U> *)&toy, p);
            e.poly("p", p); lg->put(e);
            place(keep); break; }
        }
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        int kind = (int)(k / 4) % 5;
        switch (k % 4) {
        case 0: session<uint16_t>(g, bs[k], kind, g.in(1, 18)); break;
        case 1: session<uint32_t>(g, bs[k], kind, g.in(6, 36)); break;
        case 2: session<uint64_t>(g, bs[k], kind, g.in(3, 24)); break;
        default: session<MTToolBox::w128_t>(g, bs[k], kind, g.in(2, 12));
        }
    }
    return 0;
}
