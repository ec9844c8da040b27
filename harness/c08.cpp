// C08: dimension of equidistribution.  C09 (HISTORIES): queries do not disturb anything.
#include "samples/sfmtdc/w128.hpp"
#include "toy.hpp"
#include "shipped.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
using namespace vf;
using namespace NTL;
using MTToolBox::AlgorithmEquidistribution;
static Log *lg;

template<class U> struct Session {
    Toy<U> toy;
    std::map<int, std::unique_ptr<AlgorithmEquidistribution<U> > > q;
    std::map<int, int> acc;
    Session(const Lin& l) : toy(single(l)) {
        Ev m("machine"); m.mat("A", l.A).mat("C", l.C); lg->put(m);
    }
    void place(const BV& s) { toy.st = s; Ev e("place"); e.vec("s", s); lg->put(e); }
    void gen(int k) { while (k--) { U w = toy.generate(); Ev e("gen"); e.word("w", w); lg->put(e); } }
    void open(int id, int v, int d) {
        Ev e("open"); e.i("q", id).i("v", v).i("d", d ? d : toy.bitSize()); lg->put(e);
        q[id].reset(new AlgorithmEquidistribution<U>(toy, v, d));
        acc[id] = v;
    }
    void answer(int id, bool one) {
        if (one) {
            int s = -1, k = q[id]->get_equidist(&s);
            Ev e("one"); e.i("q", id).i("kv", k).i("sum", s); lg->put(e);
        } else {
            std::vector<int> ks(acc[id] + 1, -7);
            int s = q[id]->get_all_equidist(&ks[0]);
            if (ks[acc[id]] != -7) throw std::logic_error("wrote beyond the array");
            ks.pop_back();
            Ev e("all"); e.i("q", id).ints("ks", ks).i("sum", s); lg->put(e);
        }
        q[id].reset();
    }
};
static Lin machine(Rng& g, int n, int w, int style) {
    Lin l = irredMachine(g, n, w);
    if (style == 1) for (int i = 0; i < w; i++) if (g.below(3) == 0) l.C[i] = BV();        // blind bits
    if (style == 2) for (int i = 1; i < w; i++) if (g.below(3) == 0) l.C[i] = l.C[g.below(i)];  // repeated bits
    if (style == 3) {                                     // shift-register like: strongly dependent
        BV r = randVec(g, n); l.C.resize(w);
        for (int i = w - 1; i >= 0; i--) { l.C[i] = r; BV x; for (int j = 0; j < n; j++) if (r[j]) x ^= l.A[j]; r = x; }
    }
    if (style == 4) for (int i = 0; i < w; i++) l.C[i] = randVec(g, n, 12);
    if (style == 5) {                                     // good at the top, poor below
        for (int i = 0; i < w - n / 2; i++) l.C[i] = i % 2 ? l.C[w - 1] : BV();
    }
    return l;
}
static BV nonzero(Rng& g, int n) { BV s; do s = randVec(g, n); while (s.none()); return s; }

template<class U> static void one(Rng& g, int n, int v, int style) {
    lg->session((double)n * n * v + 200);
    Session<U> s(machine(g, n, width<U>(), style));
    s.place(nonzero(g, n));
    int d = g.below(5) == 0 ? n + g.in(1, 20) : g.below(3) == 0 ? n : 0;
    s.open(1, v, d); s.answer(1, false);
    s.open(2, v, d); s.answer(2, true);
    s.gen(1);
}
template<class U> static void history(Rng& g, const Beh& b, int n, int style) {
    int w = width<U>();
    lg->session((double)n * n * w * 4 + 200);
    Session<U> s(machine(g, n, w, style));
    s.place(nonzero(g, n));
    for (size_t i = 0; i < b.size(); i++) {
        int a = b[i][2], c = b[i][3];
        if (b[i][0] == 1) s.place(nonzero(g, n));
        if (b[i][0] == 2) s.gen(a);
        if (b[i][0] == 3) { int vs[] = {w, 1, g.in(2, w), n < w ? n : w, w - 1};
            s.open(c, vs[a], g.below(4) == 0 ? n + g.in(0, 9) : 0); }
        if (b[i][0] == 4) { s.answer(c, a == 1); s.gen(1); }
    }
}
template<class U> static void shipped(Rng& g, MTToolBox::EquidistributionCalculatable<U>& gen, int n) {
    int w = width<U>();
    lg->session((double)n * n * w * 6);
    for (int k = g.below(20); k > 0; k--) gen.generate();
    Ev e("shipped");
    e.i("n", n).i("w", w).words("outs", peek(gen, 2 * n));
    std::vector<int> ks(w);
    int sum;
    { AlgorithmEquidistribution<U> q(gen, w); sum = q.get_all_equidist(&ks[0]); }
    int v = g.in(1, w), s1, kv;
    { AlgorithmEquidistribution<U> q(gen, v, n); kv = q.get_equidist(&s1); }
    e.ints("ks", ks).i("sum", sum).i("v", v).i("kv", kv).i("sumv", s1).words("after", outputs(gen, 2 * n));
    lg->put(e);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
#ifdef HISTORIES
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        int style = (int)(k / 4) % 6;
        switch (k % 4) {
        case 0: history<uint16_t>(g, bs[k], g.in(1, 24), style); break;
        case 1: history<uint32_t>(g, bs[k], g.in(2, 22), style); break;
        case 2: history<uint64_t>(g, bs[k], g.in(2, 16), style); break;
        default: history<MTToolBox::w128_t>(g, bs[k], g.in(2, 10), style);
        }
    }
#else
    // small machines at every width and accuracy
    int reps = a.thorough ? 10 : 3;
    for (int r = 0; r < reps; r++)
        for (int style = 0; style < 6; style++) {
            for (int n = 1; n <= 20; n++) one<uint16_t>(g, n, n % 3 ? 16 : g.in(1, 16), style);
            for (int i = 0; i < 14; i++) one<uint32_t>(g, g.in(1, 40), i % 4 ? 32 : g.in(1, 32), style);
            for (int i = 0; i < 7; i++) one<uint64_t>(g, g.in(2, 34), i % 4 ? 64 : g.in(1, 64), style);
            for (int i = 0; i < 3; i++) one<MTToolBox::w128_t>(g, g.in(2, 20), i % 3 ? 128 : g.in(1, 128), style);
            for (int i = 0; i < 2; i++) one<uint16_t>(g, g.in(40, 120), 16, style);
        }
    // shipped generators
    { Quiet quiet;
        tinymt::tinymt32 t(1); MTToolBox::MersenneTwister src((uint32_t)a.seed + 7);
        do { t.setUpParam(src); t.seed(1); } while (!IterIrredTest(polyOfBit<uint32_t>(t, 127)) || deg(polyOfBit<uint32_t>(t, 127)) != 127);
        t.setTemperingPattern(~0U, src.getUint32() & 0xfffffe00U, 0);
        shipped<uint32_t>(g, t, 127);
        xs2::XorShift x2(5); shipped<uint32_t>(g, x2, 128);
        if (a.thorough) { xs5::XorShift x5(9); shipped<uint32_t>(g, x5, 128); }
        mt2::MT32Search m(89, 3, 1);
        do { m.setUpParam(src); m.seed(1); } while (deg(polyOfBit<uint32_t>(m, 89)) != 89 || !IterIrredTest(polyOfBit<uint32_t>(m, 89)));
        m.setTemperingPattern(~0U, src.getUint32(), 0); m.setTemperingPattern(~0U, src.getUint32(), 1);
        shipped<uint32_t>(g, m, 89);
    }
#endif
    return 0;
}
