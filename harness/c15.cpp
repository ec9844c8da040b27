// C15: the linearity tester on linear and deviating generators.
#include "samples/sfmtdc/w128.hpp"
#include "toy.hpp"
#include "shipped.hpp"
#include "samples/MTGPDC/MTGP32search.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include <MTToolBox/TestLinearity.hpp>
using namespace vf;
static Log *lg;

struct Deviation { int kind, at, bit, i, j; };       // 0 const, 1 and, 2 sticky
typedef std::vector<Deviation> Devs;
enum { XOR, OR, LEFT, SKIP0 };
static const char *kindName[] = {"const", "and", "sticky"};
static const char *joinName[] = {"xor", "or", "left", "skip0"};

template<class U> class Odd : public MTToolBox::EquidistributionCalculatable<U> {
public:
    Lin lin; Devs dev; int join;
    BV st; long n;
    bool rev;
    std::vector<BV> *seeded;
    Odd(const Lin& l, const Devs& d, int j) : lin(l), dev(d), join(j), n(0), rev(false), seeded(0) {}
    Odd(const Odd& o) : MTToolBox::AbstractGenerator<U>(), MTToolBox::EquidistributionCalculatable<U>(),
        lin(o.lin), dev(o.dev), join(o.join), st(o.st), n(o.n), rev(o.rev), seeded(o.seeded) {}
    U generate() {
        BV before = st;
        st = mulv(lin.A, st);
        u128 y = 0;
        for (size_t b = 0; b < lin.C.size(); b++) if (dot(lin.C[b], st)) y |= (u128)1 << b;
        for (size_t d = 0; d < dev.size(); d++) {
            const Deviation& x = dev[d];
            bool on = x.kind == 0 ? n == x.at : (x.kind == 1 ? n == x.at : n >= x.at) && st[x.i] && st[x.j];
            if (on) y ^= (u128)1 << x.bit;
        }
        n++;
        return wordOf<U>(y);
    }
    U generate(int len) {
        u128 y = bitsOf(generate());
        int w = width<U>();
        u128 full = w == 128 ? ~(u128)0 : (((u128)1 << w) - 1);
        return wordOf<U>(len >= w ? y : y & full & ~(full >> len));
    }
    void seed(U v) {
        Rng g((uint64_t)bitsOf(v) * UINT64_C(0x9E3779B97F4A7C15) + 1);
        do st = randVec(g, lin.n); while (st.none());
        n = 0;
        if (seeded) seeded->push_back(st);
    }
    int bitSize() const { return lin.n; }
    MTToolBox::EquidistributionCalculatable<U> *clone() const { return new Odd(*this); }
    void add(MTToolBox::EquidistributionCalculatable<U>& o) {
        Odd *t = dynamic_cast<Odd *>(&o);
        if (!t) throw std::invalid_argument("type");
        if (join == XOR) st ^= t->st;
        else if (join == OR) st |= t->st;
        else if (join == SKIP0) { BV x = t->st; x.reset(0); st ^= x; }
    }
    void setZero() { st.reset(); n = 0; }
    bool isZero() const { return st.none(); }
    const std::string getHeaderString() { return "odd"; }
    const std::string getParamString() { return "odd"; }
    void setUpParam(MTToolBox::ParameterGenerator&) {}
private:
    Odd& operator=(const Odd&);
};
template<class U> static void one(Rng& g, int n, const Devs& devs, int join) {
    Lin l = irredMachine(g, n, width<U>());
    if (g.below(3) == 0) { l.A = randMat(g, n); }
    Odd<U> o(l, devs, join);
    BV s = randVec(g, n);
    o.st = s; o.n = g.below(5);
    long n0 = o.n;
    std::vector<BV> seeded;
    o.seeded = &seeded;
    bool r = MTToolBox::TestLinearity<U>()(o);
    o.seeded = 0;
    lg->session(n * width<U>());
    std::ostringstream d; d << "[";
    for (size_t k = 0; k < devs.size(); k++) {
        if (k) d << ",";
        d << "{\"kind\":\"" << kindName[devs[k].kind] << "\",\"at\":" << devs[k].at << ",\"bit\":" << devs[k].bit << ",\"i\":" << devs[k].i << ",\"j\":" << devs[k].j << "}";
    }
    d << "]";
    Ev ge("given"); ge.mat("A", l.A).mat("C", l.C).vec("s", s).raw("dev", d.str()).str("join", joinName[join]); lg->put(ge);
    BV s1, s2;                                      // the two differently seeded states
    if (!seeded.empty()) s1 = s2 = seeded[0];
    for (size_t k = 0; k < seeded.size(); k++) if (seeded[k] != s1) { s2 = seeded[k]; break; }
    Ev e("test");
    e.b("r", r).vec("s1", s1).vec("s2", s2).vec("s", o.st).i("n", o.n).i("n0", n0);
    lg->put(e);
}
template<class U> static void width_(Rng& g, int every, int extra) {
    int w = width<U>();
    Devs none;
    for (int i = 0; i < 6; i++) one<U>(g, g.in(1, 14), none, XOR);
    for (int j = 1; j < 4; j++) for (int i = 0; i < 2; i++) one<U>(g, g.in(2, 10), none, j);
    for (int at = 0; at <= 101; at += every) {
        int n = g.in(2, 10);
        Deviation d = {g.below(3), at, g.below(w), g.below(n), g.below(n)};
        one<U>(g, n, Devs(1, d), XOR);
    }
    for (int bit = 0; bit < w; bit += extra) {      // every bit of some output
        Deviation d = {0, g.below(100), bit, 0, 0};
        one<U>(g, g.in(2, 6), Devs(1, d), XOR);
    }
    int edge[] = {0, 1, 98, 99, 100, 101};
    for (int i = 0; i < 6; i++) for (int k = 0; k < 3; k++) {
        int n = g.in(2, 8);
        int a = g.below(n);
        Deviation d = {k, edge[i], g.coin() ? 0 : w - 1, a, k == 2 && g.coin() ? a : g.below(n)};
        one<U>(g, n, Devs(1, d), XOR);
    }
    for (int i = 0; i < 6; i++) {                   // several at once, also cancelling ones
        int n = g.in(2, 8);
        Devs ds;
        for (int k = g.in(2, 4); k > 0; k--) { Deviation d = {g.below(3), g.below(104), g.below(w), g.below(n), g.below(n)}; ds.push_back(d); }
        if (g.coin()) ds.push_back(ds[0]);
        one<U>(g, n, ds, g.below(4) ? XOR : g.below(4));
    }
}
template<class U, class G> static void ship(G& t) {
    std::vector<u128> before = peek<U>(t, 20);
    bool r = MTToolBox::TestLinearity<U>()(t);
    std::vector<u128> after = peek<U>(t, 20);
    lg->session(10);
    Ev e("shipped"); e.b("r", r).words("before", before).words("after", after); lg->put(e);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    Quiet quiet;
    int reps = a.thorough ? 6 : 1;
    for (int r = 0; r < reps; r++) {
        width_<uint16_t>(g, 1, 1); width_<uint32_t>(g, 1, 1); width_<uint64_t>(g, a.thorough ? 1 : 3, 3); width_<MTToolBox::w128_t>(g, a.thorough ? 1 : 9, 5);
    }
    MTToolBox::MersenneTwister src((uint32_t)a.seed);
    MTToolBox::MersenneTwister64 src64(a.seed);
    { tinymt::tinymt32 t(3); t.setUpParam(src); t.seed(7); for (int i = 0; i < 3; i++) t.generate(); ship<uint32_t>(t); }
    { RMT64Search t(607, (uint64_t)5); t.setUpParam(src64); t.seed(9); t.generate(); ship<uint64_t>(t); }
    { MTToolBox::sfmt t(607); t.setUpParam(src); t.seed(wordOf<MTToolBox::w128_t>(5)); t.generate(); ship<MTToolBox::w128_t>(t); }
    { MTToolBox::dSFMT t(521); t.setUpParam(src64); t.seed(wordOf<MTToolBox::w128_t>(5)); t.generate(); ship<MTToolBox::w128_t>(t); }
    return 0;
}
