// C20: the shipped generators as linear objects.
#include <functional>
#include "samples/sfmtdc/w128.hpp"
#include "shipped.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "samples/MTGPDC/MTGP32search.hpp"
using namespace vf;
using namespace NTL;
typedef MTToolBox::w128_t w128;
static Log *lg;

// ---- what differs between the generators
template<class G> static auto rev_(G& g, bool r, int) -> decltype(g.setReverseOutput(), void()) { if (r) g.setReverseOutput(); else g.resetReverseOutput(); }
template<class G> static auto rev_(G& g, bool r, long) -> decltype(g.reset_reverse_bit(), void()) { if (r) g.set_reverse_bit(); else g.reset_reverse_bit(); }
template<class G> static void rev_(G&, bool, ...) {}
template<class G> static constexpr auto canRev(int) -> decltype(std::declval<G>().setReverseOutput(), true) { return true; }
template<class G> static constexpr auto canRev(long) -> decltype(std::declval<G>().reset_reverse_bit(), true) { return true; }
template<class G> static constexpr bool canRev(...) { return false; }
template<class G> static auto bit_(G& g, int b, int) -> decltype(g.setOneBit(b), bool()) { g.setOneBit(b); return true; }
template<class G> static bool bit_(G&, int, ...) { return false; }
template<class U> static U seedOf(Rng& g) { return wordOf<U>((u128)g.next() | ((u128)g.next() << 64)); }

template<class U, class G> struct World {
    typedef MTToolBox::EquidistributionCalculatable<U> Gen;
    std::function<G *()> fresh;
    Rng& g;
    int n, w, h;                       // dimension, word width, outputs that determine the state
    bool hasBits, strict;
    GF2X ann;                          // annihilates every state
    std::vector<std::unique_ptr<G> > o;
    std::vector<std::vector<u128> > base;
    std::vector<std::function<void(G&)> > starts;
    int len;
    World(std::function<G *()> f, Rng& r, int hh) : fresh(f), g(r), w(width<U>()), h(hh), strict(false), len(0) {
        std::unique_ptr<G> p(fresh()); n = p->bitSize(); hasBits = bit_(*p, 0, 0);
    }
    // minimal polynomial of the whole, and whether one output bit shows everything
    void analyse(bool poly) {
        if (!poly) return;
        ann = GF2X(0, 1);
        std::unique_ptr<G> p(fresh());
        p->seed(seedOf<U>(g));
        std::vector<u128> v = outputs<U>(*p, 2 * n);
        // a polynomial for every bit and every seed: least common multiple over bits and three seeds
        for (int s = 0; s < 3; s++) {
            p->seed(seedOf<U>(g));
            v = outputs<U>(*p, 2 * n);
            for (int b = 0; b < w && deg(ann) < n; b++) {
                Vec<GF2> q; q.SetLength(2 * n);
                for (int i = 0; i < 2 * n; i++) q[i] = (long)((v[i] >> b) & 1);
                GF2X m; MinPolySeq(m, q, n);
                if (deg(m) == n) strict = true;
                ann = ann * (m / GCD(ann, m));
            }
        }
        if (strict) strict = fullRank(v);
    }
    // h outputs determine the state: the windows of v span n dimensions
    bool fullRank(const std::vector<u128>& v) {
        std::vector<std::vector<uint64_t> > rows;
        int cols = (h * w + 63) / 64;
        for (int i = 0; i < n; i++) {
            std::vector<uint64_t> r(cols, 0);
            for (int k = 0; k < h; k++) for (int b = 0; b < w; b++) if ((v[i + k] >> b) & 1) r[(k * w + b) / 64] |= UINT64_C(1) << ((k * w + b) % 64);
            rows.push_back(r);
        }
        int rank = 0;
        for (int c = 0; c < h * w && rank < n; c++) {
            int p2 = -1;
            for (int r = rank; r < n; r++) if ((rows[r][c / 64] >> (c % 64)) & 1) { p2 = r; break; }
            if (p2 < 0) continue;
            std::swap(rows[p2], rows[rank]);
            for (int r = 0; r < n; r++) if (r != rank && ((rows[r][c / 64] >> (c % 64)) & 1)) for (int z = 0; z < cols; z++) rows[r][z] ^= rows[rank][z];
            rank++;
        }
        return rank == n;
    }
    void open(int length, bool tlcRank) {
        len = length;
        Ev m("machine"); m.i("w", w).b("strict", strict && !tlcRank).i("h", h); lg->put(m);
        starts.clear(); base.clear();
        for (int s = 0; s < 5; s++) {
            std::function<void(G&)> st;
            if (hasBits && s >= 3) { int b = s == 3 ? g.below(n) : n - 1 - g.below(8); st = [b](G& x) { bit_(x, b, 0); }; }
            else { U v = seedOf<U>(g); st = [v](G& x) { x.seed(v); }; }
            starts.push_back(st);
            std::unique_ptr<G> p(fresh());
            p->seed(seedOf<U>(g)); for (int k = g.below(5); k > 0; k--) p->generate();      // whatever it was before
            st(*p);
            base.push_back(outputs<U>(*p, len));
            Ev e("base"); e.words("outs", base.back()); lg->put(e);
        }
        if (strict && tlcRank && len >= n + h + 1)
            for (int b = 1; b <= 3; b++) if (fullRank(base[b - 1])) { Ev e("observable"); e.i("b", b).i("n", n); lg->put(e); break; }
        for (int k = 1; k <= 4; k++) { o.emplace_back(fresh()); start(k, k); }
    }
    G& at(int k) { return *o[k - 1]; }
    void start(int k, int b) { starts[b - 1](at(k)); Ev e("seed"); e.i("o", k).i("b", b); lg->put(e); }
    void gen(int k) { U x = at(k).generate(); Ev e("gen"); e.i("o", k).word("w", x); lg->put(e); }
    void zero(int k) { bool r = at(k).isZero(); Ev e("zero"); e.i("o", k).b("r", r); lg->put(e); }
    void add(int k, int p) { at(k).add(at(p)); Ev e("add"); e.i("o", k).i("p", p); lg->put(e); }
    void clone(int k, int p) {
        std::unique_ptr<Gen> c(at(k).clone());
        G *d = dynamic_cast<G *>(c.get());
        if (!d) throw std::logic_error("clone of another type");
        c.release(); o[p - 1].reset(d);
        Ev e("clone"); e.i("o", k).i("p", p); lg->put(e);
    }
    void clear(int k) { at(k).setZero(); Ev e("clear"); e.i("o", k); lg->put(e); }
    void read(int k, int bits) { U x = at(k).generate(bits); Ev e("read"); e.i("o", k).i("n", bits).word("w", x); lg->put(e); }
    void rev(int k, bool r) { if (!canRev<G>(0) || std::is_same<G, MTToolBox::dSFMT>::value) return; rev_(at(k), r, 0); Ev e("rev"); e.i("o", k).b("r", r); lg->put(e); }
    void combine(int k, int b, const GF2X& p) {
        std::unique_ptr<G> c(fresh());
        starts[b - 1](*c);
        at(k).setZero();
        for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) at(k).add(*c); c->generate(); }
        Ev e("combine"); e.i("o", k).i("b", b).poly("p", p); lg->put(e);
    }
    void replay(const Beh& b, int far) {
        for (size_t i = 0; i < b.size(); i++) {
            int k = b[i][1], a = b[i][2], c = b[i][3];
            switch (b[i][0]) {
            case 1: start(k, a); break;
            case 2: while (a--) gen(k); break;
            case 3: add(k, a); break;
            case 4: clone(k, a); break;
            case 5: clear(k); break;
            case 6: zero(k); break;
            case 7: { int ls[] = {w, 1, g.in(1, w), w - 1, g.in(1, w)}; read(k, ls[a]); break; }
            case 8: rev(k, a == 1); break;
            case 9:
                if (c == 1 && deg(ann) > 0 && deg(ann) <= far) { combine(k, a, ann); zero(k); }
                else if (c == 2 && deg(ann) > 0 && deg(ann) <= far) { combine(k, a, ann + GF2X(g.below((int)deg(ann)), 1)); zero(k); }
                else combine(k, a, randPoly(g, g.in(0, 6)));
                break;
            case 10: add(k, a); add(k, a); break;
            case 11: rev(k, true); clone(k, a); read(a, g.in(1, w)); rev(a, false); read(k, w); gen(a); break;
            }
        }
        for (int k = 1; k <= 4; k++) { gen(k); zero(k); }
    }
    void fate(G& x) {                  // what the zero test says, and what happens
        bool r = x.isZero();
        std::vector<u128> v = peek<U>(x, h);
        Ev e("fate"); e.b("r", r).words("outs", v); lg->put(e);
    }
    // sums of many objects whose futures vanish, or nearly vanish, found by elimination
    void hunt(int extra, double weight, bool late) {
        analyse(true);
        lg->session(weight);
        Ev m("machine"); m.i("w", w).b("strict", strict).i("h", h); lg->put(m);
        typedef std::vector<uint64_t> Row;
        int cols = (h * w + 63) / 64;
        std::vector<std::pair<Row, std::unique_ptr<G> > > rows;
        std::unique_ptr<G> walk(fresh());
        walk->seed(seedOf<U>(g));
        for (int i = 0; i < n + 2 * extra; i++) {
            std::unique_ptr<G> x(dynamic_cast<G *>(walk->clone()));
            if (i >= n) { x->seed(seedOf<U>(g)); if (i % 3 == 0) for (int k = g.below(4); k > 0; k--) x->generate(); }
            walk->generate();
            std::vector<u128> v = peek<U>(*x, h);
            Row r(cols, 0);
            for (int k = 0; k < h; k++) for (int b = 0; b < w; b++) if ((v[k] >> b) & 1) r[(k * w + b) / 64] |= UINT64_C(1) << ((k * w + b) % 64);
            rows.push_back(std::make_pair(r, std::move(x)));
        }
        size_t rank = 0;
        for (int cc = 0; cc < h * w && rank < rows.size(); cc++) {
            int c = late ? (h - 1 - cc / w) * w + cc % w : cc;       // late: what is left over shows in the first output only
            size_t p2 = rows.size();
            for (size_t r = rank; r < rows.size(); r++) if ((rows[r].first[c / 64] >> (c % 64)) & 1) { p2 = r; break; }
            if (p2 == rows.size()) continue;
            std::swap(rows[p2], rows[rank]);
            for (size_t r = rank + 1; r < rows.size(); r++) if ((rows[r].first[c / 64] >> (c % 64)) & 1) {
                for (int z = 0; z < cols; z++) rows[r].first[z] ^= rows[rank].first[z];
                rows[r].second->add(*rows[rank].second);
            }
            rank++;
        }
        for (size_t r = rank > 12 ? rank - 12 : 0; r < rows.size() && r < rank + 25; r++) {
            fate(*rows[r].second);
            rows[r].second->generate();
            fate(*rows[r].second);
        }
        if (hasBits) for (int b = 0; b < n; b++) { std::unique_ptr<G> x(fresh()); bit_(*x, b, 0); fate(*x); }
    }
    // every unit state once
    void basis(int outs) {
        lg->session((double)n * n * 8);
        Ev m("machine"); m.i("w", w).b("strict", false).i("h", 1); lg->put(m);
        Ev e("basis");
        std::ostringstream s; s << '[';
        std::unique_ptr<G> p(fresh());
        p->seed(seedOf<U>(g));
        for (int b = 0; b < n; b++) {
            bit_(*p, b, 0);
            std::vector<u128> v = outputs<U>(*p, outs);
            if (b) s << ',';
            s << '[';
            for (int k = 0; k < outs; k++) {
                if (k) s << ',';
                s << '['; bool f = true;
                for (int j = 0; j < w; j++) if ((v[k] >> j) & 1) { if (!f) s << ','; f = false; s << j; }
                s << ']';
            }
            s << ']';
        }
        s << ']';
        e.i("n", n).raw("units", s.str()); lg->put(e);
    }
};
template<class U, class G> static void history(Rng& g, const Beh& b, std::function<G *()> fresh, int h, bool poly, bool tlcRank, double weight) {
    World<U, G> x(fresh, g, h);
    x.analyse(poly);
    lg->session(weight);
    int far = (int)std::max<long>(deg(x.ann), 6);
    int steps = 120;
    x.open(std::max(far, tlcRank ? x.n : 0) + h + steps, tlcRank);
    x.replay(b, far);
}
typedef xs5::XorShift X5;
static tinymt::tinymt32 *makeTiny(uint64_t ps) {
    tinymt::tinymt32 *x = new tinymt::tinymt32((uint32_t)(ps >> 40)); MTToolBox::MersenneTwister mt((uint32_t)ps); x->setUpParam(mt);
    x->setTemperingPattern(0xffffffffu, (uint32_t)(ps >> 7), 0); x->setUpTempering(); return x; }
static mt2::MT32Search *makeMt(int m, uint64_t ps) {
    mt2::MT32Search *x = new mt2::MT32Search(m, -1, 1); MTToolBox::MersenneTwister mt((uint32_t)ps); x->setUpParam(mt);
    x->setTemperingPattern(0xffffffffu, (uint32_t)(ps >> 7), 0); x->setTemperingPattern(0xffffffffu, (uint32_t)(ps >> 9), 1); return x; }
static mtgp::mtgp32 *makeMtgp(int m, uint64_t ps) {
    mtgp::mtgp32 *x = new mtgp::mtgp32(m, 3); MTToolBox::MersenneTwister mt((uint32_t)ps); x->setUpParam(mt);
    for (int i = 0; i < 4; i++) x->setTemperingPattern(0xffffffffu, (uint32_t)(ps >> (3 * i + 5)), i);
    x->setUpTempering(); return x; }
static RMT64Search *makeRmt(int m, uint64_t ps) {
    RMT64Search *x = new RMT64Search(m, (uint64_t)5); MTToolBox::MersenneTwister64 mt(ps); x->setUpParam(mt);
    x->setTemperingPattern(~UINT64_C(0), ps, 0); x->setTemperingPattern(~UINT64_C(0), ps * 77, 1); return x; }
template<class G> static G *makeSimd(int m, uint64_t ps, int sm, int wm) {
    G *x = new G(m); MTToolBox::MersenneTwister64 mt(ps); x->setUpParam(mt); x->setStartMode(sm); x->setWeightMode(wm); x->seed(wordOf<w128>(9)); return x; }
template<class G> static G *makeX(uint64_t ps) { G *x = new G(1); MTToolBox::MersenneTwister mt((uint32_t)ps); x->setUpParam(mt); return x; }
static int off32(int m) { return m % 32 ? m : m + 1; }

template<class U, class G> static void hunted(Rng& g, std::function<G *()> f, int h, int extra, double weight, bool late = false) { World<U, G> x(f, g, h); x.hunt(extra, weight, late); }
template<class U, class G> static void basis(Rng& g, std::function<G *()> f, int outs) { World<U, G> x(f, g, 1); x.basis(outs); }
static void mt19937(Rng& g, uint64_t ps) {
    World<uint32_t, mt1::MT19937> x([=] { return makeX<mt1::MT19937>(ps); }, g, 624);
    std::unique_ptr<mt1::MT19937> p(x.fresh());
    uint32_t v = (uint32_t)g.next();
    p->seed(v);
    int n = p->bitSize();
    std::vector<u128> o = outputs<uint32_t>(*p, 2 * n);
    Vec<GF2> q; q.SetLength(2 * n);
    for (int i = 0; i < 2 * n; i++) q[i] = (long)(o[i] & 1);
    GF2X f; MinPolySeq(f, q, n);
    lg->session(40);
    Ev m("machine"); m.i("w", 32).b("strict", deg(f) == n).i("h", 624); lg->put(m);
    p->seed(v);
    mt1::MT19937 sum(*p), less(*p);
    sum.setZero(); less.setZero();
    for (long i = 0; i <= deg(f); i++) {
        if (IsOne(coeff(f, i))) sum.add(*p);
        if (i < deg(f) && IsOne(coeff(f, i))) less.add(*p);
        p->generate();
    }
    x.fate(sum); x.fate(less); sum.generate(); x.fate(sum);
    std::unique_ptr<mt1::MT19937> c(sum.clone());
    for (int i = 0; i < 700; i++) c->generate();
    x.fate(*c);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    Quiet quiet;
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
        const Beh& b = bs[k];
        uint64_t ps = g.next();
        switch (k % 12) {
        case 0: history<uint32_t, xs2::XorShift>(g, b, [] { return new xs2::XorShift(1); }, 4, true, k % 24 == 0, 1); break;
        case 1: history<uint32_t, X5>(g, b, [=] { return makeX<X5>(ps); }, 4, true, false, 1); break;
        case 2: history<uint32_t, tinymt::tinymt32>(g, b, [=] { return makeTiny(ps); }, 5, true, k % 24 == 2, 1); break;
        case 3: case 4: { int m = off32(k % 12 == 3 ? g.in(65, 95) : g.in(97, 160));
            history<uint32_t, mt2::MT32Search>(g, b, [=] { return makeMt(m, ps); }, m / 32 + 1, true, false, 2); break; }
        case 5: case 6: { int m = off32(g.in(257, 350)); history<uint32_t, mtgp::mtgp32>(g, b, [=] { return makeMtgp(m, ps); }, m / 32 + 1, true, false, 3); break; }
        case 7: case 8: { int m = 61 + 64 * g.below(4); history<uint64_t, RMT64Search>(g, b, [=] { return makeRmt(m, ps); }, m / 64 + 2, true, false, 3); break; }
        case 9: { int m = g.in(256, 400), sm = g.below(4), wm = g.in(1, 4);
            history<w128, MTToolBox::sfmt>(g, b, [=] { return makeSimd<MTToolBox::sfmt>(m, ps, sm, wm); }, m / 128 + 3, true, false, 6); break; }
        case 10: { int m = g.in(336, 450), sm = g.below(2), wm = g.in(1, 2);
            history<w128, MTToolBox::dSFMT>(g, b, [=] { return makeSimd<MTToolBox::dSFMT>(m, ps, sm, wm); }, 12, true, false, 6); break; }
        default:
            if (k % 36 == 11) history<uint32_t, xs3::XorShift>(g, b, [] { return new xs3::XorShift(1); }, 4, true, false, 1);
            else if (k % 36 == 23) history<uint32_t, xs4::XorShift>(g, b, [] { return new xs4::XorShift(1); }, 4, true, false, 1);
            else history<uint32_t, mt1::MT19937>(g, b, [=] { return makeX<mt1::MT19937>(ps); }, 624, false, false, 8);
        }
    }
    int many = a.thorough ? 8 : 2;
    for (int i = 0; i < many; i++) {
        uint64_t ps = g.next();
        hunted<uint32_t, X5>(g, [=] { return makeX<X5>(ps); }, 5, 10, 1);
        hunted<uint32_t, tinymt::tinymt32>(g, [=] { return makeTiny(ps); }, 6, 20, 1);
        for (int j = 0; j < 2; j++) { int m = off32(g.in(65, 200)); hunted<uint32_t, mt2::MT32Search>(g, [=] { return makeMt(m, ps + j); }, m / 32 + 2, 20, 1); }
        for (int j = 0; j < 2; j++) { int m = off32(g.in(257, 350)); hunted<uint32_t, mtgp::mtgp32>(g, [=] { return makeMtgp(m, ps + j); }, m / 32 + 2, 20, 1); }
        { int m = 61 + 64 * g.below(4); hunted<uint64_t, RMT64Search>(g, [=] { return makeRmt(m, ps); }, m / 64 + 2, 10, 2); }
        for (int sm = 0; sm < 4; sm++) { int m = g.in(256, 400), wm = 1 + (int)((ps >> 9) + sm) % 4; hunted<w128, MTToolBox::sfmt>(g, [=] { return makeSimd<MTToolBox::sfmt>(m, ps, sm, wm); }, m / 128 + 3, 150, 6, i % 2); }
        for (int sm = 0; sm < 4; sm++) { int m = g.in(336, 450), wm = 1 + sm / 2; hunted<w128, MTToolBox::dSFMT>(g, [=] { return makeSimd<MTToolBox::dSFMT>(m, ps, sm % 2, wm); }, 12, 80, 6, i % 2); }
        mt19937(g, ps);
    }
    { uint64_t ps = g.next(); basis<uint64_t, RMT64Search>(g, [=] { return makeRmt(61 + 64 * 2, ps); }, 5);
      basis<w128, MTToolBox::sfmt>(g, [=] { return makeSimd<MTToolBox::sfmt>(257, ps, 0, 4); }, 4); }
    return 0;
}
