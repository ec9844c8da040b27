// C26: the shipped generators, replaying sessions generated from the specification.
#include <functional>
#include "samples/sfmtdc/w128.hpp"
#include "shipped.hpp"
#define main shipped_main
namespace xs1 {
#include "samples/XORSHIFT/xorshift-1.cpp"
}
#undef main
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "samples/MTGPDC/MTGP32search.hpp"
using namespace vf;
typedef MTToolBox::w128_t w128;
static Log *lg;
// systematic values: the number of the parameter set, or -1 for random ones
static int sweep = -1;
static std::vector<uint64_t> forced;

// a source that hands out chosen values and remembers them
struct Source : public MTToolBox::ParameterGenerator {
    Rng& g; int cls; std::vector<u128> given; int bytes;
    Source(Rng& r, int c, int b) : g(r), cls(c), bytes(b) {}
    uint64_t value() {
        if (given.size() < forced.size()) return forced[given.size()];
        switch (cls) {
        case 0: return given.size();
        case 1: return ~UINT64_C(0) - (uint64_t)g.below(3);
        case 2: return UINT64_C(1) << g.below(64) | (UINT64_C(1) << g.below(64));
        default: return g.next();
        }
    }
    uint32_t getUint32() { uint32_t v = (uint32_t)value(); if (cls == 2 && !v) v = 1u << g.below(32); given.push_back(v); bytes = 4; return v; }
    uint64_t getUint64() { uint64_t v = value(); given.push_back(v); bytes = 8; return v; }
    void seed(uint64_t) {}
};
// the numbers of a printed line; hexadecimal from field `hex` on, fields in quotes and type names skipped
static std::vector<u128> fields(const std::string& line, size_t hex) {
    std::vector<u128> r;
    std::istringstream ss(line);
    std::string f;
    while (std::getline(ss, f, ',')) {
        while (!f.empty() && isspace((unsigned char)f[0])) f.erase(0, 1);
        if (f.empty() || f[0] == '"' || f[0] == 'u') continue;
        char *end;
        unsigned long long v = strtoull(f.c_str(), &end, r.size() >= hex ? 16 : 10);
        if (*end) { r.push_back(((u128)1 << 127) | 1); continue; }      // not a number
        r.push_back(v);
    }
    return r;
}
template<class U> struct Kind {
    typedef MTToolBox::AbstractGenerator<U> Abs;
    std::string k;
    size_t hex;                                      // the first hexadecimal field of the parameter string
    int vbytes, temper, certs;                       // bytes of a seed, tempering words, certification words
    std::vector<int> mexps;
    uint32_t idMax;
    std::function<Abs *(int mexp, uint32_t id)> fresh;                    // parameters drawn later
    std::function<Abs *(Rng&, int cls, int mexp, std::vector<int>&, std::vector<u128>&, std::vector<u128>&)> make;
    std::function<void(Abs&, MTToolBox::ParameterGenerator&)> setup;
    std::function<void(Abs&, U mask, U pat, int)> pattern;
    std::function<void(Abs&, uint64_t)> prefix;
    std::function<void(Abs&, int, U)> certify;
    std::function<void(Abs&, bool, int)> fix;        // a shift amount that is not drawn
    std::function<std::string(Abs&)> said;
    std::function<Abs *(Abs&)> copy;
    Kind() : hex(99), vbytes((int)sizeof(U)), temper(0), certs(0), idMax(0) { mexps.push_back(0); }
};
template<class U> static U rnd(Rng& g, int cls) {
    u128 v = (u128)g.next() | ((u128)g.next() << 64);
    if (cls == 0) v = 0;
    if (cls == 1) v = ~(u128)0;
    if (cls == 2) v = (u128)1 << g.below(width<U>());
    return wordOf<U>(v);
}
template<class U> static void replay(const Kind<U>& K, const Beh& b, Rng& g, double weight) {
    typedef MTToolBox::AbstractGenerator<U> Abs;
    lg->session(weight);
    { Ev e("reset"); lg->put(e); }
    std::unique_ptr<Abs> o[4];
    bool ready[4] = {false, false, false, false}, seeded[4] = {false, false, false, false};
    int budget = 60;
    auto setup = [&](int k, int cls) {
        if (!K.setup) return;
        if (K.fix && g.below(3) == 0) {
            int on = g.below(2), v = g.in(1, 51);
            K.fix(*o[k], on != 0, v);
            Ev e("fix"); e.i("id", k).i("on", on).i("v", v); lg->put(e);
        }
        Source s(g, cls, 4);
        K.setup(*o[k], s);
        ready[k] = true; seeded[k] = false;
        Ev e("setup"); e.i("id", k).bytesList("raw", s.given, s.bytes); lg->put(e);
    };
    auto make = [&](int k, int cls) {
        if (!K.make) return;
        int mexp = K.mexps[g.below((int)K.mexps.size())];
        std::vector<int> i; std::vector<u128> w, t;
        uint32_t id = 0;
        Abs *p = K.make(g, cls, mexp, i, w, t);
        if (K.k == "mt2" || K.k == "mtgp" || K.k == "tiny") { id = (uint32_t)i.back(); i.pop_back(); }
        o[k].reset(p); ready[k] = true; seeded[k] = false;
        Ev e("make"); e.i("id", k).str("k", K.k).i("mexp", mexp).bits("idn", id).ints("i", i).words("w", w).words("t", t); lg->put(e);
    };
    auto fresh = [&](int k, int cls) {
        if (!K.fresh) { make(k, cls); return; }
        int mexp = K.mexps[g.below((int)K.mexps.size())];
        uint32_t id = cls == 0 ? 0 : cls == 1 ? K.idMax : (uint32_t)(g.next() & K.idMax);
        o[k].reset(K.fresh(mexp, id)); ready[k] = false; seeded[k] = false;
        Ev e("new"); e.i("id", k).str("k", K.k).i("mexp", mexp).bits("idn", id); lg->put(e);
        setup(k, g.in(0, 3) | cls);
    };
    auto seed = [&](int k, int cls) {
        if (K.prefix && g.coin()) {
            uint64_t p = g.coin() ? UINT64_C(0x3ff) << 52 : 0;
            K.prefix(*o[k], p);
            Ev e("prefix"); e.i("id", k).bits("p", (u128)p | ((u128)p << 64)); lg->put(e);
        }
        U v = rnd<U>(g, cls);
        o[k]->seed(v);
        seeded[k] = true;
        Ev e("seed"); e.i("id", k).bytes("v", bitsOf(v), K.vbytes); lg->put(e);
    };
    auto gen = [&](int k, int n) {
        std::vector<u128> w;
        while (n--) w.push_back(bitsOf(o[k]->generate()));
        Ev e("gen"); e.i("id", k).words("ws", w); lg->put(e);
    };
    auto say = [&](int k) {
        if (!K.said) return;
        Ev e("said"); e.i("id", k).words("f", fields(K.said(*o[k]), K.hex)); lg->put(e);
    };
    for (size_t j = 0; j < b.size(); j++) {
        int k = b[j][1], a = b[j][2], c = b[j][3];
        if (!o[k] && b[j][0] > 2) { if (k % 2) fresh(k, g.below(4)); else make(k, g.below(4)); if (!o[k]) fresh(k, 3); }
        switch (b[j][0]) {
        case 1: fresh(k, a); break;
        case 2: make(k, a); break;
        case 3: if (ready[k]) seed(k, a); break;
        case 4: if (ready[k]) { if (!seeded[k]) seed(k, 3); if (budget > 0) { budget -= a; gen(k, a); } } break;
        case 5: if (K.pattern && ready[k]) {
            int src = a % K.temper;
            U m = rnd<U>(g, c), p = rnd<U>(g, 3);
            K.pattern(*o[k], m, p, src);
            Ev e("pattern"); e.i("id", k).word("mask", m).word("pat", p).i("src", src); lg->put(e); }
            break;
        case 6: if (K.copy) { o[a].reset(K.copy(*o[k])); ready[a] = ready[k]; seeded[a] = seeded[k]; Ev e("copy"); e.i("id", k).i("to", a); lg->put(e); } break;
        case 7: if (ready[k]) say(k); break;
        case 8: if (K.certs && ready[k]) {
            int q = g.in(1, K.certs);
            U v = rnd<U>(g, 3);
            K.certify(*o[k], q, v);
            seeded[k] = false;
            Ev e("certify"); e.i("id", k).i("j", q).word("x", v); lg->put(e); }
            break;
        case 9: setup(k, a); break;
        }
    }
    for (int k = 1; k <= 3; k++) if (o[k] && ready[k]) { seed(k, 3); gen(k, 2); say(k); }
}
// one parameter set of a systematic list: either made (values from `sweep`) or drawn (values from `forced`)
template<class U> static void one(const Kind<U>& K, Rng& g, bool drawn, int words, double weight) {
    Beh b;
    b.push_back({drawn ? 1 : 2, 1, 3, 0}); b.push_back({7, 1, 0, 0}); b.push_back({3, 1, 3, 0}); b.push_back({4, 1, words, 0});
    std::vector<int> m = K.mexps;
    Kind<U> k1 = K; k1.mexps = {m[0]};
    replay<U>(k1, b, g, weight);
}
template<class U> static MTToolBox::EquidistributionCalculatable<U>& eq(MTToolBox::AbstractGenerator<U>& a) { return dynamic_cast<MTToolBox::EquidistributionCalculatable<U>&>(a); }
template<class U> static MTToolBox::AbstractGenerator<U> *cloned(MTToolBox::AbstractGenerator<U>& a) { return eq<U>(a).clone(); }

int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed * 26 + 1);
    std::vector<Beh> bs = behaviours(a.script);
    typedef MTToolBox::AbstractGenerator<uint32_t> A32;
    typedef MTToolBox::AbstractGenerator<uint64_t> A64;
    typedef MTToolBox::AbstractGenerator<w128> A128;
    std::vector<Kind<uint32_t> > k32;
    auto generic = [](Kind<uint32_t>& k) {
        k.copy = [](A32& x) { return cloned<uint32_t>(x); };
        k.setup = [](A32& x, MTToolBox::ParameterGenerator& s) { eq<uint32_t>(x).setUpParam(s); };
        k.said = [](A32& x) { return eq<uint32_t>(x).getParamString(); };
    };
    auto temper = [](Kind<uint32_t>& k, int n) {
        k.temper = n;
        k.pattern = [](A32& x, uint32_t m, uint32_t p, int s) {
            MTToolBox::TemperingCalculatable<uint32_t>& t = dynamic_cast<MTToolBox::TemperingCalculatable<uint32_t>&>(x);
            t.setTemperingPattern(m, p, s); t.setUpTempering(); };
    };
    { Kind<uint32_t> k; k.k = "tiny"; k.hex = 1; k.idMax = 0xffffffffu; generic(k); temper(k, 1);
      k.fresh = [](int, uint32_t id) { return new tinymt::tinymt32(id); };
      k.make = [](Rng& r, int c, int, std::vector<int>& i, std::vector<u128>& w, std::vector<u128>& t) {
          tinymt::tinymt32_param p; p.id = r.below(1000); p.mat1 = rnd<uint32_t>(r, c); p.mat2 = rnd<uint32_t>(r, 3); p.tmat = rnd<uint32_t>(r, r.below(4));
          i = {(int)p.id}; w = {p.mat1, p.mat2}; t = {p.tmat};
          return new tinymt::tinymt32(p); };
      k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "mt2"; k.hex = 3; k.idMax = 0xffff; k.mexps = {521, 607, 1279}; generic(k); temper(k, 2);
      k.fresh = [](int m, uint32_t id) { return new mt2::MT32Search(m, (int)id, 1); };
      k.make = [](Rng& r, int c, int m, std::vector<int>& i, std::vector<u128>& w, std::vector<u128>& t) {
          int pos = sweep >= 0 ? 1 + sweep : r.in(1, m / 32), id = r.below(65536);
          uint32_t ma = rnd<uint32_t>(r, c), mb = rnd<uint32_t>(r, 3), mc = rnd<uint32_t>(r, r.below(4));
          i = {m, pos, id}; w = {ma}; t = {mb, mc};
          return new mt2::MT32Search(m, id, pos, ma, mb, mc, 1); };
      k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "mtgp"; k.hex = 5; k.idMax = 0xffffffffu; k.mexps = {607, 1279, 3217, 4423}; generic(k); temper(k, 4);
      k.fresh = [](int m, uint32_t id) { return new mtgp::mtgp32(m, id); };
      k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "xs1"; k.make = [](Rng&, int, int, std::vector<int>&, std::vector<u128>&, std::vector<u128>&) { return new xs1::XorShift(1); }; k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "xs2"; generic(k); k.setup = nullptr; k.said = nullptr;
      k.make = [](Rng&, int, int, std::vector<int>&, std::vector<u128>&, std::vector<u128>&) { return new xs2::XorShift(1); }; k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "xs3"; generic(k); k.fresh = [](int, uint32_t) { return new xs3::XorShift(1); }; k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "xs4"; generic(k); k.fresh = [](int, uint32_t) { return new xs4::XorShift(1); }; k32.push_back(k); }
    { Kind<uint32_t> k; k.k = "xs5"; generic(k); k.setup = nullptr; k.said = nullptr;
      k.make = [](Rng&, int, int, std::vector<int>&, std::vector<u128>&, std::vector<u128>&) { return new xs5::XorShift(1); }; k32.push_back(k); }
    Kind<uint32_t> big; big.k = "mt1"; generic(big); big.setup = nullptr; big.said = nullptr;
    big.make = [](Rng&, int, int, std::vector<int>&, std::vector<u128>&, std::vector<u128>&) { return new mt1::MT19937(1); };

    Kind<uint64_t> rmt; rmt.k = "rmt"; rmt.hex = 2; rmt.mexps = {521, 607, 1279}; rmt.temper = 2; rmt.certs = 1;
    rmt.copy = [](A64& x) { return cloned<uint64_t>(x); };
    rmt.setup = [](A64& x, MTToolBox::ParameterGenerator& s) { eq<uint64_t>(x).setUpParam(s); };
    rmt.said = [](A64& x) { return eq<uint64_t>(x).getParamString(); };
    rmt.fresh = [](int m, uint32_t) { return new RMT64Search(m, 1); };
    rmt.pattern = [](A64& x, uint64_t m, uint64_t p, int s) { RMT64Search& r = dynamic_cast<RMT64Search&>(x); r.setTemperingPattern(m, p, s); r.setUpTempering(); };
    rmt.certify = [](A64& x, int, uint64_t v) { dynamic_cast<RMT64Search&>(x).setParityValue(v); };
    rmt.make = [](Rng& r, int c, int m, std::vector<int>& i, std::vector<u128>& w, std::vector<u128>& t) {
        int pos = sweep >= 0 ? sweep : r.below(m / 64 + 1);
        uint64_t ma = rnd<uint64_t>(r, c), mb = rnd<uint64_t>(r, 3), mc = rnd<uint64_t>(r, r.below(4));
        i = {m, pos}; w = {ma}; t = {mb, mc};
        return new RMT64Search(m, pos, ma, mb, mc, 1); };

    Kind<w128> sf; sf.k = "sfmt"; sf.hex = 6; sf.mexps = {607, 1279, 2281}; sf.certs = 1;
    sf.copy = [](A128& x) { return cloned<w128>(x); };
    sf.setup = [](A128& x, MTToolBox::ParameterGenerator& s) { eq<w128>(x).setUpParam(s); };
    sf.said = [](A128& x) { return eq<w128>(x).getParamString(); };
    sf.fresh = [](int m, uint32_t) { return new MTToolBox::sfmt(m); };
    sf.certify = [](A128& x, int, w128 v) { dynamic_cast<MTToolBox::sfmt&>(x).setParityValue(v); };
    sf.make = [](Rng& r, int c, int m, std::vector<int>& i, std::vector<u128>& w, std::vector<u128>&) {
        MTToolBox::sfmt_param p; p.mexp = m; p.pos1 = r.in(1, m / 128 - 1); p.sl1 = r.in(1, 31); p.sl2 = r.in(1, 7); p.sr1 = r.in(1, 31); p.sr2 = r.in(1, 7);
        if (sweep >= 0) { const int edge[7] = {1, 31, 16, 2, 30, 8, 24}; p.sl2 = sweep + 1; p.sr2 = sweep * 3 % 7 + 1; p.sl1 = edge[sweep]; p.sr1 = edge[(sweep * 2 + 1) % 7]; p.pos1 = 1 + sweep % 3; }
        w128 k = rnd<w128>(r, c); p.msk1 = k.u[0]; p.msk2 = k.u[1]; p.msk3 = k.u[2]; p.msk4 = k.u[3];
        i = {m, p.pos1, p.sl1, p.sl2, p.sr1, p.sr2}; w = {bitsOf(k)};
        return new MTToolBox::sfmt(p); };

    Kind<w128> ds; ds.k = "dsfmt"; ds.hex = 3; ds.mexps = {521, 1279, 2203}; ds.certs = 2;
    ds.copy = sf.copy; ds.setup = sf.setup; ds.said = sf.said;
    ds.fresh = [](int m, uint32_t) { return new MTToolBox::dSFMT(m); };
    ds.prefix = [](A128& x, uint64_t p) { dynamic_cast<MTToolBox::dSFMT&>(x).setPrefix(p); };
    ds.fix = [](A128& x, bool on, int v) { MTToolBox::dSFMT& d = dynamic_cast<MTToolBox::dSFMT&>(x); d.setFixed(on); d.setFixedSL1(v); };
    ds.certify = [](A128& x, int q, w128 v) { MTToolBox::dSFMT& d = dynamic_cast<MTToolBox::dSFMT&>(x); if (q == 1) d.setFixPoint(v); else d.setParityValue(v); };
    ds.make = [](Rng& r, int c, int m, std::vector<int>& i, std::vector<u128>& w, std::vector<u128>&) {
        MTToolBox::dSFMT_param p; p.mexp = m; p.pos1 = r.in(1, (m - 128) / 104 - 1); p.sl1 = r.in(1, 51);
        if (sweep >= 0) { const int edge[7] = {1, 2, 31, 32, 33, 50, 51}; p.sl1 = edge[sweep]; }
        w128 k = rnd<w128>(r, c); p.msk1 = k.u64[0] & UINT64_C(0xfffffffffffff); p.msk2 = k.u64[1] & UINT64_C(0xfffffffffffff);
        i = {m, p.pos1, p.sl1}; w = {(u128)p.msk1 | ((u128)p.msk2 << 64)};
        return new MTToolBox::dSFMT(p); };

    size_t n = k32.size() + 3;
    for (size_t j = 0; j < bs.size(); j++) {
        size_t q = j % n;
        if (q < k32.size()) replay<uint32_t>(k32[q], bs[j], g, q < 3 ? 2 : 1);
        else if (q == n - 3) replay<uint64_t>(rmt, bs[j], g, 3);
        else replay<w128>(q == n - 2 ? sf : ds, bs[j], g, 4);
    }
    // every byte shift of SFMT, the extreme shifts of dSFMT, every position of RMT and MT, every pattern of xorshift
    for (sweep = 0; sweep < 7; sweep++) { one<w128>(sf, g, false, 7, 2); one<w128>(ds, g, false, 7, 2); }
    for (sweep = 0; sweep < 9; sweep++) one<uint64_t>(rmt, g, false, 11, 1);
    for (sweep = 0; sweep < 16; sweep += a.thorough ? 1 : 5) one<uint32_t>(k32[1], g, false, 18, 1);
    sweep = -1;
    for (int v = 0; v < 32; v++) { forced = {(uint64_t)v | ((v * 7 + 3) % 32) << 5 | ((v * 11 + 5) % 32) << 10}; one<uint32_t>(k32[5], g, true, 6, 0.2); }
    for (int v = 0; v < 32; v++) { forced = {(uint64_t)(v % 8) << 15 | ((v * 7 + 3) % 32) << 5 | ((v * 11 + 5) % 32) << 10 | ((v * 13 + v / 8) % 32)}; one<uint32_t>(k32[6], g, true, 6, 0.2); }
    // table entries of MTGP equal to their selector bit; the extreme positions
    for (int v = 0; v < 8; v++) { forced = {(uint64_t)v}; for (int q = 0; q < 4; q++) forced.push_back((g.next() & ~UINT64_C(15)) | (v % 2 ? 1u << q : 1u << ((q + v / 2) % 4))); one<uint32_t>(k32[2], g, true, 23, 1); }
    forced.clear();
    for (size_t j = 0; j < (a.thorough ? 6 : 1) && j < bs.size(); j++) replay<uint32_t>(big, bs[j], g, 8);
    return 0;
}
