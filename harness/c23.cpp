// C23: the period certification of the shipped SIMD generators, with the vectors (and, for dSFMT,
// the fixed point) that the shipped programs' functions compute.
#include "common.hpp"
#ifdef DSFMT
#include "samples/dSFMTdc/w128.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "samples/dSFMTdc/Annihilate.h"
#include "samples/dSFMTdc/calc_fixpoint.h"
#include "samples/dSFMTdc/calc_parity.h"
typedef MTToolBox::dSFMT Shipped;
typedef MTToolBox::dSFMT_param Param;
static const int PER = 104, EXTRA = 128;
#else
#include "samples/sfmtdc/w128.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/sfmtdc/Annihilate.h"
#include "samples/sfmtdc/calc_parity.h"
typedef MTToolBox::sfmt Shipped;
typedef MTToolBox::sfmt_param Param;
static const int PER = 128, EXTRA = 0;
#endif
#include <MTToolBox/AlgorithmCalculateParity.hpp>
using namespace vf;
using namespace NTL;
typedef MTToolBox::w128_t w128;
static Log *lg;

static std::vector<u128> outs(const Shipped& s, int k) {
    Shipped x(s);
    std::vector<u128> r;
    for (int i = 0; i < k; i++) r.push_back(bitsOf(x.generate()));
    return r;
}
static std::vector<std::string> fields(const std::string& s) {
    std::vector<std::string> r; std::string x; std::istringstream i(s);
    while (std::getline(i, x, ',')) r.push_back(x);
    return r;
}
static u128 hexAt(const std::string& s, int k) { return (u128)strtoull(fields(s)[k].c_str(), 0, 16); }
static u128 installed(Shipped& t) {
    std::string h = t.getHeaderString(), s = t.getParamString();
    std::vector<std::string> hs = fields(h);
    int at = 0;
    for (size_t i = 0; i < hs.size(); i++) if (hs[i].find("parity1") != std::string::npos) at = (int)i;
    u128 r = 0;
#ifdef DSFMT
    for (int i = 0; i < 2; i++) r |= hexAt(s, at + i) << (64 * i);
#else
    for (int i = 0; i < 4; i++) r |= hexAt(s, at + i) << (32 * i);
#endif
    return r;
}
static GF2X bitPoly(const std::vector<u128>& o, int bit, int n) {
    Vec<GF2> q; q.SetLength(2 * n);
    for (int i = 0; i < 2 * n; i++) q[i] = (long)((o[i] >> bit) & 1);
    GF2X r; MinPolySeq(r, q, n); return r;
}
static Param randomParam(Rng& g, int size) {
    Param p;
    p.pos1 = size == 2 ? 1 : g.in(1, size - 2);
#ifdef DSFMT
    p.sl1 = g.in(1, 51);
    p.msk1 = (g.next() | g.next()) & UINT64_C(0x000fffffffffffff);
    p.msk2 = (g.next() | g.next()) & UINT64_C(0x000fffffffffffff);
#else
    p.sl1 = g.in(1, 31); p.sr1 = g.in(1, 31); p.sl2 = 2 * g.below(4) + 1; p.sr2 = 2 * g.below(4) + 1;
    p.msk1 = (uint32_t)(g.next() | g.next()); p.msk2 = (uint32_t)(g.next() | g.next());
    p.msk3 = (uint32_t)(g.next() | g.next()); p.msk4 = (uint32_t)(g.next() | g.next());
#endif
    return p;
}
static int bitsFor(int size) { return size * PER + EXTRA; }
static Shipped apply(const Shipped& s, const GF2X& p) {      // p(A) s for a linear state
    Shipped x(s), y(s); y.setZero();
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) y.add((MTToolBox::EquidistributionCalculatable<w128>&)x); x.generate(); }
    return y;
}
static void plus(Shipped& a, Shipped b) { a.add((MTToolBox::EquidistributionCalculatable<w128>&)b); }
static int certify(Shipped& s, bool noFix) {
#ifdef DSFMT
    return noFix ? s.periodCertification(true) : s.periodCertification();
#else
    (void)noFix; return s.periodCertification();
#endif
}
// one run on state s; steps: how many steps since its slots were aligned
static void runOn(const Shipped& s0, const Shipped& plain, const GF2X& f, int n, int size, int steps, bool affine, u128 v) {
    Shipped s(s0);
    int m = 2 * size + 3;
    std::vector<u128> before = outs(s, m);
    u128 word = bitsOf(s.getParityValue());
    int ret = certify(s, !affine);
    u128 word2 = bitsOf(s.getParityValue());
    std::vector<u128> after = outs(s, m);
    bool aligned = EXTRA > 0 || steps % size == 0;
    // the unit state that explains the difference
    int k = -1; std::vector<u128> unit;
    if (ret == 0) for (int c = 0; c < 128 && k < 0; c++) if ((v >> c) & 1) {
        for (int slot = 0; slot < 2 && k < 0; slot++) {
            Shipped u(plain);
            u.setOneBit(EXTRA > 0 ? size * PER + c : PER * (slot == 0 ? (size - steps % size) % size : 0) + c);
            std::vector<u128> d = outs(u, m);
            bool same = true;
            for (int i = 0; i < m; i++) if ((before[i] ^ after[i]) != d[i]) same = false;
            if (same) { k = c; unit = d; }
        }
    }
    Shipped s2(s);
    int ret2 = certify(s2, !affine);
    std::vector<u128> after2 = outs(s2, m);
    std::vector<u128> o = outs(s, 2 * n + 4);
    int bit = 0;
    for (int b = 0; b < 128; b++) { GF2X mp = bitPoly(o, b, n + 1); if (deg(mp) >= deg(f) && divide(mp, f)) { bit = b; break; } }
    std::vector<int> seq;
    for (int i = 0; i < 2 * n + 2; i++) seq.push_back((int)((o[i] >> bit) & 1));
    if (unit.empty()) unit.resize(m);
    Ev e("run");
    e.bits("word", word).i("ret", ret).bits("word2", word2).i("k", k).i("ret2", ret2).b("aligned", aligned);
    e.words("before", before).words("after", after).words("after2", after2).words("unit", unit).ints("seq", seq).b("affine", affine);
    lg->put(e);
}
static GF2X wordPoly(const std::vector<u128>& o, int n) {
    GF2X p(0, 1);
    for (int b = 0; b < 128 && deg(p) < n; b++) { GF2X q = bitPoly(o, b, n); p = p * (q / GCD(p, q)); }
    return p;
}
static void without(Shipped s, int n, bool affine) {
    GF2X g = wordPoly(outs(s, 2 * n), n);
    std::vector<u128> o = outs(s, n + deg(g) + 1);
    int ret = certify(s, !affine);
    Ev e("without");
    e.i("n", n).poly("g", g).i("ret", ret).words("words", o); lg->put(e);
}
static GF2X minimal(const Shipped& t, Rng& g, int n) {        // of the whole transition, most likely
    GF2X p(0, 1);
    for (int r = 0; r < 2; r++) {
        Shipped x(t); x.seed(wordOf<w128>((u128)g.next() | (u128)g.next() << 64));
        x.generate();
        Shipped y(x); std::vector<u128> o, l;
        for (int i = 0; i < 2 * n; i++) { o.push_back(bitsOf(y.generate())); l.push_back(bitsOf(y.getParityValue())); }
        for (int b = 0; b < 128 && deg(p) < n; b += (r ? 11 : 7)) {
            GF2X q = bitPoly(o, b, n); p = p * (q / GCD(p, q));
            if (EXTRA) { q = bitPoly(l, b, n); p = p * (q / GCD(p, q)); }
        }
    }
    return p;
}
static BV bvOf(u128 w) { BV r; for (int b = 0; b < 128; b++) if ((w >> b) & 1) r.set(b); return r; }
static u128 wOf(const BV& v) { u128 r = 0; for (int b = 0; b < 128; b++) if (v[b]) r |= (u128)1 << b; return r; }
// words spanning the certified words of the states without a large component
static std::vector<u128> kernelWords(const Shipped& t, const GF2X& f, int n) {
    std::vector<u128> basis, words;
    for (int i = 0; i < n; i++) {
        Shipped x(t); x.setOneBit(i);
        u128 w = bitsOf(apply(x, f).getParityValue()), r = w;
        for (size_t k = 0; k < basis.size(); k++) { u128 low = basis[k] & (~basis[k] + 1); if (r & low) r ^= basis[k]; }
        if (r) { basis.push_back(r); words.push_back(w); }
    }
    return words;
}
// a vector orthogonal to the words with support in s, if there is one
static u128 orthogonal(Rng& g, const std::vector<u128>& words, const std::vector<int>& s) {
    Mat<GF2> m, k;
    m.SetDims((long)s.size(), (long)words.size());
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < words.size(); j++) m[i][j] = (long)((words[j] >> s[i]) & 1);
    kernel(k, m);
    if (k.NumRows() == 0) return 0;
    for (int t = 0; t < 20; t++) {
        u128 v = 0;
        for (long r = 0; r < k.NumRows(); r++) if (g.coin() || k.NumRows() == 1) for (size_t i = 0; i < s.size(); i++) if (IsOne(k[r][i])) v ^= (u128)1 << s[i];
        if (v) return v;
    }
    return 0;
}
static bool paramSet(Rng& g, int size, int runs, bool wantOnlyFull, int maxq = 1000) {
    int n = bitsFor(size), lo = n - PER + 1;
    for (int tries = 0; tries < 3000; tries++) {
        Param par = randomParam(g, size);
#ifdef DSFMT
        par.mexp = n - PER;           // size * 104 + 24 .. + 127 have this many words
        par.mexp = size * 104 + 24;
#else
        par.mexp = size * 128 - 1;
#endif
        GF2X p, f;
        { Shipped t(par); if (t.bitSize() != n) continue; p = minimal(t, g, n); }
        bool full = deg(p) == n;
        if (wantOnlyFull && !full) continue;
        vec_pair_GF2X_long fs; CanZass(fs, p);
        for (long k = 0; k < fs.length(); k++) if (fs[k].b == 1 && deg(fs[k].a) > deg(f)) f = fs[k].a;
        int d = (int)deg(f);
        int dlo = EXTRA ? size * 104 + 24 : (size - 1) * 128;
        if (d < std::max(lo, dlo) || d > n || n - d > maxq) continue;
        par.mexp = d;
        Shipped t(par);
        if (t.bitSize() != n) continue;
        if (IsZero(coeff(p, 0))) continue;         // two words only: the recursion may lose information
        u128 v = 0; bool thrown = false;
        Shipped subject(t);
        subject.seed(wordOf<w128>((u128)g.next()));
#ifdef DSFMT
        u128 fixed = 0; GF2X lcm;
        { Shipped w(t); w.seed(wordOf<w128>((u128)g.next() + 1)); std::vector<u128> o = outs(w, 2 * n); lcm = bitPoly(o, 0, n); if (!divide(lcm, f)) continue; }
        { Shipped w(t); w.seed(wordOf<w128>((u128)g.next() + 1)); w.generate(); getLCMPoly(lcm, w); }
        if (!divide(lcm, f)) continue;
        GF2X quotient = lcm / f;
        if (divide(quotient, f)) continue;
        { w128 fx = calc_fixpoint(subject, f, quotient); fixed = bitsOf(fx); subject.setFixPoint(fx); }
#endif
        try {
            if (g.coin()) v = bitsOf(calc_parity(subject, f));
            else { MTToolBox::AlgorithmCalculateParity<w128, Shipped> c; v = bitsOf(c.searchParity(subject, f)); }
        } catch (...) { thrown = true; }
        if (thrown) continue;         // no vector: C14 decides whether that is right
        lg->session(4e6 + runs * 1e6);
        { Ev e("system"); e.i("d", d).i("n", n).poly("f", f).bits("v", v).bits("installed", installed(subject)); lg->put(e); }
        // linear states
        for (int r = 0; r < runs; r++) {
            Shipped s(subject);
            s.seed(wordOf<w128>((u128)g.next() | (u128)g.next() << 64));
            int steps = r % 3 == 0 ? 0 : g.below(3 * size);
            if (r % 4 == 3) s.setZero();
            for (int i = 0; i < steps; i++) s.generate();
            if (r % 4 == 1 || r % 4 == 3) {        // only bits of the certified word, all in the vector or out of it
                Shipped u(subject); int c; do c = g.below(128); while (((v >> c) & 1) != (u128)g.coin());
                u.setOneBit(EXTRA ? size * PER + c : c);
                plus(s, u);
            }
            runOn(s, t, f, n, size, steps, false, v);
        }
        for (int r = 0; r < runs; r++) {           // nothing of the large component, from a seeded or one-bit state
            Shipped x(subject);
            if (r % 2) x.seed(wordOf<w128>((u128)g.next() | (u128)g.next() << 64)); else x.setOneBit(g.below(n));
            Shipped s = apply(x, f);
            int steps = r % 3 ? g.below(2 * size) : 0;
            for (int i = 0; i < steps; i++) s.generate();
            without(s, n, false);
            Shipped c(s);
            runOn(c, t, f, n, size, steps, false, v);
        }
#ifdef DSFMT
        // x = (t + 1)^-1 mod f, 0 mod the quotient
        GF2X dd, a, b, one(0, 1), t1; SetCoeff(t1, 0); SetCoeff(t1, 1);
        Shipped con(subject); con.setConst();
        std::vector<u128> lw;
        { Shipped w(con); for (int i = 0; i < 2 * n; i++) { lw.push_back(bitsOf(w.getParityValue())); w.generate(); } }
        GF2X q = wordPoly(lw, n); if (divide(q, f)) q = q / f;
        { GF2X r = p / f; q = q * (r / GCD(q, r)); }
        XGCD(dd, a, b, f, q);  GF2X pi = (b * q) % (f * q);
        GF2X inv = InvMod(t1 % f, f);
        GF2X h = (pi * inv) % (f * q);
        while ((int)lw.size() > n + 1) lw.pop_back();
        { Ev e("fix"); e.poly("f", f).poly("q", q).poly("h", h).words("words", lw).bits("fix", fixed).b("full", deg(lcm) == n); lg->put(e); }
        Shipped fixState = apply(con, h);
        const uint64_t high = UINT64_C(0x3ff0000000000000);
        for (int r = 0; r < 2 * runs; r++) {
            uint64_t a0 = g.next(), a1 = g.next();
            Shipped s(subject); s.setPrefix(high); s.seed(wordOf<w128>((u128)a0 | (u128)a1 << 64));
            Shipped z(subject); z.setPrefix(0); z.seed(wordOf<w128>((u128)a0 | (u128)a1 << 64));     // the same without the prefix
            if (r % 2) {                            // take its large component away: what is left is the fixed point's
                plus(s, apply(z, pi)); plus(s, fixState);
                int steps = r % 3 ? g.below(2 * size) : 0;
                for (int i = 0; i < steps; i++) s.generate();
                without(s, n + 1, true);
                runOn(s, t, f, n + 1, size, steps, true, v);
            } else {
                int steps = r % 3 ? g.below(2 * size) : 0;
                for (int i = 0; i < steps; i++) s.generate();
                runOn(s, t, f, n + 1, size, steps, true, v);
            }
        }
#endif
        // other vectors that certify, among them ones with few and high bits
        std::vector<u128> kw = kernelWords(subject, f, n);
        for (int r = 0; r < (maxq < 4 ? 10 : maxq < 1000 ? 6 : 2); r++) {
            std::vector<int> sup;
            int lane = g.below(4), need = (int)kw.size() + 1;
            if (need <= 4 && r % 2) { for (int i = 1; i < 5; i++) sup.push_back(32 * i - 1); if (r == 3 || r == 7) sup = std::vector<int>(1, 32 * lane + (g.coin() ? 31 : g.below(32))); if (r == 5 || r == 9) sup = std::vector<int>(1, 31 + 32 * g.below(4)); }
            else if (r % 2 == 0 && need <= 32) for (int i = 31; i > 31 - std::max(need, g.below(33)); i--) sup.push_back(32 * lane + i);
            else if (r % 4 == 1 && need <= 64) for (int i = 63; i >= 64 - std::max(need, g.below(65)); i--) sup.push_back(64 * (lane & 1) + i);
            else { std::set<int> u; if (g.coin()) for (int i = 1; i < 5; i++) u.insert(32 * i - 1); while ((int)u.size() < need) u.insert(g.below(128)); sup.assign(u.begin(), u.end()); }
            u128 v2 = orthogonal(g, kw, sup);
            if (!v2) continue;
            Shipped c(subject); c.setParityValue(wordOf<w128>(v2));
            { Ev e("vector"); e.bits("v", v2).bits("installed", installed(c)).words("words", kw); lg->put(e); }
            for (int k = 0; k < 3; k++) {
                Shipped s(c); s.seed(wordOf<w128>((u128)g.next() | (u128)g.next() << 64));
                bool bare = k != 1;
                Shipped w = bare ? apply(s, f) : s;
                int steps = k == 2 ? g.below(3 * size) : 0;
                for (int i = 0; i < steps; i++) w.generate();
                runOn(w, t, f, n, size, steps, false, v2);
            }
        }
        for (int r = 0; r < 2; r++) {
            Shipped s(t);
            s.seed(wordOf<w128>((u128)g.next() | (u128)g.next() << 64));
            if (r) for (int i = g.below(5); i > 0; i--) s.generate();
            bool has = true;
            { std::vector<u128> o = outs(s, 2 * n); GF2X m = bitPoly(o, 0, n); has = divide(m, f); }
            bool ok = anni(s);
            Ev e("anni"); e.i("n", n).b("r", ok).b("has", has).words("words", outs(s, n + d + 1)); lg->put(e);
        }
        return true;
    }
    return false;
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    Quiet quiet;
    int many = a.thorough ? 6 : 1;
    for (int i = 0; i < 3 * many; i++) paramSet(g, 2, 4, i % 2);
    for (int i = 0; i < 3 * many; i++) paramSet(g, 2, 2, i % 2, i % 3 ? 3 : 24);
    for (int i = 0; i < many; i++) paramSet(g, 3, 3, i % 2);
    if (a.thorough) for (int i = 0; i < 4; i++) paramSet(g, 4, 6, i % 2);
    return 0;
}
