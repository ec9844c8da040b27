// C14: period-certification vectors.
#include "samples/sfmtdc/w128.hpp"
#include "toy.hpp"
#include "shipped.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include <MTToolBox/AlgorithmCalculateParity.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;

static BV applyP(const Lin& l, const GF2X& p, const BV& s) {
    BV r, x = s;
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) r ^= x; x = mulv(l.A, x); }
    return r;
}
static bool observable(const Lin& l) {
    // rank of { P[b] A^j }
    std::vector<BV> basis(l.n);
    std::vector<BV> cur = l.P;
    int rank = 0;
    for (int j = 0; j < l.n && rank < l.n; j++) {
        std::vector<BV> nxt;
        for (size_t b = 0; b < cur.size(); b++) {
            BV r = cur[b];
            for (int i = 0; i < l.n; i++) if (r[i]) { if (basis[i].none()) { basis[i] = r; rank++; break; } r ^= basis[i]; }
            BV x;
            for (int i = 0; i < l.n; i++) if (cur[b][i]) x ^= l.A[i];
            nxt.push_back(x);
        }
        cur = nxt;
    }
    return rank == l.n;
}
// q: degree n-m, coprime to f; styles: 0 random factors, 1 powers of one factor, 2 with a power of x
template<class U> static void toyCase(Rng& g, int n, int m, int style, int dup) {
    int w = width<U>();
    Lin l;
    for (int tries = 0; ; tries++) {
        if (tries > 60) return;
        l.n = n;
        GF2X f, q(0, 1), base;
        do f = randIrred(g, m); while (IsZero(coeff(f, 0)));
        int guard = 0;
        while (deg(q) < n - m && guard++ < 400) {
            GF2X h;
            int rest = n - m - (int)deg(q);
            if (style == 2 && g.coin()) h = polyOf(2);
            else if (style == 1 && deg(q) > 0 && rest % deg(base) == 0) h = base;
            else { int s = g.in(1, std::min(7, rest)); h = s == 1 ? polyOf(3) : randIrred(g, s); }
            if (h == f || deg(h) > rest) continue;
            base = h; q *= h;
        }
        if (deg(q) != n - m) continue;
        GF2X p = f * q;
        l.A = companion(p);
        if (style == 3 && n > m) l.A = blockDiag(companion(f), companion(q));
        if (n <= 200) l.A = conjugate(g, l.A);
        l.C = randRows(g, w, n);
        l.P = randRows(g, w, n);
        for (int i = 0; i < w; i++) if (g.below(100) < dup) l.P[i] = l.P[g.below(w)];   // poor words
        if (!observable(l)) continue;
        Toy<U> toy(single(l), m);
        do toy.st = randVec(g, n); while (toy.st.none());
        lg->session((double)n * n * (m + 20));
        Ev mc("machine"); mc.mat("A", l.A).mat("P", l.P).vec("s", toy.st); lg->put(mc);
        for (int r = 0; r < 2; r++) {
            bool thrown = false; U v = wordOf<U>(0);
            toy.parity = 0;
            MTToolBox::AlgorithmCalculateParity<U, Toy<U> > c;
            try { v = c.searchParity(toy, f); }
            catch (...) { thrown = true; }
            Ev e("parity");
            e.poly("f", f).b("thrown", thrown).word("v", v).bits("installed", toy.parity).vec("s", toy.st);
            lg->put(e);
        }
        return;
    }
}
template<class U> static GF2X polyOfWord(const std::vector<u128>& o, int bit, int n) {
    Vec<GF2> v; v.SetLength(2 * n);
    for (int i = 0; i < 2 * n; i++) v[i] = (long)((o[i] >> bit) & 1);
    GF2X p; MinPolySeq(p, v, n); return p;
}
// fresh: makes a generator of the parameter set for the given exponent; installed: reads back the vector
template<class U, class G, class Fresh, class Installed>
static void shippedCase(Rng& g, Fresh fresh, int mexp0, int maxq, Installed installed, double weight, int samples) {
    int w = width<U>();
    for (int tries = 0; tries < 4000; tries++) {
        uint64_t ps = g.next();
        GF2X p, f; int d = 0, n;
        {
            std::unique_ptr<G> t(fresh(mexp0, ps));
            n = t->bitSize();
            t->seed(wordOf<U>((u128)g.next() | ((u128)g.next() << 64)));
            for (int i = 0; i < 4; i++) t->generate();
            std::unique_ptr<G> c(new G(*t));
            std::vector<u128> o = outputs<U>(*c, 2 * n + 8);
            p = polyOfWord<U>(o, 0, n);
            for (int b = 1; b < w && deg(p) < n; b += 7) { GF2X r = polyOfWord<U>(o, b, n), q = GCD(p, r); p = p * (r / q); }
            if (deg(p) != n) continue;
            vec_pair_GF2X_long fs;
            CanZass(fs, p);
            for (long k = 0; k < fs.length(); k++) if (fs[k].b == 1 && deg(fs[k].a) > d) { d = (int)deg(fs[k].a); f = fs[k].a; }
        }
        if (d < mexp0 || n - d > maxq) continue;
        std::unique_ptr<G> t(fresh(d, ps));
        if (t->bitSize() != n) continue;
        // f(A) e for all unit vectors, one step on
        std::vector<std::unique_ptr<G> > ker;
        std::vector<u128> words;
        for (int i = 0; i < n; i++) {
            G x(*t); x.setOneBit(i);
            std::unique_ptr<G> r(new G(*t)); r->setZero();
            for (long k = 0; k <= d; k++) { if (IsOne(coeff(f, k))) r->add(x); x.generate(); }
            r->generate();
            words.push_back(bitsOf(r->getParityValue()));
            ker.push_back(std::move(r));
        }
        G subject(*t);
        subject.seed(wordOf<U>((u128)g.next()));
        U v = wordOf<U>(0); bool thrown = false;
        MTToolBox::AlgorithmCalculateParity<U, G> c;
        try { v = c.searchParity(subject, f); } catch (...) { thrown = true; }
        lg->session(weight);
        Ev e("kernel");
        e.poly("f", f).i("n", n).i("w", w).b("thrown", thrown).word("v", v).bits("installed", installed(subject)).words("words", words);
        lg->put(e);
        // sampled states: with their certified word and the outputs of the bit that shows the part, if any
        for (int k = 0; k < samples; k++) {
            std::unique_ptr<G> s(new G(*t));
            s->setZero();
            if (k % 2) s->seed(wordOf<U>((u128)g.next() | ((u128)g.next() << 64)));
            for (int i = g.below(3); i >= 0; i--) s->add(*ker[g.below(n)]);
            for (int i = g.below(5); i >= 0; i--) s->generate();
            u128 word = bitsOf(s->getParityValue());
            std::vector<u128> o = outputs<U>(*s, 2 * n + 4);
            int bit = 0;
            for (int b = 0; b < w; b++) { GF2X mp = polyOfWord<U>(o, b, n); if (deg(mp) >= d && divide(mp, f)) { bit = b; break; } }
            std::vector<int> seq;
            for (int i = 0; i < 2 * n; i++) seq.push_back((int)((o[i] >> bit) & 1));
            Ev x("sampled");
            x.bits("word", word).i("n", n).ints("seq", seq);
            lg->put(x);
        }
        return;
    }
}
static RMT64Search *freshRmt(int d, uint64_t ps) {
    RMT64Search *t = new RMT64Search(d, (uint64_t)5);
    MTToolBox::MersenneTwister64 src(ps); t->setUpParam(src);
    t->setTemperingPattern(~UINT64_C(0), src.getUint64(), 0); t->setTemperingPattern(~UINT64_C(0), src.getUint64(), 1);
    return t;
}
static MTToolBox::sfmt *freshSfmt(int d, uint64_t ps) {
    MTToolBox::sfmt *t = new MTToolBox::sfmt(d);
    MTToolBox::MersenneTwister64 src(ps); t->setUpParam(src); return t;
}
static MTToolBox::dSFMT *freshDsfmt(int d, uint64_t ps) {
    MTToolBox::dSFMT *t = new MTToolBox::dSFMT(d);
    MTToolBox::MersenneTwister64 src(ps); t->setUpParam(src); return t;
}
static std::vector<std::string> fields(const std::string& s) {
    std::vector<std::string> r; std::string x; std::istringstream i(s);
    while (std::getline(i, x, ',')) r.push_back(x);
    return r;
}
static u128 hexAt(const std::string& s, int k) { return (u128)strtoull(fields(s)[k].c_str(), 0, 16); }
static u128 instRmt(RMT64Search& t) { return hexAt(t.getParamString(), 3); }
static u128 instSfmt(MTToolBox::sfmt& t) {
    u128 r = 0; std::string s = t.getParamString();
    for (int i = 0; i < 4; i++) r |= hexAt(s, 10 + i) << (32 * i);
    return r;
}
static u128 instDsfmt(MTToolBox::dSFMT& t) {
    std::vector<std::string> h = fields(t.getHeaderString());
    int at = 0;
    for (size_t i = 0; i < h.size(); i++) if (h[i].find("parity1") != std::string::npos) at = (int)i;
    std::string s = t.getParamString();
    return hexAt(s, at) | hexAt(s, at + 1) << 64;
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    Quiet quiet;
    int reps = a.thorough ? 16 : 2;
    for (int r = 0; r < reps; r++)
        for (int style = 0; style < 4; style++) {
            for (int i = 0; i < 25; i++) { int n = g.in(2, 36), m = g.in(2, n); toyCase<uint16_t>(g, n, m, style, i % 2 ? 0 : 80); }
            for (int i = 0; i < 6; i++) { int m = g.in(3, 10); toyCase<uint16_t>(g, m + 14 + g.below(6), m, style, 0); }   // no vector left for some
            for (int i = 0; i < 15; i++) { int n = g.in(4, 60), m = g.in(std::max(2, n - 40), n); toyCase<uint32_t>(g, n, m, style, i % 2 ? 0 : 80); }
            for (int i = 0; i < 8; i++) { int n = g.in(10, 80), m = g.in(n / 3, n); toyCase<uint64_t>(g, n, m, style, i % 2 ? 0 : 90); }
            for (int i = 0; i < 4; i++) { int n = g.in(10, 50), m = g.in(n / 2, n); toyCase<MTToolBox::w128_t>(g, n, m, style, i % 2 ? 0 : 95); }
        }
    int many = a.thorough ? 4 : 1;
    for (int i = 0; i < 2 * many; i++) shippedCase<uint64_t, RMT64Search>(g, freshRmt, 66 + 64 * (i % 3), 62, instRmt, 4e6, 12);
    for (int i = 0; i < many; i++) shippedCase<MTToolBox::w128_t, MTToolBox::sfmt>(g, freshSfmt, 257, 127, instSfmt, 2e7, 12);
    for (int i = 0; i < many; i++) shippedCase<MTToolBox::w128_t, MTToolBox::dSFMT>(g, freshDsfmt, 336, 103, instDsfmt, 2e7, 12);
    return 0;
}
