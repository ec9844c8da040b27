// C13: combined recursion-and-tempering searches.
#include "toy.hpp"
#include "members.hpp"
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;
static bool loud = true;                          // record events?
static void put(Ev& e) { if (loud) lg->put(e); }

template<class U> static std::vector<u128> pats(Toy<U>& t) { return t.active; }
// a tempering step: records its use, then does what it is told
template<class U> class Step : public MTToolBox::AlgorithmTempering<U> {
public:
    std::string name;
    Toy<U> *subject;
    std::unique_ptr<MTToolBox::AlgorithmTempering<U> > real;
    uint64_t script; bool lsbMode;
    Step(const char *n, Toy<U> *t, uint64_t s, bool lsb) : name(n), subject(t), script(s), lsbMode(lsb) {}
    int operator()(MTToolBox::TemperingCalculatable<U>& r, bool verbose = false) {
        Toy<U> *t = dynamic_cast<Toy<U> *>(&r);
        Ev e("enter");
        e.str("step", name).b("self", t == subject).i("held", subject->cur).words("pats", pats(*subject)).b("rev", subject->rev);
        put(e);
        if (real) (*real)(r, verbose);
        else {
            Rng g(script);
            for (size_t i = 0; i < t->shifts.size(); i++) {
                u128 m = ((u128)g.next() << 64 | g.next()) & Toy<U>::full(), p = ((u128)g.next() << 64 | g.next()) & Toy<U>::full();
                if (name == "lsb") m &= Toy<U>::full() >> (width<U>() / 2);
                t->setTemperingPattern(wordOf<U>(m), wordOf<U>(p), (int)i);
            }
            t->setUpTempering();
            for (int k = g.below(4); k > 0; k--) t->generate();
        }
        Ev x("leave"); x.words("pats", pats(*subject)); put(x);
        return 0;
    }
    bool isLSBTempering() const { return lsbMode; }
};
struct Ran { std::string report; };
enum { REAL_PARTIAL = 1, REAL_BEST = 2 };
template<class U> static void realStep(Step<U>& s, int kind, bool lsb, const std::vector<int>& sh, int np) {
    const int w = (int)sizeof(U) * 8;
    if (kind == REAL_BEST && !lsb) s.real.reset(new MTToolBox::AlgorithmBestBits<U>(w, &sh[0], np, 2));
    else if (np == 1) { if (lsb) s.real.reset(new MTToolBox::AlgorithmPartialBitPattern<U, w, 1, 6, 3, true>()); else s.real.reset(new MTToolBox::AlgorithmPartialBitPattern<U, w, 1, 9, 3, false>()); }
    else { if (lsb) s.real.reset(new MTToolBox::AlgorithmPartialBitPattern<U, w, 2, 4, 2, true>()); else s.real.reset(new MTToolBox::AlgorithmPartialBitPattern<U, w, 2, 6, 2, false>()); }
}
struct Plan { bool nolsb, single, lsbMode; int real; uint64_t s1, s2; int runs; std::vector<std::vector<uint64_t> > vs; };

static std::string tuple(const GF2X& p, int weight, int delta, u128 parity, const std::vector<u128>& ps, int held) {
    Ev e("x"); e.poly("p", p).i("w", weight).i("d", delta).bits("par", parity).words("ps", ps).i("h", held); return e.done();
}
// one object, several searches; verbose on the runs whose bit is set
template<class U> static std::vector<std::string> runAll(const Family& fam, int mexp, bool red, const std::vector<int>& sh, bool latch,
        const Plan& pl, int verboseMask, std::vector<const char *>& ptrs, const std::vector<BV>& parts) {
    std::vector<std::string> res;
    Script src;
    Toy<U> toy(fam, mexp);
    toy.withTempering(sh, latch);
    toy.seed(wordOf<U>(3));
    size_t supplied = 0;
    toy.onSetup = [&](int i, uint32_t) {
        Ev e("try"); e.i("i", i); put(e);
        if (src.at > src.v.size()) throw std::runtime_error("source used up");
    };
    std::unique_ptr<MTToolBox::AlgorithmPrimitivity> crit;
    if (ptrs.size()) crit.reset(new MTToolBox::AlgorithmPrimitivity(&ptrs[0]));
    std::unique_ptr<MTToolBox::AlgorithmRecursionAndTempering<U> > irr;
    std::unique_ptr<MTToolBox::AlgorithmReducibleRecursionAndTempering<U, Toy<U> > > rd;
    if (red) rd.reset(new MTToolBox::AlgorithmReducibleRecursionAndTempering<U, Toy<U> >(src));
    else if (crit) irr.reset(new MTToolBox::AlgorithmRecursionAndTempering<U>(src, *crit));
    else irr.reset(new MTToolBox::AlgorithmRecursionAndTempering<U>(src));
    for (int k = 0; k < pl.runs; k++) {
        Step<U> s1("main", &toy, pl.s1 + k, false), s2("lsb", &toy, pl.s2 + k, pl.lsbMode);
        if (pl.real) { realStep<U>(s1, pl.real, false, sh, (int)sh.size()); realStep<U>(s2, pl.real, true, sh, (int)sh.size()); s2.lsbMode = s2.real->isLSBTempering(); }
        src.v.insert(src.v.end(), pl.vs[k].begin(), pl.vs[k].end());
        Ev fe("feed"); fe.ints("vs", pl.vs[k]); put(fe);
        bool nolsb = pl.nolsb || pl.single, verbose = (verboseMask >> k) & 1;
        Ev b("begin"); b.b("nolsb", nolsb).b("verbose", verbose); put(b);
        std::ostringstream text;
        bool r;
        { Quiet quiet;
          if (red) r = pl.single ? rd->search(toy, s1, verbose, text) : rd->search(toy, s1, s2, verbose, text, pl.nolsb);
          else r = pl.single ? irr->search(toy, s1, verbose, text) : irr->search(toy, s1, s2, verbose, text, pl.nolsb); }
        GF2X p = red ? rd->getIrreducibleFactor() : irr->getCharacteristicPolynomial();
        int delta = red ? rd->getDelta() : irr->getDelta();
        int weight = red ? 0 : irr->getWeight();
        u128 par = red ? bitsOf(rd->getParity()) : 0;
        Ev e("report");
        e.b("r", r).poly("poly", p).i("weight", weight).i("delta", delta).i("held", toy.cur).words("pats", pats(toy)).b("rev", toy.rev)
         .bits("parity", par).bits("installed", toy.parity).vec("part", red ? parts[toy.cur] : BV());
        put(e);
        res.push_back(tuple(p, weight, delta, par, pats(toy), toy.cur));
    }
    return res;
}
static bool observable(const Lin& l) {
    std::vector<BV> basis(l.n), cur = l.P;
    int rank = 0;
    for (int j = 0; j < l.n && rank < l.n; j++) {
        std::vector<BV> nxt;
        for (size_t b = 0; b < cur.size(); b++) {
            BV r = cur[b];
            for (int i = 0; i < l.n; i++) if (r[i]) { if (basis[i].none()) { basis[i] = r; rank++; break; } r ^= basis[i]; }
            BV x;
            for (int i = 0; i < l.n; i++) if (cur[b][i]) x ^= l.A[i];
            nxt.push_back(x);
        }
        cur = nxt;
    }
    return rank == l.n;
}
template<class U> static void session(Rng& g, bool red, int n, int mexp, bool crit, int real, bool longRun) {
    const int w = width<U>();
    std::vector<ZZ> f;
    if (!red && crit) f = factorsOf(n);
    else if (!red) f = factorsOf(n <= 40 ? n : 40);
    Family fam(new std::vector<Lin>());
    std::vector<BV> parts;
    std::vector<int> good;
    int want = g.in(2, 4);
    for (int tries = 0; tries < 200 && ((int)fam->size() < want || good.empty()); tries++) {
        int kind = fam->empty() ? g.below(6) : g.below(7);
        Lin l = red ? memberRed<U>(g, kind, n, mexp) : memberIrr<U>(g, kind, n, f);
        if (l.s0.none()) { do l.s0 = randVec(g, n); while (l.s0.none()); }
        l.P = randRows(g, w, n);
        if (red && !observable(l)) continue;
        // is it acceptable? (only used to supply long enough sources)
        Vec<GF2> v; v.SetLength(2 * n); BV x = l.s0;
        for (int i = 0; i < 2 * n; i++) { x = mulv(l.A, x); v[i] = dot(l.C[0], x); }
        GF2X p; MinPolySeq(p, v, n);
        bool ok = false; GF2X fac; BV part;
        if (deg(p) >= 1) {
            if (red) {
                vec_pair_GF2X_long fs; CanZass(fs, p);
                for (long k = 0; k < fs.length(); k++) if (deg(fs[k].a) == mexp) { ok = true; fac = fs[k].a; }
                if (ok) {                         // a state of the maximal-period component
                    GF2X chi(0, 1);               // a polynomial that annihilates everything: lcm over random rows
                    for (int k = 0; k < 8; k++) {
                        BV s = randVec(g, n), row = randVec(g, n); Vec<GF2> u; u.SetLength(2 * n);
                        for (int i = 0; i < 2 * n; i++) { u[i] = dot(row, s); s = mulv(l.A, s); }
                        GF2X q; MinPolySeq(q, u, n); chi = chi * (q / GCD(chi, q));
                    }
                    if (!divide(chi, fac)) { ok = false; continue; }
                    if (divide(chi / fac, fac)) continue;
                    for (int k = 0; k < 60 && part.none(); k++) part = applyPoly(l, chi / fac, randVec(g, n));
                    if (part.none() || applyPoly(l, fac, part).any()) continue;
                }
            } else ok = deg(p) == n && IterIrredTest(p) && (!crit || primitive(p, f));
        }
        if (!ok && (int)fam->size() >= want) continue;
        if (ok) good.push_back((int)fam->size());
        fam->push_back(l); parts.push_back(part);
    }
    if (good.empty()) return;
    std::vector<int> sh;
    for (int i = g.in(1, 2); i > 0; i--) sh.push_back(g.in(1, w / 2));
    Plan pl;
    pl.nolsb = g.below(3) == 0; pl.single = g.below(4) == 0; pl.lsbMode = g.coin(); pl.real = real; pl.runs = g.in(1, 2);
    pl.s1 = g.next(); pl.s2 = g.next();
    for (int k = 0; k < pl.runs; k++) {
        std::vector<uint64_t> v;
        int bad = longRun && k == 0 ? 1000 * (red ? mexp : n) + g.in(0, 40) : g.in(0, 5);
        for (int i = 0; i < bad; i++) {
            int j = g.below((int)fam->size());
            if (longRun && std::find(good.begin(), good.end(), j) != good.end()) {
                for (j = 0; j < (int)fam->size() && std::find(good.begin(), good.end(), j) != good.end(); j++) ;
                if (j == (int)fam->size()) return;
            }
            v.push_back(j + fam->size() * (uint64_t)g.below(1000));
        }
        v.push_back(good[g.below((int)good.size())]);
        pl.vs.push_back(v);
    }
    bool latch = g.coin();
    std::ostringstream fs; fs << '[';
    for (size_t i = 0; i < fam->size(); i++) {
        const Lin& l = (*fam)[i];
        Ev m("member"); m.mat("A", l.A).mat("C", l.C).mat("P", red ? l.P : std::vector<BV>()).vec("s", l.s0);
        if (i) fs << ','; fs << m.done();
    }
    fs << ']';
    std::ostringstream es; es << '[';
    std::vector<std::string> strs; std::vector<const char *> ptrs;
    if (!red && crit) {
        ZZ m = power2_ZZ(n) - 1;
        for (size_t i = 0; i < f.size(); i++) {
            if (i) es << ','; ZZ q = m / f[i];
            es << '['; bool first = true;
            for (long k = 0; k < NumBits(q); k++) if (bit(q, k)) { if (!first) es << ','; first = false; es << k; }
            es << ']';
            std::ostringstream o; o << f[i]; strs.push_back(o.str());
        }
        for (size_t i = 0; i < strs.size(); i++) ptrs.push_back(strs[i].c_str());
        ptrs.push_back(0);
    }
    es << ']';
    std::vector<std::string> first;
    lg->session((double)n * n * (n + w) * pl.runs + (longRun ? 200000 : 0));
    int mask = g.below(4);
    for (int k = 0; k < 2; k++) {
        Ev e("combined");
        e.raw("fam", fs.str()).str("crit", red ? "reducible" : crit ? "factors" : "default").i("mexp", mexp).raw("es", es.str())
         .ints("shifts", sh).words("pats", std::vector<u128>(sh.size(), 0));
        loud = k == 0 || !longRun;
        put(e);
        std::vector<std::string> r = runAll<U>(fam, mexp, red, sh, latch, pl, k ? ~mask : mask, ptrs, parts);
        loud = true;
        if (k == 0) first = r;
        else { Ev s("same"); std::ostringstream x, y; x << '['; y << '[';
               for (size_t i = 0; i < r.size(); i++) { if (i) { x << ','; y << ','; } x << first[i]; y << r[i]; }
               x << ']'; y << ']'; s.raw("x", x.str()).raw("y", y.str()); lg->put(s); }
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    int reps = a.thorough ? 12 : 2;
    for (int r = 0; r < reps; r++)
        for (int real = 0; real < 3; real++)
            for (int k = 0; k < 6; k++) {
                bool crit = k & 1;
                session<uint32_t>(g, false, g.in(3, 20), 0, crit, real, false);
                session<uint16_t>(g, false, g.in(3, 16), 0, crit, real, false);
                session<uint64_t>(g, false, g.in(3, 14), 0, crit, real, false);
                { int m = g.in(5, 12), n = m + g.below(m - 2); session<uint32_t>(g, true, n, m, false, real, false); }
                { int m = g.in(5, 10), n = m + g.below(m - 2); session<uint16_t>(g, true, n, m, false, real, false); }
                { int m = g.in(5, 10), n = m + g.below(m - 2); session<uint64_t>(g, true, n, m, false, real, false); }
            }
    for (int k = 0; k < 2; k++) {              // longer than one budget of the underlying search
        session<uint32_t>(g, false, g.in(2, 3), 0, k, 0, true);
        session<uint32_t>(g, true, 6, g.in(4, 5), false, 0, true);
    }
    return 0;
}
