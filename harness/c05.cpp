// C05 / C06: recursion searches, replaying sessions generated from the specification.
#include "toy.hpp"
#include "members.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;

template<class U> struct Session {
    Script src;
    std::unique_ptr<Toy<U> > toy;
    std::unique_ptr<MTToolBox::AlgorithmPrimitivity> crit;
    std::unique_ptr<MTToolBox::AlgorithmRecursionSearch<U> > irr;
    std::unique_ptr<MTToolBox::AlgorithmReducibleRecursionSearch<U> > red;
    void start(int t) {
        Ev b("start"); b.i("t", t); lg->put(b);
        bool r = irr ? irr->start(t) : red->start(t);
        Ev e("end");
        std::string ps = irr ? irr->getParamString() : red->getParamString();
        e.b("r", r).i("count", irr ? irr->getCount() : red->getCount()).i("held", toy->cur)
         .i("param", atoi(ps.c_str() + 3));
        if (irr) e.poly("poly", irr->getMinPoly()).raw("factor", "[]");
        else e.poly("poly", red->getCharacteristicPolynomial()).poly("factor", red->getIrreducibleFactor());
        lg->put(e);
    }
};
template<class U> static void session(Rng& g, const Beh& b, bool reducible, int n, int mexp, int crit) {
    Session<U> s;
    std::vector<ZZ> f; 
    if (!reducible) f = factorsOf(n);
    Family fam(new std::vector<Lin>());
    for (size_t i = 0; i < b.size(); i++)
        if (b[i][0] == 1) fam->push_back(reducible ? memberRed<U>(g, b[i][1], n, mexp) : memberIrr<U>(g, b[i][1], n, f));
    lg->session((double)n * n * n * fam->size() * (crit ? f.size() : 1));
    s.toy.reset(new Toy<U>(fam, mexp));
    std::ostringstream fs; fs << '[';
    for (size_t i = 0; i < fam->size(); i++) {
        Ev m("member"); 
        BV s0 = (*fam)[i].s0; if (s0.none()) s0.set(0);
        std::vector<BV> c(1, (*fam)[i].C[0]);
        m.mat("A", (*fam)[i].A).vec("C", (*fam)[i].C[0]).vec("s", s0);
        if (i) fs << ','; fs << m.done();
    }
    fs << ']';
    std::ostringstream es; es << '[';
    std::vector<std::string> strs; std::vector<const char *> ptrs;
    if (!reducible && crit) {
        ZZ m = power2_ZZ(n) - 1;
        for (size_t i = 0; i < f.size(); i++) {
            Ev x("x"); if (i) es << ','; ZZ q = m / f[i];
            es << '['; bool first = true;
            for (long k = 0; k < NumBits(q); k++) if (bit(q, k)) { if (!first) es << ','; first = false; es << k; }
            es << ']';
            std::ostringstream o; o << f[i]; strs.push_back(o.str());
        }
        for (size_t i = 0; i < strs.size(); i++) ptrs.push_back(strs[i].c_str());
        ptrs.push_back(0);
    }
    es << ']';
    Ev e("search");
    e.raw("fam", fs.str()).str("crit", reducible ? "reducible" : crit ? "factors" : "default").i("mexp", mexp).raw("es", es.str());
    lg->put(e);
    s.toy->onSetup = [](int i, uint32_t v) { Ev e("try"); e.i("i", i).i("v", v); lg->put(e); };
    if (reducible) s.red.reset(new MTToolBox::AlgorithmReducibleRecursionSearch<U>(*s.toy, s.src));
    else if (crit == 0) s.irr.reset(new MTToolBox::AlgorithmRecursionSearch<U>(*s.toy, s.src));
    else if (crit == 1) { s.crit.reset(new MTToolBox::AlgorithmPrimitivity(&ptrs[0])); s.irr.reset(new MTToolBox::AlgorithmRecursionSearch<U>(*s.toy, s.src, *s.crit)); }
    // every value of the source is supplied before the start that may use it
    std::vector<uint64_t> pending;
    size_t fed = 0, need = 0;
    for (size_t i = 0; i < b.size(); i++) {
        if (b[i][0] == 2) { uint64_t v = b[i][1]; if (g.below(4) == 0) v += fam->size() * (uint64_t)g.below(1000000); pending.push_back(v); }
        if (b[i][0] == 3) {
            int t = b[i][1];
            need += t > 0 ? t : 0;
            while (fed + pending.size() < need + 2) pending.push_back(g.below(1000));
            s.src.v.insert(s.src.v.end(), pending.begin(), pending.end());
            fed += pending.size();
            Ev fe("feed"); fe.ints("vs", pending); lg->put(fe);
            pending.clear();
            s.start(t);
        }
    }
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    std::vector<Beh> bs = behaviours(a.script);
    for (size_t k = 0; k < bs.size(); k++) {
#ifdef REDUCIBLE
        int n, m;
        if (k % 3 == 0) { n = g.in(6, 14); m = n / 2 + 1 + g.below(n - n / 2); }
        else if (k % 3 == 1) { n = g.in(20, 40); m = n / 2 + 1 + g.below(n / 2); }
        else { int ms[] = {17, 19, 31, 61}; m = ms[g.below(4)]; n = m + g.in(0, m > 40 ? 8 : m - 2); }
        if (m > n) m = n;
        if (m - 1 <= n - m) m = n - 1;
        switch (k % 3) {
        case 0: session<uint32_t>(g, bs[k], true, n, m, 0); break;
        case 1: session<uint64_t>(g, bs[k], true, n, m, 0); break;
        default: session<uint16_t>(g, bs[k], true, n, m, 0);
        }
#else
        int crit = (k / 3) % 2;
        int n = g.in(3, 12);
        if (k % 4 == 1) n = g.in(13, 28);
        if (k % 8 == 3) { int ms[] = {31, 32, 36}; n = ms[g.below(3)]; }
        switch (k % 3) {
        case 0: session<uint32_t>(g, bs[k], false, n, 0, crit); break;
        case 1: session<uint64_t>(g, bs[k], false, n, 0, crit); break;
        default: session<uint16_t>(g, bs[k], false, n, 0, crit);
        }
#endif
    }
    return 0;
}
