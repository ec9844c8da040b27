// C11: partial-pattern tempering search.  C12 (BESTBITS): best-bits tempering search.
#include "toy.hpp"
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;

template<class U> static std::unique_ptr<Toy<U> > make(Rng& g, int n, const std::vector<int>& sh, int style) {
    int w = width<U>();
    Lin l = irredMachine(g, n, w);
    if (style == 1) for (int i = 0; i < w; i++) if (g.below(3) == 0) l.C[i] = l.C[g.below(w)];
    if (style == 2) for (int i = 0; i < w; i++) l.C[i] = randVec(g, n, 15);
    std::unique_ptr<Toy<U> > t(new Toy<U>(single(l)));
    t->withTempering(sh, style != 3 && g.coin());
    do t->st = randVec(g, n); while (t->st.none());
    t->rev = g.coin();
    for (size_t i = 0; i < sh.size(); i++) t->pat[i] = wordOf<U>(((u128)g.next() << 64) | g.next());
    for (size_t i = 0; i < sh.size(); i++) if (g.below(3) == 0) t->pat[i] = 0; else t->pat[i] &= Toy<U>::full();
    if (!t->latch) t->active = t->pat;
    else for (size_t i = 0; i < sh.size(); i++) t->active[i] = g.next() & Toy<U>::full();     // stale set-up
    return t;
}
template<class U> static void given(Toy<U>& t) {
    Ev e("given");
    e.mat("A", t.lin().A).mat("C", t.lin().C).vec("s", t.st).ints("shifts", t.shifts).words("pats", t.pat).b("rev", t.rev);
    lg->put(e);
}
template<class U> static void left(Toy<U>& t) {
    Ev e("left");
    e.words("pats", t.pat).words("active", t.active).vec("s", t.st).b("rev", t.rev).i("tries", t.setups);
    lg->put(e);
}
template<class U, int NP, int TRY, int STEP, bool LSB> static void partial(Rng& g, int n, int style) {
    const int w = (int)sizeof(U) * 8;
    std::vector<int> sh;
    for (int i = 0; i < NP; i++) sh.push_back(g.in(1, w - 2));
    std::unique_ptr<Toy<U> > t = make<U>(g, n, sh, style);
    lg->session((double)(1 << STEP) * ((TRY + STEP - 1) / STEP) * NP * n * (w < n ? w : n) + 100);
    given(*t);
    { Quiet q; MTToolBox::AlgorithmPartialBitPattern<U, w, NP, TRY, STEP, LSB> alg;
      if (alg.isLSBTempering() != LSB) throw std::logic_error("mode");
      alg(*t, g.below(3) == 0); }
    for (int p = 0; p < TRY; p += STEP) {
        int hi = p + STEP > TRY ? TRY : p + STEP;
        for (int i = 0; i < NP; i++) {
            int lo = LSB ? p : w - hi;
            u128 m = ((((u128)1 << (hi - p)) - 1) << lo);
            Ev e("block"); e.i("i", i + 1).i("lo", p).i("hi", hi).b("lsb", LSB).bits("p", t->pat[i] & m);
            lg->put(e);
        }
    }
    left(*t);
}
// how much work the level search is
template<class U> class Counting : public Toy<U> {
public:
    static long sets, limit_;
    Counting(const Toy<U>& t) : Toy<U>(t) {}
    void setTemperingPattern(U m, U p, int i) { sets++; if (sets > limit_) throw 7; Toy<U>::setTemperingPattern(m, p, i); }
};
template<class U> long Counting<U>::sets;
template<class U> long Counting<U>::limit_ = 2500;
template<class U> static void bits(Rng& g, int n, int np, int limit, int style) {
    int w = width<U>();
    std::vector<int> sh;
    for (int i = 0; i < np; i++) sh.push_back(g.below(3) ? g.in(1, limit > 2 ? limit : 2) : g.in(1, w - 1));
    std::unique_ptr<Toy<U> > t = make<U>(g, n, sh, style);
    std::unique_ptr<Toy<U> > keep(new Toy<U>(*t));
    Counting<U>::sets = 0;
    long work;
    try {                                        // a dry run, to keep the checking affordable
        Counting<U> c(*t);
        Quiet q; MTToolBox::AlgorithmBestBits<U> alg(w, &sh[0], np, limit); alg(c, false);
        work = Counting<U>::sets;
    } catch (int) { return; }
    lg->session((double)work * n * limit + 100);
    given(*t);
    { Quiet q; MTToolBox::AlgorithmBestBits<U> alg(w, &sh[0], np, limit);
      alg(*t, g.below(3) == 0); }
    Ev e("levels"); e.i("limit", limit).words("pats", t->pat); lg->put(e);
    left(*t);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    int reps = a.thorough ? 30 : 2;
    if (a.thorough) Counting<uint16_t>::limit_ = Counting<uint32_t>::limit_ = Counting<uint64_t>::limit_ = 8000;
    for (int r = 0; r < reps; r++)
        for (int style = 0; style < 4; style++) {
#ifndef BESTBITS
            partial<uint16_t, 1, 16, 5, false>(g, g.in(3, 18), style);
            partial<uint16_t, 2, 10, 3, false>(g, g.in(3, 18), style);
            partial<uint16_t, 1, 16, 4, true>(g, g.in(3, 18), style);
            partial<uint16_t, 2, 7, 3, true>(g, g.in(3, 18), style);
            partial<uint32_t, 1, 23, 6, false>(g, g.in(3, 8), style);
            partial<uint32_t, 1, 9, 5, true>(g, g.in(6, 14), style);
            partial<uint32_t, 3, 8, 2, false>(g, g.in(6, 16), style);
            partial<uint32_t, 1, 32, 3, false>(g, g.in(4, 10), style);
            partial<uint64_t, 2, 9, 3, false>(g, g.in(4, 12), style);
            partial<uint64_t, 1, 7, 4, true>(g, g.in(4, 12), style);
            if (r == 0) partial<uint64_t, 1, 64, 3, true>(g, 5, style);
            if (r == 0) partial<uint64_t, 1, 64, 3, false>(g, 5, style);
#else
            for (int np = 1; np <= 2; np++) {
                bits<uint16_t>(g, g.in(6, 20), np, g.in(1, 6), style);
                bits<uint16_t>(g, g.in(12, 20), np, g.in(3, 8), style);
                bits<uint32_t>(g, g.in(8, 24), np, g.in(2, 8), style);
                bits<uint32_t>(g, g.in(20, 31), np, g.in(4, 10), style);
                bits<uint64_t>(g, g.in(8, 24), np, g.in(2, 8), style);
                bits<uint16_t>(g, g.in(16, 30), 1, g.in(8, 16), style);
            }
#endif
        }
    return 0;
}
