// C01: minimal polynomials of output bits of toy machines (all small ones, random larger ones).
#include "toy.hpp"
#include "samples/sfmtdc/w128.hpp"
#include <MTToolBox/period.hpp>
using namespace vf;
using MTToolBox::w128_t;

static Log *lg;

template<class U>
static void machine(Rng& g, const Lin& l, int nstates, int npos, bool allPos, bool varySize)
{
    lg->session(1.0 + (double)l.n * l.n * (nstates * npos) / 4000.0);
    Ev e("machine");
    e.i("n", l.n).i("w", width<U>()).mat("A", l.A).mat("C", l.C);
    lg->put(e);
    for (int k = 0; k < nstates; k++) {
        BV s = randVec(g, l.n);
        for (int q = 0; q < npos; q++) {
            int pos = allPos ? q : g.below(width<U>());
            if (!allPos && g.below(4) == 0) pos = g.coin() ? width<U>() - 1 : 0;
            Toy<U> t(single(l));
            t.st = s;
            NTL::GF2X p;
            int size = 0;
            if (varySize && g.coin()) size = l.n + g.below(l.n + 3);
            if (pos == 0 && size == 0 && g.coin()) MTToolBox::minpoly<U>(p, t);
            else if (size == 0) MTToolBox::minpoly<U>(p, t, pos);
            else MTToolBox::minpoly<U>(p, t, pos, size);
            Ev r("minpoly");
            r.vec("s", s).i("pos", pos).i("size", size).poly("p", p);
            lg->put(r);
        }
    }
}

template<class U>
static void randomMachines(Rng& g, int count, int nmin, int nmax)
{
    for (int i = 0; i < count; i++) {
        int n = g.in(nmin, nmax);
        Lin l;
        int kind = g.below(6);
        if (kind == 0) { l.n = n; l.A = randMat(g, n); }                       // arbitrary, often singular
        else if (kind == 1) { l.n = n; l.A = randMat(g, n, 200 / n + 1); }     // sparse
        else if (kind == 2 && n >= 4) {                                        // two blocks
            int a = g.in(1, n - 1);
            l.n = n;
            l.A = blockDiag(companion(randPoly(g, a)), companion(randPoly(g, n - a)));
            if (n <= 64) l.A = conjugate(g, l.A);
        } else if (kind == 3) {                                                // nilpotent shift
            l.n = n; l.A.assign(n, BV());
            for (int j = 1; j < n; j++) l.A[j].set(j - 1);
        } else { l = irredMachine(g, n, 1, n <= 64); }
        l.C = randRows(g, width<U>(), n);
        if (g.below(3) == 0) l.C[g.below(width<U>())].reset();
        if (g.below(3) == 0) { BV v; v.set(g.below(n)); l.C[0] = v; }
        machine<U>(g, l, n > 40 ? 1 : 2, n > 40 ? 2 : 4, false, true);
    }
}

int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    // every 1x1 and 2x2 machine, every functional as an output bit, from random states
    for (int n = 1; n <= 2; n++)
        for (uint64_t m = 0; m < (UINT64_C(1) << (n * n)); m++) {
            Lin l; l.n = n;
            for (int i = 0; i < n; i++) l.A.push_back(vecOf((m >> (n * i)) & ((1 << n) - 1)));
            for (int b = 0; b < 16; b++) l.C.push_back(vecOf(b % (1 << n)));
            machine<uint16_t>(g, l, 3, 1 << n, true, false);
        }
    // 3x3 machines
    int stride = a.thorough ? 1 : 3;
    for (uint64_t m = a.seed % stride; m < 512; m += stride) {
        Lin l; l.n = 3;
        for (int i = 0; i < 3; i++) l.A.push_back(vecOf((m >> (3 * i)) & 7));
        for (int b = 0; b < 16; b++) l.C.push_back(vecOf(b % 8));
        machine<uint16_t>(g, l, 2, 8, true, false);
    }
    int k = a.thorough ? 6 : 1;
    randomMachines<uint16_t>(g, 40 * k, 3, 20);
    randomMachines<uint32_t>(g, 40 * k, 3, 36);
    randomMachines<uint64_t>(g, 40 * k, 3, 40);
    randomMachines<w128_t>(g, 20 * k, 3, 36);
    randomMachines<uint32_t>(g, 3 * k, 60, 70);
    randomMachines<uint64_t>(g, 3 * k, 120, 135);
    randomMachines<w128_t>(g, 2 * k, 100, 130);
    if (a.thorough) randomMachines<uint32_t>(g, 4, 180, 260);
    return 0;
}
