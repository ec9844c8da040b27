// C04: detection of one large irreducible factor.
#include "common.hpp"
#include <MTToolBox/period.hpp>
using namespace vf;
using namespace NTL;
static Log *lg;
static void ask(const GF2X& p, long d, double w = 1) {
    lg->session(w);
    GF2X q = p;
    bool r = MTToolBox::hasFactorOfDegree(q, d);
    Ev e("factor"); e.poly("p", p).i("d", d).b("r", r).poly("after", q); lg->put(e);
}
int main(int argc, char **argv)
{
    Args a(argc, argv);
    Log log(a.dir, a.files);
    lg = &log;
    Rng g(a.seed);
    int top = a.thorough ? 10 : 8;
    for (uint64_t v = 0; v < (UINT64_C(1) << (top + 1)); v++) {
        GF2X p = polyOf(v);
        for (int d = deg(p) < 1 ? 1 : (int)deg(p) / 2 + 1; d <= deg(p) + 1; d++) ask(p, d);
    }
    int k = a.thorough ? 5 : 1;
    int ms[] = {9, 12, 13, 17, 19, 23, 31, 32, 40, 48, 61, 64, 80, 89, 107, 127};
    for (size_t i = 0; i < sizeof(ms) / sizeof(ms[0]); i++)
        for (int j = 0; j < 9 * k; j++) {
            int d = ms[i];
            GF2X f = randIrred(g, d), p = f;
            int room = d - 1 - g.below(3);                  // cofactor of degree < d
            int kind = g.below(5);
            if (j >= 7 && kind < 4) kind = 5 + g.below(2);
            GF2X c; SetCoeff(c, 0);
            while (room > 0) {
                int s = 0;
                if (kind == 0) break;                        // no cofactor
                if (kind == 1) s = 1;                        // powers of x and x+1
                if (kind == 2) { s = room; }                 // one big cofactor
                if (kind >= 3) s = g.in(1, room > 6 ? 6 : room);
                GF2X h = s == 1 ? polyOf(2 + g.below(2)) : randIrred(g, s);
                int m = g.in(1, 4);
                while (m-- > 0 && deg(h) <= room) { c *= h; room -= (int)deg(h); }
                if (g.below(4) == 0) break;
            }
            if (kind == 5) { // no factor of degree d although the degree would fit
                int e1 = g.in(2, d - 1); p = randIrred(g, e1) * randIrred(g, d - e1 < 1 ? 1 : d - e1);
            }
            p *= c;
            if (kind == 6) { // square of an irreducible of half degree
                p = randIrred(g, d / 2); p *= p; p *= c;
            }
            if (2 * d > deg(p) && deg(p) <= 220) {
                ask(p, d, d > 60 ? 40 : 5);
                if (g.below(3) == 0 && 2 * (d - 1) > deg(p)) ask(p, d - 1, d > 60 ? 40 : 5);
                if (g.below(3) == 0) ask(p, d + 1, d > 60 ? 40 : 5);
            }
        }
    if (a.thorough) {
        GF2X p; SetCoeff(p, 521); SetCoeff(p, 32); SetCoeff(p, 0);
        GF2X c = randPoly(g, 40); ask(p * c, 521, 4000);
    }
    return 0;
}
