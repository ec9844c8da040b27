PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo.lstrip("\n")))
H = "include/MTToolBox/"
S = "samples/"

P("C23-lastbit", "C23", [(S+"sfmtdc/sfmtsearch.hpp", "for (int j = 0; j < 32; j++) {\n                    if ((work & parity.u[i]) != 0) {", "for (int j = 0; j < 31; j++) {\n                    if ((work & parity.u[i]) != 0) {")],
  "a certification vector whose bits are all in the top positions of the 32-bit lanes", "a state that is not certified is left so",
r'''
#include "lingen.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
int main() {
    sfmt_param p; p.mexp = 607; p.pos1 = 2; p.sl1 = 15; p.sl2 = 3; p.sr1 = 13; p.sr2 = 3;
    p.msk1 = 0xfdff37ff; p.msk2 = 0xef7f3f7d; p.msk3 = 0xff777b7d; p.msk4 = 0x7ff7fb2f;
    for (int lane = 0; lane < 4; lane++) for (int bit = 0; bit < 32; bit++) for (int more = 0; more < 2; more++) {
        sfmt s(p); w128_t v; for (int i = 0; i < 4; i++) v.u[i] = 0;
        v.u[lane] |= 1U << bit; if (more) v.u[3] |= 1U << 31;
        s.setParityValue(v);
        w128_t k; for (int i = 0; i < 4; i++) k.u[i] = 3 * lane + i + bit;
        s.seed(k);
        int r = s.periodCertification();
        if (s.periodCertification() != 1) return fail("not certified after a run");
        (void)r;
    }
    return 0;
}
''')
FIX = r'''
#include "lingen.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
#include "samples/dSFMTdc/Annihilate.cpp"
#include "samples/dSFMTdc/calc_fixpoint.cpp"
#include <NTL/GF2XFactoring.h>
#include <random>
static dSFMT run(const dSFMT& s, const GF2X& p) {
    dSFMT x(s), y(s); y.setZero();
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) y.add(&x); x.generate(); }
    return y;
}
'''
P("C23-fixinv", "C23", [(S+"dSFMTdc/calc_fixpoint.cpp", "    XGCD(d, a, b, irreducible, t1);\n", "    XGCD(d, a, b, irreducible * quotient, t1);\n")],
  "a parameter set whose small factor is divisible by t + 1", "no fix point is computed: the affine recursion of such parameter sets cannot be certified",
FIX + r'''
int main() {
    mt19937_64 r(5);
    int with = 0, none = 0;
    for (int tries = 0; tries < 3000 && (with < 2 || none < 2); tries++) {
        dSFMT_param p; p.mexp = 232 + 104 - 80; p.pos1 = 1; p.sl1 = 1 + r() % 51;
        p.msk1 = (r() | r()) & 0xfffffffffffffULL; p.msk2 = (r() | r()) & 0xfffffffffffffULL;
        dSFMT t(p); int n = t.bitSize();
        w128_t s; s.u64[0] = r(); s.u64[1] = r(); t.seed(s);
        GF2X m; { dSFMT u(t); minpoly<w128_t>(m, u); }
        vec_pair_GF2X_long fs; CanZass(fs, m);
        GF2X f; for (long k = 0; k < fs.length(); k++) if (deg(fs[k].a) > deg(f)) f = fs[k].a;
        if (deg(m) != n || deg(f) <= n / 2) continue;
        GF2X q = m / f, one; SetCoeff(one, 0); SetCoeff(one, 1);
        bool has = divide(q, one);
        if ((has ? with : none) >= 2) continue;
        (has ? with : none)++;
        w128_t fix;
        try { fix = calc_fixpoint(t, f, q); } catch (...) { return fail("threw"); }
        GF2X inv = InvMod(one % f, f), d, a, b; XGCD(d, a, b, f, q);
        GF2X h = (b * q % m) * inv % m;
        dSFMT c(t); c.setConst();
        w128_t x = run(c, h).getParityValue();
        if (x.u64[0] != fix.u64[0] || x.u64[1] != fix.u64[1]) return fail("fix point");
    }
    return with && none ? 0 : fail("nothing tried");
}
''')
P("C23-anni", "C23", [(S+"dSFMTdc/Annihilate.cpp", "    if (deg(poly) != sf.bitSize()) {\n", "    if (deg(poly) < sf.getMexp()) {\n")],
  "a parameter set whose lowest output bit does not show every small component of the transition", "the reduced state keeps parts outside the large component",
FIX + r'''
int main() {
    mt19937_64 r(5);
    int seen = 0;
    for (int tries = 0; tries < 4000 && seen < 30; tries++) {
        dSFMT_param p; p.pos1 = 1; p.sl1 = 1 + r() % 51;
        p.msk1 = (r() | r()) & 0xfffffffffffffULL; p.msk2 = (r() | r()) & 0xfffffffffffffULL;
        p.mexp = 256;
        w128_t s; s.u64[0] = r(); s.u64[1] = r();
        GF2X m, f; int n;
        { dSFMT t(p); n = t.bitSize(); t.seed(s); minpoly<w128_t>(m, t); }
        if (deg(m) == n) continue;
        vec_pair_GF2X_long fs; CanZass(fs, m);
        for (long k = 0; k < fs.length(); k++) if (deg(fs[k].a) > deg(f)) f = fs[k].a;
        if (deg(f) <= 232 || deg(f) >= 336) continue;
        p.mexp = deg(f);
        dSFMT t(p); if (t.bitSize() != n) continue;
        t.seed(s);
        if (!anni(t)) return fail("refused");
        seen++;
        vector<w128_t> o; for (int i = 0; i < 2 * n; i++) o.push_back(t.generate());
        for (int i = 0; i + deg(f) < (long)o.size(); i++) {
            uint64_t x = 0, y = 0;
            for (long j = 0; j <= deg(f); j++) if (IsOne(coeff(f, j))) { x ^= o[i + j].u64[0]; y ^= o[i + j].u64[1]; }
            if (x || y) return fail("outside the large component");
        }
    }
    return seen ? 0 : fail("nothing tried");
}
''')
