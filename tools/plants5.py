PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo.lstrip("\n")))
H = "include/MTToolBox/"
S = "samples/"

P("C26-carry7", "C26", [(S+"sfmtdc/sfmtsearch.hpp", "            ol |= th << (64 - shift * 8);\n", "            ol |= (th & UINT64_C(0xffffffffffff)) << (64 - shift * 8);\n")],
  "an SFMT parameter set whose right byte shift is 7", "the recursion loses eight bits carried from the high half of the word",
r'''
#include "lingen.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
typedef unsigned __int128 B;
static B get(const w128_t& w) { return ((B)w.u64[1] << 64) | w.u64[0]; }
int main() {
    for (int sr2 = 1; sr2 < 8; sr2++) for (int sl2 = 1; sl2 < 8; sl2++) {
        sfmt_param p; p.mexp = 607; p.pos1 = 2; p.sl1 = 15; p.sl2 = sl2; p.sr1 = 13; p.sr2 = sr2;
        p.msk1 = 0xfdff37ff; p.msk2 = 0xef7f3f7d; p.msk3 = 0xff777b7d; p.msk4 = 0x7ff7fb2f;
        sfmt s(p); w128_t k; k.u64[0] = 12345 + sr2; k.u64[1] = 99;
        s.seed(k);
        std::vector<B> x;
        for (int i = 0; i < 60; i++) x.push_back(get(s.generate()));
        B msk = ((B)p.msk4 << 96) | ((B)p.msk3 << 64) | ((B)p.msk2 << 32) | p.msk1;
        for (size_t i = 5; i < x.size(); i++) {
            B b = x[i - 5 + 2], d = x[i - 1], r = 0, l = 0;
            for (int j = 0; j < 4; j++) {
                r |= (B)((uint32_t)(b >> (32 * j)) >> p.sr1) << (32 * j);
                l |= (B)((uint32_t)(d >> (32 * j)) << p.sl1) << (32 * j);
            }
            B e = x[i - 5] ^ (x[i - 5] << (8 * sl2)) ^ (r & msk) ^ (x[i - 2] >> (8 * sr2)) ^ l;
            if (e != x[i]) return fail("not the recursion of the parameter set");
        }
    }
    return 0;
}
''')
P("C26-mtgpzero", "C26", [(S+"MTGPDC/MTGP32search.hpp", "            for (int i = 0; i < 4; i++) {\n                param.tbl[i] = mt.getUint32();", "            for (int i = 3; i >= 0; i--) {\n                param.tbl[i] = mt.getUint32();")],
  "parameters drawn from a source whose successive values differ", "the table entries are taken from the source in the opposite order, so that a parameter set drawn from a given source is another one",
r'''
// flags: -Isamples/MTGPDC
#include "lingen.hpp"
#include "samples/MTGPDC/MTGP32search.hpp"
using namespace mtgp;
struct Src : public MTToolBox::ParameterGenerator {
    uint32_t v; Src() : v(0) {}
    uint32_t getUint32() { v += 0x11111111; return v; }
    uint64_t getUint64() { return getUint32(); }
    void seed(uint64_t) {}
};
int main() {
    mtgp32 g(607, 0x00010002); Src s; g.setUpParam(s);
    if (g.get_param().tbl[0] != 0x22222220 && g.get_param().tbl[0] != 0x22222222) return fail("first entry");
    if (g.get_param().tbl[1] != 0x33333333) return fail("second entry");
    return 0;
}
''')
P("C26-lung", "C26", [(S+"dSFMTdc/dSFMTsearch.hpp", "            lung.u64[1] = pstate[size * 2 + 1];\n", "            lung.u64[1] = pstate[size * 2];\n")],
  "the high half of the extra word of dSFMT after seeding", "seeding leaves two equal halves in the extra word, so the stream of a seed is another one",
r"""
#include "lingen.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
using namespace MTToolBox;
int main() {
    dSFMT_param p; p.mexp = 521; p.pos1 = 3; p.sl1 = 25; p.msk1 = 0x000fbfefff77efffULL; p.msk2 = 0x000ffeebfbdfbfdfULL;
    int n = (521 - 128) / 104 + 1;
    for (uint64_t k = 1; k < 20; k++) {
        dSFMT s(p); s.setPrefix(0x3ff0000000000000ULL);
        w128_t v; v.u64[0] = k; v.u64[1] = 3 * k; s.seed(v);
        std::vector<uint64_t> a(2 * n + 2, 0);
        a[0] = k; a[1] = 3 * k;
        for (int i = 1; i < 2 * n + 2; i++) a[i] ^= i + 6364136223846793005ULL * (a[i - 1] ^ (a[i - 1] >> 62));
        for (int i = 0; i < 2 * n; i++) a[i] = (a[i] & 0xfffffffffffffULL) | 0x3ff0000000000000ULL;
        uint64_t *L = &a[2 * n];
        int at = 0;
        for (int i = 0; i < 50; i++) {
            at = (at + 1) % n;
            uint64_t *x = &a[2 * at], *b = &a[2 * ((at + 3) % n)], t0 = x[0], t1 = x[1], l0 = L[0], l1 = L[1];
            L[0] = (t0 << 25) ^ (l1 >> 32) ^ (l1 << 32) ^ b[0];
            L[1] = (t1 << 25) ^ (l0 >> 32) ^ (l0 << 32) ^ b[1];
            x[0] = (L[0] >> 12) ^ (L[0] & p.msk1) ^ t0;
            x[1] = (L[1] >> 12) ^ (L[1] & p.msk2) ^ t1;
            w128_t r = s.generate();
            if (r.u64[0] != x[0] || r.u64[1] != x[1]) return fail("not the stream of the seed");
        }
    }
    return 0;
}
""")
P("C26-tmat", "C26", [(S+"TinyMTDC/tinymt32search.hpp", "            param.mat2 ^= 1;\n            param.tmat = 0;\n        }\n", "            param.mat2 ^= 1;\n        }\n")],
  "parameters drawn after a tempering was searched (the second and later parameter sets of one search)", "the new parameter set starts with the tempering of the old one",
r"""
#include "lingen.hpp"
#include "samples/TinyMTDC/tinymt32search.hpp"
using namespace tinymt;
struct Src : public MTToolBox::ParameterGenerator {
    uint32_t v; Src(uint32_t x) : v(x) {}
    uint32_t getUint32() { return v--; }
    uint64_t getUint64() { return getUint32(); }
    void seed(uint64_t) {}
};
int main() {
    tinymt32 a(1), b(1); Src s(1000), t(999);
    a.setUpParam(s); a.setTemperingPattern(0xff000000, 0x3a000000, 0); a.setUpParam(s);
    b.setUpParam(t);
    if (a.getParamString() != b.getParamString()) return fail("the tempering of an earlier parameter set is left");
    a.seed(7); b.seed(7);
    for (int i = 0; i < 20; i++) if (a.generate() != b.generate()) return fail("other outputs");
    return 0;
}
""")
