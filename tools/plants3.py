PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo.lstrip("\n")))
H = "include/MTToolBox/"
S = "samples/"

P("C20-addprev", "C20", [(S+"dSFMTdc/dSFMTsearch.hpp", "            lung ^= that->lung;\n            previous ^= that->previous;\n", "            lung ^= that->lung;\n")],
  "two dSFMT objects that have both been stepped, in the output mode that repeats half of the previous word", "the sum's first output is not the exclusive-or of the two futures",
r'''
#include "lingen.hpp"
#include "samples/dSFMTdc/dSFMTsearch.hpp"
using namespace MTToolBox;
int main() {
    dSFMT_param p; p.mexp = 521; p.pos1 = 2; p.sl1 = 19; p.msk1 = 0x000ffafffffffb3fULL; p.msk2 = 0x000ffdfffc90fffdULL;
    for (int wm = 1; wm <= 2; wm++) for (int sm = 0; sm < 2; sm++) for (int da = 0; da < 7; da++) for (int db = 0; db < 7; db++) {
        dSFMT a(p), b(p);
        w128_t s; s.u64[0] = 12345; s.u64[1] = 6; a.seed(s); s.u64[0] = 777; b.seed(s);
        a.setStartMode(sm); b.setStartMode(sm); a.setWeightMode(wm); b.setWeightMode(wm);
        for (int i = 0; i < da; i++) a.generate();
        for (int i = 0; i < db; i++) b.generate();
        dSFMT c(a); c.add(b);
        for (int i = 0; i < 20; i++) {
            w128_t x = a.generate(), y = b.generate(), z = c.generate();
            if ((x.u64[0] ^ y.u64[0]) != z.u64[0] || (x.u64[1] ^ y.u64[1]) != z.u64[1]) return fail("the sum's outputs");
        }
    }
    return 0;
}
''')
P("C20-zero3", "C20", [(S+"sfmtdc/sfmtsearch.hpp", "return (previous.u[2] == 0) && (previous.u[3] == 0);", "return previous.u[2] == 0;")],
  "an SFMT object in the half-word output mode whose state is zero but whose remembered word is not, in its last lane only", "the zero test says zero although the next output is not",
r'''
#include "lingen.hpp"
#include "samples/sfmtdc/sfmtsearch.hpp"
using namespace MTToolBox;
int main() {
    sfmt_param p; p.mexp = 607; p.pos1 = 2; p.sl1 = 15; p.sl2 = 3; p.sr1 = 13; p.sr2 = 3;
    p.msk1 = 0xfdff37ff; p.msk2 = 0xef7f3f7d; p.msk3 = 0xff777b7d; p.msk4 = 0x7ff7fb2f;
    int seen = 0;
    for (int wm = 1; wm <= 4; wm++) for (int lane = 0; lane < 4; lane++) {
        sfmt a(p), b(p);
        a.setWeightMode(wm); b.setWeightMode(wm);
        // a state whose next output word is the single bit of one lane; the ring word is then cancelled by adding
        // the same state reached without remembering: b holds the ring, a the ring and the word
        sfmt r(p); r.setWeightMode(wm); r.setOneBit(32 * lane + 5);
        for (int i = 0; i < 5; i++) r.generate();          // the word with the one bit has not come round
        sfmt x(r); x.setWeightMode(wm);                    // same ring, nothing remembered
        x.add(r);                                          // ring zero, remembered word = r's
        sfmt y(x); w128_t o = y.generate(); bool z = true;
        for (int i = 0; i < 4; i++) if (o.u[i]) z = false;
        if (x.isZero() && !z) return fail("called zero, but outputs a nonzero word");
        sfmt q(r);
        for (int n = 0; n < 40; n++) {
            q.generate();
            sfmt e(q); e.setWeightMode(wm); e.add(q);
            bool said = e.isZero();
            sfmt f(e); w128_t u = f.generate(); bool zz = true;
            for (int i = 0; i < 4; i++) if (u.u[i]) zz = false;
            if (said != zz) return fail("zero test against the next output");
            if (!zz) seen++;
        }
    }
    return seen ? 0 : fail("nothing seen");
}
''')
X = '#include "lingen.hpp"\n#include "samples/XORSHIFT/xorshift128.c"\n'
P("C24-cert", "C24", [(S+"XORSHIFT/xorshift128.c", "    xor->z = st[2];\n    xor->w = st[3];\n    period_certification(xor);", "    xor->z = st[2];\n    xor->w = st[3];\n    if (length < min_loop) {\n        period_certification(xor);\n    }")],
  "a key of at least eight words whose mixing ends in the zero state", "the generator starts from the zero state and outputs only zeros",
"// flags: -fno-operator-names\n" + X + r'''
int main() {
    static const uint32_t k[3][9] = {
        { 0x67237fd0, 0x52727028, 0xfb37e1b6, 0x282ae029, 0x04105158, 0x99259490, 0x3c76a06a},
        { 0xd6951ce9, 0x5d05b321, 0xf319c3d9, 0x411ff206, 0x6896adb6, 0x4e362ad9, 0xd3be743c, 0x8d4d5e72},
        { 0x2ee71116, 0xc5654bc3, 0xfe1e2d50, 0x3c6d2ce9, 0x170bc587, 0x758f1acd, 0x84a00cde, 0xc4038edd, 0xfeebe8c5}};
    for (int i = 0; i < 3; i++) {
        xorshift128_t x; memset(&x, 0, sizeof x);
        xorshift128_init_by_array(&x, k[i], 7 + i);
        if (!(x.x | x.y | x.z | x.w)) return fail("zero state");
    }
    return 0;
}
''')
P("C24-lastword", "C24", [(S+"XORSHIFT/xorshift128.c", "        count = length + 1;", "        count = length;")],
  "a key of eight or more words", "the last word of the key has no influence, so different keys give equal streams",
"// flags: -fno-operator-names\n" + X + r'''
int main() {
    for (int n = 1; n <= 20; n++) for (int c = 0; c < n; c++) {
        uint32_t k[20]; for (int i = 0; i < n; i++) k[i] = 77 * i + n;
        xorshift128_t a, b; memset(&a, 0, sizeof a); b = a;
        xorshift128_init_by_array(&a, k, n);
        k[c] ^= 1; xorshift128_init_by_array(&b, k, n);
        bool same = true;
        for (int i = 0; i < 8; i++) if (xorshift128_generate(&a) != xorshift128_generate(&b)) same = false;
        if (same) return fail("a key word without influence");
    }
    return 0;
}
''')
import runpy as _r, os as _o
simd = _r.run_path(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "simddemo.py"))["simd"]
SF = simd(dict(dir="sfmtdc", alg="AlgorithmSIMDEquidistribution", own=32)) + r'''
int main() {
    for (int style = 0; style < 9; style++) for (int mode = 32; mode <= 64; mode += 32) for (int lsb = 0; lsb < 2; lsb++) {
        Machine m = machine(style, mode);
        SIMDInfo info; info.bitSize = 128; info.bitMode = mode; info.elementNo = 128 / mode;
        int veq[64], sum = 0;
        Simd g(m); for (int i = 0; i < 3; i++) g.generate();
        int d = calc_SIMD_equidistribution<w128_t, Simd>(g, veq, mode, info, 21, lsb);
        for (int v = 1; v <= mode; v++) { if (veq[v - 1] != expect(m, v, mode, mode - 1, lsb)) return fail("a dimension"); sum += 21 / v - veq[v - 1]; }
        if (sum != d) return fail("the total");
    }
    return 0;
}
'''
DS = simd(dict(dir="dSFMTdc", alg="AlgorithmDSFMTEquidistribution", own=64)) + r'''
int main() {
    for (int style = 0; style < 12; style++) {
        Machine m = machine(style, 64);
        DSFMTInfo info; info.bitSize = 128; info.elementNo = 2;
        int veq[52], sum = 0;
        Simd g(m); for (int i = 0; i < 3; i++) g.generate();
        int d = calc_dSFMT_equidistribution<w128_t, Simd>(g, veq, 52, info, 21);
        for (int v = 1; v <= 52; v++) { if (veq[v - 1] != expect(m, v, 64, 51, false)) return fail("a dimension"); sum += 21 / v - veq[v - 1]; }
        if (sum != d) return fail("the total");
    }
    return 0;
}
'''
P("C21-stale", "C21", [(S+"sfmtdc/AlgorithmSIMDEquidistribution.hpp", "            for (int i = 0; i < bit_len; i++) {\n                veq_weight[i] = -1;\n            }\n", "            for (int i = 0; sm == 0 && i < bit_len; i++) {\n                veq_weight[i] = -1;\n            }\n")],
  "a generator whose lanes differ, so that a later starting lane is worse than the first", "the best bound of an earlier starting lane is carried over and the reported dimension is too large", SF)
P("C21-lsblane", "C21", [(S+"sfmtdc/AlgorithmSIMDEquidistribution.hpp", "                w.u[2] = reverse_bit(w.u[2]);\n                w.u[3] = reverse_bit(w.u[3]);\n", "                w.u[3] = reverse_bit(w.u[2]);\n                w.u[2] = reverse_bit(w.u[3]);\n")],
  "measuring 32-bit integers from the least significant bit", "the third and fourth lane are mixed up", SF)
P("C22-prev", "C22", [(S+"dSFMTdc/AlgorithmDSFMTEquidistribution.hpp", "                    work.setWeightMode(wm);\n                    // previous set\n                    work.generate();\n", "                    work.generate();\n                    // previous set\n                    work.setWeightMode(wm);\n")],
  "the weight mode that shows half of the previous word", "the previous half-word starts out as zero, outside the component being measured", DS)
P("C22-bound", "C22", [(S+"dSFMTdc/AlgorithmDSFMTEquidistribution.hpp", "                    e = e * info.elementNo - (info.elementNo - wm);", "                    e = e * info.elementNo - (sm == 0 ? info.elementNo - wm : 0);")],
  "a run that starts in the second lane", "the incomplete first block is counted in full", DS)
