PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
H = "include/MTToolBox/"

P("C01-bitpos32", "C01", [(H+"util.hpp", "return (bits >> pos) & 1;", "return (static_cast<uint32_t>(bits) >> (pos & 31)) & 1;")],
  "a 64-bit generator and an output bit position of 32 or more", "the sequence of the wrong output bit is used, so the minimal polynomial is that of bit pos-32",
r'''
#include "lingen.hpp"
#include <MTToolBox/period.hpp>
using namespace MTToolBox;
int main() {
    Machine m; m.n = 7; m.A = direct(companion(0xb), companion(0x13)); m.C.assign(64, 0);
    for (int i = 0; i < 64; i++) m.C[i] = i < 32 ? 1 : 1 << 4;         // low half: degree 3, high half: degree 4
    for (int pos = 0; pos < 64; pos += 5) {
        LinGen<uint64_t> g(std::vector<Machine>(1, m)); g.st = 0x7f;
        NTL::GF2X p; minpoly(p, g, pos);
        if (p != poly(pos < 32 ? 0xb : 0x13)) return fail("minimal polynomial of a bit");
    }
    return 0;
}
''')

P("C02-lastfactor", "C02", [("lib/period.cpp", "for (long i = 0; i < len; i++) {", "for (long i = 0; i + 1 < len; i++) {")],
  "an irreducible polynomial whose order misses exactly the last listed prime", "a non-primitive polynomial is accepted",
r'''
#include "lingen.hpp"
#include <MTToolBox/period.hpp>
using namespace MTToolBox; using namespace NTL;
int main() {
    // irreducible polynomials of degree 6, 2^6-1 = 3*3*7: six primitive ones, two of order 21, one of order 9
    const char *fac[] = {"3", "7", NULL};
    Vec<ZZ> z; z.SetLength(2); z[0] = 3; z[1] = 7;
    int count = 0, count2 = 0;
    for (uint64_t f = 64; f < 128; f++) { GF2X p = poly(f); if (isPrime(p, 6, fac)) count++; if (isPrime(p, 6, z)) count2++; }
    if (count != 6 || count2 != 6) return fail("number of primitive polynomials of degree 6");
    return 0;
}
''')

P("C03-swapped", "C03", [("lib/period.cpp", "1257787, 1398269, 2976221,", "1257787, 1398296, 2976221,")],
  "asking about the exponent 1398269 (or 1398296)", "two digits swapped in the list of Mersenne exponents",
r"""
#include "lingen.hpp"
#include <MTToolBox/period.hpp>
int main() {
    if (!MTToolBox::isMexp(1398269)) return fail("1398269 is a Mersenne exponent");
    if (MTToolBox::isMexp(1398296)) return fail("1398296 is even");
    return 0;
}
""")

P("C04-sieved", "C04", [("lib/period.cpp", "return isIrreducible(poly);\n    }", "return m > 1 || isIrreducible(poly);\n    }")],
  "a polynomial with a small factor whose cofactor has the asked degree but splits into two larger factors", "an irreducible factor is reported that does not exist",
r'''
#include "lingen.hpp"
#include <MTToolBox/period.hpp>
using namespace MTToolBox; using namespace NTL;
int main() {
    // x * (degree 5) * (degree 7): no irreducible factor of degree 12
    GF2X p = poly(2) * poly(0x25) * poly(0x83);
    if (hasFactorOfDegree(p, 12)) return fail("factor of degree 12");
    GF2X f; BuildIrred(f, 12);
    p = poly(2) * f;
    if (!hasFactorOfDegree(p, 12) || p != f) return fail("missed factor");
    return 0;
}
''')

P("C05-resume", "C05", [(H+"AlgorithmRecursionSearch.hpp", "            for (int i = 0; i < try_count; i++) {\n                rand->setUpParam", "            for (int i = static_cast<int>(count % 2); i < try_count; i++) {\n                rand->setUpParam")],
  "a search resumed after an odd number of parameter sets had been tried", "the resumed call tries one parameter set too few",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
using namespace MTToolBox;
int main() {
    Machine bad, good; bad.n = good.n = 5; bad.A = companion(0x21); good.A = companion(0x25);
    bad.C.assign(32, 1); good.C.assign(32, 1);
    LinGen<uint32_t> g({bad, good});
    List src{0, 0, 0, 1};
    AlgorithmRecursionSearch<uint32_t> s(g, src);
    if (s.start(3)) return fail("early success");
    if (!s.start(1)) return fail("resumed search");
    if (s.getCount() != 4) return fail("count");
    return 0;
}
''')

P("C06-degree", "C06", [(H+"AlgorithmReducibleRecursionSearch.hpp", "if (deg(irreducible) < mexp) {", "if (deg(irreducible) <= mexp) {")],
  "a parameter set whose minimal polynomial is exactly the irreducible polynomial of the required degree (the rest of the state is not reached from the seed)", "the acceptable parameter set is skipped",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace MTToolBox;
int main() {
    Machine m; m.n = 8; m.A = direct(companion(0x25), companion(0xb)); m.C.assign(32, 1);   // bit 0 only sees the first part
    LinGen<uint32_t> g({m}, 5);
    List src{0, 0};
    AlgorithmReducibleRecursionSearch<uint32_t> s(g, src);
    if (!s.start(1)) return fail("search");
    if (s.getIrreducibleFactor() != poly(0x25)) return fail("factor");
    return 0;
}
''')

P("C07-stop", "C07", [(H+"AlgorithmReducibleRecursionSearch.hpp", "            if (deg(lcmpoly) == size) {", "            if (i > 0 && deg(lcmpoly) == deg(poly) + deg(minpol)) {")],
  "a polynomial handed in that shares no factor with the first bit's minimal polynomial, and a later bit that sees more of the state", "accumulation stops after the first bit, so factors seen by later bits only are missing",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace MTToolBox; using namespace NTL;
int main() {
    Machine m; m.n = 8; m.A = direct(companion(0x25), companion(0xb)); m.C.assign(32, 1); m.C[9] = 1 << 5;
    LinGen<uint32_t> g({m}, 5); g.st = 0xff;
    GF2X p(0, 1);
    ReducibleGenerator<uint32_t> *r = &g;
    calcCharacteristicPolynomial(r, p);
    if (p != poly(0x25) * poly(0xb)) return fail("characteristic polynomial");
    return 0;
}
''')

P("C08-pos64", "C08", [(H+"util.hpp", "y = count_bit((uint64_t)(y & -y) - 1);\n        return 63 - static_cast<int>(y);", "y = count_bit((uint32_t)((y & -y) - 1));\n        return 63 - static_cast<int>(y);")],
  "a 64-bit generator measured at an accuracy below 32, where words have their lowest set bit in the upper half", "the position of the lowest bit is wrong, and with it every k(v) for v < 32 of a 64-bit generator (or the computation fails)",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
using namespace MTToolBox;
int main() {
    for (int r = 0; r < 10; r++) {
        Machine m; m.n = 31; m.A = companion(0x80000009ULL);
        for (int i = 0; i < 64; i++) m.C.push_back(rnd() & 0x7fffffff);
        LinGen<uint64_t> g({m}); g.st = 1 + rnd() % 1000000;
        int veq[64];
        AlgorithmEquidistribution<uint64_t> e(g, 20);
        e.get_all_equidist(veq);
        for (int v = 1; v <= 20; v++) if (veq[v - 1] != dimension<uint64_t>(m, v)) return fail("k(v)");
    }
    return 0;
}
''')

P("C09-sum", "C09", [(H+"AlgorithmEquidistribution.hpp", "            sum += stateBitSize / bit_len - get_equidist_main(bit_len);", "            int bound = stateBitSize / bit_len;\n            int got = get_equidist_main(bit_len);\n            if (got > veq) {\n                sum += bound - got;\n            }")],
  "a generator with a defect at an accuracy where k(v) equals the queried accuracy's k", "the single-accuracy query's sum misses that defect, so it disagrees with the all-accuracy query",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
using namespace MTToolBox;
int main() {
    for (int r = 0; r < 40; r++) {
        Machine m; m.n = 31; m.A = companion(0x80000009ULL);
        for (int i = 0; i < 16; i++) m.C.push_back(1 + rnd() % 0x7ffffffe);
        if (r & 1) {                              // the second bit is the first one three steps later
            uint64_t c = m.C[15];
            for (int k = 0; k < 3; k++) { uint64_t d = 0; for (int i = 0; i < 31; i++) if ((c >> i) & 1) d ^= m.A[i]; c = d; }
            m.C[14] = c;
        }
        LinGen<uint16_t> g({m}); g.st = 1 + rnd() % 127;
        int veq[16], s[17];
        { AlgorithmEquidistribution<uint16_t> e(g, 16); e.get_all_equidist(veq); }
        int sum = 0;
        for (int v = 1; v <= 16; v++) {
            int got; AlgorithmEquidistribution<uint16_t> e(g, v);
            int k = e.get_equidist(&got);
            if (k != veq[v - 1] || got != sum) return fail("single accuracy query");
            sum += 31 / v - veq[v - 1];
        }
    }
    return 0;
}
''')

P("C10-seed", "C10", [(H+"AlgorithmReducibleEquidistribution.hpp", "            calcCharacteristicPolynomial(rand, poly);\n            NTL::GF2X quotient", "            rand->seed(getOne<U>());\n            calcCharacteristicPolynomial(rand, poly);\n            NTL::GF2X quotient")],
  "a reducible generator whose default-seeded state misses a part (here: the large factor's part) that its current state has", "the measurement is made from another state than the one the generator is in",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace MTToolBox;
int main() {
    Machine m; m.n = 8; m.A = direct(companion(0x25), companion(0xb)); m.C.assign(32, 0);
    for (int i = 0; i < 32; i++) m.C[i] = rnd() & 0xff;
    Machine f; f.n = 5; f.A = companion(0x25); for (int i = 0; i < 32; i++) f.C.push_back(m.C[i] & 0x1f);
    LinGen<uint32_t> g({m}, 5); g.start = 1 << 6; g.st = 0xff;      // seeding leads to a state without f-part
    int veq[32];
    AlgorithmReducibleEquidistribution<uint32_t, LinGen<uint32_t> > e(g, poly(0x25), 32, 5);
    e.get_all_equidist(veq);
    for (int v = 1; v <= 32; v++) if (veq[v - 1] != dimension<uint32_t>(f, v)) return fail("k(v) of the large part");
    return 0;
}
''')

P("C11-setup", "C11", [(H+"AlgorithmPartialBitPattern.hpp", "            make_temper_bit(rand, mask, param_pos, min_pattern);\n            if (verbose)", "            rand.setTemperingPattern(mask, min_pattern, param_pos);\n            if (verbose)")],
  "a generator that precomputes its tempering (as MTGP does)", "the generator is left set up with the last pattern tried, not the chosen one",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
using namespace MTToolBox;
int main() {
    for (int r = 0; r < 10; r++) {
        Machine m; m.n = 7; m.A = companion(0x83);
        for (int i = 0; i < 16; i++) m.C.push_back(1 + rnd() % 127);
        LinGen<uint16_t> g({m}); g.temper({3}, true);
        AlgorithmPartialBitPattern<uint16_t, 16, 1, 16, 4> a;
        a(g);
        if (g.act != g.pat) return fail("set-up tempering differs from the chosen pattern");
    }
    return 0;
}
''')

P("C12-range", "C12", [(H+"AlgorithmBestBits.hpp", "            for (int32_t i = (1 << num_pat) -1; i >= 0; i--) {", "            for (int32_t i = (1 << num_pat) -1; i > 0; i--) {")],
  "a level at which leaving every bit clear is strictly better than any other setting", "the all-clear setting is never considered",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace MTToolBox;
int main() {
    int sh[1] = {4}; int full = 0;
    for (int r = 0; r < 60; r++) {
        Machine m; m.n = 7; m.A = companion(0x83);
        for (int i = 0; i < 16; i++) m.C.push_back(1 + rnd() % 127);
        m.C[11] = m.C[15] ^ m.C[14];           // tempering bit 15 would make it equal to bit 14
        LinGen<uint16_t> g({m}); g.temper({4}, false);
        AlgorithmBestBits<uint16_t> a(16, sh, 1, 2);
        a(g);
        // every setting of the two decided bits, level by level
        std::vector<uint64_t> s(1, 0); int best = 0;
        for (int v = 0; v < 2; v++) {
            std::vector<uint64_t> c; std::vector<int> d; best = 1 << 20;
            for (size_t i = 0; i < s.size(); i++) for (int b = 0; b < 2; b++) c.push_back(s[i] | (uint64_t)b << (15 - v));
            for (size_t i = 0; i < c.size(); i++) {
                Machine t = m; int tot = 0;
                for (int j = 15; j >= 4; j--) if ((c[i] >> j) & 1) t.C[j] = m.C[j] ^ m.C[j - 4];
                for (int u = 1; u <= v + 1; u++) tot += 7 / u - dimension<uint16_t>(t, u);
                d.push_back(tot); if (tot < best) best = tot;
            }
            s.clear(); for (size_t i = 0; i < c.size(); i++) if (d[i] == best) s.push_back(c[i]);
        }
        bool ok = false;
        for (size_t i = 0; i < s.size(); i++) if (s[i] == (g.pat[0] & 0xc000)) ok = true;
        if (!ok) return fail("not a best setting");
    }
    return 0;
}
''')

P("C16-longkey", "C16", [(H+"MersenneTwister.hpp", "            if (N > key_length) {\n                k = N;\n            } else {\n                k = key_length;\n            }", "            k = N;")],
  "a key array longer than 624 words", "the key words beyond the 624th are ignored",
r'''
#include "lingen.hpp"
#include <MTToolBox/MersenneTwister.hpp>
using namespace MTToolBox;
int main() {
    std::vector<uint32_t> a(700, 7), b(700, 7); b[699] = 8;
    MersenneTwister x(&a[0], 700), y(&b[0], 700);
    bool same = true;
    for (int i = 0; i < 100; i++) if (x.getUint32() != y.getUint32()) same = false;
    return same ? fail("the last key word has no influence") : 0;
}
''')

P("C17-copy", "C17", [(H+"Sequential.hpp", "            error = src.error;", "            error = (src.status <= 0);")],
  "a copy of a source that is about to deliver its last value, or of an exhausted one", "the copy loses the last value, or delivers values again after the end",
r'''
#include "lingen.hpp"
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox;
int main() {
    Sequential<uint32_t> s(0, 2);
    s.next(); s.next();
    Sequential<uint32_t> c(s);
    try { if (c.next() != 0) return fail("value"); } catch (std::exception&) { return fail("copy is exhausted too early"); }
    try { c.next(); return fail("not exhausted"); } catch (std::underflow_error&) {}
    return 0;
}
''')

P("C18-range", "C18", [(H+"util.hpp", "        return static_cast<int>(input % static_cast<unsigned int>((end - start + 1)))", "        return static_cast<int>(static_cast<unsigned int>(input) % static_cast<unsigned int>((end - start + 1)))")],
  "a 64-bit value of 2^32 or more mapped into a range whose length is not a power of two", "the value is truncated before the remainder is taken",
r'''
#include "lingen.hpp"
#include <MTToolBox/util.hpp>
using namespace MTToolBox;
int main() {
    for (int i = 0; i < 1000; i++) {
        uint64_t x = rnd();
        if (get_range(x, 3, 12) != (int)(x % 10) + 3) return fail("get_range");
    }
    return 0;
}
''')

P("C19-shift", "C19", [("samples/sfmtdc/w128.hpp", "            r.u64[1] = x.u64[0] << s;\n            r.u64[0] = 0;", "            r.u64[1] = (x.u64[0] << s) | (x.u64[1] >> (64 - s));\n            r.u64[0] = 0;")],
  "a left shift by more than 64 of a word with bits in the upper half", "bits of the upper half come back into the result",
r'''
#include "lingen.hpp"
#include <iomanip>
#include <NTL/vec_GF2.h>
#include <MTToolBox/util.hpp>
#include "samples/sfmtdc/w128.hpp"
using namespace MTToolBox;
int main() {
    for (int s = 0; s < 128; s++) {
        w128_t x; x.u64[0] = rnd(); x.u64[1] = rnd();
        w128_t y = x << s;
        for (int b = 0; b < 128; b++)
            if (getBitOfPos(y, b) != (b < s ? 0 : getBitOfPos(x, b - s))) return fail("shift");
    }
    return 0;
}
''')
