PLANTS = []
def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
H = "include/MTToolBox/"

P("C14-early", "C14", [(H+"AlgorithmCalculateParity.hpp", "if (count >= base_num) {", "if (count >= base_num || bit_pos >= mexp) {")],
  "a generator whose first mexp state bits do not reach every word of the states without large part", "the certification vector is odd on a state without large part",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmCalculateParity.hpp>
using namespace MTToolBox;
int main() {
    Machine m; m.A = direct(companion(0x1053), companion(0x13)); m.n = 16; m.C.assign(16, 1);
    LinGen<uint16_t> g(std::vector<Machine>(1, m), 4);
    AlgorithmCalculateParity<uint16_t, LinGen<uint16_t> > c;
    uint16_t v = c.searchParity(g, poly(0x13));
    if (v == 0 || g.par != v) return fail("no vector installed");
    for (uint64_t s = 0; s < 4096; s++)                    // the last four bits are the large part
        if (__builtin_parityll(s & v)) return fail("a state without large part passes the certification");
    return 0;
}
''')
P("C15-last", "C15", [(H+"TestLinearity.hpp", "            for (int i = 0; i < 100; i++) {\n                U res1", "            for (int i = 0; i + 1 < 100; i++) {\n                U res1")],
  "a generator that deviates from linearity first in its hundredth output, and not when a state is added to itself", "the deviation in the last output of the window is missed",
r'''
#include "lingen.hpp"
#include <MTToolBox/TestLinearity.hpp>
using namespace MTToolBox;
struct Dev : public EquidistributionCalculatable<uint32_t> {      // a register; output number at is bent when two state bits are set
    uint32_t s; int n, at;
    Dev(int a) : s(1), n(0), at(a) {}
    Dev(const Dev& o) : AbstractGenerator<uint32_t>(), EquidistributionCalculatable<uint32_t>(), s(o.s), n(o.n), at(o.at) {}
    uint32_t generate() { s ^= s << 13; s ^= s >> 17; s ^= s << 5; n++; uint32_t y = s; if (n == at && __builtin_popcount(s) > 0 && (s * (uint64_t)(s >> 3) & 1 || s > 9)) y ^= 4; return y; }
    uint32_t generate(int) { return generate(); }
    void seed(uint32_t v) { s = v * 2654435761u | 1; n = 0; }
    int bitSize() const { return 32; }
    EquidistributionCalculatable<uint32_t> *clone() const { return new Dev(*this); }
    void add(EquidistributionCalculatable<uint32_t>& o) { s ^= dynamic_cast<Dev&>(o).s; }
    void setZero() { s = 0; n = 0; }
    bool isZero() const { return s == 0; }
    const std::string getHeaderString() { return ""; }
    const std::string getParamString() { return ""; }
    void setUpParam(ParameterGenerator&) {}
};
int main() {
    TestLinearity<uint32_t> t;
    for (int at = 1; at <= 100; at++) { Dev d(at); if (t(d)) return fail("a bent output in the window is accepted"); }
    Dev d(101); if (!t(d)) return fail("a deviation outside the window is rejected");
    return 0;
}
''')
P("C13-reversed", "C13", [(H+"AlgorithmRecursionAndTempering.hpp", "                    lg.resetReverseOutput();\n", "")],
  "a verbose search with a least-significant-bit step, and a main step that does not itself switch bit reversal off", "the generator is left bit-reversed and the reported defect is that of the reversed output: verbosity changes the result",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
using namespace MTToolBox;
struct Nop : public AlgorithmTempering<uint32_t> {
    bool lsb; Nop(bool l) : lsb(l) {}
    int operator()(TemperingCalculatable<uint32_t>&, bool) { return 0; }
    bool isLSBTempering() const { return lsb; }
};
static int run(bool verbose, int& delta) {
    Machine m; m.A = companion(0x13); m.n = 4; m.C.assign(32, 1);
    for (int i = 0; i < 16; i++) m.C[i] = 1 + i % 15; 
    LinGen<uint32_t> g(std::vector<Machine>(1, m));
    List src{0, 0, 0, 0};
    AlgorithmRecursionAndTempering<uint32_t> s(src);
    Nop main(false), lsb(true); std::ostringstream os;
    std::streambuf *o = std::cout.rdbuf(os.rdbuf());
    bool r = s.search(g, main, lsb, verbose, os);
    std::cout.rdbuf(o);
    delta = s.getDelta();
    return r && !g.rev;
}
int main() {
    int a = 0, b = 0;
    if (!run(false, a) || !run(true, b)) return fail("not found, or left reversed");
    return a == b ? 0 : fail("verbosity changes the defect");
}
''')
P("C13-cofactor", "C13", [(H+"AlgorithmReducibleRT.hpp", "            weight = static_cast<int>(NTL::weight(poly));\n            GF2X lcm(0, 1);\n            calcCharacteristicPolynomial(&rg, lcm);", "            weight = static_cast<int>(NTL::weight(poly));\n            GF2X lcm = search.getCharacteristicPolynomial();")],
  "a reducible generator whose lowest output bit does not show every factor of the state", "the rest of the state is not removed, so the reported defect is not that of the maximal-period part",
r'''
#include "lingen.hpp"
#include <MTToolBox/AlgorithmReducibleRT.hpp>
using namespace MTToolBox;
struct Nop : public AlgorithmTempering<uint16_t> { int operator()(TemperingCalculatable<uint16_t>&, bool) { return 0; } };
int main() {
    Machine m; m.A = direct(companion(0x25), companion(0x13)); m.n = 9; m.C.assign(16, 0);
    for (int i = 0; i < 16; i++) m.C[i] = (i * 37 + 5) % 31 + 1 + (i ? (uint64_t)(i & 15) << 5 : 0);      // bit 0 sees the first part only
    LinGen<uint16_t> g(std::vector<Machine>(1, m), 5); g.start = 0x1ff;
    List src{0, 0};
    AlgorithmReducibleRecursionAndTempering<uint16_t, LinGen<uint16_t> > s(src);
    Nop st; std::ostringstream os;
    if (!s.search(g, st, false, os)) return fail("not found");
    Machine f; f.A = companion(0x25); f.n = 5; f.C.resize(16);
    for (int i = 0; i < 16; i++) f.C[i] = m.C[i] & 31;
    int d = 0;
    for (int v = 1; v <= 16; v++) d += 5 / v - dimension<uint16_t>(f, v);
    return d == s.getDelta() ? 0 : fail("defect of the large part");
}
''')
